"""Driver for the Python runtime primitives: bit streams, floats, bit buffers."""
import struct
import sys

sys.path.insert(0, sys.argv[1])
if sys.argv[2] != "-":
    import os
    os.environ["ZSERIO_PYTHON_IMPLEMENTATION"] = "cpp"
    sys.path.insert(0, sys.argv[2])
else:
    import os
    os.environ["ZSERIO_PYTHON_IMPLEMENTATION"] = "python"
import zserio                                   # noqa
import zserio.float as zf                       # noqa
import zserio.bitsizeof as bs                   # noqa
from zserio import BitBuffer, BitStreamReader, BitStreamWriter, PythonRuntimeException     # noqa
from zserio.bitposition import alignto          # noqa

KNOWN = (PythonRuntimeException,)


def f32(h):
    return struct.unpack(">f", bytes.fromhex(h.zfill(8)))[0]


def f64(h):
    return struct.unpack(">d", bytes.fromhex(h.zfill(16)))[0]


NAMES = {"vi16": "varint16", "vi32": "varint32", "vi64": "varint64", "vi": "varint", "vu16": "varuint16",
         "vu32": "varuint32", "vu64": "varuint64", "vu": "varuint", "vs": "varsize"}


def write_op(w, o):
    k = o[0]
    if k in ("u", "U"):
        w.write_bits(int(o[2]), int(o[1]))
    elif k in ("s", "S"):
        w.write_signed_bits(int(o[2]), int(o[1]))
    elif k in NAMES:
        getattr(w, "write_" + NAMES[k])(int(o[1]))
    elif k == "f16":
        w.write_float16(f32(o[1]))
    elif k == "f32":
        w.write_float32(f32(o[1]))
    elif k == "f64":
        w.write_float64(f64(o[1]))
    elif k == "str":
        w.write_string(bytes.fromhex(o[1]).decode("utf-8"))
    elif k == "by":
        w.write_bytes(bytearray.fromhex(o[1]))
    elif k == "bb":
        w.write_bitbuffer(BitBuffer(bytes.fromhex(o[2]), int(o[1])))
    elif k == "b":
        w.write_bool(o[1] == "1")
    elif k == "al":
        w.alignto(int(o[1]))
    else:
        raise RuntimeError("op " + k)


def read_op(r, o):
    k = o[0]
    if k in ("u", "U"):
        return str(r.read_bits(int(o[1])))
    if k in ("s", "S"):
        return str(r.read_signed_bits(int(o[1])))
    if k in NAMES:
        return str(getattr(r, "read_" + NAMES[k])())
    if k == "f16":
        return struct.pack(">f", r.read_float16()).hex()
    if k == "f32":
        return struct.pack(">f", r.read_float32()).hex()
    if k == "f64":
        return struct.pack(">d", r.read_float64()).hex()
    if k == "str":
        return "x" + r.read_string().encode("utf-8").hex()
    if k == "by":
        return "x" + bytes(r.read_bytes()).hex()
    if k == "bb":
        b = r.read_bitbuffer()
        return "%dx%s" % (b.bitsize, bytes(b.buffer).hex())
    if k == "b":
        return "1" if r.read_bool() else "0"
    if k == "al":
        r.alignto(int(o[1]))
        return ""
    if k == "sp":
        r.bitposition = int(o[1])
        return ""
    raise RuntimeError("op " + k)


def size_op(o):
    k = o[0]
    if k in NAMES:
        return str(getattr(bs, "bitsizeof_" + NAMES[k])(int(o[1])))
    if k == "str":
        return str(bs.bitsizeof_string(bytes.fromhex(o[1]).decode("utf-8")))
    if k == "by":
        return str(bs.bitsizeof_bytes(bytearray.fromhex(o[1])))
    if k == "bb":
        return str(bs.bitsizeof_bitbuffer(BitBuffer(bytes.fromhex(o[2]), int(o[1]))))
    if k == "al":
        return str(alignto(int(o[1]), int(o[2])))
    raise RuntimeError("size op " + k)


def execute(a):
    out = ""
    if a[0] == "W":
        w = BitStreamWriter()
        for i, op in enumerate(a[3:]):
            try:
                write_op(w, op.split(":"))
                out += "%d," % w.bitposition
            except KNOWN:
                return "E%d|%d|%s|%s" % (i, w.bitposition, out, bytes(w.byte_array).hex())
        return "OK|%s|%s" % (out, bytes(w.byte_array).hex())
    if a[0] == "R":
        data = bytes.fromhex(a[1])
        if a[3] == "1":
            r = BitStreamReader.from_bitbuffer(BitBuffer(data, int(a[2])))
        elif a[3] == "0":
            r = BitStreamReader(data, int(a[2]))
        else:
            r = BitStreamReader(buffer=data, bitsize=int(a[2]))
        for i, op in enumerate(a[4:]):
            try:
                out += "%s@%d," % (read_op(r, op.split(":")), r.bitposition)
            except KNOWN:
                return "E%d|%s" % (i, out)
        return "OK|" + out
    if a[0] == "Z":
        try:
            return "OK|" + size_op(a[1].split(":"))
        except KNOWN:
            return "E"
    if a[0] == "H16":
        for i in range(int(a[1]), int(a[2])):
            f = zf.uint16_to_float(i)
            out += struct.pack(">f", f).hex() + "%04x" % zf.float_to_uint16(f)
        return "OK|" + out
    if a[0] == "F":
        for h in a[1:]:
            f = f32(h)
            out += "%04x%08x%s," % (zf.float_to_uint16(f), zf.float_to_uint32(f),
                                    struct.pack(">f", zf.uint32_to_float(zf.float_to_uint32(f))).hex())
        return "OK|" + out
    if a[0] == "D":
        for h in a[1:]:
            f = f64(h)
            out += "%016x%s," % (zf.float_to_uint64(f), struct.pack(">d", zf.uint64_to_float(zf.float_to_uint64(f))).hex())
        return "OK|" + out
    if a[0] == "Q":
        b = []
        for i in range(1, len(a) - 1, 2):
            try:
                b.append(BitBuffer(bytes.fromhex(a[i + 1]), int(a[i])))
            except KNOWN:
                return "E%d" % (i // 2)
        eq = "".join("1" if x == y else "0" for x in b for y in b)
        ne = "".join("0" if x != y else "1" for x in b for y in b)
        if eq != ne:
            return "NE|" + ne
        hs = "".join("1" if hash(x) == hash(y) else "0" for x in b for y in b)
        data = "".join("%d:%d:%s," % (x.bitsize, (x.bitsize + 7) // 8, bytes(x.buffer).hex()) for x in b)
        return "OK|%s|%s|%s|" % (eq, hs, data)
    return "?"


for line in sys.stdin:
    try:
        res = execute(line.rstrip("\n").split("\t"))
    except KNOWN as e:
        res = "ERR|%s" % e
    except Exception as e:
        res = "EXC|%s|%s" % (type(e).__name__, e)
    print(res.replace("\n", " "), flush=True)
