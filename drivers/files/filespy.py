"""Serialization utilities of the Python runtime."""
import zserio


def failure(f):
    try:
        f()
    except (zserio.PythonRuntimeException, OSError):
        return "known"
    except RuntimeError:        # exceptions of the C++ runtime which come through the binding
        return "known"
    except Exception as e:      # noqa
        return "unknown:%s" % type(e).__name__
    return "silent"


def differs(o, x):
    if o != x:
        raise ValueError


def cmd_fi(a):
    t = D.TYPES[a[0]]
    o = D.object_of(t, a[2])
    f = a[1] + "/file.bin"
    read = []
    b = zserio.serialize(o)
    res = ["%d:%s" % (b.bitsize, bytes(b.buffer).hex())]
    read.append(zserio.deserialize(t.cls, b))
    data = zserio.serialize_to_bytes(o)
    res.append(bytes(data).hex())
    read.append(zserio.deserialize_from_bytes(t.cls, data))
    with open(f, "wb") as out:
        out.write(b"junk" * 5000)
    zserio.serialize_to_file(o, f)
    with open(f, "rb") as inp:
        res.append(inp.read().hex())
    read.append(zserio.deserialize_from_file(t.cls, f))
    flags = "".join("01"[x == o and D.dumps(t, x) == D.dumps(t, o)] for x in read) + "1" * 12
    j = a[1] + "/file.json"
    text = zserio.to_json_string(o)
    zserio.to_json_file(o, j)
    with open(j, "rb") as inp:
        flags += "01"[inp.read() == text.encode("utf-8")]
    flags += "01"[failure(lambda: differs(o, zserio.from_json_file(t.cls, j))) ==
                  failure(lambda: differs(o, zserio.from_json_string(t.cls, text)))]
    res.append(flags)
    fs = ""
    for p in (a[1] + "/no/such", a[1], "/dev/full"):
        fs += failure(lambda: zserio.serialize_to_file(o, p)) + ","
        fs += failure(lambda: zserio.to_json_file(o, p)) + ","
    for p in (a[1] + "/no/such", a[1]):
        fs += failure(lambda: zserio.deserialize_from_file(t.cls, p)) + ","
        fs += failure(lambda: zserio.from_json_file(t.cls, p)) + ","
    return res + [fs]


CMDS = {"FI": cmd_fi}
