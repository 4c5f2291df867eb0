"""SQLite for the Java driver (which has no JDBC driver): executes statements of many connections, values as tokens."""
import sqlite3
import struct
import sys

cons = {}


def val(t):
    k, r = t[0], t[1:]
    if k == "n":
        return None
    if k == "i":
        return int(r)
    if k == "d":
        return struct.unpack(">d", bytes.fromhex(r))[0]
    if k == "s":
        return bytes.fromhex(r).decode("utf-8")
    return bytes.fromhex(r)


def tok(v):
    if v is None:
        return "n"
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "d" + struct.pack(">d", v).hex()
    if isinstance(v, str):
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    return "y" + bytes(v).hex()


for line in sys.stdin:
    a = line.rstrip("\n").split(" ")
    try:
        if a[0] == "O":
            con = sqlite3.connect(bytes.fromhex(a[1]).decode(), isolation_level=None)
            con.text_factory = lambda b: b.decode("utf-8", "replace")
            cons[a[2]] = con
            r = "OK"
        elif a[0] == "C":
            cons.pop(a[1]).close()
            r = "OK"
        else:
            cur = cons[a[1]].execute(bytes.fromhex(a[2]).decode(), [val(t) for t in a[3:]])
            if cur.description is None:
                r = "OK"
            else:
                r = "Q" + "".join(" " + ",".join(tok(v) for v in row) for row in cur)
            cur.close()
    except sqlite3.Error as e:
        r = "E " + str(e).encode().hex()
    print(r, flush=True)
