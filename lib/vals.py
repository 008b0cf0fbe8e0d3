"""Values: Python form, canonical text (harness/valtext.h) and XML."""
import base64, struct
from srv import hx, esc

TEXTS = ["", "a", " ", "  x ", "\t", "\n", "a\nb", "<&>\"'", "]]>", "&amp;", "&#65;", "é", "Ж漢字", "\U0001f600", "-", "0", "true", "<value>", "a" * 300, " ", "nil",
         "</string>", "%s%n", " ", "�", "x\x7fy", "<!-- c -->", "<![CDATA[q]]>", "\r", "a\r\nb"]
INTS = [0, 1, -1, 7, 255, 65536, 2147483647, -2147483648, 2147483646, 1000000000]
LONGS = [0, 1, -1, 2147483648, -2147483649, 9223372036854775807, -9223372036854775808, 4294967296, 1234567890123]
DOUBLES = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-5, 123456.789, 1e15, 1e17, 1e300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1 / 3.0, 3.141592653589793, -2.5e-10]
BLOBS = [b"", b"\0", b"a", b"ab", b"abc", b"\xff\xfe\xfd", bytes(range(256)), b"\0" * 57, b"x" * 58, b"\r\n\t "]
DATES = ["19980717T14:08:55", "20000229T00:00:00", "20261231T23:59:59", "19000101T00:00:00", "99991231T23:59:59"]


def scalar(rng, texts=TEXTS):
    k = rng.choice("ilTFdsssbDn")
    if k == "i":
        return ("i", rng.choice(INTS) if rng.random() < .6 else rng.randrange(-2**31, 2**31))
    if k == "l":
        return ("l", rng.choice(LONGS) if rng.random() < .6 else rng.randrange(-2**63, 2**63))
    if k == "d":
        if rng.random() < .6:
            return ("d", rng.choice(DOUBLES))
        while True:
            x = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
            if x == x and abs(x) != float("inf"):
                return ("d", x)
    if k == "s":
        return ("s", rng.choice(texts) if rng.random() < .7 else "".join(rng.choice(texts) for _ in range(rng.randrange(1, 5))))
    if k == "b":
        return ("b", rng.choice(BLOBS) if rng.random() < .6 else bytes(rng.randrange(256) for _ in range(rng.randrange(200))))
    if k == "D":
        return ("D", rng.choice(DATES))
    return (k,)


def value(rng, depth=3, width=3, texts=TEXTS):
    if depth <= 0 or rng.random() < .5:
        return scalar(rng, texts)
    if rng.random() < .5:
        return ("[", [value(rng, depth - 1, width, texts) for _ in range(rng.randrange(width + 1))])
    d = {}
    for _ in range(rng.randrange(width + 1)):
        d[rng.choice(texts) if rng.random() < .7 else "m%d" % rng.randrange(9)] = value(rng, depth - 1, width, texts)
    return ("{", d)


def canon(v):
    k = v[0]
    if k in "nTF":
        return k
    if k in "il":
        return "%s%d" % (k, v[1])
    if k == "d":
        return "d%016x" % struct.unpack(">Q", struct.pack(">d", v[1]))[0]
    if k == "s":
        return "s" + hx(v[1])
    if k == "b":
        return "b" + v[1].hex()
    if k == "D":
        return "D" + v[1]
    if k == "[":
        return "[" + ",".join(canon(x) for x in v[1]) + "]"
    m = {n.encode(): x for n, x in v[1].items()}
    return "{" + ",".join(n.hex() + "=" + canon(m[n]) for n in sorted(m)) + "}"


def xml(v, rng=None):
    """the <value> element"""
    k = v[0]
    c = rng.choice if rng else lambda l: l[0]
    if k == "n":
        x = c(["<nil/>", "<nil></nil>"])
    elif k in "TF":
        x = "<boolean>%d</boolean>" % (k == "T")
    elif k == "i":
        t = c(["int", "i4"])
        x = "<%s>%d</%s>" % (t, v[1], t)
    elif k == "l":
        x = "<i8>%d</i8>" % v[1]
    elif k == "d":
        x = "<double>%s</double>" % repr(v[1])
    elif k == "s":
        x = c(["<string>%s</string>", "%s" if v[1].strip() else "<string>%s</string>"]) % esc(v[1])
    elif k == "b":
        x = "<base64>%s</base64>" % base64.b64encode(v[1]).decode()
    elif k == "D":
        x = "<dateTime.iso8601>%s</dateTime.iso8601>" % v[1]
    elif k == "[":
        x = "<array><data>%s</data></array>" % "".join(xml(y, rng) for y in v[1])
    else:
        x = "<struct>%s</struct>" % "".join("<member><name>%s</name>%s</member>" % (esc(n), xml(y, rng)) for n, y in v[1].items())
    return "<value>%s</value>" % x
