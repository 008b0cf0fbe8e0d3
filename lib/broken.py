"""Request bodies that are not XML-RPC calls: ("broken" | "structure" | "invalid", bytes).
"broken" is not well-formed, "structure" is well-formed with the wrong elements, "invalid" may count as either."""
import xml.parsers.expat

SCALARS = ["<int>5</int>", "<i4>-7</i4>", "<i8>123456789012</i8>", "<boolean>1</boolean>", "<string>a &amp; b</string>", "<double>1.5</double>",
           "<base64>AAEC</base64>", "<dateTime.iso8601>20200101T10:20:30</dateTime.iso8601>", "<nil/>", "plain text", "",
           "<array><data><value><int>1</int></value><value>x</value></data></array>",
           "<struct><member><name>k</name><value><int>1</int></value></member><member><name>l</name><value/></member></struct>"]

H, T = "<methodCall><methodName>m</methodName><params>", "</params></methodCall>"


def V(x):
    return H + "<param><value>" + x + "</value></param>" + T


STRUCTURE = [
    "<methodResponse><params/></methodResponse>", "<x/>", "<methodCall/>", "<methodCall></methodCall>", "<methodCall><params/></methodCall>",
    "<methodCall><x/></methodCall>", "<methodCall><params/><methodName>m</methodName></methodCall>",
    "<methodCall><methodName>m</methodName><methodName>m</methodName></methodCall>",
    "<methodCall><methodName>m</methodName><bogus/></methodCall>",
    "<methodCall><methodName>m</methodName><params><bogus/></params></methodCall>",
    "<methodCall><methodName>m</methodName><params><value><int>1</int></value></params></methodCall>",
    "<methodCall><methodName>m</methodName><params><param><bogus/></param></params></methodCall>",
    "<methodCall><methodName>m</methodName><params><param><int>1</int></param></params></methodCall>",
    "<methodcall><methodName>m</methodName></methodcall>", "<methodCall><methodname>m</methodname></methodCall>",
    "<methodCall><methodName><x/></methodName></methodCall>",
    "<params><param><value/></param></params>", "<value><int>1</int></value>", "<methodName>m</methodName>",
    V("<bogus>1</bogus>"), V("<Int>1</Int>"), V("<array><value/></array>"), V("<array><data><int>1</int></data></array>"), V("<array><bogus/></array>"),
    V("<struct><name>a</name></struct>"), V("<struct><member><value/></member></struct>"), V("<struct><member><name>a</name></member></struct>"),
    V("<struct><member/></struct>"), V("<struct><member><bogus/></member></struct>"), V("<struct><member><value/><name>a</name></member></struct>"),
    V("<struct><value/></struct>"), V("<value/>"), V("<data/>"), V("<member/>"), V("<param/>"),
    V("<struct><member><name>a</name><name>b</name><value/></member></struct>"),
]

BROKEN = ["", "junk", "<", "<methodCall", "<methodCall>", "<methodCall><methodName>m</methodCall>", "<a><b></a></b>", V("<int>1</i4>"), V("&undefined;"), V("a & b"), V("<string>a<b</string>"),
          H, T, "<?xml version=\"1.0\"?>", "<!-- x -->", V("") + V(""), V("") + "junk", V("") + "<x/>", "<x a=1/>" + V(""), V("<string a=\"1\" a=\"2\">x</string>"), V("\x01"), V("&#1;"), V("&#0;"),
          "x" + V(""), V("<string>]]></string>"), V("<![CDATA[x"), V("<!-- -- -->"), "<1/>", "<?xml version=\"1.0\" encoding=\"nosuchcharset\"?>" + V("")]


def wellformed(b):
    p = xml.parsers.expat.ParserCreate()
    try:
        p.Parse(b, True)
        return True
    except Exception:
        return False


def documents(rng, n):
    out = [("structure", x.encode()) for x in STRUCTURE] + [("broken", x.encode()) for x in BROKEN]
    out += [("broken", V("").encode("utf-8").replace(b"value", b"\xff", 1)), ("broken", V("<string>\xff</string>").encode("latin1"))]
    for b in (x[1] for x in out):
        pass
    full = ["<?xml version=\"1.0\"?>" + H + "".join("<param><value>%s</value></param>" % s for s in SCALARS) + T]
    full += [V(s) for s in SCALARS]
    # every truncation
    cuts = [("broken", f.encode()[:i]) for f in full for i in range(1, len(f.encode()))]
    keep = cuts if len(cuts) <= n // 2 else rng.sample(cuts, n // 2)
    out += keep
    # single characters changed so that it is not well-formed any more
    while len(out) < n:
        b = bytearray(rng.choice(full).encode())
        i = rng.randrange(len(b))
        x = rng.random()
        if x < .4:
            b[i] = rng.choice(b"<>/&;\"a\x00\x01\xff=")
        elif x < .7:
            del b[i]
        else:
            b.insert(i, rng.choice(b"<>/&\x02\xfe"))
        b = bytes(b)
        if not wellformed(b) and b"\x00" not in b:
            out.append(("invalid", b))
    return out
