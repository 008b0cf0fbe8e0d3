"""Checks of documents, values and codecs (XmlRpc.tla, Codec.tla, ValueHeap.tla)."""
import base64, random, struct, sys
from xml.parsers import expat
import vals
from c_server import tla, pick
from srv import hx, esc

sys.setrecursionlimit(20000)
ASSUME = [
    "libxml2, the C library's number conversion and the C++ runtime behave as documented",
    "expat (Python) decides whether a document is well-formed XML and splits it into elements and text; the number a decimal text stands for is computed by Python",
    "nesting deeper than 1000 elements, duplicate member names, booleans other than 0 and 1, number texts with blanks and special doubles are left open",
]


# ---------------------------------------------------------------- values as JSON
def jval(s):
    v, i = _jv(s, 0)
    assert i == len(s), s
    return v


def _jv(s, i):
    c = s[i]
    if c in "nTF":
        return [c], i + 1
    if c == "[":
        out = []
        i += 1
        if s[i] == "]":
            return ["[", out], i + 1
        while True:
            v, i = _jv(s, i)
            out.append(v)
            i += 1
            if s[i - 1] == "]":
                return ["[", out], i
    if c == "{":
        out = {}
        i += 1
        if s[i] == "}":
            return ["{", out], i + 1
        while True:
            j = s.index("=", i)
            k = "k" + s[i:j]
            out[k], i = _jv(s, j + 1)
            i += 1
            if s[i - 1] == "}":
                return ["{", out], i
    j = i + 1
    while j < len(s) and s[j] not in ",]}":
        j += 1
    return [c, s[i + 1:j]], j


def size(v):
    """characters of text and bytes of data in a value"""
    k = v[0]
    if k in "sb":
        return len(v[1]) // 2
    if k == "[":
        return sum(size(x) for x in v[1])
    if k == "{":
        return sum(len(n) // 2 + size(x) for n, x in v[1].items())
    return 0


# ---------------------------------------------------------------- documents as tokens
def bits(t):
    try:
        x = float(t)
    except ValueError:
        return ""
    if x != x or abs(x) == float("inf") or any(c not in "0123456789+-.eE" for c in t):
        return ""
    if x == 0 and any(c in "123456789" for c in t.lower().split("e")[0]) or 0 < abs(x) < 5e-324:
        return ""         # underflow: left open
    return "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


def text_token(t):
    return {"o": "text", "h": hx(t), "c": [ord(c) for c in t], "d": bits(t)}


def tokens(doc):
    toks, cur, odd = [], [None], [False]

    def flush():
        if cur[0]:
            toks.append(text_token(cur[0]))
        cur[0] = None

    p = expat.ParserCreate()
    p.buffer_text = False

    def start(n, a):
        flush()
        if ":" in n:
            pre, n = n.split(":", 1)
            odd[0] = odd[0] or pre != "x" or not n or ":" in n
        toks.append({"o": "open", "t": n})

    def end(n):
        flush()
        toks.append({"o": "close"})

    def data(s):
        cur[0] = (cur[0] or "") + s

    def other(*a):
        flush()
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, data
    p.CommentHandler = p.ProcessingInstructionHandler = p.StartCdataSectionHandler = p.EndCdataSectionHandler = other
    try:
        p.Parse(doc, True)
        flush()
    except expat.ExpatError:
        flush()
        toks.append({"o": "broken"})
    if odd[0]:
        toks.append({"o": "any"})
    return toks


class VScn:
    """A batch of operations on documents, values or codecs."""

    def __init__(self, sid):
        self.sid, self.lines, self.want, self.meta = sid, [], {}, {}

    def add(self, line, what):
        self.want[len(self.lines)] = what
        self.lines.append(line)

    def opt(self, i="", l="", omit=False):
        self.add("opt dint=%s d64=%s omit=%d" % (i or "-", l or "-", omit), {"e": "opt", "i": i, "l": l})

    def doc(self, kind, d, toks=None):
        if isinstance(d, str):
            d = d.encode()
        if not d:
            return
        self.add("p%s %s" % (kind, d.hex()), {"e": "doc", "k": kind, "t": toks, "_d": d})

    def dump(self, kind, args, v, omit=False):
        """v: expected outcome record"""
        self.add("d%s %s" % (kind, args), {"e": "dump", "k": kind, "v": v, "omit": omit})

    def project(self, events, status):
        out = [{"e": "cfg", "sid": self.sid}]
        cur, doc = None, None
        for line in events:
            w = line.split(" ")
            if w[0] == "#":
                cur = self.want[int(w[1])]
                if cur["e"] == "opt":
                    out.append(cur)
            elif w[0] == "doc":
                doc = None if w[1] == "exc" else bytes.fromhex(w[1])
                if doc is None:
                    out.append({"e": "notwritten", "v": cur["v"], "line": line})
            elif w[0] in ("res", "back"):
                self.result(out, cur, doc, line)
            elif w[0] == "live":
                out.append({"e": "live", "n": int(w[1])})
            else:
                out.append({"e": w[0], "line": line[:200]})
        if status != "exit0":
            out.append({"e": "crash", "status": status})
        return out

    def result(self, out, cur, doc, line):
        e = cur["e"]
        if e in ("doc", "dump"):
            res, _, rest = line.partition(" | ")
            w = res.split(" ")
            q = dict(x.split("=") for x in rest.split(" ")[:2])
            r, sz = {"k": w[1]}, 0
            if w[1] == "ok" and cur["k"] == "req":
                v = jval(w[3])
                r["n"], r["v"] = w[2], v[1]
                sz = len(w[2]) // 2 + size(v)
            elif w[1] == "ok":
                r["v"] = jval(w[2])
                sz = size(r["v"])
            elif w[1] == "fault":
                r["c"], r["v"] = w[2], w[3] if len(w) > 3 else ""
                sz = len(r["v"]) // 2
            d = cur["_d"] if e == "doc" else doc
            x = {"e": e, "k": cur["k"], "t": cur.get("t") or tokens(d), "r": r, "live": int(q["live"]), "io": int(q["io"]),
                 "size": sz, "len": len(d), "doc": d[:3000].decode("utf-8", "replace")}
            if x["t"] == [{"o": "any"}]:
                x["r"], x["size"] = {"k": w[1]}, 0
            if e == "dump":
                x["v"], x["omit"] = cur["v"], cur["omit"]
            out.append(x)
        else:
            out.append(cur["fn"](cur, line))


# ---------------------------------------------------------------- writing documents
class Writer:
    """Documents with every freedom the grammar leaves."""

    def __init__(self, rng, plain=False, prefix=False):
        self.r, self.plain, self.p = rng, plain, "x:" if prefix else ""

    def gap(self):
        if self.plain or self.r.random() < .6:
            return ""
        return self.r.choice([" ", "\n", "\r\n\t", "<!-- <int>1</int> -->", "<?pi <a>?>", " <!----> ", "  \t  "])

    def attr(self):
        return "" if self.plain or self.r.random() < .8 else self.r.choice([" a='1'", ' type="int"', " b = 'x&amp;y'", "\n", " "])

    def el(self, tag, inner, close=False):
        t = self.p + tag
        if not inner and (close or (not self.plain and self.r.random() < .5)):
            return "<%s%s/>" % (t, self.attr())
        return "<%s%s>%s</%s>" % (t, self.attr(), inner, t + ("" if self.plain else self.r.choice(["", "", " "])))

    def chars(self, s, split=False):
        if self.plain:
            return esc(s)
        out = ""
        for c in s:
            x = self.r.random()
            if x < .08 and c not in "\r":
                out += self.r.choice(["&#%d;", "&#x%x;", "&#x%X;"]) % ord(c)
            elif split and x < .14 and c not in "\r":
                out += "<![CDATA[" + c + "]]>"
            elif split and x < .16:
                out += "<!-- c -->" + esc(c)
            else:
                out += esc(c)
        return out

    def value(self, v, tag="value"):
        k = v[0]
        r = self.r
        if k == "n":
            x = self.el("nil", "")
        elif k in "TF":
            x = self.el("boolean", "01"[k == "T"])
        elif k == "i":
            x = self.el(r.choice(["int", "i4"]), self.number(v[1]))
        elif k == "l":
            x = self.el("i8", self.number(v[1]))
        elif k == "d":
            x = self.el("double", repr(v[1]))
        elif k == "s":
            if v[1].strip(" \t\r\n") and r.random() < .4:
                return self.el(tag, self.chars(v[1]))
            if not v[1] and r.random() < .3:
                return self.el(tag, "")
            x = self.el("string", self.chars(v[1], True))
        elif k == "b":
            t = base64.b64encode(v[1]).decode()
            if not self.plain and r.random() < .5:
                t = "".join(c + (r.choice([" ", "\n", "\t"]) if r.random() < .1 else "") for c in t)
            x = self.el("base64", t)
        elif k == "D":
            x = self.el("dateTime.iso8601", v[1])
        elif k == "[":
            x = self.el("array", self.gap() + self.el("data", "".join(self.gap() + self.value(y) for y in v[1]) + self.gap()) + self.gap())
        else:
            x = self.el("struct", "".join(self.gap() + self.el("member", self.gap() + self.el("name", self.chars(n, True)) + self.gap() + self.value(y) + self.gap())
                                          for n, y in v[1].items()) + self.gap())
        return self.el(tag, self.gap() + x + self.gap())

    def number(self, n):
        if self.plain or self.r.random() < .7:
            return str(n)
        return ("-" if n < 0 else self.r.choice(["", "+"])) + self.r.choice(["", "0", "000"]) + str(abs(n))

    def head(self):
        h = "" if self.r.random() < .3 else self.r.choice(['<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8'?>\n", '<?xml version="1.0" encoding="utf-8" standalone="yes"?>'])
        return h + ("" if self.plain else self.gap().lstrip(" ") if not h else self.gap())

    def root(self, tag, inner):
        t = self.p + tag
        ns = " xmlns:x='urn:q'" if self.p else ""
        return "<%s%s%s>%s</%s>" % (t, ns, self.attr(), inner, t)

    def request(self, name, ps):
        return self.head() + self.root("methodCall", self.gap() + self.el("methodName", self.chars(name, True)) + self.gap() + (
            "" if not ps and self.r.random() < .4 else
            self.el("params", "".join(self.gap() + self.el("param", self.gap() + self.value(p) + self.gap()) for p in ps) + self.gap())) + self.gap()) + self.gap()

    def response(self, v):
        return self.head() + self.root("methodResponse", self.gap() + self.el("params", self.gap() + self.el("param", self.gap() + self.value(v) + self.gap()) + self.gap()) + self.gap()) + self.gap()

    def fault(self, c, t):
        m = [("faultCode", ("i", c)), ("faultString", ("s", t))]
        self.r.shuffle(m)
        return self.head() + self.root("methodResponse", self.gap() + self.el("fault", self.gap() + self.value(("{", dict(m))) + self.gap()) + self.gap())


# a string that survives XML line end normalisation only as a character reference is no text of a document
NAMES = ["a", "m.n", "x_1", "Zz9", "a/b:c", "", " ", "é", "m" * 200]


# ---------------------------------------------------------------- V02: documents
REQ = ["methodCall", "methodName", "word", ">", "params", "param"]
RSP = ["methodResponse", "params", "param"]
VTAGS = ["value", "int", "string", "struct", "array", "data", "member", "name", "nil", "param"]
CONTEXTS = {
    "request": ("req", [], ["methodCall", "methodName", "params", "param", "value", "methodResponse", "fault", "int", "bogus"]),
    "params": ("req", REQ[:5], ["params", "param", "value", "int", "methodName", "string"]),
    "param": ("req", REQ, VTAGS),
    "value": ("req", REQ + ["value"], VTAGS),
    "array": ("req", REQ + ["value", "array"], ["value", "int", "array", "data", "param"]),
    "data": ("req", REQ + ["value", "array", "data"], ["value", "int", "array", "data", "string", "struct"]),
    "struct": ("req", REQ + ["value", "struct"], ["member", "name", "value", "int", "struct"]),
    "member": ("req", REQ + ["value", "struct", "member"], ["member", "name", "value", "int", "string", "param"]),
    "response": ("rsp", [], ["methodResponse", "params", "param", "value", "fault", "methodCall", "int"]),
    "result": ("rsp", RSP, ["param", "value", "int", "array", "data", "fault"]),
    "fault": ("rsp", ["methodResponse", "fault"], ["value", "struct", "member", "int", "fault", "params"]),
}
DEPTH = {"request": (7, 9), "params": (6, 8), "param": (5, 6), "value": (5, 6), "array": (6, 7), "data": (5, 7), "struct": (7, 9), "member": (7, 8),
         "response": (8, 10), "result": (6, 8), "fault": (6, 8)}
FILL = {"methodCall": "<methodName>a</methodName>", "methodName": "a", "params": "", "param": "<value>1</value>", "value": "1", "int": "1", "i4": "1", "i8": "1",
        "string": "q", "struct": "", "array": "<data/>", "data": "", "member": "<name>f</name><value>2</value>", "name": "f", "nil": "", "fault": "", "methodResponse": "",
        "bogus": "", "boolean": "1", "double": "1.5", "base64": "AAAA", "dateTime.iso8601": "19980717T14:08:55"}
SCALARS = ["int", "i4", "i8", "boolean", "double", "base64", "dateTime.iso8601", "string", "nil"]


def render(prefix, toks, rng, fill, rest=None):
    """text of the document: open elements are closed, with or without what they need;
    or the last element is closed and the given tokens follow"""
    out, stack, last = "", [], None
    if rest is not None:
        fault = "code" in rest
        toks = list(toks) + ["fill", ">"] + [fault and t == "string" and "text" or t for t in rest]
    for t in list(prefix) + list(toks):
        if t == ">":
            if not stack:
                break
            out += "</%s>" % stack.pop()
            continue
        if t == "blank":
            out += rng.choice([" ", "\n", "\t "])
        elif t == "num":
            out += rng.choice(["1", "1", "0", "7"])
        elif t == "word":
            out += "x"
        elif t in ("code", "text"):
            out += "faultCode" if t == "code" else "faultString"
        elif t == "fill":
            out += FILL.get(stack[-1], "")
        else:
            out += "<%s>" % t
            stack.append(t)
        last = t
    if fill and stack and last == stack[-1]:
        out += FILL.get(stack[-1], "")
    while stack:
        out += "</%s>" % stack.pop()
    return out


def gen_docs(ctx, name, words=("blank", "num"), contexts=CONTEXTS, depth=DEPTH):
    kind, prefix, tags = contexts[name]
    n = ctx.n(*depth[name])
    q = lambda l: ",".join('"%s"' % x for x in l)
    mod = "---- MODULE MCGenXml ----\nEXTENDS GenXml\nPre == <<%s>>\nTg == {%s}\n====\n" % (q(prefix), q(tags))
    cfg = "CONSTANTS\n Kind = \"%s\"\n Prefix <- Pre\n Tags <- Tg\n Words = {%s}\n N = %d\n Extra = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
        kind, q(words), n, 0)
    return kind, prefix, ctx.gen("documents from %s, %d tokens" % (name, n), "MCGenXml", cfg, modules={"MCGenXml": mod}, fast=True, mem="3g")


class Batch:
    """Collects items into scenarios."""

    def __init__(self, name, per):
        self.name, self.per, self.all = name, per, []

    def cur(self):
        if not self.all or len(self.all[-1].lines) >= self.per:
            self.all.append(VScn("%s-%d" % (self.name, len(self.all))))
        return self.all[-1]


def corrupt(trace):
    out = {}
    for i, e in enumerate(trace):
        if e["e"] in ("doc", "dump"):
            put = lambda n, **k: out.setdefault(n, trace[:i] + [dict(e, **k)] + trace[i + 1:])
            if e["r"]["k"] == "exc" and not any(t["o"] == "any" for t in e["t"]):
                if any(t["o"] == "broken" for t in e["t"]):
                    put("broken document accepted", r={"k": "ok", "n": "61", "v": []} if e["k"] == "req" else {"k": "ok", "v": ["s", ""]})
            elif e["r"]["k"] == "ok":
                if e["e"] == "dump":
                    put("written value refused", r={"k": "exc"})
                    put("another value read back", r=dict(e["r"], v=e["r"]["v"] + [["n"]] if e["k"] == "req" else ["[", [e["r"]["v"]]]))
                elif e["k"] == "req" and len(e["r"]["v"]) == 1 and e["r"]["v"][0][0] == "i" and sum(t["o"] == "text" for t in e["t"]) < 3:
                    put("another number", r=dict(e["r"], v=[["i", e["r"]["v"][0][1] + "0"]]))
                put("memory left", live=1)
                put("file opened", io=1)
        elif e["e"] in ("enc", "dec", "date", "tm"):
            k = {"enc": "r", "dec": "b", "date": "f", "tm": "b"}[e["e"]]
            if e.get(k) and (e["e"] in ("enc", "tm") or e["r"] == "ok"):
                v = list(e[k])
                v[-1] += 1
                out.setdefault(e["e"] + " gives another result", trace[:i] + [dict(e, **{k: v})] + trace[i + 1:])
        if len(out) >= 6:
            break
    return out


NUMTEXTS = ["", "0", "1", "-1", "+1", "2", "00", "-0", "007", "-", "+", "+-1", "--1", "1-", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296",
            "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1.", ".5", "1.5", "1e3", "1E-3", "1e", "1e+",
            "0x10", "inf", "nan", "INF", "-inf", " 1", "1 ", " ", "1,5", "1_000", "١", "１", "true", "T", "1a", "a1", "1\n", "1 2", "0.1", "123456789.123456789", "1e308", "1e309",
            "1e-400", "5e-324", "0.0000001", "1..2", "1.2.3", "e5", ".", "-.5", "00000000000000000001", "1e0005", "179769313486231570000"]
DATETEXTS = ["19980717T14:08:55", "19980717T14:08:5", "19980717T14:08:555", "1998-07-17T14:08:55", "19980717 14:08:55", "19980717T14:08:55Z", "19980717T24:00:00", "19981317T00:00:00",
             "19980017T00:00:00", "19980700T00:00:00", "19980732T00:00:00", "19980717T14:60:55", "19980717T14:08:62", "19980717T14T08T55", "19980717T14:08:5x", "1998071:T14:08:55", "19980717T1::08:55",
             "19980717t14:08:55", "", " 19980717T14:08:55", "19980717T14:08:55 ", "19980717TT4:08:55", "18991231T23:59:59", "00000101T00:00:00", "99991231T23:59:59", "20000230T00:00:00", "+9980717T14:08:55"]
B64TEXTS = ["", "AAAA", "AAA=", "AA==", "A===", "====", "AAA", "AA=A", "A=AA", "=AAA", "AA==AAAA", "AAA=AAA=", "AB==", "AAB=", "AA A A", "A\nA\nA\nA", "AAAA ", "A-A_", "AA==\n", "AA= =", "AAAAA", "AAAA=", "AAAA==", "AAAA====", "é", "A,AA",
            "//8=", "++++", "////"]


def documents(ctx):
    rng = ctx.rng
    b = Batch("doc", 60)
    n = 0
    for name in CONTEXTS:
        kind, prefix, res = gen_docs(ctx, name)
        # shortest errors first; the rest is thinned
        res.sort(key=lambda x: len(x[1]))
        keep = res if ctx.thorough else [x for i, x in enumerate(res) if len(x[1]) < 5 or rng.random() < 900.0 / max(900, len(res))]
        for st, h, rests in keep:
            last = h[-1] if h else ""
            for rest in rests:
                b.cur().doc(kind, render(prefix, h, rng, True, rest))
            if rests and len(h) > 3 and not ctx.thorough and rng.random() < .6:
                continue
            b.cur().doc(kind, render(prefix, h, rng, True))
            if st != "done" and last not in (">", "blank", "num") and (ctx.thorough or rng.random() < .4):
                b.cur().doc(kind, render(prefix, h, rng, False))
            n += 1
    return b.all, n


def scalars(ctx):
    b = Batch("scalar", 60)
    W = "<methodCall><methodName>a</methodName><params><param><value><%s>%s</%s></value></param></params></methodCall>"
    for dint, d64 in (("", ""), ("5", ""), ("", "-9"), ("-3", "77")):
        for t in SCALARS:
            texts = sorted(set(NUMTEXTS + DATETEXTS + B64TEXTS)) if not dint and not d64 else ["", " ", "1", "x"]
            if t in ("string", "nil") and len(texts) > 9:
                texts = texts[::7]
            for x in texts:
                s = b.cur()
                if not s.lines:
                    s.opt(dint, d64)
                s.doc("req", W % (t, esc(x), t))
            if dint or d64:
                b.cur().doc("req", "<methodCall><methodName>a</methodName><params><param><value><%s/></value></param></params></methodCall>" % t)
        b.all.append(VScn("scalar-%d" % len(b.all)))
        b.all[-1].opt(dint, d64)
    # what stands for empty integers changes: every step from one setting to another
    opts = [(i, l) for i in ("", "5", "0") for l in ("", "-9", "0")]
    for a in opts:
        s = VScn("defaults-%s-%s" % a)
        for o in opts:
            for x in (a, o):
                s.opt(*x)
                for t in ("int", "i4", "i8", "boolean", "double"):
                    s.doc("req", W % (t, "", t))
        b.all.append(s)
    return [s for s in b.all if len(s.lines) > 1]


def shallow(rng, depth=2):
    v = vals.value(rng, depth, 3)
    return v


def valid(ctx, count):
    rng = ctx.rng
    b = Batch("valid", 40)
    for i in range(count):
        w = Writer(rng, prefix=rng.random() < .15)
        x = rng.random()
        if x < .6:
            d = ("req", w.request(rng.choice(NAMES), [shallow(rng, rng.randrange(4)) for _ in range(rng.randrange(4))]))
        elif x < .85:
            d = ("rsp", w.response(shallow(rng, 3)))
        else:
            d = ("rsp", w.fault(rng.choice(vals.INTS), rng.choice(vals.TEXTS)))
        b.cur().doc(*d)
    return b.all


def edits(ctx, count, step):
    """truncations and single edits"""
    rng = ctx.rng
    b = Batch("edit", 80)
    for i in range(count):
        w = Writer(rng, plain=i % 2 == 0)
        ps = [shallow(rng, 2) for _ in range(rng.randrange(1, 3))]
        kind, d = ("req", w.request("a", ps)) if i % 3 else ("rsp", w.response(ps[0]))
        if i % 5 == 4:
            kind, d = "rsp", w.fault(4, "x")
        if len(d) > 900:
            d = Writer(rng, plain=True).request("a", [("[", [("i", 1), ("s", "x")]), ("{", {"k": ("T",)})])
            kind = "req"
        begin = d.index("?>") + 2 if d.startswith("<?xml") else 0
        for k in range(0, len(d), step):
            b.cur().doc(kind, d[:k])
        for k in range(begin + rng.randrange(step), len(d), step):
            x = rng.random()
            e = d[:k] + d[k + 1:] if x < .35 else d[:k] + d[k] + d[k:] if x < .6 else d[:k] + rng.choice("<>/&;a1 \"'=!?]x-") + d[k + (x < .8):]
            b.cur().doc(kind, e)
        # elements taken out, doubled, renamed
        import re
        tags = [m for m in re.finditer(r"<[^<>!?]*>", d)]
        for m in tags:
            x = rng.random()
            if x < .3:
                e = d[:m.start()] + d[m.end():]
            elif x < .5:
                e = d[:m.end()] + m.group(0) + d[m.end():]
            elif x < .75:
                e = d[:m.start()] + re.sub(r"[a-zA-Z0-9.]+", rng.choice(["value", "param", "int", "data", "member", "name", "struct", "bogus"]), m.group(0), 1) + d[m.end():]
            else:
                o = rng.choice(tags)
                e = d[:m.start()] + o.group(0) + d[m.end():]
            b.cur().doc(kind, e)
        # a whole element moved or doubled
        spans = [(m.start(), d.find("</" + re.match(r"<([a-zA-Z0-9.]+)", m.group(0)).group(1), m.end())) for m in tags if re.match(r"<[a-zA-Z]", m.group(0)) and not m.group(0).endswith("/>")]
        for (s0, s1) in spans[:40]:
            if s1 < 0:
                continue
            s1 = d.index(">", s1) + 1
            piece = d[s0:s1]
            at = rng.choice(tags).start()
            b.cur().doc(kind, d[:at] + piece + d[at:])
            b.cur().doc(kind, d[:s0] + d[s1:])
        b.cur().doc(kind, d + rng.choice(["x", "<a/>", d, "<!-- -->", "\n", "&#32;", "<", " " * 2000 + "z", "<?p?>"]))
        b.cur().doc("rsp" if kind == "req" else "req", d)
    s = b.cur()
    for depth in (10, 60, 400):
        s.doc("rsp", "<methodResponse><params><param>" + "<value><array><data>" * depth + "</data></array></value>" * depth + "</param></params></methodResponse>",
              [{"o": "any"}] if depth > 60 else None)
    for depth in (1500, 20000, 200000):
        s.doc("rsp", "<methodResponse><params><param>" + "<value><array><data>" * depth + "</data></array></value>" * depth + "</param></params></methodResponse>", [{"o": "any"}])
        s.doc("rsp", "<methodResponse><params><param>" + "<value><struct><member><name>a</name>" * depth, [{"o": "any"}])
        s.doc("req", "<a>" * depth, [{"o": "broken"}])
    return b.all


def faults(ctx):
    """every make-up of a fault's struct: kinds of its two members, either missing, one more"""
    codes = ["<int>4</int>", "<i4>-4</i4>", "<i8>4</i8>", "<string>4</string>", "4", "<boolean>1</boolean>", "<nil/>", "<double>4</double>", "<int/>", "<array><data><value><int>4</int></value></data></array>", None]
    texts = ["<string>x</string>", "x", "", "<string/>", "<int>4</int>", "<nil/>", "<base64>eHh4</base64>", "<struct/>", None]
    more = [None, ("extra", "<int>1</int>"), ("faultcode", "<int>1</int>"), ("", "<string>x</string>")]
    b = Batch("fault", 40)
    for i, c in enumerate(codes):
        for j, t in enumerate(texts):
            for k, x in enumerate(more):
                if not ctx.thorough and (i and j and k) and (i + j + k) % 3:
                    continue
                m = [("faultCode", c)] * (c is not None) + [("faultString", t)] * (t is not None) + [x] * (x is not None)
                d = "".join("<member><name>%s</name><value>%s</value></member>" % y for y in m[(i + j) % 2:] + m[:(i + j) % 2])
                b.cur().doc("rsp", "<methodResponse><fault><value><struct>%s</struct></value></fault></methodResponse>" % d)
    return b.all


def v02(ctx):
    ctx.build("iqvalue")
    scns, n = documents(ctx)
    scns += scalars(ctx)
    scns += faults(ctx)
    scns += valid(ctx, ctx.n(700, 6000))
    scns += edits(ctx, ctx.n(14, 80), ctx.n(3, 1))
    ctx.notes["documents"] = sum(len(s.lines) for s in scns)
    ctx.notes["enumerated_shapes"] = n
    ctx.conform(scns, "TraceXml", binary="iqvalue", corrupt=corrupt)
    return "model_checking", ASSUME



# ---------------------------------------------------------------- V01: round trips
LEAVES = ['<<"n">>', '<<"T">>', '<<"F">>', '<<"i", "-12">>', '<<"l", "12">>', '<<"s", "20">>', '<<"s", "">>', '<<"b", "00ff">>', '<<"b", "">>', '<<"D", "19980717T14:08:55">>']


def shapes(ctx, leaves, depth, width):
    mod = "---- MODULE MCGenValue ----\nEXTENDS GenValue\nLv == {%s}\n====\n" % ", ".join(leaves)
    cfg = "CONSTANTS\n Leaves <- Lv\n Depth = %d\n Width = %d\nSPECIFICATION Spec\nINVARIANTS RoundTrip Strict Emit\nCHECK_DEADLOCK FALSE\n" % (depth, width)
    return ctx.gen("all values of depth %d, width %d over %d leaves" % (depth, width, len(leaves)), "MCGenValue", cfg, modules={"MCGenValue": mod}, fast=True, mem="3g")


def concrete(rng, j, names):
    """a value of the shape, with leaves of the same kind"""
    k = j[0]
    if k == "[":
        return ("[", [concrete(rng, x, names) for x in j[1]])
    if k == "{":
        ks = rng.sample(names, len(j[1]))
        return ("{", {n: concrete(rng, x, names) for n, x in zip(ks, j[1].values() if isinstance(j[1], dict) else [])})
    while True:
        v = vals.scalar(rng)
        if v[0] == k or (k in "TF" and v[0] in "TF"):
            return v if k not in "TF" else (k,)
        if k == "i" and v[0] == "d":
            return v


def outcome(kind, *a):
    if kind == "req":
        return {"k": "ok", "n": a[0], "v": jval(a[1])[1]}
    if kind == "ok":
        return {"k": "ok", "v": jval(a[0])}
    return {"k": "fault", "c": a[0], "v": a[1]}


CHARS = [chr(c) for c in [9, 10, 13] + list(range(32, 128)) + [0x80, 0x85, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff]]


def v01(ctx):
    ctx.build("iqvalue")
    rng = ctx.rng
    b = Batch("trip", 50)
    names = [n for n in vals.TEXTS if n] + ["faultCode", "faultString", "value", "", "name"]
    names = list(dict.fromkeys(names))

    def trip(v, omit=None, name="a"):
        c = vals.canon(v)
        s = b.cur()
        omit = rng.random() < .3 if omit is None else omit
        if s.meta.get("omit") != omit:
            s.opt(omit=omit)
            s.meta["omit"] = omit
        if rng.random() < .5:
            s.dump("rsp", "ok " + c, outcome("ok", c), omit)
        else:
            a = "[" + c + "]"
            s.dump("req", "%s %s" % (hx(name) or "61", a), outcome("req", hx(name) or "61", a), omit)

    for j in shapes(ctx, LEAVES, 1, 2):
        trip(concrete(rng, j, names))
    deep = shapes(ctx, ['<<"s", "20">>', '<<"i", "-12">>'], 2, 2)
    for j in pick(rng, deep, ctx.n(600, 99999)):
        trip(concrete(rng, j, names))
    if ctx.thorough:
        for j in pick(rng, shapes(ctx, ['<<"s", "">>'], 3, 2), 20000):
            trip(concrete(rng, j, names))
    leaves = [("i", x) for x in vals.INTS] + [("l", x) for x in vals.LONGS] + [("d", x) for x in vals.DOUBLES] + [("s", x) for x in vals.TEXTS] + \
             [("b", x) for x in vals.BLOBS] + [("D", x) for x in vals.DATES] + [("s", c) for c in CHARS] + [("s", c + d) for c in CHARS[:3] + list(" <&>]\"'a") for d in CHARS[:3] + list(" <&>]a;")] + \
             [("b", bytes([x])) for x in range(256)] + [("b", bytes([7, x])) for x in range(0, 256, 5)]
    for x in leaves:
        for omit in (False, True):
            trip(x, omit)
        trip(("[", [x, x]))
        trip(("{", {"f": x}))
    for x in range(ctx.n(300, 4000)):                  # numbers
        trip(("[", [("d", vals_double(rng)), ("i", rng.randrange(-2**31, 2**31)), ("l", rng.randrange(-2**63, 2**63))]))
    for i in range(ctx.n(500, 8000)):
        trip(vals.value(rng, 4, 3), name=rng.choice(["a", "b.c", "é", " ", "<m>", "m" * 300]))
    for t in ("x" * 5000, "é" * 3000, "<&>" * 1500, "a b\n" * 1000, "]]>" * 500):
        trip(("s", t), False)
        trip(("{", {t[:900]: ("s", t)}), True)
    # requests with several parameters, faults
    for i in range(ctx.n(200, 3000)):
        s = b.cur()
        if i % 2:
            n = rng.choice(vals.TEXTS)
            a = "[" + ",".join(vals.canon(vals.value(rng, 1, 2)) for _ in range(rng.randrange(5))) + "]"
            s.dump("req", "%s %s" % (hx(n), a), outcome("req", hx(n), a), False) if n else None
        else:
            c, t = rng.choice(vals.INTS), rng.choice(vals.TEXTS)
            s.dump("rsp", "fault %d %s" % (c, hx(t)), outcome("fault", str(c), hx(t)), s.meta.get("omit", False))
    ctx.notes["values"] = sum(len(s.lines) for s in b.all)
    ctx.conform([s for s in b.all if s.lines], "TraceXml", binary="iqvalue", corrupt=corrupt)
    return "model_checking", ASSUME


def vals_double(rng):
    while True:
        x = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
        if x == x and abs(x) != float("inf"):
            return x


# ---------------------------------------------------------------- V04: codecs
def codes(h):
    return list(bytes.fromhex(h))


def p_enc(cur, line):
    w = line.split(" ")
    return {"e": "enc", "b": cur["b"], "r": codes(w[2]), "b2": codes(w[3]) if len(w) > 3 else []}


def p_dec(cur, line):
    w = line.split(" ")
    return {"e": "dec", "c": cur["c"], "r": w[1], "b": codes(w[2]) if w[1] == "ok" and len(w) > 2 else []}


def p_date(cur, line):
    w = line.split(" ")
    if w[1] != "ok":
        return {"e": "date", "c": cur["c"], "r": w[1], "f": [], "b": []}
    return {"e": "date", "c": cur["c"], "r": "ok", "f": [int(x) for x in w[2:8]], "b": codes(w[8])}


def p_tm(cur, line):
    return {"e": "tm", "f": cur["f"], "b": codes(line.split(" ")[2])}


def gen_codec(ctx, mode, nbytes, maxlen, edits):
    cfg = "CONSTANTS\n Bytes = %s\n MaxLen = %d\n Edits = %s\n Mode = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Inverse Exact DateInverse Emit\nCHECK_DEADLOCK FALSE\n" % (
        tla(set(nbytes)), maxlen, tla(set(edits)), mode)
    return ctx.gen("codec %s up to %d" % (mode, maxlen), "GenCodec", cfg, fast=True, mem="3g", args=[])


def v04(ctx):
    ctx.build("iqvalue")
    rng = ctx.rng
    b = Batch("codec", 300)

    def enc(x):
        x = bytes(x)
        b.cur().add("b64e " + x.hex(), {"e": "enc", "fn": p_enc, "b": list(x)})

    def dec(t):
        t = bytes(t)
        b.cur().add("b64d " + t.hex(), {"e": "dec", "fn": p_dec, "c": list(t)})

    def date(t):
        t = bytes(t)
        b.cur().add("date " + t.hex(), {"e": "date", "fn": p_date, "c": list(t)})

    for x in gen_codec(ctx, "bytes", [0, 1, 63, 128, 255][:ctx.n(4, 5)], ctx.n(4, 5), []):
        enc(x)
        dec(base64.b64encode(bytes(x)))
    for x in gen_codec(ctx, "texts", [0, 97, 255][:ctx.n(2, 3)], 4, [65, 122, 48, 43, 47, 61, 45, 10, 32, 128, 91, 96, 64, 123, 58][:ctx.n(15, 15)]):
        dec(x)
    for x in gen_codec(ctx, "dates", [0], 0, []):
        date(x)
    for x in gen_codec(ctx, "datetexts", [0], 0, [48, 49, 57, 84, 58, 45, 32, 120, 47, 43, 116, 90, 200]):
        date(x)
    for t in DATETEXTS:
        date(t.encode())
    for t in B64TEXTS:
        dec(t.encode())
    for c in range(1, 256):
        dec(bytes([c]) + b"AAA")
        dec(b"AA" + bytes([c]) + b"A")
        dec(b"AAA" + bytes([c]))
        date(b"19980717" + bytes([c]) + b"14:08:55")
        date(b"19980717T14:08:5" + bytes([c]))
    for i in range(ctx.n(600, 6000)):
        x = bytes(rng.randrange(256) for _ in range(rng.randrange(ctx.n(120, 400))))
        enc(x)
        t = base64.b64encode(x).decode()
        t = "".join(c + (rng.choice(" \t\r\n") if rng.random() < .1 else "") for c in t)
        dec(t.encode())
        if t:
            k = rng.randrange(len(t))
            dec((t[:k] + rng.choice("=AZ?-_. ") + t[k + rng.randrange(2):]).encode())
    for i in range(ctx.n(500, 5000)):
        f = [rng.randrange(1900, 10000), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        b.cur().add("tm %d %d %d %d %d %d" % tuple(f), {"e": "tm", "fn": p_tm, "f": f})
        date(b"%04d%02d%02dT%02d:%02d:%02d" % tuple(f))
    ctx.conform(b.all, "TraceXml", binary="iqvalue", corrupt=corrupt)
    return "model_checking", ASSUME[:1]



# ---------------------------------------------------------------- V05: entities
HERE = __file__
ECONTEXTS = {
    "entities in a request": ("req", [], ["methodCall", "methodName", "params", "param", "value"]),
    "entities in parameters": ("req", REQ[:5], ["param", "value", "string", "int"]),
    "entities in a value": ("req", REQ + ["value"], ["string", "int", "base64", "array", "nil"]),
    "entities in an array": ("rsp", RSP + ["value", "array"], ["data", "value", "string"]),
    "entities in a struct": ("rsp", RSP + ["value", "struct"], ["member", "name", "value"]),
    "entities in a fault": ("rsp", ["methodResponse", "fault", "value", "struct", "member", "name"], ["name", "value", "int"]),
}
EDEPTH = {"entities in a request": (7, 9), "entities in parameters": (6, 8), "entities in a value": (5, 7), "entities in an array": (6, 8), "entities in a struct": (6, 8), "entities in a fault": (4, 6)}
SECRET = "SECRETSECRETSECRETSECRETSECRETSECRETSECRETSECRETSECRETSECRETSECRETSECRETSECRET" * 4


def dtds(doc):
    """name -> internal and external subsets that define y"""
    path = "file://" + HERE
    return {
        "text": "<!DOCTYPE %s [<!ENTITY y '%s'>]>" % (doc, SECRET),
        "number": "<!DOCTYPE %s [<!ENTITY y '77'>]>" % doc,
        "blank": "<!DOCTYPE %s [<!ENTITY y ' '>]>" % doc,
        "empty": "<!DOCTYPE %s [<!ENTITY y ''>]>" % doc,
        "element": "<!DOCTYPE %s [<!ENTITY y '<value><string>%s</string></value>'>]>" % (doc, SECRET),
        "param": "<!DOCTYPE %s [<!ENTITY y '<param><value>%s</value></param>'>]>" % (doc, SECRET),
        "nested": "<!DOCTYPE %s [<!ENTITY z '%s'><!ENTITY y '&z;&z;&z;&z;'>]>" % (doc, SECRET),
        "file": "<!DOCTYPE %s [<!ENTITY y SYSTEM '%s'>]>" % (doc, path),
        "relative": "<!DOCTYPE %s [<!ENTITY y SYSTEM 'lib/vals.py'>]>" % doc,
        "public": "<!DOCTYPE %s [<!ENTITY y PUBLIC '-//q//z' 'http://127.0.0.1:9/x'>]>" % doc,
        "ftp": "<!DOCTYPE %s [<!ENTITY y SYSTEM 'ftp://127.0.0.1:9/x'>]>" % doc,
        "https": "<!DOCTYPE %s [<!ENTITY y SYSTEM 'https://127.0.0.1:9/x'>]>" % doc,
        "external subset": "<!DOCTYPE %s SYSTEM '%s' [<!ENTITY y '%s'>]>" % (doc, path, SECRET),
        "external only": "<!DOCTYPE %s SYSTEM '%s'>" % (doc, path),
        "external http": "<!DOCTYPE %s PUBLIC '-//a//b' 'http://127.0.0.1:9/a.dtd' [<!ENTITY y 'q'>]>" % doc,
        "parameter entity": "<!DOCTYPE %s [<!ENTITY %% p SYSTEM '%s'> %%p; <!ENTITY y '%s'>]>" % (doc, path, SECRET),
        "parameter inner": "<!DOCTYPE %s [<!ENTITY %% p \"<!ENTITY y '%s'>\"> %%p;]>" % (doc, SECRET),
        "parameter http": "<!DOCTYPE %s [<!ENTITY %% p SYSTEM 'http://127.0.0.1:9/p'> %%p; <!ENTITY y 'q'>]>" % doc,
        "default attribute": "<!DOCTYPE %s [<!ENTITY y '%s'><!ATTLIST value a CDATA '&y;'><!ATTLIST string b CDATA '%s'>]>" % (doc, SECRET, SECRET),
        "loop": "<!DOCTYPE %s [<!ENTITY y '&z;'><!ENTITY z '&y;'>]>" % doc,
        "self": "<!DOCTYPE %s [<!ENTITY y 'a&y;'>]>" % doc,
        "laughs": "<!DOCTYPE %s [<!ENTITY a0 'haha'>%s<!ENTITY y '&a9;'>]>" % (doc, "".join("<!ENTITY a%d '%s'>" % (i + 1, ("&a%d;" % i) * 10) for i in range(9))),
        "few laughs": "<!DOCTYPE %s [<!ENTITY a0 'haha'>%s<!ENTITY y '&a4;'>]>" % (doc, "".join("<!ENTITY a%d '%s'>" % (i + 1, ("&a%d;" % i) * 6) for i in range(4))),
        "unparsed": "<!DOCTYPE %s [<!NOTATION n SYSTEM 'x'><!ENTITY y SYSTEM '%s' NDATA n>]>" % (doc, path),
        "chars": "<!DOCTYPE %s [<!ENTITY y '&#60;value>%s&#60;/value>'>]>" % (doc, SECRET),
        "redefined": "<!DOCTYPE %s [<!ENTITY lt '&#38;#60;'><!ENTITY amp '&#38;#38;'><!ENTITY y 'x'>]>" % doc,
        "many": "<!DOCTYPE %s [<!ENTITY y '%s'>]>" % (doc, "q" * 40000),
    }


def entity_doc(rng, kind, prefix, h, fill, subset):
    """the document and its tokens"""
    out, toks, stack, last = "", [], [], None

    def op(t):
        nonlocal out
        a = ""
        if subset == "attr":
            a = " a='&y;'"
        out += "<%s%s>" % (t, a)
        toks.append({"o": "open", "t": t})

    def cl(t):
        nonlocal out
        out += "</%s>" % t
        toks.append({"o": "close"})

    def tx(s):
        nonlocal out
        out += esc(s)
        toks.append(text_token(s))
    for t in list(prefix) + list(h):
        if t == ">":
            if not stack:
                break
            cl(stack.pop())
            continue
        if t == "ref":
            out += "&y;" * (rng.choice([1, 1, 1, 3]))
            toks.append({"o": "ref"})
        elif t == "num":
            tx(rng.choice(["1", "7"]))
        elif t == "word":
            tx("x")
        else:
            op(t)
            stack.append(t)
        last = t
    if fill and stack and last == stack[-1]:
        f = FILL.get(stack[-1], "")
        if f and "<" not in f:
            tx(f)
        elif f:
            out += f
            toks.extend(tokens(("<q>" + f + "</q>").encode())[1:-1])
    while stack:
        cl(stack.pop())
    return out, toks


def v05(ctx):
    ctx.build("iqvalue")
    rng = ctx.rng
    b = Batch("entity", 60)
    kinds = sorted(dtds("a"))
    for name in ECONTEXTS:
        kind, prefix, res = gen_docs(ctx, name, ("num", "ref"), ECONTEXTS, EDEPTH)
        res = [x for x in res if "ref" in x[1]]
        root = "methodCall" if kind == "req" else "methodResponse"
        d = dtds(root)
        few = [x for x in res if len(x[1]) <= 3 or x[0] == "done"]
        for i, (st, h, _) in enumerate(few + pick(rng, res, ctx.n(450, 12000))):
            for k in (kinds if i < ctx.n(12, 60) else rng.sample(kinds, 3)):
                doc, toks = entity_doc(rng, kind, prefix, h, rng.random() < .7, k)
                b.cur().doc(kind, rng.choice(["", "<?xml version='1.0'?>"]) + d[k] + doc, toks)
    # in attributes, everywhere at once, and in documents without references
    for k in kinds:
        for kind, root in (("req", "methodCall"), ("rsp", "methodResponse")):
            pre = REQ + ["value", "string"] if kind == "req" else RSP + ["value", "string"]
            doc, toks = entity_doc(rng, kind, pre, ["word"], False, "attr")
            b.cur().doc(kind, dtds(root)[k] + doc, toks + [{"o": "ref"}])
            doc, toks = entity_doc(rng, kind, pre, ["word"], False, "")
            b.cur().doc(kind, dtds(root)[k] + doc, toks + [{"o": "ref"}])
            doc, toks = entity_doc(rng, kind, pre, ["ref", "num"] * 40, False, "")
            b.cur().doc(kind, dtds(root)[k] + doc, toks)
            # declared nowhere
            doc, toks = entity_doc(rng, kind, pre, ["ref"], False, "")
            b.cur().doc(kind, doc, toks + [{"o": "broken"}])
            b.cur().doc(kind, dtds(root)[k] + doc.replace("&y;", "&nowhere;"), toks)
    ctx.notes["documents"] = sum(len(s.lines) for s in b.all)
    ctx.conform(b.all, "TraceXml", binary="iqvalue", corrupt=ecorrupt)
    return "model_checking", ASSUME[:2] + ["system calls are watched at the C library's functions for opening and examining files and for sockets"]


def ecorrupt(trace):
    out = corrupt(trace)
    for i, e in enumerate(trace):
        if e["e"] == "doc" and e["r"]["k"] == "ok" and any(t["o"] == "ref" for t in e["t"]) and e["k"] == "rsp" and e["r"]["v"][0] == "s":
            out["an entity's text in the value"] = trace[:i] + [dict(e, r=dict(e["r"], v=["s", e["r"]["v"][1] + "3737"]))] + trace[i + 1:]
            out["more text than the document"] = trace[:i] + [dict(e, size=e["len"] + 1)] + trace[i + 1:]
            break
    return out



# ---------------------------------------------------------------- V03: values as objects
def tv(v):
    """TLA+ text of a value in JSON form"""
    if v[0] == "[":
        return '<<"[", <<%s>>>>' % ", ".join(tv(x) for x in v[1])
    if v[0] == "{":
        if not v[1]:
            return '<<"{", Nothing>>'
        return '<<"{", %s>>' % " @@ ".join('("%s" :> %s)' % (k, tv(x)) for k, x in v[1].items())
    return "<<%s>>" % ", ".join('"%s"' % x for x in v)


def ctext(v):
    """canonical text of a value in JSON form"""
    if v[0] == "[":
        return "[" + ",".join(ctext(x) for x in v[1]) + "]"
    if v[0] == "{":
        return "{" + ",".join(k[1:] + "=" + ctext(v[1][k]) for k in sorted(v[1])) + "}" if v[1] else "{}"
    return "".join(v)


def ptext(p):
    return "/".join([str(p[0] - 1)] + ["i%d" % s[1] if s[0] == "i" else "f" + s[1][1:] for s in p[1:]])


HOPS = ["set", "del", "copy", "asg", "lit", "push", "pushp", "ins", "insp", "erase", "aclear", "sclear", "aasg", "sasg", "aswap", "sswap", "assign", "acopy", "scopy",
        "get", "mget", "find", "back"]
HTYPES = ["int", "int64", "bool", "double", "string", "binary", "datetime", "array", "struct", "cint", "cint64", "cbool", "cdouble", "cstring", "cbinary", "ctm", "iter", "elems", "fields", "print", "size", "ssize", "has", "kinds", "type"]
L_ARR = ["[", [["i", "1"], ["[", [["s", "61"]]]]]
L_STR = ["{", {"k61": ["i", "2"], "k62": ["{", {"k61": ["s", ""]}]}]
L_MIX = ["[", [["{", {"k61": ["[", [["n"], ["T"]]]}], ["{", {"k62": ["[", []]}]]]
LITS = [["i", "-7"], ["s", "c3a9"], ["b", "00ff"], ["D", "19980717T14:08:55"], ["l", "4294967296"], ["d", "3ff8000000000000"], ["T"], ["F"], ["n"], ["[", []], ["{", {}], L_ARR, L_STR, L_MIX]


class HScn(VScn):
    def __init__(self, sid, start, ops):
        super().__init__(sid)
        self.n = len(start)
        self.add("vbegin %d" % self.n, {"e": "begin"})
        self.ops = []
        for i, v in enumerate(start):
            if v != ["-"]:
                self.op({"o": "set", "p": [i + 1], "q": [1], "n": "", "v": v, "t": ""})
        for a in ops:
            self.op(a)
        self.add("vend", {"e": "end"})

    def op(self, a):
        o = a["o"]
        for k in ("v",):
            if a[k] and a[k][0] == "{" and not a[k][1]:
                a[k] = ["{", {}]
        p, q, n = ptext(a["p"]), ptext(a["q"]), a["n"][1:]
        w = {"set": "%s %s" % (p, ctext(a["v"])), "del": p, "copy": p + " " + q, "acopy": p + " " + q, "scopy": p + " " + q, "lit": "%s %s" % (p, ctext(a["v"])),
             "ins": "%s %s %s" % (p, n, q), "insp": "%s %s %s" % (p, n, q), "erase": "%s %s" % (p, n), "find": "%s %s" % (p, n), "aclear": p, "sclear": p, "back": p,
             "get": "%s %s" % (p, "h" + n if a["t"] == "has" else a["t"]), "mget": "%s %s" % (p, "h" + n if a["t"] == "has" else a["t"])}.get(o, p + " " + q)
        self.add("v %s %s" % (o, w), {"e": "op", "a": a})

    def project(self, events, status):
        out = [{"e": "cfg", "sid": self.sid, "n": self.n}]
        cur = None
        for line in events:
            w = line.split(" ")
            if w[0] == "#":
                cur = self.want[int(w[1])]
            elif w[0] == "res":
                res, _, rest = line.partition(" |")
                r = res.split(" ")
                a = cur["a"]
                if r[1] == "exc":
                    x = {"k": "exc", "c": r[2]}
                else:
                    t = r[2] if len(r) > 2 else ""
                    x = {"k": "ok", "v": self.given(a, t)}
                out.append({"e": "op", "a": a, "r": x, "all": [["-"] if y == "-" else jval(y) for y in rest.strip().split(" ")]})
            elif w[0] == "live":
                out.append({"e": "live", "n": int(w[1])})
            else:
                out.append({"e": w[0], "line": line[:200]})
        if status != "exit0":
            out.append({"e": "crash", "status": status})
        return out

    @staticmethod
    def given(a, t):
        o = a["o"]
        if o in ("get", "mget"):
            if a["t"] in ("size", "ssize"):
                return ["#", int(t)]
            if a["t"] in ("kinds", "type"):
                return ["$", t]
            return jval(t)
        if o == "find":
            return ["-"] if t == "-" else jval(t)
        if o == "back":
            return ["[", [jval(x) for x in t.split(";")[:-1]]]
        return ["-"] if t == "-" else ["?", t]


def hcorrupt(trace):
    out = {}
    for i, e in enumerate(trace):
        if e["e"] == "op" and e["r"]["k"] == "ok" and e["a"]["o"] in ("asg", "push", "ins", "aasg", "copy", "erase") and i and trace[i - 1]["e"] == "op":
            if e["all"] != trace[i - 1]["all"]:
                out.setdefault(e["a"]["o"] + " without effect", trace[:i] + [dict(e, all=trace[i - 1]["all"])] + trace[i + 1:])
        if e["e"] == "op" and e["r"]["k"] == "exc":
            out.setdefault("an error not reported", trace[:i] + [dict(e, r={"k": "ok", "v": ["-"]})] + trace[i + 1:])
        if e["e"] == "live" and i > 2:
            out.setdefault("memory left", trace[:i] + [dict(e, n=e["n"] + 1)] + trace[i + 1:])
    return out


def gen_heap(ctx, name, starts, n, ops=HOPS, lits=LITS, names=("k61", "k63"), types=HTYPES, fan=0, simulate=0, size=40, wrong=True):
    mod = "---- MODULE MCGenHeap ----\nEXTENDS GenHeap\nSt == <<%s>>\nLt == {%s}\n====\n" % (", ".join("<<%s>>" % ", ".join(tv(v) for v in st) for st in starts), ", ".join(tv(v) for v in lits))
    cfg = "CONSTANTS\n N = %d\n Starts <- St\n Lits <- Lt\n Names = %s\n Types = %s\n Ops = %s\n Fan = %d\n MaxSize = %d\n Wrong = %s\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
        n, tla(set(names)), tla(set(types)), tla(set(ops)), fan, size, str(wrong).upper())
    args = ["-simulate", "num=%d" % simulate, "-depth", str(n + 1), "-seed", str(ctx.seed * 7919 + 31)] if simulate else []
    return [(starts[x[0] - 1], x[1:]) for x in ctx.gen(name, "MCGenHeap", cfg, modules={"MCGenHeap": mod}, args=args, fast=True, mem="3g")]


def again(name, programs, per=40):
    """Several programs as one, each from its start values."""
    out = []
    for i in range(0, len(programs), per):
        ops = []
        for st, h in programs[i:i + per]:
            ops += [{"o": "set" if v != ["-"] else "del", "p": [k + 1], "q": [1], "n": "", "v": v, "t": ""} for k, v in enumerate(st)] + h
        out.append(HScn("%s-%d" % (name, i // per), [["-"]] * len(programs[i][0]), ops))
    return out


def v03(ctx):
    ctx.build("iqvalue")
    rng = ctx.rng
    muts = [o for o in HOPS if o not in ("get", "mget", "find", "back")]

    def model(name, bug, start, n, ops, size, bad=False):
        mod = "---- MODULE MCHeap ----\nEXTENDS HeapImpl\nSt == <<%s>>\nLt == {%s}\n====\n" % (", ".join(tv(v) for v in start), ", ".join(tv(v) for v in [["i", "1"], ["[", [["i", "2"]]]]))
        cfg = "CONSTANTS\n Vars = %d\n N = %d\n Start <- St\n Lits <- Lt\n Names = {\"k61\", \"k62\"}\n Ops = %s\n MaxSize = %d\n Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Same OneOwner\nCHECK_DEADLOCK FALSE\n" % (
            len(start), n, tla(set(ops)), size, bug)
        ctx.mc(name, "MCHeap", cfg, expect_violation=bad, modules={"MCHeap": mod}, fast=False)
    small = [["[", [["i", "1"], ["[", []]]], ["{", {"k61": ["[", [["i", "3"]]]}]]
    model("objects and owners: %d operations" % ctx.n(2, 3), "none", small, ctx.n(2, 3), muts, 12)
    for bug in ("shallow", "early", "leak", "eraseleak", "clearfirst"):
        model("negative control " + bug, bug, small, 2, muts, 12, bad=True)

    starts = [[L_ARR, L_STR], [L_MIX, ["[", [L_STR, ["i", "5"]]]], [L_STR, ["-"]], [["[", [["[", [["[", [["i", "1"]]]]]]], ["{", {"k61": L_ARR}]]]
    one = gen_heap(ctx, "every operation", starts, 1)
    # several short programs one after another, each on the start values again
    scns = again("one", pick(rng, one, ctx.n(12000, 10**6)))
    # one operation after another on the same parts
    alias = ["asg", "push", "ins", "aasg", "sasg", "aswap", "sswap", "copy", "erase", "aclear", "lit"]
    two = gen_heap(ctx, "pairs of operations", [[["[", [["[", [["i", "1"]]]]], ["{", {"k61": ["[", []]}]]], 2, ops=alias, lits=[["i", "4"]], names=("k61",), size=16, wrong=False)
    scns += again("two", pick(rng, two, ctx.n(6000, 10**6)))
    walks = gen_heap(ctx, "programs", starts + [[L_ARR, L_STR, L_MIX], [["-"], L_MIX, ["-"]]], ctx.n(14, 30), fan=3, simulate=ctx.n(1200, 15000), size=60)
    scns += [HScn("walk-%d" % j, st, h) for j, (st, h) in enumerate(walks)]
    ctx.notes["programs"] = len(scns)
    ctx.conform(scns, "TraceHeap", binary="iqvalue", corrupt=hcorrupt)
    return "model_checking", ASSUME[:1] + ["exchanging an array or struct with a part of itself and assigning an array from a range of itself are excluded",
                                           "leaks are counted at operator new and delete, wild accesses found by AddressSanitizer"]


CHECKS = {"V01": v01, "V02": v02, "V03": v03, "V04": v04, "V05": v05}
