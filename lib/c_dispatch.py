"""Checks of method lookup, interceptors, fault mapping and X-headers (Dispatch.tla, XHeaders.tla)."""
import random, re
import srv
from c_server import tla, pick, sched_serial, sched_pool, sched_any, ASSUME, EXEC, with_exec, gen, build_all
from srv import Req, Scn, hx, HttpStream, decode_response

LIST = "system.listMethods"
PROGS = ["pass", "swallow", "throwb", "throwa", "alter", "catch", "conv", "params", "twice", "std"]


class DScn(Scn):
    """Scenarios over Dispatch: configuration commands and calls by raw peers."""

    def __init__(self, sid, workers=0, sched="seed=1", tls=False):
        super().__init__(sid, {"workers": workers}, srv_opts="nom=1", tls=tls)
        self.calls = {}      # tag -> (name, outcome, request)
        self.on = {}         # conn -> tag
        self.opened = set()
        self.nreg = self.ndisp = self.nic = self.ncall = 0
        self.server(sched)
        self.run()

    def reg(self, name, src=None):
        self.nreg += 1
        src = src or "r%d" % self.nreg
        self.cmd("reg A %s %s" % (hx(name), src), {"e": "reg", "n": hx(name), "s": src})

    def disp(self, names):
        self.ndisp += 1
        s = "d%d" % self.ndisp
        self.cmd(("disp A %s %s" % (s, ",".join(hx(n) for n in names))) if names else "disp A " + s,
                 {"e": "disp", "s": s, "ns": [hx(n) for n in names]})

    def intro(self):
        self.cmd("intro A", {"e": "intro"})

    def push(self, prog):
        self.nic += 1
        self.cmd("icpt A %d %s" % (self.nic, prog), {"e": "push", "i": self.nic, "p": prog})

    def call(self, rng, c, name, act="tag", ka=True, **o):
        """act: (harness action, outcome kind, code, text)"""
        self.ncall += 1
        tag = "t%d" % self.ncall
        if act == "tag":
            act = ("tag", "ok", 0, tag)
        if c not in self.opened:
            self.open(c)
            if self.tls:
                self.run()
            self.opened.add(c)
        r = Req(rng, tag, method=name, rawact=act[0], ka=ka, **o)
        self.calls[tag] = (name, act, r)
        self.reqs[tag] = r
        self.cmd("tx %d %s" % (c, r.bytes.hex()),
                 {"e": "call", "c": c, "t": tag, "n": hx(name), "k": act[1], "c_": act[2], "v": act[3] if act[3] == "*" else hx(act[3])})
        if not ka:
            self.opened.discard(c)
        return tag

    def project(self, events, status):
        out = [{"e": "cfg", "sid": self.sid}]
        streams, on = {}, {}
        for line in events:
            w = line.split(" ")
            k = w[0]
            if k == "#":
                for e in self.notes.get(int(w[1]), []):
                    if e["e"] == "call":
                        on[e["c"]] = e["t"]
                        out.append({"e": "call", "t": e["t"], "n": e["n"], "k": e["k"], "c": e["c_"], "v": e["v"]})
                    elif e["e"] in ("reg", "disp", "intro", "push"):
                        out.append(e)
            elif k == "ic":
                out.append({"e": "step", "t": w[1], "w": w[3], "i": int(w[2]), "s": "", "x": []})
            elif k == "exec":
                m = re.match(r"exec (\S+) name=(\S*) src=(\S*) auth=(\S*) authd=(\d) xh=(\S*) port=(\d+) args=(.*)$", line)
                t = m.group(1)
                extra = []
                if t in self.calls:
                    base = self.reqs[t].args[:-1]
                    rest = m.group(8)
                    ok = rest.startswith(base) and m.group(2) == hx(self.calls[t][0])
                    if ok:
                        for x in rest[len(base):-1].split(",")[1:]:
                            y = re.match(r"s70((?:3\d)+)$", x)
                            ok = ok and bool(y)
                            if y:
                                extra.append(int(bytes.fromhex(y.group(1))))
                    if not ok:
                        out.append({"e": "badexec", "t": t, "line": line[:300]})
                        continue
                out.append({"e": "step", "t": t, "w": "exec", "i": 0, "s": m.group(3), "x": extra})
            elif k == "done":
                out.append({"e": "step", "t": w[1], "w": "done", "i": 0, "s": "", "x": []})
            elif k == "rx":
                c = int(w[1])
                for p in streams.setdefault(c, HttpStream()).feed(bytes.fromhex(w[2])):
                    out.append(self.answer(c, on.get(c, "?"), p))
            elif k == "quiet":
                out.append({"e": "quiet"})
            elif k in ("eof", "reset") and streams.get(int(w[1])) and streams[int(w[1])].buf:
                out.append({"e": "partial", "c": int(w[1])})
            elif k in ("workexc", "spin", "deadlock", "watchdog", "badclose", "baduse", "overrelease", "badcmd", "cmdexc"):
                out.append({"e": k, "line": line[:200]})
        if status != "exit0":
            out.append({"e": "crash", "status": status})
        return out

    def answer(self, c, t, p):
        if p[0] != "rsp" or p[1] != 200:
            return {"e": "badrsp", "t": t, "what": str(p[:2])}
        try:
            v = decode_response(p[3])
        except Exception as ex:
            return {"e": "badbody", "t": t, "why": str(ex), "d": p[3][:200].hex()}
        if v[0] == "fault":
            return {"e": "ret", "t": t, "k": "fault", "c": v[1], "v": v[2]}
        x = v[1]
        if x.startswith("s"):
            return {"e": "ret", "t": t, "k": "ok", "c": 0, "v": x[1:]}
        if x.startswith("["):
            return {"e": "ret", "t": t, "k": "list", "c": 0, "v": sorted(set(y[1:] for y in x[1:-1].split(",") if y))}
        return {"e": "ret", "t": t, "k": "ok", "c": 0, "v": "?" + x[:80]}


def corrupt(trace):
    out = {}
    pos = {}
    for i, e in enumerate(trace):
        pos.setdefault(e["e"], []).append(i)
    if "ret" in pos:
        i = pos["ret"][-1]
        e = trace[i]
        out["answer twice"] = trace[:i + 1] + [e] + trace[i + 1:]
        if any(j > i for j in pos.get("quiet", [])):
            out["answer lost"] = trace[:i] + trace[i + 1:]
        if e["k"] == "fault":
            out["fault with another code"] = trace[:i] + [dict(e, k="ok")] + trace[i + 1:]
        elif e["k"] == "list":
            out["a name missing"] = trace[:i] + [dict(e, v=e["v"][1:])] + trace[i + 1:]
        else:
            out["another result"] = trace[:i] + [dict(e, v=e["v"] + "21")] + trace[i + 1:]
    st = [i for i in pos.get("step", [])]
    if st:
        i = st[len(st) // 2]
        out["a step twice"] = trace[:i + 1] + [trace[i]] + trace[i + 1:]
        out["a step missing"] = trace[:i] + trace[i + 1:]
        ex = [i for i in st if trace[i]["w"] == "exec"]
        if ex:
            i = ex[-1]
            out["another method"] = trace[:i] + [dict(trace[i], s=trace[i]["s"] + "x")] + trace[i + 1:]
    return out


def model(ctx, what):
    acts = '{[k |-> "ok", c |-> 0, v |-> "6d"], [k |-> "fault", c |-> 7, v |-> "66"], [k |-> "exc", c |-> 0, v |-> "65"]}'
    mod = "---- MODULE MCDispatch ----\nEXTENDS DispatchImpl\nActsV == %s\n====\n" % acts

    def run(name, bug, progs, stack, names, disps, regs, bad=False):
        cfg = "CONSTANTS\n Progs = %s\n MaxStack = %d\n Names = %s\n MaxDisp = %d\n MaxReg = %d\n Acts <- ActsV\n Bug = \"%s\"\n" \
              "SPECIFICATION Spec\nINVARIANTS Refines Ends Nested\nCHECK_DEADLOCK FALSE\n" % (tla(set(progs)), stack, tla(set(names)), disps, regs, bug)
        ctx.mc(name, "MCDispatch", cfg, expect_violation=bad, modules={"MCDispatch": mod})

    if what == "lookup":
        run("lookup: 3 names, 2 dispatchers, 3 registrations", "none", ["pass"], 0, ["a", "b", "c"], 2, ctx.n(3, 4))
        for b in ("lastdisp", "keepfirst"):
            run("negative control " + b, b, ["pass"], 0, ["a", "b"], 2, 2, bad=True)
    else:
        run("interceptors: stacks of %d of %d programs" % (ctx.n(3, 4), len(PROGS)), "none", PROGS, ctx.n(3, 4), ["a"], 0, 1)
        for b in ("fifo", "skip", "lostfault"):
            run("negative control " + b, b, PROGS, 2, ["a"], 0, 1, bad=True)


def generate(ctx, name, names=("a",), progs=("pass",), acts=(1,), ops=("push",), n=3, stack=0, disps=0, simulate=0):
    cfg = "CONSTANTS\n N = %d\n Names = %s\n Progs = %s\n Acts = %s\n Ops = %s\n MaxStack = %d\n MaxDisp = %d\n Fan = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
        n, tla(set(names)), tla(set(progs)), tla(set(acts)), tla(set(ops)), stack, disps, 3 if simulate else 0)
    args = ["-simulate", "num=%d" % simulate, "-depth", str(n + 1), "-seed", str(ctx.seed * 7919 + 29)] if simulate else []
    return ctx.gen(name, "GenDispatch", cfg, args=args, fast=True)


NAMES = [("alpha", "beta"), ("alpha", "Alpha"), ("a", "aa"), ("m", "m "), ("x.y", "x"), ("é", "e"), ("<t>", "&lt;t&gt;"), ("system.listMethod", "system.listMethodss"),
         ("a b", "ab"), ("n" * 3000, "n" * 2999), ("0", "00"), ("system.ListMethods", "listMethods")]


def D01(ctx):
    ctx.build("iqhost")
    model(ctx, "lookup")
    h = generate(ctx, "GenDispatch lookup", ("a", "b", "L"), ops=("reg", "disp", "intro"), n=3, disps=3)
    h = pick(ctx.rng, h, ctx.n(1800, 4000))
    h += pick(ctx.rng, generate(ctx, "GenDispatch long lookup", ("a", "b", "L"), ops=("reg", "disp", "intro", "call", "run"), n=12, disps=5, simulate=ctx.n(1200, 8000)), ctx.n(900, 6000))
    scns = []
    for i, x in enumerate(h):
        rs = random.Random("D01/%d/%d" % (ctx.seed, i))
        w = rs.choice([0, 0, 0, 2])
        s = DScn("d%d" % i, w, sched_any(rs))
        a, b = NAMES[i % len(NAMES)] if rs.random() < .5 else ("alpha", "beta")
        real = {"a": a, "b": b, "L": LIST}

        def ask(names):
            c = 0
            for n in names:
                c += 1
                s.call(rs, c, n, rs.choice(["tag", "tag", ("src", None)])[0:3] if False else "tag", ka=rs.random() < .9)
            s.run()
        everything = [a, b, LIST, rs.choice(["zzz", a[:-1] or "q", a.upper() if a.upper() not in (a, b) else "zz", "", " " + a, a + "\x00x" if False else "m2"])]
        if everything[3] in (a, b):
            everything[3] = "nobody"
        mixed = any(y["o"] == "call" for y in x)
        if not mixed and rs.random() < .3:
            ask(everything)
        for y in x:
            if y["o"] == "reg":
                s.reg(real[y["n"]])
            elif y["o"] == "disp":
                s.disp([real[n] for n in sorted(y["ns"])])
            elif y["o"] == "intro":
                s.intro()
            elif y["o"] == "call":
                ask([real[y["n"]]])
            if not mixed and (rs.random() < .5 or y is x[-1]):
                ask(everything)
        if mixed:
            ask(everything)
        scns.append(s)
    ctx.conform(scns, "TraceDispatch", corrupt=corrupt)
    return "model_checking", ASSUME


def actions(tag="t"):
    return ["tag", ("fault:7:" + hx("f1"), "fault", 7, "f1"), ("stdexc:0:" + hx("se"), "exc", 0, "se"), ("iqexc:-5:" + hx("ie"), "exc", 0, "ie"),
            ("int", "exc", 0, "*"), ("badcast", "exc", 0, "*")]


def D02(ctx):
    ctx.build("iqhost")
    model(ctx, "stack")
    h = generate(ctx, "GenDispatch stacks", progs=PROGS, ops=("push",), n=3, stack=3)
    h2 = generate(ctx, "GenDispatch growing stacks", ("a", "L", "z"), progs=PROGS, acts=range(6), ops=("push", "call", "run"), n=14, stack=6, simulate=ctx.n(1500, 12000))
    if ctx.thorough:
        h += generate(ctx, "GenDispatch deep stacks", progs=PROGS, ops=("push",), n=4, stack=4, simulate=4000)
    scns = []
    acts = actions()
    for i, x in enumerate(h):
        rs = random.Random("D02/%d/%d" % (ctx.seed, i))
        s = DScn("k%d" % i, rs.choice([0, 0, 2]), sched_any(rs))
        s.reg("a")
        if rs.random() < .3:
            s.intro()
        for y in x:
            s.push(y["p"])
        if rs.random() < .5:       # one after the other on one connection
            for a in acts:
                s.call(rs, 1, "a", a)
                s.run()
        else:
            for c, a in enumerate(acts):
                s.call(rs, c + 1, "a", a, ka=rs.random() < .8)
            s.run()
        s.call(rs, 9, rs.choice([LIST, "nobody"]))
        s.call(rs, 10, "a")
        s.run()
        scns.append(s)
    for i, x in enumerate(pick(ctx.rng, h2, ctx.n(1500, 12000))):
        rs = random.Random("D02b/%d/%d" % (ctx.seed, i))
        s = DScn("g%d" % i, rs.choice([0, 2, 3]), sched_any(rs))
        s.reg("a")
        s.intro()
        c = 0
        for y in x:
            if y["o"] == "push":
                if c:       # the stack is not changed under running calls
                    s.run()
                    c = 0
                s.push(y["p"])
            elif y["o"] == "call":
                c += 1
                s.call(rs, c, {"a": "a", "L": LIST, "z": "z"}[y["n"]], acts[y["a"]], ka=rs.random() < .8)
            else:
                s.run()
                c = 0
        s.run()
        s.call(rs, 20, "a")
        s.run()
        scns.append(s)
    ctx.conform(scns, "TraceDispatch", corrupt=corrupt)
    return "model_checking", ASSUME


TEXTS = ["", "x", " ", "  lead and trail  ", "\n", "a\nb\n", "<fault>&amp;</fault>", "]]>", "é ü € \U0001f600", "tab\there", "'\"", "%s%n%d", "-32601",
         "x" * 1000, "y" * 70000, "faultCode", "\x7f", "&#65;"]
CODES = [0, 1, -1, 7, 100, -32500, -32601, -32700, 12345, 2147483647, -2147483648]


def D03(ctx):
    import broken
    ctx.build("iqhost")
    model(ctx, "stack")
    scns = []
    # everything a method can throw, with every text, serial and pooled, with and without an interceptor around
    k = 0
    for t in TEXTS:
        for kind in ("fault", "stdexc", "logic", "iqexc"):
            for w in (0, 2):
                rs = random.Random("D03/%d/%d" % (ctx.seed, k))
                s = DScn("t%d" % k, w, sched_any(rs))
                k += 1
                s.reg("a")
                for j in range(rs.randrange(3)):
                    s.push(rs.choice(["pass", "pass", "params", "alter", "throwa"]))
                for c in (rs.choice(CODES), rs.choice(CODES)):
                    a = ("%s:%d:%s" % (kind, c, hx(t)), "fault" if kind == "fault" else "exc", c if kind == "fault" else 0, t)
                    s.call(rs, 1, "a", a, ka=rs.random() < .8)
                    s.call(rs, 2, "a", "tag", ka=rs.random() < .8)
                    s.run()
                scns.append(s)
    for i in range(ctx.n(900, 6000)):
        rs = random.Random("D03r/%d/%d" % (ctx.seed, i))
        s = DScn("r%d" % i, rs.choice([0, 1, 2]), sched_any(rs))
        s.reg("a")
        for j in range(rs.randrange(4)):
            s.push(rs.choice(PROGS))
        for rnd in range(3):
            for c in range(1, 5):
                kind = rs.choice(["fault", "fault", "stdexc", "logic", "iqexc", "int", "cstr", "params", "unknown", "badcast", "tag"])
                t, code = rs.choice(TEXTS), rs.choice(CODES + [rs.randrange(-2 ** 31, 2 ** 31)])
                a = "tag" if kind == "tag" else (kind, "exc", 0, "*") if kind in ("int", "cstr", "params", "unknown", "badcast") else \
                    ("%s:%d:%s" % (kind, code, hx(t)), "fault" if kind == "fault" else "exc", code if kind == "fault" else 0, t)
                s.call(rs, c, rs.choice(["a", "a", "a", "nobody"]), a, ka=rs.random() < .8)
            s.run()
        scns.append(s)
    ctx.conform(scns, "TraceDispatch", corrupt=corrupt)
    # documents that are no calls
    scns = []
    rs = random.Random("D03x/%d" % ctx.seed)
    docs = broken.documents(rs, ctx.n(2400, 12000))
    per = 6
    for i in range(0, len(docs), per):
        s = Scn("x%d" % i, {"workers": rs.choice([0, 0, 2])})
        s.server(sched_any(rs))
        for j, (xml, body) in enumerate(docs[i:i + per]):
            c = 1 + j
            s.open(c)
            s.req(c, Req(rs, "t%d" % j, xml=xml, rawbody=body, ka=True))
            if rs.random() < .5:
                s.run()
        s.run()
        s.req(1, Req(rs, "u"))
        s.run()
        scns.append(s)
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


class XScn(Scn):
    """Scenarios over XHeaders: library clients and raw peers against one server."""

    def __init__(self, sid, workers, sched):
        super().__init__(sid, {"workers": workers})
        self.n = 0
        self.tags = {}
        self.server(sched)
        self.run()

    def client(self, k, ka):
        self.cmd("client %s http A" % k, {"e": "client", "k": k})
        self.cmd("cset %s ka=%d" % (k, ka))

    @staticmethod
    def seq(h):
        return [{"n": hx(n.lower()), "x": n[:2] in ("X-", "x-"), "v": hx(v)} for n, v in h]

    @staticmethod
    def arg(h):
        return ",".join(hx(n) + "=" + hx(v) for n, v in h)

    def set(self, k, h, each):
        if each:
            self.cmd("cset %s xh=%s" % (k, self.arg(h)), {"e": "seteach", "k": k, "q": self.seq(h)})
        else:
            self.cmd("cset %s xm=%s" % (k, self.arg(h)), {"e": "setmap", "k": k, "q": self.seq(h)})

    def call(self, k, h, how):
        self.n += 1
        t = "t%d" % self.n
        self.tags[t] = "s" + hx(t)
        x = " xh=" + self.arg(h) if how == "each" and h else " xm=" + self.arg(h) if how != "none" else ""
        self.cmd("call %s %s %s [s%s,s%s]%s" % (k, t, hx("m"), hx(t), hx("tag"), x), {"e": "call", "t": t, "k": k, "q": self.seq(h)})

    def raw(self, rng, c, h, first):
        self.n += 1
        t = "t%d" % self.n
        self.tags[t] = None
        r = Req(rng, t, headers=[(n, v) for n, v in h], nox=True)
        if first:
            self.cmd("open %d A" % c)
        self.cmd("tx %d %s" % (c, r.bytes.hex()), {"e": "raw", "t": t, "q": self.seq(h)})

    def project(self, events, status):
        out = [{"e": "cfg", "sid": self.sid}]
        pend = None
        for line in events:
            w = line.split(" ")
            if w[0] == "#":
                for e in self.notes.get(int(w[1]), []):
                    if e["e"] == "seteach":
                        pend = e
                    elif e["e"] in ("client", "setmap", "call", "raw"):
                        out.append(e)
            elif w[0] == "xhset":
                out.append(dict(pend, ok=w[2] == "ok"))
            elif w[0] == "exec":
                m = re.match(r"exec (\S+) name=(\S*) src=(\S*) auth=(\S*) authd=(\d) xh=(\S*) port", line)
                q = []
                for kv in m.group(6).split(","):
                    if kv:
                        n, v = kv.split("=")
                        n = bytes.fromhex(n).decode("utf-8", "replace")
                        q.append({"n": hx(n.lower()), "x": n[:2] in ("X-", "x-"), "v": v})
                out.append({"e": "seen", "t": m.group(1), "q": q})
            elif w[0] == "ret":
                if w[2] != "ok" or self.tags.get(w[1]) != w[3]:
                    out.append({"e": "badret", "line": line[:200]})
            elif w[0] == "quiet":
                out.append({"e": "quiet"})
            elif w[0] in ("workexc", "spin", "deadlock", "watchdog", "badclose", "baduse", "overrelease", "badcmd", "cmdexc"):
                out.append({"e": w[0], "line": line[:200]})
        if status != "exit0":
            out.append({"e": "crash", "status": status})
        return out


def corrupt_x(trace):
    out = {}
    seen = [i for i, e in enumerate(trace) if e["e"] == "seen"]
    if not seen:
        return out
    i = seen[-1]
    e = trace[i]
    out["another header"] = trace[:i] + [dict(e, q=e["q"] + [{"n": hx("x-leaked"), "x": True, "v": "00"}])] + trace[i + 1:]
    out["an improper header"] = trace[:i] + [dict(e, q=e["q"] + [{"n": hx("host"), "x": False, "v": "00"}])] + trace[i + 1:]
    if e["q"]:
        out["a header missing"] = trace[:i] + [dict(e, q=e["q"][1:])] + trace[i + 1:]
        out["another value"] = trace[:i] + [dict(e, q=[dict(e["q"][0], v=e["q"][0]["v"] + "20")] + e["q"][1:])] + trace[i + 1:]
    sets = [j for j, x in enumerate(trace) if x["e"] == "seteach"]
    if sets:
        j = sets[-1]
        out["the other verdict"] = trace[:j] + [dict(trace[j], ok=not trace[j]["ok"])] + trace[j + 1:]
    return out


XPAIRS = [("X-A", "X-B"), ("X-Long-Name", "X-Long-Name2"), ("x-a", "x-aa"), ("X-", "X-X"), ("X-Content-Length", "X-Host"), ("X-1.2_3", "X-~!"), ("X-x-y", "X-x")]
XVALUES = ["", "1", "a b", "a:b", "::", "x=y,z", "caf\u00e9", "\"q\"", "%41&lt;", "v" * 900, "content-length: 5", "two  blanks", "tab\tinside", "0", "\\r\\n", "close"]
IMPROPER = ["Y-A", "A", "XA", "Content-Length", "Host", "-X-A", "Authorization", "X", "xx-a"]


def letters(rng, n):
    return rng.choice([n, n.lower(), n.upper(), "".join(c.upper() if rng.random() < .5 else c.lower() for c in n)])


def D04(ctx):
    ctx.build("iqhost")

    def mc(name, bug, bad=False):
        ctx.mc(name, "XHeadersImpl", "CONSTANTS\n Names = {\"a\", \"b\", \"y\"}\n Values = {\"1\", \"2\"}\n MaxOps = %d\n Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\n" % (
            3 if bad else ctx.n(4, 5), bug), expect_violation=bad)
    mc("headers from client to method", "none")
    for b in ("connwins", "sticky", "leak", "all"):
        mc("negative control " + b, b, True)

    def g(name, n, clients, sim=0):
        args = ["-simulate", "num=%d" % sim, "-depth", str(n + 1), "-seed", str(ctx.seed * 7919 + 31)] if sim else []
        return ctx.gen(name, "GenXHeaders", "CONSTANTS\n N = %d\n Clients = %s\n Ops = %s\n Fan = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
            n, tla(set(clients)), tla({"set", "call"} if not sim else {"set", "call", "raw"}), 2 if sim else 0), args=args, fast=True)
    h = pick(ctx.rng, g("GenXHeaders exhaustive", 3, ["k"]), ctx.n(1700, 5832))
    h += pick(ctx.rng, g("GenXHeaders several clients", 9, ["k", "l"], ctx.n(120, 900)), ctx.n(1000, 8000))
    scns = []
    for i, x in enumerate(h):
        rs = random.Random("D04/%d/%d" % (ctx.seed, i))
        s = XScn("x%d" % i, rs.choice([0, 0, 2]), sched_any(rs))
        for k in ("k", "l"):
            s.client(k, rs.random() < .6)
        names = dict(zip("ab", rs.choice(XPAIRS)))
        vals = rs.sample(XVALUES, 2)
        opened = False

        def headers(m, bad, twice):
            q = [(letters(rs, names[n]), vals[m[n] - 1]) for n in "ab" if m[n]]
            if twice and q and rs.random() < .3:       # the same name in other letters: the later entry counts
                q.insert(0, (letters(rs, q[-1][0]), "replaced"))
                if q[0][0] == q[-1][0]:
                    q.pop(0)
            if bad:
                q.insert(rs.randrange(len(q) + 1), (rs.choice(IMPROPER), "bad"))
            return q
        for y in x:
            if y["o"] == "set":
                each = rs.random() < .5
                s.set(y["k"], headers(y["m"], y["bad"], each), each)
            elif y["o"] == "call":
                how = "map" if y["bad"] else rs.choice(["each", "each", "map", "none"])
                q = headers(y["m"], y["bad"], how == "each")
                s.call(y["k"], [] if how == "none" else q, how)
                s.run()
            else:
                q = [(n, v) for n, v in headers(y["m"], False, False)]
                if y["bad"]:
                    q.append((rs.choice(["Y-A", "XA", "A", "-X-A", "xx-a"]), "bad"))
                s.raw(rs, 1, q, not opened)
                opened = True
                s.run()
        s.call("k", [], "none")
        s.run()
        scns.append(s)
    ctx.conform(scns, "TraceXHeaders", corrupt=corrupt_x)
    return "model_checking", ASSUME


CHECKS = {"D01": D01, "D02": D02, "D03": D03, "D04": D04}
