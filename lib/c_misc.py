"""Checks of network addresses (N01) and of the server's log (L01)."""
import random
import re
from c_server import pick, sched_any, sched_pool
from srv import HttpStream, Req, hx

BAD = ("crash", "cmdexc", "badcmd", "livelock", "san", "spin", "deadlock", "watchdog", "badclose", "baduse", "overrelease", "workexc")


class AScn:
    def __init__(self, sid, lines, names, what):
        self.sid, self.lines, self.names, self.meta = sid, lines, names, {"what": what}

    def project(self, events, status):
        tr = [{"e": "cfg"}]
        for e in events:
            w = e.split()
            if w[0] == "a":
                k = w[1]
                if k == "new":
                    n = "" if w[3] == "-" else bytes.fromhex(w[3]).decode()
                    ip = "0.0.0.0" if w[3] == "-" else n if re.match(r"[0-9.]+$", n) else ""
                    tr.append({"e": "new" if w[5] == "1" else "badnew", "o": w[2], "name": n, "port": int(w[4]), "ip": ip})
                elif k == "copy":
                    tr.append({"e": "copy", "o": w[2], "of": w[3]})
                elif k == "use":
                    tr.append({"e": "use", "u": w[2], "o": w[3]})
                elif k == "look":
                    tr.append({"e": "look", "name": bytes.fromhex(w[2]).decode(), "ip": w[3]})
                elif k == "got":
                    tr.append({"e": "got", "u": w[2], "fam": int(w[3]), "ip": w[4], "port": int(w[5])})
                elif k == "err":
                    tr.append({"e": "err", "u": w[2]})
                else:
                    tr.append({"e": "bad", "what": e[:200]})
            elif w[0] == "quiet":
                tr.append({"e": "quiet"})
            elif w[0] in BAD:
                tr.append({"e": "crash", "what": e[:200]})
        if status != "exit0":
            tr.append({"e": "crash", "what": status})
        return tr


def aconcrete(rng, sid, h, what):
    """A program of GenAddress as commands; objects 1 and 2 are of the name with
    the generated answers, 3 is another name, 4 a numeric address or any."""
    ops, ans = h[0]["ops"], h[0]["ans"]
    call = any(o["k"] == "call" for o in ops)
    work = any(o["k"] == "work" for o in ops)
    name = rng.choice(["svc.example", "h", "a-b.c.d.example.org", "host1"])
    ips = ["127.0.0.1"] if call else ["127.0.0.1", "127.0.0.2"] if work else ["10.0.0.1", "192.168.7.9"]
    lines = ["sched " + (sched_pool(rng) if rng.random() < .8 else sched_any(rng)) + rng.choice(["", " bb=15"])]
    if call:
        lines += ["server A", "work A"]
    port = "A" if call else "pick" if work else str(rng.choice([1, 80, 8080, 65535]))
    real = lambda a: "fail" if a == "fail" else ips[min(int(a[1:]), len(ips)) - 1]
    lines.append("aname %s %s" % (hx(name), ",".join(real(a) for a in ans)))
    other, oip = name + "x", ips[0] if call else "127.0.0.3" if work else "10.77.1.2"
    lines.append("aname %s %s" % (hx(other), rng.choice(["fail", oip, oip, "fail," + oip])))
    lines += ["anew 1 %s %s" % (hx(name), port), "acopy 2 1"]
    o3 = rng.choice([other, other, ips[0], name])
    lines.append("anew 3 %s %s" % (hx(o3), port))
    if rng.random() < 0.3 and not call and not work:
        lines[-1] = "anew 3 - %s" % port
    n = 0
    for i, o in enumerate(ops):
        if o["op"] == "use":
            n += 1
            if o["k"] == "work":
                lines += ["run", "awork u%d %s" % (n, o["o"]), "run"]
            else:
                lines.append("ause u%d %s %s" % (n, o["o"], o["k"]))
                if o["k"] == "call":
                    lines.append("run")
        elif o["op"] == "copy":
            lines.append("acopy %s %s" % ("2" if o["o"] == "1" else o["o"], "1" if o["o"] == "2" else o["o"]))
        else:
            lines.append("run")
    return AScn(sid, lines + ["run"], (name, other), what)


def acorrupt(tr):
    out = {}
    for i, e in enumerate(tr):
        if e["e"] == "got":
            out["other port"] = tr[:i] + [dict(e, port=e["port"] + 1)]
            out["unanswered address"] = tr[:i] + [dict(e, ip="10.9.9.9")]
            out["zero address"] = tr[:i] + [dict(e, fam=0, ip="0.0.0.0", port=0)]
            if not any(x["e"] == "look" and x["ip"] == "fail" for x in tr[:i]):
                out["failure without cause"] = tr[:i] + [{"e": "err", "u": e["u"]}]
            out["never returns"] = tr[:i] + [{"e": "quiet"}]
    return out


def ccfg(threads, objs, names, uses, looks, bug=""):
    q = lambda s: "{%s}" % ", ".join('"%s"' % x for x in s)
    return ("CONSTANTS\n Threads = %s\n Objs = %s\n Names = %s\n MaxUses = %d\n MaxLooks = %d\n Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n"
            % (q(threads), q(objs), q(names), uses, looks, bug))


def N01(ctx):
    ctx.build("iqhost")
    ctx.mc("AddressImpl keeps Address", "AddressImpl", ccfg(("t1", "t2"), ("a", "b"), ("a",), ctx.n(4, 6), ctx.n(4, 6)), fast=True)
    ctx.mc("AddressImpl keeps Address, two names", "AddressImpl", ccfg(("t1", "t2"), ("a", "b", "c"), ("a", "b"), ctx.n(3, 5), ctx.n(3, 5)), fast=True)
    if ctx.thorough:
        ctx.mc("AddressImpl keeps Address, three threads", "AddressImpl", ccfg(("t1", "t2", "t3"), ("a", "b"), ("a",), 5, 5), fast=True)
    for b in ("early", "split", "sticky", "noport", "cross"):
        ctx.mc("AddressImpl with bug " + b, "AddressImpl", ccfg(("t1", "t2"), ("a", "b"), ("a", "b"), 4, 4, b), expect_violation=True, fast=True)
    scns = []

    def gen(name, kinds, objs, ops, ans, keep):
        q = lambda s: "{%s}" % ", ".join('"%s"' % x for x in s)
        cfg = ("CONSTANTS\n Answers = {\"fail\", \"i1\", \"i2\"}\n MaxAns = %d\n MaxOps = %d\n Objs = %s\n Kinds = %s\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
               % (ans, ops, q(objs), q(kinds)))
        hh = ctx.gen(name, "GenAddress", cfg, fast=True)
        for i, h in enumerate(pick(ctx.rng, hh, keep)):
            rng = random.Random("N01%s%d/%d" % (name, ctx.seed, i))
            scns.append(aconcrete(rng, "%s%d" % (name.split()[-1], i), h, name))
    gen("GenAddress sockets", ("sock",), ("1", "2"), ctx.n(4, 5), 3, ctx.n(1200, 12000))
    gen("GenAddress threes", ("sock",), ("1", "2", "3"), 4, 2, ctx.n(700, 6000))
    gen("GenAddress calls", ("sock", "call"), ("1", "2"), ctx.n(3, 4), 3, ctx.n(500, 5000))
    gen("GenAddress listeners", ("sock", "work"), ("1", "2"), ctx.n(3, 4), 3, ctx.n(500, 5000))
    ctx.conform(scns, "TraceAddress", corrupt=acorrupt)
    return "model_checking", ["Answers of the name service are scripted; a lookup is answered at once or not at all.",
                              "The resolver functions of the C library (gethostbyname, gethostbyname_r, getaddrinfo) are the only way names are looked up.",
                              "At most three objects of two names and three operations of each kind per program; IPv4 only, like the library."]


# ---------------------------------------------------------------------- log
class LScn:
    def __init__(self, sid, lines, msgs, what):
        self.sid, self.lines, self.msgs, self.meta = sid, lines, msgs, {"what": what}
        self.calls = {}          # step -> [(conn, tag, kind)]

    def project(self, events, status):
        tr = [{"e": "cfg"}, {"e": "on", "v": False}]
        streams, want = {}, {}
        for e in events:
            w = e.split(" ")
            k = w[0]
            if k == "#":
                x = self.calls.get(int(w[1]))
                if x is not None and x[0] == "switch":
                    tr.append({"e": "on", "v": x[1]})
                elif x is not None:
                    want[x[1]] = x[2:]
                    tr.append({"e": "req", "c": x[1]})
            elif k in ("log", "logged"):
                tr.append({"e": k, "m": w[1]})
            elif k == "line":
                s = bytes.fromhex(w[1]).decode("latin1")
                found = sorted((s.index(m), m) for m in self.msgs if m in s)
                toks = [m for _, m in found for _ in range(s.count(m))]
                tr.append({"e": "line", "toks": [hx(t) for t in toks], "exact": s in self.msgs})
            elif k == "rx":
                c = int(w[1])
                for p in streams.setdefault(c, HttpStream()).feed(bytes.fromhex(w[2])):
                    tag, kind = want.get(c, ("?", "?"))
                    body = p[-1] if isinstance(p[-1], bytes) else str(p).encode()
                    fault = b"<fault>" in body
                    good = kind == "bad" or (kind == "logfault") == fault and tag.encode() in body
                    tr.append({"e": "rsp", "c": c, "good": good})
            elif k == "quiet":
                tr.append({"e": "quiet"})
            elif k in BAD:
                tr.append({"e": "crash", "what": e[:200]})
        if status != "exit0":
            tr.append({"e": "crash", "what": status})
        return tr


def lconcrete(rng, sid, h, workers, what):
    s = LScn(sid, ["sched " + sched_pool(rng), "server A" + (" exec=%d" % workers if workers else ""), "work A"], [], what)
    on, n, opened = False, 0, set()

    def add(line, x=None):
        if x is not None:
            s.calls[len(s.lines)] = x
        s.lines.append(line)

    def switch():
        nonlocal on
        on = not on
        add("slog A " + ("on" if on else "off"), ("switch", on))
    if h[0]["op"] != "switch" or rng.random() < .8:
        switch()
    for o in h:
        if o["op"] == "switch":
            switch()
        elif o["op"] == "run":
            add("run")
        else:
            c, w = o["c"], o["w"]
            n += 1
            tag = "t%dz" % n
            if c not in opened:
                opened.add(c)
                add("open %d A" % c)
            if w == "bad":
                add("tx %d %s" % (c, hx(rng.choice(["GET / HTTP/1.0\r\n\r\n", "POST / HTTP/1.0\r\ncontent-length: x\r\n\r\n"]))), ("req", c, tag, w))
                opened.discard(c)
                continue
            msgs = []
            for i in range({"log1": 1, "logfault": 1, "log2": 2}.get(w, 0)):
                m = rng.choice(["m%d-%d;", "message %d.%d of a method;", "<%d|%d>"]) % (n, i) + "y" * rng.choice([0, 0, 3, 60, 600])
                m += "$"
                msgs.append(m)
            s.msgs += msgs
            act = "tag" if w == "plain" else (w[:3] if w != "logfault" else w) + ":" + ":".join(hx(m) for m in msgs)
            r = Req(rng, tag, rawact=act, ka=True)
            add("tx %d %s" % (c, r.bytes.hex()), ("req", c, tag, w))
    s.lines += ["run", "run"]
    return s


def lcorrupt(tr):
    out = {}
    for i, e in enumerate(tr):
        if e["e"] == "line" and e["exact"]:
            out["line twice"] = tr[:i + 1] + tr[i:]
            out["line missing"] = tr[:i] + tr[i + 1:]
            out["line mixed"] = tr[:i] + [dict(e, exact=False)] + tr[i + 1:]
            j = next((j for j in range(i) if tr[j]["e"] == "log" and tr[j]["m"] == e["toks"][0]), None)
            if j is not None:
                out["line early"] = tr[:j] + [e] + tr[j:]
        elif e["e"] == "rsp":
            out["no response"] = tr[:i] + tr[i + 1:]
            out["other response"] = tr[:i] + [dict(e, good=False)]
    return out


def L01(ctx):
    ctx.build("iqhost")
    cfg = lambda t, each, bug="": ("CONSTANTS\n Threads = {%s}\n Each = %d\n Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n"
                                   % (", ".join('"%d"' % i for i in range(t)), each, bug))
    ctx.mc("LogImpl keeps Log, 2 threads", "LogImpl", cfg(2, 3), fast=True)
    ctx.mc("LogImpl keeps Log, 3 threads", "LogImpl", cfg(3, ctx.n(2, 3)), fast=True)
    for b in ("nolock", "textonly", "late", "again", "drop"):
        ctx.mc("LogImpl with bug " + b, "LogImpl", cfg(2, 2, b), expect_violation=True, fast=True)
    scns = []

    def gen(name, conns, whats, ops, keep, workers):
        c = ("CONSTANTS\n Conns = {%s}\n Whats = {%s}\n MaxOps = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
             % (", ".join(map(str, range(1, conns + 1))), ", ".join('"%s"' % w for w in whats), ops))
        hh = ctx.gen(name, "GenLog", c, fast=True)
        for i, h in enumerate(pick(ctx.rng, hh, keep)):
            rng = random.Random("L01%s%d/%d" % (name, ctx.seed, i))
            scns.append(lconcrete(rng, "%s%d" % (name.split()[-1], i), h, rng.choice(workers), name))
    gen("GenLog together", 3, ("log1", "log2", "logfault", "bad"), 3, ctx.n(200, 800), (2, 3))
    gen("GenLog mixed", 3, ("log1", "log2", "bad"), ctx.n(4, 5), ctx.n(900, 8000), (1, 2, 3))
    gen("GenLog all", 2, ("log1", "log2", "logfault", "bad", "plain"), ctx.n(4, 5), ctx.n(600, 6000), (0, 2))
    ctx.conform(scns, "TraceLog", corrupt=lcorrupt)
    return "model_checking", ["The log stream itself works: what is written to it while no other thread does is kept.",
                              "Messages contain no line breaks.", "The log is switched only while no method runs."]
# ---------------------------------------------------------------------- independent threads
KINDS = ["enc", "dec", "baddec", "date", "baddate", "val", "dreq", "drsp", "dflt", "preq", "badpreq", "prsp", "xh", "call"]


def pstep(rng, k):
    """a step of a kind: (command, argument)"""
    import vals
    from c_value import Writer
    v = lambda: vals.canon(vals.value(rng, rng.choice([1, 2]), 2))
    if k == "enc":
        return "enc", bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 20, 100]))).hex()
    if k == "dec":
        import base64
        return "dec", base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 20, 70])))).hex()
    if k == "baddec":
        return "dec", hx(rng.choice(["A", "A===", "AA=A", "!!!!", "AAAAAAAA*AAA"]))
    if k == "date":
        return "date", hx("%04d%02d%02dT%02d:%02d:%02d" % (rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)))
    if k == "baddate":
        return "date", hx(rng.choice(["19980717", "1998071:T14:08:55", "x", "19980717T14:08:5x"]))
    if k in ("val", "dreq", "drsp"):
        return k, v()
    if k == "dflt":
        return k, str(rng.randrange(-9, 9999))
    w = Writer(rng, plain=rng.random() < .5)
    if k in ("preq", "badpreq"):
        d = w.request(rng.choice(["a", "m.n", "x" * 40]), [vals.value(rng, 2, 2) for _ in range(rng.randrange(1, 3))])
        if k == "badpreq":
            d = rng.choice([d[:len(d) // 2], d.replace("</params>", "<value/></params>"), d.replace("methodName", "methodNam"), "", "<a/>", d + "<b>"])
        return "preq", hx(d)
    if k == "prsp":
        return k, hx(w.response(vals.value(rng, 2, 2)) if rng.random() < .7 else w.fault(rng.randrange(99), "why %d" % rng.randrange(9)))
    if k == "xh":
        return k, "V%d" % rng.randrange(1000)
    return "call", "c%d" % rng.randrange(1000) + "z" * rng.choice([0, 10, 3000])


class PScn:
    def __init__(self, sid, lines, what):
        self.sid, self.lines, self.meta = sid, lines, {"what": what}

    def project(self, events, status):
        tr = [{"e": "cfg"}]
        for e in events:
            w = e.split()
            if w[0] == "p":
                if w[1] == "did":
                    tr.append({"e": "did", "u": w[2], "s": w[3], "r": " ".join(w[4:])})
                else:
                    tr.append({"e": w[1], "u": w[2]})
            elif w[0] == "quiet":
                tr.append({"e": "quiet"})
            elif w[0] in BAD:
                tr.append({"e": "crash", "what": e[:200]})
        tr.append({"e": "last"} if status == "exit0" else {"e": "crash", "what": status})
        return tr


def pconcrete(rng, sid, h, what):
    """threads with the given kinds of steps together; every step alone before, after or both"""
    progs, steps, lines = [], {}, []
    for p in h:
        progs.append([])
        for k in p:
            s = "s%d" % (len(steps) + 1)
            steps[s] = pstep(rng, KINDS[k - 1])
            progs[-1].append(s)
    call = any(c == "call" for c, _ in steps.values())
    lines.append("sched seed=%d mode=rand sw=%d bb=%d spurious=0" % (rng.randrange(1 << 30), rng.choice([10, 20, 30, 50]), rng.choice([2, 2, 3, 4, 10] if call else [1, 2, 3, 6, 15])))
    if call:
        lines += ["server A exec=%d" % rng.choice([1, 2, 3]), "work A", "run"]
    lines += ["pstep %s %s %s" % (s, c, a) for s, (c, a) in steps.items()]
    end = " A" if call else ""
    n, rep = [0], rng.choice([1, 2, 3] if call else [2, 4, 8])

    def solo():
        for s in steps:
            n[0] += 1
            lines.extend(["prun a%d %s%s" % (n[0], s, end), "run"])

    def both():
        for p in progs:
            n[0] += 1
            lines.append("prun t%d %s%s" % (n[0], ",".join(p * rep), end))
        lines.append("run")
    order = rng.choice(["ts", "ts", "st", "tts", "sts"])
    for o in order:
        solo() if o == "s" else both()
    if call:
        lines += ["stop A", "run"]
    return PScn(sid, lines, what)


def pcorrupt(tr):
    out = {}
    for i, e in enumerate(tr):
        if e["e"] == "did":
            out.setdefault("another result", tr[:i] + [dict(e, r=e["r"] + "0")] + tr[i + 1:])
            out["failure instead"] = tr[:i] + [dict(e, r="exc 00")] + tr[i + 1:]
        elif e["e"] == "end":
            out.setdefault("a thread that never ends", tr[:i] + tr[i + 1:])
    return out


def P01(ctx):
    ctx.build("iqhost", "iqmem")

    def cfg(threads, steps, n, bug=""):
        q = lambda s: "{%s}" % ", ".join('"%s"' % x for x in s)
        return ("CONSTANTS\n Threads = %s\n Steps = %s\n Len0 = %d\n Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n"
                % (q(["t%d" % i for i in range(1, threads + 1)]), q(steps), n, bug))
    ctx.mc("ParallelImpl keeps Parallel, 2 threads", "ParallelImpl", cfg(2, "abc", ctx.n(2, 3)), fast=True)
    ctx.mc("ParallelImpl keeps Parallel, 3 threads", "ParallelImpl", cfg(3, "ab", ctx.n(1, 2)), fast=True)
    for b in ("buffer", "once", "mode", "leftover", "stuck"):
        ctx.mc("ParallelImpl with bug " + b, "ParallelImpl", cfg(2, "ab", 2, b), expect_violation=True, fast=True)
    scns, fine = [], []

    def gen(name, threads, n, keep, kinds=range(1, len(KINDS) + 1), into=scns, reps=0):
        hh = ctx.gen(name, "GenParallel", "CONSTANTS\n Kinds = {%s}\n Threads = %d\n MaxLen = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                     % (", ".join(map(str, kinds)), threads, n), fast=True)
        for i, h in enumerate(pick(ctx.rng, hh, keep)):
            rng = random.Random("P01%s%d/%d" % (name, ctx.seed, i))
            for r in range(reps or (ctx.n(25, 120) if same(h) else 1)):
                into.append(pconcrete(rng, "%s%d.%d" % (name.split()[-1], i, r), h, name))

    # threads doing the same kind of thing are most likely to meet
    same = lambda h: all(p == h[0] for p in h) and len(h[0]) == 1
    gen("GenParallel pairs", 2, 1, 1000)
    gen("GenParallel longer", 2, 2, ctx.n(300, 8000))
    gen("GenParallel threes", 3, 1, ctx.n(300, 5000))
    gen("GenParallel fine", 2, 1, 1000, into=fine)
    gen("GenParallel fine-calls", 3, 1, 1, kinds=(KINDS.index("call") + 1,), into=fine, reps=ctx.n(120, 1000))
    gen("GenParallel fine-longer", 2, 2, ctx.n(300, 8000), into=fine)
    gen("GenParallel fine-threes", 3, 1, ctx.n(300, 5000), into=fine)
    ctx.conform(scns, "TraceParallel", corrupt=pcorrupt)
    ctx.conform(fine, "TraceParallel", binary="iqmem", corrupt=pcorrupt)
    return "model_checking", ["Threads share no objects of the library and no settings are changed meanwhile; settings of the whole process are outside the property.",
                              "Switches happen at synchronisation and system calls, basic blocks and memory accesses of the library's own code, not inside libxml2, OpenSSL or the C library.",
                              "Two or three threads with at most two steps each."]


CHECKS = {"N01": N01, "L01": L01, "P01": P01}
