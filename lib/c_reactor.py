"""Checks of the event loop (E01) and of descriptors (R01)."""
import random
from concurrent.futures import ThreadPoolExecutor
import srv
from srv import Req, Scn
from c_server import gen as sgen, pick, build_all, sched_any, with_exec, EXEC, ASSUME as SASSUME
import c_client

HS = ("1", "2", "3")


class RScn:
    def __init__(self, sid, lines, hs, what):
        self.sid, self.lines, self.hs, self.meta = sid, lines, hs, {"what": what}

    def project(self, events, status):
        tr = [{"e": "cfg"}]
        for e in events:
            w = e.split()
            if w[0] == "r":
                k = w[1]
                if k == "new":
                    tr.append({"e": "new", "h": w[2], "stop": w[3] == "1", "catch": w[4] == "1", "fd": w[5]})
                elif k in ("reg", "unreg", "fake", "call"):
                    tr.append({"e": k, "h": w[2], "ev": w[3]})
                elif k in ("unregall", "data", "read", "hup", "fill", "drain", "fin"):
                    tr.append({"e": k, "h": w[2]})
                elif k == "end":
                    tr.append({"e": "end", "h": w[2], "how": w[3]})
                elif k == "log":
                    tr.append({"e": "log", "h": w[2], "k": w[3]})
                elif k == "wait":
                    tr.append({"e": "wait", "ms": int(w[2])})
                elif k == "wret":
                    tr.append({"e": "wret", "r": " ".join(w[2:])})
                elif k == "eintr":
                    tr.append({"e": "eintr", "n": int(w[2])})
                elif k == "late":
                    tr.append({"e": "late"})
            elif w[0] == "quiet":
                tr.append({"e": "quiet"})
            elif w[0] in ("crash", "cmdexc", "badcmd", "livelock", "san"):
                tr.append({"e": "crash", "what": e})
        if status != "exit0":
            tr.append({"e": "crash", "what": status})
        return tr


def reactor(rng, sid, h, hs, stop, catch, rp, wp, what):
    progs = {x: [] for x in hs}
    body, late = [], False
    for x in h:
        a = x["o"] + "." + x["h"] + ("." + x["ev"] if x["ev"] else "")
        if x["o"] == "call":
            progs[x["h"]].append([])
        elif x["o"] in ("end", "gone", "throw"):
            p = progs[x["h"]][-1]
            if x["o"] == "throw":
                p.append(rng.choice(["std", "unk"]))
            elif x["o"] == "gone":
                p.append(rng.choice(["term", "std", "unk"]) if x["h"] in catch else "term")
            elif rng.random() < 0.05:
                p.append("term")
        elif x["c"] != "-":
            progs[x["c"]][-1].append("read" if x["o"] == "read" else a)
        elif x["o"] == "wait":
            ms = x["ev"] if x["ev"] == "0" else rng.choice(["5", "5", "1000", "-1"])
            if rng.random() < 0.08:
                body.append("reintr %d" % 1)
            body += ["rwait " + ms, "run"]
        elif x["o"] == "late":
            body += ["rlate", "run"]
        else:
            body.append("rop " + a)
            if rng.random() < 0.3:
                body.append("run")
    lines = ["rnew " + rng.choice(["mutex", "null"])]
    for i in hs:
        lines.append("rh " + i + (" catch" if i in catch else "") + (" stop" if i in stop else "") + (" rpipe" if i in rp else " wpipe" if i in wp else ""))
        for p in progs[i]:
            lines.append("rprog %s %s" % (i, ",".join(p)))
    return RScn(sid, lines + body + ["run"], hs, what)


def corrupt(tr):
    """Traces that break a promise."""
    out = {}
    for i, e in enumerate(tr):
        if e["e"] == "fin":
            out["finish missing"] = tr[:i] + tr[i + 1:]
            out["finish twice"] = tr[:i] + [e] + tr[i:]
        elif e["e"] == "call":
            out["other event"] = tr[:i] + [dict(e, ev="out" if e["ev"] == "in" else "in")] + tr[i + 1:]
            j = next((j for j in range(i, len(tr)) if tr[j]["e"] == "end"), None)
            if j and tr[j]["how"] == "ok":
                out["called twice"] = tr[:j + 1] + [e]
            if i and tr[i - 1]["e"] == "wait":
                out["not called"] = tr[:i] + [{"e": "quiet"}]
        elif e["e"] == "wret" and e["r"] == "1":
            out["other result"] = tr[:i] + [dict(e, r="nohandlers")]
    return out


MODS = [((), (), (), ()), ((), ("1",), (), ("1",)), (("2",), ("1", "2"), ("1",), ()), (("1",), (), (), ("2",)), (("1", "2"), ("2",), ("2",), ("1",)),
        ((), ("1", "2", "3"), (), ()), (("3",), ("2", "3"), ("1", "3"), ("2",)), ((), (), ("1",), ())]


def consts(hs, ops, waits, stop, catch, rp=(), wp=(), bug=""):
    q = lambda s: "{%s}" % ", ".join('"%s"' % x for x in s if x in hs)
    return "CONSTANTS\n Hs = %s\n MaxOps = %d\n MaxWaits = %d\n Stoppers = %s\n Catchers = %s\n RPipes = %s\n WPipes = %s\n Bug = \"%s\"\n" % (q(hs), ops, waits, q(stop), q(catch), q(rp), q(wp), bug)


def E01(ctx):
    ctx.build("iqhost")

    def mc(ops, waits, stop=(), catch=("1",), bug="", hs=HS[:2], rp=(), wp=()):
        ctx.mc("ReactorImpl keeps Reactor" + (" with bug " + bug if bug else "") + (", stoppers %s" % ",".join(stop) if stop and not bug else "") + (", pipes" if rp or wp else ""), "ReactorImpl",
               consts(hs, ops, waits, stop, catch, rp, wp, bug) + "SPECIFICATION Spec\nINVARIANT Kept\nINVARIANT Blocks\nCHECK_DEADLOCK FALSE\n", expect_violation=bool(bug), fast=True)
    mc(ctx.n(4, 6), 2)
    mc(ctx.n(3, 5), 2, stop=("2",))
    if ctx.thorough:
        mc(4, 2, hs=HS, catch=("1", "3"))
    for b in ("mask", "keepfake", "stale", "nofinish", "keepdead", "one", "timeout"):
        mc(4, 2, bug=b)
    mc(4, 2, stop=("2",), bug="stoppers")
    mc(ctx.n(3, 5), 2, rp=("1",), wp=("2",))
    mc(4, 2, rp=("1",), wp=("2",), bug="errors")

    scns = []

    def gen(name, hs, ops, waits, mods, simulate=None, keep=0):
        def one(n):
            cfg = consts(hs, ops, waits, *mods[n]) + "SPECIFICATION GSpec\nINVARIANT GEmit\nCONSTRAINT Stop\nCHECK_DEADLOCK FALSE\n"
            args = ["-simulate", "num=%d" % simulate, "-depth", str(8 * ops), "-seed", str(ctx.seed + n)] if simulate else []
            return ctx.gen("%s %d" % (name, n), "GenReactor", cfg, args=args, fast=True)
        with ThreadPoolExecutor(4) as ex:
            all_ = list(ex.map(one, range(len(mods))))
        for n, hh in enumerate(all_):
            for i, h in enumerate(pick(ctx.rng, hh, keep // len(mods))):
                rng = random.Random("E01%s%d/%d/%d" % (name, ctx.seed, n, i))
                scns.append(reactor(rng, "%s%d-%d" % (name[-1], n, i), h, hs, *mods[n], name))
    gen("GenReactor one", HS[:1], ctx.n(3, 4), 2, MODS[:2] + MODS[-1:], keep=ctx.n(1000, 10000))
    gen("GenReactor two", HS[:2], 6, 3, MODS[:5], simulate=ctx.n(500, 6000), keep=ctx.n(2000, 30000))
    gen("GenReactor long", HS, 30, 8, MODS, simulate=ctx.n(300, 4000), keep=ctx.n(2000, 28000))
    ctx.conform(scns, "TraceReactor", 'Hs = {"1", "2", "3"}', corrupt=corrupt)
    return "model_checking", ["one thread uses a reactor (what the pool's threads do through the server's interrupter is part of C01 and S10)",
                              "a descriptor is not closed and used again for another handler within one wait"]


# ---------------------------------------------------------------------------------- R01
def finish(s, rng):
    """every peer goes, the server stops and is destroyed"""
    s.want_fds = True
    for t, r in s.reqs.items():
        if r.f["blocks"]:
            s.cmd("release " + t)
    for c in s.cls:
        s.hold(c, False)
    for i in range(3):
        s.cmd("ensure A")
        s.run()
    s.fds()
    for c in s.cls:
        s.gone(c, rng.choice(["close", "rst", "close"]))
    s.run()
    s.fds()
    s.stop()
    s.run()
    s.cmd("join A")
    s.fds()
    pool = s.cfg["workers"] > 0
    first = rng.random() < .5
    if pool and first:
        s.cmd("dpool A", {"e": "dpool"})
        s.run()
    s.cmd("dserver A")
    s.run()
    if pool and not first:
        s.cmd("dpool A", {"e": "dpool"})
        s.run()
    s.fds()


def corrupt_fds(tr):
    out = {}
    n = [i for i, e in enumerate(tr) if e["e"] == "fds"]
    gone = [i for i, e in enumerate(tr) if e["e"] == "servergone"]
    if len(n) > 2 and gone:
        out["left over after destruction"] = tr[:n[-1]] + [dict(tr[n[-1]], n=tr[n[-1]]["n"] + 1)] if n[-1] > gone[0] else None
        out["one too many"] = tr[:n[1]] + [dict(tr[n[1]], n=tr[n[1]]["n"] + 3)]
        out["one too few"] = tr[:n[1]] + [dict(tr[n[1]], n=tr[n[1]]["n"] - 2)]
        out["closed twice"] = tr[:n[1]] + [{"e": "badclose", "line": ""}]
        if out["left over after destruction"] is None or any(e["e"] == "gone" for e in tr):
            del out["left over after destruction"]
    return out


def occupied(ctx, i):
    """the address belongs to somebody else, for a while"""
    rs = random.Random("R01o/%d/%d" % (ctx.seed, i))
    s = Scn("o%d" % i, {"workers": rs.choice([0, 1, 2])})
    s.want_fds = True
    s.srv_opts = "port=p5"
    s.cmd("listen 5", {"e": "occupied", "b": True})
    s.server(sched_any(rs), start=False)
    s.run()
    s.fds()
    for j in range(rs.randrange(1, 6)):
        s.work()
        s.run()
        s.fds()
    if rs.random() < .7:
        s.cmd("free 5", {"e": "occupied", "b": False})
        s.work()
        s.run()
        s.open(1); s.req(1, Req(rs, "t1", ka=rs.random() < .5)); s.run(); s.fds()
        finish(s, rs)
    else:
        s.cmd("dserver A")
        s.run()
        s.fds()
    return s


def R01(ctx):
    ctx.build("iqhost")

    def mc(fds, conns, runs, bug=""):
        ctx.mc("FdImpl" + (" with bug " + bug if bug else ""), "FdImpl", "CONSTANTS\n MaxFd = %d\n Conns = {%s}\n MaxRuns = %d\n Bug = \"%s\"\nSPECIFICATION Spec\n"
               "INVARIANTS OwnOnly Found AllFound Released Level\nCHECK_DEADLOCK FALSE\n" % (fds, ", ".join('"c%d"' % i for i in range(1, conns + 1)), runs, bug), expect_violation=bool(bug), fast=True)
    mc(ctx.n(6, 8), ctx.n(3, 4), 2)
    for b in ("bindleak", "denyleak", "late", "twice", "keeplsn", "halfpair"):
        mc(5, 2, 2, b)
    kinds = [{}, {"ka": False}, {"act": "fault"}, {"act": "exc", "exc": "stdexc"}, {"post": False}, {"clen": "bad"}, {"exp": "continue"}, {"exp": "other"}, {"badline": True},
             {"xml": "broken"}, {"blocks": True}, {"mk": lambda r, t, g: {"big": r.choice([3000, 300000])}}]
    cfgs = with_exec([{}, {"strict": True}], EXEC)
    fcfgs = with_exec([{"fw": "go away", "fwmsg": True}, {"fw": "", "fwmsg": False}], EXEC)
    ops = ("part", "rst", "close", "fin", "eintr", "interrupt", "hold")
    h1 = sgen(ctx, "GenService ends", kinds[:2], cfgs[:2], conns=1, n=5, ops=("part", "rst", "close", "fin"), maxreqs=2)
    h1 = pick(ctx.rng, h1, ctx.n(500, 5000))
    h2 = sgen(ctx, "GenService many ends", kinds, fcfgs, conns=6, n=22, ops=ops[:-1], opens=("ok", "denied"), maxreqs=8, simulate=ctx.n(400, 4000))
    h3 = sgen(ctx, "GenService restarts", kinds[:3], cfgs[:3], conns=4, n=16, ops=("life", "part", "rst", "close", "fin"), maxreqs=6, simulate=ctx.n(300, 3000))
    h3 = [x for x in h3 if any(y["o"] == "start" for y in x)]
    h4 = sgen(ctx, "GenService TLS ends", kinds, cfgs[:3], conns=4, n=16, ops=ops + ("spoil", "key"), opens=("ok", "bad", "stall", "odd"), maxreqs=6, simulate=ctx.n(250, 2500))
    kw = dict(sched=sched_any, final=False, fds=True, cap=lambda r: [1, 100, 1 << 20])
    scns = build_all(ctx, h1, kinds[:2], cfgs[:2], "p", **kw) + build_all(ctx, pick(ctx.rng, h2, ctx.n(800, 8000)), kinds, fcfgs, "q", sched=sched_any, final=False, fds=True) + \
        build_all(ctx, pick(ctx.rng, h3, ctx.n(500, 5000)), kinds[:3], cfgs[:3], "l", **kw) + \
        build_all(ctx, pick(ctx.rng, h4, ctx.n(400, 4000)), kinds, cfgs[:3], "t", tls=True, **kw)
    for i, s in enumerate(scns):
        finish(s, random.Random("R01f/%d/%d" % (ctx.seed, i)))
    scns += [occupied(ctx, i) for i in range(ctx.n(40, 300))]
    ctx.conform(scns, "TraceFds", corrupt=corrupt_fds)
    ckinds = ("val", "fault", "http", "bad")
    hc = c_client.gen(ctx, "GenClient ends", kinds=ckinds, ops=c_client.ALL, n=20, calls=7, simulate=ctx.n(700, 7000))
    ctx.conform(c_client.many(ctx, "c", hc, tls=lambda r: r.random() < .4), "TraceClient", corrupt=c_client.corrupt)
    return "model_checking", SASSUME + ["a server is destroyed when it is stopped; connections that are still open then are not looked at"]


CHECKS = {"E01": E01, "R01": R01}
