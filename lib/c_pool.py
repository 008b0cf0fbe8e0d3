"""Checks of stopping, pooled execution and pool destruction (PoolServer.tla, TraceService.tla, TracePool.tla)."""
import random
import host, srv
from srv import Req, Scn
from c_server import gen, pick, build_all, sched_any, sched_pool, with_exec, EXEC, ASSUME

BUGS = {"S10": ["flaglast", "sticky"], "C01": ["nowake", "wakefirst", "notifyempty", "nospurious"],
        "C02": ["late", "nested", "nolock", "notifyone"]}


def pool_model(ctx, name, conns, block, workers, stoppers, runs, destroy, spurious=False, bug="", live=False, timeout=800):
    def st(xs):
        return "{" + ", ".join(str(x) for x in xs) + "}"
    cfg = """CONSTANTS
 Conns = %s
 Blocking = %s
 Workers = %s
 Stoppers = %s
 Runs = %d
 Destroy = %s
 Spurious = %s
 Bug = "%s"
SPECIFICATION Spec
INVARIANT Once
INVARIANT Rests
INVARIANT Gone
INVARIANT Honest
CHECK_DEADLOCK FALSE
""" % (st(range(1, conns + 1)), st(range(1, block + 1)), st(range(11, 11 + workers)), st(range(51, 51 + stoppers)), runs,
       str(destroy).upper(), str(spurious).upper(), bug)
    if live:
        cfg += "PROPERTY StopsEnd\nPROPERTY AnswersCome\nPROPERTY DestroyEnds\n"
    ctx.mc("PoolServer " + name + (" with bug " + bug if bug else ""), "PoolServer", cfg, expect_violation=bool(bug) and bug != "drain",
           timeout=timeout, workers=4, mem="6g")


def model(ctx):
    d = ctx.pid == "C02"
    s = 2 if ctx.pid == "S10" else 1
    pool_model(ctx, "2 connections, 2 workers", 2, 1, 2, s, 2, d, spurious=not d)
    pool_model(ctx, "liveness", 2, 1, 1 if ctx.pid != "C02" else 2, 1, 1, d, live=True)
    for b in BUGS[ctx.pid]:
        pool_model(ctx, "control", 2, 1, 2, 1, 2, d, spurious=True, bug=b)
    if ctx.pid == "S10":
        pool_model(ctx, "variant that empties the pipe", 2, 1, 2, 1, 2, False, bug="drain")
    if ctx.thorough:
        pool_model(ctx, "3 connections, 2 workers", 3, 2, 2, 1, 2, d, spurious=True, timeout=3000)
        pool_model(ctx, "3 connections, 3 workers", 3, 1, 3, 1, 1, d, timeout=3000)


def sweep(ctx, prefix, mk, kmax, pairs, others=2):
    """All schedules with one forced switch, and a sample of those with two: mk(sched) -> Scn.
    A first run without any switch measures how many opportunities there are."""
    base = mk(prefix + "-", "mode=seq")
    base.cmd("opps")
    res, _ = host.run(ctx.bins["iqhost"], ctx.rundir, {base.sid: base.lines}, jobs=1)
    n = max([int(l.split()[1]) for l in res[base.sid][0] if l.startswith("opps ")] or [0])
    rng = random.Random("%s/%s/%d" % (ctx.pid, prefix, ctx.seed))
    ks = list(range(1, n + 1))
    if len(ks) > kmax:
        ks = sorted(rng.sample(ks, kmax))
    out = [base]
    for k in ks:
        for j in range(others):
            out.append(mk("%s-%d.%d" % (prefix, k, j), "mode=seq at=%d:%d" % (k, j)))
    for i in range(pairs if n > 1 else 0):
        a = rng.randrange(1, n)
        b = min(n + 40, a + 1 + int(rng.expovariate(1 / 15.)))
        out.append(mk("%s-p%d" % (prefix, i), "mode=seq at=%d:%d,%d:%d" % (a, rng.randrange(3), b, rng.randrange(3))))
    ctx.notes.setdefault("sweeps", []).append({"scenario": prefix, "switch_points": n, "single_switch_schedules": len(ks) * others, "double": pairs if n > 1 else 0})
    return out


def _blk(rs, tag, **o):
    return Req(rs, tag, blocks=True, **o)


def stop_templates():
    """small programs around a stop; each is run under every single switch"""
    def t(workers, body, start=True):
        def mk(sid, sched):
            rs = random.Random(7)
            s = Scn(sid, {"workers": workers})
            s.server("seed=1 mode=block", start=start)
            body(s, rs, lambda: s.cmd("sched seed=1 " + sched))
            s.run()
            # serve again, twice
            for i in range(2):
                s.cmd("ensure A"); s.run()
                s.open(80 + i); s.req(80 + i, Req(rs, "z%d" % i, ka=False)); s.run()
                s.stop(); s.run()
            return s
        return mk

    def idle(s, rs, go):
        s.run(); go(); s.cmd("astop A 1")

    def twice(s, rs, go):
        s.run(); go(); s.cmd("astop A 1"); s.cmd("astop A 2")

    def early(s, rs, go):
        go(); s.cmd("astop A 1"); s.work()

    def traffic(s, rs, go):
        s.open(1); s.open(2); s.run(); go()
        s.req(1, Req(rs, "a")); s.cmd("astop A 1"); s.req(2, Req(rs, "b"))

    def inside(s, rs, go):
        s.open(1); s.open(2); s.run(); go()
        s.req(1, Req(rs, "a", stops=True)); s.req(2, Req(rs, "b"))

    def again(s, rs, go):
        s.run(); s.stop(); s.run(); go(); s.work(); s.cmd("astop A 1")

    def opening(s, rs, go):
        s.run(); go(); s.open(1); s.req(1, Req(rs, "a")); s.cmd("astop A 1"); s.cmd("ainterrupt A 2")

    out = {}
    for w in (0, 1, 2):
        for f in (idle, twice, traffic, inside, again, opening):
            out["%s%d" % (f.__name__, w)] = t(w, f)
        out["early%d" % w] = t(w, early, start=False)
    return out


def S10(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{}, {"ka": False}, {"stops": True}, {"blocks": True}, {"stops": True, "ka": False}, {"act": "fault"}]
    cfgs = EXEC
    h = gen(ctx, "GenService life", kinds, cfgs, conns=3, n=16, ops=("life", "eintr", "interrupt", "part"), maxreqs=6, simulate=ctx.n(2000, 10000))
    h = pick(ctx.rng, [x for x in h if any(s["o"] == "start" for s in x)], ctx.n(2000, 16000))
    scns = build_all(ctx, h, kinds, cfgs, "l", sched=sched_any)
    for n, mk in stop_templates().items():
        scns += sweep(ctx, n, mk, ctx.n(40, 400), ctx.n(20, 300))
    ctx.conform(scns, "TraceService", corrupt=corrupt_stop)
    return "model_checking", ASSUME


def corrupt_stop(trace):
    out = srv.corrupt(trace)
    pos = {}
    for i, e in enumerate(trace):
        pos.setdefault(e["e"], []).append(i)
    if "ret" in pos and not any(e["e"] == "stopbeg" for e in trace):
        i = pos["ret"][-1]
        out["loop returned twice"] = trace[:i + 1] + [{"e": "start"}, {"e": "ret"}] + trace[i + 1:]
        if len(trace) > i + 1 and trace[i + 1]["e"] == "quiet":
            out["loop did not return"] = trace[:i] + [dict(trace[i + 1], work="running")]
    return out


def pool_templates():
    def t(workers, body):
        def mk(sid, sched):
            rs = random.Random(11)
            s = Scn(sid, {"workers": workers})
            s.server("seed=1 mode=block")
            body(s, rs, lambda: s.cmd("sched seed=1 " + sched))
            s.run()
            s.open(80); s.req(80, Req(rs, "z", ka=False)); s.run()
            return s
        return mk

    def two(s, rs, go):
        s.open(1); s.open(2); s.run(); go()
        s.req(1, Req(rs, "a")); s.req(2, Req(rs, "b"))

    def block(s, rs, go):
        s.open(1); s.open(2); s.open(3); s.run(); go()
        s.req(1, _blk(rs, "a")); s.req(2, Req(rs, "b")); s.req(3, Req(rs, "c")); s.run()
        s.cmd("release a")

    def first(s, rs, go):
        go(); s.open(1); s.req(1, Req(rs, "a")); s.open(2); s.req(2, _blk(rs, "b")); s.run(); s.cmd("release b")

    def again(s, rs, go):
        s.open(1); s.run(); go()
        for k in range(3):
            s.req(1, Req(rs, "a%d" % k)); s.run()

    def add(s, rs, go):
        s.open(1); s.open(2); s.open(3); s.run()
        s.req(1, _blk(rs, "a")); s.run(); go()
        s.req(2, _blk(rs, "b")); s.cmd("addthreads A 1", {"e": "workers", "n": 1}); s.req(3, Req(rs, "c")); s.run()
        s.cmd("release a"); s.run(); s.cmd("release b")

    out = {}
    for w in (1, 2, 3):
        for f in (two, block, first, again, add):
            out["%s%d" % (f.__name__, w)] = t(w, f)
    return out


def C01(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{}, {"blocks": True}, {"ka": False}, {"act": "fault"}, {"act": "exc"}, {"blocks": True, "ka": False}, {"exp": "continue"},
             {"mk": lambda r, t, g: {"big": r.choice([10, 5000])}}]
    cfgs = EXEC[1:] + [{"workers": 4}]
    h = gen(ctx, "GenService pool", kinds, cfgs, conns=6, n=22, ops=("workers", "interrupt", "eintr"), maxreqs=10, simulate=ctx.n(2000, 10000))
    h = pick(ctx.rng, h, ctx.n(2000, 20000))
    scns = build_all(ctx, h, kinds, cfgs, "m", sched=sched_pool)
    for n, mk in pool_templates().items():
        scns += sweep(ctx, n, mk, ctx.n(60, 500), ctx.n(40, 400))
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def destroy_tail(s, rng=None):
    s.cmd("dpool A", {"e": "dpool"})
    s.run()
    for t, r in s.reqs.items():
        if r.f["blocks"]:
            s.cmd("release " + t)
    s.run()
    s.cmd("threads")
    s.cmd("objs")


def destroy_templates():
    def t(workers, body, start=True):
        def mk(sid, sched):
            rs = random.Random(13)
            s = Scn(sid, {"workers": workers})
            s.want_objs = True
            s.server("seed=1 mode=block" if start else "seed=1 " + sched, start=start)
            body(s, rs, lambda: s.cmd("sched seed=1 " + sched))
            destroy_tail(s)
            return s
        return mk

    def fresh(s, rs, go):     # workers may not have started
        pass

    def idle(s, rs, go):
        s.run(); s.stop(); s.run(); go()

    def after(s, rs, go):
        s.open(1); s.req(1, Req(rs, "a")); s.run(); s.stop(); s.run(); go()

    def busy(s, rs, go):
        s.open(1); s.req(1, _blk(rs, "a")); s.run(); s.stop(); s.run(); go()

    def queued(s, rs, go):
        for c, (tag, b) in enumerate([("a", True), ("b", True), ("c", False), ("d", False), ("e", True)], 1):
            s.open(c); s.req(c, Req(rs, tag, blocks=b))
        s.run(); s.stop(); s.run(); go()

    def racing(s, rs, go):
        s.open(1); s.open(2); s.open(3); s.run(); go()
        s.req(1, Req(rs, "a")); s.req(2, Req(rs, "b", stops=True)); s.req(3, Req(rs, "c"))
        s.cmd("join A")

    def added(s, rs, go):
        s.run(); s.stop(); s.run(); go(); s.cmd("addthreads A 2", {"e": "workers", "n": 2})

    out = {}
    for w in (1, 2, 3):
        for f in (idle, after, busy, queued, racing, added):
            out["%s%d" % (f.__name__, w)] = t(w, f)
        out["fresh%d" % w] = t(w, fresh, start=False)
    return out


def corrupt_pool(trace):
    out = {}
    pos = {}
    for i, e in enumerate(trace):
        pos.setdefault(e["e"], []).append(i)
    if "poolgone" in pos:
        i = pos["poolgone"][0]
        out["destruction never ends"] = trace[:i] + [{"e": "quiet", "running": 0, "work": "returned"}]
        if "exec" in pos and pos["exec"][-1] < i:
            k = pos["exec"][-1]
            out["executed after destruction"] = trace[:k] + trace[k + 1:i + 1] + [trace[k]]
        if "objs" in pos:
            k = pos["objs"][-1]
            out["method object leaked"] = trace[:k] + [dict(trace[k], live=1, made=trace[k]["made"] + 1)]
        if "threads" in pos:
            k = pos["threads"][-1]
            out["worker left over"] = trace[:k] + [{"e": "threads", "n": 1}]
    return out


def C02(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{}, {"blocks": True}, {"ka": False}, {"act": "fault"}, {"act": "exc"}]
    cfgs = EXEC[1:] + [{"workers": 4}]
    h = gen(ctx, "GenService destroy", kinds, cfgs, conns=5, n=14, ops=("workers", "rst"), maxreqs=8, simulate=ctx.n(2000, 8000))
    h = pick(ctx.rng, h, ctx.n(1500, 12000))
    scns = build_all(ctx, h, kinds, cfgs, "m", sched=sched_pool, final=False)
    for i, s in enumerate(scns):
        rs = random.Random("C02/%d/%d" % (ctx.seed, i))
        s.want_objs = True
        s.stop()
        if rs.random() < .5:
            s.run()
        s.cmd("join A")       # the loop has returned before the pool goes away
        destroy_tail(s)
    for n, mk in destroy_templates().items():
        scns += sweep(ctx, n, mk, ctx.n(60, 500), ctx.n(60, 500), others=3)
    ctx.conform(scns, "TracePool", corrupt=corrupt_pool)
    return "model_checking", ASSUME + ["the pool is destroyed while the server object exists and after its serving loop has returned"]


# ---------------------------------------------------------------------------------- order of memory accesses
class Watched:
    """a scenario run with its memory accesses recorded; its trace is what TraceOrder judges"""
    def __init__(self, scn, sid=None):
        self.sid = sid or scn.sid
        self.lines = ["hb on"] + scn.lines + ["hb dump"]
        self.meta = getattr(scn, "meta", {})

    def project(self, events, status):
        evs = [l.split(" ") for l in events if l.startswith("hb ")]
        # An object that stays with one thread for a while was acquired once and is released once
        keep, last = [True] * len(evs), {}
        for i, f in enumerate(evs):
            if f[1] == "b":
                last.clear()
                keep[i] = i > 0 and evs[i - 1][1] != "b"
            elif f[1] in "ar":
                t, k = last.get(f[3], (None, None))
                if t == f[2]:
                    if f[1] == "a":
                        keep[i] = False
                    elif k is not None:
                        keep[k] = False
                last[f[3]] = (f[2], i if f[1] == "r" else k if t == f[2] else None)
        objs, hist, tids, rows, cur = {}, {}, 1, [], {}
        for f in (f for i, f in enumerate(evs) if keep[i]):
            t = int(f[2])
            tids = max(tids, t + 1)
            if f[1] in "RW":
                cur.setdefault(t, {}).setdefault(f[3], [False, False, f[4]])[f[1] == "W"] = True
                continue
            rows.append(cur)
            cur = {}
            rows.append({"e": "wall"} if f[1] == "b" else {"e": "acq" if f[1] == "a" else "rel", "t": t, "o": objs.setdefault(f[3], len(objs) + 1)})
        rows.append(cur)
        # memory with the same history is one location
        for i, r in enumerate(rows):
            if "e" not in r:
                for t, xs in r.items():
                    for x, (rd, wr, _) in xs.items():
                        hist.setdefault(x, []).append((i, t, rd, wr))
        ids, first = {}, {}
        for x, hh in hist.items():
            hh = tuple(hh)
            if len({h[1] for h in hh}) > 1 and any(h[3] for h in hh) and hh not in ids:
                ids[hh] = len(ids) + 1
                first[x] = ids[hh]
        out = [{"e": "cfg", "n": tids, "objs": len(objs), "locs": len(ids)}]
        for r in rows:
            if "e" in r:
                out.append(r)
                continue
            for t, xs in sorted(r.items()):
                xs = {x: v for x, v in xs.items() if x in first}
                if xs:
                    out.append({"e": "use", "t": t, "r": [first[x] for x in xs if xs[x][0]], "w": [first[x] for x in xs if xs[x][1]],
                                "by": sorted({v[2] for v in xs.values()})})
        done = any(l.startswith("hbend ") for l in events)
        out.append({"e": "end"} if done and status == "exit0" else {"e": "lost", "status": status})
        return out


def ordered(trace):
    """whether a trace is in order: used to choose what to damage, not to judge"""
    n = trace[0]["n"]
    clk = [[int(u == t) for u in range(n)] for t in range(n)]
    obj, wr, rd = {}, {}, {}
    for e in trace[1:]:
        t = e.get("t")
        if e["e"] == "acq":
            clk[t] = [max(a, b) for a, b in zip(clk[t], obj.get(e["o"], [0] * n))]
        elif e["e"] == "rel":
            obj[e["o"]] = [max(a, b) for a, b in zip(clk[t], obj.get(e["o"], [0] * n))]
            clk[t][t] += 1
        elif e["e"] == "wall":
            a = [max(c[u] for c in clk) for u in range(n)]
            clk = [[a[u] + (u == k) for u in range(n)] for k in range(n)]
        elif e["e"] == "use":
            for x in e["r"] + e["w"]:
                for m in (wr, rd) if x in e["w"] else (wr,):
                    if any(c > clk[t][u] for u, c in m.get(x, {}).items() if u != t):
                        return False
            for m, k in ((rd, "r"), (wr, "w")):
                for x in e[k]:
                    m.setdefault(x, {})[t] = clk[t][t]
    return True


def corrupt_order(trace):
    out = {}
    for i, e in enumerate(trace):
        if e["e"] == "use" and e["w"] and trace[0]["n"] > 1:
            u = (e["t"] + 1) % trace[0]["n"]
            out["another thread wrote at once"] = trace[:i + 1] + [dict(e, t=u, r=[])] + trace[i + 1:]
            out["another thread read at once"] = trace[:i + 1] + [dict(e, t=u, r=e["w"], w=[])] + trace[i + 1:]
            break
    if len(trace) < 3000:
        for o in range(1, trace[0]["objs"] + 1):
            t = [e for e in trace if not (e["e"] in ("acq", "rel") and e["o"] == o)]
            if not ordered(t):
                out["a lock that was not taken"] = t
                break
        t = [e for e in trace if e["e"] != "acq"]
        if not ordered(t):
            out["nothing was waited for"] = t
    return out


def C03(ctx):
    import c_misc
    ctx.build("iqmem")

    def mc(name, w, c, r, l, bug="", **kw):
        ctx.mc("OrderImpl " + name, "OrderImpl", "CONSTANTS\n Workers = %d\n Conns = %d\n Reqs = %d\n Loops = %d\n Bug = \"%s\"\nSPECIFICATION Spec\n"
               "INVARIANT InOrder\nCHECK_DEADLOCK FALSE\n" % (w, c, r, l, bug), expect_violation=bool(bug), fast=True, **kw)
    mc("2 workers, 1 connection", 2, 1, 1, 3)
    mc("1 worker, 2 connections", 1, 2, 1, 3)
    if ctx.thorough:
        mc("2 workers, 2 connections", 2, 2, 1, 3, timeout=3000)
        mc("2 workers, 1 connection, twice", 2, 1, 2, 5, timeout=3000)
    for b in ("noreg", "nolook", "peek", "noflag", "late", "once"):
        mc("with bug " + b, 2, 2, 1, 3, b)
    scns = []
    rng = random.Random("C03/%d" % ctx.seed)

    def sched(bb):
        return "mode=rand sw=%d bb=%d spurious=%d" % (rng.choice([20, 30, 50]), rng.choice(bb), rng.choice([0, 0, 5]))
    for pre, tt in (("p", pool_templates()), ("s", stop_templates()), ("d", destroy_templates())):
        for n, mk in tt.items():
            if "racing" in n:     # waits by polling
                continue
            for k in range(ctx.n(12, 200)):
                s = mk("%s-%s.%d" % (pre, n, k), "seed=%d %s" % (rng.randrange(1 << 30), sched([5, 20, 40, 100])))
                scns.append(Watched(s))
    kinds = [{}, {"blocks": True}, {"ka": False}, {"act": "fault"}, {"act": "exc"}, {"exp": "continue"}, {"stops": True}, {"xml": "broken"}, {"known": False}]
    cfgs = EXEC[1:]
    h = gen(ctx, "GenService pool", kinds, cfgs, conns=4, n=16, ops=("workers", "interrupt", "eintr", "life"), maxreqs=6, simulate=ctx.n(1000, 8000))
    h = pick(ctx.rng, h, ctx.n(400, 6000))
    scns += [Watched(s) for s in build_all(ctx, h, kinds, cfgs, "m", sched=lambda r: "seed=%d %s" % (r.randrange(1 << 30), sched([5, 20, 40, 100])))]
    ctx.conform(scns, "TraceOrder", binary="iqmem", corrupt=corrupt_order)
    # threads that share nothing they know of
    own = []
    hh = ctx.gen("GenParallel pairs", "GenParallel", "CONSTANTS\n Kinds = {%s}\n Threads = 2\n MaxLen = 1\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                 % ", ".join(str(k + 1) for k in range(len(c_misc.KINDS))), fast=True)
    for i, p in enumerate(hh):
        for k in range(ctx.n(4, 40)):
            own.append(Watched(c_misc.pconcrete(random.Random("C03own%d/%d/%d" % (ctx.seed, i, k)), "own%d.%d" % (i, k), p, "own")))
    # methods that log, addresses that several threads use
    hh = ctx.gen("GenLog together", "GenLog", "CONSTANTS\n Conns = {1, 2, 3}\n Whats = {\"log1\", \"logfault\", \"bad\"}\n MaxOps = 3\nSPECIFICATION Spec\nINVARIANT Emit\n"
                 "CHECK_DEADLOCK FALSE\n", fast=True)
    for i, x in enumerate(pick(ctx.rng, hh, ctx.n(80, 800))):
        r = random.Random("C03log%d/%d" % (ctx.seed, i))
        own.append(Watched(c_misc.lconcrete(r, "log%d" % i, x, r.choice((2, 3)), "log")))
    hh = ctx.gen("GenAddress sockets", "GenAddress", "CONSTANTS\n Answers = {\"fail\", \"i1\", \"i2\"}\n MaxAns = 2\n MaxOps = 4\n Objs = {\"1\", \"2\"}\n Kinds = {\"sock\"}\n"
                 "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", fast=True)
    for i, x in enumerate(pick(ctx.rng, hh, ctx.n(150, 1500))):
        own.append(Watched(c_misc.aconcrete(random.Random("C03addr%d/%d" % (ctx.seed, i)), "addr%d" % i, x, "addr")))
    ctx.conform(own, "TraceOrder", binary="iqmem", corrupt=corrupt_order)
    return "model_checking", ASSUME + [
        "what orders threads is locks, condition variables, semaphores, atomic variables, guards of statics, starting and joining threads; the harness's own steps bring all threads to a stand",
        "accesses are those of the library's own code and of the templates it instantiates, by start address; memory on stacks and accesses inside the C library, libxml2 and OpenSSL are not seen"]


CHECKS = {"S10": S10, "C01": C01, "C02": C02, "C03": C03}
