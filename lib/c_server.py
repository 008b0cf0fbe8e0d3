"""Checks of the service a server gives on its connections (Service.tla)."""
import random
import srv
from srv import Req, Scn, hx

TLA_FIELDS = ("post", "badline", "clen", "exp", "ctype", "ka", "hdr", "body", "xml", "known", "cred", "user", "pass", "act", "blocks", "stops")


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def tla_kind(f):
    o = {k: v for k, v in f.items() if k in TLA_FIELDS}
    if f.get("size") in ("limit", "over"):
        o["body"] = 3
    if f.get("credkind"):
        pass
    return "[K EXCEPT " + ", ".join("!.%s = %s" % (k, tla(v)) for k, v in o.items()) + "]" if o else "K"


def tla_cfg(g):
    o = {k: v for k, v in g.items() if k in ("strict", "auth", "anon", "workers", "fwmsg")}
    if g.get("limit"):
        o["max"] = 5
    if "users" in g:
        o["users"] = set()
    return "[G EXCEPT " + ", ".join("!.%s = %s" % (k, tla(v)) for k, v in o.items()) + "]" if o else "G"


def gen(ctx, name, kinds, cfgs=({},), conns=1, n=6, ops=("part",), opens=("ok",), maxreqs=2, simulate=0, depth=None, seed=None):
    mod = """---- MODULE Gen ----
EXTENDS GenService
KindsV == << %s >>
ConfigsV == << %s >>
====
""" % (", ".join(tla_kind(k) for k in kinds), ", ".join(tla_cfg(g) for g in cfgs))
    cfg = """CONSTANTS
 N = %d
 Conns = %s
 Kinds <- KindsV
 Configs <- ConfigsV
 Ops = %s
 Opens = %s
 MaxReqs = %d
 Fan = %d
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
""" % (n, tla(set(range(1, conns + 1))), tla(set(ops)), tla(set(opens)), maxreqs, 3 if simulate else 0)
    args = []
    if simulate:
        args = ["-simulate", "num=%d" % simulate, "-depth", str(n + 1), "-seed", str((seed or ctx.seed) * 7919 + 13)]
    return ctx.gen(name, "Gen", cfg, modules={"Gen": mod}, args=args, fast=True)


def pick(rng, xs, n):
    """a deterministic sample that keeps the order"""
    if len(xs) <= n:
        return list(xs)
    return [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]


def level_to_bytes(rng, r, lvl, sent, k):
    """abstract progress -> number of bytes sent by then"""
    h, b = len(r.hdr), len(r.body)
    total = h + b
    tb = 3 if k.get("size") in ("limit", "over") else k.get("body", 2)
    top = 2 + tb
    if lvl >= top:
        return total
    if lvl < 2:
        return max(sent, rng.choice([1, h - 1, h - 2, h - 3, rng.randrange(1, h)]))
    if lvl == 2:
        return max(sent, h)
    lo = max(sent, h) + 1
    if lo >= total:
        return max(sent, min(total, lo - 1))
    return rng.choice([lo, rng.randrange(lo, total), total - 1])


def concretise(rng, sid, hist, kinds, cfgs, sched="seed=1", fds=False, tls=False, cap=None, final=True, piece=None, openopts="", cut_run=0.5):
    g = dict(cfgs[hist[0]["i"] - 1])
    conf = {k: v for k, v in g.items() if k in ("strict", "auth", "anon", "workers", "fwmsg")}
    conf["users"] = [[hx(u), hx(p)] for u, p in g.get("users", [])]
    limit = 0
    if g.get("limit"):
        limit = rng.choice([600, 700, 900, 1500, 4096, 70000]) + rng.randrange(40)
        conf["max"] = limit
    s = Scn(sid, conf, tls=tls)
    s.want_fds = fds
    life = any(x["o"] == "start" for x in hist)
    s.server(sched, fw=g.get("fw"), start=not life)
    s.run()
    if fds:
        s.fds()
    opened, kof, sent, cur, caps = [], {}, {}, {}, {}
    for st in hist[1:]:
        o = st["o"]
        c = st.get("c")
        if o == "open":
            oo = openopts
            if any(x["o"] == "spoil" and x["c"] == c for x in hist[1:]):     # what it sends arrives at once
                oo += " cut=0"
            if cap:
                caps[c] = rng.choice(cap)
                oo += " cap=%d" % caps[c]
            if tls:
                tls_open(rng, s, c, st["k"], oo)
            else:
                s.open(c, st["k"], oo)
            opened.append(c)
        elif o == "req":
            k = kinds[st["k"] - 1]
            f = {x: y for x, y in k.items() if x not in ("size", "hdr", "body", "mk")}
            if k.get("mk"):
                f.update(k["mk"](rng, "t%d" % st["t"], g))
            if k.get("act") in ("fault", "exc") and "atext" not in f:
                f["atext"] = "e%d %s" % (st["t"], rng.choice(["", "x", "<&>", "oops é"]))
                f["acode"] = rng.choice([0, 1, -1, 7, -32500, 2147483647, -2147483648])
            if "big" in f:    # a tiny write size and a huge result only make the run long
                f["big"] = min(f["big"], caps.get(c, 1 << 20) * 3000)
            if limit:
                z = k.get("size", "fit")
                if z in ("fit", "small"):
                    if z == "fit" and f.get("xml", "call") == "call" and not f.get("rawbody"):
                        f["total"] = limit - rng.choice([1, 1, 2, 30])
                elif z == "limit":
                    f["total"] = limit
                else:
                    f["total"] = limit + rng.choice([1, 2, 100, 5000])
                if rng.random() < .3 and "total" in f and f["total"] > 900:
                    f["hpad"] = rng.randrange(1, f["total"] - 700)
            r = Req(rng, "t%d" % st["t"], **f)
            kof[c], cur[c] = k, r
            n = level_to_bytes(rng, r, st["n"], 0, k)
            sent[c] = n
            s.req(c, r, 0)
            pieces(rng, s, c, n, piece, cut_run)
        elif o == "more":
            n = level_to_bytes(rng, cur[c], st["n"], sent[c], kof[c])
            if n > sent[c]:
                pieces(rng, s, c, n - sent[c], piece, cut_run)
                sent[c] = n
        elif o == "fin":
            # (bytes that a closing server leaves unread may cost the peer the response)
            if tls and s.cls[c] == "ok" and rng.random() < .6 and calm(cur.get(c), c, s):
                s.cmd("tlsclose %d" % c, {"e": "fin", "c": c})
                if rng.random() < .5:
                    s.cmd("fin %d" % c)
            else:
                s.fin(c)
        elif o == "spoil" and rng.random() < .5:      # more than one request, on a connection that closes
            r = Req(rng, "x%d" % c, ka=False)
            s.req(c, r)
            s.cmd("tx %d %s" % (c, bytes(rng.randrange(1, 60)).hex()), {"e": "gone", "c": c})
        elif o == "spoil":       # something that is not a record
            s.cmd("txraw %d %s" % (c, bytes(rng.choice([[23, 3, 3, 0, 40] + [7] * 40, [99] * 50, [21, 3, 3, 0, 2, 2, 40], list(b"POST / HTTP/1.0\r\n\r\n"), [23, 3, 3, 255, 255] + [1] * 60])).hex()), {"e": "gone", "c": c})
        elif o == "key":
            if calm(cur.get(c), c, s):
                s.cmd("tlskey %d" % c)
        elif o in ("rst", "close"):
            s.gone(c, o)
        elif o == "hold":
            s.hold(c, st["h"])
        elif o == "release":
            s.cmd("release t%s" % st["t"])
        elif o == "run":
            s.run()
            if fds:
                s.fds()
        elif o == "start":
            s.work()
        elif o == "stop":
            s.stop()
        elif o == "astop":
            s.cmd("astop A %d" % len(s.lines))
        elif o == "workers":
            s.cmd("addthreads A %d" % st["n"], {"e": "workers", "n": st["n"]})
        elif o == "eintr":
            s.cmd("eintr %d" % rng.choice([1, 2, 5]))
        elif o == "interrupt":
            s.cmd("ainterrupt A %d" % len(s.lines))
        elif o == "tick":
            s.cmd("tick %d" % rng.choice([1, 1000, 100000]))
    if final:
        for t, r in s.reqs.items():
            if r.f["blocks"]:
                s.cmd("release " + t)
        for c in opened:
            if any(x["o"] == "hold" and x["c"] == c for x in hist[1:]):
                s.hold(c, False)
        if life:      # calls that stop the server may still be waiting
            for i in range(2 + sum(r.f["stops"] for r in s.reqs.values())):
                s.cmd("ensure A")
                s.run()
        s.run()
        if fds:
            s.fds()
        # the server still serves
        s.open(90)
        s.req(90, Req(rng, "fin", ka=False))
        s.run()
        if fds:
            s.fds()
        s.stop()
        s.run()
    return s


def calm(r, c, s):
    """no response that closes the connection is on its way"""
    return not r or (r.f["ka"] and r.f["post"] and r.f["clen"] == "ok" and r.f["exp"] != "other" and not r.f["badline"] and r.f["ctype"] == "xml" and not s.cfg["max"])


def hello():
    """the first flight of a TLS client"""
    import ssl
    x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    x.check_hostname = False
    x.verify_mode = ssl.CERT_NONE
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    c = x.wrap_bio(i, o)
    try:
        c.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return o.read()


HELLO = None


def tls_open(rng, s, c, cls, oo):
    """a peer of a TLS server: one that speaks TLS, or one of those that do not"""
    global HELLO
    HELLO = HELLO or hello()
    if cls == "ok":
        if "cut" not in oo:
            oo += rng.choice(["", "", "", " v12", " cut=%d" % rng.choice([1, 20, 100]), " cut=%d" % rng.choice([20, 100, 250]), " tls=b", " tls=e"])
        s.open(c, cls, oo)
        s.run()
    elif cls == "denied":
        s.open(c, cls, oo + " notls")
    elif cls == "bad":
        s.open(c, cls, oo + " notls")
        s.cmd("txraw %d %s" % (c, rng.choice([b"POST /RPC2 HTTP/1.0\r\nContent-Length: 0\r\n\r\n", b"\r\n\r\n\r\n\r\n", b"x" * 30, b"\x15\x03\x01\x00\x02\x02\x28", b"\x17\x03\x03\x00\x05hello"]).hex()))
    elif cls == "stall":
        s.open(c, cls, oo + " notls")
        n = rng.choice([0, 1, 4, 5, 6, rng.randrange(len(HELLO)), len(HELLO) - 1])
        if n:
            s.cmd("txraw %d %s" % (c, HELLO[:n].hex()))
    elif cls == "odd":           # a damaged first flight
        s.open(c, cls, oo + " notls")
        h = bytearray(HELLO)
        for _ in range(rng.choice([1, 1, 2, 10])):
            h[rng.choice([rng.randrange(60), rng.randrange(len(h))])] = rng.randrange(256)
        s.cmd("txraw %d %s" % (c, bytes(h).hex()))


def pieces(rng, s, c, n, piece, cut_run):
    """send n bytes, cut into pieces as told by `piece` (None = one piece)"""
    while n > 0:
        if piece is None:
            k = n
        elif piece == "one":
            k = 1
        elif piece == "mix":
            k = rng.choice([1, 2, 3, 7, 64, 500, 65535, 65536, 65537, n])
        else:
            k = piece
        k = min(k, n)
        s.send(c, k)
        n -= k
        if n > 0 and rng.random() < cut_run:
            if piece == "one":
                s.cmd("steps 40")
            else:
                s.run()


def build_all(ctx, hists, kinds, cfgs, prefix, **kw):
    out = []
    for i, h in enumerate(hists):
        rng = random.Random("%s/%s/%d/%d" % (ctx.pid, prefix, ctx.seed, i))
        kk = {k: (v(rng) if callable(v) else v) for k, v in kw.items()}
        out.append(concretise(rng, "%s%d" % (prefix, i), h, kinds, cfgs, **kk))
    return out


# ---------------------------------------------------------------------------------- shared: the specification itself
MODEL_K = "[post |-> TRUE, badline |-> FALSE, clen |-> \"ok\", exp |-> \"no\", ctype |-> \"xml\", ka |-> TRUE, hdr |-> 1, body |-> 2, " \
          "xml |-> \"call\", known |-> TRUE, cred |-> \"none\", user |-> \"\", pass |-> \"\", tag |-> \"\", act |-> \"ok\", acode |-> 0, " \
          "atext |-> \"\", stops |-> FALSE]"
MODEL_G = "[max |-> 0, strict |-> FALSE, auth |-> FALSE, anon |-> FALSE, users |-> {}, workers |-> 0, fwmsg |-> FALSE]"


def impl(ctx, name, kinds, cfg, conns=2, reqs=2, opens=("ok",), moves=("fin", "gone", "hold"), bug="", timeout=800):
    """ServerImpl refines Service within these bounds; with `bug` it must not."""
    mod = """---- MODULE MC ----
EXTENDS ServerImpl
K == %s
G == %s
KindsV == { %s }
ConfigV == %s
====
""" % (MODEL_K, MODEL_G, ", ".join(tla_kind(k) for k in kinds), tla_cfg(cfg).replace("!.max = 5", "!.max = 4")
       if "musers" not in cfg else "[%s EXCEPT !.users = %s]" % (tla_cfg(cfg), cfg["musers"]))
    c = """CONSTANTS
 Conns = %s
 Kinds <- KindsV
 Config <- ConfigV
 MaxReqs = %d
 Opens = %s
 Moves = %s
 Bug = "%s"
SPECIFICATION Spec
INVARIANT Rests
INVARIANT OnePerCall
PROPERTY StepOk
CHECK_DEADLOCK FALSE
""" % (tla(set(range(1, conns + 1))), reqs, tla(set(opens)), tla(set(moves)), bug)
    ctx.mc("ServerImpl %s%s" % (name, " with bug " + bug if bug else ""), "MC", c, modules={"MC": mod}, expect_violation=bool(bug), timeout=timeout,
           workers=4, mem="4g", fast=not ctx.thorough)


# property -> (kinds, configuration, options, broken variants the specification has to refuse)
MODELS = {
    "S01": ([{}, {"exp": "continue"}], {}, dict(conns=2, moves=()), ["header"]),
    "S02": ([{}, {"act": "fault"}], {"workers": 2}, dict(conns=2, moves=("gone",)), ["swap"]),
    "S03": ([{}, {"post": False}, {"clen": "bad", "exp": "other"}], {"strict": True}, dict(conns=2, moves=("fin",)), ["linger"]),
    "S04": ([{}, {"size": "over"}, {"size": "over", "exp": "continue"}], {"limit": True}, dict(conns=2, moves=()), ["limit"]),
    "S05": ([{}, {"ka": False}], {"workers": 1}, dict(conns=2, moves=("fin",)), ["keepalive", "linger"]),
    "S06": ([{"exp": "continue"}, {"exp": "continue", "ka": False}, {}], {}, dict(conns=1, reqs=3), ["onecontinue"]),
    "S07": ([{}, {"cred": "basic", "user": "u", "pass": "p"}, {"cred": "basic", "user": "u", "pass": "q"}, {"cred": "undecodable"}],
            {"auth": True, "anon": True, "musers": '{<<"u", "p">>}'}, dict(conns=2, moves=()), ["stickyuser", "askonce", "anypass"]),
    "S08": ([{}], {"fwmsg": True}, dict(conns=2, opens=("ok", "denied"), moves=("gone",)), ["firewall"]),
    "S09": ([{}, {"act": "exc"}], {"workers": 1}, dict(conns=2, moves=("gone",)), ["workers"]),
}


def model(ctx):
    """the implementation-shaped model against Service, and broken variants of it that Service must refuse"""
    kinds, cfg, opt, bugs = MODELS[ctx.pid]
    impl(ctx, "refines Service", kinds, cfg, **opt)
    for b in bugs:
        impl(ctx, "control", kinds, cfg, bug=b, **opt)
    if ctx.thorough:
        big = dict(opt, moves=("fin", "gone", "hold"))
        impl(ctx, "refines Service, all moves", kinds[:2], cfg, timeout=3000, **big)


ASSUME = ["TCP over loopback delivers bytes in order; peers are scripted by the harness on one side of real sockets",
          "requests of a connection are sent one after another (no pipelining)"]

PLAIN = [{}, {"ka": False}, {"act": "fault"}, {"act": "exc"}, {"exp": "continue"}, {"xml": "broken"}, {"xml": "structure"}, {"known": False}]


def sched_serial(rng):
    return "seed=%d mode=%s" % (rng.randrange(1 << 30), rng.choice(["rand sw=20", "rand sw=50", "block"]))


def sched_pool(rng):
    m = rng.choice(["rand sw=20", "rand sw=60", "rand sw=50 bb=40", "pct depth=3 horizon=300", "pct depth=5 horizon=600 bb=60"])
    return "seed=%d mode=%s spurious=%d" % (rng.randrange(1 << 30), m, rng.choice([0, 0, 5]))



def sched_any(rng):
    return sched_pool(rng) if rng.random() < .6 else sched_serial(rng)


EXEC = [{}, {"workers": 1}, {"workers": 2}, {"workers": 3}]


def with_exec(cfgs, ex=EXEC):
    return [dict(c, **e) for c in cfgs for e in ex]


def S01(ctx):
    """framing independent of segmentation; responses independent of write sizes"""
    ctx.build("iqhost")
    model(ctx)
    # every cut of some concrete requests, many per connection
    shapes, fs = [], []
    rng = random.Random("S01/%d" % ctx.seed)
    texts = ["plain", "a\n\nb", "x\r\n\r\ny\n\n", "\n", "é<&>", "\r\n\r\n"]
    for i in range(ctx.n(8, 24)):
        f = {"eol": ["\r\n", "\n"][i % 2], "params": [("s" + hx(t.replace("\r\n", "\n") if False else t), "<string>%s</string>" % srv.esc(t)) for t in rng.sample(texts, 2)],
             "rawact": "echo", "exp": "continue" if i % 4 == 3 else "no"}
        if i % 3 == 1:    # a raw blank line in the body, outside of values
            f["pad"] = 30
        fs.append(f)
    # sizes are known once concretised with a fixed tag length
    def mk(i, tag, salt):
        return Req(random.Random("S01r/%d/%d" % (ctx.seed, i)), tag, **fs[i])
    for i in range(len(fs)):
        r = mk(i, "t0000", 0)
        shapes.append((len(r.hdr), len(r.body)))
    mod = "---- MODULE Gen ----\nEXTENDS GenCuts\nShapesV == %s\n====\n" % srv_tla(shapes)
    cuts = ctx.gen("GenCuts", "Gen", "CONSTANTS\n Shapes <- ShapesV\n MaxCuts = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4),
                   modules={"Gen": mod}, fast=True)
    two = [c for c in cuts if len(c[1]) <= 1]
    many = pick(rng, [c for c in cuts if len(c[1]) > 1], ctx.n(1500, 20000))
    cuts = two + many
    rng.shuffle(cuts)
    scns, per = [], 12
    for b in range(0, len(cuts), per):
        i = b // per
        rs = random.Random("S01s/%d/%d" % (ctx.seed, i))
        s = Scn("c%d" % i, {"workers": rs.choice([0, 0, 1, 2])})
        s.server(sched_any(rs))
        s.open(1, opts="cap=%d" % rs.choice([1, 3, 50, 100000]) if rs.random() < .4 else "")
        for j, (sh, cs) in enumerate(cuts[b:b + per]):
            r = mk(sh - 1, "t%04d" % j, i)
            s.req(1, r, 0)
            last = 0
            for p in cs + [len(r.bytes)]:
                s.send(1, p - last)
                last = p
                if p != len(r.bytes):
                    s.run() if rs.random() < .7 else s.cmd("steps %d" % rs.choice([1, 10, 50]))
            s.run()
        scns.append(s)
    # sizes around the read buffer and beyond, byte by byte, tiny writes of big results
    sizes = [65535, 65536, 65537, 131071, 131072, 131073, 200000]
    for i in range(ctx.n(60, 500)):
        rs = random.Random("S01b/%d/%d" % (ctx.seed, i))
        s = Scn("b%d" % i, {"workers": rs.choice([0, 1, 2])})
        s.server(sched_any(rs))
        s.open(1, opts="cap=%d" % rs.choice([1, 7, 1000, 65535, 65536, 65537]))
        for j in range(3):
            o = {}
            m = rs.choice(["size", "byte", "resp"])
            if m == "size":
                o["total"] = rs.choice(sizes) + rs.choice([0, 0, 0, -1, 1])
                if rs.random() < .3:
                    o["hpad"] = 65536 - 200 - rs.randrange(400)
                    o["total"] = max(o["total"], o["hpad"] + 1200)
            if m == "resp":
                o["big"] = rs.choice([0, 1, 100, 3000, 20000])
                if not o["big"]:
                    del o["big"]
            if j == 2 and i % 2:
                o["ka"] = False
            r = Req(rs, "t%d" % j, **o)
            if j == 2 and i % 4 == 1 and m != "size":      # what follows the declared length is no part of the request
                r.after = rs.choice([b"\r\n", b"\n", b"x", b"</methodCall>", b"POST", b"\0" * 300])
            s.req(1, r, 0)
            pieces(rs, s, 1, len(r.bytes), {"size": "mix", "byte": "one", "resp": None}[m], .4)
            s.run()
        scns.append(s)
    # abstract histories: cuts interleaved over connections
    kinds = [{}, {"ka": False}, {"act": "fault"}, {"exp": "continue"}]
    cfgs = EXEC[:3]
    h = gen(ctx, "GenService cuts", kinds, cfgs, conns=2, n=12, maxreqs=4, simulate=ctx.n(600, 4500))
    h = pick(rng, h, ctx.n(600, 8000))
    scns += build_all(ctx, h, kinds, cfgs, "g", sched=sched_any, piece=lambda r: r.choice([None, None, "mix", 17]), cap=lambda r: [1, 5, 1 << 20])
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def S02(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{}, {"ka": False}, {"act": "fault"}, {"exp": "continue"}, {"xml": "structure"}, {"blocks": True},
             {"mk": lambda r, t, g: {"big": r.choice([10, 5000, 70000])}}, {"known": False}, {"act": "exc"}]
    cfgs = EXEC
    h = gen(ctx, "GenService multi", kinds, cfgs, conns=4, n=18, ops=("part", "interrupt"), maxreqs=8, simulate=ctx.n(2000, 12000))
    h = pick(ctx.rng, h, ctx.n(3500, 25000))
    s = build_all(ctx, h, kinds, cfgs, "m", sched=sched_any, cap=lambda r: [1 << 20, 1 << 20, 100, 5000])
    for x in s:
        x.want_peer = True
    ctx.conform(s, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def defect_kinds():
    ks = []
    for post in (True, False):
        for bad in (False, True):
            for clen in ("ok", "none", "bad"):
                for exp in ("no", "continue", "other"):
                    for ct in ("xml", "other"):
                        k = dict(post=post, badline=bad, clen=clen, exp=exp, ctype=ct)
                        ks.append({a: b for a, b in k.items() if b != srv.FEAT[a]})
    return ks


def S03(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = defect_kinds()
    cfgs = [{}, {"strict": True}]
    # all kinds x all single cut levels x (fin or not)
    h1 = gen(ctx, "GenService defects", kinds, cfgs, conns=1, n=ctx.n(4, 5), ops=("part", "fin"), maxreqs=1)
    h1 = [x for x in h1 if any(s["o"] == "req" for s in x)]
    h1 = pick(ctx.rng, h1, ctx.n(3000, 20000))
    # after good requests, with good neighbours, pooled
    k2 = [{}, {"ka": False}] + kinds
    c2 = with_exec(cfgs, EXEC[:3])
    h2 = gen(ctx, "GenService defects multi", k2, c2, conns=3, n=14, ops=("part", "fin", "hold"), maxreqs=5, simulate=ctx.n(1000, 7500))
    h2 = pick(ctx.rng, h2, ctx.n(1500, 15000))
    s = build_all(ctx, h1, kinds, cfgs, "d", sched=sched_serial) + \
        build_all(ctx, h2, k2, c2, "x", sched=sched_any, piece=lambda r: r.choice([None, "mix"]), cap=lambda r: [1, 10, 1 << 20])
    ctx.conform(s, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def S04(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{"size": "small"}, {"size": "fit"}, {"size": "limit"}, {"size": "over"}, {"size": "limit", "exp": "continue"},
             {"size": "fit", "exp": "continue"}, {"size": "fit", "ka": False}, {"size": "over", "post": False}, {"size": "over", "act": "fault"},
             {"size": "fit", "act": "fault"}, {"size": "small", "xml": "broken"}]
    cfgs = with_exec([{"limit": True}, {"limit": True}, {}], EXEC[:2])
    h = gen(ctx, "GenService sizes", kinds, cfgs, conns=2, n=11, ops=("part",), maxreqs=5, simulate=ctx.n(480, 4500))
    h = pick(ctx.rng, h, ctx.n(1800, 15000))
    scns = build_all(ctx, h, kinds, cfgs, "h", sched=sched_any, piece=lambda r: r.choice([None, None, "mix", 50]), cap=None)
    # exact sizes around the limit after k earlier requests, every split between header and body
    for i in range(ctx.n(700, 6000)):
        rs = random.Random("S04/%d/%d" % (ctx.seed, i))
        mx = rs.choice([500, 512, 1000, 1024, 4096, 65536, 65537, 100000])
        s = Scn("e%d" % i, {"max": mx, "workers": rs.choice([0, 0, 1])})
        s.server(sched_any(rs))
        s.open(1)
        for j in range(rs.randrange(4)):
            s.req(1, Req(rs, "p%d" % j, total=mx - 1 - rs.choice([0, 0, 1, 20]) if rs.random() < .6 else 400), 0)
            pieces(rs, s, 1, s.left(1), rs.choice([None, 100, "mix"]), .4)
            s.run()
        d = [-3, -2, -1, -1, 0, 0, 1, 2, 3, 1000][i % 10]
        o = {"total": mx + d}
        if rs.random() < .5 and mx > 1000:
            o["hpad"] = rs.choice([1, 100, mx // 2, mx - 800])
        r = Req(rs, "t", **o)
        s.req(1, r, 0)
        m = i % 5
        if m == 0:
            s.send(1, len(r.bytes))
        elif m == 1:
            s.send(1, len(r.hdr)); s.run(); s.send(1, len(r.body))
        elif m == 2:
            s.send(1, len(r.bytes) - 1); s.run(); s.send(1, 1)
        elif m == 3:
            pieces(rs, s, 1, len(r.bytes), "mix", .6)
        else:
            k = rs.randrange(1, len(r.bytes)); s.send(1, k); s.run(); s.send(1, len(r.bytes) - k)
        s.run()
        s.open(2)
        s.req(2, Req(rs, "z", total=mx - 1))
        s.run()
        scns.append(s)
    # the limit is changed while serving
    for i in range(ctx.n(60, 400)):
        rs = random.Random("S04c/%d/%d" % (ctx.seed, i))
        s = Scn("m%d" % i, {"max": 600})
        s.server(sched_serial(rs))
        s.open(1)
        cur = 600
        for j in range(4):
            if rs.random() < .7:
                cur = rs.choice([500, 800, 2000, 0])
                s.cmd("max A %d" % cur, {"e": "conf", "max": cur, "strict": False})
            z = rs.choice([450, (cur or 900) - 1, (cur or 900) - 1, cur or 3000])
            s.req(1, Req(rs, "t%d" % j, total=z))
            s.run()
            if cur and z >= cur:
                break
        scns.append(s)
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def S05(ctx):
    ctx.build("iqhost")
    model(ctx)
    base = [{}, {"act": "fault"}, {"act": "exc"}, {"exp": "continue"}, {"xml": "broken"}, {"xml": "structure"}, {"known": False},
            {"mk": lambda r, t, g: {"big": r.choice([500, 30000, 100000])}}]
    kinds = base + [dict(k, ka=False) for k in base] + [{"post": False}, {"clen": "none"}, {"size": "over"}, {"clen": "bad", "ka": False}] + \
        [{"cred": "basic", "user": "bad", "pw": "x"}, {"cred": "basic", "user": "bad", "pw": "x", "ka": False}]
    cfgs = with_exec([{}, {"limit": False, "auth": True, "anon": True, "users": [("u", "p")]}], EXEC[:3])
    for k in kinds:
        if k.get("size") == "over":
            k.pop("size")
            k["exp"] = "other"
    h1 = gen(ctx, "GenService persistence", kinds, cfgs[:1], conns=1, n=6, ops=(), maxreqs=3)
    h1 = pick(ctx.rng, [x for x in h1 if sum(s["o"] == "req" for s in x) >= 1], ctx.n(1200, 6000))
    h2 = gen(ctx, "GenService persistence multi", kinds, cfgs, conns=3, n=16, ops=("part", "fin", "hold"), maxreqs=7, simulate=ctx.n(400, 3600))
    h2 = pick(ctx.rng, h2, ctx.n(1800, 15000))
    scns = build_all(ctx, h1, kinds, cfgs[:1], "p", sched=sched_serial, cap=lambda r: [1, 10, 100, 1 << 20]) + \
        build_all(ctx, h2, kinds, cfgs, "q", sched=sched_any, cap=lambda r: [1, 3, 100, 5000, 1 << 20])
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def S06(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{"exp": "continue"}, {"exp": "continue", "ka": False}, {}, {"exp": "continue", "act": "fault"}, {"exp": "continue", "xml": "broken", "body": 2},
             {"exp": "other"}, {"exp": "continue", "post": False}, {"ka": False}]
    cfgs = with_exec([{}, {"strict": True}], EXEC[:3])
    h1 = gen(ctx, "GenService expect", kinds[:4], cfgs[:1], conns=1, n=8, ops=("part",), maxreqs=2)
    h1 = pick(ctx.rng, [x for x in h1 if sum(s["o"] == "req" for s in x) >= 1], ctx.n(1500, 12000))
    h2 = gen(ctx, "GenService expect multi", kinds, cfgs, conns=2, n=18, ops=("part",), maxreqs=8, simulate=ctx.n(480, 3600))
    h2 = pick(ctx.rng, h2, ctx.n(1500, 12000))
    scns = build_all(ctx, h1, kinds[:4], cfgs[:1], "p", sched=sched_serial, cap=lambda r: [1, 7, 1 << 20], piece=lambda r: r.choice([None, 9])) + \
        build_all(ctx, h2, kinds, cfgs, "q", sched=sched_any, cap=lambda r: [1, 10, 1 << 20], piece=lambda r: r.choice([None, "mix"]))
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


USERS = [("user", "pass"), ("u", ""), ("a b", "c:d:e"), ("", "nouser"), ("é", "ü"), ("User", "PASS"), ("x" * 60, "y" * 90)]


def auth_good(r, t, g):
    u = r.choice(g.get("users") or USERS)
    return {"cred": "basic", "user": u[0], "pw": u[1]}


def auth_wrong(r, t, g):
    u, p = r.choice(USERS)
    w = r.choice([(u, p + "x"), (u + "x", p), (u.upper(), p) if u.upper() != u else (u, p + "y"), (p, u) if p != u and (p, u) not in USERS else (u, "zz"), (u, p[:-1]) if p else (u, "q"),
                  ("nobody", ""), (u.strip() + " ", p)])
    if tuple(w) in [tuple(x) for x in g.get("users", [])] or ":" in w[0]:
        w = ("nobody", "nothing")
    return {"cred": "basic", "user": w[0], "pw": w[1]}


def auth_nocolon(r, t, g):
    import base64
    u = r.choice(["u", "user", "nobody", ""])
    b = base64.b64encode(u.encode()).decode()
    if not b:
        return {"cred": "basic", "user": "nobody", "pw": ""}
    return {"cred": "basic", "user": u, "pw": "", "auth": "Basic " + b}


def auth_other(r, t, g):
    # anything that is not the Basic scheme counts as credentials nobody accepts
    return {"cred": "basic", "user": "\x00other", "pw": "", "auth": r.choice(["Digest abc", "Bearer dXNlcjpwYXNz", "Basic", "Basicx dXNlcjpwYXNz", "Basic dXNlcjpwYXNz extra", "dXNlcjpwYXNz", "NTLM dXNlcjpwYXNz"])}


def auth_malformed(r, t, g):
    return {"cred": "undecodable", "auth": "Basic " + r.choice(["!!!!", "dXNlcjpwYXN", "dXNlcjpwYXNz=", "=", "d", "dXNl*jpwYXNz"])}


def S07(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{}, {"mk": auth_good}, {"mk": auth_wrong}, {"mk": auth_nocolon}, {"mk": auth_other}, {"mk": auth_malformed},
             {"ka": False}, {"mk": auth_good, "ka": False}, {"mk": auth_wrong, "ka": False}, {"mk": auth_good, "xml": "structure"},
             {"mk": auth_wrong, "xml": "broken"}, {"mk": auth_good, "act": "fault"}, {"mk": auth_wrong, "known": False}, {"mk": auth_good, "exp": "continue"},
             {"mk": auth_wrong, "post": False}]
    cfgs = with_exec([{"auth": True, "users": USERS}, {"auth": True, "users": USERS, "anon": True}, {"auth": True, "users": []},
                      {"auth": True, "users": USERS[:2]}, {}], EXEC[:3])
    h1 = gen(ctx, "GenService credentials", kinds, cfgs, conns=1, n=6, ops=(), maxreqs=3, simulate=ctx.n(800, 6000))
    h1 = pick(ctx.rng, [x for x in h1 if sum(s["o"] == "req" for s in x) >= 1], ctx.n(1300, 8000))
    h2 = gen(ctx, "GenService credentials multi", kinds, cfgs, conns=3, n=16, ops=("part",), maxreqs=8, simulate=ctx.n(520, 3600))
    h2 = pick(ctx.rng, h2, ctx.n(1800, 12000))
    scns = build_all(ctx, h1, kinds, cfgs, "p", sched=sched_any, final=False) + build_all(ctx, h2, kinds, cfgs, "q", sched=sched_any, final=False)
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def S08(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{}, {"ka": False}, {"post": False}, {"act": "fault"}]
    cfgs = with_exec([{"fw": "go away", "fwmsg": True}, {"fw": "", "fwmsg": False}, {"fw": "default", "fwmsg": True},
                      {"fw": "HTTP/1.0 403 Forbidden\r\n\r\n" + "z" * 3000, "fwmsg": True}], EXEC[:2])
    h1 = gen(ctx, "GenService firewall", kinds[:2], cfgs, conns=2, n=7, ops=("rst", "close", "fin"), opens=("ok", "denied"), maxreqs=2, simulate=ctx.n(800, 7500))
    h1 = pick(ctx.rng, h1, ctx.n(1500, 10000))
    h2 = gen(ctx, "GenService firewall multi", kinds, cfgs, conns=5, n=18, ops=("part", "rst", "close", "fin"), opens=("ok", "denied"), maxreqs=6, simulate=ctx.n(480, 3600))
    h2 = pick(ctx.rng, h2, ctx.n(1500, 10000))
    scns = build_all(ctx, h1, kinds, cfgs, "p", sched=sched_any, fds=True) + build_all(ctx, h2, kinds, cfgs, "q", sched=sched_any, fds=True)
    # many refused peers do not use up anything
    for i in range(ctx.n(6, 30)):
        rs = random.Random("S08/%d/%d" % (ctx.seed, i))
        s = Scn("n%d" % i, {"fwmsg": True, "workers": rs.choice([0, 1])})
        s.want_fds = True
        s.server(sched_any(rs), fw="no")
        s.run()
        s.fds()
        for j in range(1, 60):
            s.open(j, "denied")
            if rs.random() < .3:
                s.req(j, Req(rs, "x%d" % j))
            if rs.random() < .3:
                s.gone(j, rs.choice(["rst", "close"]))
            if rs.random() < .3:
                s.run()
        s.run()
        s.fds()
        s.open(70)
        s.req(70, Req(rs, "ok"))
        s.run()
        scns.append(s)
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def garbage(r, t, g):
    return {"post": False, "clen": "none"}


def S09(ctx):
    ctx.build("iqhost")
    model(ctx)
    kinds = [{}, {"ka": False}, {"act": "exc", "exc": "stdexc"}, {"act": "exc", "exc": "logic"}, {"act": "exc", "exc": "iqexc"},
             {"act": "exc", "exc": "int", "mk": lambda r, t, g: {"atext": "*"}}, {"act": "exc", "exc": "cstr", "mk": lambda r, t, g: {"atext": "*"}},
             {"act": "exc", "exc": "badcast", "mk": lambda r, t, g: {"atext": "*"}}, {"act": "fault"}, {"exp": "continue"}, {"badline": True}, {"clen": "none"}, {"xml": "broken"},
             {"mk": lambda r, t, g: {"big": r.choice([3000, 300000])}}, {"mk": garbage, "post": False, "clen": "none"}, {"blocks": True}]
    cfgs = with_exec([{}], EXEC)
    ops = ("part", "rst", "close", "fin", "eintr", "interrupt", "hold")
    h1 = gen(ctx, "GenService failing peer", kinds[:2] + kinds[8:10], cfgs[:3], conns=1, n=6, ops=("part", "rst", "close", "fin"), maxreqs=2)
    h1 = pick(ctx.rng, h1, ctx.n(1300, 9000))
    h2 = gen(ctx, "GenService failing peers", kinds, cfgs, conns=4, n=20, ops=ops, maxreqs=8, simulate=ctx.n(600, 4500))
    h2 = pick(ctx.rng, h2, ctx.n(2200, 20000))
    scns = build_all(ctx, h1, kinds[:2] + kinds[8:10], cfgs[:3], "p", sched=sched_any, fds=True) + \
        build_all(ctx, h2, kinds, cfgs, "q", sched=sched_any, fds=True, cap=lambda r: [1, 100, 1 << 20], piece=lambda r: r.choice([None, None, "mix"]))
    # accept() failures
    for i in range(ctx.n(30, 200)):
        rs = random.Random("S09a/%d/%d" % (ctx.seed, i))
        s = Scn("a%d" % i, {"workers": rs.choice([0, 1])})
        s.want_fds = True
        s.server(sched_any(rs))
        s.run(); s.fds()
        s.open(1); s.req(1, Req(rs, "t1")); s.run()
        s.cmd("failaccept %d" % rs.choice([1, 2, 5]))
        s.open(2); s.req(2, Req(rs, "t2")); s.run()
        s.req(1, Req(rs, "t3")); s.run(); s.fds()
        s.open(3); s.req(3, Req(rs, "t4")); s.run()
        s.fds()
        scns.append(s)
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", ASSUME


def srv_tla(x):
    return tla([list(y) for y in x])


CHECKS = {"S01": S01, "S02": S02, "S03": S03, "S04": S04, "S05": S05, "S06": S06, "S07": S07, "S08": S08, "S09": S09}
