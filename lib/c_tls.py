"""Checks of TLS: who is talked to (Tls.tla), and that serving over TLS is serving (Service.tla)."""
import hashlib, os, random, re, ssl
import srv
from srv import Req, Scn, hx
from c_server import gen, build_all, impl, tla, pick, sched_any, sched_serial, with_exec, EXEC, ASSUME as SASSUME
from c_client import Rsp

CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "certs")
CHAINS = [[], ["a"], ["b"], ["e"], ["d", "r"]]
VERS = [("none", []), ("accept", []), ("refuse", []), ("throw", []), ("pre", []), ("late", []), ("objects", []), ("only", ["b"]), ("only", ["d"]), ("only", ["r"]),
        ("only", ["d", "r"]), ("only", ["a", "b", "r"])]


def fingers():
    """the library's name of a certificate -> ours"""
    out = {}
    for c in "abcder":
        pem = open(os.path.join(CERTS, c + ".crt")).read()
        der = ssl.PEM_cert_to_DER_cert(re.search("-----BEGIN CERT.*?-----END CERTIFICATE-----", pem, re.S).group(0))
        out["".join("%x" % b for b in hashlib.sha256(der).digest())] = c
    return out


FP = None


def policy(v):
    global FP
    FP = FP or fingers()
    if v[0] != "only":
        return v[0]
    return "fp:" + "+".join(f for f, c in sorted(FP.items()) if c in v[1])


def verify_event(w):
    global FP
    FP = FP or fingers()
    d = dict(x.split("=", 1) for x in w[3:])
    return {"e": "verify", "side": w[1], "cert": FP.get(d["fp"], "?"), "pre": d["pre"] == "1", "ok": d["ok"] == "1"}


class TScn(Scn):
    def verify_event(self, w):
        return verify_event(w)

    def topen(self, c, chain, passes, opts):
        self.cls[c] = "ok" if passes else "bad"
        self.cmd("open %d A tls=%s %s" % (c, chain[0] if chain else "1", opts), {"e": "topen", "c": c, "chain": chain})


class CallScn:
    """calls of library clients"""

    def __init__(self, sid, mine):
        self.sid, self.mine = sid, mine
        self.lines, self.notes, self.meta, self.n = [], {}, {}, 0

    def cmd(self, line, *notes):
        self.notes[len(self.lines)] = list(notes)
        self.lines.append(line)

    def project(self, events, status):
        out = [{"e": "cfg", "sid": self.sid, "mine": self.mine}]
        live = False
        for line in events:
            w = line.split(" ")
            if w[0] == "#":
                for e in self.notes.get(int(w[1]), []):
                    if e["e"] == "call":
                        live = True
                    out.append(e)
            elif w[0] == "verify":
                out.append(verify_event(w))
            elif w[0] in ("rx", "exec"):
                if live:
                    out.append({"e": "got"})
                    live = False
            elif w[0] == "ret":
                if w[2] == "fault" or (w[2] == "ok" and w[3] != "s" + hx(w[1])):
                    out.append({"e": "wrong", "line": line[:200]})
                else:
                    out.append({"e": "ret", "id": w[1], "ok": w[2] == "ok"})
            elif w[0] == "quiet":
                if "=pending" not in line:
                    out.append({"e": "quiet"})
            elif w[0] in ("spin", "deadlock", "watchdog", "badclose", "baduse", "badcmd", "cmdexc", "workexc", "busy"):
                out.append({"e": w[0], "line": line[:200]})
        if status != "exit0":
            out.append({"e": "crash", "status": status})
        return out


def tgen(ctx, name, n, conns, simulate=0, fan=0, chains=CHAINS):
    mod = "---- MODULE Gen ----\nEXTENDS GenTls\nVV == << %s >>\nCC == << %s >>\n====\n" % (
        ", ".join("[k |-> %s, who |-> %s]" % (tla(k), tla(set(w)) if w else "{}") for k, w in VERS),
        ", ".join("<<%s>>" % ", ".join(map(tla, x)) for x in chains))
    cfg = "CONSTANTS\n N = %d\n Conns = {%s}\n Verifiers <- VV\n Chains <- CC\n Fan = %d\n Role = \"server\"\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
        n, ", ".join(map(str, range(1, conns + 1))), fan)
    args = ["-simulate", "num=%d" % simulate, "-depth", str(n + 1), "-seed", str(ctx.seed)] if simulate else []
    return ctx.gen(name, "Gen", cfg, args=args, fast=True, modules={"Gen": mod})


def server_side(rng, sid, hist):
    s = TScn(sid, {"workers": rng.choice([0, 0, 1, 2])}, tls="%s cert=a" % rng.choice(["server", "both"]))
    s.server(sched_any(rng))
    s.run()
    saved, nt = False, 0
    for st in hist:
        o, c = st["o"], st["c"]
        if o == "ver":
            v = VERS[st["i"] - 1]
            s.cmd("tlsver vc=%s req=%d" % (policy(v), st["r"]), {"e": "verifier", "k": v[0], "who": v[1], "req": st["r"]})
        elif o in ("open", "badopen"):
            chain = CHAINS[st["i"] - 1]
            oo = rng.choice(["", " v12", " v12", ""]) + rng.choice([""] * 8 + [" cut=1"] + [" cut=70", " cut=300", " cut=700"] * 2)
            if saved and rng.random() < .7:
                oo += " resume"
            s.topen(c, chain, o == "open", oo.strip())
            if o == "badopen":       # a client that does not care about the handshake
                if rng.random() < .8:
                    s.cmd("tx %d %s" % (c, Req(rng, "bad%d" % c).bytes.hex()))
            elif rng.random() < .5:
                s.run()
        elif o == "call":
            nt += 1
            s.req(c, Req(rng, "t%d" % nt, ka=not st["r"]))
        elif o == "run":
            s.run()
            for d in [x["c"] for x in hist if x["o"] == "open"]:
                if d in s.cur and rng.random() < .5:
                    s.cmd("tlssave %d" % d)
                    saved = True
    s.run()
    s.cmd("tlsver vc=none req=0", {"e": "verifier", "k": "none", "who": [], "req": False})
    s.topen(90, [], True, "")
    s.req(90, Req(rng, "fin", ka=False))
    s.run()
    s.stop()
    s.run()
    return s


def client_side(rng, sid, hist, both):
    """the same behaviours, with a library client at the end of each connection"""
    mycert = rng.choice(["a", "b", "e", "d"])
    mine = [mycert] if both else []       # the library shows its own certificate only
    s = CallScn(sid, mine)
    s.cmd("sched " + (sched_any(rng) if both else sched_serial(rng)))
    s.cmd("tlsctx %s cert=%s" % ("both" if both or rng.random() < .3 else "client", mycert))
    if both:
        s.cmd("server A exec=%s tls=1" % rng.choice(["serial", "1"]))
        s.cmd("work A")
        s.cmd("run")
    made = {}

    def call(c):
        s.n += 1
        q = "q%d" % s.n
        s.cmd("call %d %s %s [s%s,s%s]" % (c, q, hx("m"), hx(q), hx("tag")) if both else "call %d %s %s [s%s]" % (c, q, hx("m"), hx(q)), {"e": "call", "c": c, "id": q})
        s.cmd("run")
        if not both:
            body = ("<methodResponse><params><param><value>%s</value></param></params></methodResponse>" % q).encode()
            h = b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: %s\r\nContent-Type: text/xml\r\n\r\n" % (len(body), b"keep-alive")
            s.cmd("lans %d %s" % (c, (h + body).hex()))
        s.cmd("run")
    for st in hist:
        o, c = st["o"], st["c"]
        if o == "ver":
            v = VERS[st["i"] - 1]
            # in runs with both sides verifying, either side changes
            if not both or rng.random() < .5:
                s.cmd("tlsver vs=%s" % policy(v), {"e": "sv", "k": v[0], "who": v[1]})
            else:
                s.cmd("tlsver vc=%s req=%d" % (policy(v), st["r"]), {"e": "cv", "k": v[0], "who": v[1], "req": st["r"]})
        elif o in ("open", "badopen"):
            chain = CHAINS[1:][st["i"] - 1] if not both else mine
            if both:
                s.cmd("client %d https A uri=%s" % (c, hx("/RPC")), {"e": "client", "c": c, "chain": chain})
            else:
                s.cmd("listen %d tls=%s%s%s" % (c, chain[0], rng.choice(["", " reqcert"]), rng.choice([""] * 8 + [" cut=1"] + [" cut=70", " cut=300"] * 2)))
                s.cmd("client %d https p%d uri=%s" % (c, c, hx("/RPC")), {"e": "client", "c": c, "chain": chain})
            if rng.random() < .6:
                s.cmd("cset %d ka=1" % c, {"e": "ka", "c": c, "b": True})
            made[c] = True
            call(c)
        elif o == "call":
            call(c)
            if st["r"]:
                b = rng.random() < .5
                s.cmd("cset %d ka=%d" % (c, b), {"e": "ka", "c": c, "b": b})
                call(c)
    for c in made:       # and again under whatever verifier is left
        call(c)
    return s


def corrupt(trace):
    out = {}
    asked = [i for i, e in enumerate(trace) if e["e"] == "verify" and e["ok"]]
    if asked:
        i = asked[0]
        out["the other certificate"] = trace[:i] + [dict(trace[i], cert="c")] + trace[i + 1:]
        opens = [e for e in trace if e["e"] == "topen" and e["c"] != 90]
        if len(opens) == 1 and any(e["e"] == "exec" and e["tag"] != "fin" for e in trace):
            out["verifier not asked"] = [e for e in trace if e["e"] != "verify"]
        if trace[i]["side"] == "server" and any(e["e"] == "got" for e in trace[i:i + 4]):
            out["verifier not asked"] = [e for e in trace if e["e"] != "verify"]
    for i, e in enumerate(trace):
        if e["e"] == "ret" and "ok" in e:
            out["the other outcome"] = trace[:i] + [dict(e, ok=not e["ok"])] + trace[i + 1:]
    return out


def T01(ctx):
    ctx.build("iqhost")
    mod = """---- MODULE MC ----
EXTENDS TlsImpl
V == { [k |-> "none", who |-> {}], [k |-> "accept", who |-> {}], [k |-> "refuse", who |-> {}], [k |-> "throw", who |-> {}], [k |-> "pre", who |-> {}],
       [k |-> "late", who |-> {}], [k |-> "objects", who |-> {}], [k |-> "only", who |-> {"a"}], [k |-> "only", who |-> {"d"}], [k |-> "only", who |-> {"r"}], [k |-> "only", who |-> {"d", "r"}] }
C == { <<>>, <<"a">>, <<"d", "r">> }
====
"""

    def mc(conns, bug=""):
        ctx.mc("TlsImpl%s" % (" with bug " + bug if bug else ""), "MC", "CONSTANTS\n Verifiers <- V\n Chains <- C\n Conns = {%s}\n Bug = \"%s\"\nSPECIFICATION Spec\nINVARIANT OnlyPassing\nINVARIANT AllPassing\nCHECK_DEADLOCK FALSE\n" % (
            ", ".join(map(str, range(1, conns + 1))), bug), modules={"MC": mod}, expect_violation=bool(bug), fast=True)
    mc(ctx.n(1, 2))
    for b in ("otherside", "norequire", "throw", "first", "ignored", "early", "resume"):
        mc(2, b)
    one = tgen(ctx, "GenTls one connection", 4, 1)
    more = tgen(ctx, "GenTls sequences", 16, 4, simulate=ctx.n(900, 8000), fan=4)
    scns = []
    for i, h in enumerate(one):
        if sum(x["o"] in ("open", "badopen") for x in h):
            scns.append(server_side(random.Random("T01s%d/%d" % (ctx.seed, i)), "s%d" % i, h))
    scns = pick(ctx.rng, scns, ctx.n(300, 4000))
    scns += [server_side(random.Random("T01q%d/%d" % (ctx.seed, i)), "q%d" % i, h) for i, h in enumerate(pick(ctx.rng, more, ctx.n(450, 6000)))]
    ctx.conform(scns, "TraceTls", corrupt=corrupt)
    onec = tgen(ctx, "GenTls one server", 3, 1, chains=CHAINS[1:])
    morec = tgen(ctx, "GenTls servers", 12, 4, simulate=ctx.n(600, 6000), fan=4, chains=CHAINS[1:])
    scns = [client_side(random.Random("T01c%d/%d" % (ctx.seed, i)), "c%d" % i, h, False) for i, h in enumerate(pick(ctx.rng, onec, ctx.n(150, 1000)))]
    scns += [client_side(random.Random("T01d%d/%d" % (ctx.seed, i)), "d%d" % i, h, i % 2) for i, h in enumerate(pick(ctx.rng, morec, ctx.n(400, 5000)))]
    ctx.conform(scns, "TraceTlsCall", corrupt=corrupt)
    return "model_checking", ["peers of the library are OpenSSL's; certificates are self-signed or have an untrusted issuer",
                              "verifiers are installed and replaced while no handshake is going on; a kept connection stays as it was judged when it was made"]


# ---------------------------------------------------------------------------------- T02
def T02(ctx):
    ctx.build("iqhost")
    impl(ctx, "refines Service", [{}, {"ka": False}], {"workers": 1}, conns=2, opens=("ok", "bad", "stall", "odd"), moves=("fin", "gone"))
    impl(ctx, "refines Service", [{}], {}, conns=1, opens=("ok", "bad"), moves=("fin",), bug="keepbad")
    kinds = [{}, {"ka": False}, {"act": "fault"}, {"exp": "continue"}, {"xml": "broken"}, {"post": False}, {"clen": "bad"}, {"exp": "other", "ka": False},
             {"mk": lambda r, t, g: {"big": r.choice([100, 17000, 70000])}}, {"mk": lambda r, t, g: {"total": r.choice([16384, 16385, 33000, 65537, 70000])}}]
    cfgs = with_exec([{}, {"strict": True}, {"auth": True, "users": [("u", "p")], "anon": True}], EXEC[:3])
    ops = ("part", "fin", "rst", "close", "hold", "spoil", "key", "eintr", "interrupt")
    h1 = gen(ctx, "GenService TLS peer", kinds[:4], cfgs[:2], conns=1, n=6, ops=("part", "fin", "rst", "close", "spoil", "key"), maxreqs=2)
    h1 = pick(ctx.rng, h1, ctx.n(700, 6000))
    h2 = gen(ctx, "GenService TLS peers", kinds, cfgs, conns=4, n=18, ops=ops, opens=("ok", "bad", "stall", "odd"), maxreqs=8, simulate=ctx.n(500, 4000))
    h2 = pick(ctx.rng, h2, ctx.n(1300, 12000))
    # what one connection leaves behind must not reach another that is in the middle of something
    h3 = gen(ctx, "GenService TLS neighbours", kinds[:1], cfgs[:1], conns=2, n=7, ops=("part", "spoil"), maxreqs=2)
    h3 = [h for h in h3 if any(x["o"] == "spoil" and any(y["o"] in ("req", "more") and y["c"] != x["c"] for y in h[i:]) for i, x in enumerate(h))]
    kw = dict(tls=True, sched=sched_any, fds=True, piece=lambda r: r.choice([None, None, "mix", 100]))
    scns = build_all(ctx, h1, kinds[:4], cfgs[:2], "p", cap=lambda r: [1, 100, 1 << 20], **kw) + \
        build_all(ctx, h2, kinds, cfgs, "q", cap=lambda r: [20, 1000, 1 << 20], **kw) + \
        build_all(ctx, pick(ctx.rng, h3, ctx.n(150, 2000)), kinds[:1], cfgs[:1], "n", openopts=lambda r: " cut=%d" % r.choice([20, 100, 250]), **kw)
    ctx.conform(scns, "TraceService", corrupt=srv.corrupt)
    return "model_checking", SASSUME + ["TLS peers are OpenSSL's (TLS 1.2 and 1.3, without renegotiation)"]


CHECKS = {"T01": T01, "T02": T02}
