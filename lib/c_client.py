"""Checks of library clients against scripted servers (ClientCall.tla)."""
import base64, random, re
import xml.etree.ElementTree as ET
import vals
from c_server import tla, pick, sched_serial
from srv import hx, esc, decode_value

ASSUME = ["TCP over loopback delivers bytes in order; servers are scripted by the harness on one side of real sockets",
          "a client object is used by one thread at a time",
          "a server sends nothing on a connection beyond the answers to the requests it got there",
          "time is virtual: waits end when the script lets time pass; a signal that interrupts a wait starts it anew"]


class Rsp:
    """A response a scripted server sends."""
    after = b""      # bytes sent behind it

    def __init__(self, rng, kind, tag, total=None, ka=None, hdrpad=0):
        self.kind, self.v, self.code = kind, "", 0
        self.ka = rng.random() < .7 if ka is None else ka
        head = None
        clen = True
        if kind in ("val", "bigval"):
            self.kind = "val"
            n = 0
            if kind == "bigval":
                n = rng.choice([65536, 65537, 65535, 131072, 200000]) if total is None else 0
            text = tag + "".join(rng.choice("abc <&>é\n") for _ in range(rng.randrange(8))) + "z" * n
            val = rng.choice([("s", text), ("[", [("s", text), vals.value(rng, 2)]), ("{", {"t": ("s", text)})]) if not n else ("s", text)
            self.v = vals.canon(val)
            body = '<?xml version="1.0"?>%s<methodResponse><params><param>%s</param></params></methodResponse>' % (
                rng.choice(["", "\n", "<!-- x\n\ny -->"]), vals.xml(val, rng))
            status = rng.choice(["200 OK", "200", "200 Fine and dandy"])
        elif kind == "fault":
            self.code = rng.choice([0, 1, -1, 42, -32500, 2147483647, -2147483648])
            t = tag + rng.choice(["", " oops", " <&> é"])
            self.v = hx(t)
            m = ["<member><name>faultCode</name><value><%s>%d</%s></value></member>" % ((lambda k: (k, self.code, k))(rng.choice(["int", "i4"]))),
                 "<member><name>faultString</name><value><string>%s</string></value></member>" % esc(t)]
            body = '<?xml version="1.0"?><methodResponse><fault><value><struct>%s</struct></value></fault></methodResponse>' % "".join(m)
            status = "200 OK"
        elif kind == "http":
            self.code = rng.choice([400, 401, 403, 404, 405, 411, 413, 500, 501, 502, 503, 201, 204, 301, 302, 299, 199, 599])
            status = "%d %s" % (self.code, rng.choice(["", "Error", "Some thing bad", "OK"]))
            body = rng.choice(["", "", "<html>no</html>", "x" * 3000,
                               '<?xml version="1.0"?><methodResponse><params><param><value><string>%s</string></value></param></params></methodResponse>' % tag])
            if not body and rng.random() < .6:
                clen = False
        else:
            status, body = "200 OK", '<?xml version="1.0"?><methodResponse><params><param><value><string>%s</string></value></param></params></methodResponse>' % tag
            w = rng.choice(["line", "token", "clen", "colon", "xml", "xml", "xml"])
            if w == "line":
                head = rng.choice(["garbage", "", "HTTP/1.1", "X"])
            elif w == "token":
                status = rng.choice(["OK OK", "abc", "-", "2x0 OK", "two hundred"])
            elif w == "clen":
                clen = rng.choice(["abc", "-1", "12x", "", "1 2", "0x10", "1.5", "99999999999999999999"])
            elif w == "colon":
                clen = None
            else:
                body = rng.choice([
                    "", "junk", body[:-1], body[:len(body) // 2], body + "<", body + "x", body.replace("</value>", ""),
                    "<methodCall><methodName>m</methodName></methodCall>", "<methodResponse/>", "<methodResponse></methodResponse>",
                    "<methodResponse><params/></methodResponse>", "<methodResponse><params></params></methodResponse>",
                    "<methodResponse><params><param><value>1</value></param><param><value>2</value></param></params></methodResponse>",
                    "<methodResponse><params><param/></params></methodResponse>",
                    "<methodResponse><params><param><value><int>x%s</int></value></param></params></methodResponse>" % tag,
                    "<methodResponse><fault/></methodResponse>",
                    "<methodResponse><fault><value><string>x</string></value></fault></methodResponse>",
                    "<methodResponse><fault><value><struct><member><name>faultCode</name><value><int>1</int></value></member></struct></value></fault></methodResponse>",
                    "<methodResponse><fault><value><struct><member><name>faultString</name><value>x</value></member></struct></value></fault></methodResponse>",
                    "<methodResponse><fault><value><struct><member><name>faultCode</name><value>a</value></member>"
                    "<member><name>faultString</name><value>x</value></member></struct></value></fault></methodResponse>",
                    "<methodResponse><params><param><value><bogus>%s</bogus></value></param></params></methodResponse>" % tag,
                    "<html><body>ok</body></html>"])
        b = body.encode()
        eol = rng.choice(["\r\n", "\r\n", "\n"])

        def cs(n):
            return rng.choice([n, n, n.lower(), n.upper()])

        def make(b):
            hs = []
            if clen is True:
                hs.append(cs("Content-Length") + rng2.choice([": ", ":", ":  "]) + str(len(b)))
            elif clen is None:
                hs.append(cs("Content-Length") + ": " + str(len(b)))
                hs.append("nocolonhere")
            elif clen is not False:
                hs.append(cs("Content-Length") + ": " + clen)
            hs += rest
            rng2.shuffle(hs)
            first = head if head is not None else "HTTP/1.%s %s" % (ver, status)
            return (eol.join([first] + hs) + eol + eol).encode()
        rest = []
        ver = rng.choice("01")
        if rng.random() < .8:
            rest.append(cs("Content-Type") + ": " + rng.choice(["text/xml", "text/xml; charset=utf-8"]))
        rest.append(cs("Connection") + ": " + ("keep-alive" if self.ka else "close"))
        if rng.random() < .5:
            rest.append("Server: x/1.0 (a: b)")
        if rng.random() < .5:
            rest.append("Date: Sun, 15 Nov 2026 00:39:38 GMT")
        if hdrpad:
            rest.append("X-Pad: " + "p" * hdrpad)
        seed = rng.random()

        def again(b):
            nonlocal rng2
            rng2 = random.Random(seed)
            st = rng.getstate()
            h = make(b)
            rng.setstate(st)
            return h
        rng2 = None
        h = again(b)
        if total:       # exact size of the whole response
            for _ in range(4):
                d = total - len(h) - len(b)
                if d == 0:
                    break
                if d >= 7:
                    b += b"<!--" + b"c" * (d - 7) + b"-->"
                elif d > 0:
                    b = b[:-3] + b"c" * d + b"-->" if b.endswith(b"-->") else b + b" " * d
                elif b.endswith(b"c-->") or b.endswith(b" "):
                    b = (b[:-3 + d] + b"-->") if b.endswith(b"-->") else b[:d]
                h = again(b)
        if clen is None or head is not None or (clen not in (True, False)):
            pass
        self.hdr, self.bytes = len(h), h + b
        if self.kind == "bad" and clen not in (True, False, None):
            self.bytes = h      # nobody can tell where it would end

    def desc(self):
        return {"len": len(self.bytes), "kind": self.kind, "v": self.v, "code": self.code, "ka": self.ka}


class ReqStream:
    """Splits what a scripted server received into requests."""

    def __init__(self):
        self.buf = b""

    def feed(self, d):
        self.buf += d
        out = []
        while self.buf:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                break
            lines = self.buf[:i].decode("latin1").split("\r\n")
            h = {}
            bad = ""
            m = re.match(r"POST (\S.*) HTTP/1\.[01]$", lines[0])
            if not m:
                bad = "request line"
            for l in lines[1:]:
                x = re.match(r"([A-Za-z0-9!#$%&'*+.^_`|~-]+): ?(.*)$", l)
                if not x or x.group(1).lower() in h:
                    bad = bad or "header line " + l[:60]
                    continue
                h[x.group(1).lower()] = x.group(2)
            if not re.match(r"\d+$", h.get("content-length", "")):
                bad = bad or "length"
            if bad:
                out.append({"e": "badrequest", "why": bad, "d": self.buf[:200].hex()})
                self.buf = b""
                break
            n = int(h["content-length"])
            if len(self.buf) < i + 4 + n:
                break
            body = self.buf[i + 4:i + 4 + n]
            self.buf = self.buf[i + 4 + n:]
            try:
                out.append({"e": "req", "rq": decode_request(m.group(1), h, body)})
            except Exception as ex:
                out.append({"e": "badrequest", "why": "%s %s" % (type(ex).__name__, ex), "d": body[:300].hex(), "h": str(h)[:300]})
        return out


def decode_request(target, h, body):
    if h.get("content-type", "").split(";")[0] != "text/xml":
        raise ValueError("content type")
    conn = h.get("connection", "")
    if conn not in ("keep-alive", "close"):
        raise ValueError("connection")
    auth = "none"
    if "authorization" in h:
        k, t = h["authorization"].split(" ", 1)
        if k.lower() != "basic":
            raise ValueError("scheme")
        raw = base64.b64decode(t, validate=True)
        if base64.b64encode(raw).decode() != t:
            raise ValueError("base64")
        auth = raw.hex()
    r = ET.fromstring(body)
    if r.tag != "methodCall" or [x.tag for x in r] not in (["methodName", "params"], ["methodName"]):
        raise ValueError("structure")
    args = []
    for p in (r.find("params") if r.find("params") is not None else []):
        if p.tag != "param" or len(p) != 1 or p[0].tag != "value":
            raise ValueError("param")
        args.append(decode_value(p[0]))
    return {"target": target.encode("latin1").hex(), "host": h.get("host", "").encode("latin1").hex(), "ka": conn == "keep-alive", "auth": auth,
            "name": hx(r.find("methodName").text or ""), "args": "[" + ",".join(args) + "]"}


def connect_event(c, code, raw):
    """a request for a tunnel; anything else is no event of the specification"""
    head, rest = raw.decode("latin1").split("\r\n\r\n", 1)
    w = head.split("\r\n")[0].split(" ")
    if rest or len(w) != 3 or w[0] != "CONNECT" or w[2] not in ("HTTP/1.0", "HTTP/1.1"):
        return {"e": "badconnect", "c": c, "raw": raw.hex()}
    return {"e": "tunnel", "c": c, "addr": hx(w[1]), "code": code}


class CScn:
    def __init__(self, sid, rng, k=1, tls=False, sched="seed=1", ccap=None, uri="/RPC2", vhost="", cut=None):
        self.sid, self.rng, self.tls = sid, rng, tls
        self.lines, self.notes = [], {}
        self.ncall, self.ids, self.meta = 0, {}, {}
        self.cur = {}      # client -> [Rsp, sent]
        self.nlst = 10
        self.lof = {}
        self.cmd("sched " + sched)
        if tls:
            self.cmd("tlsctx client")
        if ccap:
            self.cmd("ccap %d" % ccap)
        for i in range(1, k + 1):
            self.listen(i, cut)
            self.lof[i] = i
            self.cmd("client %d %s p%d uri=%s%s" % (i, "https" if tls else "http", i, hx(uri), " vhost=" + hx(vhost) if vhost else ""),
                     {"e": "client", "k": i, "l": i, "uri": hx(uri), "lead": "" if uri.startswith("/") else "2f", "vhost": vhost or "127.0.0.1"})

    def cmd(self, line, *notes):
        self.notes[len(self.lines)] = list(notes)
        self.lines.append(line)

    def listen(self, p, cut=None, tun=0):
        self.cmd("listen %d%s%s" % (p, " tun=%d" % tun if tun else " tls=a" if self.tls else "", " cut=%d" % cut if cut else ""), {"e": "listen", "p": p, "s": "up"})

    def run(self, fds=False):
        self.cmd("run")
        if fds:
            self.cmd("fds")

    def set(self, k, what, v=None):
        if what == "ka":
            self.cmd("cset %d ka=%d" % (k, v), {"e": "ka", "k": k, "b": bool(v)})
        elif what == "to":
            self.cmd("cset %d to=%d" % (k, v), {"e": "to", "k": k, "n": v})
        elif what == "auth":
            u, p = v
            self.cmd("cset %d auth=%s:%s" % (k, hx(u), hx(p)), {"e": "auth", "k": k, "a": hx(u + ":" + p) if u else "none"})
        elif what == "proxy":
            p = self.nlst
            self.nlst += 1
            if self.tls:      # a proxy that lets clients through, or not
                self.listen(p, self.rng.choice([None, None, 1, 13]), self.rng.choice([200, 200, 200, 200, 407, 503, 201]) if v is None else v)
            else:
                self.listen(p)
            self.lof[k] = p
            self.cmd("cset %d proxy=p%d" % (k, p), {"e": "proxy", "k": k, "p": p})

    def call(self, k, name="m", args=None, one=False):
        self.ncall += 1
        cid = "q%d" % self.ncall
        self.ids[cid] = k
        if args is None:
            args = [("s", cid)]
        a = "[" + ",".join(vals.canon(x) for x in args) + "]"
        self.cmd("call %d %s %s %s%s" % (k, cid, hx(name), a, " one" if one else ""), {"e": "call", "k": k, "id": cid, "name": hx(name), "args": a})
        return cid

    def ans(self, k, r):
        """a response that is about to be sent to the connection last heard from"""
        self.cur[k] = [r, 0]

    def send(self, k, n):
        r, s = self.cur[k]
        d = r.bytes[s:s + n]
        if not d:
            return
        more = r.after if s + len(d) == len(r.bytes) else b""
        self.cmd("lans %d %s" % (self.lof[k], (d + more).hex()), {"e": "lans", "r": r.desc() if s == 0 else None, "n": len(d), "id": id(r)})
        self.cur[k][1] = s + len(d)

    def end(self, k, how):
        self.cmd("%s %d" % (how, self.lof[k]), {"e": "lend", "how": how})

    # ------------------------------------------------------------------
    def project(self, events, status):
        out = [{"e": "cfg", "sid": self.sid}]
        ports, streams, owner, held, begun = {}, {}, {}, set(), {}
        dead = set()
        todo, act = [], None
        lof = {}
        for line in events:
            w = line.split(" ")
            k = w[0]
            if k == "#":
                todo, mark = [], len(out)
                for e in self.notes.get(int(w[1]), []):
                    if e["e"] in ("lans", "lend"):
                        todo.append(e)
                    elif e["e"] == "client":
                        v = dict(e)
                        v["host"] = hx("%s:%d" % (v.pop("vhost"), ports[e["l"]]))
                        v["tls"], v["addr"] = bool(self.tls), hx("127.0.0.1:%d" % ports[e["l"]])
                        out.append(v)
                    elif e["e"] == "lhold":
                        (held.add if e["b"] else held.discard)(e["p"])
                        for c, p in owner.items():
                            if p == e["p"]:
                                out.append({"e": "hold", "c": c, "b": e["b"]})
                    else:
                        out.append(e)
            elif k == "busy":    # the call before is still in progress
                del out[mark:]
            elif k == "lport":
                ports[int(w[1])] = int(w[2])
            elif k == "lact":
                if w[2] == "-":
                    continue
                c = int(w[2])
                for e in todo:
                    if e["e"] == "lans":
                        if e["r"] is not None or begun.get(c) != e["id"]:
                            r = e["r"] or {"len": 1 << 30, "kind": "bad", "v": "", "code": 0, "ka": False}
                            out.append({"e": "begin", "c": c, "r": r})
                            begun[c] = e["id"]
                        out.append({"e": "send", "c": c, "n": e["n"]})
                    else:
                        h = e["how"]
                        out.append({"e": "end", "c": c, "how": "rst" if h == "lrst" or (h == "lclose" and owner.get(c) in held) else "fin", "gone": h in ("lrst", "lclose")})
                        if h in ("lrst", "lclose"):
                            dead.add(c)
            elif k == "acc":
                c, p = int(w[2]), int(w[1])
                owner[c] = p
                out.append({"e": "acc", "c": c, "p": p})
                if p in held:
                    out.append({"e": "hold", "c": c, "b": True})
            elif k == "rx":
                c = int(w[1])
                out.append({"e": "rx", "c": c})
                for x in streams.setdefault(c, ReqStream()).feed(bytes.fromhex(w[2])):
                    x["c"] = c
                    out.append(x)
            elif k == "tunnel":
                out.append(connect_event(int(w[1]), int(w[2]), bytes.fromhex(w[3])))
            elif k in ("eof", "reset"):
                out.append({"e": "closed", "c": int(w[1])})
            elif k == "ret":
                out.append(self.outcome(w))
            elif k == "quiet":
                hung = [x for x in w[1:] if x.startswith("act.dclient") and x.endswith("=pending")]
                out.append({"e": "hung"} if hung else {"e": "quiet"})
            elif k == "fds":
                out.append({"e": "fds", "n": int(w[1])})
            elif k in ("spin", "deadlock", "watchdog", "badclose", "baduse", "overrelease", "badcmd", "cmdexc", "actexc"):
                out.append({"e": k, "line": line[:200]})
        if status != "exit0":
            out.append({"e": "crash", "status": status})
        return out

    def outcome(self, w):
        cid = w[1]
        o = {"k": "", "v": "", "code": 0}
        if w[2] == "ok":
            o.update(k="val", v=" ".join(w[3:]))
        elif w[2] == "fault":
            o.update(k="fault", code=int(w[3]), v=w[4] if len(w) > 4 else "")
        else:
            cls = w[3]
            o["k"] = {"http": "http", "net": "net", "ssl": "net", "timeout": "timeout"}.get(cls, "exc")
            if cls == "http":
                o["code"] = int(w[4])
        return {"e": "ret", "k": self.ids[cid], "id": cid, "o": o}


def corrupt(trace):
    out = {}
    pos = {}
    for i, e in enumerate(trace):
        pos.setdefault(e["e"], []).append(i)
    good = [i for i in pos.get("ret", []) if trace[i]["o"]["k"] in ("val", "fault")]
    if good:
        i = good[-1]
        e = trace[i]
        out["another value"] = trace[:i] + [dict(e, o=dict(e["o"], v=e["o"]["v"] + "00"))] + trace[i + 1:]
        if any(j > i for j in pos.get("quiet", [])):
            out["call never returns"] = trace[:i] + [x for x in trace[i + 1:] if x["e"] == "quiet"][:1]
        j = [x for x in pos.get("send", []) if x < i]
        if j:
            out["returned before the answer was complete"] = trace[:j[-1]] + [e] + trace[j[-1]:i] + trace[i + 1:]
    if "acc" in pos:
        i = pos["acc"][-1]
        out["a second connection"] = trace[:i + 1] + [dict(trace[i], c=trace[i]["c"] + 500)] + trace[i + 1:]
    if "req" in pos:
        i = pos["req"][-1]
        out["another request"] = trace[:i] + [dict(trace[i], rq=dict(trace[i]["rq"], ka=not trace[i]["rq"]["ka"]))] + trace[i + 1:] \
            if not any(x["e"] == "end" for x in trace[:i]) and not any(x["e"] == "tick" for x in trace[:i]) else None
        if out["another request"] is None:
            del out["another request"]
    if "closed" in pos and "destroy" in pos:
        i = pos["closed"][-1]
        if i > pos["destroy"][-1] and any(j > i for j in pos.get("quiet", [])):
            out["a connection stays open"] = trace[:i] + trace[i + 1:]
    return out


def model(ctx, bugs, kinds=("val", "http"), moves=("ka", "to", "fin", "rst", "down", "tick", "destroy"), calls=2, conns=2, ticks=3):
    def run(name, bug, **o):
        cfg = "CONSTANTS\n MaxCalls = %d\n MaxConns = %d\n MaxTicks = %d\n Kinds = %s\n Moves = %s\n Bug = \"%s\"\nSPECIFICATION Spec\n" \
              "INVARIANTS Rests OneCall\nPROPERTY StepOk\nCHECK_DEADLOCK FALSE\n" % (calls, conns, ticks, tla(set(kinds)), tla(set(moves)), bug)
        ctx.mc(name, "ClientImpl", cfg, **o)
    run("ClientImpl refines ClientCall: %d calls, %d connections, %d s" % (calls, conns, ticks), "none")
    for b in bugs:
        run("negative control " + b, b, expect_violation=True)


def gen(ctx, name, k=1, kinds=("val",), ops=(), n=6, calls=3, simulate=0):
    cfg = "CONSTANTS\n N = %d\n K = %d\n Kinds = %s\n Ops = %s\n MaxCalls = %d\n Fan = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (
        n, k, tla(set(kinds)), tla(set(ops)), calls, 2 if simulate else 0)
    args = ["-simulate", "num=%d" % simulate, "-depth", str(n + 1), "-seed", str(ctx.seed * 7919 + 41)] if simulate else []
    return ctx.gen(name, "GenClient", cfg, args=args, fast=True)


def concretise(rng, sid, hist, k=1, tls=False, fds=True, biga=False, piece=None, ccap=None, cut=None):
    s = CScn(sid, rng, k, tls, sched_serial(rng), ccap=ccap, cut=cut)
    s.run(fds)
    to = {}
    nans = 0
    for st in hist:
        o = st["o"]
        c = st.get("k")
        if o == "call":
            args = None
            if biga and rng.random() < .7:
                args = [("s", "q" + "w" * rng.choice([100, 70000, 3000000]))]
            s.call(c, args=args)
        elif o == "ans":
            nans += 1
            r = Rsp(rng, st["i"], "r%d" % nans)
            s.ans(c, r)
            n = len(r.bytes) if st["n"] == 2 else rng.choice([1, r.hdr - 1, r.hdr, r.hdr + 1, len(r.bytes) - 1, rng.randrange(1, len(r.bytes))])
            n = max(1, min(n, len(r.bytes) - (st["n"] == 1)))
            pieces(rng, s, c, n, piece)
        elif o == "rest":
            r, sent = s.cur[c]
            pieces(rng, s, c, len(r.bytes) - sent, piece)
        elif o in ("lfin", "lclose", "lrst"):
            s.end(c, o)
        elif o in ("ldown", "lup"):
            s.cmd("%s %d" % (o, s.lof[c]), {"e": "listen", "p": s.lof[c], "s": "down" if o == "ldown" else "up"})
        elif o in ("conhang", "congo"):
            s.cmd(o, *[{"e": "listen", "p": p, "s": "hang" if o == "conhang" else "up"} for p in {1} | set(s.lof.values())])
        elif o in ("lpause", "lresume"):
            s.cmd("%s %d" % (o, s.lof[c]), {"e": "lhold", "p": s.lof[c], "b": o == "lpause"})
        elif o == "tick":
            n = max(to.values() or [1]) * 1000
            n = rng.choice([1, n // 2, n - 1]) if st["n"] == "short" else rng.choice([n, n + 1, n * 3])
            s.cmd("tick %d" % n, {"e": "tick", "n": n})
        elif o == "ka":
            s.set(c, "ka", int(st["b"]))
        elif o == "to":
            to[c] = rng.choice([1, 2, 30])
            s.set(c, "to", to[c] if st["b"] else -1)
            if not st["b"]:
                del to[c]
        elif o == "auth":
            s.set(c, "auth", rng.choice([("", ""), ("u", "p"), ("joe", ""), ("", "p")]))
        elif o == "proxy":
            s.set(c, "proxy")
        elif o == "dclient":
            s.cmd("dclient %d" % c, {"e": "destroy", "k": c})
        elif o == "eintr":
            s.cmd("eintr 1", {"e": "signal"})
        s.run(fds)
    return s


def pieces(rng, s, k, n, piece):
    while n > 0:
        p = n if piece is None else 1 if piece == "one" else rng.choice([1, 2, 3, 17, 200, 4096, 65535, 65536, 65537, n])
        p = min(p, n)
        s.send(k, p)
        n -= p
        if n > 0:
            s.run()


def finale(s, rng, hist, k=1, fds=True):
    """whatever happened, the clients work once their servers do"""
    down, hang, held, dead = set(), False, set(), set()
    for st in hist:
        o = st["o"]
        if o == "ldown":
            down.add(st["k"])
        elif o == "lup":
            down.discard(st["k"])
        elif o in ("conhang", "congo"):
            hang = o == "conhang"
        elif o == "lpause":
            held.add(st["k"])
        elif o == "lresume":
            held.discard(st["k"])
        elif o == "dclient":
            dead.add(st["k"])
    if hang:
        s.cmd("congo", *[{"e": "listen", "p": p, "s": "up"} for p in {1} | set(s.lof.values())])
        s.run(fds)
    for c in range(1, k + 1):
        if c in held:
            s.cmd("lresume %d" % s.lof[c], {"e": "lhold", "p": s.lof[c], "b": False})
        if c in down:
            s.cmd("lup %d" % s.lof[c], {"e": "listen", "p": s.lof[c], "s": "up"})
        s.run(fds)
        if c in dead:
            continue
        s.end(c, "lrst")
        s.run(fds)
        for j in range(2):
            s.call(c)
            s.run(fds)
            s.ans(c, Rsp(rng, "val", "end%d%d" % (c, j), ka=True))
            pieces(rng, s, c, 1 << 30, None)
            s.run(fds)
        s.cmd("dclient %d" % c, {"e": "destroy", "k": c})
        s.run(fds)


ALL = ("part", "late", "lfin", "lclose", "lrst", "tick", "ka", "to", "down", "hang", "hold", "auth", "proxy", "destroy", "eintr")


def many(ctx, prefix, hists, k=1, **kw):
    out = []
    for i, h in enumerate(hists):
        rng = random.Random("%s/%s/%d/%d" % (ctx.pid, prefix, ctx.seed, i))
        o = {x: (y(rng) if callable(y) else y) for x, y in kw.items()}
        s = concretise(rng, "%s%d" % (prefix, i), h, k, **o)
        finale(s, rng, h, k)
        out.append(s)
    return out


def K01(ctx):
    """calls get their own answers, whatever happened before"""
    ctx.build("iqhost")
    if ctx.thorough:
        model(ctx, ["stale", "trunc"], calls=3, conns=3)
    else:
        model(ctx, ["stale", "trunc"], kinds=("val",), moves=("ka", "to", "fin", "tick"), ticks=2)
    ops = ("part", "late", "lfin", "lclose", "lrst", "tick", "ka", "to")
    h = gen(ctx, "GenClient: all behaviours of 6 steps", kinds=("val", "http", "bad"), ops=ops, n=6, calls=2)
    # the interesting ones have more than one call
    h = [x for x in h if sum(y["o"] == "call" for y in x) > 1]
    scns = many(ctx, "a", pick(ctx.rng, h, ctx.n(1200, 8000)))
    kinds = ("val", "fault", "http", "bad", "bigval")
    h = gen(ctx, "GenClient: long behaviours", kinds=kinds, ops=ALL, n=22, calls=8, simulate=ctx.n(1500, 10000))
    scns += many(ctx, "b", h, piece=lambda r: r.choice([None, None, "mix"]), tls=lambda r: r.random() < .2)
    h = gen(ctx, "GenClient: two clients", k=2, kinds=kinds, ops=tuple(x for x in ALL if x != "hang"), n=24, calls=8, simulate=ctx.n(700, 5000))
    scns += many(ctx, "c", h, k=2)
    ctx.conform(scns, "TraceClient", corrupt=corrupt)
    return "model_checking", ASSUME


def cuts_of(ctx, shapes, n):
    mod = "---- MODULE Gen ----\nEXTENDS GenCuts\nShapesV == %s\n====\n" % tla(shapes)
    return ctx.gen("GenCuts", "Gen", "CONSTANTS\n Shapes <- ShapesV\n MaxCuts = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % n,
                   modules={"Gen": mod}, fast=True)


SIZES = [65535, 65536, 65537, 131071, 131072, 131073, 196608, 400]


def K02(ctx):
    """outcomes do not depend on how bytes travel"""
    ctx.build("iqhost")
    model(ctx, ["trunc"], kinds=("val", "http"), moves=("ka", "fin"), calls=ctx.n(2, 3), conns=ctx.n(2, 3))
    rng = random.Random("K02/%d" % ctx.seed)
    kinds = ["val", "fault", "http", "bad"]

    def mk(i, j):
        return Rsp(random.Random("K02r/%d/%d" % (ctx.seed, i)), kinds[i % 4], "r%d" % i)
    n = ctx.n(12, 40)
    shapes = [(mk(i, 0).hdr, len(mk(i, 0).bytes) - mk(i, 0).hdr) for i in range(n)]
    cuts = cuts_of(ctx, shapes, ctx.n(3, 4))
    two = [c for c in cuts if len(c[1]) <= 1]
    more = pick(rng, [c for c in cuts if len(c[1]) > 1], ctx.n(3000, 30000))
    cuts = two + more
    rng.shuffle(cuts)
    scns, per = [], 10
    for b in range(0, len(cuts), per):
        i = b // per
        rs = random.Random("K02s/%d/%d" % (ctx.seed, i))
        tls = rs.random() < .25
        s = CScn("c%d" % i, rs, 1, tls, sched_serial(rs), cut=rs.choice([None, 1, 7, 100]) if tls else None)
        s.set(1, "ka", 1)
        for sh, cs in cuts[b:b + per]:
            r = mk(sh - 1, 0)
            s.call(1)
            s.run()
            s.ans(1, r)
            last = 0
            for p in cs + [len(r.bytes)]:
                s.send(1, p - last)
                s.run()
                last = p
        scns.append(s)
    # sizes around the buffers, and requests written in small pieces
    for i in range(ctx.n(300, 3000)):
        rs = random.Random("K02t/%d/%d" % (ctx.seed, i))
        tls = i % 3 == 2
        cap = rs.choice([None, 1, 2, 3, 16, 100, 1000, 65536])
        s = CScn("t%d" % i, rs, 1, tls, sched_serial(rs), ccap=cap, cut=rs.choice([None, None, 1000]) if tls else None)
        ka = rs.randrange(2)
        s.set(1, "ka", ka)
        if rs.random() < .3:
            s.set(1, "to", 30)
        for j in range(rs.randrange(1, 4)):
            big = rs.choice([0, 10, 1000, 16384, 65536, 300000])
            if cap:
                big = min(big, cap * 1500)
            s.call(1, args=[("s", "q%d" % j + "w" * big), vals.value(rs, 2)])
            if rs.random() < .3 and big > 60000:
                s.cmd("lpause 1", {"e": "lhold", "p": 1, "b": True})
                s.run()
                s.cmd("lresume 1", {"e": "lhold", "p": 1, "b": False})
            s.run()
            k = rs.choice(["val", "val", "fault", "http"])
            total = rs.choice(SIZES) + rs.choice([0, 0, 0, 1, -1])
            r = Rsp(rs, k, "r%d" % j, total=total if k != "http" and total > 1000 else None, hdrpad=rs.choice([0, 0, 0, 65000, 65536, 70000]))
            if not ka and rs.random() < .4:      # what follows the declared length is no part of it
                r.after = rs.choice([b"\r\n", b"\n", b"x", b"</methodResponse>", b"HTTP/1.1 500 X\r\n\r\n", b"\0" * 300])
            s.ans(1, r)
            pieces(rs, s, 1, len(r.bytes), rs.choice([None, "mix"]))
            s.run()
        scns.append(s)
    ctx.conform(scns, "TraceClient", corrupt=corrupt)
    return "model_checking", ASSUME


def K03(ctx):
    """failures are told apart, and a set timeout always fires"""
    ctx.build("iqhost")
    if ctx.thorough:
        model(ctx, ["deaf", "trunc"], kinds=("val", "http", "bad"), calls=2, conns=2, ticks=4)
    else:
        model(ctx, ["deaf", "trunc"], kinds=("val", "bad"), moves=("to", "fin", "rst", "down", "tick"), ticks=3, calls=2, conns=2)
    scns = []
    # every point at which a server stops
    for i in range(ctx.n(6, 24)):
        kind = ["val", "fault", "http", "bad", "val", "fault"][i % 6]
        L = len(Rsp(random.Random("K03r/%d/%d" % (ctx.seed, i)), kind, "r").bytes)
        pts = list(range(0, L + 1))
        if L > 500:
            pts = sorted(set(list(range(0, 250)) + random.Random("K03p/%d" % i).sample(range(L), 200) + [L - 1, L]))
        ends = ["lfin", "lclose", "lrst", "silent", "silence"]
        todo = [(p, e) for p in pts for e in ends if ctx.thorough or (p * 7 + i + ends.index(e)) % 2 == 0 or p in (0, 1, L - 1, L)]
        for b in range(0, len(todo), 8):
            rs = random.Random("K03/%d/%d/%d" % (ctx.seed, i, b))
            tls = rs.random() < .2
            s = CScn("p%d.%d" % (i, b), rs, 1, tls, sched_serial(rs))
            s.set(1, "ka", rs.randrange(2))
            to = rs.choice([1, 2, 7])
            s.set(1, "to", to)
            for p, e in todo[b:b + 8]:
                r = Rsp(random.Random("K03r/%d/%d" % (ctx.seed, i)), kind, "r")
                s.call(1)
                s.run(True)
                s.ans(1, r)
                s.send(1, p)
                s.run(True)
                if e == "silent":
                    for t in rs.choice([[to * 1000], [to * 1000 - 1, 1], [1, to * 1000 - 1]]):
                        s.cmd("tick %d" % t, {"e": "tick", "n": t})
                        s.run(True)
                elif e == "silence":    # in between, then it goes on
                    t = to * 1000 - 1
                    s.cmd("tick %d" % t, {"e": "tick", "n": t})
                    s.run(True)
                    pieces(rs, s, 1, len(r.bytes) - p, None)
                    s.run(True)
                else:
                    s.end(1, e)
                    s.run(True)
                s.end(1, "lrst")
                s.run(True)
            finale(s, rs, [])
            scns.append(s)
    ops = ("part", "lfin", "lclose", "lrst", "tick", "to", "down", "hang", "hold", "eintr", "ka")
    kinds = ("val", "fault", "http", "bad")
    h = gen(ctx, "GenClient: all behaviours of 5 steps", kinds=("val", "bad"), ops=("lfin", "lrst", "tick", "to", "down", "hang", "hold", "part"), n=5, calls=2)
    scns += many(ctx, "a", pick(ctx.rng, h, ctx.n(700, 8000)), biga=lambda r: r.random() < .3)
    h = gen(ctx, "GenClient: long behaviours", kinds=kinds, ops=ops, n=18, calls=6, simulate=ctx.n(500, 5000))
    scns += many(ctx, "b", h, biga=lambda r: r.random() < .3, tls=lambda r: r.random() < .2)
    ctx.conform(scns, "TraceClient", corrupt=corrupt)
    return "model_checking", ASSUME


def K04(ctx):
    """connections are opened, kept and closed as configured"""
    ctx.build("iqhost")
    bugs = ["noclose", "offkeeps", "fresh"]
    if ctx.thorough:
        model(ctx, bugs, calls=3, conns=3)
    else:
        model(ctx, bugs, kinds=("val", "http"), moves=("ka", "fin", "down", "destroy"))
    model(ctx, ["retunnel", "direct", "pushy"], kinds=("val",), moves=("ka", "fin", "rst", "destroy", "tunnel"), calls=ctx.n(2, 3), conns=ctx.n(2, 3))
    h = gen(ctx, "GenClient: all behaviours of 6 steps", kinds=("val", "http"), ops=("ka", "lfin", "lrst", "destroy", "proxy", "down"), n=6, calls=3)
    scns = many(ctx, "a", pick(ctx.rng, h, ctx.n(1500, 10000)))
    h = gen(ctx, "GenClient: long behaviours", kinds=("val", "fault", "http", "bad"), ops=ALL, n=22, calls=8, simulate=ctx.n(1200, 8000))
    scns += many(ctx, "b", h, tls=lambda r: r.random() < .2)
    h = gen(ctx, "GenClient: two clients", k=2, kinds=("val", "fault", "http"), ops=tuple(x for x in ALL if x != "hang"), n=24, calls=9, simulate=ctx.n(700, 5000))
    scns += many(ctx, "c", h, k=2)
    ctx.conform(scns, "TraceClient", corrupt=corrupt)
    return "model_checking", ASSUME


URIS = ["/", "/RPC2", "RPC2", "/a%20b?x=1&y=<z>", "*", "/" + "u" * 3000, "http://x/y", "//", "/%", "a/b/../c", "/;p=1#f"]
HOSTS = ["", "example.org", "h", "xn--e1afmkfd.test", "10.0.0.1", "H" * 200]
USERS = ["", "u", "joe", "u" * 40, "u" * 200, "user@dom", "né", "a b", "%"]
PWS = ["", "p", "a:b", ":", "p" * 58, "x" * 500, "пароль", " ", "=="]
NAMES = ["m", "a.b", "system.listMethods", "<x>&", "é", "n" * 2000, "with space", "A_1:2/3"]


def K05(ctx):
    """what is sent is what was configured"""
    ctx.build("iqhost")
    model(ctx, ["offkeeps"], kinds=("val", "http"), moves=("ka", "fin", "down"), calls=ctx.n(2, 3), conns=ctx.n(2, 3))
    scns = []
    h = gen(ctx, "GenClient: options and calls", kinds=("val", "http"), ops=("ka", "auth", "proxy", "to", "lfin"), n=14, calls=6, simulate=ctx.n(4000, 20000))
    for i, x in enumerate(h):
        rs = random.Random("K05/%d/%d" % (ctx.seed, i))
        tls = rs.random() < .15
        uri = URIS[i % len(URIS)]
        s = CScn("o%d" % i, rs, 1, tls, sched_serial(rs), uri=uri, vhost=HOSTS[i // len(URIS) % len(HOSTS)], ccap=rs.choice([None, None, 7, 100]))
        n = 0
        for st in x:
            o = st["o"]
            if o == "call":
                a = [vals.value(rs, 3) for _ in range(rs.randrange(4))]
                s.call(1, rs.choice(NAMES), a, one=len(a) == 1 and rs.random() < .5)
            elif o == "ans":
                n += 1
                s.ans(1, Rsp(rs, st["i"], "r%d" % n))
                pieces(rs, s, 1, 1 << 30, None)
            elif o == "ka":
                s.set(1, "ka", int(st["b"]))
            elif o == "to":
                s.set(1, "to", rs.choice([5, 100]) if st["b"] else -1)
            elif o == "auth":
                s.set(1, "auth", (rs.choice(USERS), rs.choice(PWS)))
            elif o == "proxy":
                s.set(1, "proxy")
            elif o == "lfin":
                s.end(1, o)
            s.run()
        scns.append(s)
    ctx.conform(scns, "TraceClient", corrupt=corrupt)
    return "model_checking", ASSUME


CHECKS = {"K01": K01, "K02": K02, "K03": K03, "K04": K04, "K05": K05}
