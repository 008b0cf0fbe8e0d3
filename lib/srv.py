"""Server side: concretising abstract requests, scripting scenarios, projecting events."""
import base64, re
import xml.etree.ElementTree as ET

FEAT = dict(post=True, badline=False, clen="ok", exp="no", ctype="xml", ka=True, xml="call", known=True,
            cred="none", user="", pw="", act="ok", acode=0, atext="", stops=False, blocks=False)


def hx(s):
    if isinstance(s, str):
        s = s.encode("utf-8")
    return s.hex()


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def big_text(tag, n):
    return tag + ":" + "".join(chr(97 + (i * 7 + i // 251) % 26) for i in range(n))


class Req:
    """A concrete request.  Options beyond the features of Http.tla: big (result size), total (exact size of the
    whole request), pad (body padding), eol, auth (literal Authorization value), headers (extra), raw*."""
    after = b""      # bytes sent behind it

    def __init__(self, rng, tag, **o):
        f = dict(FEAT)
        f.update({k: v for k, v in o.items() if k in FEAT})
        self.f, self.tag, self.o = f, tag, o
        act = "tag"
        self.expect = "s" + hx(tag)
        if f["blocks"]:
            act = "block"
        if o.get("big"):
            act = "big:%d" % o["big"]
            self.expect = "s" + hx(big_text(tag, o["big"]))
        if f["stops"]:
            act = "stop"
        if f["act"] == "fault":
            act = "fault:%d:%s" % (f["acode"], hx(f["atext"]))
        elif f["act"] == "exc":
            act = o.get("exc", "stdexc")
            if act in ("stdexc", "logic", "iqexc"):
                act = "%s:%d:%s" % (act, f["acode"], hx(f["atext"]))
        if o.get("rawact"):
            act = o["rawact"]
        extra = o.get("params", [])
        if act == "echo":
            self.expect = "[" + ",".join(["s" + hx(tag), "s" + hx(act)] + [p[0] for p in extra]) + "]"
        self.args = "[" + ",".join(["s" + hx(tag), "s" + hx(act)] + [p[0] for p in extra]) + "]"
        mname = o.get("method", "m" if f["known"] else "nosuch")
        self.mname = mname

        def body(pad):
            if "rawbody" in o:
                return o["rawbody"]
            b = '<?xml version="1.0"?>' if rng.random() < .7 else ""
            b += "<methodCall><methodName>%s</methodName><params>" % esc(mname)
            for x in [tag, act]:
                b += "<param><value><string>%s</string></value></param>" % esc(x)
            for p in extra:
                b += "<param><value>%s</value></param>" % p[1]
            b += "</params>"
            if f["xml"] == "structure":
                b += rng.choice(["<bogus/>", "<methodName>m</methodName>", "<value/>"])
            b += "</methodCall>"
            b = b.encode("utf-8")
            if f["xml"] == "broken":
                b = rng.choice([b[:-1], b[:len(b) // 2], b + b"<", b + b"junk", b.replace(b"</params>", b"</param>"), b"", b"junk"])
            if pad:
                assert pad >= 7
                c = b"<!--" + bytes(rng.choice(b"abc \n\r") for _ in range(pad - 7)) + b"-->"
                b = b + c
            return b

        self.st = rng.getstate()
        b = body(o.get("pad", 0))
        h = self.header(rng, len(b))
        if "total" in o:   # exact total size by padding the body (or a header if that cannot work)
            for _ in range(3):
                need = o["total"] - len(h) - len(b)
                if need == 0:
                    break
                if need >= 7 and f["xml"] == "call":
                    b += b"<!--" + bytes(rng.choice(b"abc \n") for _ in range(need - 7)) + b"-->"
                    h = self.header(rng, len(b))
                    d = o["total"] - len(h) - len(b)
                    if d and b.endswith(b"-->") :
                        b = b[:-3] + b"y" * max(0, d) + b"-->"
                        if d < 0:
                            b = b[:d - 3] + b"-->"
                        h = self.header(rng, len(b))
                elif need > 0:
                    o["fill"] = o.get("fill", 0) + need
                    h = self.header(rng, len(b))
                else:
                    raise ValueError("request cannot be made that small")
            assert len(h) + len(b) == o["total"], (len(h) + len(b), o["total"])
        if f["clen"] != "ok" or (f["badline"] and o.get("nobody")):
            b = b"" if rng.random() < .7 else b
        self.hdr, self.body = h, b
        self.bytes = h + b

    def header(self, rng, blen):
        f, o = self.f, self.o
        rng2 = rng.__class__()
        rng2.setstate(self.st)
        rng = rng2
        eol = o.get("eol") or rng.choice(["\r\n", "\r\n", "\n"])

        def cs(n):
            r = rng.random()
            return n if r < .5 else n.lower() if r < .8 else n.upper()
        line = ("POST" if f["post"] else rng.choice(["GET", "PUT", "HEAD", "DELETE", "post", "POSTS", "OPTIONS"])) + " " + \
            o.get("uri", "/RPC2") + " HTTP/1." + rng.choice("01")
        hs = []
        if f["clen"] == "ok":
            hs.append((cs("Content-Length"), rng.choice(["%d", "%d", "%d", "0%d"]) % blen))
        elif f["clen"] == "bad":
            hs.append((cs("Content-Length"), rng.choice(["abc", "-1", "12x", "", "99999999999999", "1 2", "+4", "0x10", "1.5"])))
        if f["exp"] == "continue":
            hs.append((cs("Expect"), rng.choice(["100-continue", "100-Continue"])))
        elif f["exp"] == "other":
            hs.append((cs("Expect"), rng.choice(["200-ok", "x", "continue", "99-continue"])))
        if f["ctype"] == "xml":
            if not (o.get("nctype") or rng.random() < .15):
                hs.append((cs("Content-Type"), rng.choice(["text/xml", "Text/XML", "text/xml; charset=utf-8"])))
        else:
            hs.append((cs("Content-Type"), rng.choice(["text/plain", "application/xml", "xml", "text/html", "application/json"])))
        if f["ka"]:
            hs.append((cs("Connection"), "keep-alive"))
        elif rng.random() < .6:
            hs.append((cs("Connection"), rng.choice(["close", "Close", "upgrade"])))
        if "auth" in o:
            hs.append((cs("Authorization"), o["auth"]))
        elif f["cred"] == "basic":
            hs.append((cs("Authorization"), rng.choice(["Basic ", "basic ", "BASIC "]) +
                       base64.b64encode((f["user"] + ":" + f["pw"]).encode()).decode()))
        if rng.random() < .6:
            hs.append((cs("Host"), "localhost:80"))
        if rng.random() < .4:
            hs.append((cs("User-Agent"), "a:b c"))
        if rng.random() < .3 and not o.get("nox"):
            hs.append((cs("X-Extra"), "v:" + "w" * rng.randrange(30)))
        hs += o.get("headers", [])
        if o.get("fill"):
            pass
        rng.shuffle(hs)
        lines = [line] + [n + rng.choice([": ", ":", ":  ", " : "]) + v for n, v in hs]
        if f["badline"]:
            lines.insert(rng.randrange(1, len(lines) + 1), rng.choice(["nocolonhere", "Content-Length 5", "=x="]))
        if o.get("hpad"):
            lines.append("X-Pad: " + "p" * o["hpad"])
        if o.get("fill"):
            lines[0] += "x" * o["fill"]
        return (eol.join(lines) + eol + eol).encode()

    def desc(self):
        f = self.f
        return {"post": f["post"], "badline": f["badline"], "clen": f["clen"], "exp": f["exp"], "ctype": f["ctype"],
                "ka": f["ka"], "hdr": len(self.hdr), "body": len(self.body), "xml": f["xml"], "known": f["known"],
                "cred": f["cred"], "user": hx(f["user"]), "pass": hx(f["pw"]), "tag": self.tag, "act": f["act"],
                "acode": f["acode"], "atext": hx(f["atext"]) if f["act"] != "ok" and f["atext"] != "*" else ("*" if f["act"] != "ok" else ""),
                "stops": f["stops"]}


def decode_value(e):
    """<value> element -> canonical text (the inverse of the library's writer)."""
    kids = list(e)
    if not kids:
        return "s" + hx(e.text or "")
    k = kids[0]
    t = k.tag
    if t == "string":
        return "s" + hx(k.text or "")
    if t in ("i4", "int"):
        return "i%d" % int(k.text)
    if t == "i8":
        return "l%d" % int(k.text)
    if t == "boolean":
        return "T" if k.text == "1" else "F"
    if t == "nil":
        return "n"
    if t == "double":
        import struct
        return "d%016x" % struct.unpack(">Q", struct.pack(">d", float(k.text)))[0]
    if t == "base64":
        return "b" + base64.b64decode(k.text or "").hex()
    if t == "dateTime.iso8601":
        return "D" + k.text
    if t == "array":
        return "[" + ",".join(decode_value(v) for v in k.find("data")) + "]"
    if t == "struct":
        m = {}
        for x in k:
            m[(x.find("name").text or "").encode()] = decode_value(x.find("value"))
        return "{" + ",".join(hx(n) + "=" + m[n] for n in sorted(m)) + "}"
    raise ValueError(t)


def decode_response(body):
    """-> ("ok", canonical) | ("fault", code, text)"""
    r = ET.fromstring(body)
    if r.tag != "methodResponse":
        raise ValueError(r.tag)
    if r.find("fault") is not None:
        s = r.find("fault").find("value").find("struct")
        d = {m.find("name").text: m.find("value") for m in s}
        if set(d) != {"faultCode", "faultString"}:
            raise ValueError("fault")
        code = int(decode_value(d["faultCode"])[1:])
        txt = decode_value(d["faultString"])
        return ("fault", code, txt[1:])
    ps = r.find("params")
    if len(ps) != 1:
        raise ValueError("params")
    return ("ok", decode_value(ps[0].find("value")))


class HttpStream:
    """Splits what a peer received into responses."""

    def __init__(self):
        self.buf = b""

    def feed(self, data):
        self.buf += data
        out = []
        while self.buf:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                break
            lines = self.buf[:i].decode("latin1").split("\r\n")
            m = re.match(r"HTTP/1\.[01] (\d\d\d)(?: .*)?$", lines[0])
            if not m:
                out.append(("garbage", self.buf[:60]))
                self.buf = b""
                break
            code = int(m.group(1))
            if code == 100:
                self.buf = self.buf[i + 4:]
                out.append(("interim",))
                continue
            h = {}
            bad = False
            for l in lines[1:]:
                if ":" not in l:
                    bad = True
                    break
                n, v = l.split(":", 1)
                h[n.strip().lower()] = v.strip()
            if bad or not h.get("content-length", "").isdigit():
                out.append(("garbage", self.buf[:60]))
                self.buf = b""
                break
            n = int(h["content-length"])
            if len(self.buf) < i + 4 + n:
                break
            body = self.buf[i + 4:i + 4 + n]
            self.buf = self.buf[i + 4 + n:]
            out.append(("rsp", code, h, body))
        return out


class Scn:
    """One scenario: script lines plus the abstract events of the peers."""

    def __init__(self, sid, cfg=None, srv_opts="", tls=False):
        self.sid = sid
        self.lines, self.notes = [], {}
        self.cfg = dict(max=0, strict=False, auth=False, anon=False, users=[], workers=0, fwmsg=False)
        self.cfg.update(cfg or {})
        self.reqs = {}      # tag -> Req
        self.cur = {}       # conn -> [Req, sent]
        self.cls = {}
        self.tls = tls
        self.fwtext = None
        self.srv_opts = srv_opts
        self.want_fds = self.want_objs = self.want_peer = False
        self.meta = {}

    def cmd(self, line, *notes):
        n = len(self.lines)
        self.lines.append(line)
        if notes:
            self.notes[n] = list(notes)

    def server(self, sched="seed=1", fw=None, start=True):
        c = self.cfg
        self.cmd("sched " + sched)
        if self.tls:
            self.cmd("tlsctx server cert=a" if self.tls is True else "tlsctx " + self.tls)
        o = "exec=" + ("serial" if not c["workers"] else str(c["workers"]))
        if c["max"]:
            o += " max=%d" % c["max"]
        if c["strict"]:
            o += " strict=1"
        if c["auth"]:
            o += " auth=" + (",".join(u + ":" + p for u, p in c["users"]) or "-")
            if c["anon"]:
                o += " anon=1"
        if fw is not None:
            o += " fw=" + (fw if fw == "default" else hx(fw))
            self.fwtext = fw
        if self.tls:
            o += " tls=1"
        self.cmd("server A " + o + " " + self.srv_opts)
        if start:
            self.work()

    def work(self):
        self.cmd("work A", {"e": "start"})

    def open(self, c, cls="ok", opts=""):
        self.cls[c] = cls
        o = opts
        if cls == "denied":
            o += " deny"
        if self.tls and "notls" not in o:
            o += " tls=1" if "tls" not in o else ""
        self.cmd("open %d A %s" % (c, o.replace("notls", "").strip()), {"e": "open", "c": c, "cls": cls})

    def req(self, c, r, n=None):
        self.reqs[r.tag] = r
        r.conn = c
        self.cur[c] = [r, 0]
        n = len(r.bytes) if n is None else n
        self.notes.setdefault(len(self.lines), []).append({"e": "req", "c": c, "r": r.desc()})
        if n:
            self.send(c, n)
        else:
            self.cmd("mark req")

    def send(self, c, n):
        """send the next n bytes of the current request"""
        r, s = self.cur[c]
        d = r.bytes[s:s + n]
        self.cur[c][1] = s + len(d)
        if d:
            k = len(self.lines)
            more = r.after if self.cur[c][1] == len(r.bytes) else b""
            self.lines.append("tx %d %s" % (c, (d + more).hex()))
            self.notes.setdefault(k, []).append({"e": "tx", "c": c, "n": len(d)})

    def left(self, c):
        r, s = self.cur[c]
        return len(r.bytes) - s

    def fin(self, c):
        self.cmd("fin %d" % c, {"e": "fin", "c": c})

    def gone(self, c, how="rst"):
        self.cmd("%s %d" % (how, c), {"e": "gone", "c": c})

    def hold(self, c, h):
        room = (0, 40, 0, 700, 5000)[(len(self.lines) + c) % 5] if h else -1      # what the peer still takes
        self.cmd("cap %d %d %d" % (c, -1, room), {"e": "hold", "c": c, "h": h})

    def run(self):
        self.cmd("run")

    def fds(self):
        self.cmd("fds")

    def stop(self):
        self.cmd("stop A", {"e": "stop"})

    # ------------------------------------------------------------------ projection
    def cfg_event(self):
        e = {"e": "cfg", "sid": self.sid}
        e.update(self.cfg)
        return e

    def project(self, events, status):
        out = [self.cfg_event()]
        streams, fwbuf = {}, {}
        gone, dead = set(), set()
        pend_open = {}
        stopped, wait, shut, cut = False, set(), set(), False
        notified = set()
        ports = {}
        for line in events:
            w = line.split(" ")
            k = w[0]
            if cut and k not in ("workexc", "spin", "deadlock", "watchdog", "badclose", "baduse", "overrelease", "badcmd", "cmdexc"):
                continue
            if k == "#":
                for e in self.notes.get(int(w[1]), []):
                    if e.get("c") in dead:
                        continue
                    if e["e"] == "req" and stopped:
                        # the loop has ended at a moment the generator cannot know: nobody sends on a
                        # connection that is closed, or a request before the one before is answered
                        if e["c"] in shut:
                            dead.add(e["c"])
                            continue
                        if e["c"] in wait:
                            cut = True
                            break
                    if e["e"] == "req":
                        wait.add(e["c"])
                    if e["e"] == "gone":
                        gone.add(e["c"])
                    out.append(e)
            elif k == "rx":
                c = int(w[1])
                d = bytes.fromhex(w[2])
                if c in gone:
                    continue
                if self.cls.get(c) == "denied":
                    fwbuf[c] = fwbuf.get(c, b"") + d
                    continue
                if self.cls.get(c) in ("bad", "stall", "odd"):
                    if self.tls and not d.startswith(b"HTTP"):
                        continue
                    out.append({"e": "unexpected", "c": c, "d": d[:40].hex()})
                    continue
                for p in streams.setdefault(c, HttpStream()).feed(d):
                    out.append(self.rsp_event(c, p))
                    if p[0] != "interim":
                        wait.discard(c)
            elif k == "tlsclose":
                notified.add(int(w[1]))
            elif k in ("eof", "reset"):
                c = int(w[1])
                if c in gone or c in dead:
                    continue
                if self.cls.get(c) == "denied":
                    got = fwbuf.get(c, b"")
                    want = self.fwmsg_bytes()
                    if got and self.fw_ok(got):
                        out.append({"e": "fwmsg", "c": c})
                    elif got:
                        out.append({"e": "unexpected", "c": c, "d": got[:80].hex()})
                elif c in streams and streams[c].buf:
                    out.append({"e": "partial", "c": c, "d": streams[c].buf[:80].hex()})
                bare = self.tls and k == "eof" and self.cls.get(c) == "ok" and c not in notified
                out.append({"e": "close", "c": c, "how": "bare" if bare else k})
                shut.add(c)
            elif k == "exec":
                m = re.match(r"exec (\S+) name=(\S*) src=(\S*) auth=(\S*) authd=(\d) xh=(\S*) port=(\d+) args=(.*)$", line)
                tag = m.group(1)
                r = self.reqs.get(tag)
                if r is None or m.group(8) != r.args or bytes.fromhex(m.group(2)).decode() != r.mname:
                    out.append({"e": "badexec", "tag": tag, "args": m.group(8)[:200], "m": m.group(2)})
                elif self.want_peer and ports.get(m.group(7)) != r.conn:
                    out.append({"e": "badpeer", "tag": tag, "c": r.conn, "seen": ports.get(m.group(7), -1)})
                elif (m.group(5) == "1") != (m.group(4) != ""):
                    out.append({"e": "badauthd", "tag": tag})
                else:
                    out.append(dict(self.exec_more(tag), e="exec", tag=tag, name=m.group(4)))
            elif k == "verify":
                out.append(self.verify_event(w))
            elif k == "done":
                out.append({"e": "done", "tag": w[1]})
            elif k in ("stopbeg", "stopend"):
                out.append({"e": k, "x": "s" + w[1]})
            elif k == "busy":    # the loop the generator takes for stopped is not
                while out.pop()["e"] != "start":
                    pass
            elif k == "restart":
                out.append({"e": "start"})
            elif k in ("poolgone", "servergone"):
                out.append({"e": k})
            elif k == "threads":
                out.append({"e": k, "n": int(w[1])})
            elif k == "objs":
                if self.want_objs:
                    out.append({"e": k, "live": int(w[1][5:]), "made": int(w[2][5:])})
            elif k == "workret":
                stopped = True
                out.append({"e": "ret"})
            elif k == "quiet":
                d = dict(x.split("=", 1) for x in w[1:])
                hung = [x for x, y in d.items() if y == "pending" and x.startswith(("act.stop", "act.int", "act.add"))]
                if hung:
                    out.append({"e": "hung", "actors": hung})
                out.append({"e": "quiet", "running": int(d["running"]), "work": d.get("work.A", "")})
            elif k == "fds":
                if self.want_fds:
                    out.append({"e": "fds", "n": int(w[1])})
            elif k in ("workexc", "spin", "deadlock", "watchdog", "badclose", "baduse", "overrelease", "badcmd", "cmdexc"):
                out.append({"e": k, "line": line[:200]})
            elif k == "open" and w[3] == "ok":
                ports[w[2]] = int(w[1])
            elif k == "open":
                dead.add(int(w[1]))
                out.append({"e": "refused", "c": int(w[1])})
        if status != "exit0":
            out.append({"e": "crash", "status": status})
        return out

    def verify_event(self, w):
        return {"e": "verify"}

    def exec_more(self, tag):
        return {}

    def fwmsg_bytes(self):
        return (self.fwtext or "").encode()

    def fw_ok(self, got):
        if self.fwtext == "default":
            return True
        return got == self.fwmsg_bytes()

    def rsp_event(self, c, p):
        if p[0] == "interim":
            return {"e": "interim", "c": c}
        if p[0] == "garbage":
            return {"e": "garbage", "c": c, "d": p[1].hex()}
        _, code, h, body = p
        a = {"code": code, "ka": h.get("connection", "") == "keep-alive", "kind": "none", "fcode": 0, "text": "", "tag": ""}
        if h.get("connection", "") not in ("keep-alive", "close"):
            return {"e": "badheader", "c": c, "h": str(h)[:200]}
        if code == 200:
            if not h.get("content-type", "").startswith("text/xml"):
                return {"e": "badheader", "c": c, "h": str(h)[:200]}
            try:
                v = decode_response(body)
            except Exception as ex:
                return {"e": "badbody", "c": c, "why": str(ex), "d": body[:200].hex()}
            if v[0] == "fault":
                a.update(kind="fault", fcode=v[1], text=v[2])
                a["tag"] = self.fault_tag(v)
            else:
                a.update(kind="ok", tag=self.tag_of(v[1]))
        return {"e": "rsp", "c": c, "a": a}

    def fault_tag(self, v):
        """the call whose fault this is (scenarios give every fault text its tag), "" if the text does not tell"""
        for t, r in self.reqs.items():
            if r.f["act"] != "ok" and r.f["atext"] not in ("", "*") and hx(r.f["atext"]) == v[2]:
                return t
        return ""

    def tag_of(self, val):
        if not hasattr(self, "_val"):
            self._val = {r.expect: t for t, r in self.reqs.items()}
        return self._val.get(val, "?" + val[:60])


def corrupt(trace):
    """Damaged variants of an accepted trace; none of them is a behaviour of Service."""
    out = {}
    if any(e["e"] in ("gone", "hold") for e in trace):
        return out
    pos = {}
    for i, e in enumerate(trace):
        pos.setdefault(e["e"], []).append(i)
    if "rsp" in pos:
        i = pos["rsp"][-1]
        e = trace[i]
        out["response twice"] = trace[:i + 1] + [e] + trace[i + 1:]
        out["response with the other keep-alive"] = trace[:i] + [dict(e, a=dict(e["a"], ka=not e["a"]["ka"]))] + trace[i + 1:]
        if e["a"]["kind"] == "ok":
            out["response of another call"] = trace[:i] + [dict(e, a=dict(e["a"], tag="other"))] + trace[i + 1:]
        if any(j > i for j in pos.get("quiet", [])) and trace[pos["quiet"][-1]]["work"] == "running" or e["c"] == 90:
            out["response lost"] = trace[:i] + [x for x in trace[i + 1:] if x["e"] not in ("close", "stop", "ret")]
    if "exec" in pos:
        i = pos["exec"][-1]
        out["executed twice"] = trace[:i + 1] + [trace[i]] + trace[i + 1:]
        j = [x for x in pos.get("tx", []) if x < i]
        if j:
            out["executed early"] = trace[:j[-1]] + [trace[i]] + trace[j[-1]:i] + trace[i + 1:] if trace[j[-1]]["c"] == 90 else None
            if out["executed early"] is None:
                del out["executed early"]
    return out
