---------------------------- MODULE TraceClient ----------------------------
(* Recorded runs of library clients, as behaviours of ClientCall.             *)
EXTENDS ClientCall, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
vars == <<cvars, l>>

Event(e) ==
  CASE e.e = "cfg"     -> /\ cl' = [k \in {} |-> 0] /\ conns' = [c \in {} |-> 0] /\ lst' = [p \in {} |-> ""] /\ now' = 0
    [] e.e = "listen"  -> Listen(e.p, e.s)
    [] e.e = "client"  -> NewClient(e.k, e.l, e.uri, e.lead, e.host, e.tls, e.addr)
    [] e.e = "ka"      -> SetKeepAlive(e.k, e.b)
    [] e.e = "to"      -> SetTimeout(e.k, e.n)
    [] e.e = "auth"    -> SetAuth(e.k, e.a)
    [] e.e = "proxy"   -> SetProxy(e.k, e.p)
    [] e.e = "destroy" -> Destroy(e.k)
    [] e.e = "call"    -> Call(e.k, e.id, e.name, e.args)
    [] e.e = "tick"    -> Tick(e.n)
    [] e.e = "signal"  -> Signal
    [] e.e = "hold"    -> Hold(e.c, e.b)
    [] e.e = "begin"   -> SrvBegin(e.c, e.r)
    [] e.e = "send"    -> SrvSend(e.c, e.n)
    [] e.e = "end"     -> SrvEnd(e.c, e.how, e.gone)
    [] e.e = "rx"      -> Received(e.c)
    [] e.e = "acc"     -> Open(e.c, e.p)
    [] e.e = "tunnel"  -> Tunnel(e.c, e.addr, e.code) \/ LateRequest(e.c)
    [] e.e = "req"     -> Request(e.c, e.rq) \/ LateRequest(e.c)
    [] e.e = "ret"     -> Return(e.k, e.id, e.o)
    [] e.e = "closed"  -> Closed(e.c)
    [] e.e = "fds"     -> Fds(e.n) /\ UNCHANGED cvars
    [] e.e = "quiet"   -> Rest /\ UNCHANGED cvars
    [] OTHER           -> FALSE

Init == l = 1 /\ CInit
Next == l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
