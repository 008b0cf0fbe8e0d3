---------------------------- MODULE TraceService ----------------------------
(* Recorded runs of the implementation, as behaviours of Service.  The file
   holds many runs, each starting with a "cfg" event.                         *)
EXTENDS Service, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

VARIABLE l
vars == <<svars, l>>

ToSet(q) == {q[i] : i \in DOMAIN q}

Config(e) == [max |-> e.max, strict |-> e.strict, auth |-> e.auth, anon |-> e.anon,
              users |-> ToSet(e.users), workers |-> e.workers, fwmsg |-> e.fwmsg]

Reset(e) == /\ cfg' = Config(e)
            /\ conns' = [c \in {} |-> NoReq]
            /\ run' = {} /\ loop' = "down" /\ stop' = NoStop /\ base' = -1

ByTag(t) == {c \in Ids : conns[c].req.tag = t}

Event(e) ==
  CASE e.e = "cfg"     -> Reset(e)
    [] e.e = "open"    -> PeerOpen(e.c, e.cls)
    [] e.e = "refused" -> NotServed(e.c)
    [] e.e = "req"     -> PeerReq(e.c, e.r)
    [] e.e = "tx"      -> PeerSend(e.c, e.n)
    [] e.e = "fin"     -> PeerFin(e.c)
    [] e.e = "gone"    -> PeerGone(e.c)
    [] e.e = "hold"    -> PeerHold(e.c, e.h)
    [] e.e = "interim" -> SrvInterim(e.c)
    [] e.e = "exec"    -> \E c \in ByTag(e.tag) : SrvExec(c, e.name)
    [] e.e = "done"    -> \E c \in ByTag(e.tag) : SrvDone(c)
    [] e.e = "rsp"     -> SrvRsp(e.c, e.a)
    [] e.e = "fwmsg"   -> SrvFwMsg(e.c)
    \* over TLS the end of a connection after its last response is announced
    [] e.e = "close"   -> SrvClose(e.c) /\ (e.how = "bare" => ~(conns[e.c].closing /\ ~conns[e.c].fin))
    [] e.e = "start"   -> Start
    [] e.e = "stop"    -> StopReq
    [] e.e = "stopbeg" -> StopBegin(e.x)
    [] e.e = "stopend" -> StopEnd(e.x)
    [] e.e = "ret"     -> LoopRet
    [] e.e = "workers" -> AddWorkers(e.n)
    [] e.e = "conf"    -> Configure(e.max, e.strict)
    [] e.e = "fds"     -> Fds(e.n)
    [] e.e = "quiet"   -> /\ Quiescent /\ e.running = Cardinality(run)
                          /\ (e.work = "running") = (loop = "up")
                          /\ Settled
                          /\ UNCHANGED <<cfg, conns, run, loop, base>>
    [] OTHER           -> FALSE

Init == l = 1 /\ SInit([max |-> 0, strict |-> FALSE, auth |-> FALSE, anon |-> FALSE,
                        users |-> {}, workers |-> 0, fwmsg |-> FALSE])
Next == /\ l <= Len(Trace)
        /\ Event(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
