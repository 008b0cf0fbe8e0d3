---------------------------- MODULE ReactorImpl ----------------------------
(* The reactor as it is built: a list of entries (descriptor, mask, faked events) in order of registration, a group of
   faked entries taken from it, a snapshot that is polled, and the ready ones called one after another after looking
   each up again.  Handlers may do anything from inside their calls.  The observer of Reactor.tla watches every step.
   Bug selects a broken variant. *)
EXTENDS Reactor, TLC
CONSTANTS MaxOps, MaxWaits, Stoppers, Catchers, RPipes, WPipes, Bug
VARIABLES tab, batch, st, cur, to, nst, ops, waits, m
\* st: "idle" | "user" | "poll" | "sys" | "ret"; to: what is left to report; nst: counted stoppers
vars == <<tab, batch, st, cur, to, nst, ops, waits, m>>
Evs == {"in", "out"}
RECURSIVE Fold(_, _)
Fold(x, es) == IF es = <<>> THEN x ELSE Fold(Ev(x, Head(es)), Tail(es))
Start == [New EXCEPT !.stop = Stoppers, !.catch = Catchers, !.rp = RPipes, !.wp = WPipes]
Init == tab = <<>> /\ batch = <<>> /\ st = "idle" /\ cur = None /\ to = "" /\ nst = 0 /\ ops = 0 /\ waits = 0 /\ m = Start

At(h) == {i \in DOMAIN tab : tab[i].h = h}
Known(h) == At(h) # {}
Without(h) == SelectSeq(tab, LAMBDA x : x.h # h)
Emit(e) == m' = Ev(m, e)
Idle == st = "idle" \/ st = "poll" \/ cur # None           \* the moments somebody can act

Reg(h, ev) ==
  /\ tab' = (IF Known(h) THEN [i \in DOMAIN tab |-> IF tab[i].h = h THEN [tab[i] EXCEPT !.mask = @ \cup {ev}] ELSE tab[i]]
             ELSE Append(tab, [h |-> h, mask |-> {ev}, rev |-> {}]))
  /\ nst' = IF h \in Stoppers /\ (~Known(h) \/ Bug = "stoppers") THEN nst + 1 ELSE nst
  /\ Emit([e |-> "reg", h |-> h, ev |-> ev])
Gone(h) == tab' = Without(h) /\ nst' = IF h \in Stoppers /\ Known(h) THEN nst - 1 ELSE nst
Unreg(h, ev) ==
  /\ IF \E i \in At(h) : tab[i].mask \ {ev} = {} \/ (Bug = "mask" /\ ev \in tab[i].mask) THEN Gone(h)
     ELSE tab' = [i \in DOMAIN tab |-> IF tab[i].h = h THEN [tab[i] EXCEPT !.mask = @ \ {ev}] ELSE tab[i]] /\ UNCHANGED nst
  /\ Emit([e |-> "unreg", h |-> h, ev |-> ev])
UnregAll(h) == Gone(h) /\ Emit([e |-> "unregall", h |-> h])
Fake(h, ev) ==
  /\ tab' = [i \in DOMAIN tab |-> IF tab[i].h = h THEN [tab[i] EXCEPT !.rev = @ \cup {ev}] ELSE tab[i]]
  /\ UNCHANGED nst /\ Emit([e |-> "fake", h |-> h, ev |-> ev])
Env(h) == /\ \/ m.data[h] = 0 /\ h \notin WPipes /\ Emit([e |-> "data", h |-> h])
             \/ h \notin m.hup /\ Emit([e |-> "hup", h |-> h])
             \/ h \notin m.full /\ h \notin RPipes /\ Emit([e |-> "fill", h |-> h])
             \/ h \in m.full /\ Emit([e |-> "drain", h |-> h])
          /\ UNCHANGED <<tab, nst>>
Op == /\ Idle /\ ops < MaxOps /\ ops' = ops + 1
      /\ \E h \in Hs : \/ \E ev \in Evs : Reg(h, ev) \/ Unreg(h, ev) \/ Fake(h, ev)
                       \/ UnregAll(h) \/ Env(h)
      /\ UNCHANGED <<batch, st, cur, to, waits>>
\* time runs out while polling
Late == /\ st = "poll" /\ ~m.late /\ m.ms > 0 /\ Emit([e |-> "late"])
        /\ UNCHANGED <<tab, batch, st, cur, to, nst, ops, waits>>

DoWait ==
  /\ st = "idle" /\ waits < MaxWaits /\ waits' = waits + 1
  /\ \E ms \in {0, 5} : Emit([e |-> "wait", ms |-> ms])
  /\ IF tab = <<>> THEN st' = "ret" /\ to' = "0" /\ UNCHANGED <<tab, batch>>
     ELSE IF Len(tab) = nst THEN st' = "ret" /\ to' = "nohandlers" /\ UNCHANGED <<tab, batch>>
     ELSE /\ st' = "user" /\ to' = ""
          /\ batch' = SelectSeq(tab, LAMBDA x : x.rev # {})
          /\ tab' = IF Bug = "keepfake" THEN tab ELSE [i \in DOMAIN tab |-> [tab[i] EXCEPT !.rev = {}]]
  /\ UNCHANGED <<cur, nst, ops>>

\* the next of the group: looked up again
Invoke ==
  /\ st \in {"user", "sys"} /\ cur = None /\ batch # <<>> /\ to = ""
  /\ LET b == Head(batch)   e == IF "in" \in b.rev THEN "in" ELSE "out" IN
     /\ batch' = Tail(batch)
     /\ IF ~Known(b.h) /\ Bug # "stale" THEN UNCHANGED <<cur, m>>
        ELSE IF b.rev = {} THEN UNCHANGED <<cur, m>>
        ELSE cur' = b.h /\ Emit([e |-> "call", h |-> b.h, ev |-> e])
  /\ UNCHANGED <<tab, st, to, nst, ops, waits>>
Read == /\ cur # None /\ ops < MaxOps /\ m.data[cur] > 0 /\ ops' = ops + 1 /\ Emit([e |-> "read", h |-> cur])
        /\ UNCHANGED <<tab, batch, st, cur, to, nst, waits>>
Finished(h, how) == <<[e |-> "end", h |-> h, how |-> how]>> \o
   (IF how = "term" THEN <<>> ELSE <<[e |-> "log", h |-> h, k |-> how]>>) \o
   (IF Bug = "nofinish" /\ how # "term" THEN <<>> ELSE <<[e |-> "fin", h |-> h]>>)
DoEnd ==
  /\ cur # None
  /\ \/ m' = Ev(m, [e |-> "end", h |-> cur, how |-> "ok"]) /\ UNCHANGED <<tab, nst, st, to, batch>>
     \/ m' = Fold(m, Finished(cur, "term")) /\ (IF Bug = "keepdead" THEN UNCHANGED <<tab, nst>> ELSE Gone(cur)) /\ UNCHANGED <<st, to, batch>>
     \/ IF cur \in Catchers
        THEN m' = Fold(m, Finished(cur, "std")) /\ Gone(cur) /\ UNCHANGED <<st, to, batch>>
        ELSE m' = Ev(m, [e |-> "end", h |-> cur, how |-> "std"]) /\ st' = "ret" /\ to' = "std" /\ batch' = <<>> /\ UNCHANGED <<tab, nst>>
  /\ cur' = None /\ UNCHANGED <<ops, waits>>

\* the faked ones are done
ToPoll == /\ st = "user" /\ cur = None /\ batch = <<>>
          /\ IF tab = <<>> THEN st' = "ret" /\ to' = "1" /\ UNCHANGED batch
             ELSE st' = "poll" /\ batch' = tab /\ UNCHANGED to
          /\ UNCHANGED <<tab, cur, nst, ops, waits, m>>
\* what polling tells about a descriptor
Found(w, h) == IF Bug = "errors" /\ h \in m.hup THEN Ready([m EXCEPT !.hup = @ \ {h}], w, h) ELSE Ready(m, w, h)
Poll ==
  /\ st = "poll"
  /\ LET w == [h \in Hs |-> UNION {batch[i].mask : i \in {j \in DOMAIN batch : batch[j].h = h}}]
         hits == SelectSeq([i \in DOMAIN batch |-> [batch[i] EXCEPT !.rev = Found(w, batch[i].h)]], LAMBDA x : x.rev # {})
     IN IF hits # <<>> THEN st' = "sys" /\ batch' = (IF Bug = "one" THEN <<hits[1]>> ELSE hits) /\ UNCHANGED to
        ELSE /\ m.late \/ m.ms = 0
             /\ st' = "ret" /\ to' = (IF Bug = "timeout" THEN "1" ELSE "0") /\ UNCHANGED batch
  /\ UNCHANGED <<tab, cur, nst, ops, waits, m>>
Done == /\ st = "sys" /\ cur = None /\ batch = <<>> /\ st' = "ret" /\ to' = "1"
        /\ UNCHANGED <<tab, batch, cur, nst, ops, waits, m>>
Ret == /\ st = "ret" /\ Emit([e |-> "wret", r |-> to]) /\ st' = "idle" /\ to' = ""
       /\ UNCHANGED <<tab, batch, cur, nst, ops, waits>>

Next == Op \/ Late \/ DoWait \/ Invoke \/ Read \/ DoEnd \/ ToPoll \/ Poll \/ Done \/ Ret
Spec == Init /\ [][Next]_vars
Kept == m.ok
\* when it blocks, it may
Blocks == (st = "poll" /\ ~ENABLED Poll) => Ev(m, [e |-> "quiet"]).ok
=============================================================================
