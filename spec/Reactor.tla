------------------------------ MODULE Reactor ------------------------------
(* What a reactor promises to the handlers registered with it, as an observer of one reactor: Ev(m, e) is the observer
   after event e, with ok = FALSE once a promise is broken.  Handlers are watched for "in" and "out"; the descriptor of
   each has data to read or not, room to write or not, and may have been hung up by its peer.  Descriptors are sockets,
   or ends of pipes: rp to read from, wp to write to.  A hang-up of a pipe makes it neither readable nor writable, it is
   reported like room for output, as every hang-up is.
   A wait first calls the handlers an event was faked for, then waits for descriptors and calls the handlers of those
   that are ready.  Both groups are settled when they are formed: who is unregistered meanwhile is not called, who has
   only been disarmed may still be. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Hs

None == "-"
Off == [h \in Hs |-> {}]
New == [ok |-> TRUE, reg |-> Off, fk |-> Off, fin |-> {}, stop |-> {}, catch |-> {},
        rp |-> {}, wp |-> {}, data |-> [h \in Hs |-> 0], hup |-> {}, full |-> {},
        ph |-> "idle",     \* "idle" | "user" | "poll" | "sys" | "dead" (must return)
        res |-> {},        \* results it may or must return with, in "dead"
        must |-> Off, may |-> Off, snap |-> Off, eintr |-> 0, ms |-> 0, late |-> FALSE, faked |-> FALSE,
        cur |-> None, due |-> <<>>]

Bad(m) == [m EXCEPT !.ok = FALSE]
Check(c, m, n) == IF c THEN n ELSE Bad(m)

\* what waiting finds out about h when it watches for the events in w
Ready(m, w, h) == IF w[h] = {} THEN {}
                  ELSE (IF "in" \in w[h] /\ (m.data[h] > 0 \/ (h \in m.hup /\ h \notin m.rp \cup m.wp)) THEN {"in"} ELSE {})
                       \cup (IF ("out" \in w[h] /\ h \notin m.full \cup m.rp) \/ h \in m.hup THEN {"out"} ELSE {})
Readies(m) == [h \in Hs |-> Ready(m, m.snap, h)]
First(s) == IF "in" \in s THEN "in" ELSE "out"

\* Those that are not registered (for it) any more need not be called.
Thin(m) == [m EXCEPT !.must = [h \in Hs |-> IF m.reg[h] \cap m.must[h] = {} /\ ~m.faked THEN {} ELSE IF m.reg[h] = {} THEN {} ELSE m.must[h]],
                     !.may = [h \in Hs |-> m.may[h] \cup m.must[h]]]
\* The group of faked events is done: waiting begins.
Norm(m) == IF m.ph = "user" /\ m.cur = None /\ m.due = <<>> /\ m.must = Off
           THEN IF m.reg = Off THEN [m EXCEPT !.ph = "dead", !.res = {"1"}]
                ELSE [m EXCEPT !.ph = "poll", !.snap = m.reg]
           ELSE m

Wait(m, ms) ==
  IF m.reg = Off THEN [m EXCEPT !.ph = "dead", !.res = {"0"}]
  ELSE IF \A h \in Hs : m.reg[h] # {} => h \in m.stop THEN [m EXCEPT !.ph = "dead", !.res = {"nohandlers"}]
  ELSE [m EXCEPT !.ph = "user", !.must = m.fk, !.fk = Off, !.may = Off, !.ms = ms, !.late = FALSE, !.faked = m.fk # Off]

\* the group of ready descriptors is formed when its first member is called
Form(m) == IF m.ph = "poll" /\ Readies(m) # Off
           THEN Thin([m EXCEPT !.ph = "sys", !.must = Readies(m), !.may = Off, !.faked = FALSE]) ELSE m
\* (a handler of the first group that was registered anew may come after the others)
Take(m, e) == [m EXCEPT !.must[e.h] = {}, !.may[e.h] = {}, !.cur = e.h, !.ph = IF @ = "poll" THEN "user" ELSE @]
Fits(m, e) == m.reg[e.h] # {} /\ m.cur = None /\ m.due = <<>>
              /\ LET s == IF m.must[e.h] # {} THEN m.must[e.h] ELSE m.may[e.h] IN s # {} /\ e.ev = First(s)
Call(m, e) == IF Fits(m, e) THEN Take(m, e)
              ELSE LET n == Form(m) IN Check(m.ph = "poll" /\ Fits(n, e), m, Take(n, e))

Drop(m, h) == Thin([m EXCEPT !.reg[h] = {}, !.fk[h] = {}])
End(m, e) ==
  LET n == [m EXCEPT !.cur = None] IN
  Check(m.cur = e.h, m,
    CASE e.how = "ok" -> n
      [] e.how = "term" -> [Drop(n, e.h) EXCEPT !.due = <<[e |-> "fin", h |-> e.h]>>]
      [] OTHER -> IF e.h \in m.catch
                  THEN [Drop(n, e.h) EXCEPT !.due = <<[e |-> "log", h |-> e.h, k |-> e.how], [e |-> "fin", h |-> e.h]>>]
                  ELSE [n EXCEPT !.ph = "dead", !.res = {e.how}, !.must = Off, !.may = Off])
Due(m, e) == Check(m.due # <<>> /\ m.due[1] = e, m, [m EXCEPT !.due = Tail(@)])

Return(m, r) ==
  LET n == Form(m)
      done == [m EXCEPT !.ph = "idle", !.must = Off, !.may = Off, !.res = {}]
  IN Check(m.cur = None /\ m.due = <<>> /\
       (CASE m.ph = "dead" -> r \in m.res
          [] n.ph = "sys" -> r = "1" /\ (n.must = Off \/ (m.ph = "poll" /\ m.eintr > 0))
          [] m.ph = "poll" -> \/ r = "0" /\ (m.late \/ m.ms = 0)
                              \/ r = "1" /\ (m.eintr > 0 \/ m.faked)
          [] OTHER -> FALSE),
       m, IF m.ph = "poll" /\ r = "1" THEN [done EXCEPT !.eintr = IF @ > 0 THEN @ - 1 ELSE 0] ELSE done)

Ev1(m, e) ==
  CASE e.e = "new"      -> [m EXCEPT !.stop = IF e.stop THEN @ \cup {e.h} ELSE @, !.catch = IF e.catch THEN @ \cup {e.h} ELSE @,
                                     !.rp = IF e.fd = "rpipe" THEN @ \cup {e.h} ELSE @, !.wp = IF e.fd = "wpipe" THEN @ \cup {e.h} ELSE @]
    [] e.e = "reg"      -> [m EXCEPT !.reg[e.h] = @ \cup {e.ev}]
    [] e.e = "unreg"    -> IF m.reg[e.h] \ {e.ev} = {} THEN Drop(m, e.h) ELSE Thin([m EXCEPT !.reg[e.h] = @ \ {e.ev}])
    [] e.e = "unregall" -> Drop(m, e.h)
    [] e.e = "fake"     -> IF m.reg[e.h] = {} THEN m ELSE [m EXCEPT !.fk[e.h] = @ \cup {e.ev}]
    [] e.e = "data"     -> [m EXCEPT !.data[e.h] = @ + 1]
    [] e.e = "read"     -> [m EXCEPT !.data[e.h] = IF @ > 0 THEN @ - 1 ELSE 0]
    [] e.e = "hup"      -> [m EXCEPT !.hup = @ \cup {e.h}]
    [] e.e = "fill"     -> [m EXCEPT !.full = @ \cup {e.h}]
    [] e.e = "drain"    -> [m EXCEPT !.full = @ \ {e.h}]
    [] e.e = "eintr"    -> [m EXCEPT !.eintr = e.n]
    [] e.e = "late"     -> [m EXCEPT !.late = m.ph = "poll" /\ m.ms > 0]
    [] e.e = "wait"     -> Check(m.ph = "idle", m, Wait(m, e.ms))
    [] e.e = "call"     -> Call(m, e)
    [] e.e = "end"      -> End(m, e)
    [] e.e \in {"log", "fin"} -> Due(m, e)
    [] e.e = "wret"     -> Return(m, e.r)
    \* nothing moves any more: no wait, or one that has nothing to do
    [] e.e = "quiet"    -> Check(m.ph = "idle" \/ (m.ph = "poll" /\ Readies(m) = Off /\ ~m.late /\ m.ms # 0), m, m)
    [] OTHER            -> Bad(m)
Ev(m, e) == IF m.ok THEN Norm(Ev1(m, e)) ELSE m
=============================================================================
