---------------------------- MODULE DispatchImpl ----------------------------
(* How the server does it: a list of dispatchers whose first member holds the
   registered methods, interceptors linked to the one they enclose, and per
   call a stack of activations passing results and exceptions outwards.
   Refinement: every step of a call is a step of Dispatch, and no call that
   Dispatch expects something from gets stuck.
   Bug: "none", or a variant that has to be refuted
     fifo      a new interceptor is put innermost
     skip      yielding goes to the method, not to the next interceptor
     lastdisp  the last dispatcher that knows the name wins
     keepfirst registering a name again changes nothing
     lostfault a Fault passing an interceptor becomes a plain exception       *)
EXTENDS Dispatch
CONSTANTS Progs, MaxStack, Names, MaxDisp, MaxReg, Acts, Bug

VARIABLES head,     \* outermost interceptor (0: none)
          next,     \* interceptor -> enclosed one
          prog,     \* interceptor -> program
          list,     \* dispatchers in the order they are tried; the first one is the table
          fr,       \* activations of the call, innermost last: [i, st, x]
          ret,      \* what is being returned ("no" kind: nothing)
          ph,       \* "conf", "run", "end"
          nreg, ok
ivars == <<head, next, prog, list, fr, ret, ph, nreg, ok>>
vars == <<dvars, ivars>>

None == [k |-> "no", c |-> 0, v |-> ""]
E0 == [n \in {} |-> ""]

Init == /\ DInit /\ head = 0 /\ next = <<>> /\ prog = <<>> /\ list = <<E0>> /\ fr = <<>> /\ ret = None
        /\ ph = "conf" /\ nreg = 0 /\ ok = TRUE

PushI == /\ ph = "conf" /\ Len(prog) < MaxStack
         /\ \E p \in Progs :
              LET i == Len(prog) + 1 IN
              /\ Push(i, p)
              /\ prog' = Append(prog, p)
              /\ IF Bug = "fifo" /\ head # 0
                 THEN /\ next' = Append([j \in DOMAIN next |-> IF next[j] = 0 THEN i ELSE next[j]], 0)
                      /\ head' = head
                 ELSE next' = Append(next, head) /\ head' = i
         /\ UNCHANGED <<list, fr, ret, ph, nreg, ok>>

Reg == /\ ph = "conf" /\ nreg < MaxReg
       /\ \E n \in Names : LET s == "r" \o ToString(nreg) IN
            /\ Register(n, s)
            /\ list' = IF Bug = "keepfirst" /\ n \in DOMAIN list[1] THEN list ELSE [list EXCEPT ![1] = Put(@, n, s)]
       /\ nreg' = nreg + 1
       /\ UNCHANGED <<head, next, prog, fr, ret, ph, ok>>

AddD == /\ ph = "conf" /\ Len(list) <= MaxDisp
        /\ \E ns \in SUBSET Names : LET s == "d" \o ToString(Len(list)) IN
             /\ AddDispatcher(s, ns)
             /\ list' = Append(list, [n \in ns |-> s])
        /\ UNCHANGED <<head, next, prog, fr, ret, ph, nreg, ok>>

Find(n) == LET K == {k \in DOMAIN list : n \in DOMAIN list[k]} IN
           IF K = {} THEN ""
           ELSE LET k == IF Bug = "lastdisp" THEN CHOOSE k \in K : \A j \in K : j <= k ELSE CHOOSE k \in K : \A j \in K : k <= j
                IN list[k][n]

\* One call with tag "t": the first activation is that of the outermost interceptor (or of the method, i = 0).
Begin == /\ ph = "conf"
         /\ \E n \in Names, a \in Acts :
              /\ Call("t", n, a)
              /\ LET s == Find(n) IN
                 IF s = "" THEN fr' = <<>> /\ ret' = Flt(-32601, "x")
                 ELSE fr' = <<[i |-> head, st |-> "in", x |-> <<>>, a |-> a, src |-> s]>> /\ ret' = None
         /\ ph' = "run"
         /\ UNCHANGED <<head, next, prog, list, nreg, ok>>

Top == fr[Len(fr)]
Pop == SubSeq(fr, 1, Len(fr) - 1)
SetTop(f) == Pop \o <<f>>
\* an observable step: it has to be the one Dispatch expects next
Obs(ev) == IF calls["t"].rem # <<>> /\ Head(calls["t"].rem) = ev
           THEN Step("t", ev) /\ ok' = ok
           ELSE ok' = FALSE /\ UNCHANGED dvars
Ev(e, i, s, x) == [e |-> e, i |-> i, src |-> s, x |-> x]

Method == /\ ph = "run" /\ fr # <<>> /\ Top.i = 0
          /\ IF Top.st = "in" THEN Obs(Ev("exec", 0, Top.src, Top.x)) /\ fr' = SetTop([Top EXCEPT !.st = "out"]) /\ ret' = ret
             ELSE Obs(Ev("done", 0, "", <<>>)) /\ fr' = Pop /\ ret' = Top.a
          /\ UNCHANGED <<head, next, prog, list, ph, nreg>>

Inner(f) == [f EXCEPT !.i = IF Bug = "skip" THEN 0 ELSE next[f.i], !.st = "in",
                      !.x = IF prog[f.i] = "params" THEN Append(@, f.i) ELSE @]
Enter == /\ ph = "run" /\ fr # <<>> /\ Top.i # 0 /\ Top.st = "in"
         /\ Obs(Ev("enter", Top.i, "", <<>>))
         /\ LET x == [i |-> Top.i, p |-> prog[Top.i]] IN
            IF Yields(x) THEN fr' = SetTop([Top EXCEPT !.st = "wait"]) \o <<Inner(Top)>> /\ ret' = None
            ELSE fr' = SetTop([Top EXCEPT !.st = "leave"]) /\ ret' = Instead(x)
         /\ UNCHANGED <<head, next, prog, list, ph, nreg>>
Back == /\ ph = "run" /\ fr # <<>> /\ Top.i # 0 /\ Top.st \in {"wait", "wait2"} /\ ret.k # "no"
        /\ LET x == [i |-> Top.i, p |-> prog[Top.i]]
               r == IF Bug = "lostfault" /\ ret.k = "fault" THEN Exc(ret.v) ELSE ret IN
           IF x.p = "twice" /\ Top.st = "wait" /\ ret.k = "ok"
           THEN fr' = SetTop([Top EXCEPT !.st = "wait2"]) \o <<Inner(Top)>> /\ ret' = None
           ELSE fr' = SetTop([Top EXCEPT !.st = "leave"]) /\ ret' = After(x, r)
        /\ UNCHANGED <<dvars, head, next, prog, list, ph, nreg, ok>>
Leave == /\ ph = "run" /\ fr # <<>> /\ Top.i # 0 /\ Top.st = "leave"
         /\ Obs(Ev("leave", Top.i, "", <<>>)) /\ fr' = Pop
         /\ UNCHANGED <<head, next, prog, list, ret, ph, nreg>>
Finish == /\ ph = "run" /\ fr = <<>>
          /\ LET a == IF ret.k = "exc" THEN Flt(-32500, ret.v) ELSE ret IN
             IF calls["t"].rem = <<>> /\ Matches(a, calls["t"].out) THEN Return("t", a) /\ ok' = ok
             ELSE ok' = FALSE /\ UNCHANGED dvars
          /\ ph' = "end"
          /\ UNCHANGED <<head, next, prog, list, fr, ret, nreg>>

Next == PushI \/ Reg \/ AddD \/ Begin \/ Method \/ Enter \/ Back \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars
Refines == ok
Ends == (ph # "end" /\ ok) => ENABLED Next
\* What the statement of the property says directly, of the events a call leaves.
Brackets(q) == \A j \in DOMAIN q : q[j].e = "enter" =>
                 \E k \in DOMAIN q : k > j /\ q[k].e = "leave" /\ q[k].i = q[j].i
                    /\ \A m \in (j + 1)..(k - 1) : q[m].e \in {"enter", "leave"} => q[m].i < q[j].i
Once(q) == (\A j \in DOMAIN prog : prog[j] # "twice") =>
             \A j \in DOMAIN q : \A k \in DOMAIN q : (q[j].e = q[k].e /\ q[j].i = q[k].i) => j = k
Nested == (ph = "run" /\ fr # <<>> /\ Len(fr) = 1 /\ Top.st = "in" /\ ok) => Brackets(calls["t"].rem) /\ Once(calls["t"].rem)
=============================================================================
