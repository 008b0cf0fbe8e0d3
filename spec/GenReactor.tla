----------------------------- MODULE GenReactor -----------------------------
(* Behaviours of the users of a reactor: what is done from outside (c = "-") and by which handler from inside a call. *)
EXTENDS ReactorImpl, Json
VARIABLE hist
gvars == <<vars, hist>>
GInit == Init /\ hist = <<>>
Step(o, h, ev) == hist' = Append(hist, [o |-> o, c |-> cur, h |-> h, ev |-> ev])
\* in simulation what ends things is rarer
Seldom == IF Cardinality(Hs) < 3 \/ waits < 0 THEN TRUE ELSE RandomElement(1..4) = 1
GOp == /\ Idle /\ (st = "poll" => ~ENABLED Poll) /\ ops < MaxOps /\ ops' = ops + 1
       /\ \E h \in Hs : \/ \E ev \in Evs : \/ (\A i \in At(h) : ev \notin tab[i].mask) /\ Reg(h, ev) /\ Step("reg", h, ev)
                                           \/ (\E i \in At(h) : ev \in tab[i].mask) /\ Unreg(h, ev) /\ Step("unreg", h, ev)
                                           \/ (\A i \in At(h) : ev \notin tab[i].rev) /\ Known(h) /\ Fake(h, ev) /\ Step("fake", h, ev)
                        \/ Known(h) /\ UnregAll(h) /\ Step("unregall", h, "")
                        \/ Env(h) /\ (m'.hup # m.hup => Seldom) /\ Step(IF m'.data[h] > m.data[h] THEN "data" ELSE IF m'.hup # m.hup THEN "hup" ELSE IF m'.full \ m.full # {} THEN "fill" ELSE "drain", h, "")
       /\ UNCHANGED <<batch, st, cur, to, waits>>
GNext == \/ GOp
         \/ Late /\ Step("late", "", "")
         \/ DoWait /\ (tab = <<>> => Seldom) /\ Step("wait", "", IF m'.ms = 0 THEN "0" ELSE "5")
         \/ (Invoke /\ hist' = IF cur' # None THEN Append(hist, [o |-> "call", c |-> cur', h |-> cur', ev |-> ""]) ELSE hist)
         \/ Read /\ Step("read", cur, "")
         \/ DoEnd /\ (st' = "ret" \/ tab' # tab => Seldom) /\ Step(IF st' = "ret" THEN "throw" ELSE IF tab' # tab THEN "gone" ELSE "end", cur, "")
         \/ (ToPoll \/ Poll \/ Done \/ Ret) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_gvars
Ended == waits = MaxWaits /\ st = "idle"
GEmit == (Ended \/ ~ENABLED GNext) => PrintT("@@" \o ToJson(hist))
Stop == ~Ended
=============================================================================
