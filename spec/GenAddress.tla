----------------------------- MODULE GenAddress -----------------------------
(* Programs over address objects: what the resolver answers for each name,
   which objects are copies, and which uses happen one after another or at the
   same time.  kinds: "sock" asks for the socket address, "call" makes a client
   call to it, "work" starts a server listening on it. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Answers, MaxAns, MaxOps, Objs, Kinds
VARIABLES ans, ops
vars == <<ans, ops>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Init == ans \in Seqs(Answers, MaxAns) /\ ops = <<>>
Op(x) == ops' = Append(ops, x) /\ UNCHANGED ans
Next == /\ Len(ops) < MaxOps
        /\ \/ \E k \in Kinds, o \in Objs : Op([op |-> "use", k |-> k, o |-> o])
           \/ \E o \in Objs : Op([op |-> "copy", k |-> "", o |-> o])
           \/ ops # <<>> /\ ops[Len(ops)].op # "run" /\ Op([op |-> "run", k |-> "", o |-> ""])
Spec == Init /\ [][Next]_vars
Uses == {i \in DOMAIN ops : ops[i].op = "use"}
Emit == (Len(ops) = MaxOps /\ Uses # {} /\ ops[MaxOps].op = "use") => PrintT("@@" \o ToJson(<<[ans |-> ans, ops |-> ops]>>))
=============================================================================
