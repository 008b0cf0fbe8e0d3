------------------------------- MODULE GenLog -------------------------------
(* Runs of a server whose methods log: which connections send what, together or
   one after another, and when the log is switched.
   what: "log1" "log2" methods giving one or two messages, "logfault" one that
   gives a message and fails, "bad" a request that is not HTTP (the server
   reports it itself), "plain" a method that does not log. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Conns, Whats, MaxOps
VARIABLES ops, sent
vars == <<ops, sent>>
Init == ops = <<>> /\ sent = {}
Last == IF ops = <<>> THEN "" ELSE ops[Len(ops)].op
Op(x) == ops' = Append(ops, x)
Next == /\ Len(ops) < MaxOps
        /\ \/ \E c \in Conns \ sent, w \in Whats : Op([op |-> "req", c |-> c, w |-> w]) /\ sent' = sent \cup {c}
           \/ Last = "req" /\ Op([op |-> "run", c |-> 0, w |-> ""]) /\ sent' = {}
           \/ Last # "switch" /\ sent = {} /\ Op([op |-> "switch", c |-> 0, w |-> ""]) /\ UNCHANGED sent
Spec == Init /\ [][Next]_vars
Emit == (Len(ops) = MaxOps /\ Last = "req") => PrintT("@@" \o ToJson(ops))
=============================================================================
