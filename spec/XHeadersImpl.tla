---------------------------- MODULE XHeadersImpl ----------------------------
(* How it is done: the client keeps the connection's map among its options,
   a request header takes them over and then those of the call, the server
   reads the lines into a map and gives the method those that start with X-.
   Bug: none, connwins (the order of taking over is wrong), sticky (the call's
   headers stay among the options), leak (the server's map is not emptied
   between requests of a connection), all (other headers are passed too).     *)
EXTENDS XHeaders, TLC
CONSTANTS Names, Values, MaxOps, Bug
VARIABLES opts, hdr, srvmap, pc, n, ok
vars == <<xvars, opts, hdr, srvmap, pc, n, ok>>

Maps == {q \in UNION {[1..k -> [n : Names, x : BOOLEAN, v : Values]] : k \in 0..2} :
           \A i \in DOMAIN q : q[i].x = (q[i].n # "y")}
Init == XInit /\ opts = Empty /\ hdr = <<>> /\ srvmap = Empty /\ pc = "new" /\ n = 0 /\ ok = TRUE
New == pc = "new" /\ Client("k") /\ pc' = "idle" /\ UNCHANGED <<opts, hdr, srvmap, n, ok>>
Set == /\ pc = "idle" /\ n < MaxOps
       /\ \E q \in Maps : SetMap("k", q) /\ opts' = Fold(Empty, q)
       /\ n' = n + 1 /\ UNCHANGED <<hdr, srvmap, pc, ok>>
Begin == /\ pc = "idle" /\ n < MaxOps
         /\ \E q \in Maps :
              /\ Call("t", "k", q)
              /\ LET own == [i \in DOMAIN q |-> q[i]] IN
                 /\ hdr' = IF Bug = "connwins" THEN [c |-> Fold(Fold(Empty, own), <<>>), o |-> opts, last |-> "opts"]
                           ELSE [c |-> Fold(Empty, own), o |-> opts, last |-> "call"]
                 /\ opts' = IF Bug = "sticky" THEN Fold(opts, q) ELSE opts
         /\ pc' = "wire" /\ n' = n + 1 /\ UNCHANGED <<srvmap, ok>>
Merge(a, b) == [z \in DOMAIN a \cup DOMAIN b |-> IF z \in DOMAIN b THEN b[z] ELSE a[z]]
Sent == LET m == IF hdr.last = "call" THEN Merge(hdr.o, hdr.c) ELSE Merge(hdr.c, hdr.o)
        IN Put(m, "content-length", "0")
Read == /\ pc = "wire" /\ srvmap' = (IF Bug = "leak" THEN Merge(srvmap, Sent) ELSE Sent)
        /\ pc' = "run" /\ UNCHANGED <<xvars, opts, hdr, n, ok>>
Run == /\ pc = "run"
       /\ LET m == IF Bug = "all" THEN srvmap ELSE [z \in DOMAIN srvmap \ {"content-length"} |-> srvmap[z]] IN
          IF due["t"] = m THEN Seen("t", m) /\ ok' = ok ELSE ok' = FALSE /\ UNCHANGED xvars
       /\ pc' = "idle" /\ UNCHANGED <<opts, hdr, srvmap, n>>
Next == New \/ Set \/ Begin \/ Read \/ Run
Spec == Init /\ [][Next]_vars
Refines == ok
=============================================================================
