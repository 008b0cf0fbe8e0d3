------------------------------- MODULE FdImpl -------------------------------
(* Who owns which descriptor.  The system hands out the lowest free number, to the server and to the rest of the program
   alike; the server's objects (wake-up pair, listener, connections) keep the numbers they were given, and the reactor
   finds handlers by number.  Bug selects a broken variant. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxFd, Conns, MaxRuns, Bug
VARIABLES tab,      \* descriptor -> owner, "" = free
          srv,      \* "none" | "down" | "up" | "dead"
          pair, lsn, \* descriptors of the wake-up pair and of the listener
          fdof,     \* connection object -> descriptor, 0 = none
          reg,      \* descriptor -> object the reactor calls for it, "" = none
          st,       \* connection -> "no" | "open" | "over" (its exchange is over or its peer gone) | "half" (closed, still to be forgotten) | "done"
          runs, bad
vars == <<tab, srv, pair, lsn, fdof, reg, st, runs, bad>>
Fds == 1..MaxFd
Free == {f \in Fds : tab[f] = ""}
Low(S) == CHOOSE f \in S : \A g \in S : f <= g
Init == /\ tab = [f \in Fds |-> ""] /\ srv = "none" /\ pair = {} /\ lsn = 0 /\ fdof = [c \in Conns |-> 0]
        /\ reg = [f \in Fds |-> ""] /\ st = [c \in Conns |-> "no"] /\ runs = 0 /\ bad = FALSE

\* closing f on behalf of o
Closing(f, o) == tab' = [tab EXCEPT ![f] = ""] /\ bad' = (bad \/ tab[f] # o)

\* the rest of the program
UserOpen == Free # {} /\ tab' = [tab EXCEPT ![Low(Free)] = "user"] /\ UNCHANGED <<srv, pair, lsn, fdof, reg, st, runs, bad>>
UserClose == \E f \in Fds : tab[f] = "user" /\ tab' = [tab EXCEPT ![f] = ""] /\ UNCHANGED <<srv, pair, lsn, fdof, reg, st, runs, bad>>

Construct ==
  /\ srv = "none" /\ Cardinality(Free) >= 2 /\ srv' = "down"
  /\ LET a == Low(Free)  b == Low(Free \ {a}) IN
     /\ pair' = {a, b} /\ tab' = [tab EXCEPT ![a] = "pair", ![b] = "pair"] /\ reg' = [reg EXCEPT ![a] = "pair"]
  /\ UNCHANGED <<lsn, fdof, st, runs, bad>>
\* begins to serve; the address may be taken
Work ==
  /\ srv = "down" /\ runs < MaxRuns /\ Free # {} /\ runs' = runs + 1
  /\ \/ /\ srv' = "up" /\ lsn' = Low(Free) /\ tab' = [tab EXCEPT ![lsn'] = "lsn"] /\ reg' = [reg EXCEPT ![lsn'] = "lsn"]
     \/ /\ tab' = (IF Bug = "bindleak" THEN [tab EXCEPT ![Low(Free)] = "lsn"] ELSE tab) /\ UNCHANGED <<srv, lsn, reg>>
  /\ UNCHANGED <<pair, fdof, st, bad>>
Accept(c) ==
  /\ srv = "up" /\ st[c] = "no" /\ Free # {}
  /\ LET f == Low(Free) IN
     \/ /\ st' = [st EXCEPT ![c] = "open"] /\ fdof' = [fdof EXCEPT ![c] = f] /\ tab' = [tab EXCEPT ![f] = c]
        /\ reg' = [reg EXCEPT ![f] = IF @ = "" THEN c ELSE @]
     \/ /\ st' = [st EXCEPT ![c] = "done"] /\ tab' = (IF Bug = "denyleak" THEN [tab EXCEPT ![f] = c] ELSE tab) /\ UNCHANGED <<fdof, reg>>
  /\ UNCHANGED <<srv, pair, lsn, runs, bad>>
Over(c) == st[c] = "open" /\ st' = [st EXCEPT ![c] = "over"] /\ UNCHANGED <<tab, srv, pair, lsn, fdof, reg, runs, bad>>
\* the connection is forgotten by the reactor and closed
Finish(c) ==
  /\ srv = "up" /\ st[c] = "over" /\ Bug # "late"
  /\ Closing(fdof[c], c)
  /\ st' = [st EXCEPT ![c] = IF Bug = "twice" THEN "half" ELSE "done"]
  /\ reg' = [reg EXCEPT ![fdof[c]] = ""] /\ UNCHANGED <<srv, pair, lsn, fdof, runs>>
\* variant: closed first and forgotten (or closed again) some time later
Half(c) == /\ srv = "up" /\ st[c] = "over" /\ Bug = "late" /\ Closing(fdof[c], c) /\ st' = [st EXCEPT ![c] = "half"]
           /\ UNCHANGED <<srv, pair, lsn, fdof, reg, runs>>
Rest(c) == /\ srv = "up" /\ st[c] = "half" /\ st' = [st EXCEPT ![c] = "done"]
           /\ IF Bug = "twice" THEN Closing(fdof[c], c) /\ UNCHANGED reg ELSE reg' = [reg EXCEPT ![fdof[c]] = ""] /\ UNCHANGED <<tab, bad>>
           /\ UNCHANGED <<srv, pair, lsn, fdof, runs>>
Stop == /\ srv = "up" /\ srv' = "down" /\ lsn' = 0 /\ reg' = [reg EXCEPT ![lsn] = ""]
        /\ IF Bug = "keeplsn" THEN UNCHANGED <<tab, bad>> ELSE Closing(lsn, "lsn")
        /\ UNCHANGED <<pair, fdof, st, runs>>
Destroy ==
  /\ srv = "down" /\ srv' = "dead" /\ \A c \in Conns : st[c] \in {"no", "done"}
  /\ LET rel == IF Bug = "halfpair" THEN {Low(pair)} ELSE pair IN tab' = [f \in Fds |-> IF f \in rel THEN "" ELSE tab[f]] /\ bad' = (bad \/ \E f \in rel : tab[f] # "pair")
  /\ pair' = {} /\ reg' = [f \in Fds |-> ""] /\ UNCHANGED <<lsn, fdof, st, runs>>
Next == UserOpen \/ UserClose \/ Construct \/ Work \/ Stop \/ Destroy \/ \E c \in Conns : Accept(c) \/ Over(c) \/ Finish(c) \/ Half(c) \/ Rest(c)
Spec == Init /\ [][Next]_vars

OwnOnly == ~bad
\* whom the reactor calls for a descriptor is the one who owns it
Found == \A f \in Fds : reg[f] # "" => tab[f] = reg[f]
AllFound == \A c \in Conns : st[c] = "open" => reg[fdof[c]] = c
Released == srv = "dead" => \A f \in Fds : tab[f] \in {"", "user"}
\* stopped and without connections it holds what it held at first
Level == srv = "down" /\ (\A c \in Conns : st[c] \in {"no", "done"}) => Cardinality({f \in Fds : tab[f] \notin {"", "user"}}) = 2
=============================================================================
