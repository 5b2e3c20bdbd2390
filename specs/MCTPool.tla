------------------------------- MODULE MCTPool -------------------------------
(* The thread pool as built: one mutex, one queue, a condition for work and   *)
(* one for completion. Every step below is one critical section. Clients      *)
(* submit, then wait for all tasks; the first one finally ends the pool.      *)
(* A state from which nothing can go on although somebody still waits is a    *)
(* deadlock for TLC.                                                          *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Workers, Clients, First, PerClient, WRONG
VARIABLES q, at, sub, comp, stop, ran, task
vars == <<q, at, sub, comp, stop, ran, task>>
N == Cardinality(Clients) * PerClient
Wake1(S, to) == IF S = {} THEN {at} ELSE {[at EXCEPT ![x] = to] : x \in S}
Asleep(kind) == {x \in DOMAIN at : at[x] = kind}
Init == /\ q = <<>> /\ comp = 0 /\ stop = FALSE /\ sub = [c \in Clients |-> 0] /\ ran = [k \in 1..N |-> 0]
        /\ at = [x \in Workers \cup Clients |-> IF x \in Workers THEN "look" ELSE "submit"] /\ task = [w \in Workers |-> 0]
FoldSub(f) == LET RECURSIVE S(_) S(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + S(D \ {x}) IN S(Clients)
Submit(c) ==
  /\ at[c] = "submit"
  /\ IF sub[c] = PerClient THEN at' = [at EXCEPT ![c] = "wait"] /\ UNCHANGED <<q, sub>>
     ELSE /\ q' = Append(q, FoldSub(sub) + 1) /\ sub' = [sub EXCEPT ![c] = @ + 1]
          /\ at' \in Wake1(Asleep("idle"), "look")
  /\ UNCHANGED <<comp, stop, ran, task>>
Look(w) ==
  /\ at[w] = "look"
  /\ IF stop /\ (q = <<>> \/ WRONG = "stop drops") THEN at' = [at EXCEPT ![w] = "ended"] /\ UNCHANGED <<q, task>>
     ELSE IF q = <<>> THEN at' = [at EXCEPT ![w] = "idle"] /\ UNCHANGED <<q, task>>
     ELSE at' = [at EXCEPT ![w] = "run"] /\ task' = [task EXCEPT ![w] = Head(q)] /\ q' = (IF WRONG = "keeps head" /\ Len(q) = 1 /\ ran[Head(q)] = 0 THEN q ELSE Tail(q))
  /\ UNCHANGED <<sub, comp, stop, ran>>
Run(w) == at[w] = "run" /\ ran' = [ran EXCEPT ![task[w]] = @ + 1] /\ at' = [at EXCEPT ![w] = "tell"] /\ UNCHANGED <<q, sub, comp, stop, task>>
Tell(w) ==
  /\ at[w] = "tell" /\ comp' = comp + 1
  /\ IF WRONG = "wake one" THEN \E a \in Wake1(Asleep("blocked"), "wait") : at' = [a EXCEPT ![w] = "look"]
     ELSE at' = [x \in DOMAIN at |-> IF x = w THEN "look" ELSE IF at[x] = "blocked" THEN "wait" ELSE at[x]]
  /\ UNCHANGED <<q, sub, stop, ran, task>>
Wait(c) ==
  /\ at[c] = "wait"
  /\ at' = [at EXCEPT ![c] = IF comp = N THEN "back" ELSE "blocked"]
  /\ UNCHANGED <<q, sub, comp, stop, ran, task>>
Stop ==
  /\ at[First] = "back" /\ \A c \in Clients \ {First} : at[c] = "back"
  /\ stop' = TRUE
  /\ at' = [x \in DOMAIN at |-> IF x = First THEN "join" ELSE IF at[x] = "idle" /\ ~(WRONG = "stop wakes one" /\ x # CHOOSE y \in Asleep("idle") : TRUE) THEN "look" ELSE at[x]]
  /\ UNCHANGED <<q, sub, comp, ran, task>>
\* or it ends the pool at once, while tasks are queued
Hasty ==
  /\ at[First] = "wait" /\ Cardinality(Clients) = 1
  /\ stop' = TRUE /\ at' = [x \in DOMAIN at |-> IF x = First THEN "join" ELSE IF at[x] = "idle" THEN "look" ELSE at[x]]
  /\ UNCHANGED <<q, sub, comp, ran, task>>
Join == at[First] = "join" /\ (\A w \in Workers : at[w] = "ended") /\ at' = [at EXCEPT ![First] = "gone"] /\ UNCHANGED <<q, sub, comp, stop, ran, task>>
Over == at[First] = "gone" /\ UNCHANGED vars
Next == \/ \E c \in Clients : Submit(c) \/ Wait(c)
        \/ \E w \in Workers : Look(w) \/ Run(w) \/ Tell(w)
        \/ Stop \/ Hasty \/ Join \/ Over
Once == \A k \in 1..N : ran[k] <= 1
WaitedAll == \A c \in Clients : at[c] = "back" => \A k \in 1..N : ran[k] = 1
Drained == at[First] = "gone" => \A k \in 1..FoldSub(sub) : ran[k] = 1
==============================================================================
