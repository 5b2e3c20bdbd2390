-------------------------------- MODULE MCLock --------------------------------
(* The shared lock as built: one number, -1 exclusive, k > 0 shared by k; every *)
(* access is one atomic step. Turning exclusive into shared lets readers in.    *)
EXTENDS Integers, FiniteSets
CONSTANTS Clients, Rounds, WRONG
VARIABLES s, at, seen, left
vars == <<s, at, seen, left>>
Init == s = 0 /\ at = [c \in Clients |-> "out"] /\ seen = [c \in Clients |-> 0] /\ left = [c \in Clients |-> Rounds]
Start(c) == at[c] = "out" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1] /\ (\E w \in {"x", "r", "d"} : at' = [at EXCEPT ![c] = w]) /\ UNCHANGED <<s, seen>>
Load(c) == at[c] = "r" /\ s # -1 /\ seen' = [seen EXCEPT ![c] = s] /\ at' = [at EXCEPT ![c] = "cas"] /\ UNCHANGED <<s, left>>
Cas(c) == at[c] = "cas" /\ (IF s = seen[c] \/ (WRONG = "blind" /\ s # -1) THEN s' = seen[c] + 1 /\ at' = [at EXCEPT ![c] = "R"] ELSE at' = [at EXCEPT ![c] = "r"] /\ UNCHANGED s) /\ UNCHANGED <<seen, left>>
Excl(c) == at[c] \in {"x", "d"} /\ (s = 0 \/ (WRONG = "over readers" /\ s # -1)) /\ s' = -1 /\ at' = [at EXCEPT ![c] = IF @ = "x" THEN "X" ELSE "D"] /\ UNCHANGED <<seen, left>>
Out(c) ==
  /\ at[c] \in {"X", "R", "D"}
  /\ CASE at[c] = "X" -> s' = 0 /\ at' = [at EXCEPT ![c] = "out"]
       [] at[c] = "R" -> s' = s - 1 /\ at' = [at EXCEPT ![c] = "out"]
       [] OTHER -> s' = (IF WRONG = "degrade to free" THEN 0 ELSE 1) /\ at' = [at EXCEPT ![c] = "R"]
  /\ UNCHANGED <<seen, left>>
Over == (\A c \in Clients : at[c] = "out" /\ left[c] = 0) /\ s = 0 /\ UNCHANGED vars
Next == (\E c \in Clients : Start(c) \/ Load(c) \/ Cas(c) \/ Excl(c) \/ Out(c)) \/ Over
Inside(k) == {c \in Clients : at[c] \in k}
Exclusive == Cardinality(Inside({"X", "D"})) <= 1 /\ (Inside({"X", "D"}) # {} => Inside({"R"}) = {})
Counted == s = (IF Inside({"X", "D"}) # {} THEN -1 ELSE Cardinality(Inside({"R"})))
===============================================================================
