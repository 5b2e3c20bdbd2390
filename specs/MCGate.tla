-------------------------------- MODULE MCGate --------------------------------
(* The gate as built: a list of free objects and a line of waiters under one   *)
(* mutex; a released object goes straight to the first waiter, whose coroutine *)
(* is resumed outside the mutex. Every client asks and gives back Rounds times.*)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Clients, Items, Rounds, WRONG
VARIABLES free, line, at, has, round, order, served
vars == <<free, line, at, has, round, order, served>>
Init == free = Items /\ line = <<>> /\ at = [c \in Clients |-> "want"] /\ has = [c \in Clients |-> {}] /\ round = [c \in Clients |-> 0] /\ order = <<>> /\ served = <<>>
Ask(c) ==
  /\ at[c] = "want" /\ round[c] < Rounds
  /\ IF free # {} THEN \E x \in free : /\ free' = (IF WRONG = "keeps it" THEN free ELSE free \ {x}) /\ has' = [has EXCEPT ![c] = {x}] /\ at' = [at EXCEPT ![c] = "use"]
                                       /\ UNCHANGED <<line, order>>
     ELSE line' = Append(line, c) /\ order' = Append(order, c) /\ at' = [at EXCEPT ![c] = "asleep"] /\ UNCHANGED <<free, has>>
  /\ UNCHANGED <<round, served>>
Give(c) ==
  \E x \in has[c] :
  /\ at[c] = "use" /\ round' = [round EXCEPT ![c] = @ + 1]
  /\ IF line = <<>> \/ WRONG = "forgets line" THEN free' = free \cup {x} /\ has' = [has EXCEPT ![c] = {}] /\ at' = [at EXCEPT ![c] = "want"] /\ UNCHANGED <<line, served>>
     ELSE \E k \in (IF WRONG = "last first" THEN {Len(line)} ELSE {1}) :
          /\ line' = SubSeq(line, 1, k - 1) \o SubSeq(line, k + 1, Len(line)) /\ served' = Append(served, line[k])
          /\ has' = [has EXCEPT ![c] = {}, ![line[k]] = {x}] /\ at' = [at EXCEPT ![c] = "want", ![line[k]] = "called"] /\ UNCHANGED free
  /\ UNCHANGED order
Wake(c) == at[c] = "called" /\ at' = [at EXCEPT ![c] = "use"] /\ UNCHANGED <<free, line, has, round, order, served>>
Over == (\A c \in Clients : at[c] = "want" /\ round[c] = Rounds) /\ UNCHANGED vars
Next == (\E c \in Clients : Ask(c) \/ Give(c) \/ Wake(c)) \/ Over
Exclusive == \A c, d \in Clients : c # d => has[c] \cap has[d] = {}
InOrder == \A k \in 1..Len(served) : served[k] = order[k]
NoneLost == (\A c \in Clients : at[c] = "want") => free = Items
===============================================================================
