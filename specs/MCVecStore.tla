------------------------------ MODULE MCVecStore -------------------------------
(* A space as it is built - the slot array with its bitmap, the two counters,  *)
(* the scalar records by slot and the item index - stepped beside VecStore.    *)
(* Wrong designs:                                                              *)
(*   CountRefused   a refused insertion is counted                             *)
(*   TakeFirst      the slot is taken before the item id is checked            *)
(*   CountTwice     removing a removed slot is counted                         *)
EXTENDS VecStore, TLC
CONSTANTS Vals, Items, Cap, CountRefused, TakeFirst, CountTwice
VARIABLES arr, bits, num, del, recs
cvars == <<arr, bits, num, del, recs>>
Vec(x) == <<x>>
MCInit == /\ kind = "raws" /\ cap = Cap /\ metric = "l2" /\ slots = <<>> /\ live = {} /\ item = <<>> /\ lo = <<>> /\ hi = <<>>
          /\ arr = <<>> /\ bits = {} /\ num = 0 /\ del = 0 /\ recs = [i \in {} |-> "-"]
Set(i, it) == [j \in DOMAIN recs \cup {i} |-> IF j = i THEN it ELSE recs[j]]
Dup(it) == it # "-" /\ \E j \in DOMAIN recs : recs[j] = it
\* what the code does, with its answer
CIns(v, it, res) ==
  IF Dup(it) /\ ~TakeFirst THEN res = -3 /\ UNCHANGED cvars
  ELSE IF Len(arr) = cap THEN /\ res = -1 /\ num' = (IF CountRefused THEN num + 1 ELSE num) /\ UNCHANGED <<arr, bits, del, recs>>
  ELSE /\ arr' = Append(arr, v) /\ num' = num + 1
       /\ IF Dup(it) THEN res = -3 /\ UNCHANGED <<bits, del, recs>>
          ELSE res = Len(arr) /\ bits' = bits \cup {Len(arr)} /\ recs' = Set(Len(arr), it) /\ UNCHANGED del
CDel(i, res) ==
  /\ recs' = [j \in DOMAIN recs \ {i} |-> recs[j]]
  /\ bits' = bits \ {i} /\ res = (IF i \in bits THEN i ELSE -1)
  /\ del' = (IF i \in bits \/ CountTwice THEN del + 1 ELSE del) /\ UNCHANGED <<arr, num>>
CFit(vs, its) ==
  /\ arr' = vs /\ bits' = 0..(Len(vs) - 1) /\ num' = Len(vs) /\ recs' = [i \in 0..(Len(vs) - 1) |-> its[i + 1]] /\ UNCHANGED del
Res == {-3, -1} \cup 0..Cap
MCNext == \/ \E x \in Vals, it \in Items, r \in Res : CIns(Vec(x), it, r) /\ Insert(Vec(x), it, r)
          \/ \E i \in 0..(Cap - 1), r \in Res : i < Len(slots) /\ CDel(i, r) /\ Remove(i, r)
          \/ slots = <<>> /\ \E x \in Vals : Fit(<<Vec(x), Vec(x)>>, <<"a", "-">>, 1) /\ CFit(<<Vec(x), Vec(x)>>, <<"a", "-">>)
\* the code always has an answer that the model allows
Answered == /\ \A x \in Vals, it \in Items : \E r \in Res : ENABLED (CIns(Vec(x), it, r) /\ Insert(Vec(x), it, r))
            /\ \A i \in 0..(Len(slots) - 1) : \E r \in Res : ENABLED (CDel(i, r) /\ Remove(i, r))
Agree == /\ arr = slots /\ bits = live /\ num = Used /\ num - del = Cardinality(live)
         /\ DOMAIN recs = live /\ \A i \in live : recs[i] = item[i + 1]
Bounded == Used <= cap
=============================================================================
