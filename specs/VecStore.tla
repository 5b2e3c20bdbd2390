------------------------------- MODULE VecStore ------------------------------
(* A vector store: numbered slots handed out in order and never again, each   *)
(* holding a vector (and possibly an item id) until removed.                  *)
EXTENDS Values
VARIABLES kind, cap, metric, slots, live, item, lo, hi
vvars == <<kind, cap, metric, slots, live, item, lo, hi>>
Scalar == kind \in {"raws", "sq8s", "sq4s"}
Levels == IF kind \in {"sq8", "sq8s"} THEN 255 ELSE IF kind \in {"sq4", "sq4s"} THEN 15 ELSE 0
Used == Len(slots)
Taken(it) == Scalar /\ it # "-" /\ \E i \in live : item[i + 1] = it

Fit(vs, its, res) ==
  /\ Used = 0
  /\ IF Len(vs) > cap THEN res = -3 /\ UNCHANGED <<slots, live, item, lo, hi>>
     ELSE /\ res = 1
          /\ slots' = vs /\ live' = 0..(Len(vs) - 1) /\ item' = its
          /\ lo' = [d \in 1..Len(vs[1]) |-> CHOOSE x \in {vs[i][d] : i \in 1..Len(vs)} : \A i \in 1..Len(vs) : x <= vs[i][d]]
          /\ hi' = [d \in 1..Len(vs[1]) |-> CHOOSE x \in {vs[i][d] : i \in 1..Len(vs)} : \A i \in 1..Len(vs) : x >= vs[i][d]]
  /\ UNCHANGED <<kind, cap, metric>>
Insert(v, it, res) ==
  IF Used = cap THEN res \in (IF Taken(it) THEN {-1, -3} ELSE {-1}) /\ UNCHANGED vvars
  ELSE IF Taken(it) THEN res = -3 /\ UNCHANGED vvars
  ELSE /\ res = Used
       /\ slots' = Append(slots, v) /\ live' = live \cup {Used} /\ item' = Append(item, it)
       /\ UNCHANGED <<kind, cap, metric, lo, hi>>
Remove(i, res) == /\ res = (IF i \in live THEN i ELSE -1)
                  /\ live' = live \ {i} /\ UNCHANGED <<kind, cap, metric, slots, item, lo, hi>>
RemoveItem(it, res) ==
  IF Taken(it) THEN \E i \in live : item[i + 1] = it /\ res = i /\ live' = live \ {i} /\ UNCHANGED <<kind, cap, metric, slots, item, lo, hi>>
  ELSE res = -3 /\ UNCHANGED vvars
Update(i, v, res) == /\ res = (IF i \in live THEN i ELSE -1)
                     /\ slots' = (IF i \in live THEN [slots EXCEPT ![i + 1] = v] ELSE slots)
                     /\ UNCHANGED <<kind, cap, metric, live, item, lo, hi>>

\* the code of a component: exact where the fitted range is a power of two (binary fractions), otherwise one step of rounding
Pow2 == {1, 2, 4, 8, 16, 32, 64}
CodeOk(c, x, d) ==
  IF lo[d] = hi[d] THEN c = 0
  ELSE IF x >= hi[d] THEN c = Levels
  ELSE IF x <= lo[d] THEN c = 0
  ELSE LET e == ((x - lo[d]) * Levels) \div (hi[d] - lo[d]) IN
       IF hi[d] - lo[d] \in Pow2 THEN c = e ELSE c \in {e - 1, e, e + 1}
Stored(got, v) ==
  IF Levels = 0 THEN got = v
  ELSE IF Levels = 255 THEN Len(got) = Len(v) /\ \A d \in 1..Len(v) : CodeOk(got[d], v[d], d)
  ELSE /\ Len(got) = (Len(v) + 1) \div 2
       /\ \A d \in 1..Len(v) : CodeOk(IF d % 2 = 1 THEN got[(d + 1) \div 2] \div 16 ELSE got[d \div 2] % 16, v[d], d)
State(e) ==
  /\ e.num = Used /\ e.cap = cap
  /\ e.avl \in {-1, Cardinality(live)}
  /\ Len(e.slots) = Used
  /\ \A i \in live : Stored(e.slots[i + 1], slots[i + 1]) /\ (Scalar => e.items[i + 1] = item[i + 1])
Dist(a, b) == IF metric = "ip" THEN 0 - Dot(a, b) ELSE L2(a, b)
Dists(e) ==
  (Levels = 0 /\ kind # "seq") =>
     /\ Len(e.d) = Used
     /\ \A i \in 1..Used : IF (i - 1) \in live THEN e.d[i] = Dist(e.q, slots[i]) ELSE e.d[i] = "max"
Pair(e) ==
  (Levels = 0 /\ kind # "seq" /\ e.i \in live /\ e.j \in live) =>
     e.d = Dist(slots[e.i + 1], slots[e.j + 1]) /\ e.c = e.d
=============================================================================
