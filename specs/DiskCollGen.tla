----------------------------- MODULE DiskCollGen -----------------------------
(* Random histories of a disk collection.  Labels are mostly fresh: a        *)
(* repeated one blocks the pending rows until the handle is closed.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Engine == IOEnv.ENGINE
VARIABLES hist, c, used, last, opn   \* opn: does the history hold a handle (as far as can be foreseen)
R(S) == RandomElement(S)
T(x) == ToString(x)
Join(s, sep) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o sep \o b, "", s)
CosVec(u) == IF R(1..2) = 1 THEN LET a == R({1, 2, 3, 5}) IN [d \in 1..c.dim |-> T(IF R(1..2) = 1 THEN a ELSE -a)]
             ELSE LET k == R(1..c.dim) a == R({-4, -3, -1, 1, 2, 7}) IN [d \in 1..c.dim |-> IF d = k THEN T(a) ELSE "0"]
Odd(u) == LET k == R(1..c.dim) a == R({"n", "i", "-i"}) IN [d \in 1..c.dim |-> IF d = k THEN a ELSE "1"]
Vec(u) == Join(IF c.metric = "cos" THEN (IF R(1..60) = 1 THEN [d \in 1..c.dim |-> "0"] ELSE IF R(1..60) = 1 THEN Odd(0) ELSE CosVec(0))
               ELSE IF R(1..60) = 1 THEN Odd(0) ELSE [d \in 1..c.dim |-> T(R(-3..3))], ",")
Fresh == (1..48) \ used
Draw(n, u) == FoldLeft(LAMBDA p, k : LET f == Fresh \ {p[j] : j \in 1..Len(p)} IN
                                       Append(p, IF f = {} \/ R(1..70) = 1 THEN R(1..48) ELSE R(f)), <<>>, [k \in 1..n |-> k])
Vecs(n, u) == Join([k \in 1..n |-> Vec(k)], "/")
Ef(u) == R({1, 2, 5, 64})
K(u) == R({1, 1, 2, 3, 5, 10, 60, 0})
Pick(w) ==
  CASE w <= 4 -> LET n == R({0, 1, 2, 2, 3, 4, 6, 9}) IN LET l == Draw(n, 0) IN
                  [t |-> IF n = 0 THEN "A - -" ELSE "A " \o Join([k \in 1..n |-> T(l[k])], ",") \o " " \o Vecs(n, 0), l |-> {l[k] : k \in 1..n}]
    [] w <= 7 -> [t |-> "F", l |-> {}]
    [] w <= 10 -> [t |-> "S " \o T(K(0)) \o " " \o T(Ef(0)) \o " " \o Vec(0), l |-> {}]
    [] w <= 12 -> LET n == R({0, 1, 2, 5}) IN
                  [t |-> "B " \o T(K(0)) \o " " \o T(Ef(0)) \o " " \o T(R({0, 1, 1, 2, 4})) \o " " \o T(R({0, 1})) \o " " \o (IF n = 0 THEN "-" ELSE Vecs(n, 0)), l |-> {}]
    [] w = 13 -> [t |-> "N", l |-> {}]
    [] w = 14 -> [t |-> R({"O", "C2", "O2", "OX", "CX", "R o 3", "R c 3", "P o 3", "P c 3"}), l |-> {}]
    [] w = 15 -> [t |-> "N", l |-> {}]
    [] OTHER -> [t |-> "Z", l |-> {}]
\* after an explicit removal only a creation makes sense
Closed(w) == [l |-> {}, t |-> IF last = "X" THEN (IF w <= 4 THEN R({"R", "P"}) \o R({" c 3", " m 4"}) ELSE IF w <= 5 THEN "CX" ELSE IF w = 6 THEN "O" ELSE "C")
                              ELSE IF w <= 14 THEN "O" ELSE IF w = 15 THEN "X" ELSE <<"O2", "OX", "CX", R({"R", "P"}) \o " o 3", "C">>[w - 15]]
Init == c = [dim |-> 0, metric |-> "", cap |-> 0, r |-> 0, l |-> 0, th |-> 0] /\ hist = <<>> /\ used = {} /\ last = "" /\ opn = FALSE
Config(u) == LET r == R({2, 4, 64}) IN
  [dim |-> R({1, 4, 4, 8}), metric |-> IF Engine = "vamana" THEN R({"l2", "l2f"}) ELSE R({"l2", "ip", "l2f", "ipf", "cos"}), cap |-> R({0, 5, 9, -1, -1, -1, -1, -1}), r |-> r,
   l |-> R({r, r + 60}), th |-> R({1, 1, 2, 0})]
Final(u) == <<"S 60 64 " \o Vec(0), "N", "Z", "O", "S 60 64 " \o Vec(0), "N", "F", "N", "B 3 64 2 1 " \o Vecs(3, 0)>>
HeadOf(x) == T(x.dim) \o " " \o x.metric \o " " \o Engine \o " " \o T(x.cap) \o " " \o T(x.r) \o " " \o T(x.l) \o " " \o T(x.th)
Done == Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> HeadOf(c), cmds |-> hist' \o Final(0)]))
Next == IF c.dim = 0 THEN c' = (LET x == Config(hist) IN IF x.metric = "cos" /\ x.dim = 8 THEN [x EXCEPT !.dim = 4] ELSE x) /\ UNCHANGED <<hist, used, last, opn>>
        ELSE /\ Len(hist) < Depth
             /\ IF hist = <<>> THEN hist' = <<"C">> /\ opn' = TRUE /\ UNCHANGED <<used, last>>
                ELSE \E p \in {IF opn THEN Pick(R(1..16)) ELSE Closed(R(1..20))} :
                       hist' = Append(hist, p.t) /\ used' = used \cup p.l /\ last' = p.t
                         /\ opn' = (IF p.t = "Z" THEN FALSE ELSE IF p.t \in {"C", "O"} THEN TRUE ELSE opn)
             /\ UNCHANGED c
             /\ Done
=============================================================================
