------------------------------ MODULE VamanaGen ------------------------------
(* Random data sets, many of them tiny or full of duplicates, and everything    *)
(* that may be built from them.                                                 *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, head
R(S) == RandomElement(S)
T(x) == ToString(x)
Join(s) == FoldLeft(LAMBDA o, x : IF o = "" THEN T(x) ELSE o \o "," \o T(x), "", s)
Draw(k, m) == Join(<<>> \o [j \in 1..k |-> R(0..m)])
Size(u) == IF R(1..3) = 1 THEN R(1..4) ELSE R(5..40)
Config(u) == \E dim \in {R(1..3)}, n \in {Size(u)}, m \in {R({0, 1, 2, 5, 20, 100})} :
  head' = [dim |-> dim, n |-> n, m |-> m, s |-> "v " \o T(dim) \o " " \o T(n) \o " " \o Draw(n * dim, m)]
Alpha(u) == T(R({10, 12, 12, 15, 20}))
Deg(u) == R({1, 2, 3, 4, 8})
Pick(w) ==
  CASE w <= 3 -> "B " \o T(Deg(0)) \o " " \o T(R({1, 4, 8, 30})) \o " " \o Alpha(0) \o " " \o T(R({1, 1, 4}))
    [] w <= 7 -> "P " \o T(R(0..40)) \o " " \o T(R({0, 1, 2, 3, 5, 40})) \o " " \o Alpha(0) \o " " \o T(R({1, 3, 750})) \o " " \o Draw(R(0..15) + 1, 60)
    [] w <= 10 -> \* some centres coincide with vectors, some lie far away, some coincide
         "A " \o T(R({1, 2, 2, 2, 3, 3, 0})) \o " " \o T(R({1, 2, 7, 1000})) \o " " \o
           Join(<<>> \o [j \in 1..(R(1..5) * head.dim) |-> IF R(1..6) = 1 THEN 1000 ELSE R(0..(head.m + 1))])
    [] w <= 13 -> "M " \o T(Deg(0)) \o " " \o T(R(0..6)) \o " " \o T(R(0..40)) \o " " \o T(R(1..100000))
    [] w <= 16 -> "W " \o T(IF R(1..5) = 1 THEN R(1..3) ELSE R(4..30)) \o " " \o T(R(1..6)) \o " 0 " \o T(R(1..100000)) \o " " \o
           R({"none", "none", "none", "zero", "self", "range", "degree", "start", "frozen", "cut", "longer"})
    [] w = 22 -> "H " \o T(R({2, 4, 6, 16})) \o " " \o T(R({1, 5, 40})) \o " 0 " \o T(R({1, 1, 4}))
    [] OTHER -> "G " \o T(Deg(0)) \o " " \o T(R({4, 8, 20})) \o " " \o Alpha(0) \o " 4 " \o T(R({2500, 4500})) \o " " \o T(R({1, 2, 30, 1000})) \o " " \o T(R(1..1000))
Dispatch(u) ==
  LET deg == Deg(0) IN
  CASE R(1..14) = 1 -> R({"D 0 4 12 1 200 1 0", "D 4 3 12 1 200 1 0", "D 4 8 9 1 200 1 0", "D 4 8 12 1 200 1 0 7"})
    [] R(1..14) <= 4 -> "D " \o T(deg) \o " " \o T(deg + R({0, 1, 20})) \o " " \o Alpha(0) \o " " \o T(R({1, 4})) \o " 200 1 0"
    [] OTHER -> "D " \o T(deg) \o " " \o T(deg + R({0, 1, 20})) \o " " \o Alpha(0) \o " " \o T(R({1, 4})) \o " " \o T(R({20, 40, 60, 80, 90, 95})) \o " " \o T(R(1..1000)) \o " " \o T(R({0, 0, 0, 7}))
Init == hist = <<>> /\ head = [n |-> 0]
Next == IF head.n = 0 THEN Config(hist) /\ UNCHANGED hist
        ELSE /\ Len(hist) < Depth
             /\ UNCHANGED head
             /\ \E w \in {R(1..(IF R(1..12) = 1 THEN 23 ELSE 22))} : hist' = Append(hist, IF w \in 17..21 THEN Dispatch(0) ELSE Pick(w))
             /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> head.s, cmds |-> hist'])))
=============================================================================
