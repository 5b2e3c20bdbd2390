---------------------------- MODULE PageStoreGen ----------------------------
(* Random histories of the page layer and the hot-node cache.                *)
EXTENDS PageGeo, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, c
R(S) == RandomElement(S)
T(x) == ToString(x)
Join(s, sep) == IF s = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, x : a \o (IF a = "" THEN "" ELSE sep) \o x, "", s)
\* <<dimension, degree>>: many nodes per page, few, one, one node over several sectors, no slack at all, no neighbours
Shapes == {<<3, 4>>, <<100, 3>>, <<300, 40>>, <<340, 1>>, <<500, 8>>, <<600, 60>>, <<1200, 32>>, <<1023, 0>>, <<2047, 2>>, <<1, 0>>, <<16, 20>>}
Some(n, u) == <<>> \o [k \in 1..n |-> R(u)]
Nb(d) == Join(<<>> \o [k \in 1..R(0..d) |-> T(R(0..30))], ",")
Graph(n, d) == IF n = 0 THEN "-" ELSE Join(<<>> \o [k \in 1..n |-> Nb(IF d > 4 /\ R(1..5) > 1 THEN 4 ELSE d)], ";")
GraphIn(n, d) == Join(<<>> \o [k \in 1..n |-> Join(<<>> \o [j \in 1..R(0..(IF d > 3 THEN 3 ELSE d)) |-> T(R(0..(n - 1)))], ",")], ";")
Deg == c.r
\* numbers near page boundaries, inside and a little beyond the file
Id(u) == LET p == PerPage(c.d, c.r)
             q == R(0..c.far)
         IN (q * p) + R({0, p - 1, R(0..(p - 1))})
Ids(u) == Join(<<>> \o [k \in 1..R(1..6) |-> T(Id(k))], ",")
In(u) == IF R(1..12) = 1 THEN Id(0) ELSE R(0..(c.n - 1))
Ins(u) == Join(<<>> \o [k \in 1..R(1..6) |-> T(In(k))], ",")
Full(u) == IF R(1..25) = 1 THEN Deg + R(1..3) ELSE R({0, R(0..Deg), Deg})
List(n) == Join(<<>> \o [k \in 1..n |-> T(R(0..99))], ",")
B(u) == T(R(1..5000))
Par(u) == "|| " \o T(R(1..3)) \o " " \o T(R(1..3)) \o " " \o T(R(5..20)) \o " " \o T(R(1..100000)) \o " " \o Ids(0)
Hurt(u) == "! " \o T(R({1, 1, 1, 2})) \o " " \o
  R({"W " \o T(Id(0)) \o " " \o B(0) \o " " \o List(Full(0)), "W " \o T(In(0)) \o " " \o B(0) \o " " \o List(Full(0)), "N " \o T(In(0)) \o " " \o List(Full(0)),
     "r " \o T(In(0)), "c " \o T(In(0)), "B " \o Ins(0), "l " \o T(R(1..3)), "F"})
PickPage(w) ==
  CASE w <= 6 -> "W " \o T(Id(0)) \o " " \o B(0) \o " " \o List(Full(0))
    [] w <= 8 -> "W " \o T(In(0)) \o " " \o B(0) \o " " \o List(Full(0))
    [] w <= 12 -> "N " \o T(In(0)) \o " " \o List(Full(0))
    [] w <= 14 -> "N " \o T(Id(0)) \o " " \o List(Full(0))
    [] w <= 17 -> "r " \o T(R({In(0), Id(0)}))
    [] w <= 19 -> "c " \o T(R({In(0), Id(0)}))
    [] w = 20 -> "K"
    [] w = 21 -> "B " \o R({Ins(0), Ids(0)})
    [] w = 22 -> "Bp " \o R({Ins(0), Ids(0)}) \o " " \o T(R(1..4))
    [] w = 23 -> "Ba " \o R({Ins(0), Ids(0)})
    [] w <= 25 -> "A " \o R({Ins(0), Ids(0)}) \o " " \o R({"p", "1", "3"})
    [] w = 26 -> "P " \o R({Ins(0), Ids(0)})
    [] w = 27 -> "Pc " \o R({Ins(0), Ids(0)})
    [] w <= 30 -> "k " \o T(R({In(0), Id(0)})) \o " " \o T(R(1..3)) \o " " \o T(R(0..1))
    [] w = 31 -> "d " \o T(R(1..3))
    [] w <= 34 -> "l " \o T(R(1..3))
    [] w = 35 -> "t " \o T(R({In(0), Id(0)}))
    [] w = 36 -> R({"F", "F", "! 1 F", "! 2 F", "! 3 F"})
    [] w = 37 -> IF R(1..3) = 1 THEN "O " \o T(R({0, 1, 2, 5, 64, 200})) ELSE "r " \o T(In(0))
    [] w = 38 -> "H " \o Graph(R({0, 1, 2, 3, R(1..12)}), Deg + (IF R(1..8) = 1 THEN 1 ELSE 0)) \o " " \o T(R({0, 0, 1, R(0..12)})) \o " " \o T(R(-1..7)) \o " " \o T(R({1, -1, R(-5000..5000), 4096, -4096}))
    [] w = 39 -> Hurt(0)
    [] OTHER -> Par(0)
Cid(u) == T(R(0..(c.n + 5)))
PickCache(w) ==
  CASE w <= 10 -> "u " \o Cid(0) \o " " \o B(0) \o " " \o List(Full(0))
    [] w <= 18 -> "n " \o Cid(0) \o " " \o List(Full(0))
    [] w <= 30 -> "q " \o Cid(0)
    [] w <= 32 -> "D"
    [] w <= 35 -> "z"
    [] w <= 37 -> "S"
    [] OTHER -> "X " \o R({"ids", "nodes"}) \o " " \o T(R(0..5000))
Init == c = [kind |-> "", d |-> 1, r |-> 1, n |-> 0, far |-> 0, head |-> ""] /\ hist = <<>>
Config(u) ==
  LET s == R(Shapes)
      kind == R({"pages", "pages", "pages", "cache"})
      n == R({1, 2, R(1..8), R(1..20)})
  IN [kind |-> kind, d |-> s[1], r |-> s[2], n |-> n, far |-> R({2, 4, 9}),
      head |-> IF kind = "cache"
               THEN "cache " \o T(s[1]) \o " " \o T(s[2]) \o " " \o GraphIn(n, s[2] + 2) \o " " \o T(R(0..(n - 1))) \o " " \o T(R({0, -5, 1, 25, 33, 50, 75, 100, 150}))
               ELSE "pages " \o T(s[1]) \o " " \o T(s[2]) \o " " \o Graph(n, s[2]) \o " " \o T(R({0, 1, 1, 2, 3, 64, 130})) \o " " \o T(R(0..1)) \o " " \o T(R(1..1000))]
Next == IF c.kind = "" THEN (\E x \in {Config(hist)} : c' = x) /\ UNCHANGED hist
        ELSE /\ Len(hist) < Depth
             /\ \E w \in {R(1..40)} : hist' = Append(hist, IF c.kind = "cache" THEN PickCache(w) ELSE PickPage(w))
             /\ UNCHANGED c
             /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> c.head, cmds |-> hist' \o (IF c.kind = "cache" THEN <<"z", "S", "z">> ELSE <<"F">>)])))
=============================================================================
