----------------------------- MODULE GraphFileGen -----------------------------
(* Random histories of graphs and of whole indices, with their copies through    *)
(* files, and the same operations applied to both.                                *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, head
R(S) == RandomElement(S)
T(x) == ToString(x)
Join(s) == FoldLeft(LAMBDA o, x : IF o = "" THEN T(x) ELSE o \o "," \o T(x), "", s)
Edges(u) == IF R(1..6) = 1 THEN "-" ELSE Join(<<>> \o [j \in 1..R(1..8) |-> R(-1..20)])
N(u) == R({"a", "a", "b"})
F(u) == R({"f", "f", "g"})
GPick(w) ==
  CASE w = 1 -> "N " \o N(0) \o " " \o T(R({1, 2, 5, 8, 9, 16, 17, 20, 64, 65})) \o " " \o T(R({1, 2, 3, 16, 17}))
    [] w <= 8 -> "I " \o N(0) \o " " \o Edges(0)
    [] w <= 11 -> "U " \o N(0) \o " " \o T(R(0..20)) \o " " \o Edges(0)
    [] w <= 14 -> "R " \o N(0) \o " " \o T(R(0..20))
    [] w <= 16 -> "E " \o N(0) \o " " \o (IF R(1..4) = 1 THEN "-" ELSE Join(<<>> \o [j \in 1..R(1..4) |-> R(0..20)]))
    [] w = 17 -> "O " \o N(0) \o " " \o T(R(1..100000))
    [] w <= 20 -> "S " \o N(0) \o " " \o F(0)
    [] w <= 23 -> "L " \o N(0) \o " " \o F(0) \o " " \o R({"fresh", "used"})
    [] w <= 25 -> "? " \o N(0)
    [] OTHER -> "Q " \o N(0) \o " " \o Join(<<>> \o [j \in 1..R(1..20) |-> R(0..30)])
H(u) == R({"x", "x", "y"})
Vec(u) == T(R(1..6)) \o " " \o T(R({1, 5, 50}))
Kind(u) == R({"raw", "raw", "raw", "sq8", "sq8", "sq4", "qg"})
HPick(w) ==
  CASE w = 1 -> "H " \o H(0) \o " " \o head
    [] w <= 6 -> "A " \o H(0) \o " " \o Vec(0) \o " " \o T(R({1, 20}))
    [] w = 7 -> "D " \o H(0) \o " " \o T(R(0..R({2, 10, 30})))
    [] w <= 10 -> "HS " \o H(0) \o " " \o F(0)
    [] w <= 14 -> "HL " \o H(0) \o " " \o F(0)
    [] OTHER -> "K " \o H(0) \o " " \o Vec(0) \o " " \o T(R({1, 3, 10})) \o " " \o T(R({1, 10, 40}))
\* the same questions and additions put to an index and to its copy
Both(cs) == FoldLeft(LAMBDA s, c : FoldLeft(LAMBDA t, d : t \o <<d[1] \o " x " \o d[2], d[1] \o " z " \o d[2]>>, s, <<c>>), <<>>, cs)
Config(u) ==
  \E kind \in {Kind(u)} :
    head' = kind \o " " \o (IF kind = "qg" THEN T(R({40, 100})) ELSE T(R({1, 2, 5, 30, 60}))) \o " " \o T(R({0, 1, 3, 40})) \o " " \o
            T(IF kind = "qg" THEN R({64, 128}) ELSE IF kind = "sq4" THEN R({32, 64}) ELSE R({1, 3, 8, 16, 33})) \o " " \o R({"l2", "ip", "cos"}) \o " " \o T(R({2, 4, 16})) \o " " \o
            T(R({10, 40})) \o " " \o T(R(1..1000)) \o " " \o T(R({1, 5, 50}))
Init == hist = <<>> /\ head = ""
Next ==
  IF head = "" THEN (IF R(1..2) = 1 THEN head' = "graphs" ELSE Config(0)) /\ UNCHANGED hist
  ELSE /\ Len(hist) < Depth
       /\ UNCHANGED head
       /\ \E w \in {R(1..28)} :
            hist' = IF head = "graphs" THEN (IF hist = <<>> THEN <<"N a 9 3", "N b 20 17">> ELSE <<>>) \o Append(hist, GPick(w))
                    ELSE IF hist = <<>> THEN <<"H x " \o head>>
                    ELSE IF w > 22 THEN hist \o <<"HS x h", "HL z h">> \o
                                        Both(<<>> \o [j \in 1..R(2..6) |-> IF R(1..6) = 1 THEN <<"D", T(R(0..R({2, 10})))>> ELSE IF R(1..2) = 1 THEN <<"A", Vec(j) \o " 20">> ELSE <<"K", Vec(j) \o " 5 20">>])
                    ELSE Append(hist, HPick(w))
       /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> "graphs", cmds |-> hist'])))
===============================================================================
