----------------------------- MODULE VecStoreGen -----------------------------
(* Random histories of the vector stores.                                    *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, c, n
R(S) == RandomElement(S)
T(x) == ToString(x)
Str(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN T(b) ELSE a \o "," \o T(b), "", s)
Kinds == <<"raw", "raws", "rawd", "raw8", "sq8", "sq8s", "sq4", "sq4s", "seq", "raws", "sq8s", "sq4s">>
Quant == c.kind \in {"sq8", "sq8s", "sq4", "sq4s"}
Comp(u) == R(IF R(1..3) = 1 THEN {0, 16} ELSE -2..17)
Vec(u) == Str([d \in 1..c.dim |-> Comp(0)])
FitVec(k) == IF k = 1 /\ Quant THEN Str([d \in 1..c.dim |-> R({0, 0, 0, 8})]) ELSE IF k = 2 /\ Quant THEN Str([d \in 1..c.dim |-> R({16, 16, 8, 9})])
             ELSE Str([d \in 1..c.dim |-> R(8..16)])
Item(u) == R({"a", "b", "c", "d", "e", "-"})
Items == <<"f", "g", "a", "b", "c">>
Id(u) == T(R(0..IF n < c.cap THEN n ELSE c.cap - 1))
Pick(w) ==
  CASE w <= 8 -> "I " \o Vec(0) \o " " \o Item(0)
    [] w <= 12 -> "D " \o Id(0)
    [] w = 13 -> "X " \o Item(0)
    [] w <= 15 -> "U " \o Id(0) \o " " \o Vec(0)
    [] w = 16 -> "L"
    [] w <= 19 -> "?"
    [] w = 20 -> "Q " \o Vec(0)
    [] OTHER -> "G " \o Id(0) \o " " \o Id(0)
\* The configuration is drawn in the first step: TLC computes the initial states once for all behaviours.
Init == c = [kind |-> "", cap |-> 0, dim |-> 0, metric |-> ""] /\ hist = <<>> /\ n = 0
Config(u) == [kind |-> Kinds[R(1..12)], cap |-> R({1, 2, 3, 7, 8, 9, 17}), dim |-> R({1, 2, 3, 5, 8, 17}), metric |-> R({"l2", "ip"})]
First == \E k \in {R(1..(IF R(1..9) = 1 /\ c.kind \in {"raw", "rawd", "raw8"} THEN c.cap + 1 ELSE IF c.cap > 5 THEN 5 ELSE c.cap))} :
           /\ k <= 5
           /\ hist' = <<FoldLeft(LAMBDA a, j : a \o " " \o FitVec(j) \o "/" \o Items[j], "F", [j \in 1..k |-> j]), "?">>
           /\ n' = k
Done == Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> c.kind \o " " \o T(c.cap) \o " " \o T(c.dim) \o " " \o c.metric,
                                        cmds |-> hist' \o <<"?", "Q " \o Vec(0), "L", "?", "I " \o Vec(0) \o " " \o Item(0), "?", "Q " \o Vec(0)>>]))
Next == IF c.cap = 0 THEN c' = Config(hist) /\ UNCHANGED <<hist, n>>
        ELSE /\ Len(hist) < Depth
             /\ IF hist = <<>> THEN First
                ELSE \E w \in {R(1..22)} : hist' = Append(hist, Pick(w)) /\ n' = (IF w <= 8 THEN n + 1 ELSE n)
             /\ UNCHANGED c
             /\ Done
=============================================================================
