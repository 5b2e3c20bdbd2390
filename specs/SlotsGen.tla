------------------------------ MODULE SlotsGen ------------------------------
(* Random histories of slot allocators and deletion marks.                   *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, c
R(S) == RandomElement(S)
T(x) == ToString(x)
Sizes == {0, 1, 2, 3, 63, 64, 65, 5, 1000, 65534, 65535, 65536, 65537}
Ids == {0, 1, 2, 3, 62, 63, 64, 65, 127, 128, 65534, 65535, 65536, 65537, 131071, 131072, 200000}
K(u) == T(R(0..(IF R(1..3) = 1 THEN 70000 ELSE 5)))
Id(u) == IF R(1..12) = 1 THEN "-1" ELSE T(R(Ids))
PickSlots(w) ==
  CASE w <= 7 -> "A"
    [] w <= 11 -> "P " \o K(0)
    [] w <= 17 -> "F " \o K(0)
    [] w = 18 -> "L " \o R({"same", "fresh", "used"})
    [] w = 19 -> "X " \o R({"cut", "cut", "magic", "magic2"}) \o " " \o T(R(0..100))
    [] w = 20 -> "? "
    [] w = 21 -> IF R(1..4) = 1 THEN "R " \o T(R(Sizes)) ELSE "?"
    [] w = 22 -> "Q " \o Id(0)
    [] OTHER -> "|| " \o T(R(1..3)) \o " " \o T(R(0..2)) \o " " \o T(R(4..14)) \o " " \o T(R(1..100000))
PickMarks(w) ==
  CASE w <= 8 -> "S " \o Id(0)
    [] w <= 14 -> "C " \o Id(0)
    [] w <= 16 -> "Q " \o Id(0)
    [] w = 17 -> "L " \o R({"same", "fresh", "used"})
    [] w = 18 -> "X " \o R({"cut", "cut", "magic"}) \o " " \o T(R(0..100))
    [] w <= 20 -> "?"
    [] w = 21 -> IF R(1..4) = 1 THEN "R " \o T(R(Sizes)) ELSE "?"
    [] OTHER -> "|| " \o T(R(1..4)) \o " " \o T(R(0..2)) \o " " \o T(R(4..14)) \o " " \o T(R(1..100000))
Init == c = [kind |-> "", n |-> 0] /\ hist = <<>>
Config(u) == [kind |-> R({"slots", "marks"}), n |-> R(Sizes)]
Next == IF c.kind = "" THEN c' = Config(hist) /\ UNCHANGED hist
        ELSE /\ Len(hist) < Depth
             /\ \E w \in {R(1..23)} : hist' = Append(hist, IF c.kind = "slots" THEN PickSlots(w) ELSE PickMarks(w))
             /\ UNCHANGED c
             /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> c.kind \o " " \o T(c.n), cmds |-> hist' \o <<"?", "L fresh", "?">>])))
=============================================================================
