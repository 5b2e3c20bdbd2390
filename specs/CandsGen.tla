------------------------------ MODULE CandsGen ------------------------------
(* Random histories of candidate lists, visited sets, bit sets and pools.     *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, c
R(S) == RandomElement(S)
T(x) == ToString(x)
Lists == {"linear", "buffer", "laser", "result", "npq"}
Sets == {"dyn", "epoch8", "epoch16", "epoch32", "sparse", "hier", "vis", "hash", "lhash"}
Pools == {"hpool", "epool8", "epool32", "vpool"}
Caps == {1, 2, 3, 4, 5, 8, 17}
Sizes == {1, 2, 63, 64, 65, 66, 127, 128, 129, 200, 512, 513, 600, 1030}
Config(u) ==
  \E w \in {R(1..10)}, top \in {R({2, 4, 9, 60})}, ids \in {R({4, 10, 40, 500})} :
    \E k \in {IF w <= 5 THEN R(Lists) ELSE IF w <= 8 THEN R(Sets) ELSE R(Pools)} :
      c' = [kind |-> k, fam |-> IF w <= 5 THEN "list" ELSE IF w <= 8 THEN "set" ELSE "pool",
            n |-> IF w <= 5 THEN (IF k \in {"buffer", "npq"} /\ R(1..12) = 1 THEN 0 ELSE R(IF k = "laser" THEN {1, 2, 3, 4, 5} ELSE Caps))
                  ELSE IF k \in {"hier", "vis"} /\ R(1..4) = 1 THEN R({1, 32768, 33000, 40000} \cup (IF k = "vis" THEN {0} ELSE {})) ELSE R(Sizes),
            top |-> IF k = "laser" THEN 60 ELSE top, ids |-> ids, salt |-> R(0..1000)]
\* In the deduplicating list an id always comes with the same distance, as in a search.
Dist(id) == IF c.kind = "npq" THEN ((id * 7919 + c.salt) % 97) % (c.top + 1) ELSE R(0..c.top) - (IF R(1..20) = 1 THEN 3 ELSE 0)
PickList(w) ==
  IF w <= 12 THEN LET id == R(0..c.ids) IN "I " \o T(id) \o " " \o T(Dist(id))
  ELSE IF w <= 18 THEN "P"
  ELSE IF w <= 21 THEN "?"
  ELSE IF w = 22 THEN "F " \o T(R(0..c.top))
  ELSE IF w = 23 THEN (IF R(1..3) = 1 THEN "X" ELSE "P")
  ELSE IF R(1..5) = 1 THEN "R " \o T(R(Caps)) ELSE "?"
Pos(u) == T(IF R(1..3) = 1 THEN R({0, 1, 2, 31, 32, 62, 63, 64, 65, 126, 127, 128, 511, 512, 513, 4095, 4096, 32767, 32768, 32769}) ELSE R(0..c.n + 1))
Times(u) == T(R({1, 1, 1, 2, 3, 100, 254, 255, 256, 257} \cup (IF R(1..6) = 1 THEN {65534, 65535, 65536} ELSE {})))
PickSet(w) ==
  CASE w <= 9 -> "S " \o Pos(0)
    [] w <= 13 -> "G " \o Pos(0)
    [] w <= 16 -> "T " \o Pos(0)
    [] w <= 18 -> "U " \o Pos(0)
    [] w <= 20 -> "X " \o Times(0)
    [] w = 21 -> IF R(1..4) = 1 THEN "A" ELSE "1"
    [] w = 22 -> IF R(1..4) = 1 THEN "R " \o T(R(Sizes)) ELSE "1"
    [] OTHER -> "?"
PickPool(w) ==
  CASE w <= 5 -> "A"
    [] w <= 9 -> "R " \o T(R(0..4))
    [] w <= 16 -> "S " \o T(R(0..4)) \o " " \o Pos(0)
    [] w <= 19 -> "G " \o T(R(0..4)) \o " " \o Pos(0)
    [] w = 20 -> "C " \o Times(0)
    [] OTHER -> "? " \o T(R(0..4))
Init == c = [kind |-> ""] /\ hist = <<>>
Pick(w) == CASE c.fam = "list" -> PickList(w) [] c.fam = "set" -> PickSet(w) [] OTHER -> PickPool(w)
Tail0 == CASE c.fam = "list" -> <<"?", "P", "P", "P", "P", "P", "?">> [] c.fam = "set" -> <<"?", "1", "X 1", "?">> [] OTHER -> <<"? 0", "? 1", "A", "? 0", "? 1", "? 2">>
Next == IF c.kind = "" THEN Config(hist) /\ UNCHANGED hist
        ELSE /\ Len(hist) < Depth
             /\ \E w \in {R(1..24)} : hist' = Append(hist, Pick(w))
             /\ UNCHANGED c
             /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> c.kind \o " " \o T(c.n), cmds |-> hist' \o Tail0])))
=============================================================================
