------------------------------ MODULE FileOpsGen ------------------------------
(* Random operations on a directory, with contents of sizes around blocks and    *)
(* pages, calls that are cut short, interrupted or fail, and batches of requests. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, head
R(S) == RandomElement(S)
T(x) == ToString(x)
N(u) == R({"a", "a", "b", "b", "c", "d", "e"})
Size(u) == IF R(1..3) = 1 THEN R({0, 1, 7, 8, 9, 4095, 4096, 4097, 8192, 12288, 12289}) ELSE R(0..300)
Faults(u) ==
  CASE R(1..10) <= 4 -> ""
    [] OTHER -> R({" cut 1", " cut 7", " cut 100", " cut 5000", " cut 5000", " intr 1", " intr 3", " cut 50 intr 2"})
Bad(kinds) == IF R(1..6) = 1 THEN " fail " \o R(kinds) \o " " \o T(R(0..2)) \o " " \o R({"5", "28", "13"}) ELSE ""
Requests(k, seeded) ==
  FoldLeft(LAMBDA s, j : s \o " " \o T(j * 300 + R(0..200)) \o ":" \o T(R(0..90)) \o (IF seeded THEN ":" \o T(R(1..200)) ELSE ""), "",
           [j \in 1..k |-> (j * 7) % 13])
Anywhere(k) == FoldLeft(LAMBDA s, j : s \o " " \o T(R({0, 1, 100, 4090, 4096, R(0..5000)})) \o ":" \o T(R({0, 1, 10, 64, 300, 4096})), "", [j \in 1..k |-> j])
Pick(w) ==
  CASE w <= 5 -> "put " \o N(0) \o " " \o T(R(1..200)) \o " " \o T(Size(0)) \o Faults(0) \o Bad({"open", "write", "write", "fsync", "close"})
    [] w <= 7 -> "swap " \o N(0) \o " " \o N(1) \o Bad({"rename"})
    [] w <= 10 -> "move " \o N(0) \o " " \o N(1) \o R({"", "", " race"})
    [] w = 11 -> "syncdir " \o R({".", ".", ".", N(0)}) \o Bad({"open", "fsync", "close"})
    [] w = 12 -> "syncfile " \o N(0) \o Bad({"open", "fsync", "close"})
    [] w <= 14 -> R({"prefix ", "bounded "}) \o N(0) \o " " \o T(Size(0)) \o Faults(0) \o Bad({"open", "read"})
    [] w = 15 -> "bounded " \o N(0) \o " 20000" \o Faults(0) \o Bad({"open", "read"})
    [] w <= 17 -> "map " \o N(0)
    [] w = 18 -> "look " \o N(0)
    [] w = 19 -> "trunc " \o N(0) \o " " \o T(Size(0))
    [] w = 20 -> R({"mkdir " \o R({"d", "e", "c"}), "link " \o R({"d", "e", "c"}) \o " " \o N(0)})
    [] w <= 22 -> R({"engine sync 1", "engine ring " \o T(R({1, 2, 3, 8})) \o " 0", "engine ring " \o T(R({1, 4})) \o " 3"})
    [] w <= 24 -> "wr " \o N(0) \o Requests(R(1..8), TRUE)
    [] w <= 26 -> "rd " \o N(0) \o Anywhere(R(1..9))
    [] OTHER -> "ard " \o N(0) \o Anywhere(R(1..3))
Init == hist = <<>> /\ head = ""
Next == /\ Len(hist) < Depth
        /\ head' = IF head = "" THEN "files " \o T(R(1..1000)) ELSE head
        /\ \E w \in {R(1..27)} : hist' = Append(hist, Pick(w))
        /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> head', cmds |-> Append(hist', "list")])))
=============================================================================
