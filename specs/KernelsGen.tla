------------------------------ MODULE KernelsGen ------------------------------
(* Random dimensions around the widths of the kernels' blocks, sizes of          *)
(* components and places beside unreadable memory.                               *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Big == IOEnv.BIG = "1"
VARIABLE hist
R(S) == RandomElement(S)
T(x) == ToString(x)
Around == UNION {{w - 1, w, w + 1} : w \in {1, 2, 4, 8, 16, 24, 32, 48, 64, 80, 96, 128, 160, 192, 256}}
Dim(u) == IF R(1..2) = 1 THEN R(Around) ELSE R(0..140)
SeedMode(u) == T(R(1..1000000)) \o " " \o T(R({0, 0, 1, 2}))
Seed(u) == T(R(1..1000000)) \o " 0"
Cap(d) == IF d <= 7 THEN 255 ELSE IF d <= 64 THEN 40 ELSE 15
Q(o) == FoldLeft(LAMBDA a, d : o \o " " \o T(d) \o " " \o SeedMode(d) \o " " \o T(Cap(d)), "", <<Dim(0)>>)
B(u) == R({"0", "1"})
Pick(w) ==
  CASE w <= 12 -> "f " \o T(Dim(0)) \o " " \o SeedMode(0) \o " " \o T(R({1, 9, 100}))
    [] w <= 20 -> Q(R({"q8", "q4"}))
    [] w <= 23 -> Q(R({"e8", "e8", "e4"}))
    [] w <= 25 -> "acc " \o T(R({8, 16, 24, 32, 48, 64, 64, 80, 128})) \o " " \o SeedMode(0) \o " " \o R({"63", "1", "40", "63 255"})
    [] w = 26 -> "est " \o T(R(IF Big THEN {64, 128, 256, 1024, 1088, 2048} ELSE {64, 128, 192})) \o " " \o Seed(0) \o " " \o T(R(1..3)) \o " " \o T(R(1..2)) \o " " \o R({"0", "0", "1", "2", "3", "3"})
    [] w = 27 -> "fht " \o T(R(IF Big THEN {512, 1024, 2048} ELSE {64, 128, 256})) \o " " \o Seed(0)
    [] w = 28 -> "rot " \o T(R({64, 65, 100, 127, 128, 190, 192, 200, 256} \cup (IF Big THEN {1000, 1024, 2000} ELSE {})))  \o " " \o Seed(0) \o " " \o T(R({1, 9}))
    [] w <= 31 -> "lin " \o T(Dim(0)) \o " " \o SeedMode(0)
    [] OTHER -> "sel " \o B(0) \o " " \o B(0) \o " " \o B(0) \o " " \o B(0) \o " " \o R({"-", "avx512", "AVX512", "stable"})
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E w \in {IF Big THEN R(26..28) ELSE R(1..32)} : hist' = Append(hist, Pick(w))
        /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> "kernels", cmds |-> hist'])))
=============================================================================
