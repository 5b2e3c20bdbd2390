------------------------------ MODULE ScalarGen ------------------------------
(* Random histories of the scalar store.                                     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLE hist
R(S) == RandomElement(S)
T(x) == ToString(x)
Id(u) == T(IF R(1..4) = 1 THEN R(0..18) ELSE R(0..5))
Item(u) == T(IF R(1..4) = 1 THEN R(0..9) ELSE R(0..4))
Str(u) == R({"-", "97", "97,95", "97,95,49", "97,98", "65", "95", "49", "95,95", "98,0,99", "195,169"})
Val(f) ==
  LET w == R(1..20) IN
  CASE w <= 8 -> "i:" \o T(R({4, 5, 6, 7, 8}))
    [] w <= 10 -> "i:" \o T(R(0..14))
    [] w <= 14 -> "d:" \o R({"z", "5", "7", "9", "10", "11"})
    [] w = 15 -> "d:" \o T(R(0..15))
    [] w = 16 -> "b:" \o T(R(0..1))
    [] OTHER -> "s:" \o Str(0)
Opt(f, p) == IF R(1..10) <= p THEN <<f \o "=" \o Val(f)>> ELSE <<>>
Join(s) == IF s = <<>> THEN "-" ELSE CHOOSE x \in {IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] \o ";" \o s[2]
                                                  ELSE s[1] \o ";" \o s[2] \o ";" \o s[3]} : TRUE
Meta(u) == Join(Opt("n", 7) \o Opt(R({"g", "n_s", "n_i"}), 6) \o Opt("u", 3))
Rec(u) == Item(0) \o "/" \o T(R(0..4)) \o "/" \o Meta(0)
Mut(w) == CASE w <= 4 -> "I " \o Id(0) \o " " \o Rec(0)
            [] w <= 7 -> "U " \o Id(0) \o " " \o Rec(0)
            [] OTHER -> "D " \o Id(0)
F(u) == R({"n", "n", "g", "n_s", "n_i"})
RangeOf(u) == IF R(1..2) = 1 THEN "i:" \o T(R(0..14)) \o " i:" \o T(R(0..14)) ELSE "d:" \o T(R(0..15)) \o " d:" \o R({"z", "4", "7", "9", "10", "11", "14", "15"})
Ask(w) ==
  CASE w = 1 -> "g " \o Id(0)
    [] w = 2 -> "m " \o Id(0) \o "," \o Id(0) \o "," \o Id(0) \o "," \o Id(0)
    [] w = 3 -> "f " \o Item(0) \o " " \o Id(0)
    [] w \in 4..5 -> "e " \o F(0) \o " " \o Val("")
    [] w \in 6..7 -> "r " \o F(0) \o " " \o RangeOf(0)
    [] w = 8 -> "s " \o R({"*", "*", "n", "u"}) \o " " \o T(R({0, 0, 1, 2, 3, 9}))
    [] w = 9 -> "c"
Batch(n) == LET s == R({0, 0, 1, 2, 3, 4, 8, 9, 11, 14, 15}) IN
            "B " \o T(s) \o (IF n >= 1 THEN " " \o Rec(0) ELSE "") \o (IF n >= 2 THEN " " \o Rec(0) ELSE "")
            \o (IF n >= 3 /\ s \in 0..5 \cup {8, 11, 14, 15} THEN " " \o Rec(0) ELSE "") \o (IF n >= 4 /\ s \in {0, 1, 2, 3, 4, 14, 15} THEN " " \o Rec(0) ELSE "")
\* every question about the present state, in turn
Audit == <<"c", "s * 0", "m 0,1,2,3,4,5", "m 6,7,8,9,10,11,12,13,14,15,16,17,18">> \o [k \in 1..9 |-> "f " \o T(k) \o " 0"]
         \o <<"r n i:0 i:14", "r n d:0 d:13", "r g i:0 i:14", "r n_i d:0 d:13", "r n_s i:0 i:14">>
\* a question for each value a recent record may have had, in each indexed field
Pick(w) ==
  CASE w <= 16 -> <<Mut(R(1..9))>>
    [] w <= 20 -> <<Batch(R(0..4))>>
    [] w <= 22 -> <<"P " \o Mut(R(1..9)) \o " | " \o Mut(R(1..9)) \o " | " \o Mut(R(1..9))>>
    [] w = 23 -> LET it == Item(0) IN <<"P I 0 " \o it \o "/1/n=i:6 | I 1 " \o it \o "/2/n=i:6 | I 2 " \o it \o "/3/n=i:7 | U 3 " \o it \o "/1/-", "f " \o it \o " 0", "e n i:6">>
    [] w = 24 -> <<"O", "c">>
    [] w = 25 -> <<"K", "c">>
    [] w = 26 -> <<"S " \o T(R(0..2)), "c">>
    [] w = 27 -> <<R({"F", "M", "F"})>>
    [] w = 28 -> <<"L " \o Id(0) \o "," \o Id(0) \o "," \o Id(0) \o ",0,1">>
    [] w = 29 -> <<"H", "? c", "? s * 0">>
    [] w = 30 -> <<"W">>
    [] w <= 32 -> <<"? " \o Ask(R(1..9))>>
    [] OTHER -> <<Ask(R(1..9))>>
Init == hist = <<>>
Done == Len(hist') >= Depth => PrintT("@@" \o ToJson([cmds |-> hist' \o Audit \o <<R({"O", "K", "S 0"})>> \o Audit]))
Next == /\ Len(hist) < Depth
        /\ \E p \in {Pick(R(1..48))} : hist' = hist \o p
        /\ Done
=============================================================================
