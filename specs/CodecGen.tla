------------------------------ MODULE CodecGen ------------------------------
(* Random numbers, values, records and layouts, near each other and near the   *)
(* edges of their kinds.                                                        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist
R(S) == RandomElement(S)
T(x) == ToString(x)
Dig == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hx(s) == FoldLeft(LAMBDA a, d : a \o Dig[d + 1], "", s)
Digits(u) == FoldLeft(LAMBDA a, k : Append(a, R(0..15)), <<>>, [k \in 1..16 |-> k])
Fill(n, d) == [k \in 1..n |-> d]
Few(u) == FoldLeft(LAMBDA a, k : Append(a, IF R(1..5) = 1 THEN R(0..15) ELSE a[Len(a)]), <<R({0, 15, 7, 8})>>, [k \in 1..15 |-> k])
EdgeInts == {Fill(16, 0), Fill(16, 15), <<8>> \o Fill(15, 0), <<7>> \o Fill(15, 15), Fill(15, 0) \o <<1>>, Fill(15, 15) \o <<14>>,
             Fill(8, 0) \o <<8>> \o Fill(7, 0), Fill(8, 15) \o Fill(8, 0), Fill(8, 0) \o Fill(8, 15), <<8>> \o Fill(14, 0) \o <<1>>}
\* zeroes, smallest and largest, one, infinities
EdgeDbls == {Fill(16, 0), <<8>> \o Fill(15, 0), Fill(15, 0) \o <<1>>, <<8>> \o Fill(14, 0) \o <<1>>, <<0, 0, 0>> \o Fill(13, 15), <<0, 0, 1>> \o Fill(13, 0),
             <<7, 15, 14>> \o Fill(13, 15), <<15, 15, 14>> \o Fill(13, 15), <<3, 15, 15>> \o Fill(13, 0), <<11, 15, 15>> \o Fill(13, 0),
             <<7, 15, 15>> \o Fill(13, 0), <<15, 15, 15>> \o Fill(13, 0), <<8, 0, 1>> \o Fill(13, 0)}
Num(kind) == CASE R(1..3) = 1 -> R(IF kind = "dbl" THEN EdgeDbls ELSE EdgeInts) [] R(1..2) = 1 -> Few(0) [] OTHER -> Digits(0)
\* another number close to p: the same, one digit different, its negation by sign bit, or any
Near(kind, p) ==
  CASE R(1..5) = 1 -> p
    [] R(1..3) = 1 -> [p EXCEPT ![R(1..16)] = R(0..15)]
    [] R(1..3) = 1 -> [p EXCEPT ![1] = (@ + 8) % 16]
    [] R(1..2) = 1 -> [p EXCEPT ![16] = (@ + 1) % 16]
    [] OTHER -> Num(kind)
Texts == {"-", "61", "6162", "00", "0061", "6100", "ff", "c3a9", "3a", "69", "73", "f09f9880", "*3", "*255", "*256", "*65535", "*65536", "*100000", "7365745f", "626f6f6c", "2f", "0a", "5c22"}
Small == {"-", "61", "6162", "00", "0061", "6100", "ff", "c3a9", "3a", "*5", "*300"}
Txt(u) == IF R(1..6) = 1 THEN R(Texts) ELSE R(Small)
Fields == {"66", "6667", "00", "c3a9", "*40", "3a66", "6b65790a"}
Val(u) == CASE R(1..4) = 1 -> "i" \o Hx(Num("int")) [] R(1..3) = 1 -> "d" \o Hx(Num("dbl")) [] R(1..2) = 1 -> "s" \o Txt(0) [] OTHER -> R({"b0", "b1"})
Like(v) == IF R(1..3) = 1 THEN v ELSE Val(0)
Ids == {0, 1, 2, 255, 256, 65535, 65536, 16777215, 16777216, 2147483647}
Many(n, f(_)) == FoldLeft(LAMBDA a, k : Append(a, f(k)), <<>>, [k \in 1..n |-> k])
Words(s) == FoldLeft(LAMBDA a, w : IF a = "" THEN w ELSE a \o " " \o w, "", s)
Commas(s) == FoldLeft(LAMBDA a, w : IF a = "" THEN w ELSE a \o "," \o w, "", s)
Ask(u) == IF R(1..3) = 1 THEN "-" ELSE Commas(SetToSeq({R(Fields) : k \in 1..R(1..4)}))
Pairs(n) == FoldLeft(LAMBDA a, k : a \o " " \o R(Fields) \o " " \o Val(k), "", [k \in 1..n |-> k])
Item(u) ==
  CASE R(1..6) = 1 -> "1" \o R({"0", "1", "7f", "ff"})
    [] R(1..5) = 1 -> "4" \o R({"0", "1", "ffffffff", "80000000", "100", "12345678"})
    [] R(1..4) = 1 -> "8" \o R({"0", "1", "ffffffffffffffff", "8000000000000000", "100000000", "123456789abcdef0"})
    [] OTHER -> R({"s", "b", "f"}) \o R({"-", "61", "00", "ff00ff", "*5", "*70", "*400"})
Pick(w) ==
  CASE w <= 6  -> (LET p == Num("int") IN FoldLeft(LAMBDA a, q : "int " \o Hx(q) \o " " \o Hx(Near("int", q)), "", <<p>>))
    [] w <= 13 -> (LET p == Num("dbl") IN FoldLeft(LAMBDA a, q : "dbl " \o Hx(q) \o " " \o Hx(Near("dbl", q)), "", <<p>>))
    [] w <= 15 -> "key " \o Txt(0) \o " " \o Val(0) \o " " \o T(R(Ids))
    [] w <= 18 -> FoldLeft(LAMBDA a, v : "two " \o v \o " " \o Like(v), "", <<Val(0)>>)
    [] w <= 23 -> "rec " \o Txt(0) \o " " \o Txt(0) \o " " \o Ask(0) \o Pairs(R({0, 1, 1, 2, 3, 7}))
    [] w <= 29 -> "cut " \o T(IF R(1..2) = 1 THEN R(0..999) ELSE -R(1..40))
    [] w <= 32 -> "bad " \o T(R(0..600)) \o " " \o T(R({0, 1, 2, 3, 4, 127, 128, 255}))
    [] w <= 34 -> "tag " \o T(R(0..249))
    [] OTHER -> "io " \o Words(Many(R(1..6), Item))
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E w \in {R(1..37)} : hist' = Append(hist, Pick(w))
        /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> "codec", cmds |-> hist'])))
=============================================================================
