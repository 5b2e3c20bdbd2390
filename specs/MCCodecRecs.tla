------------------------------ MODULE MCCodecRecs ------------------------------
(* Records of length-prefixed strings and tagged values in bytes; every record   *)
(* of a small size, its fields in any order, and every part of it.               *)
EXTENDS Codec, SequencesExt, TLC
CONSTANTS Wrong, Texts, MaxMeta
VARIABLES rec, order, cut
\* names of fields and values, and their bytes
KeyBytes == [k |-> <<>>, ka |-> <<0>>, kb |-> <<1>>, kc |-> <<0, 1>>]
ValBytes == [i0 |-> <<0, 0>>, i2 |-> <<0, 2>>, s |-> <<2, 0>>, s1 |-> <<2, 1, 1>>, s02 |-> <<2, 2, 0, 2>>, b0 |-> <<1, 0>>, b1 |-> <<1, 1>>]
Bytes == {<<>>, <<0>>, <<1>>, <<0, 2>>}
Metas == UNION {[S -> Texts] : S \in {s \in SUBSET DOMAIN KeyBytes : Cardinality(s) <= MaxMeta}}
Sorted(m) == LET ks == SetToSortSeq(DOMAIN m, LAMBDA a, b : Before(<<IF a = "k" THEN 0 ELSE IF a = "ka" THEN 1 ELSE IF a = "kb" THEN 2 ELSE 3>>, <<IF b = "k" THEN 0 ELSE IF b = "ka" THEN 1 ELSE IF b = "kb" THEN 2 ELSE 3>>))
             IN  [k \in 1..Len(ks) |-> <<ks[k], m[ks[k]]>>]
Orders(m) == SetToSeqs(DOMAIN m)
Str(s) == <<Len(s)>> \o s
Ser(r, o) == Str(r.id) \o Str(r.doc) \o <<Len(o)>> \o FlattenSeq([k \in 1..Len(o) |-> Str(KeyBytes[o[k]]) \o ValBytes[r.m[o[k]]]])
\* ---------------------------------------------------------------- reading: [at, v]; at > Len(b) + 1 is past the end
Bad == [at |-> 1000000, v |-> "none"]
ReadStr(b, at) ==
  IF at > Len(b) THEN Bad
  ELSE LET n == b[at] IN IF at + n > Len(b) THEN (IF Wrong = 1 THEN [at |-> Len(b) + 1, v |-> SubSeq(b, at + 1, Len(b))] ELSE Bad)
       ELSE [at |-> at + 1 + n, v |-> SubSeq(b, at + 1, at + n)]
NameOf(bs, tab) == IF \E x \in DOMAIN tab : tab[x] = bs THEN CHOOSE x \in DOMAIN tab : tab[x] = bs ELSE "other"
ReadVal(b, at) ==
  IF at > Len(b) THEN Bad
  ELSE IF b[at] = 2 THEN (LET s == ReadStr(b, at + 1) IN IF s = Bad THEN Bad ELSE [at |-> s.at, v |-> NameOf(<<2>> \o Str(s.v), ValBytes)])
  ELSE IF b[at] > 2 \/ at + 1 > Len(b) THEN Bad
  ELSE [at |-> at + 2, v |-> NameOf(<<b[at], b[at + 1]>>, ValBytes)]
RECURSIVE ReadMeta(_, _, _, _)
ReadMeta(b, at, n, got) ==
  IF n = 0 \/ (Wrong = 2 /\ at > Len(b)) THEN [at |-> at, v |-> got]
  ELSE LET k == ReadStr(b, at) IN
       IF k = Bad THEN Bad
       ELSE LET v == ReadVal(b, k.at) IN
            IF v = Bad THEN Bad ELSE ReadMeta(b, v.at, n - 1, got @@ (NameOf(k.v, KeyBytes) :> v.v))
Read(b) ==
  LET i == ReadStr(b, 1) IN
  IF i = Bad THEN Bad
  ELSE LET d == ReadStr(b, i.at) IN
       IF d = Bad THEN Bad
       ELSE IF d.at > Len(b) THEN (IF Wrong = 2 THEN [id |-> i.v, doc |-> d.v, meta |-> <<>>] ELSE Bad)
       ELSE LET m == ReadMeta(b, d.at + 1, b[d.at], <<>>) IN
            IF m = Bad THEN Bad ELSE [id |-> i.v, doc |-> d.v, meta |-> Sorted(m.v)]
\* the projection stops where the record is damaged, with nothing
RECURSIVE Select(_, _, _, _, _)
Select(b, at, n, want, got) ==
  IF n = 0 \/ at > Len(b) \/ Cardinality(DOMAIN got) = Cardinality(want) THEN got
  ELSE LET k == ReadStr(b, at) IN
       IF k = Bad THEN <<>>
       ELSE LET v == ReadVal(b, k.at) IN
            IF v = Bad THEN <<>>
            ELSE Select(b, v.at, n - 1, want, IF NameOf(k.v, KeyBytes) \in want THEN got @@ (NameOf(k.v, KeyBytes) :> v.v) ELSE got)
Selected(b, want) ==
  LET i == ReadStr(b, 1)  d == IF i = Bad THEN Bad ELSE ReadStr(b, i.at) IN
  IF want = {} \/ d = Bad \/ d.at > Len(b) THEN <<>> ELSE Sorted(Select(b, d.at + 1, b[d.at], want, <<>>))
Single(b, f) == IF f = "k" THEN "none" ELSE LET s == Selected(b, {f}) IN IF s = <<>> THEN "none" ELSE s[1][2]
Answer(r, o, b, want) ==
  LET got == Read(b)
      fs == SetToSeq(want)
  IN  [res |-> IF got = Bad THEN "error" ELSE "ok", rec |-> IF got = Bad THEN <<>> ELSE got, in |-> [id |-> r.id, doc |-> r.doc, meta |-> Sorted(r.m)],
       est |-> Len(Ser(r, o)), size |-> Len(b), fields |-> fs, sel |-> Selected(b, want), one |-> [k \in 1..Len(fs) |-> <<fs[k], Single(b, fs[k])>>]]
Init == /\ rec \in [id : Bytes, doc : {<<>>, <<1>>}, m : Metas]
        /\ order \in Orders(rec.m)
        /\ cut \in 0..Len(Ser(rec, order))
Next == UNCHANGED <<rec, order, cut>>
Wants == {{}, {"ka"}, {"k", "kb"}, DOMAIN KeyBytes}
Right == LET s == Ser(rec, order) IN
         \A w \in Wants :
           LET whole == Answer(rec, order, s, w) IN
           IF cut = Len(s) THEN Whole(whole) ELSE Part([in |-> whole.in, fields |-> whole.fields], Answer(rec, order, SubSeq(s, 1, cut), w))
================================================================================
