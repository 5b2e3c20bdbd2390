------------------------------ MODULE Manifest ------------------------------
(* The texts a disk index describes itself with: segment manifests,          *)
(* collection manifests and snapshot manifests.  A text is a sequence of     *)
(* bytes; reading one yields either a record of entries or nothing.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* -------------------------------------------------------- bytes and names *)
Letters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-,/#= :"
Points == [k \in 1..26 |-> 96 + k] \o [k \in 1..26 |-> 64 + k] \o [k \in 1..10 |-> 47 + k] \o <<95, 46, 45, 44, 47, 35, 61, 32, 58>>
Code == [c \in {SubSeq(Letters, k, k) : k \in 1..Len(Letters)} |-> Points[CHOOSE k \in 1..Len(Letters) : SubSeq(Letters, k, k) = c]]
B(s) == [k \in 1..Len(s) |-> Code[SubSeq(s, k, k)]]
Ws == {32, 9, 13, 10}
NL == 10

Split(t, sep) ==    \* the pieces between separators, always at least one
  LET cuts == SetToSortSeq({k \in 1..Len(t) : t[k] = sep}, <)
      n == Len(cuts)
  IN <<>> \o [k \in 1..(n + 1) |-> SubSeq(t, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, IF k = n + 1 THEN Len(t) ELSE cuts[k] - 1)]
RECURSIVE From(_, _), Upto(_, _)
From(t, k) == IF k <= Len(t) /\ t[k] \in Ws THEN From(t, k + 1) ELSE k
Upto(t, k) == IF k >= 1 /\ t[k] \in Ws THEN Upto(t, k - 1) ELSE k
Strip(t) == SubSeq(t, From(t, 1), Upto(t, Len(t)))
Has(t, c) == \E k \in 1..Len(t) : t[k] = c
At(t, c) == CHOOSE k \in 1..Len(t) : t[k] = c /\ \A j \in 1..(k - 1) : t[j] # c
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

(* ------------------------------------------------------------------ numbers *)
Digits(t) == Len(t) > 0 /\ \A k \in 1..Len(t) : t[k] \in 48..57
RECURSIVE Norm(_)
Norm(t) == IF Len(t) > 1 /\ t[1] = 48 THEN Norm(Tail(t)) ELSE t
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
NumLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))      \* of normalised digit strings
Max64 == B("18446744073709551615")
Max32 == B("4294967295")
Num(t, max) == Digits(t) /\ NumLe(Norm(t), max)
Zero == <<48>>

(* ----------------------------------------------------------- key=value lines *)
Entry(l) == LET e == At(l, 61) IN [k |-> Strip(SubSeq(l, 1, e - 1)), v |-> Strip(SubSeq(l, e + 1, Len(l)))]
Real(t) == LET ls == Split(t, NL) IN SelectSeq([k \in 1..Len(ls) |-> Strip(ls[k])], LAMBDA l : Len(l) > 0 /\ l[1] # 35)
Entries(t) == LET ls == Real(t) IN <<>> \o [k \in 1..Len(ls) |-> Entry(ls[k])]
Readable(t) == /\ LET ls == Real(t) IN \A k \in 1..Len(ls) : Has(ls[k], 61)
               /\ ~Starts(t, <<239, 187, 191>>)                          \* no byte order mark
Count(es, key) == Cardinality({k \in 1..Len(es) : es[k].k = key})
Get(es, key) == es[CHOOSE k \in 1..Len(es) : es[k].k = key].v
Given(es, key) == Count(es, key) = 1
X == <<120, 95>>
Extras(es) == {<<es[k].k, es[k].v>> : k \in {j \in 1..Len(es) : Starts(es[j].k, X)}}
Basename(t) == Len(t) > 0 /\ t # <<46>> /\ t # <<46, 46>> /\ ~Has(t, 47) /\ ~Has(t, 0)
SegmentId(t) == Len(t) = 12 /\ Starts(t, <<115, 101, 103, 95>>) /\ Digits(SubSeq(t, 5, 12))
Metrics == {B("L2"), B("IP"), B("COS")}
Engines == {B("disk_flat"), B("disk_vamana"), B("disk_laser")}

None == [ok |-> FALSE]
Only(S) == CHOOSE x \in S : TRUE       \* of a set of one: makes TLC compute a value once
SegKeys == <<B("version"), B("segment_id"), B("index_type"), B("metric"), B("dim"), B("count"), B("ids_file"), B("vectors_file")>>
SegmentEntries(es) ==
  LET v(k) == Get(es, SegKeys[k])
      once == \A a, b \in 1..Len(es) : es[a].k = es[b].k => a = b
      known == \A a \in 1..Len(es) : (\E k \in 1..8 : es[a].k = SegKeys[k]) \/ Starts(es[a].k, X)
      all == \A k \in 1..8 : Given(es, SegKeys[k])
  IN IF ~(once /\ known /\ all) THEN None
     ELSE IF /\ Num(v(1), Max64) /\ Norm(v(1)) = <<49>>
             /\ SegmentId(v(2)) /\ v(3) \in Engines /\ v(4) \in Metrics
             /\ Num(v(5), Max64) /\ Norm(v(5)) # Zero
             /\ Num(v(6), Max64) /\ Norm(v(6)) # Zero
             /\ Basename(v(7)) /\ (v(8) = <<>> \/ Basename(v(8)))
          THEN [ok |-> TRUE, id |-> v(2), engine |-> v(3), metric |-> v(4), dim |-> Norm(v(5)), count |-> Norm(v(6)),
                ids |-> v(7), vecs |-> v(8), x |-> Extras(es)]
          ELSE None
ReadSegment(t) == IF ~Readable(t) THEN None ELSE Only({SegmentEntries(es) : es \in {Entries(t)}})
ColKeys == <<B("version"), B("dim"), B("metric"), B("index_type"), B("next_segment_id")>>
SegmentKey == B("segment")
SegmentsKey == B("segments")
CollectionEntries(es) ==
  LET v(k) == Get(es, ColKeys[k])
      once == \A a, b \in 1..Len(es) : es[a].k = es[b].k /\ es[a].k # SegmentKey => a = b
      known == \A a \in 1..Len(es) : (\E k \in 1..5 : es[a].k = ColKeys[k]) \/ Starts(es[a].k, X) \/ es[a].k \in {SegmentKey, SegmentsKey}
      all == \A k \in 1..5 : Given(es, ColKeys[k])
      rep == SelectSeq(es, LAMBDA e : e.k = SegmentKey)
      one == Count(es, SegmentsKey)
      list == IF one = 1 THEN Split(Get(es, SegmentsKey), 44) ELSE [k \in 1..Len(rep) |-> rep[k].v]
  IN IF ~(once /\ known /\ all) \/ (one > 0 /\ Len(rep) > 0) THEN None
     ELSE IF /\ Num(v(1), Max64) /\ Norm(v(1)) = <<49>>
             /\ Num(v(2), Max64) /\ Norm(v(2)) # Zero
             /\ v(3) \in Metrics /\ v(4) \in Engines
             /\ Num(v(5), Max64)
             /\ \A k \in 1..Len(list) : SegmentId(list[k])
          THEN [ok |-> TRUE, dim |-> Norm(v(2)), metric |-> v(3), engine |-> v(4), next |-> Norm(v(5)), segs |-> list, x |-> Extras(es)]
          ELSE None
ReadCollection(t) == IF ~Readable(t) THEN None ELSE Only({CollectionEntries(es) : es \in {Entries(t)}})

\* snapshot manifests: no blanks around the sign, unknown lines are passed over, the last line of a kind counts
SnapLines(t) ==
  LET raw == Split(t, NL)
      cut == <<>> \o [k \in 1..Len(raw) |-> IF Len(raw[k]) > 0 /\ raw[k][Len(raw[k])] = 13 THEN SubSeq(raw[k], 1, Len(raw[k]) - 1) ELSE raw[k]]
      ls == SelectSeq(cut, LAMBDA l : Has(l, 61))
  IN <<>> \o [k \in 1..Len(ls) |-> [k |-> SubSeq(ls[k], 1, At(ls[k], 61) - 1), v |-> SubSeq(ls[k], At(ls[k], 61) + 1, Len(ls[k]))]]
SnapNums == <<B("format_version"), B("applied_through_op_id"), B("created_unix_ms")>>
SnapTexts == <<B("snapshot_id"), B("reason"), B("graph_file"), B("data_file"), B("quant_file"), B("rocksdb_dir")>>
Final(es, key, dflt) ==
  LET ks == {k \in 1..Len(es) : es[k].k = key}
  IN IF ks = {} THEN dflt ELSE es[CHOOSE k \in ks : \A j \in ks : j <= k].v
SnapEntries(es) ==
  LET nums == \A k \in 1..Len(es) : \A j \in 1..3 : es[k].k = SnapNums[j] => Num(es[k].v, IF j = 1 THEN Max32 ELSE Max64)
  IN IF nums /\ Final(es, SnapTexts[1], <<>>) # <<>>
     THEN [ok |-> TRUE, nums |-> [j \in 1..3 |-> Norm(Final(es, SnapNums[j], IF j = 1 THEN <<49>> ELSE Zero))],
           texts |-> [j \in 1..6 |-> Final(es, SnapTexts[j], <<>>)]]
     ELSE None
ReadSnapshot(t) == Only({SnapEntries(es) : es \in {SnapLines(t)}})

(* ------------------------------------------------------------------ writing *)
Eq(k, v) == k \o <<61>> \o v \o <<NL>>
Lines(ls) == FlattenSeq(ls)
SortedX(x) == SetToSortSeq(x, LAMBDA a, b : a[1] # b[1] /\
  LET n == IF Len(a[1]) < Len(b[1]) THEN Len(a[1]) ELSE Len(b[1])
      d == {j \in 1..n : a[1][j] # b[1][j]}
  IN IF d = {} THEN Len(a[1]) < Len(b[1]) ELSE LET j == CHOOSE j \in d : \A i \in d : j <= i IN a[1][j] < b[1][j])
WriteX(x) == LET s == SortedX(x) IN Lines([k \in 1..Len(s) |-> Eq(s[k][1], s[k][2])])
WriteSegment(m) == Lines([k \in 1..8 |-> Eq(SegKeys[k], <<<<49>>, m.id, m.engine, m.metric, m.dim, m.count, m.ids, m.vecs>>[k])]) \o WriteX(m.x)
WriteCollection(m) == Lines([k \in 1..5 |-> Eq(ColKeys[k], <<<<49>>, m.dim, m.metric, m.engine, m.next>>[k])])
                      \o Lines([k \in 1..Len(m.segs) |-> Eq(SegmentKey, m.segs[k])]) \o WriteX(m.x)
WriteSnapshot(m) == Lines(<<Eq(SnapNums[1], m.nums[1]), Eq(SnapTexts[1], m.texts[1]), Eq(SnapTexts[2], m.texts[2]), Eq(SnapNums[2], m.nums[2]),
                            Eq(SnapNums[3], m.nums[3])>> \o [k \in 1..4 |-> Eq(SnapTexts[k + 2], m.texts[k + 2])])
=============================================================================
