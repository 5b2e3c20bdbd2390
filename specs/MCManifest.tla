----------------------------- MODULE MCManifest -----------------------------
(* Every text a few edits away from a manifest, and what the grammar of the  *)
(* manifests owes its readers.  WRONG selects a lenient reader.              *)
EXTENDS Manifest, TLC
CONSTANTS WRONG, LINES, BYTES, BOTH
VARIABLES kind, model, text, nl, nb
vars == <<kind, model, text, nl, nb>>
Segs == {[ok |-> TRUE, id |-> B("seg_00000001"), engine |-> B("disk_flat"), metric |-> B("L2"), dim |-> B("2"), count |-> B("10"), ids |-> B("a"), vecs |-> v, x |-> x] :
           v \in {B("b"), <<>>}, x \in {{}, {<<B("x_a"), B("1")>>, <<B("x_"), <<>>>>}}}
Cols == {[ok |-> TRUE, dim |-> B("2"), metric |-> B("IP"), engine |-> B("disk_vamana"), next |-> B("3"), segs |-> s, x |-> x] :
           s \in {<<>>, <<B("seg_00000002"), B("seg_00000001")>>}, x \in {{}, {<<B("x_a"), B("7")>>}}}
Write(m) == IF kind = "seg" THEN WriteSegment(m) ELSE WriteCollection(m)
Strict(t) == IF kind = "seg" THEN ReadSegment(t) ELSE ReadCollection(t)
\* ------------------------------------------------------------ lenient readers
Plain(es) == Lines([k \in 1..Len(es) |-> Eq(es[k].k, es[k].v)])
LastOf(es) == SelectSeq([k \in 1..Len(es) |-> [k |-> es[k].k, v |-> es[k].v, n |-> k]],
                        LAMBDA e : e.k = SegmentKey \/ \A j \in 1..Len(es) : es[j].k = e.k => j <= e.n)
NumKey(k) == k \in {B("dim"), B("count"), B("version"), B("next_segment_id")}
RECURSIVE Lead(_)
Lead(t) == IF t # <<>> /\ t[1] \in 48..57 THEN <<t[1]>> \o Lead(Tail(t)) ELSE <<>>
Tails(es) == [k \in 1..Len(es) |-> IF NumKey(es[k].k) THEN [es[k] EXCEPT !.v = Lead(@)] ELSE es[k]]
FileKey(k) == k \in {B("ids_file"), B("vectors_file")}
Safe(t) == SelectSeq(t, LAMBDA c : c # 47)
Paths(es) == [k \in 1..Len(es) |-> IF FileKey(es[k].k) THEN [es[k] EXCEPT !.v = Safe(@)] ELSE es[k]]
Names(es, key, r) == IF \E k \in 1..Len(es) : es[k].k = key THEN Get(es, key) ELSE r
Read(t) ==
  IF WRONG = 0 \/ ~Readable(t) THEN Strict(t) ELSE
  Only({CASE WRONG = 1 -> Strict(Plain(LastOf(es)))
          [] WRONG = 2 -> Strict(Plain(Tails(es)))
          [] WRONG = 3 -> LET r == Strict(Plain(Paths(es)))
                          IN IF r.ok /\ kind = "seg" THEN [r EXCEPT !.ids = Names(es, B("ids_file"), @), !.vecs = Names(es, B("vectors_file"), @)] ELSE r
        : es \in {Entries(t)}})
\* --------------------------------------------------------------------- edits
OddLines == {B("dim=3"), B("dim=0"), B("count=01"), B("ids_file=a/b"), B("vectors_file=.."), B("vectors_file="), B("x_a=2"), B("y=1"), B("# dim=9"), <<>>,
             B("version=2"), B("version=1"), B("noeq"), B(" metric = COS "), B("segment=seg_00000003"), B("segment=seg_3"), B("segments=seg_00000004,seg_00000005"),
             B("segments=seg_00000004,"), B("next_segment_id=18446744073709551616"), B("next_segment_id=18446744073709551615"), B("index_type=flat"), B("=")}
OddBytes == {0, 10, 32, 35, 46, 47, 48, 49, 61, 120}
LinesOf(t) == LET s == Split(t, NL) IN IF s[Len(s)] = <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Put(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Join(ls) == Lines([k \in 1..Len(ls) |-> ls[k] \o <<NL>>])
Init == /\ nl = 0 /\ nb = 0
        /\ \/ kind = "seg" /\ model \in Segs
           \/ kind = "col" /\ model \in Cols
        /\ text = Write(model)
EditLine == \E ls \in {LinesOf(text)} :
  \/ \E k \in 1..(Len(ls) + 1), l \in OddLines : text' = Join(Put(ls, k, l))
  \/ \E k \in 1..Len(ls), l \in OddLines : text' = Join([ls EXCEPT ![k] = l])
  \/ \E k \in 1..Len(ls) : text' = Join(Drop(ls, k))
  \/ \E k \in 1..Len(ls) : text' = Join(Put(ls, k, ls[k]))
EditByte == \E k \in 1..Len(text) :
  \/ \E b \in OddBytes : text' = [text EXCEPT ![k] = b] \/ text' = Put(text, k, b)
  \/ text' = Drop(text, k)
  \/ text' = SubSeq(text, 1, k - 1)
Next == /\ UNCHANGED <<kind, model>>
        /\ \/ nl < LINES /\ (BOTH \/ nb = 0) /\ EditLine /\ nl' = nl + 1 /\ UNCHANGED nb
           \/ nb < BYTES /\ (BOTH \/ nl = 0) /\ EditByte /\ nb' = nb + 1 /\ UNCHANGED nl
\* ---------------------------------------------------------------- guarantees
Faithful == nl + nb = 0 => Read(text) = model
\* an accepted text says what was read and nothing else, apart from blanks, comments and leading zeros
Tidy(k, v) == IF NumKey(k) THEN Norm(v) ELSE v
Said(t) == {<<e.k, Tidy(e.k, e.v)>> : e \in {Entries(t)[j] : j \in 1..Len(Entries(t))}}
Listing(t) == IF kind = "col" /\ Count(Entries(t), SegmentsKey) = 1 THEN {<<SegmentKey, s>> : s \in {Split(Get(Entries(t), SegmentsKey), 44)[j] : j \in 1..Len(Split(Get(Entries(t), SegmentsKey), 44))}} ELSE {}
Whole == \A r \in {Read(text)} : r.ok =>
           /\ Said(Write(r)) = {s \in Said(text) : s[1] # SegmentsKey} \cup Listing(text)
           /\ Read(Write(r)) = r
\* nothing counts twice: a doubled entry, a dropped required line or a stray line spoil the text
Single == \A r \in {Read(text)} : r.ok =>
  \A es \in {Entries(text)} : \A j \in 1..Len(es) : es[j].k # SegmentKey => \A i \in 1..Len(es) : es[i].k = es[j].k => i = j
Inside == \A r \in {Read(text)} : r.ok /\ kind = "seg" =>
  \A f \in {r.ids, r.vecs} : ~Has(f, 47) /\ ~Has(f, 0) /\ f # B(".") /\ f # B("..") /\ r.ids # <<>>
Ranges == \A r \in {Read(text)} : r.ok => r.dim # Zero /\ NumLe(r.dim, Max64) /\ (kind = "seg" => r.count # Zero /\ NumLe(r.count, Max64))
\* lines may come in any order, with blanks and comments between them
Backwards == \A r \in {Read(text)} : \A ls \in {LinesOf(text)} : r.ok =>
  LET b == Read(B("#first ") \o <<NL>> \o Join([k \in 1..Len(ls) |-> <<9>> \o ls[Len(ls) + 1 - k] \o <<32, 13>>]))
  IN IF kind = "seg" THEN b = r ELSE b.ok /\ b.dim = r.dim /\ b.metric = r.metric /\ b.x = r.x /\ b.next = r.next
                                     /\ (Count(Entries(text), SegmentsKey) = 0 => b.segs = Reverse(r.segs))
\* a manifest cut short is refused unless what is left is again a manifest: then only its end is missing
Cut == nl = 0 /\ nb = 1 => \A r \in {Read(text)} : (r.ok /\ Len(text) < Len(Write(model)) /\ Starts(Write(model), text)) =>
  IF kind = "seg" THEN r = [model EXCEPT !.vecs = r.vecs, !.x = r.x] /\ Starts(model.vecs, r.vecs)
  ELSE r = [model EXCEPT !.next = r.next, !.segs = r.segs, !.x = r.x] /\ Starts(model.segs, r.segs)
=============================================================================
