----------------------------- MODULE ManifestGen -----------------------------
(* Random manifests, written as they should be or edited in up to three      *)
(* places: lines left out, doubled, moved, changed, inserted; bytes dropped, *)
(* changed or inserted; the text cut anywhere.                               *)
EXTENDS Manifest, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Kind == IOEnv.KIND                       \* "seg" | "col" | "snap" | "open"
VARIABLES hist, base
Base == IF Kind = "open" THEN ndJsonDeserialize(IOEnv.BASE)[1].texts ELSE <<>>
R(S) == RandomElement(S)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, k : IF k = 1 THEN ss[1] ELSE a \o sep \o ss[k], "", [k \in 1..Len(ss) |-> k])
Csv(t) == IF t = <<>> THEN "-" ELSE Join([k \in 1..Len(t) |-> ToString(t[k])], ",")
BigNums(u) == R({"1", "2", "3", "7", "007", "128", "4294967295", "4294967296", "18446744073709551615", "1000000000000"})
AnyNums(u) == R({BigNums(u), BigNums(u), "0", "00", "18446744073709551616", "99999999999999999999999", "-1", "x3", "1.5", "1 2", "1e3"})
SegIds(u) == R({"seg_00000001", "seg_00000002", "seg_99999999", "seg_00000010"})
BadSegIds(u) == R({"seg_1", "seg_0000000x", "SEG_00000001", "seg_000000001", "seg-00000001", "segment_001", "/eg_00000001"})
Files(u) == R({"ids.u64.bin", "vectors.f32.bin", "a", "x.y", "...", "#f", "a=b", ".hidden", "f.bin"})
BadFiles(u) == R({".", "..", "a/b", "/etc/x", "../x", "d/"})
Engs(u) == R({"disk_flat", "disk_flat", "disk_vamana", "disk_laser"})
Mets(u) == R({"L2", "IP", "COS"})
XKeys == <<"x_a", "x_", "x_graph_file", "x_max_pending_bytes", "x_vamana_R">>
XVals(u) == R({"", "1", "v w", "=", "a=b", "#z", "18446744073709551616"})
Xs(u) == LET n == R(0..3) IN {<<B(XKeys[k]), B(XVals(u))>> : k \in 1..n}
RandSeg(u) == [id |-> B(SegIds(u)), engine |-> B(Engs(u)), metric |-> B(Mets(u)), dim |-> Norm(B(BigNums(u))), count |-> Norm(B(BigNums(u))),
               ids |-> B(Files(u)), vecs |-> IF R(1..4) = 1 THEN <<>> ELSE B(Files(u)), x |-> Xs(u)]
RandCol(u) == [dim |-> Norm(B(BigNums(u))), metric |-> B(Mets(u)), engine |-> B(Engs(u)), next |-> Norm(B(BigNums(u))),
               segs |-> LET n == R(0..3) IN [k \in 1..n |-> B(SegIds(u))], x |-> Xs(u)]
Texts(u) == R({"", "a", "snapshot-17", "a=b", " x ", "graph.bin", "x/y", "#1"})
RandSnap(u) == [nums |-> <<Norm(B(R({"1", "2", "4294967295", "0"}))), Norm(B(BigNums(u))), Norm(B(R({"0", "5", "18446744073709551615"})))>>,
                texts |-> [k \in 1..6 |-> IF k = 1 THEN B(R({"s", "snapshot-99", " ", "a=b"})) ELSE B(Texts(u))]]
\* ---------------------------------------------------------------- edits
LinesOf(t) == LET s == Split(t, NL) IN IF s[Len(s)] = <<>> THEN SubSeq(s, 1, Len(s) - 1) ELSE s
JoinLines(ls, e) == FlattenSeq([k \in 1..Len(ls) |-> ls[k] \o e])
OddLine(u) ==
  LET k == R({"version", "segment_id", "index_type", "metric", "dim", "count", "ids_file", "vectors_file", "next_segment_id", "segment", "segments",
              "x_a", "x_vamana_R", "x_vamana_L", "x_max_pending_bytes", "x_graph_file", "unknown", "", "format_version", "snapshot_id", "reason", "applied_through_op_id",
              "created_unix_ms", "data_file", "rocksdb_dir", "Dim", "x"})
      v == R({AnyNums(u), SegIds(u), BadSegIds(u), Files(u), BadFiles(u), Engs(u), Mets(u), "l2", "NONE", "disk_Flat", "", "seg_00000001,seg_00000002",
              "seg_00000001,", ",seg_00000001", "seg_00000001,,seg_00000002", "seg_00000002, seg_00000001", "seg_00000001,seg_00000001"})
  IN B(k) \o R({<<61>>, <<61>>, <<61>>, <<61>>, <<32, 61, 9>>, <<>>}) \o B(v)
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
PutAt(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
Edit(t) ==
  IF t = <<>> THEN B(R({"", "version=1", "#"})) ELSE
  LET ls == LinesOf(t)
      n == Len(ls)
      k == R(1..n)
      p == R(1..Len(t))
      ed == R({<<10>>, <<13, 10>>})
  IN CASE R(1..20) = 1 -> JoinLines(DropAt(ls, k), ed)
       [] R(1..18) = 1 -> JoinLines(PutAt(ls, R(1..n), ls[k]), ed)
       [] R(1..16) = 1 -> JoinLines(PutAt(DropAt(ls, k), R(1..n), ls[k]), ed)
       [] R(1..6) \in 1..2 -> JoinLines(PutAt(ls, R(1..(n + 1)), OddLine(0)), ed)
       [] R(1..4) = 1 /\ Has(ls[k], 61) ->                                  \* another value in a line
            JoinLines([ls EXCEPT ![k] = SubSeq(ls[k], 1, At(ls[k], 61)) \o LET o == OddLine(0) IN IF Has(o, 61) THEN SubSeq(o, At(o, 61) + 1, Len(o)) ELSE o], ed)
       [] R(1..9) = 1 -> [t EXCEPT ![p] = R({0, 10, 13, 32, 35, 46, 47, 48, 49, 57, 61, 120, 127, 195, 255})]
       [] R(1..8) = 1 -> PutAt(t, p, R({0, 10, 13, 32, 9, 35, 44, 47, 48, 61, 95, 239}))
       [] R(1..7) = 1 -> DropAt(t, p)
       [] R(1..6) = 1 -> SubSeq(t, 1, p)
       [] R(1..5) = 1 -> JoinLines([ls EXCEPT ![k] = R({<<32, 9>>, <<>>}) \o @ \o R({<<32>>, <<13>>, <<>>})], ed)
       [] R(1..5) = 1 -> JoinLines(PutAt(ls, k, B(R({"# note", "", "  ", "#dim=0"}))), ed)
       [] R(1..5) = 1 -> R({<<239, 187, 191>>, <<10, 10>>, <<32>>}) \o t
       [] R(1..4) = 1 -> t \o R({<<0>>, <<10>>, <<0, 0, 0, 0>>, B("x_z=1"), B("junk")})
       [] OTHER -> t
Edits(t, n) == FoldLeft(LAMBDA a, k : Edit(a), t, [k \in 1..n |-> k])
WX(x) == IF x = {} THEN "-" ELSE LET s == SetToSeq(x) IN Join([k \in 1..Len(s) |-> Csv(s[k][1]) \o ":" \o Csv(s[k][2])], "/")
W(ss) == Join(ss, " ")
One(u) ==
  CASE Kind = "seg" -> \* a value keeps its outer blanks only if it has none
         LET m == RandSeg(u) IN
         IF R(1..6) = 1 THEN W(<<"WS", Csv(m.id), Csv(m.engine), Csv(m.metric), Csv(m.dim), Csv(m.count), Csv(m.ids), Csv(m.vecs), WX(m.x)>>)
         ELSE "S " \o Csv(Edits(WriteSegment(m), R(0..3)))
    [] Kind = "col" ->
         LET m == RandCol(u) IN
         IF R(1..6) = 1 THEN W(<<"WC", Csv(m.dim), Csv(m.metric), Csv(m.engine), Csv(m.next), IF m.segs = <<>> THEN "-" ELSE Join([k \in 1..Len(m.segs) |-> Csv(m.segs[k])], "/"), WX(m.x)>>)
         ELSE "C " \o Csv(Edits(WriteCollection(m), R(0..3)))
    [] Kind = "snap" ->
         LET m == RandSnap(u) IN
         IF R(1..6) = 1 THEN W(<<"WN", Csv(m.nums[1]), Csv(m.nums[2]), Csv(m.nums[3]), Csv(m.texts[1]), Csv(m.texts[2]), Csv(m.texts[3]), Csv(m.texts[4]), Csv(m.texts[5]), Csv(m.texts[6])>>)
         ELSE "N " \o Csv(Edits(WriteSnapshot(m), R(0..3)))
    [] Kind = "open" -> LET b == Base
                            k == R(0..2)
                        IN "E " \o ToString(k) \o " " \o Csv(Edits(b[k + 1], R(1..2)))
Init == hist = <<>> /\ base = 0
Next == /\ Len(hist) < Depth
        /\ \E c \in {One(Len(hist))} : hist' = Append(hist, c)
        /\ UNCHANGED base
        /\ (Len(hist') >= Depth => PrintT("@@" \o ToJson([head |-> "", cmds |-> (IF Kind = "open" THEN <<"D " \o IOEnv.ENGINE \o " " \o IOEnv.METRIC>> ELSE <<>>) \o hist'])))
=============================================================================
