---------------------------- MODULE ManifestTrace ----------------------------
EXTENDS Manifest, TLC, Json, IOUtils
VARIABLES i, base
Tr == ndJsonDeserialize(IOEnv.TRACE)
XSet(x) == {<<x[k][1], x[k][2]>> : k \in 1..Len(x)}
SegOf(g) == [ok |-> TRUE, id |-> g.id, engine |-> g.engine, metric |-> g.metric, dim |-> g.dim, count |-> g.count, ids |-> g.ids, vecs |-> g.vecs, x |-> XSet(g.x)]
ColOf(g) == [ok |-> TRUE, dim |-> g.dim, metric |-> g.metric, engine |-> g.engine, next |-> g.next, segs |-> g.segs, x |-> XSet(g.x)]
SnapOf(g) == [ok |-> TRUE, nums |-> g.nums, texts |-> g.texts]
Agree(read, g, F(_)) == IF read.ok THEN g.ok /\ F(g) = read ELSE ~g.ok

(* ------------------------------------- opening a collection by edited texts *)
Rows == << << <<11, <<1, 0, 0>>>>, <<12, <<2, 1, 0>>>>, <<13, <<0, 0, 3>>>> >>, << <<21, <<4, 0, 1>>>>, <<22, <<0, 5, 2>>>> >> >>
Query == <<1, 0, 0>>
Dist(v, metric) == IF metric = "L2" THEN (v[1] - 1) * (v[1] - 1) + v[2] * v[2] + v[3] * v[3] ELSE -v[1]
SegName(k) == B("seg_0000000") \o <<48 + k>>
XVal(x, key) == IF \E p \in x : p[1] = key THEN (CHOOSE p \in x : p[1] = key)[2] ELSE <<>>
XNum(x, key, max) == (\E p \in x : p[1] = key) => Num(XVal(x, key), max)
Same(c, o) == c.engine = o.engine /\ c.dim = o.dim /\ c.metric = o.metric
XR == B("x_vamana_R")
XL == B("x_vamana_L")
ColFits(c, o) ==
  /\ c.ok /\ Same(c, o)
  /\ IsInjective(c.segs) /\ \A k \in 1..Len(c.segs) : c.segs[k] \in {SegName(1), SegName(2)}
  /\ XNum(c.x, B("x_max_pending_bytes"), Max64)
  /\ o.engine = B("disk_vamana") =>
       /\ \A key \in {XR, XL, B("x_vamana_seed"), B("x_vamana_num_threads")} : XNum(c.x, key, Max32)
       /\ \A key \in {XR, XL} : (\E p \in c.x : p[1] = key) => Norm(XVal(c.x, key)) # Zero
       /\ (\E p \in c.x : p[1] = XR) /\ (\E p \in c.x : p[1] = XL) => NumLe(Norm(XVal(c.x, XR)), Norm(XVal(c.x, XL)))
\* settings this specification leaves open: build parameters left out or a changed real number
ColOpen(c, o) == o.engine = B("disk_vamana") /\ \E key \in {XR, XL, B("x_vamana_alpha")} : XVal(c.x, key) = <<>> \/ (key = B("x_vamana_alpha") /\ XVal(c.x, key) # XVal(o.x, key))
SegFits(s, o) == s.ok /\ Same(s, o) /\ s.count = o.count /\ s.ids = o.ids /\ s.vecs = o.vecs
                 /\ (o.engine = B("disk_vamana") => XVal(s.x, B("x_graph_file")) = XVal(o.x, B("x_graph_file")))
SegOpen(s, o) == s.id # o.id       \* whether a segment has to carry the name of its directory is left open
Less(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Opened(e) ==
  \E o \in {<<ReadCollection(base.texts[1]), ReadSegment(base.texts[2]), ReadSegment(base.texts[3])>>} :
  \E m \in {<<IF e.which = 0 THEN ReadCollection(e.text) ELSE o[1], IF e.which = 1 THEN ReadSegment(e.text) ELSE o[2],
             IF e.which = 2 THEN ReadSegment(e.text) ELSE o[3]>>} :
  \E listed \in {IF m[1].ok THEN {k \in 1..2 : \E j \in 1..Len(m[1].segs) : m[1].segs[j] = SegName(k)} ELSE {}} :
  LET c == m[1]
      fits == ColFits(c, o[1]) /\ \A k \in listed : SegFits(m[k + 1], o[k + 1])
      free == c.ok /\ (ColOpen(c, o[1]) \/ \E k \in listed : m[k + 1].ok /\ SegOpen(m[k + 1], o[k + 1]))
      rows == FlattenSeq([k \in 1..2 |-> IF k \in listed THEN Rows[k] ELSE <<>>])
      hits == SetToSortSeq({<<rows[k][1], Dist(rows[k][2], base.metric)>> : k \in 1..Len(rows)}, Less)
  IN /\ e.ok => fits
     /\ fits => e.ok \/ free
     /\ e.ok => e.size = Len(rows) /\ e.dim = 3 /\ e.hits = hits
Step(e) ==
  CASE e.op = "reset" -> base' = [engine |-> "none"]
    [] e.op = "seg"   -> Agree(ReadSegment(e.text), e.got, SegOf) /\ UNCHANGED base
    [] e.op = "col"   -> Agree(ReadCollection(e.text), e.got, ColOf) /\ UNCHANGED base
    [] e.op = "snap"  -> Agree(ReadSnapshot(e.text), e.got, SnapOf) /\ UNCHANGED base
    [] e.op = "wseg"  -> ReadSegment(e.text) = SegOf(e.m) /\ e.got = e.m /\ UNCHANGED base
    [] e.op = "wcol"  -> ReadCollection(e.text) = ColOf(e.m) /\ e.got = e.m /\ UNCHANGED base
    [] e.op = "wsnap" -> ReadSnapshot(e.text) = SnapOf(e.m) /\ e.got = e.m /\ UNCHANGED base
    [] e.op = "odd"   -> e.ok = (e.kind = "size" /\ e.size <= 1048576) /\ UNCHANGED base
    [] e.op = "made"  -> /\ base' = [engine |-> e.engine, metric |-> e.metric, texts |-> e.texts]
                         /\ ReadCollection(e.texts[1]).segs = <<SegName(1), SegName(2)>>
                         /\ \A k \in 1..2 : ReadSegment(e.texts[k + 1]).id = SegName(k) /\ ReadSegment(e.texts[k + 1]).count = <<48 + Len(Rows[k])>>
    [] e.op = "opened" -> Opened(e) /\ UNCHANGED base
    [] OTHER -> FALSE
TInit == base = [engine |-> "none"] /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
