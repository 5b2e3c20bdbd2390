---------------------------- MODULE CollectionGen ----------------------------
(* Behaviours of Collection turned into operation scripts for the real       *)
(* library: random walks (Next) and all short histories (XNext).             *)
EXTENDS Collection, Json, IOUtils
VARIABLES hist, cfg
gvars == <<docs, made, cap, metric, hist, cfg>>

Env(n, d) == IF n \in DOMAIN IOEnv THEN IOEnv[n] ELSE d
Depth == atoi(Env("DEPTH", "12"))
Mode == Env("MODE", "map")           \* map | filter | vector | hybrid | capacity
Quant == Env("QUANT", "none")
XSet == Env("XSET", "base")

R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]           \* a weighted choice: repeat entries

IdPool == <<"a", "b", "c", "d_0000000001", "i_a", "f_c_s_a_", "7", "a b">>
BigPool == <<"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10", "k11", "k12", "k13", "k14", "k15", "k16", "k17", "k18",
             "k19", "k20", "k21", "k22", "k23", "k24", "k25", "k26", "k27", "k28">>
Pool == IF cfg.big THEN BigPool ELSE IdPool
FieldSeq == <<"b", "c", "d", "n", "n_s">>
Strs == << <<>>, <<97>>, <<97, 98>>, <<97, 95>>, <<97, 95, 98>>, <<95>>, <<97, 95, 49>>, <<97, 95, 48, 48, 48>>,
           <<98>>, <<49>>, <<233>>, <<97, 0, 98>>, <<65, 97>>, <<255, 8364>> >>
SV(x) == [t |-> "s", v |-> x]
IV(x) == [t |-> "i", v |-> <<x>>]
DV(x) == [t |-> "d", v |-> <<x>>]
NegZero == [t |-> "d", v |-> <<7>>, z |-> 1]
BV(x) == [t |-> "b", v |-> <<x>>]

RandTyped(ty, u) == CASE ty = "s" -> (IF cfg.big THEN SV(Strs[R(2..3)]) ELSE SV(Pick(Strs)))
                      [] ty = "i" -> IV(IF R(1..4) = 1 THEN R({0, 1, 13, 14}) ELSE R(0..14))
                      [] ty = "d" -> (IF R(1..8) = 1 THEN NegZero ELSE DV(IF R(1..3) = 1 THEN R({0, 0, 1, 14, 15}) ELSE R(0..15)))
                      [] ty = "b" -> BV(R(0..1))
TypeOf(f) == CASE f = "b" -> "b" [] f = "c" -> "s" [] f = "d" -> "d" [] f = "n" -> "i" [] OTHER -> "s"
RandVal(f, u) == IF R(1..8) = 1 THEN RandTyped(Pick(<<"s", "i", "d", "b">>), u) ELSE RandTyped(TypeOf(f), u)

RECURSIVE MkMeta(_, _)
MkMeta(k, p) == IF k > Len(FieldSeq) THEN <<>>
  ELSE (IF R(1..10) <= p THEN << [f |-> FieldSeq[k], x |-> RandVal(FieldSeq[k], k)] >> ELSE <<>>) \o MkMeta(k + 1, p)

Vec0(u) == << R(-3..3), R(-3..3), R(-3..3) >>
Vec(u) == LET v == Vec0(u) IN IF cfg.metric = "cos" /\ v = <<0, 0, 0>> THEN <<1, 0, 2>> ELSE v
Item(u) == [id |-> Pick(Pool), d |-> R(0..9), m |-> MkMeta(1, IF Mode \in {"filter", "hybrid", "view"} THEN 7 ELSE 3), x |-> Vec(u)]
RECURSIVE ItemSeq(_)
ItemSeq(n) == IF n = 0 THEN <<>> ELSE <<Item(n)>> \o ItemSeq(n - 1)
RECURSIVE IdSeq(_)
IdSeq(n) == IF n = 0 THEN <<>> ELSE <<Pick(Pool)>> \o IdSeq(n - 1)

(* Distinct ids most of the time, so that batches succeed. *)
RECURSIVE Uniq(_, _)
Uniq(items, seen) == IF Len(items) = 0 THEN <<>>
  ELSE IF Head(items).id \in seen THEN Uniq(Tail(items), seen)
  ELSE <<Head(items)>> \o Uniq(Tail(items), seen \cup {Head(items).id})
Batch(n, u) == LET s == ItemSeq(n) IN IF R(1..8) = 1 THEN s ELSE Uniq(s, {})
(* Mostly ids that are not taken. *)
FreshBatch(n, u) == LET s == ItemSeq(n) IN IF R(1..3) = 1 THEN s ELSE Uniq(s, Ids)

SomeField(u) == IF R(1..12) = 1 THEN "zz" ELSE Pick(FieldSeq)
RECURSIVE ValSeq(_, _)
ValSeq(f, n) == IF n = 0 THEN <<>> ELSE <<RandVal(f, n)>> \o ValSeq(f, n - 1)
(* Values the records really have are the interesting ones. *)
Known(f) == {docs[i].m[k].x : i \in {i \in Ids : HasField(docs[i].m, f)}, k \in {}} \cup
            {FieldVal(docs[i].m, f) : i \in {i \in Ids : HasField(docs[i].m, f)}}
NearVal(f, u) == IF Known(f) # {} /\ R(1..2) = 1 THEN R(Known(f)) ELSE RandVal(f, u)
EdgeCond(u) == LET f == Pick(<<"d", "n">>)
                   w == IF f = "d" THEN DV(R({0, 15, 0, 15, 1, 14, 7})) ELSE IV(R({0, 1, 13, 14})) IN
  [f |-> f, op |-> Pick(<<"gt", "lt", "gt", "lt", "ge", "le", "eq">>), v |-> w, vs |-> <<>>]
Cond(u) == IF R(1..6) = 1 THEN EdgeCond(u) ELSE
           LET f == SomeField(u)
               o == Pick(<<"eq", "eq", "eq", "ne", "gt", "ge", "lt", "le", "in", "in", "nin", "has">>) IN
  [f |-> f, op |-> o, v |-> NearVal(f, u),
   vs |-> IF o \in {"in", "nin"} THEN ValSeq(f, R(0..2)) \o <<NearVal(f, u)>> ELSE <<>>]
RECURSIVE Conds(_)
Conds(n) == IF n = 0 THEN <<>> ELSE <<Cond(n)>> \o Conds(n - 1)
RECURSIVE Filter(_, _)
Filter(dep, u) ==
  IF dep = 0 \/ R(1..3) = 1
  THEN [l |-> "and", c |-> <<Cond(u)>>, s |-> <<>>]
  ELSE LET l == Pick(<<"and", "and", "or", "not">>)
           nc == R(0..2) IN
       IF l = "not"
       THEN (IF R(1..2) = 1 THEN [l |-> l, c |-> <<Cond(u)>>, s |-> <<>>]
             ELSE [l |-> l, c |-> <<>>, s |-> <<Filter(dep - 1, u)>>])
       ELSE [l |-> l, c |-> Conds(nc),
             s |-> CASE R(0..2) = 0 -> <<>>
                     [] R(0..2) = 1 -> <<Filter(dep - 1, 1)>>
                     [] OTHER -> <<Filter(dep - 1, 1), Filter(dep - 1, 2)>>]
(* One value (or a few) of the partition field and perhaps something else. *)
ViewCond(u) == LET f == cfg.indexed[1] IN
  IF R(1..2) = 1 THEN [f |-> f, op |-> "eq", v |-> NearVal(f, u), vs |-> <<>>]
  ELSE [f |-> f, op |-> "in", v |-> NearVal(f, u), vs |-> <<NearVal(f, u)>> \o ValSeq(f, R(0..2))]
ViewFilter(u) ==
  LET rest == Pick(<< <<>>, <<Cond(u)>>, <<Cond(u)>>, <<[f |-> "n", op |-> "ge", v |-> IV(R(0..9)), vs |-> <<>>]>> >>) IN
  IF R(1..3) = 1 THEN [l |-> "and", c |-> rest, s |-> << [l |-> "and", c |-> <<ViewCond(u)>>, s |-> <<>>] >>]
  ELSE [l |-> "and", c |-> <<ViewCond(u)>> \o rest, s |-> <<>>]
SomeFilter(u) == IF Mode = "view" /\ R(1..4) # 1 THEN ViewFilter(u)
                 ELSE IF R(1..20) = 1 THEN NoFilter ELSE Filter(2, u)

Ef == 60
(* Slots taken so far: the search is promised to be exact only while every   *)
(* node may link to every other one.                                        *)
Nbrs == 32
RECURSIVE Slots(_)
Slots(n) == IF n = 0 THEN 0
            ELSE Slots(n - 1) + (IF hist[n].op \in {"insert", "upsert"} THEN Len(hist[n].items) ELSE 0)
Exact == Slots(Len(hist)) <= Nbrs
RECURSIVE Vecs(_)
Vecs(n) == IF n = 0 THEN <<>> ELSE <<Vec(n)>> \o Vecs(n - 1)
MkQuery(u) == [op |-> "query", q |-> Vec(u), k |-> R(1..8), ef |-> Ef, exact |-> Exact, threads |-> R(1..3),
               more |-> IF R(1..2) = 1 THEN <<>> ELSE Vecs(R(1..3))]
MkHybrid(u) == [op |-> "hybrid", q |-> Vec(u), k |-> IF R(1..2) = 1 THEN R(1..3) ELSE R(1..8), ef |-> Ef, exact |-> Exact, threads |-> R(1..3),
                flt |-> SomeFilter(u), hint |-> Pick(<<"auto", "disable", "bitset_prefilter", "iterative_filter", "iterative_filter", "bf">>),
                more |-> IF R(1..2) = 1 THEN <<>> ELSE Vecs(R(1..3))]
MkFilter(u) == [op |-> "filter", flt |-> SomeFilter(u), limit |-> Pick(<<1, 2, 3, 100, 100, 100>>)]
MkGet(u) == [op |-> "get", ids |-> IdSeq(R(1..4))]
MkDelete(u) == [op |-> "delete", ids |-> IdSeq(R(1..3))]
MkUpsert(u) == [op |-> "upsert", items |-> Batch(R(1..3), u)]
MkInsert(u) == [op |-> "insert", items |-> FreshBatch(R(1..3), u)]
MkDelBy(u) == [op |-> "delby", flt |-> Filter(1, u), batch |-> Pick(<<1, 2, 1000>>)]

Weights == CASE Mode = "map"      -> <<"i", "i", "u", "u", "d", "d", "g", "g", "f", "x", "D", "s", "r", "R", "q", "D">>
             [] Mode = "filter"   -> <<"i", "u", "d", "x", "f", "f", "f", "f", "f", "f", "f", "f", "D", "r", "R">>
             [] Mode = "vector"   -> <<"i", "i", "u", "d", "q", "q", "q", "q", "q", "D", "r", "R", "x">>
             [] Mode = "hybrid"   -> <<"i", "u", "d", "h", "h", "h", "h", "h", "h", "q", "r", "R">>
             [] Mode = "view"     -> <<"R", "r", "h", "h", "h", "h", "h", "h", "h", "h", "h", "u", "d">>
             [] Mode = "capacity" -> <<"i", "i", "u", "u", "d", "g", "D", "q", "r">>
             [] Mode = "crash"    -> <<"i", "i", "i", "u", "u", "u", "d", "d", "x", "s", "R", "D", "q", "f", "g">>
OpOf(w) ==
  CASE w = "i" -> MkInsert(w) [] w = "u" -> MkUpsert(w) [] w = "d" -> MkDelete(w) [] w = "g" -> MkGet(w)
    [] w = "f" -> MkFilter(w) [] w = "x" -> MkDelBy(w) [] w = "q" -> MkQuery(w) [] w = "h" -> MkHybrid(w)
    [] w = "D" -> [op |-> "dump"] [] w = "s" -> [op |-> "save"] [] w = "r" -> [op |-> "reopen"]
    [] w = "R" -> [op |-> "reindex"]
BigBatch(n) == [k \in 1..n |-> [Item(k) EXCEPT !.id = BigPool[k]]]
FirstBatch(u) == [op |-> "insert", items |-> IF cfg.big THEN BigBatch(R(14..26))
                                            ELSE Batch(IF Mode \in {"map", "capacity"} THEN R(1..3) ELSE R(2..6), u)]
RandOp(u) == IF Mode = "view" /\ made /\ Len(hist) = 1 THEN [op |-> Pick(<<"reindex", "reopen", "dump">>)]
             ELSE IF ~made THEN (IF R(1..6) = 1 THEN OpOf(Pick(<<"D", "u", "g", "d", "r">>)) ELSE FirstBatch(u))
             ELSE OpOf(Pick(Weights))

RandCfg(u) == [cap |-> IF Mode = "capacity" THEN R(2..7) ELSE -1,
               metric |-> Pick(<<"l2", "l2", "l2", "ip", "cos">>),
               big |-> Mode = "view" \/ (Mode \in {"hybrid", "vector"} /\ R(1..2) = 1),
               quant |-> Quant, nbrs |-> Nbrs,
               persist |-> TRUE,
               indexed |-> CASE Mode = "view" -> Pick(<< <<"c">>, <<"c">>, <<"c", "n">>, <<"b", "c">>, <<"n_s">>, <<"d">> >>)
                             [] Mode \in {"filter", "hybrid"} ->
                                  Pick(<< <<>>, <<"c", "d", "n">>, <<"b", "n_s", "c">>, <<"d", "n", "b">>, <<"c", "n_s">>, <<"c">>, <<"n">>,
                                          <<"b">>, <<"b", "c", "d", "n", "n_s">> >>)
                             [] OTHER -> Pick(<< <<>>, <<"c", "n">> >>),
               threads |-> R(1..2)]

Apply(o) ==
  CASE o.op = "insert" -> \E r \in {"ok", "err"} : Insert(o.items, r)
    [] o.op = "upsert" -> \E r \in {"ok", "err"} : Upsert(o.items, r)
    [] o.op = "delete" -> Delete(o.ids, "ok")
    [] o.op = "delby"  -> DeleteBy(o.flt, "ok", Cardinality(Matching(o.flt)))
    [] o.op = "reindex" -> made /\ UNCHANGED cvars
    [] OTHER -> UNCHANGED cvars

Done == Len(hist') = Depth => PrintT("@@" \o ToJson([cfg |-> cfg, ops |-> hist']))

\* The configuration is drawn in the first step: TLC computes the initial states once for all behaviours.
GInit == cfg = [nbrs |-> 0] /\ hist = <<>> /\ CInit(-1, "l2")
Next == IF cfg.nbrs = 0
        THEN \E c \in {RandCfg(hist)} : cfg' = c /\ cap' = c.cap /\ metric' = c.metric /\ UNCHANGED <<docs, made, hist>>
        ELSE /\ Len(hist) < Depth
             /\ \E o \in {RandOp(0)} : Apply(o) /\ hist' = Append(hist, o)
             /\ cfg' = cfg
             /\ Done

(* ---- every history over a small alphabet *)
XM == << [f |-> "c", x |-> SV(<<97>>)] >>
XN == << [f |-> "c", x |-> SV(<<97, 95, 98>>)], [f |-> "n", x |-> IV(7)] >>
XIt(i, d, m, x) == [id |-> i, d |-> d, m |-> m, x |-> x]
XEq == [l |-> "and", c |-> << [f |-> "c", op |-> "eq", v |-> SV(<<97>>), vs |-> <<>>] >>, s |-> <<>>]
XOps ==
  { [op |-> "insert", items |-> <<XIt("a", 1, XM, <<1, 0, 0>>)>>],
    [op |-> "insert", items |-> <<XIt("b", 2, XN, <<0, 1, 0>>), XIt("a", 3, XN, <<0, 0, 1>>)>>],
    [op |-> "upsert", items |-> <<XIt("a", 4, XN, <<2, 0, 0>>)>>],
    [op |-> "upsert", items |-> <<XIt("b", 5, XM, <<0, 2, 0>>)>>],
    [op |-> "delete", ids |-> <<"a">>],
    [op |-> "delete", ids |-> <<"b", "a">>],
    [op |-> "delby", flt |-> XEq, batch |-> 1],
    [op |-> "save"], [op |-> "reopen"], [op |-> "reindex"] }
XCfg == [cap |-> IF XSet = "cap" THEN 4 ELSE -1, metric |-> "l2", big |-> FALSE, nbrs |-> Nbrs, quant |-> Quant, persist |-> TRUE, indexed |-> <<"c">>, threads |-> 1]
XInit == cfg = XCfg /\ hist = <<>> /\ CInit(XCfg.cap, "l2")
XNext == /\ Len(hist) < Depth
         /\ \E o \in XOps :
              /\ (hist = <<>> => o.op \in {"insert", "upsert"})
              /\ (hist # <<>> /\ o.op \in {"save", "reopen", "reindex"} => hist[Len(hist)].op # o.op)
              /\ Apply(o) /\ hist' = Append(hist, o)
         /\ cfg' = cfg
         /\ Done
=============================================================================
