----------------------------- MODULE DiskAnnGen -----------------------------
(* Random histories of the updatable disk index.  Every command carries its  *)
(* own description, which the driver copies into the event it reports.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Depth == atoi(IOEnv.LEN)
Flavour == IOEnv.FLAVOUR            \* "plain", "open" (reopened often), "par" (searches beside updates), "fault" (failing device)
VARIABLES hist, c, g
R(S) == RandomElement(S)
T(x) == ToString(x)
Join(s, sep) == IF s = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, x : a \o (IF a = "" THEN "" ELSE sep) \o x, "", s)
B(x) == IF x THEN "1" ELSE "0"
Dash(s) == Join([k \in 1..Len(s) |-> T(s[k])], ",")
Only(S) == CHOOSE x \in S : TRUE
\* vectors: at most four components
V(u) == <<>> \o [k \in 1..(IF c.d < 4 THEN c.d ELSE 4) |-> R((-c.a)..c.a)]
VText(v) == Join([k \in 1..Len(v) |-> T(v[k])], ":")
Vs(n) == <<>> \o [k \in 1..n |-> V(k)]
VsText(vs) == Join([k \in 1..Len(vs) |-> VText(vs[k])], ",")
In(r) == " #" \o ToJson(r)
Sh(S) == IF S = {} THEN <<>> ELSE RandomElement(SetToSeqs(S))
\* ---- g: live labels, slots handed out, released, whether open
Odd == {1000000, 1000001, 1000002}
Labels == 0..11
NewLabel(u) == LET fresh == Labels \ g.live IN IF R(1..14) = 1 THEN R(Labels \cup Odd) ELSE IF fresh = {} THEN R(Labels) ELSE R(fresh)
\* n different labels, mostly new
NewLabels(n) ==
  LET s == FoldLeft(LAMBDA a, k : IF (Labels \ g.live) \ a = {} THEN a ELSE a \cup {R((Labels \ g.live) \ a)}, {}, [k \in 1..n |-> k])
      q == <<>> \o SetToSeq(s)
  IN IF R(1..10) = 1 THEN Append(q, NewLabel(0)) ELSE q
OldLabel(u) == IF g.live = {} \/ R(1..12) = 1 THEN R(Labels \cup Odd) ELSE R(g.live)
OldLabels(n) ==
  LET s == FoldLeft(LAMBDA a, k : IF g.live \ a = {} THEN a ELSE a \cup {R(g.live \ a)}, {}, [k \in 1..n |-> k])
      q == <<>> \o SetToSeq(s)
  IN IF R(1..10) = 1 THEN Append(q, OldLabel(0)) ELSE q
ASlot(u) == R(0..(g.next + (IF R(1..8) = 1 THEN 1 ELSE -1)))
Slots(n) == <<>> \o [k \in 1..n |-> ASlot(k)]
Fits(n) == g.next + n <= c.max
\* ---- one update: <<text, description>>
Up(w) ==
  CASE w <= 6 /\ Fits(1) -> Only({<<"insert " \o T(l) \o " " \o VText(v), [op |-> "insert", l |-> l, v |-> v]>> : l \in {NewLabel(0)}, v \in {V(0)}})
    [] w <= 10 /\ Fits(4) ->
         Only({Only({<<"binsert " \o T(bs) \o " " \o T(R(0..1)) \o " " \o Dash(ls) \o " " \o VsText(vs), [op |-> "binsert", bs |-> bs, ls |-> ls, vs |-> vs]>> : vs \in {Vs(Len(ls))}})
               : ls \in {NewLabels(R(0..3))}, bs \in {IF R(1..25) = 1 THEN 0 ELSE R({1, 2, 8, 1024})}})
    [] w <= 12 -> Only({<<"remove " \o T(s), [op |-> "remove", s |-> s]>> : s \in {ASlot(0)}})
    [] w <= 16 -> Only({<<"removel " \o T(l), [op |-> "removel", l |-> l]>> : l \in {OldLabel(0)}})
    [] w = 17 -> Only({<<"bremove " \o T(R(0..1)) \o " " \o Dash(ss), [op |-> "bremove", ss |-> ss]>> : ss \in {Slots(R(0..3))}})
    [] OTHER -> Only({<<"bremovel " \o Dash(ls), [op |-> "bremovel", ls |-> ls]>> : ls \in {OldLabels(R({1, 1, 2, 3, 12}))}})
\* once devices may have failed, slots are not chosen by number: who holds which is open
Pick(u) == IF Flavour # "fault" \/ Len(hist) <= Depth \div 2 THEN R(1..19) ELSE R((13..19 \ {17}) \cup (IF Fits(4) THEN 1..10 ELSE {}))
\* what the update does to the generator's idea of the contents (approximate: only steers the choice)
Eff(d) ==
  CASE d.op = "insert" -> IF d.l \in g.live \/ d.l = 1000000 THEN g
                          ELSE [g EXCEPT !.live = @ \cup {d.l}, !.free = IF @ > 0 THEN @ - 1 ELSE 0, !.next = IF g.free > 0 THEN @ ELSE @ + 1]
    [] d.op = "binsert" -> LET n == Len(d.ls) IN
                           IF ToSet(d.ls) \cap (g.live \cup {1000000}) # {} \/ Cardinality(ToSet(d.ls)) < n THEN g
                           ELSE [g EXCEPT !.live = @ \cup ToSet(d.ls), !.free = IF @ > n THEN @ - n ELSE 0, !.next = IF g.free > n THEN @ ELSE @ + n - g.free]
    [] d.op = "removel" -> IF d.l \in g.live THEN [g EXCEPT !.live = @ \ {d.l}, !.free = @ + 1] ELSE g
    [] d.op = "bremovel" -> IF ToSet(d.ls) \subseteq g.live /\ Cardinality(ToSet(d.ls)) = Len(d.ls) THEN [g EXCEPT !.live = @ \ ToSet(d.ls), !.free = @ + Len(d.ls)] ELSE g
    [] OTHER -> g
Queries(n) == Vs(n)
\* ---- searches
SearchRec(kinds) ==
  LET kind == R(kinds)
      all == R(1..2) = 1
  IN [kind |-> kind, k |-> IF R(1..30) = 1 THEN 0 ELSE R({1, 2, 3, 5, 10, 30}), L |-> IF all THEN 60 ELSE R({1, 2, 4, 10, 60, 100}),
      pq |-> (c.pq > 0 /\ R(1..3) > 1) \/ R(1..6) = 1,
      rerank |-> IF kind = "pipe" THEN R(1..12) = 1 ELSE R(1..4) > 1, rc |-> R({0, 0, 1, 30}), qs |-> Queries(R(1..3))]
SText(q) == q.kind \o " " \o T(q.k) \o " " \o T(q.L) \o " " \o B(q.pq) \o " " \o B(q.rerank) \o " " \o T(q.rc) \o " " \o T(R(0..1)) \o " " \o T(R(1..3)) \o " " \o T(R({1, 2, 4}))
Search(kinds) == Only({"search " \o SText(q) \o " " \o VsText(q.qs) \o In(q) : q \in {SearchRec(kinds)}})
Kinds == {"one", "batch", "pipe"}
\* ---- opening
LoadCmd(mode) ==
  LET r == [upd |-> mode, it |-> IF R(1..40) = 1 /\ Flavour = "plain" THEN 0 ELSE R({1, 2, 4}), rt |-> IF R(1..40) = 1 /\ Flavour = "plain" THEN 0 ELSE R({1, 2, 4}), ul |-> R({0, 0, 0, 60, 1, 3}),
            rerank |-> R(1..3) > 1, prune |-> R(1..4) = 1, ratio |-> R({0, 5, 5, 30, 100}), snops |-> R({0, 1, 2, 16}), io |-> IF Flavour = "par" /\ c.uring THEN R({0, 2}) ELSE R(0..2)]
  IN Only({"load " \o B(x.upd) \o " " \o T(R({1, 2, 4})) \o " " \o T(R(1..4)) \o " " \o T(R({0, 0, 1, 8})) \o " " \o T(x.ul) \o " " \o B(x.rerank) \o " " \o B(x.prune)
           \o " " \o T(x.ratio) \o " " \o T(x.snops) \o " " \o T(R({0, 1, 2, 4096})) \o " " \o T(x.it) \o " " \o T(x.rt) \o " " \o T(x.io) \o " " \o T(R({1, 2, 8})) \o " " \o T(R({0, 0, 1}))
           \o In(x) : x \in {r}})
Reopen(mode) == (IF g.rw THEN <<"flush">> ELSE <<>>) \o <<"unload", LoadCmd(mode), "graph">>
Has(u) == Only({"has " \o Dash(ls) \o " " \o Dash(ss) \o In([ls |-> ls, ss |-> ss]) : ls \in {<<>> \o SetToSeq(Labels \cup Odd)}, ss \in {<<>> \o [k \in 1..g.next |-> k - 1]}})
UpCmd(u) == u[1] \o In(u[2])
\* several updates beside searches
ParCmd(us, texts) ==
  Only({"par " \o T(R(1..3)) \o " " \o SText(q) \o " " \o VsText(q.qs) \o " " \o Join(texts, " ; ") \o In([us |-> us, kind |-> q.kind, k |-> q.k, L |-> q.L, pq |-> q.pq, rerank |-> q.rerank, rc |-> q.rc, qs |-> q.qs])
        : q \in {[SearchRec(IF c.uring THEN Kinds ELSE {"one", "batch"}) EXCEPT !.k = IF @ = 0 THEN 3 ELSE @, !.rerank = IF c.uring THEN FALSE ELSE @, !.L = R({60, 60, 5})]}})
\* ---- steps
Emit(cs, gg) == hist' = hist \o cs /\ g' = gg
Step(w) ==
  IF w <= 52 THEN \E u \in {Up(Pick(0))} : \E x \in {R(1..4)} : Emit(<<UpCmd(u)>> \o (IF x > 1 THEN <<"graph">> ELSE <<>>) \o (IF x = 4 THEN <<Search(Kinds)>> ELSE <<>>), Eff(u[2]))
  ELSE IF w <= 76 THEN Emit(<<Search(Kinds)>>, g)
  ELSE IF w <= 82 THEN \E s \in {ASlot(0)} : Emit(<<"updnode " \o T(s) \o In([s |-> s]), "graph">>, g)
  ELSE IF w = 83 THEN Emit(<<"flush">>, g)
  ELSE IF w = 84 THEN Emit(<<"flushp">>, g)
  ELSE IF w <= 88 THEN Emit(<<Has(0)>>, g)
  ELSE IF w <= 92 THEN \E m \in {Flavour # "plain" \/ R(1..6) > 1} : Emit(Reopen(m), [g EXCEPT !.rw = m])
  ELSE IF w <= 98 \/ Flavour # "plain" THEN Emit(<<"graph">>, g)
  ELSE IF w = 99 THEN Emit(<<c.head>>, g)
  ELSE Emit(<<"flush", "unload", Search({"one"}), "flush", LoadCmd(TRUE), "graph">>, [g EXCEPT !.rw = TRUE])
FaultStep(w) ==
  \E n \in {R({0, 1, 2, 3, 6})} :
    IF w <= 3 THEN \E u \in {Up(Pick(0))} : Emit(<<"fault " \o T(n) \o " " \o T(R(0..1)), UpCmd(u), "fault -1 0", Has(0)>>, Eff(u[2]))
    ELSE Emit(<<"fault " \o T(n) \o " " \o T(R(0..1)), Search(Kinds), "fault -1 0">>, g)
Config(u) ==
  LET d == R({1, 2, 2, 3, 4, 5, 8, 16, 100, 1100})
      r == R({1, 2, 3, 4, 8, 16, 24})
      n == R({1, 2, 3, 4, 6, 8, 10})
  IN [kind |-> "run", d |-> d, r |-> r, cap |-> IF Flavour = "plain" /\ R(1..20) = 1 THEN R(0..(r - 1)) ELSE R({0, r, r + 1, r + 8}), n |-> n, a |-> R({2, 9, 9}),
      pq |-> IF R(1..3) > 1 THEN 0 ELSE IF Flavour = "plain" /\ R(1..12) = 1 THEN d + 1 ELSE R({m \in {1, 2, 4, 8, d} : m <= 16 /\ d % m = 0}),
      max |-> R({n + 4, 16, 22}), uring |-> R(1..2) = 1, head |-> "", seed |-> R(1..1000)]
BuildCmd(ls, vs) ==
  "build " \o T(c.d) \o " " \o T(c.r) \o " " \o T(R({c.r, 40, 60})) \o " " \o T(c.cap) \o " " \o T(c.pq) \o " " \o T(R({0, 20, 50, 100})) \o " " \o T(R(1..2)) \o " " \o Dash(ls) \o " " \o VsText(vs)
  \o In([dim |-> c.d, r |-> c.r, cap |-> c.cap, pq |-> c.pq, ls |-> ls, vs |-> vs])
Init == c = [kind |-> "", d |-> 1, r |-> 1, cap |-> 0, n |-> 0, a |-> 1, pq |-> 0, max |-> 1, uring |-> TRUE, head |-> "", seed |-> 1] /\ hist = <<>> /\ g = [live |-> {}, next |-> 0, free |-> 0, rw |-> TRUE, us |-> <<>>, tx |-> <<>>]
Done == PrintT("@@" \o ToJson([head |-> T(c.seed), cmds |-> hist']))
Next ==
  CASE c.kind = "" -> (\E x \in {Config(hist)} : c' = x) /\ UNCHANGED <<hist, g>>
    [] c.kind = "run" /\ hist = <<>> ->
         \E ls \in {<<>> \o [k \in 1..c.n |-> k - 1]} : \E vs \in {Vs(c.n)} :
           \E odd \in {R(1..25)} : \E bad \in {CASE odd = 1 -> BuildCmd(ls \o <<0>>, vs \o <<vs[1]>>) [] odd = 2 -> BuildCmd(ls \o <<1000000>>, vs \o <<vs[1]>>) [] odd = 3 -> BuildCmd(<<>>, <<>>) [] OTHER -> ""} :
           \E cmd \in {BuildCmd(ls, vs)} :
             /\ hist' = (IF bad = "" THEN <<>> ELSE <<bad>>) \o (IF odd = 4 THEN <<LoadCmd(TRUE)>> ELSE <<>>) \o <<cmd, LoadCmd(Flavour # "plain" \/ R(1..10) > 1), "graph">>
             /\ c' = [c EXCEPT !.head = cmd]
             /\ g' = [g EXCEPT !.live = ToSet(ls), !.next = c.n]
    [] c.kind = "run" /\ Len(hist) < Depth ->
         /\ UNCHANGED c
         /\ IF g.us # <<>>                                            \* collecting updates for a concurrent step
            THEN \E stop \in {Len(g.us) >= 6 \/ (Len(g.us) >= 2 /\ R(1..4) = 1)} :
                 IF stop THEN Emit(<<"graph", ParCmd(g.us, g.tx), "graph">>, [g EXCEPT !.us = <<>>, !.tx = <<>>])
                 ELSE \E u \in {Up(Pick(0))} : UNCHANGED hist /\ g' = [Eff(u[2]) EXCEPT !.us = Append(@, u[2]), !.tx = Append(@, u[1])]
            ELSE IF Flavour = "par" /\ R(1..3) = 1
            THEN \E u \in {Up(Pick(0))} : UNCHANGED hist /\ g' = [Eff(u[2]) EXCEPT !.us = <<u[2]>>, !.tx = <<u[1]>>]
            ELSE IF Flavour = "fault" /\ Len(hist) > Depth \div 2 /\ R(1..3) = 1 THEN \E w \in {R(1..5)} : FaultStep(w)
            ELSE IF Flavour = "open" /\ R(1..5) = 1 THEN \E m \in {R(1..6) > 1} : Emit(Reopen(m) \o <<Search({"one", "batch"})>>, [g EXCEPT !.rw = m])
            ELSE \E w \in {R(1..100)} : Step(w)
         /\ ((Len(hist') >= Depth /\ g'.us = <<>>) => Done)
    [] OTHER -> FALSE
=============================================================================
