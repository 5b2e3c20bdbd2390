--------------------------------- MODULE Wal ---------------------------------
(* The write-ahead log: prepare and commit frames appended in order, a file  *)
(* that may be cut anywhere (with rubbish behind the cut), replay of the     *)
(* committed operations before the first damage.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
VARIABLES log,      \* frames readable from the start of the file: [k, id, mt, p, end]
          torn      \* TRUE: bytes that are no frame follow them
wvars == <<log, torn>>
WInit == log = <<>> /\ torn = FALSE

(* Extending a damaged log cuts the damage off, so that later frames count.  *)
Append1(f) == log' = Append(log, f) /\ torn' = FALSE
Prepare(id, mt, p, end) == Append1([k |-> "P", id |-> id, mt |-> mt, p |-> p, end |-> end])
Commit(id, mt, end) == Append1([k |-> "C", id |-> id, mt |-> mt, p |-> <<0, 0>>, end |-> end])
Drop == log' = <<>> /\ torn' = FALSE
Reopen == UNCHANGED wvars
Damage(off, size, junk) ==
  LET keep == SelectSeq(log, LAMBDA f : f.end <= off)
      at == IF keep = <<>> THEN 0 ELSE keep[Len(keep)].end
  IN log' = keep /\ torn' = (junk \/ (torn /\ off >= size) \/ off > at)

(* What replay has to deliver: folding over the frames. *)
Feed(s, f, after) ==   \* s: [pend, out], sequences of frames
  LET others == SelectSeq(s.pend, LAMBDA g : g.id # f.id)
      mine == SelectSeq(s.pend, LAMBDA g : g.id = f.id)
  IN IF f.k = "P" THEN [s EXCEPT !.pend = Append(others, f)]
     ELSE IF mine = <<>> THEN s
     ELSE IF mine[1].mt # f.mt THEN [s EXCEPT !.pend = others]
     ELSE [pend |-> others, out |-> IF f.id > after THEN Append(s.out, mine[1]) ELSE s.out]
Fold(after) == FoldLeft(LAMBDA s, f : Feed(s, f, after), [pend |-> <<>>, out |-> <<>>], log)
Delivered(after) == SortSeq(Fold(after).out, LAMBDA a, b : a.id < b.id)
MaxSeen(after) == LET S == {log[i].id : i \in 1..Len(log)} \cup {after} IN CHOOSE m \in S : \A x \in S : x <= m

Replay(after, out, max) ==
  LET d == Delivered(after) IN
  /\ Len(out) = Len(d)
  /\ \A i \in 1..Len(d) : out[i] = <<d[i].id, d[i].mt, IF d[i].p[2] = 0 THEN 0 ELSE d[i].p[1], d[i].p[2]>>
  /\ max = MaxSeen(after)
  /\ UNCHANGED wvars
=============================================================================
