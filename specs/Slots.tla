------------------------------- MODULE Slots --------------------------------
(* Slot numbers of the updatable disk index (slot_allocator.hpp) and the     *)
(* deletion marks searches consult (tombstone_bitmap.hpp).                   *)
(*                                                                           *)
(* Every slot below `next` is either held by somebody or on the free list.   *)
(* A slot handed out stays marked (hidden from searches) until it is         *)
(* published; a released slot is marked at once and is handed out again      *)
(* before the file grows.  Which free slot is reused is left open.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES next, free, marks, top    \* top: one more than the highest slot number ever marked or announced
svars == <<next, free, marks, top>>
Larger(a, b) == IF a > b THEN a ELSE b
Held == 0..(next - 1) \ free
Start(n) == next' = n /\ free' = {} /\ marks' = {} /\ top' = n
Alloc(id) ==
  /\ IF free # {} THEN id \in free /\ free' = free \ {id} /\ next' = next
                  ELSE id = next /\ free' = free /\ next' = next + 1
  /\ marks' = marks \cup {id}
  /\ top' = Larger(top, id + 1)
Publish(id) == marks' = marks \ {id} /\ UNCHANGED <<next, free, top>>
Free(id) ==
  /\ id \in Held
  /\ free' = free \cup {id}
  /\ marks' = marks \cup {id}
  /\ top' = Larger(top, id + 1)
  /\ UNCHANGED next
\* the marks alone
Set(id) == marks' = marks \cup {id} /\ top' = Larger(top, id + 1) /\ UNCHANGED <<next, free>>
Clear(id) == Publish(id)
(* What can be seen.                                                         *)
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
SlotState(e) ==
  /\ e.next = next
  /\ ToSet(e.free) = free /\ NoDup(e.free) /\ e.nfree = Len(e.free)
MarkState(e) ==
  /\ ToSet(e.marks) = marks
  /\ e.snap = e.marks
  /\ e.count = Cardinality(marks)
  /\ e.cap >= top
(* Concurrent use.  writes: every change of a mark, in the order of the lock *)
(* (or, without a lock, grouped so that changes of one mark are in order),   *)
(* with the moments it began and ended; reads: what readers without any lock *)
(* saw.  A read must return a value the mark had at some moment during the   *)
(* read.                                                                     *)
ReadOk(was, writes, r) ==
  LET ws == SelectSeq(writes, LAMBDA w : w.id = r.id)
      before == Cardinality({k \in 1..Len(ws) : ws[k].e < r.s})
  IN \E k \in before..Len(ws) :
       /\ k = before \/ ws[k].s < r.e
       /\ r.res = (IF k = 0 THEN r.id \in was ELSE ws[k].val)
=============================================================================
