-------------------------------- MODULE MCRing --------------------------------
(* A batch of requests put through a ring of limited depth: as many as fit are    *)
(* prepared, the kernel accepts some of them, the rest is offered again; accepted *)
(* requests are performed and completed in any order; the caller waits for as     *)
(* many completions as were accepted.                                             *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS N, Depth, Bad
VARIABLES pc, start, prepared, sq, accepted, performed, completed, reaped, submitted
vars == <<pc, start, prepared, sq, accepted, performed, completed, reaped, submitted>>
Init == /\ pc = "prepare" /\ start = 0 /\ prepared = 0 /\ sq = <<>> /\ accepted = {} /\ performed = [k \in 1..N |-> 0]
        /\ completed = [k \in 1..N |-> 0] /\ reaped = 0 /\ submitted = 0
Room == Depth - Len(sq)
Least(a, b) == IF a < b THEN a ELSE b
Prepare == /\ pc = "prepare" /\ start < N
           /\ LET m == Least(Least(Depth, N - start), Room) IN
                m > 0 /\ prepared' = m /\ sq' = sq \o [j \in 1..m |-> start + j]
           /\ pc' = "submit" /\ UNCHANGED <<start, accepted, performed, completed, reaped, submitted>>
\* acc: how many of the chunk have been accepted is prepared - Len(sq)
Submit == /\ pc = "submit"
          /\ \E m \in 1..Len(sq) :
               /\ accepted' = accepted \cup {<<sq[j], submitted + j>> : j \in 1..m}
               /\ submitted' = submitted + m
               /\ sq' = IF Bad = 1 /\ m < Len(sq) /\ Len(sq) = prepared THEN SubSeq(sq, 1, prepared) ELSE SubSeq(sq, m + 1, Len(sq))
          /\ IF sq' = <<>> THEN start' = start + prepared /\ pc' = (IF start' = N THEN "wait" ELSE "prepare") ELSE UNCHANGED <<start, pc>>
          /\ UNCHANGED <<prepared, performed, completed, reaped>>
Perform == \E a \in accepted : /\ accepted' = accepted \ {a} /\ performed' = [performed EXCEPT ![a[1]] = @ + 1] /\ completed' = [completed EXCEPT ![a[1]] = @ + 1]
                               /\ UNCHANGED <<pc, start, prepared, sq, reaped, submitted>>
Reap == /\ pc = "wait" /\ \E k \in 1..N : completed[k] > 0 /\ completed' = [completed EXCEPT ![k] = @ - 1]
        /\ reaped' = reaped + 1 /\ UNCHANGED <<pc, start, prepared, sq, accepted, performed, submitted>>
Return == /\ pc = "wait" /\ reaped >= (IF Bad = 2 THEN Least(1, submitted) ELSE submitted) /\ pc' = "done"
          /\ UNCHANGED <<start, prepared, sq, accepted, performed, completed, reaped, submitted>>
Next == Prepare \/ Submit \/ Perform \/ Reap \/ Return
Spec == Init /\ [][Next]_vars
AtMostOnce == \A k \in 1..N : performed[k] <= 1
AllDone == pc = "done" => accepted = {} /\ sq = <<>> /\ \A k \in 1..N : performed[k] = 1 /\ completed[k] = 0
===============================================================================
