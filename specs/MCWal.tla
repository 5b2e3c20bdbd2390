-------------------------------- MODULE MCWal --------------------------------
(* A writer that prepares, applies and commits one operation at a time, with *)
(* crashes that cut the file anywhere behind the last commit frame it has    *)
(* been told about (or, Power = FALSE: anywhere behind the last append).     *)
(* The recovered operations are exactly the acknowledged ones, plus possibly *)
(* the one in flight.  Truncate = FALSE: the design without cutting the      *)
(* damaged tail off before appending.                                        *)
EXTENDS Wal, TLC
CONSTANTS MaxOps, Truncates, FrameSize, MaxCrash
VARIABLES next, acked, flight, crashes, lost
mvars == <<log, torn, next, acked, flight, crashes, lost>>
End == IF log = <<>> THEN 0 ELSE log[Len(log)].end
Add(f) == IF Truncates \/ ~torn THEN Append1(f) ELSE UNCHANGED wvars   \* unreadable behind damage
Init == WInit /\ next = 1 /\ acked = {} /\ flight = 0 /\ crashes = 0 /\ lost = FALSE
Begin == flight = 0 /\ next <= MaxOps /\ flight' = next /\ next' = next + 1
         /\ Add([k |-> "P", id |-> next, mt |-> 1, p |-> <<next, 1>>, end |-> End + FrameSize])
         /\ UNCHANGED <<acked, crashes, lost>>
Ack == flight # 0 /\ Add([k |-> "C", id |-> flight, mt |-> 1, p |-> <<0, 0>>, end |-> End + FrameSize])
       /\ acked' = acked \cup {flight} /\ flight' = 0 /\ UNCHANGED <<next, crashes, lost>>
Ids(s) == {s[i].id : i \in 1..Len(s)}
\* bytes behind the commit of the last acknowledged operation may be gone
Floor == LET S == {log[i].end : i \in {j \in 1..Len(log) : log[j].k = "C"}} \cup {0} IN CHOOSE m \in S : \A x \in S : x <= m
Crash == /\ crashes < MaxCrash
         /\ \E off \in Floor..(End + FrameSize - 1) : \E junk \in BOOLEAN :
              IF off <= End THEN Damage(off, End, junk)
              ELSE log' = log /\ torn' = TRUE            \* part of a further frame had reached the file
         /\ crashes' = crashes + 1 /\ flight' = 0
         /\ acked' = acked \cup (IF flight \in Ids(Delivered(0))' THEN {flight} ELSE {})
         /\ next' = MaxSeen(0)' + 1
         /\ lost' = (lost \/ ~(acked \subseteq Ids(Delivered(0))'))
Snapshot == /\ flight = 0 /\ log # <<>> /\ FALSE /\ UNCHANGED mvars
Next == Begin \/ Ack \/ Crash \/ Snapshot
NothingLost == ~lost /\ acked \subseteq Ids(Delivered(0))
Exactly == flight = 0 => Ids(Delivered(0)) = acked
Once == LET d == Delivered(0) IN Len(d) = Cardinality(Ids(d)) /\ \A i, j \in 1..Len(d) : i < j => d[i].id < d[j].id
Payloads == LET d == Delivered(0) IN \A i \in 1..Len(d) : d[i].p = <<d[i].id, 1>>
=============================================================================
