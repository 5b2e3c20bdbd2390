----------------------------- MODULE DiskImages -----------------------------
(* What stable storage may hold after a power loss, for a recorded sequence  *)
(* of file operations.  Model: an ordered metadata journal (directory        *)
(* operations become durable in order; any fsync makes all earlier ones      *)
(* durable) and file data that is durable once that file has been synced.    *)
(* Unsynced data of a file may be lost or present, wholly or in its first    *)
(* half.  Every reachable image is emitted as (crash point, surviving        *)
(* metadata operations, files whose unsynced data survived).                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Ev == ndJsonDeserialize(IOEnv.TRACE)       \* [k |-> "meta"|"data"|"sync"|"ack", f |-> inode or 0]
VARIABLES n, meta, dmeta, dirty, choice
vars == <<n, meta, dmeta, dirty, choice>>
Init == n = 0 /\ meta = 0 /\ dmeta = 0 /\ dirty = {} /\ choice = [k |-> "run"]
Step ==
  /\ choice.k = "run" /\ n < Len(Ev)
  /\ n' = n + 1
  /\ LET e == Ev[n + 1] IN
     CASE e.k = "meta" -> meta' = meta + 1 /\ UNCHANGED <<dmeta, dirty>>
       [] e.k = "data" -> dirty' = dirty \cup {e.f} /\ UNCHANGED <<meta, dmeta>>
       [] e.k = "sync" -> dirty' = dirty \ {e.f} /\ dmeta' = meta /\ UNCHANGED meta
       [] OTHER -> UNCHANGED <<meta, dmeta, dirty>>
  /\ UNCHANGED choice
Keeps == {{}, dirty} \cup {{f} : f \in dirty} \cup {dirty \ {f} : f \in dirty}
Lose ==
  /\ choice.k = "run"
  /\ \E m \in {x \in dmeta..meta : x \in {dmeta, dmeta + 1, meta}} :
     \/ \E K \in Keeps : choice' = [k |-> "lost", m |-> m, keep |-> K, half |-> 0]
     \/ \E f \in dirty : choice' = [k |-> "lost", m |-> m, keep |-> dirty \ {f}, half |-> f]
  /\ UNCHANGED <<n, meta, dmeta, dirty>>
Next == Step \/ Lose
\* only images at which something is still unsynced, or right after an acknowledgement, are of interest
Emit == choice.k = "lost" => PrintT("@@" \o ToJson([n |-> n, m |-> choice.m, keep |-> choice.keep, half |-> choice.half]))
(* Sanity: what is durable never exceeds what happened. *)
Ordered == dmeta <= meta /\ dirty \subseteq {Ev[i].f : i \in 1..n}
=============================================================================
