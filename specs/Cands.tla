-------------------------------- MODULE Cands --------------------------------
(* What every search relies on: a bounded list of candidates that keeps the    *)
(* best entries seen and yields each one not yet expanded once, nearest first; *)
(* and sets of positions that report membership exactly.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES kind, cap,      \* kind of structure, capacity of the list or number of positions
          held,           \* list: set of [n, id, d, x]; n numbers the insertion, x: expanded
          cnt,            \* insertions so far
          members,        \* set: positions reported as members
          objs            \* pool: object number -> "free" or its set of positions, as [used, members]
cvars == <<kind, cap, held, cnt, members, objs>>
Start(k, n) == kind' = k /\ cap' = n /\ held' = {} /\ cnt' = 0 /\ members' = {} /\ objs' = <<>>
-----------------------------------------------------------------------------
(* Candidate lists.  By distance; the deduplicating list also by id.           *)
Strict == kind = "npq"
Less(a, b) == a.d < b.d \/ (Strict /\ a.d = b.d /\ a.id < b.id)
Worst == {e \in held : \A f \in held : ~Less(e, f)}
Best(S) == {e \in S : \A f \in S : ~Less(f, e)}
New(id, d) == [n |-> cnt, id |-> id, d |-> d, x |-> FALSE]
Keep(id, d, ret) == ret # "yes" /\ UNCHANGED held
\* ret: what the call reports ("?" if nothing); ev, who: reported eviction
Insert(id, d, ret, ev, who) ==
  /\ cnt' = cnt + 1
  /\ IF cap = 0 \/ (Strict /\ \E e \in held : e.id = id) THEN Keep(id, d, ret) /\ ev # "yes"
     ELSE \E e \in {New(id, d)} :
          IF Cardinality(held) < cap THEN held' = held \cup {e} /\ ret # "no" /\ ev # "yes"
          ELSE \E w \in Worst :
               \/ /\ ~Less(e, w) /\ Keep(id, d, ret) /\ ev # "yes"
               \/ /\ ~Less(w, e) /\ held' = (held \ {w}) \cup {e} /\ ret # "no" /\ ev # "no" /\ (ev = "yes" => who = w.id)
  /\ UNCHANGED <<kind, cap, members, objs>>
Fresh == {e \in held : ~e.x}
Pop(id, hasd, d) ==
  /\ \E e \in Best(Fresh) : e.id = id /\ (hasd => e.d = d) /\ held' = (held \ {e}) \cup {[e EXCEPT !.x = TRUE]}
  /\ UNCHANGED <<kind, cap, cnt, members, objs>>
Peek(id) == \E e \in Best(Fresh) : e.id = id
None == Fresh = {}
\* A listing: in order, and the held entries exactly.
Count(S, id) == Cardinality({e \in S : e.id = id})
CountD(S, id, d) == Cardinality({e \in S : e.id = id /\ e.d = d})
Listed(e) ==
  /\ Len(e.ids) = Cardinality(held)
  /\ \A x \in held : Cardinality({k \in DOMAIN e.ids : e.ids[k] = x.id}) = Count(held, x.id)
  /\ IF e.hasd
     THEN /\ \A k \in 1..Len(e.ids) : Cardinality({j \in DOMAIN e.ids : e.ids[j] = e.ids[k] /\ e.ds[j] = e.ds[k]}) = CountD(held, e.ids[k], e.ds[k])
          /\ \A k \in 2..Len(e.ids) : e.ds[k-1] < e.ds[k] \/ (e.ds[k-1] = e.ds[k] /\ (Strict => e.ids[k-1] < e.ids[k]))
     ELSE \* ids alone: some assignment of distances in order
          \A k \in 2..Len(e.ids) : \E x, y \in held : x.id = e.ids[k-1] /\ y.id = e.ids[k] /\ x.d <= y.d
\* May a candidate at distance d still enter?
Full(d, res) ==
  IF Cardinality(held) < cap THEN ~res
  ELSE IF cap = 0 THEN TRUE
  ELSE \E w \in Worst : (d > w.d => res) /\ (d < w.d => ~res)
Empty == held' = {} /\ UNCHANGED <<kind, cap, cnt, members, objs>>
Resize(n) == held' = {} /\ cap' = n /\ members' = {} /\ UNCHANGED <<kind, cnt, objs>>
-----------------------------------------------------------------------------
(* Sets of positions.                                                          *)
Put(S) == members' = S /\ UNCHANGED <<kind, cap, held, cnt, objs>>
In(id) == id \in members
-----------------------------------------------------------------------------
(* Pools of such sets: an object belongs to one holder and starts empty.       *)
Used(k) == k \in DOMAIN objs /\ objs[k].used
Over(k, o) == [j \in DOMAIN objs \cup {k} |-> IF j = k THEN o ELSE objs[j]]
Acquire(k) == ~Used(k) /\ objs' = Over(k, [used |-> TRUE, members |-> {}]) /\ UNCHANGED <<kind, cap, held, cnt, members>>
Release(k) == Used(k) /\ objs' = Over(k, [used |-> FALSE, members |-> {}]) /\ UNCHANGED <<kind, cap, held, cnt, members>>
OPut(k, id) == Used(k) /\ objs' = Over(k, [objs[k] EXCEPT !.members = @ \cup {id}]) /\ UNCHANGED <<kind, cap, held, cnt, members>>
=============================================================================
