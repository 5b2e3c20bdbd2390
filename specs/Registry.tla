------------------------------- MODULE Registry -------------------------------
(* The client: named collections and indices in memory and at a location on  *)
(* disk.  A collection at a location writes its records through; an index    *)
(* reaches the disk when it is saved.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANT Names
VARIABLES located,   \* the client has a location
          mem, disk, \* Names -> None or [kind, params, made, data]
          own        \* names whose entry in memory and on disk are the same collection
rvars == <<located, mem, disk, own>>
None == [kind |-> "none"]
Is(r) == r.kind # "none"
RInit(loc) == located = loc /\ mem = [n \in Names |-> None] /\ disk = [n \in Names |-> None] /\ own = {}
New(kind, params) == [kind |-> kind, params |-> params, made |-> FALSE, data |-> {}]
Same == UNCHANGED rvars

Create(kind, n, params, res) ==
  IF Is(mem[n]) THEN res = "err" /\ Same
  ELSE res = "ok" /\ mem' = [mem EXCEPT ![n] = New(kind, params)] /\ own' = own \ {n} /\ UNCHANGED <<located, disk>>
(* get-or-create returns what is there; the other kind under that name is refused. *)
GetOrCreate(kind, n, params, res) ==
  IF mem[n].kind = kind THEN res = "ok" /\ Same ELSE Create(kind, n, params, res)
Fill(n, items, res) ==     \* first batch, or more records
  IF ~Is(mem[n]) THEN res = "none" /\ Same
  ELSE IF mem[n].kind = "c" /\ ~mem[n].made /\ disk[n].kind = "c" /\ located
  THEN res = "err" /\ Same          \* records of an earlier collection of that name are still there: never mixed
  ELSE IF mem[n].data \cap items # {} THEN res = "err" /\ Same
  ELSE LET r == [mem[n] EXCEPT !.made = TRUE, !.data = @ \cup items] IN
       /\ res = "ok" /\ mem' = [mem EXCEPT ![n] = r]
       /\ IF r.kind = "c" /\ located THEN disk' = [disk EXCEPT ![n] = r] /\ own' = own \cup {n} ELSE UNCHANGED <<disk, own>>
       /\ UNCHANGED located
Remove(n, items, res) ==   \* collections only
  IF mem[n].kind # "c" THEN res = "none" /\ Same
  ELSE LET r == [mem[n] EXCEPT !.data = @ \ items] IN
       /\ res = "ok" /\ mem' = [mem EXCEPT ![n] = r]
       /\ disk' = IF r.made /\ located THEN [disk EXCEPT ![n] = r] ELSE disk
       /\ UNCHANGED <<located, own>>
Save(kind, n, res) ==
  IF ~located \/ mem[n].kind # kind \/ ~mem[n].made THEN res = "err" /\ Same
  ELSE res = "ok" /\ disk' = [disk EXCEPT ![n] = mem[n]] /\ UNCHANGED <<located, mem, own>>
Delete(kind, n, onDisk, res) ==
  IF mem[n].kind # kind \/ (onDisk /\ ~located) THEN res = "err" /\ Same
  ELSE /\ res = "ok" /\ mem' = [mem EXCEPT ![n] = None] /\ own' = own \ {n}
       /\ disk' = IF onDisk THEN [disk EXCEPT ![n] = None] ELSE disk
       /\ UNCHANGED located
Reset(onDisk, res) ==
  IF onDisk /\ ~located THEN res = "err" /\ Same
  ELSE /\ res = "ok" /\ mem' = [n \in Names |-> None] /\ own' = {}
       /\ disk' = IF onDisk THEN [n \in Names |-> IF Is(mem[n]) THEN None ELSE disk[n]] ELSE disk
       /\ UNCHANGED located
Reopen == /\ mem' = (IF located THEN disk ELSE [n \in Names |-> None])
          /\ own' = {n \in Names : located /\ disk[n].kind = "c"} /\ UNCHANGED <<located, disk>>

Of(kind) == {n \in Names : mem[n].kind = kind}
Range(s) == {s[i] : i \in 1..Len(s)}
Lists(cs, is) == Range(cs) = Of("c") /\ Len(cs) = Cardinality(Of("c")) /\ Range(is) = Of("i") /\ Len(is) = Cardinality(Of("i"))
(* Looking at one name: what is there, with which parameters and contents. *)
Look(n, kind, params, made, data) ==
  /\ kind = mem[n].kind
  /\ Is(mem[n]) => params = mem[n].params /\ made = mem[n].made /\ Range(data) = mem[n].data /\ Len(data) = Cardinality(mem[n].data)

\* properties
OneOwner == \A n \in own : mem[n].kind = "c" /\ mem[n].made => disk[n] = mem[n]
OnlyMadeOnDisk == \A n \in Names : Is(disk[n]) => disk[n].made
NoDiskWithoutPlace == ~located => \A n \in Names : ~Is(disk[n])
=============================================================================
