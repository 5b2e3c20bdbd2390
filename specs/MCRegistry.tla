------------------------------ MODULE MCRegistry ------------------------------
EXTENDS Registry
CONSTANTS Items, Params
Init == \E l \in BOOLEAN : RInit(l)
Kinds == {"c", "i"}
Next ==
  \E n \in Names, k \in Kinds, r \in {"ok", "err", "none"} :
    \/ \E p \in Params : Create(k, n, p, r) \/ GetOrCreate(k, n, p, r)
    \/ \E x \in Items : Fill(n, {x}, r) \/ Remove(n, {x}, r)
    \/ Save(k, n, r)
    \/ \E d \in BOOLEAN : Delete(k, n, d, r) \/ Reset(d, r)
    \/ Reopen
Spec == Init /\ [][Next]_rvars
(* What has reached the disk only leaves it by a deletion there, or by a newer version under that name. *)
DiskKept == [][\A n \in Names : Is(disk[n]) /\ ~Is(disk'[n]) => ~Is(mem'[n]) /\ Is(mem[n])]_rvars
(* Reopening is idempotent and shows the disk. *)
ReopenShowsDisk == [][(mem' # mem /\ disk' = disk /\ Cardinality({n \in Names : mem'[n] # mem[n]}) > 1 /\ \E n \in Names : Is(mem'[n]) /\ mem'[n] # mem[n])
                        => mem' = disk]_rvars
=============================================================================
