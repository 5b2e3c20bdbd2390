---------------------------- MODULE MCCollection ----------------------------
(* Exhaustive exploration of Collection over a tiny universe: the invariants *)
(* and the promises that relate calls to each other.                         *)
EXTENDS Collection
CONSTANTS MIds, MVecs, MDocs, MCap, MBatch
VARIABLE last          \* the last call, for action properties

MMeta == { <<>>, << [f |-> "c", x |-> [t |-> "i", v |-> <<1>>]] >> }
MItem == [id : MIds, d : MDocs, m : MMeta, x : {<<v>> : v \in MVecs}]
MBatches == UNION {[1..n -> MItem] : n \in 1..MBatch}
MFlt == { NoFilter,
          [l |-> "and", c |-> << [f |-> "c", op |-> "eq", v |-> [t |-> "i", v |-> <<1>>], vs |-> <<>>] >>, s |-> <<>>],
          [l |-> "not", c |-> << [f |-> "c", op |-> "ge", v |-> [t |-> "i", v |-> <<1>>], vs |-> <<>>] >>, s |-> <<>>] }
mvars == <<docs, made, cap, metric, last>>

MInit == \E c \in {-1, MCap} : CInit(c, "l2") /\ last = [op |-> "none"]

MInsert == \E b \in MBatches, r \in {"ok", "err"} : Insert(b, r) /\ last' = [op |-> "insert", b |-> b, r |-> r]
MUpsert == \E b \in MBatches, r \in {"ok", "err"} : Upsert(b, r) /\ last' = [op |-> "upsert", b |-> b, r |-> r]
MDelete == \E i \in MIds : Delete(<<i>>, "ok") /\ last' = [op |-> "delete", i |-> i]
MDelBy == \E f \in MFlt : DeleteBy(f, "ok", Cardinality(Matching(f))) /\ last' = [op |-> "delby", f |-> f]
MReindex == Reindex("ok") /\ cap' <= MCap /\ last' = [op |-> "reindex"]
MNext == MInsert \/ MUpsert \/ MDelete \/ MDelBy \/ MReindex
MSpec == MInit /\ [][MNext]_mvars

View == <<docs, made, cap>>

(* A duplicate or a full collection refuses without disturbing anything but  *)
(* the items before it in the batch, and an accepted batch is all there.     *)
Promises ==
  [][ /\ (last'.op \in {"insert", "upsert"} /\ last'.r = "ok") =>
           /\ ItemIds(last'.b) \subseteq DOMAIN docs'
           /\ DOMAIN docs' = DOMAIN docs \cup ItemIds(last'.b)
      /\ (last'.op = "insert") => \A i \in DOMAIN docs : docs'[i] = docs[i]
      /\ (last'.op = "upsert") => DOMAIN docs \subseteq DOMAIN docs'
      /\ last'.op = "delete" => DOMAIN docs' = DOMAIN docs \ {last'.i}
      /\ last'.op = "delby" => \A i \in DOMAIN docs : i \in DOMAIN docs' <=> ~Holds(last'.f, docs[i].m)
      /\ last'.op = "reindex" => docs' = docs
      /\ (cap >= 0) <=> (cap' >= 0)
    ]_mvars
(* A filter and its negation split the documents. *)
Complement == \A f \in MFlt : Matching(f) \cup Matching([l |-> "not", c |-> <<>>, s |-> <<f>>]) = Ids
                           /\ Matching(f) \cap Matching([l |-> "not", c |-> <<>>, s |-> <<f>>]) = {}
=============================================================================
