------------------------------ MODULE MCFilter ------------------------------
(* Laws of the filter semantics, checked over every record and filter of a   *)
(* small universe: they guard the oracle itself.                             *)
EXTENDS Values, TLC
VARIABLES m, flt
FVals == { [t |-> "i", v |-> <<0>>], [t |-> "i", v |-> <<1>>], [t |-> "s", v |-> <<>>], [t |-> "s", v |-> <<1, 2>>],
           [t |-> "s", v |-> <<2>>], [t |-> "b", v |-> <<1>>] }
FMetas == {<<>>} \cup {<<[f |-> "c", x |-> v]>> : v \in FVals} \cup
          {<<[f |-> "c", x |-> v], [f |-> "n", x |-> w]>> : v \in FVals, w \in FVals}
FConds == [f : {"c", "n"}, op : {"eq", "ne", "gt", "ge", "lt", "le", "has", "in", "nin"}, v : FVals, vs : {<<>>} \cup {<<v>> : v \in FVals}]
Leaf(c) == [l |-> "and", c |-> <<c>>, s |-> <<>>]
Not(f) == [l |-> "not", c |-> <<>>, s |-> <<f>>]
FInit == m \in FMetas /\ flt \in FConds
FNext == UNCHANGED <<m, flt>>
W(op) == CondHolds([flt EXCEPT !.op = op], m)
Laws ==
  /\ Holds(Leaf(flt), m) = CondHolds(flt, m)
  /\ Holds(Not(Leaf(flt)), m) = ~CondHolds(flt, m)
  /\ W("ge") <=> (W("gt") \/ (W("eq")))
  /\ W("le") <=> (W("lt") \/ (W("eq")))
  /\ ~(W("gt") /\ W("lt"))
  /\ HasField(m, flt.f) => (W("eq") <=> ~W("ne")) /\ (W("in") <=> ~W("nin"))
  /\ (HasField(m, flt.f) /\ FieldVal(m, flt.f).t = flt.v.t) => (W("ge") <=> ~W("lt"))
  /\ ~HasField(m, flt.f) => ~CondHolds(flt, m)
  /\ W("eq") /\ flt.v.t = "s" => W("has")
=============================================================================
