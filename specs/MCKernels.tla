------------------------------- MODULE MCKernels -------------------------------
(* A kernel walks over the components in blocks of W * U, then of W, then one by *)
(* one (or, with two components in a byte, two by two).  Whatever the dimension, *)
(* every component is used exactly once and nothing behind the end is touched.   *)
EXTENDS Naturals
CONSTANTS N, Bad
VARIABLES dim, w, u, step, i, used
vars == <<dim, w, u, step, i, used>>
Init == /\ dim \in 0..N /\ w \in {2, 4} /\ u \in {1, 2, 3} /\ step \in {1, 2} /\ i = 0 /\ used = [k \in 0..N + 1 |-> 0]
Touch(S) == used' = [k \in 0..N + 1 |-> used[k] + IF k \in S THEN 1 ELSE 0]
Go(n, S) == i' = i + n /\ Touch(S) /\ UNCHANGED <<dim, w, u, step>>
Unrolled == i + w * u <= dim /\ Go(w * u, i..i + w * u - 1)
Block == i + w * u > dim /\ i + w <= dim /\ Go(w, i..i + w - 1)
Tail == /\ i + w > dim /\ i < dim
        /\ ~(Bad = 1 /\ dim < w)
        /\ Go(step, IF step = 2 /\ (i + 1 < dim \/ Bad = 2) THEN {i, i + 1} ELSE {i})
Next == Unrolled \/ Block \/ Tail
Spec == Init /\ [][Next]_vars
Inside == \A k \in 0..N + 1 : k >= dim => used[k] = 0
Once == \A k \in 0..N + 1 : used[k] <= 1
Whole == (~ENABLED Next) => \A k \in 0..dim - 1 : used[k] = 1
================================================================================
