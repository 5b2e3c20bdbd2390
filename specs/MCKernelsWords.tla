----------------------------- MODULE MCKernelsWords -----------------------------
(* Sums of bytes kept in words: whole words are added up, the upper bytes also on *)
(* their own, and at the end these are taken away from the former.  A word has    *)
(* B * B values.  So that sums fit, entries of n tables keep to at most           *)
(* (B * B - 1) \div n, and the result is read as a number without a sign.         *)
EXTENDS Naturals, Integers
CONSTANTS B, N, Bad
VARIABLES n, k, w0, w1, lo, hi
vars == <<n, k, w0, w1, lo, hi>>
Word == B * B
Cut(x) == x % Word
Levels == IF Bad = 2 THEN B - 1 ELSE IF (Word - 1) \div n < B - 1 THEN (Word - 1) \div n ELSE B - 1
Init == n \in 1..N /\ k = 0 /\ w0 = 0 /\ w1 = 0 /\ lo = 0 /\ hi = 0
Next == /\ k < n /\ k' = k + 1 /\ UNCHANGED n
        /\ \E a \in {0, 1, Levels}, b \in {0, 1, Levels} :
             /\ w0' = Cut(w0 + a + B * b) /\ w1' = Cut(w1 + b)
             /\ lo' = lo + a /\ hi' = hi + b
Spec == Init /\ [][Next]_vars
Even == IF Bad = 1 THEN w0 ELSE Cut(w0 + Word * B - w1 * B)
Read(x) == IF Bad = 3 /\ 2 * x >= Word THEN x - Word ELSE x
Exact == Read(Even) = lo /\ Read(w1) = hi
=================================================================================
