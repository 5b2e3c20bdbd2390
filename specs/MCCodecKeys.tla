------------------------------ MODULE MCCodecKeys ------------------------------
(* The key encoding over every pattern of two digits: integers in two's         *)
(* complement, and floating-point numbers of one sign bit, three bits of         *)
(* exponent and four of mantissa, whose numeric values are computed here: the    *)
(* order Codec gives to patterns is the order of the numbers, and the encoded    *)
(* strings have the same order.                                                  *)
EXTENDS Codec
CONSTANTS Wrong, Digits
VARIABLES one, two
Pats == {<<a, b>> : a \in 0..15, b \in Digits}
IntOf(x) == LET u == x[1] * 16 + x[2] IN IF x[1] >= 8 THEN u - 256 ELSE u
Pow(n) == IF n = 0 THEN 1 ELSE 2 ^ n
DblOf(x) == LET e == x[1] % 8  m == x[2]
              v == IF e = 0 THEN m ELSE (16 + m) * Pow(e - 1)
          IN  IF x[1] >= 8 THEN -v ELSE v
Flip(x) == [x EXCEPT ![1] = (@ + 8) % 16]
Not(x) == [k \in DOMAIN x |-> 15 - x[k]]
EncInt(x) == IF Wrong = 1 THEN x ELSE Flip(x)
EncDbl(x) ==
  IF Zero(x) /\ Wrong # 3 THEN Flip(Magnitude(x))
  ELSE IF Negative(x) /\ Wrong # 2 THEN Not(x) ELSE Flip(x)
DecDbl(x) == IF Negative(x) THEN Flip(x) ELSE Not(x)
Init == one \in Pats /\ two \in Pats
Next == UNCHANGED <<one, two>>
Numbers == /\ IntBefore(one, two) <=> IntOf(one) < IntOf(two)
           /\ DblBefore(one, two) <=> DblOf(one) < DblOf(two)
           /\ DblSame(one, two) <=> DblOf(one) = DblOf(two)
Keys == /\ Ordered(IntBefore(one, two), one = two, EncInt(one), EncInt(two))
        /\ Ordered(DblBefore(one, two), DblSame(one, two), EncDbl(one), EncDbl(two))
        /\ DblSame(DecDbl(EncDbl(one)), one) /\ Flip(EncInt(one)) = one
\* strings in the order of their digits: a total order
Total == /\ ~(Before(one, two) /\ Before(two, one)) /\ (one # two => Before(one, two) \/ Before(two, one))
================================================================================
