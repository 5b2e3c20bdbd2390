------------------------------- MODULE Values -------------------------------
(* Typed scalar values, metadata maps and metadata filters.                  *)
(* A value is [t |-> type, v |-> sequence]: "i" and "d" carry the rank of    *)
(* the number in the driver's sorted table of concrete numbers, "b" carries  *)
(* 0/1, "s" the character codes.  A "z" field marks the negative zero, which *)
(* is stored apart from, but compares equal to, the positive one.            *)
(* A metadata map is a sequence of [f |-> field, x |-> value] without        *)
(* repeated fields, sorted by the driver.                                    *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SeqLess(_, _)
SeqLess(a, b) ==
  IF Len(b) = 0 THEN FALSE
  ELSE IF Len(a) = 0 THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE SeqLess(Tail(a), Tail(b))

IsSub(p, s) ==
  \/ Len(p) = 0
  \/ \E i \in 1..(Len(s) - Len(p) + 1) : \A j \in 1..Len(p) : s[i + j - 1] = p[j]

Same(a, b) == a.t = b.t /\ a.v = b.v
Less(a, b) == a.t = b.t /\ SeqLess(a.v, b.v)

HasField(m, f) == \E i \in 1..Len(m) : m[i].f = f
FieldVal(m, f) == m[CHOOSE i \in 1..Len(m) : m[i].f = f].x

InSet(x, vs) == \E i \in 1..Len(vs) : Same(x, vs[i])

CondHolds(c, m) ==
  /\ HasField(m, c.f)
  /\ LET x == FieldVal(m, c.f) IN
     CASE c.op = "eq" -> Same(x, c.v)
       [] c.op = "ne" -> ~Same(x, c.v)
       [] c.op = "gt" -> Less(c.v, x)
       [] c.op = "ge" -> x.t = c.v.t /\ ~Less(x, c.v)
       [] c.op = "lt" -> Less(x, c.v)
       [] c.op = "le" -> x.t = c.v.t /\ ~Less(c.v, x)
       [] c.op = "in" -> InSet(x, c.vs)
       [] c.op = "nin" -> ~InSet(x, c.vs)
       [] c.op = "has" -> x.t = "s" /\ c.v.t = "s" /\ IsSub(c.v.v, x.v)

(* A filter is [l |-> "and" | "or" | "not", c |-> conditions, s |-> filters]. *)
RECURSIVE Holds(_, _)
Holds(flt, m) ==
  LET n == Len(flt.c)
      k == Len(flt.s)
      R(i) == IF i <= n THEN CondHolds(flt.c[i], m) ELSE Holds(flt.s[i - n], m)
  IN IF n + k = 0 THEN TRUE
     ELSE CASE flt.l = "and" -> \A i \in 1..(n + k) : R(i)
            [] flt.l = "or"  -> \E i \in 1..(n + k) : R(i)
            [] flt.l = "not" -> ~R(1)

NoFilter == [l |-> "and", c |-> <<>>, s |-> <<>>]

RECURSIVE SumSq(_, _, _)
SumSq(a, b, i) == IF i = 0 THEN 0 ELSE (a[i] - b[i]) * (a[i] - b[i]) + SumSq(a, b, i - 1)
RECURSIVE SumMul(_, _, _)
SumMul(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + SumMul(a, b, i - 1)
L2(a, b) == SumSq(a, b, Len(a))
Dot(a, b) == SumMul(a, b, Len(a))
=============================================================================
