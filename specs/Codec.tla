--------------------------------- MODULE Codec ---------------------------------
(* What encoded keys and stored records have to do, whatever their form.        *)
(* Numbers are given as the sixteen hexadecimal digits of their 64 bits.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Ends(a, b, k) == \A m \in 1..k-1 : a[m] = b[m]
\* the order of digit or byte strings
Before(a, b) == \/ \E k \in DOMAIN a \cap DOMAIN b : Ends(a, b, k) /\ a[k] < b[k]
                \/ Len(a) < Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]
Negative(p) == p[1] >= 8
\* the order of integers in two's complement
IntBefore(p, q) == IF Negative(p) # Negative(q) THEN Negative(p) ELSE Before(p, q)
\* the order of floating-point numbers: sign and magnitude
Magnitude(p) == [p EXCEPT ![1] = @ % 8]
Zero(p) == \A k \in DOMAIN p : Magnitude(p)[k] = 0
Finite(p) == ~(p[1] % 8 = 7 /\ p[2] = 15 /\ p[3] = 15)
DblBefore(p, q) ==
  IF Zero(p) /\ Zero(q) THEN FALSE
  ELSE IF Negative(p) # Negative(q) THEN Negative(p)
  ELSE IF Negative(p) THEN Before(Magnitude(q), Magnitude(p)) ELSE Before(Magnitude(p), Magnitude(q))
DblSame(p, q) == p = q \/ (Zero(p) /\ Zero(q))
Ordered(less, same, x, y) == (Before(x, y) <=> less) /\ ((x = y) <=> same)
IntKeys(e) ==
  /\ Ordered(IntBefore(e.p, e.q), e.p = e.q, e.x, e.y) /\ Ordered(IntBefore(e.p, e.q), e.p = e.q, e.vx, e.vy)
  /\ e.dp = e.p /\ e.dq = e.q
DblKeys(e) ==
  Finite(e.p) /\ Finite(e.q) =>
  /\ Ordered(DblBefore(e.p, e.q), DblSame(e.p, e.q), e.x, e.y) /\ Ordered(DblBefore(e.p, e.q), DblSame(e.p, e.q), e.vx, e.vy)
  /\ DblSame(e.dp, e.p) /\ DblSame(e.dq, e.q)
\* values of any kind have the same key exactly if they are the same (zeroes with either sign are)
Zeroes == {"d0000000000000000", "d8000000000000000"}
Two(e) == e.same <=> (e.p = e.q \/ {e.p, e.q} \subseteq Zeroes)
Key(e) == e.inpre /\ e.infield /\ e.id = e.want
\* ---------------------------------------------------------------- records; rd: the record written last
Has(rd, f) == \E k \in 1..Len(rd.in.meta) : rd.in.meta[k][1] = f
Of(rd, f) == rd.in.meta[CHOOSE k \in 1..Len(rd.in.meta) : rd.in.meta[k][1] = f][2]
Wanted(rd) == {f \in {rd.fields[k] : k \in 1..Len(rd.fields)} : Has(rd, f)}
Whole(e) ==
  /\ e.res = "ok" /\ e.rec = e.in /\ e.est = e.size
  /\ {e.sel[k] : k \in 1..Len(e.sel)} = {<<f, Of(e, f)>> : f \in Wanted(e)} /\ Len(e.sel) = Cardinality(Wanted(e))
  /\ \A k \in 1..Len(e.one) : e.one[k] = <<e.fields[k], IF e.fields[k] # "k" /\ Has(e, e.fields[k]) THEN Of(e, e.fields[k]) ELSE "none">>
\* part of a record is refused; a projection may answer what it finds complete, never anything else
Part(rd, e) ==
  /\ e.res = "error"
  /\ \A k \in 1..Len(e.sel) : e.sel[k][1] \in Wanted(rd) /\ e.sel[k][2] = Of(rd, e.sel[k][1])
  /\ \A k \in 1..Len(e.one) : e.one[k][2] = "none" \/ (Has(rd, e.one[k][1]) /\ e.one[k][2] = Of(rd, e.one[k][1]))
Tagged(rd, e) == e.res = "error" /\ e.sel = <<>> /\ \A k \in 1..Len(e.one) : e.one[k][2] = "none"
\* ---------------------------------------------------------------- reader and writer
Prefix(o, in) == \E n \in 0..Len(in) - 1 : o = SubSeq(in, 1, n) \o <<"none">>
Io(e) == e.got = e.in /\ e.rest = 0 /\ \A k \in 1..Len(e.cuts) : Prefix(e.cuts[k], e.in) \/ (e.cuts[k] = e.in)
IoCuts(e) == \A k \in 1..Len(e.cuts) : e.cuts[k] = e.in => \E j \in 1..Len(e.in) : e.in[j] = "f"
================================================================================
