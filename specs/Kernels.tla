-------------------------------- MODULE Kernels --------------------------------
(* What the distance kernels compute, written plainly: sums over all components. *)
(* The vectors, codes and steps are integers; quantised values are integers too. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt
Sum(n, f(_)) == FoldLeft(LAMBDA a, k : a + f(k), 0, [k \in 1..n |-> k])
Least(s) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, s[1], s)
Most(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, s[1], s)
Sq(x) == x * x
Size(x) == IF x < 0 THEN -x ELSE x
All(s, v) == \A k \in 1..Len(s) : s[k] = v
L2(x, y) == Sum(Len(x), LAMBDA k : Sq(x[k] - y[k]))
\* the inner product is given as a distance: the larger the product the smaller the number
Ip(x, y) == -Sum(Len(x), LAMBDA k : x[k] * y[k])
Float(e) ==
  /\ All(e.l2, L2(e.x, e.y)) /\ All(e.ip, Ip(e.x, e.y)) /\ All(e.one, Sum(e.dim, LAMBDA k : Sq(e.x[k])))
  /\ e.dim > 0 => \A k \in 1..Len(e.range) \div 2 : e.range[2 * k - 1] = Least(e.x) /\ e.range[2 * k] = Most(e.x)
  /\ e.dim = 0 => All(e.range, 0)
\* thousandths of a number that is computed with rounding: terms adding up to a in size
Near(r, v, a) == Size(r - 1000 * v) <= a \div 100 + 1
Value(e, c, k) == e.mn[k] + c[k] * e.st[k]
QL2(e, x, y) == Sum(e.dim, LAMBDA k : Sq((x[k] - y[k]) * e.st[k]))
QIp(e, x, y) == -Sum(e.dim, LAMBDA k : Value(e, x, k) * Value(e, y, k))
QSize(e, x, y) == Sum(e.dim, LAMBDA k : Sq(9 + x[k] * e.st[k]) + Sq(9 + y[k] * e.st[k]))
Quantised(e) ==
  \E l \in {QL2(e, e.x, e.y)}, p \in {QIp(e, e.x, e.y)}, a \in {QSize(e, e.x, e.y)} :
    (\A k \in 1..Len(e.l2) : Near(e.l2[k], l, l)) /\ (\A k \in 1..Len(e.ip) : Near(e.ip[k], p, a))
\* a code is at most one step below the value it stands for, and the ends of the range are met
Code(c, q, st, top) == IF st = 0 THEN c = 0 ELSE IF q \in {0, top} THEN c = q ELSE c \in {q, q - 1}
Fitted8(e) ==
  /\ \A k \in 1..e.dim : Code(e.cx[k], e.x[k], e.st[k], 255) /\ Code(e.cy[k], e.y[k], e.st[k], 255)
  /\ Near(e.r[1], QL2(e, e.cx, e.cy), QL2(e, e.cx, e.cy)) /\ Near(e.r[2], QIp(e, e.cx, e.cy), QSize(e, e.cx, e.cy))
\* two codes in a byte: what the encoder stores (first: high half) and what the kernels read (first: low half)
Stored(e, c) == <<>> \o [k \in 1..e.dim |-> IF k % 2 = 1 THEN c[(k + 1) \div 2] \div 16 ELSE c[(k + 1) \div 2] % 16]
AsRead(e, c) == <<>> \o [k \in 1..e.dim |-> IF k % 2 = 1 THEN c[(k + 1) \div 2] % 16 ELSE c[(k + 1) \div 2] \div 16]
Codes4(e) == \E x \in {Stored(e, e.cx)}, y \in {Stored(e, e.cy)} :
               \A k \in 1..e.dim : Code(x[k], e.x[k], e.st[k], 15) /\ Code(y[k], e.y[k], e.st[k], 15)
Compared(e, x, y) == Near(e.r[1], QL2(e, x, y), QL2(e, x, y)) /\ Near(e.r[2], QIp(e, x, y), QSize(e, x, y))
Fitted4(e) == Codes4(e) /\ Compared(e, Stored(e, e.cx), Stored(e, e.cy))
\* the listed finding: halves taken the other way round
Swapped4(e) == Codes4(e) /\ Compared(e, AsRead(e, e.cx), AsRead(e, e.cy))
\* ---------------------------------------------------------------- one bit per component
Bit(e, v, k) == (e.codes[(v - 1) * (e.dim \div 8) + (k - 1) \div 8 + 1] \div (2 ^ (7 - ((k - 1) % 8)))) % 2
Accumulated(e) ==
  \E want \in {<<>> \o [v \in 1..32 |-> Sum(e.dim, LAMBDA k : Bit(e, v, k) * e.q[k])]} :
    /\ \A k \in 1..Len(e.r) : e.r[k] = want
\* estimates of vectors whose residual is one step along every axis are exact up to the rounding of the query
Tables(e) == e.dim \div 4
Lows(e) == <<>> \o [t \in 1..Tables(e) |-> Sum(4, LAMBDA j : IF e.q[4 * t - 4 + j] < 0 THEN e.q[4 * t - 4 + j] ELSE 0)]
Highs(e) == <<>> \o [t \in 1..Tables(e) |-> Sum(4, LAMBDA j : IF e.q[4 * t - 4 + j] > 0 THEN e.q[4 * t - 4 + j] ELSE 0)]
Levels(e) == IF 65535 \div Tables(e) < 255 THEN 65535 \div Tables(e) ELSE 255
Distance(e, v) == Sum(e.dim, LAMBDA k : Sq(e.q[k] - e.c[k] - (IF \E m \in 1..Len(e.flat) : e.flat[m] = v THEN 0 ELSE IF Bit(e, v, k) = 1 THEN e.step ELSE -e.step)))
Estimated(e) ==
  \E d \in {<<>> \o [v \in 1..32 |-> Distance(e, v)]},
     t1 \in {((Most(Highs(e)) - Least(Lows(e))) * 2000 * e.step * Tables(e)) \div Levels(e)},
     t2 \in {((Most(e.q) - Least(e.q)) * 2000 * e.step * e.dim) \div 63} :
    /\ \A v \in 1..32 : Size(e.rabitq[v] - 1000 * d[v]) <= t1 + t1 \div 100 + d[v] \div 5 + e.dim \div 4 + 20
    \* (LASER adds codes of six bits up in sixteen)
    /\ Sum(e.dim, LAMBDA k : e.bytes[k]) < 65536 => \A v \in 1..32 : Size(e.laser[v] - 1000 * d[v]) <= t2 + t2 \div 100 + d[v] \div 5 + e.dim \div 4 + 20
    /\ (Most(e.q) # Least(e.q)) => (e.sumq = Sum(e.dim, LAMBDA k : e.bytes[k]))
\* ---------------------------------------------------------------- transforms
RECURSIVE Par(_, _, _)
Par(x, y, n) == IF n = 0 THEN 0 ELSE (((x % 2) * (y % 2)) + Par(x \div 2, y \div 2, n - 1)) % 2
Hadamard(e) ==
  \E want \in {<<>> \o [j \in 1..e.dim |-> Sum(Len(e.at), LAMBDA k : IF Par(e.at[k], j - 1, 11) = 1 THEN -e.val[k] ELSE e.val[k])]} :
    \A k \in 1..Len(e.r) : e.r[k] = want
Rotated(e) ==
  \E xy \in {-Ip(e.x, e.y)}, xx \in {-Ip(e.x, e.x)}, yy \in {-Ip(e.y, e.y)} :
    \A k \in 1..Len(e.r) :
      /\ Size(e.r[k][1] - 1000 * xy) <= (xx + yy) \div 10 + 10
      /\ Size(e.r[k][2] - 1000 * xx) <= xx \div 10 + 10 /\ Size(e.r[k][3] - 1000 * yy) <= yy \div 10 + 10
\* ---------------------------------------------------------------- plain loops over any number of elements
Linear(e) ==
  /\ \A r \in 1..Len(e.conv) : \A k \in 1..e.dim : e.conv[r][k] = 2 * e.acc[k] - e.sumq
  /\ \A r \in 1..Len(e.est) : \A k \in 1..e.dim : e.est[r][k] = e.y + e.t[k] + (e.dq[k] * e.w * e.res[k]) + (e.vq[k] * e.vl) + e.sr
  /\ \A r \in 1..Len(e.scaled) : Len(e.scaled[r]) <= e.dim /\ Len(e.scaled[r]) + 16 > e.dim
                                 /\ \A k \in 1..Len(e.scaled[r]) : e.scaled[r][k] = e.res[k] * e.t[k]
\* ---------------------------------------------------------------- which kernel
\* never one the processor lacks; AVX-512 is preferred for floats only if asked for
Chosen(e) ==
  /\ e.all = (IF e.z THEN "avx512" ELSE IF e.y /\ e.m THEN "avx2" ELSE IF e.s THEN "sse4" ELSE "generic")
  /\ e.fp = (IF e.policy = "avx512" /\ e.z THEN "avx512" ELSE IF e.y /\ e.m THEN "avx2" ELSE e.all)
================================================================================
