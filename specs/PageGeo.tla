------------------------------- MODULE PageGeo ------------------------------
(* Where a node's record lies in the index file (disk_layout.hpp).           *)
EXTENDS Integers
Sector == 4096
Larger(a, b) == IF a > b THEN a ELSE b
UpTo(n, m) == ((n + m - 1) \div m) * m
NodeLen(d, r) == (4 * d) + 4 + (4 * r)
PerPage(d, r) == Larger(1, Sector \div NodeLen(d, r))
PageSize(d, r) == UpTo(PerPage(d, r) * NodeLen(d, r), Sector)
PageOf(d, r, id) == id \div PerPage(d, r)
Pages(d, r, n) == (n + PerPage(d, r) - 1) \div PerPage(d, r)
FileSize(d, r, pages) == Sector + (pages * PageSize(d, r))
=============================================================================
