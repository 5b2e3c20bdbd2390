----------------------------- MODULE MCKernelsPack -----------------------------
(* Codes of thirty-two vectors, packed so that one shuffle looks up sixteen of   *)
(* them: byte j of a block holds the nibbles of vectors perm[j] and perm[j] + 16;*)
(* the sums of even and odd bytes are taken apart and laid down one after the    *)
(* other, which has to bring them back into the order of the vectors.  Two       *)
(* codebooks share a byte of the unpacked code.                                  *)
EXTENDS Naturals, Sequences
CONSTANTS Values, Bad
VARIABLES va, xa, vb, xb, pc, blocks, sums, r
vars == <<va, xa, vb, xb, pc, blocks, sums, r>>
Perm == <<0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15>>
V == 0..31
\* codebook c of vector v: zero except for one vector each
Code(c, v) == IF c = 0 THEN IF v = va THEN xa ELSE 0 ELSE IF v = vb THEN xb ELSE 0
Byte(v) == Code(0, v) + 16 * Code(1, v)                     \* nibbles already swapped
Half(c, v) == IF c = 0 THEN Byte(v) % 16 ELSE Byte(v) \div 16
Entry(c, x) == IF x = 0 THEN 0 ELSE 10 * (c + 1) + x        \* the lookup tables
Order(j) == IF Bad = 1 THEN j ELSE Perm[j + 1]
Init == /\ va \in V /\ vb \in V /\ xa \in Values /\ xb \in Values /\ pc = "pack"
        /\ blocks = <<>> /\ sums = [s \in 0..1, j \in 0..15 |-> 0] /\ r = [v \in V |-> 0]
Pack == pc = "pack" /\ pc' = "first"
        /\ blocks' = <<>> \o [c \in 1..2 |-> [j \in 0..15 |-> Half(c - 1, Order(j)) + 16 * Half(c - 1, Order(j) + 16)]]
        /\ UNCHANGED <<va, xa, vb, xb, sums, r>>
Look(c, from, to) ==
  /\ pc = from /\ pc' = to
  /\ sums' = [s \in 0..1, j \in 0..15 |-> sums[s, j] + Entry(c, IF s = 0 THEN blocks[c + 1][j] % 16 ELSE blocks[c + 1][j] \div 16)]
  /\ UNCHANGED <<va, xa, vb, xb, blocks, r>>
\* even bytes first, odd bytes after them; low nibbles are the first sixteen vectors
Lay == /\ pc = "lay" /\ pc' = "done"
       /\ r' = [v \in V |-> LET s == v \div 16 m == v % 16 IN IF m < 8 THEN sums[s, 2 * m] ELSE sums[s, 2 * (m - 8) + 1]]
       /\ UNCHANGED <<va, xa, vb, xb, blocks, sums>>
Next == Pack \/ Look(0, "first", "second") \/ Look(1, "second", "lay") \/ Lay
Spec == Init /\ [][Next]_vars
Right == pc = "done" => \A v \in V : r[v] = Entry(0, Code(0, v)) + Entry(1, Code(1, v))
================================================================================
