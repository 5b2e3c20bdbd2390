------------------------------- MODULE WalGen --------------------------------
(* Random histories of a log: regular writers, stray frames, damage, drops.  *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, n
R(S) == RandomElement(S)
Cmd(s) == Append(hist, s)
S(x) == ToString(x)
P(id, mt) == "P " \o S(id) \o " " \o S(mt) \o " " \o S(R(0..255)) \o "," \o S(CHOOSE x \in {R({0, 1, 2, 7, 29, 300})} : TRUE)
C(id, mt) == "C " \o S(id) \o " " \o S(mt)
Junk(u) == R({0, 0, 3, 40, -1, -64})
Pick(w) ==
  CASE w <= 9 -> LET mt == R(1..4) IN [c |-> <<P(n, mt), C(n, mt)>>, n |-> n + 1]
    [] w = 10 -> [c |-> <<P(n, R(1..4))>>, n |-> n + 1]                                   \* never committed
    [] w = 11 -> LET mt == R(1..3) IN [c |-> <<P(n, mt), P(n + 1, mt), C(n + 1, mt), C(n, mt)>>, n |-> n + 2]
    [] w = 12 -> [c |-> <<P(n, 1), C(n, 2), C(n, 1)>>, n |-> n + 1]                       \* commit of another kind
    [] w = 13 -> [c |-> <<C(n, 1), P(n, 1)>>, n |-> n + 1]
    [] w = 14 -> LET mt == R(1..4) IN [c |-> <<P(n, mt), P(n, mt), C(n, mt), C(n, mt)>>, n |-> n + 1]
    [] w \in 15..18 -> [c |-> <<"B " \o S(R(0..3)) \o " " \o S(R(0..16)) \o " " \o S(Junk(0))>>, n |-> n]
    [] w = 19 -> [c |-> <<"T">>, n |-> n]
    [] w \in 20..21 -> [c |-> <<"O">>, n |-> n]
    [] OTHER -> [c |-> <<"R " \o S(R(0..n))>>, n |-> n]
Init == hist = <<>> /\ n = 1
Done == Len(hist') >= Depth => PrintT("@@" \o ToJson([cmds |-> hist' \o <<"R 0", "O", "R " \o S(R(0..n))>>]))
Next == /\ Len(hist) < Depth
        /\ \E p \in {Pick(R(1..26))} : hist' = hist \o p.c /\ n' = p.n
        /\ Done
=============================================================================
