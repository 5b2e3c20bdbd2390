----------------------------- MODULE RegistryGen ------------------------------
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, nx
R(S) == RandomElement(S)
Pk(s) == s[R(1..Len(s))]
N(u) == Pk(<<"a", "a", "b b", "b b", "default">>)
Kind(u) == R({"c", "i"})
Params(u) == [metric |-> R({"l2", "ip", "cos"}), nbrs |-> R({8, 16, 32}), cap |-> R({50, 100, 1000}), quant |-> Pk(<<"none", "none", "none", "sq8", "sq4">>),
              fields |-> Pk(<< <<>>, <<"c">>, <<"c", "n">> >>)]
Op(w) ==
  CASE w <= 3 -> [op |-> "create", kind |-> Kind(0), n |-> N(0), params |-> Params(0)]
    [] w = 4 -> [op |-> "goc", kind |-> Kind(0), n |-> N(0), params |-> Params(0)]
    [] w \in 5..8 -> [op |-> "fill", n |-> N(0), items |-> IF R(1..8) = 1 THEN <<R(1..nx)>> ELSE Pk(<< <<nx>>, <<nx, nx + 1>>, <<nx, nx + 1, nx + 2>> >>)]
    [] w = 9 -> [op |-> "remove", n |-> N(0), items |-> <<R(1..nx)>>]
    [] w \in 10..12 -> [op |-> "save", kind |-> Kind(0), n |-> N(0)]
    [] w \in 13..14 -> [op |-> "delete", kind |-> Kind(0), n |-> N(0), disk |-> R(BOOLEAN)]
    [] w = 15 -> [op |-> "wipe", disk |-> R(BOOLEAN)]
    [] w \in 16..18 -> [op |-> "reopen"]
    [] OTHER -> [op |-> "look", n |-> N(0)]
Init == hist = <<>> /\ nx = 1
Done == Len(hist') >= Depth =>
  PrintT("@@" \o ToJson([located |-> R(1..6) > 1, ops |-> hist' \o <<[op |-> "reopen"], [op |-> "look", n |-> "a"], [op |-> "look", n |-> "b b"], [op |-> "look", n |-> "default"]>>]))
Next == /\ Len(hist) < Depth
        /\ \E o \in {Op(R(1..20))} : hist' = Append(hist, o)
        /\ nx' = nx + 3
        /\ Done
=============================================================================
