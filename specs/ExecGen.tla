------------------------------- MODULE ExecGen -------------------------------
(* Random client programs for each part of the execution layer.              *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
VARIABLES at
R(S) == RandomElement(S)
T(x) == ToString(x)
Cat(ss) == FoldLeft(LAMBDA a, s : a \o " " \o s, "", ss)
Times(n, F(_)) == <<>> \o [k \in 1..n |-> F(k)]
Goes == IOEnv.GOES
\* thread pool: every client submits, then waits; the first one ends the pool
TpSub(c, k) == "s" \o T(c * 6 + k) \o R({"v", "v", "v", "x", "y"})
TpProgs(u) ==
  \E nc \in {R(1..3)} : \E subs \in {Times(nc, LAMBDA c : R(0..3))} : \E nest \in {R({0, 0, 1})} :
    \E all \in {FoldLeft(LAMBDA a, n : a + n, 0, subs)} :
      LET Wait(c) == CASE R(1..4) = 1 -> <<>>
                       [] R(1..3) = 1 -> <<"w" \o T(R(0..all))>>
                       [] OTHER -> <<"w" \o T(all)>>
          Gets(c, n) == IF R(1..2) = 1 THEN <<>> ELSE Times(n, LAMBDA k : "g" \o T(c * 6 + k))
          Again == IF nc = 1 /\ R(1..2) = 1 THEN <<"w" \o T(all), "z", "s20v", "s21x", "w" \o T(R(0..2))>> ELSE <<>>
          Nested == IF nest = 1 THEN <<"s25n">> ELSE <<>>
          Prog(c, n) == IF c = 1 THEN (IF nest = 1 THEN Nested ELSE <<>>) \o Times(n, LAMBDA k : TpSub(c - 1, k)) \o Wait(c) \o Gets(c - 1, n)
                                      \o (IF nest = 1 THEN <<"w" \o T(all + 2)>> ELSE <<>>) \o (IF nest = 0 THEN Again ELSE <<>>)
                                      \o (IF nc > 1 THEN <<"J">> ELSE <<>>) \o <<"d">>
                        ELSE Times(n, LAMBDA k : TpSub(c - 1, k)) \o Wait(c) \o Gets(c - 1, n)
      IN at' = [head |-> "tp " \o T(R(1..3)), progs |-> Times(nc, LAMBDA c : Cat(Prog(c, subs[c])))]
\* scheduler
Hows == {"", "", "a", "aa", "b", "bb", "ab", "ba", "n", "an", "aaaa"}
ScProgs(u) ==
  \E nc \in {R(1..3)} : \E early \in {R({TRUE, FALSE})} :
    LET Subs(c) == Times(R(0..3), LAMBDA k : IF R(1..4) = 1 THEN "p" ELSE "s" \o T(c * 6 + k) \o "/" \o R(Hows))
        First == IF early THEN <<"b">> \o Subs(0) ELSE Subs(0) \o <<"b">> \o (IF R(1..2) = 1 THEN <<>> ELSE <<"p", "s5/" \o R(Hows)>>)
    IN at' = [head |-> "sched " \o T(R(1..3)),
              progs |-> Times(nc, LAMBDA c : Cat(IF c = 1 THEN First \o (IF nc > 1 THEN <<"J">> ELSE <<>>) \o <<R({"j", "d"})>> ELSE Subs(c - 1)))]
\* gate
Round(w) == CASE w <= 2 -> <<"a", "r">> [] w = 3 -> <<"a", "y", "r">> [] w = 4 -> <<"y">> [] OTHER -> <<"p", "a", "p", "r">>
GtProgs(u) ==
  \E nc \in {R(1..4)} : \E p \in {R(1..3)} :
    LET Prog(c) == FoldLeft(LAMBDA a, k : a \o Round(R(1..5)), <<>>, Times(R(1..3), LAMBDA k : k)) \o
                   (IF p > nc /\ R(1..3) = 1 THEN <<"a", "a", "r", "r">> ELSE <<>>)
    IN at' = [head |-> "gate " \o T(p), progs |-> Times(nc, LAMBDA c : Cat(Prog(c)))]
PlProgs(u) ==
  \E nc \in {R(1..3)} :
    at' = [head |-> R({"hpool ", "epool ", "vpool "}) \o T(R(1..3)),
           progs |-> Times(nc, LAMBDA c : Cat(Times(R(2..6), LAMBDA k : R({"a", "a", "m", "m", "m", "r", "r"}))))]
QProgs(u) ==
  \E nc \in {R(1..3)} :
    at' = [head |-> R(IF IOEnv.FLAVOUR = "lq" THEN {"lq 1"} ELSE {"lq 1", "tq 1"}),
           progs |-> Times(nc, LAMBDA c : Cat(Times(R(1..5), LAMBDA k : R({"u", "u", "o"})) \o (IF c = 1 THEN (IF nc > 1 THEN <<"J", "D">> ELSE <<"D">>) ELSE <<>>)))]
LkProgs(u) ==
  \E nc \in {R(1..4)} : \E k \in {R({"spin", "shared"})} :
    at' = [head |-> k \o " " \o T(nc), progs |-> Times(nc, LAMBDA c : Cat(Times(R(1..3), LAMBDA j : IF k = "spin" THEN R({"L", "L", "T"}) ELSE R({"L", "S", "S", "D"}))))]
Init == at = [head |-> "", progs |-> <<>>]
Kinds == IF IOEnv.FLAVOUR = "real" THEN {"tp", "gate", "pool", "lock"} ELSE IF IOEnv.FLAVOUR = "all" THEN {"tp", "sched", "gate", "pool", "q", "lock"} ELSE {IOEnv.FLAVOUR}
Next ==
  \/ /\ at.head = ""
     /\ \E k \in {R(Kinds)} : CASE k = "tp" -> TpProgs(0) [] k = "sched" -> ScProgs(0) [] k = "gate" -> GtProgs(0) [] k = "pool" -> PlProgs(0)
                                [] k \in {"q", "lq"} -> QProgs(0) [] OTHER -> LkProgs(0)
     /\ PrintT("@@" \o ToJson([head |-> at'.head, cmds |-> (<<>> \o [k \in 1..Len(at'.progs) |-> "c" \o at'.progs[k]]) \o <<"go " \o T(R(1..1000000)) \o " " \o Goes>>]))
=============================================================================
