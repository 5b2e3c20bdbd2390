--------------------------------- MODULE Exec ---------------------------------
(* What users of the execution layer observe, for each of its parts:         *)
(*  tp     thread pool: tasks, results, waiting for a number of them, end    *)
(*  sched  scheduler of coroutine tasks that run in steps                    *)
(*  gate   hand-out of a fixed set of objects to suspended coroutines        *)
(*  pool   pools of reusable visited sets                                    *)
(*  lq/tq  queues                                                            *)
(*  spin/shared  locks                                                       *)
(* An event is logged before and after each call; what the call does happens *)
(* at one moment between. Where that moment matters the state is the set of  *)
(* all states the past allows.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES kind, par, st
xvars == <<kind, par, st>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
None == -1
\* ---------------------------------------------------------------- thread pool
TpStart == [tasks |-> <<>>, fins |-> 0, gone |-> FALSE]
TpRunning(s) == {k \in DOMAIN s.tasks : s.tasks[k].at = "run"}
TpStep(s, e) ==
  CASE e.op = "sub"    -> IF e.k \notin DOMAIN s.tasks /\ ~s.gone THEN {[s EXCEPT !.tasks = Put(@, e.k, [m |-> e.m, at |-> "new", got |-> FALSE])]} ELSE {}
    [] e.op = "subd"   -> {s}
    [] e.op = "run"    -> IF e.k \in DOMAIN s.tasks /\ s.tasks[e.k].at = "new" /\ Cardinality(TpRunning(s)) < par /\ ~s.gone
                          THEN {[s EXCEPT !.tasks[e.k].at = "run"]} ELSE {}
    [] e.op = "fin"    -> IF e.k \in TpRunning(s) THEN {[s EXCEPT !.tasks[e.k].at = "fin", !.fins = @ + 1]} ELSE {}
    [] e.op = "got"    -> IF e.k \in DOMAIN s.tasks /\ s.tasks[e.k].at = "fin" /\ ~s.tasks[e.k].got
                             /\ e.r = (IF s.tasks[e.k].m = "x" THEN "x" \o ToString(e.k) ELSE ToString(e.k))
                          THEN {[s EXCEPT !.tasks[e.k].got = TRUE]} ELSE {}
    [] e.op = "wait"   -> {s}
    [] e.op = "waited" -> IF s.fins >= e.n THEN {s} ELSE {}
    [] e.op = "zero"   -> {[s EXCEPT !.fins = 0]}
    [] e.op = "del"    -> {s}
    [] e.op = "deld"   -> IF \A k \in DOMAIN s.tasks : s.tasks[k].at = "fin" THEN {[s EXCEPT !.gone = TRUE]} ELSE {}
    [] e.op = "done"   -> IF s.gone THEN {s} ELSE {}
    [] OTHER -> {}
\* ---------------------------------------------------------------- scheduler
ScStart == [tasks |-> <<>>, gone |-> FALSE, begun |-> FALSE]
ScStep(s, e) ==
  CASE e.op = "sub"   -> IF e.k \notin DOMAIN s.tasks /\ ~s.gone THEN {[s EXCEPT !.tasks = Put(@, e.k, [m |-> e.m, next |-> 0, in |-> FALSE])]} ELSE {}
    [] e.op = "subd"  -> {s}
    [] e.op = "begun" -> {s}
    [] e.op = "in"    -> IF e.k \in DOMAIN s.tasks /\ ~s.gone /\ ~s.tasks[e.k].in /\ e.i = s.tasks[e.k].next /\ e.i < s.tasks[e.k].m
                            /\ Cardinality({k \in DOMAIN s.tasks : s.tasks[k].in}) < par
                         THEN {[s EXCEPT !.tasks[e.k].in = TRUE]} ELSE {}
    [] e.op = "out"   -> IF e.k \in DOMAIN s.tasks /\ s.tasks[e.k].in /\ e.i = s.tasks[e.k].next
                         THEN {[s EXCEPT !.tasks[e.k].in = FALSE, !.tasks[e.k].next = @ + 1]} ELSE {}
    [] e.op = "del"   -> {s}
    [] e.op = "deld"  -> IF \A k \in DOMAIN s.tasks : s.tasks[k].next = s.tasks[k].m /\ ~s.tasks[k].in THEN {[s EXCEPT !.gone = TRUE]} ELSE {}
    [] e.op = "done"  -> IF s.gone THEN {s} ELSE {}
    [] OTHER -> {}
\* ---------------------------------------------------------------- gate
\* free objects; waiting clients in order; objects handed to clients that have not said so yet; calls whose moment is still to come
GtStart == [free |-> 0..(par - 1), q |-> <<>>, out |-> <<>>, own |-> {}, asks |-> {}, rels |-> {}]
GtAsk(s, c) ==
  IF s.free # {} THEN {[s EXCEPT !.free = @ \ {x}, !.out = Put(@, c, x), !.asks = @ \ {c}] : x \in s.free}
  ELSE {[s EXCEPT !.q = Append(@, c), !.asks = @ \ {c}]}
GtRel(s, r) ==
  IF s.q = <<>> THEN [s EXCEPT !.free = @ \cup {r[2]}, !.rels = @ \ {r}]
  ELSE [s EXCEPT !.q = Tail(@), !.out = Put(@, Head(s.q), r[2]), !.rels = @ \ {r}]
RECURSIVE GtClose(_, _)
GtClose(new, all) ==
  IF new = {} THEN all
  ELSE LET nx == UNION {UNION {GtAsk(s, c) : c \in s.asks} \cup {GtRel(s, x) : x \in s.rels} : s \in new} \ all
       IN GtClose(nx, all \cup nx)
GtStep(s, e) ==
  CASE e.op = "ask"  -> {[s EXCEPT !.asks = @ \cup {e.c}]}
    [] e.op = "back" -> IF e.c \notin s.asks THEN {s} ELSE {}
    [] e.op = "have" -> IF e.c \in DOMAIN s.out /\ s.out[e.c] = e.x THEN {[s EXCEPT !.out = Without(@, {e.c}), !.own = @ \cup {<<e.c, e.x>>}]} ELSE {}
    [] e.op = "rel"  -> IF <<e.c, e.x>> \in s.own THEN {[s EXCEPT !.own = @ \ {<<e.c, e.x>>}, !.rels = @ \cup {<<e.c, e.x>>}]} ELSE {}
    [] e.op = "reld" -> IF <<e.c, e.x>> \notin s.rels THEN {s} ELSE {}
    [] e.op = "free" -> IF Cardinality(s.free) = e.n /\ s.q = <<>> /\ s.out = <<>> /\ s.asks = {} /\ s.rels = {} THEN {s} ELSE {}
    [] e.op = "done" -> {s}
    [] OTHER -> {}
\* ---------------------------------------------------------------- pools of objects: x -> who has it
PlStep(s, e) ==
  CASE e.op = "took" -> IF e.x \notin DOMAIN s /\ e.clean THEN {Put(s, e.x, e.c)} ELSE {}
    [] e.op = "gave" -> IF e.x \in DOMAIN s /\ s[e.x] = e.c /\ e.clean THEN {Without(s, {e.x})} ELSE {}
    [] e.op = "done" -> IF s = <<>> THEN {s} ELSE {}
    [] OTHER -> {}
\* ---------------------------------------------------------------- first-in first-out queue
QStart == [q |-> <<>>, puts |-> {}, pops |-> {}, res |-> <<>>]
QPop(s, c) == IF s.q = <<>> THEN [s EXCEPT !.pops = @ \ {c}, !.res = Put(@, c, None)]
              ELSE [s EXCEPT !.pops = @ \ {c}, !.res = Put(@, c, Head(s.q)), !.q = Tail(@)]
RECURSIVE QClose(_, _)
QClose(new, all) ==
  IF new = {} THEN all
  ELSE LET nx == UNION {{[s EXCEPT !.q = Append(@, x), !.puts = @ \ {x}] : x \in s.puts} \cup {QPop(s, c) : c \in s.pops} : s \in new} \ all
       IN QClose(nx, all \cup nx)
QStep(s, e) ==
  CASE e.op = "push"  -> {[s EXCEPT !.puts = @ \cup {e.x}]}
    [] e.op = "pushd" -> IF e.x \notin s.puts THEN {s} ELSE {}
    [] e.op = "pop"   -> {[s EXCEPT !.pops = @ \cup {e.c}]}
    [] e.op = "popd"  -> IF e.c \in DOMAIN s.res /\ s.res[e.c] = e.x THEN {[s EXCEPT !.res = Without(@, {e.c})]} ELSE {}
    [] e.op = "done"  -> {s}
    [] OTHER -> {}
\* ---------------------------------------------------------------- queue of tasks: nothing lost or doubled, in order per producer for one consumer
\* in: pushed and not popped; busy: calls under way; calm: the clients whose pop nobody disturbed so far
TStart == [in |-> {}, busy |-> {}, calm |-> {}]
TStep(s, e) ==
  CASE e.op = "push"  -> {[s EXCEPT !.in = @ \cup {e.x}, !.busy = @ \cup {e.c}, !.calm = {}]}
    [] e.op = "pushd" -> {[s EXCEPT !.busy = @ \ {e.c}]}
    [] e.op = "pop"   -> {[s EXCEPT !.busy = @ \cup {e.c}, !.calm = IF s.busy = {} THEN {e.c} ELSE {}]}
    [] e.op = "popd"  ->
         IF e.x = None THEN (IF e.c \in s.calm /\ s.in # {} THEN {} ELSE {[s EXCEPT !.busy = @ \ {e.c}]})
         ELSE IF e.x \in s.in /\ (e.c \in s.calm => \A y \in s.in : y \div 100 = e.x \div 100 => e.x <= y)
              THEN {[s EXCEPT !.in = @ \ {e.x}, !.busy = @ \ {e.c}]} ELSE {}
    [] e.op = "done"  -> {s}
    [] OTHER -> {}
\* ---------------------------------------------------------------- locks
LStart == [ex |-> {}, sh |-> {}]
LStep(s, e) ==
  CASE e.op = "enter" -> IF s.ex = {} /\ (e.ex => s.sh = {}) THEN {IF e.ex THEN [s EXCEPT !.ex = {e.c}] ELSE [s EXCEPT !.sh = @ \cup {e.c}]} ELSE {}
    [] e.op = "leave" -> IF e.ex THEN {[s EXCEPT !.ex = @ \ {e.c}]} ELSE {[s EXCEPT !.sh = @ \ {e.c}]}
    [] e.op = "try"   -> IF ~e.r /\ par = 1 THEN {} ELSE {s}
    [] e.op = "done"  -> {s}
    [] OTHER -> {}
\* ----------------------------------------------------------------
Begin(k, p) ==
  /\ kind' = k /\ par' = p
  /\ st' = CASE k = "tp" -> {TpStart} [] k = "sched" -> {ScStart} [] k = "gate" -> {[GtStart EXCEPT !.free = 0..(p - 1)]}
             [] k = "lq" -> {QStart} [] k = "tq" -> {TStart} [] k \in {"spin", "shared"} -> {LStart} [] OTHER -> {<<>>}
Each(F(_, _), e) == UNION {F(s, e) : s \in st}
Happen(e) ==
  /\ e.op = "done" => e.cnt = e.want
  /\ \E nx \in {CASE kind = "tp" -> Each(TpStep, e) [] kind = "sched" -> Each(ScStep, e)
                  [] kind = "gate" -> (LET n == Each(GtStep, e) IN GtClose(n, n))
                  [] kind = "lq" -> (LET n == Each(QStep, e) IN QClose(n, n))
                  [] kind = "tq" -> Each(TStep, e) [] kind \in {"spin", "shared"} -> Each(LStep, e)
                  [] OTHER -> Each(PlStep, e)} :
       nx # {} /\ st' = nx
  /\ UNCHANGED <<kind, par>>
===============================================================================
