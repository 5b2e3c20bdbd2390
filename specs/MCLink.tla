-------------------------------- MODULE MCLink --------------------------------
(* Threads link nodes into a graph.  Each list has its own lock and is read or   *)
(* replaced whole under it; searching and pruning happen outside.  What a search  *)
(* finds and what pruning keeps is left open: any path from the start, any kept   *)
(* selection that fits and is empty only when nothing was found.                  *)
(*   Bad = 1  a back edge is appended without looking whether it is there         *)
(*   Bad = 2  lists over the limit are not pruned at the end                      *)
(*   Bad = 3  the node itself stays among the candidates                          *)
(*   Bad = 4  a selection is stored even when nothing was found                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS N, Th, R, Slack, Bad
VARIABLES g, todo, pc, node, pool, kept, at, copy
vars == <<g, todo, pc, node, pool, kept, at, copy>>
Nodes == 0..(N - 1)
Start == N - 1
Set(q) == {q[j] : j \in 1..Len(q)}
T == 1..Th
\* selections, in increasing order: order does not matter for what is checked
Sorted(m) == SetToSortSeq(m, LAMBDA a, b : a < b)
Prunings(c) == {Sorted(m) : m \in {m \in SUBSET c : Cardinality(m) <= R /\ (c # {} => m # {})}}
Init == /\ g = [k \in Nodes |-> <<>>] /\ todo = Nodes
        /\ pc = [t \in T |-> "idle"] /\ node = [t \in T |-> 0] /\ pool = [t \in T |-> {}]
        /\ kept = [t \in T |-> <<>>] /\ at = [t \in T |-> 0] /\ copy = [t \in T |-> <<>>]
\* nodes are taken in order
Take(t) == /\ pc[t] = "idle" /\ todo # {}
           /\ \E k \in {CHOOSE k \in todo : \A x \in todo : k <= x} :
                /\ node' = [node EXCEPT ![t] = k] /\ todo' = todo \ {k}
                /\ pool' = [pool EXCEPT ![t] = {Start}]
           /\ pc' = [pc EXCEPT ![t] = "search"]
           /\ UNCHANGED <<g, kept, at, copy>>
\* expanding a node found so far: its list is read under its lock, some of it is kept in the beam
Expand(t) == /\ pc[t] = "search"
             /\ \E x \in pool[t] : \E more \in {m \in SUBSET Set(g[x]) : m # {} /\ ~(m \subseteq pool[t])} :
                  pool' = [pool EXCEPT ![t] = @ \cup more]
             /\ UNCHANGED <<g, todo, pc, node, kept, at, copy>>
Choose(t) == /\ pc[t] = "search"
             /\ \E c \in {IF Bad = 3 THEN pool[t] ELSE pool[t] \ {node[t]}} : \E q \in Prunings(c) : kept' = [kept EXCEPT ![t] = q]
             /\ pc' = [pc EXCEPT ![t] = "set"]
             /\ UNCHANGED <<g, todo, node, pool, at, copy>>
Put(t) == /\ pc[t] = "set"
          /\ g' = IF kept[t] = <<>> /\ Bad # 4 THEN g ELSE [g EXCEPT ![node[t]] = kept[t]]
          /\ at' = [at EXCEPT ![t] = 1]
          /\ pc' = [pc EXCEPT ![t] = "back"]
          /\ UNCHANGED <<todo, node, pool, kept, copy>>
Des(t) == kept[t][at[t]]
Back(t) == /\ pc[t] = "back" /\ at[t] <= Len(kept[t])
           /\ IF node[t] \in Set(g[Des(t)]) /\ Bad # 1
              THEN at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<g, pc, copy>>
              ELSE IF Len(g[Des(t)]) < Slack
              THEN g' = [g EXCEPT ![Des(t)] = Append(@, node[t])] /\ at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, copy>>
              ELSE copy' = [copy EXCEPT ![t] = Append(g[Des(t)], node[t])] /\ pc' = [pc EXCEPT ![t] = "prune"] /\ UNCHANGED <<g, at>>
           /\ UNCHANGED <<todo, node, pool, kept>>
Prune(t) == /\ pc[t] = "prune"
            /\ \E q \in Prunings(Set(copy[t]) \ {Des(t)}) : g' = [g EXCEPT ![Des(t)] = q]
            /\ at' = [at EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "back"] /\ copy' = [copy EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<todo, node, pool, kept>>
Done(t) == /\ pc[t] = "back" /\ at[t] > Len(kept[t])
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ pool' = [pool EXCEPT ![t] = {}] /\ kept' = [kept EXCEPT ![t] = <<>>] /\ at' = [at EXCEPT ![t] = 0]
           /\ node' = [node EXCEPT ![t] = 0]
           /\ UNCHANGED <<g, todo, copy>>
Linked == todo = {} /\ \A t \in T : pc[t] = "idle"
\* afterwards every list over the limit is pruned; the threads work on different nodes
Clean == /\ Linked /\ Bad # 2
         /\ \E k \in {k \in Nodes : Len(g[k]) > R} : \E q \in Prunings(Set(g[k]) \ {k}) : g' = [g EXCEPT ![k] = q]
         /\ UNCHANGED <<todo, pc, node, pool, kept, at, copy>>
Next == Clean \/ \E t \in T : Take(t) \/ Expand(t) \/ Choose(t) \/ Put(t) \/ Back(t) \/ Prune(t) \/ Done(t)
Spec == Init /\ [][Next]_vars
Shape == \A k \in Nodes : Cardinality(Set(g[k])) = Len(g[k]) /\ Set(g[k]) \subseteq Nodes \ {k} /\ Len(g[k]) <= Slack
Finished == (Linked /\ (Bad = 2 \/ \A k \in Nodes : Len(g[k]) <= R)) =>
              \A k \in Nodes : Len(g[k]) <= R /\ (N > 1 => g[k] # <<>>)
===============================================================================
