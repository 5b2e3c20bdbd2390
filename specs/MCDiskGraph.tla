----------------------------- MODULE MCDiskGraph ----------------------------
(* The neighbour lists of the updatable disk index, as sets, while every     *)
(* list has room.  A search starts at the entry point (read even when        *)
(* removed) and walks through live nodes.  An insertion links to the nodes   *)
(* its search met and is linked back; a removal keeps the node's list so     *)
(* that a later reconnection can go round it; the safety net drops edges to  *)
(* removed nodes.                                                            *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Bad
VARIABLES next, live, G, rem, last
vars == <<next, live, G, rem, last>>
Med == 0
Slots == 0..(N - 1)
RECURSIVE Grow(_, _, _)
Grow(g, lv, S) == LET T == S \cup UNION {g[x] \cap lv : x \in S} IN IF T = S THEN S ELSE Grow(g, lv, T)
Reach(g, lv) == Grow(g, lv, {Med}) \cap lv
Nothing == [x \in Slots |-> {}]
\* built: a clique of the first k nodes, or nodes that all hang on the entry point
Init == /\ \E k \in 1..(N - 1) : next = k /\ live = 0..(k - 1)
           /\ G \in {[x \in Slots |-> IF x < k THEN (0..(k - 1)) \ {x} ELSE {}],
                     [x \in Slots |-> IF x = 0 THEN 1..(k - 1) ELSE IF x < k THEN {0} ELSE {}]}
        /\ rem = Nothing /\ last = "none"
Around(x, extra, g, lv) ==
  (extra \cup (g[x] \cap lv) \cup UNION {rem[d] \cap lv : d \in g[x] \ lv}) \ {x}
Insert(s) ==
  /\ s \notin live /\ s <= next /\ s < N
  /\ LET met == Reach(G, live)
         lv == live \cup {s}
         g1 == [G EXCEPT ![s] = met]
         to == IF met = {} /\ s # Med /\ Bad # 1 THEN {Med} ELSE met
     IN G' = [x \in Slots |-> IF x \in to THEN Around(x, IF Bad = 2 THEN {} ELSE {s}, g1, lv) ELSE g1[x]]
  /\ live' = live \cup {s} /\ next' = (IF s = next THEN next + 1 ELSE next)
  /\ rem' = [rem EXCEPT ![s] = {}] /\ last' = "insert"
Remove(x, fire) ==
  /\ x \in live
  /\ live' = live \ {x} /\ rem' = [rem EXCEPT ![x] = G[x]]
  /\ LET hit == UNION {rem'[d] \cap live' : d \in Slots}
     IN G' = IF fire THEN [y \in Slots |-> IF y \in hit THEN (IF Bad = 3 THEN {} ELSE G[y] \cap live') ELSE G[y]] ELSE G
  /\ last' = "remove" /\ UNCHANGED next
Reconnect(x) == /\ x \in live /\ G' = [G EXCEPT ![x] = IF Bad = 4 THEN (@ \cap live) \ {x} ELSE Around(x, {}, G, live)]
                /\ last' = "reconnect" /\ UNCHANGED <<next, live, rem>>
Reopen == rem' = Nothing /\ last' = "reopen" /\ UNCHANGED <<next, live, G>>
Next == \/ \E s \in Slots : Insert(s)
        \/ \E x \in Slots, f \in BOOLEAN : Remove(x, f)
        \/ \E x \in Slots : Reconnect(x)
        \/ Reopen
Spec == Init /\ [][Next]_vars
Wellformed == \A x \in live : x \notin G[x] /\ G[x] \subseteq 0..(next - 1)
\* an insertion loses nobody and can be found itself; a removal loses only what every path through the removed node led to
Keeps == [][/\ last' = "insert" => Reach(G, live) \subseteq Reach(G', live') /\ (live' \ live) \subseteq Reach(G', live')
            /\ last' = "remove" => Reach(G', live') = Reach(G, live')
            /\ last' = "reopen" => Reach(G', live') = Reach(G, live)
            /\ last' = "reconnect" => Reach(G, live) \subseteq Reach(G', live')]_vars
\* going round removed nodes: reconnecting the nodes a removed one was linked with gives them their old company back
Around2 == [][\A x \in Slots : last' = "reconnect" /\ G'[x] # G[x] => (G[x] \cap live) \subseteq G'[x] /\ \A d \in G[x] \ live : (rem[d] \cap live) \ {x} \subseteq G'[x]]_vars
=============================================================================
