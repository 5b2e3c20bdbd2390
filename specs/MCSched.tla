------------------------------- MODULE MCSched -------------------------------
(* The scheduler as built: tasks go into one queue; a worker keeps up to Slots *)
(* of them and runs their steps in turn; it ends when told to and all tasks    *)
(* are finished. Tasks may be handed in at any time before the end.            *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Workers, Tasks, Steps, Slots, WRONG
VARIABLES queue, slot, nav, in, done, total, fin, active, todo, at
vars == <<queue, slot, nav, in, done, total, fin, active, todo, at>>
None == 0
Init == /\ queue = <<>> /\ slot = [w \in Workers |-> [s \in 1..Slots |-> None]] /\ nav = [w \in Workers |-> 1]
        /\ in = [t \in Tasks |-> 0] /\ done = [t \in Tasks |-> 0] /\ total = 0 /\ fin = 0 /\ active = TRUE /\ todo = Tasks
        /\ at = [w \in Workers |-> "turn"]
HandIn == \E t \in todo : /\ active /\ todo' = todo \ {t} /\ total' = total + 1 /\ queue' = Append(queue, t)
                          /\ UNCHANGED <<slot, nav, in, done, fin, active, at>>
End == active /\ todo = {} /\ active' = FALSE /\ UNCHANGED <<queue, slot, nav, in, done, total, fin, todo, at>>
Cur(w) == slot[w][nav[w]]
Turn(w) ==
  /\ at[w] = "turn"
  /\ IF Cur(w) # None THEN at' = [at EXCEPT ![w] = "run"] /\ UNCHANGED <<queue, slot, nav>>
     ELSE IF queue # <<>> THEN slot' = [slot EXCEPT ![w][nav[w]] = Head(queue)] /\ queue' = Tail(queue) /\ at' = [at EXCEPT ![w] = "run"] /\ UNCHANGED nav
     ELSE /\ at' = [at EXCEPT ![w] = IF (fin = total \/ WRONG = "ends early") /\ (~active \/ WRONG = "ends idle") THEN "ended" ELSE "turn"]
          /\ nav' = [nav EXCEPT ![w] = (@ % Slots) + 1] /\ UNCHANGED <<queue, slot>>
  /\ UNCHANGED <<in, done, total, fin, active, todo>>
Enter(w) == at[w] = "run" /\ in' = [in EXCEPT ![Cur(w)] = @ + 1] /\ at' = [at EXCEPT ![w] = "inside"] /\ UNCHANGED <<queue, slot, nav, done, total, fin, active, todo>>
Leave(w) ==
  LET t == Cur(w) IN
  /\ at[w] = "inside" /\ in' = [in EXCEPT ![t] = @ - 1] /\ done' = [done EXCEPT ![t] = @ + 1]
  /\ IF done[t] + 1 = Steps THEN slot' = [slot EXCEPT ![w][nav[w]] = None] /\ fin' = fin + 1 /\ UNCHANGED queue
     ELSE /\ queue' = (IF WRONG = "queues again" THEN Append(queue, t) ELSE queue)
          /\ fin' = (IF WRONG = "counts steps" THEN fin + 1 ELSE fin) /\ UNCHANGED slot
  /\ nav' = [nav EXCEPT ![w] = (@ % Slots) + 1] /\ at' = [at EXCEPT ![w] = "turn"]
  /\ UNCHANGED <<total, active, todo>>
Over == (\A w \in Workers : at[w] = "ended") /\ UNCHANGED vars
Next == HandIn \/ End \/ (\E w \in Workers : Turn(w) \/ Enter(w) \/ Leave(w)) \/ Over
Fair == \A w \in Workers : WF_vars(Turn(w)) /\ WF_vars(Enter(w)) /\ WF_vars(Leave(w))
Spec == Init /\ [][Next]_vars /\ Fair /\ WF_vars(HandIn) /\ WF_vars(End)
Alone == \A t \in Tasks : in[t] <= 1 /\ done[t] <= Steps
AllRun == (\A w \in Workers : at[w] = "ended") => \A t \in Tasks : done[t] = Steps
Ends == <>(\A w \in Workers : at[w] = "ended")
==============================================================================
