CONSTANTS
 Workers = {w1,w2}
 Tasks = {1,2}
 Steps = 2
 Slots = 2
 WRONG = "ends idle"
SPECIFICATION Spec
INVARIANTS Alone AllRun
PROPERTY Ends
