CONSTANTS
 Workers = {w1,w2}
 Tasks = {1,2,3}
 Steps = 2
 Slots = 2
 WRONG = ""
SPECIFICATION Spec
INVARIANTS Alone AllRun
PROPERTY Ends
