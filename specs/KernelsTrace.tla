------------------------------ MODULE KernelsTrace ------------------------------
EXTENDS Kernels, TLC, Json, IOUtils
CONSTANT Strict                       \* whether the listed finding counts
VARIABLE i
Tr == ndJsonDeserialize(IOEnv.TRACE)
Judge(e) ==
  CASE e.op = "f" -> Float(e)
    [] e.op \in {"q8", "q4"} -> Quantised(e)
    [] e.op = "e8" -> Fitted8(e)
    [] e.op = "e4" -> Fitted4(e) \/ (~Strict /\ Swapped4(e))
    [] e.op = "acc" -> Accumulated(e)
    [] e.op = "est" -> Estimated(e)
    [] e.op = "fht" -> Hadamard(e)
    [] e.op = "rot" -> Rotated(e)
    [] e.op = "lin" -> Linear(e)
    [] e.op = "sel" -> Chosen(e)
    [] e.op = "reset" -> TRUE
    [] OTHER -> FALSE
TInit == i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Judge(Tr[i]) = TRUE
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
==============================================================================
