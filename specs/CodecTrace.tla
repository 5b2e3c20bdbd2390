------------------------------ MODULE CodecTrace ------------------------------
EXTENDS Codec, TLC, Json, IOUtils
VARIABLES i, rd
Tr == ndJsonDeserialize(IOEnv.TRACE)
Empty == [in |-> [id |-> "", doc |-> "", meta |-> <<>>], fields |-> <<>>]
Judge(e) ==
  CASE e.op = "int" -> IntKeys(e)
    [] e.op = "dbl" -> DblKeys(e)
    [] e.op = "two" -> Two(e)
    [] e.op = "key" -> Key(e)
    [] e.op = "cut" -> Part(rd, e)
    [] e.op = "tag" -> Tagged(rd, e)
    [] e.op = "io"  -> Io(e) /\ IoCuts(e)
    [] e.op \in {"bad", "skip"} -> TRUE
    [] OTHER -> FALSE
Step(e) ==
  CASE e.op = "reset" -> rd' = Empty
    [] e.op = "rec"   -> Whole(e) = TRUE /\ rd' = [in |-> e.in, fields |-> e.fields]
    [] OTHER -> Judge(e) = TRUE /\ UNCHANGED rd
TInit == rd = Empty /\ i = 1
TNext == i <= Len(Tr) /\ i' = i + 1 /\ Step(Tr[i])
Accepted ==
  IF TLCGet("stats").diameter - 1 >= Len(Tr)
  THEN PrintT("@@ACCEPTED")
  ELSE PrintT("@@REJECTED " \o ToString(TLCGet("stats").diameter - 1))
==============================================================================
