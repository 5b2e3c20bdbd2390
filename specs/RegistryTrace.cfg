CONSTANT Names = {"a", "b b", "default"}
INIT TInit
NEXT TNext
POSTCONDITION Accepted
INVARIANTS OneOwner OnlyMadeOnDisk NoDiskWithoutPlace
CHECK_DEADLOCK FALSE
