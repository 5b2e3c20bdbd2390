CONSTANTS Names = {"x","y","z"}
 Items = {1}
 Params = {"p"}
SPECIFICATION Spec
INVARIANTS OneOwner OnlyMadeOnDisk NoDiskWithoutPlace
PROPERTIES DiskKept ReopenShowsDisk
CHECK_DEADLOCK FALSE
