CONSTANTS Names = {"x","y"}
 Items = {1}
 Params = {"p","q"}
SPECIFICATION Spec
INVARIANTS OneOwner OnlyMadeOnDisk NoDiskWithoutPlace
PROPERTIES DiskKept ReopenShowsDisk
CHECK_DEADLOCK FALSE
