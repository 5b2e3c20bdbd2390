CONSTANTS
  IIds = {"a", "b", "c"}
  IVecs = {0, 1}
  ICap = 5
INIT IInit
NEXT INext
CHECK_DEADLOCK FALSE
INVARIANTS SlotsBounded OneSlotPerId OneIdPerSlot IndexExact SearchSeesLive VectorsMatch
PROPERTY Refines
