CONSTANTS
  IIds = {"a", "b"}
  IVecs = {0, 1}
  ICap = 4
INIT IInit
NEXT INext
CHECK_DEADLOCK FALSE
INVARIANTS SlotsBounded OneSlotPerId OneIdPerSlot IndexExact SearchSeesLive VectorsMatch
PROPERTY Refines
