CONSTANTS N = 3  Bad = 0
SPECIFICATION Spec
INVARIANT Wellformed
PROPERTIES Keeps Around2
CHECK_DEADLOCK FALSE
