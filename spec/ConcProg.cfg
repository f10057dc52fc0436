CONSTANTS
  Alphabet = {"set"}
  LenA = 2
  LenB = 1
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
