CONSTANTS
  Values <- MCValues
  Alloc <- MCAlloc
  Reclaim <- MCReclaim
  Handles <- MCHandles
  Release <- MCRelease
SPECIFICATION Spec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
