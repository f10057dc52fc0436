SPECIFICATION Spec
CONSTANTS
  Values <- MCTrue
  Alloc <- MCTrue
  Reclaim <- MCTrue
  Handles <- MCTrue
  Release = FALSE
  Alphabet = {"set"}
  LenA = 2
  LenB = 1
  LenC = 0
  Scenarios = {1,2}
  Flaws = {}
INVARIANTS Refines NotStuck Exclusive FinalValues FinalSpace FinalHandles
