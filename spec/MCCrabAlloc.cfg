CONSTANTS
  Ops = {"new","drop","commit"}
  Items = {1,2}
  Lens = {2}
  MaxH = 3
  MaxB = 2
  MaxObj = 3
  MaxOps = 5
  AnyPlace = FALSE
  EMIT = TRUE
SPECIFICATION Spec
VIEW Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS Exclusive NotFree NoLeak HandleHolds LiveHasHandle InBuffer Reported DeadReported MustMay UpgradeAlive CurExists HandlesKnown
PROPERTIES QuietBetween Growing Fixed
