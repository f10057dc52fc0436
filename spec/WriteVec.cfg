SPECIFICATION Spec
CONSTANTS N = 5
          D = 4
          EMIT = TRUE
ACTION_CONSTRAINT Emit
INVARIANTS Disjoint SameSlots LastWriterWins
CHECK_DEADLOCK FALSE
