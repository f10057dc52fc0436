SPECIFICATION Spec
CONSTANTS L = 7
          EMIT = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Strict Disjoint Exact
CHECK_DEADLOCK FALSE
