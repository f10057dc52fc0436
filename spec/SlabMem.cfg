SPECIFICATION Spec
CONSTANTS N = 4
          D = 2
          EMIT = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT OnlyAddressed
CHECK_DEADLOCK FALSE
