SPECIFICATION Spec
CONSTANTS N = 5
          EMIT = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Separate Proper
PROPERTY Refines
CHECK_DEADLOCK FALSE
