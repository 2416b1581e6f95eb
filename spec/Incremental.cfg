SPECIFICATION Spec
VIEW View
CONSTANTS
  W = 3
  L = 5
  Space = 1
  Decay = 0
  Fault = "none"
INVARIANTS Defined
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
