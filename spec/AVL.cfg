SPECIFICATION Spec
VIEW View
CONSTANTS
  N = 7
  V = 4

INVARIANTS Balanced Order Answers
PROPERTY Refines
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
