SPECIFICATION Spec
VIEW View
CONSTANTS
  N = 4
  V = 3
  L = 3
INVARIANTS Order Lanes Answers
PROPERTY Refines
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
