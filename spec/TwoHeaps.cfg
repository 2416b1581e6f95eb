SPECIFICATION Spec
VIEW View
CONSTANTS
  W = 4
  V = 3
  N = 6
  Repaired = TRUE
INVARIANTS Answer Sizes Split
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
