SPECIFICATION Spec
VIEW View
CONSTANTS
  W = 4
  V = 4
INVARIANTS Answer Candidates Bounded
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
