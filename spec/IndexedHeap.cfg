SPECIFICATION Spec
VIEW View
CONSTANTS
  N = 4
  V = 3
INVARIANTS HeapOrder
PROPERTY Refines
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
