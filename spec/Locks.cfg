SPECIFICATION Spec
CONSTANTS
  Threads = 3
INVARIANTS Sane Alive
VIEW View
CHECK_DEADLOCK FALSE
