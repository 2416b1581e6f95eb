SPECIFICATION Spec
INVARIANTS Decided Grouped Closed Serves Report
CHECK_DEADLOCK FALSE
