SPECIFICATION Spec
INVARIANTS Batch Bounded Formulas Weighted Ranked Report
CHECK_DEADLOCK FALSE
