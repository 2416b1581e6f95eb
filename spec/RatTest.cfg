CONSTANT M = 12
INIT Init
NEXT Next
INVARIANTS Binary Unary
