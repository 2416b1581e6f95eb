CONSTANTS
    Sizes = {1, 2, 3, 4}
    Pushes = 7
SPECIFICATION Spec
INVARIANTS Uniform Bounded Inclusion
CHECK_DEADLOCK FALSE
