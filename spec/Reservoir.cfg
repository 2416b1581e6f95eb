CONSTANTS
    Sizes = {1, 2, 3}
    Pushes = 6
SPECIFICATION Spec
INVARIANTS Uniform Bounded Inclusion
CHECK_DEADLOCK FALSE
