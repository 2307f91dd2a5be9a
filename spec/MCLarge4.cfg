SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Exists Observers
CHECK_DEADLOCK FALSE
