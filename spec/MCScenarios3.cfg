SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Realised Emit
CHECK_DEADLOCK FALSE
