SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Realised Emit
CHECK_DEADLOCK FALSE
