SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Realised Emit
CHECK_DEADLOCK FALSE
