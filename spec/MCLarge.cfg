SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Sound Exists Observers
CHECK_DEADLOCK FALSE
