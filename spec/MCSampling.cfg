SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS EitherAnswer NothingLeft Split Monotone Emit
CHECK_DEADLOCK FALSE
