SPECIFICATION Spec
CONSTANTS N = 4
 Places = {0, 2, 3, 7}
 Conv = {3}
 MaxIt = 40
INVARIANTS MustLinks Around
CHECK_DEADLOCK FALSE
