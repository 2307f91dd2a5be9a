SPECIFICATION Spec
CONSTANTS N = 4
 Places = {0, 2, 3, 7, 12}
 Conv = {1, 2, 5, 10}
 MaxIt = 60
INVARIANTS MustLinks Around
CHECK_DEADLOCK FALSE
