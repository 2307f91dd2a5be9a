SPECIFICATION Spec
CONSTANTS N = 4
 Vecs = {"line", "plane"}
 W2s = {0, 2, 1000}
 Nbs = {2, 3, 4}
 MaxIt = 2
INVARIANTS StepsOK CountOK HeavyOK NullOK ApartOK
CHECK_DEADLOCK TRUE
