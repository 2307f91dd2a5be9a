SPECIFICATION Spec
CONSTANTS N = 4
 Vecs = {"line"}
 W2s = {2, 1000}
 Nbs = {2, 3}
 MaxIt = 1
INVARIANTS StepsOK CountOK HeavyOK NullOK ApartOK
CHECK_DEADLOCK TRUE
