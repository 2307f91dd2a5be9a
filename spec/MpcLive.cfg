SPECIFICATION Spec
CONSTANTS N = 3
 Vecs = {"line", "plane"}
 W2s = {0, 2, 1000}
 Nbs = {2, 3}
 MaxIt = 2
INVARIANTS StepsOK CountOK HeavyOK NullOK ApartOK
PROPERTY Terminates
CHECK_DEADLOCK TRUE
