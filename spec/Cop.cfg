SPECIFICATION Spec
CONSTANTS N = 4
 Vecs = {"line", "pairs"}
 MaxIt = 2
INVARIANTS PartialOK Respects StepsOK CountOK
PROPERTY Terminates
CHECK_DEADLOCK FALSE
