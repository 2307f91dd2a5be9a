SPECIFICATION Spec
CONSTANTS N = 4
 Vecs = {"line", "pairs"}
 Links = {"complete", "single", "average", "ward"}
INVARIANTS AliveRespects Respects ShapeOK MergesAreOK ForcedOK CountOK AntichainOK OrderOK AtLeastChromatic
PROPERTY Terminates
CHECK_DEADLOCK FALSE
