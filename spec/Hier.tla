------------------------------- MODULE Hier --------------------------------
(***************************************************************************)
(* Constrained hierarchical clustering as a machine: merge the closest     *)
(* allowed pair until none is left, gather what remains under a root, then *)
(* cut the tree.  Checked against the declarative predicates that decide   *)
(* the traces of the implementation.                                       *)
(***************************************************************************)
EXTENDS Agglomeration, Scenarios
CONSTANTS Vecs,       \* the vector families considered
          Links
VARIABLES k, vec, link, nodes, alive, it, phase, cut, nb, by
vars == <<k, vec, link, nodes, alive, it, phase, cut, nb, by>>
Vec(f) == [x \in Items |-> <<(CASE f = "line" -> x * x
                                [] f = "pairs" -> x \div 2
                                [] f = "same" -> 1
                                [] f = "zigzag" -> (x * 5) % 7)>>]
NodeOf(id) == CHOOSE n \in NodeSet(nodes) : n.id = id
LeafSeq == SetToSeq({g : g \in Groups(k)})
Init == /\ k \in AllKnowledge
        /\ vec \in {Vec(f) : f \in Vecs}
        /\ link \in Links
        /\ nodes = [i \in 1 .. Cardinality(Groups(k)) |->
                      [id |-> i, it |-> 0, ch |-> <<>>, mem |-> SetToSeq(LeafSeq[i]), depth |-> 0]]
        /\ alive = 1 .. Cardinality(Groups(k))
        /\ it = 0 /\ phase = "merge" /\ cut = {} /\ nb = 0 /\ by = ""
OkPairs == {p \in alive \X alive : p[1] < p[2] /\ Allowed(k, Mem(NodeOf(p[1])), Mem(NodeOf(p[2])))}
NewNode(C) == LET s == SetToSeq(C) IN
  [id |-> Len(nodes) + 1, it |-> it + 1, ch |-> s,
   mem |-> FlattenSeq([i \in DOMAIN s |-> NodeOf(s[i]).mem]),
   depth |-> 1 + Max({NodeOf(c).depth : c \in C})]
Grow(C) == /\ nodes' = Append(nodes, NewNode(C))
           /\ alive' = (alive \ C) \cup {Len(nodes) + 1}
           /\ it' = it + 1
Merge == /\ phase = "merge" /\ OkPairs # {}
         /\ \E p \in OkPairs :
              /\ \A q \in OkPairs : LeqQ(LinkD(link, vec, Mem(NodeOf(p[1])), Mem(NodeOf(p[2]))),
                                         LinkD(link, vec, Mem(NodeOf(q[1])), Mem(NodeOf(q[2]))))
              /\ Grow({p[1], p[2]})
         /\ UNCHANGED <<k, vec, link, phase, cut, nb, by>>
Gather == /\ phase = "merge" /\ OkPairs = {}
          /\ IF Cardinality(alive) > 1 THEN Grow(alive) ELSE UNCHANGED <<nodes, alive, it>>
          /\ phase' = "cut"
          /\ cut' = (IF Cardinality(alive) > 1 THEN alive ELSE
                       LET r == NodeOf(CHOOSE a \in alive : TRUE) IN IF r.ch = <<>> THEN {r.id} ELSE Ch(r))
          /\ nb' \in 2 .. (N + 1)
          /\ by' \in {"size", "iteration"}
          /\ UNCHANGED <<k, vec, link>>
CutInner == {c \in cut : NodeOf(c).ch # <<>>}
Open == /\ phase = "cut" /\ Cardinality(cut) < nb /\ CutInner # {}
        /\ \E c \in CutInner :
             /\ \A d \in CutInner : IF by = "size" THEN Len(NodeOf(d).mem) <= Len(NodeOf(c).mem)
                                                   ELSE NodeOf(d).it <= NodeOf(c).it
             /\ cut' = (cut \ {c}) \cup Ch(NodeOf(c))
        /\ UNCHANGED <<k, vec, link, nodes, alive, it, phase, nb, by>>
Stop == /\ phase = "cut" /\ (Cardinality(cut) >= nb \/ CutInner = {})
        /\ phase' = "done"
        /\ UNCHANGED <<k, vec, link, nodes, alive, it, cut, nb, by>>
Next == Merge \/ Gather \/ Open \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Clusters == {Mem(NodeOf(c)) : c \in cut}
Lab == [x \in Items |-> (CHOOSE i \in 1 .. Len(nodes) : i \in cut /\ x \in Mem(NodeOf(i)))]
(* C15, at every moment *)
AliveRespects == \A a \in alive : phase = "merge" =>
                    \A x, y \in Mem(NodeOf(a)) : Inf(k, x, y) # CL
Respects == phase = "done" => RespectsML(k, Lab) /\ RespectsCL(k, Lab)
(* C17 *)
ShapeOK == phase = "done" => TreeShape(k, nodes)
MergesAreOK == phase = "done" => MergesOK(k, link, vec, nodes)
ForcedOK == phase = "done" => ForcedTop(k, nodes)
(* C18 *)
CountOK == phase = "done" => Cardinality(Clusters) = CutCount(nodes, nb)
AntichainOK == phase = "done" => CutIsAntichain(nodes, Clusters)
OrderOK == phase = "done" => CutOrderOK(nodes, Clusters, by)
AtLeastChromatic == phase = "done" => Cardinality(Clusters) >= ChromaticNumber(k)
Terminates == <>(phase = "done")
=============================================================================
