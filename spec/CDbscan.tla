------------------------------- MODULE CDbscan ------------------------------
(***************************************************************************)
(* Constrained DBSCAN as a function of the items in listing order.  size   *)
(* is the smallest whole number not below the radius.  Dbscan.tla lets the *)
(* core clusters absorb in any order; here the order is the one of the     *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Density, TLC

ApartIn(k, S) == \E x, y \in S : Inf(k, x, y) = CL
(* ---- local clusters: label per item, local cluster per item ({}: none), *)
(* and their order of creation                                             *)
LocalStep(k, vec, eps2, ms, st, x) ==
  LET nb == {y \in Nbr(DOMAIN k.rep, vec, eps2, x) : st.label[y] # "SINGLE"} IN
  IF st.label[x] = "SINGLE" THEN st
  ELSE IF Cardinality(nb) < ms THEN [st EXCEPT !.label[x] = "NOISE"]
  ELSE IF ~ ApartIn(k, nb)
  THEN [st EXCEPT !.label[x] = "CORE", !.local[x] = nb, !.made = IF st.local[x] = {} THEN Append(@, x) ELSE @]
  ELSE [label |-> [y \in DOMAIN k.rep |-> IF y \in nb THEN "SINGLE" ELSE st.label[y]],
        local |-> [y \in DOMAIN k.rep |-> IF y \in nb THEN {y} ELSE st.local[y]],
        made |-> st.made \o SelectSeq(st.order, LAMBDA y : y \in nb /\ st.local[y] = {}), order |-> st.order]
Locals(k, order, vec, eps2, ms) ==
  FoldSeq(LAMBDA x, st : LocalStep(k, vec, eps2, ms, st, x),
          [label |-> [x \in DOMAIN k.rep |-> "NONE"], local |-> [x \in DOMAIN k.rep |-> {}], made |-> <<>>, order |-> order], order)
(* ---- core clusters: along must-links                                    *)
MustStep(k, st, c, x) ==
  LET pts == (IF st.label[x] = "NOISE" THEN {x} ELSE st.local[x]) \cup {j \in Group(k, x) : st.label[j] # "NOISE"}
      new == {p \in pts : c.owner[p] = 0}
  IN [core |-> [c.core EXCEPT ![x] = new \cup Group(k, x)],
      owner |-> [p \in DOMAIN c.owner |-> IF p \in new THEN x ELSE c.owner[p]]]
CoresOf(k, order, st) ==
  LET c == FoldSeq(LAMBDA x, s : MustStep(k, st, s, x), [core |-> [x \in DOMAIN k.rep |-> {}], owner |-> [x \in DOMAIN k.rep |-> 0]], order)
  IN [x \in DOMAIN k.rep |-> IF c.owner[x] = x /\ Cardinality(c.core[x]) >= 2 THEN c.core[x] ELSE {}]
(* ---- absorption: the local cluster of the smallest ID, or nothing       *)
Touching(vec, eps2, S, T) == \E x \in S, y \in T : D2(vec[x], vec[y]) <= eps2
RECURSIVE AbsorbAll(_, _, _, _, _)
AbsorbAll(k, vec, eps2, S, local) ==       \* <<core cluster, what is left>>
  LET left == {x \in DOMAIN local : local[x] # {}} IN
  IF left = {} THEN <<S, local>>
  ELSE LET c == Min(left) IN
       IF Touching(vec, eps2, S, local[c]) /\ ~ (\E x \in S, y \in local[c] : Inf(k, x, y) = CL)
       THEN AbsorbAll(k, vec, eps2, S \cup local[c], [local EXCEPT ![c] = {}])
       ELSE <<S, local>>
Absorbed(k, order, vec, eps2, core, local) ==
  FoldSeq(LAMBDA x, s : IF s.core[x] = {} THEN s
                        ELSE LET r == AbsorbAll(k, vec, eps2, s.core[x], s.local) IN
                             [core |-> [s.core EXCEPT ![x] = r[1]], local |-> r[2]],
          [core |-> core, local |-> local], order)
(* ---- clusters: a later core cluster takes its items back from earlier   *)
(* ones; then the remaining local clusters that are still big enough       *)
Clusters(k, order, size, st, ab) ==
  LET start == FoldSeq(LAMBDA x, f : [y \in DOMAIN f |-> IF y \in ab.core[x] THEN x ELSE f[y]], [y \in DOMAIN k.rep |-> 0], order)
      more == FoldSeq(LAMBDA c, f : LET p == {y \in ab.local[c] : f[y] = 0} IN
                 IF p # {} /\ Cardinality(p) >= size THEN [y \in DOMAIN f |-> IF y \in p THEN -c ELSE f[y]] ELSE f, start, st.made)
  IN more                                  \* 0: noise
DbscanRun(k, order, vec, eps2, size, ms) ==
  LET st == TLCEval(Locals(k, order, vec, eps2, ms))
      core == TLCEval(CoresOf(k, order, st))
      ab == TLCEval(Absorbed(k, order, vec, eps2, core, st.local))
      f == TLCEval(Clusters(k, order, size, st, ab))
      I == DOMAIN k.rep
      reg == {x \in I : f[x] # 0}
      noise == SelectSeq(order, LAMBDA x : f[x] = 0)
      first(x) == Min({y \in reg : f[y] = f[x]})
  IN [x \in I |-> IF x \in reg THEN Cardinality({f[z] : z \in {w \in reg : w < first(x)}})
                  ELSE - (CHOOSE i \in DOMAIN noise : noise[i] = x)]
=============================================================================
