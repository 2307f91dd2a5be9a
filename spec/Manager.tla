------------------------------ MODULE Manager ------------------------------
(***************************************************************************)
(* The constraints manager, structured like the implementation: an ordered *)
(* list of managed items, the explicit annotations, and the transitivity   *)
(* tables (ml, cl) that add_constraint updates incrementally and that      *)
(* every deletion regenerates.  One action per public mutating call,       *)
(* including the calls that are rejected.                                  *)
(*                                                                         *)
(* The abstract state is (ids, A); (ml, cl) is what the code caches.  The  *)
(* invariants say that the cache always equals the declarative closure.    *)
(***************************************************************************)
EXTENDS Constraints, TLC

CONSTANTS Items,        \* the universe of data IDs
          MaxIds        \* at most that many managed at once

VARIABLES ids, A, ml, cl,
          saved,        \* contents of the last saved file, or NoFile
          ev            \* last call and its outcome (observation only)
vars == <<ids, A, ml, cl, saved, ev>>
NoFile == [ids |-> <<>>, A |-> {<<0, 0, 0>>}]

Managed == {ids[i] : i \in DOMAIN ids}
k == Know(Managed, A)

----------------------------------------------------------------------------
(* The incremental transitivity update of the code. *)
AddTrans(c, x, y, t) ==
  IF t = ML
  THEN LET S == c.ml[x] \cup c.ml[y]
           D == c.cl[x] \cup c.cl[y]
           ml2 == [z \in DOMAIN c.ml |-> IF z \in S THEN S ELSE c.ml[z]]
           cl2 == [z \in DOMAIN c.cl |-> IF z \in S THEN D ELSE c.cl[z]]
       IN [ml |-> ml2,
           cl |-> [z \in DOMAIN c.cl |-> IF z \in D THEN cl2[z] \cup S ELSE cl2[z]]]
  ELSE LET Dx == c.cl[x] \cup c.ml[y]
           Dy == c.cl[y] \cup c.ml[x]
           cl2 == [z \in DOMAIN c.cl |-> IF z \in c.ml[x] THEN Dx ELSE c.cl[z]]
       IN [ml |-> c.ml,
           cl |-> [z \in DOMAIN c.cl |-> IF z \in c.ml[y] THEN Dy ELSE cl2[z]]]
Blank(I) == [ml |-> [x \in I |-> {x}], cl |-> [x \in I |-> {}]]
Regenerate(I, B) == FoldSet(LAMBDA a, c : AddTrans(c, a[1], a[2], a[3]), Blank(I), B)
SetCache(c) == ml' = c.ml /\ cl' = c.cl

(* What the code answers from its cache. *)
CodeInf(x, y) == IF x \in ml[y] THEN ML ELSE IF x \in cl[y] THEN CL ELSE NONE

Call(op, x, y, t, out) == ev' = [op |-> op, x |-> x, y |-> y, t |-> t, out |-> out]
Rejected(op, x, y, t) == Call(op, x, y, t, "ValueError") /\ UNCHANGED <<ids, A, ml, cl, saved>>

----------------------------------------------------------------------------
AddID(x) ==
  IF x \in Managed THEN Rejected("addid", x, 0, 0)
  ELSE /\ Len(ids) < MaxIds
       /\ ids' = Append(ids, x)
       /\ A' = A
       /\ ml' = [z \in Managed \cup {x} |-> IF z = x THEN {x} ELSE ml[z]]
       /\ cl' = [z \in Managed \cup {x} |-> IF z = x THEN {} ELSE cl[z]]
       /\ saved' = saved
       /\ Call("addid", x, 0, 0, "ok")

DelID(x) ==
  IF x \notin Managed THEN Rejected("delid", x, 0, 0)
  ELSE /\ ids' = SelectSeq(ids, LAMBDA z : z # x)
       /\ A' = {a \in A : a[1] # x /\ a[2] # x}
       /\ SetCache(Regenerate(Managed \ {x}, A'))
       /\ saved' = saved
       /\ Call("delid", x, 0, 0, "ok")

AddC(x, y, t) ==
  IF \/ x \notin Managed \/ y \notin Managed \/ t \notin Types
     \/ CodeInf(x, y) = Opp(t)
  THEN Rejected("addc", x, y, t)
  ELSE /\ UNCHANGED <<ids, saved>>
       /\ IF x = y \/ Added(A, x, y) # NONE
          THEN UNCHANGED <<A, ml, cl>>
          ELSE /\ A' = A \cup {Ann(x, y, t)}
               /\ SetCache(AddTrans([ml |-> ml, cl |-> cl], x, y, t))
       /\ Call("addc", x, y, t, "ok")

DelC(x, y) ==
  IF x \notin Managed \/ y \notin Managed THEN Rejected("delc", x, y, 0)
  ELSE /\ A' = IF x = y THEN A ELSE A \ {Ann(x, y, ML), Ann(x, y, CL)}
       /\ SetCache(Regenerate(Managed, A'))
       /\ UNCHANGED <<ids, saved>>
       /\ Call("delc", x, y, 0, "ok")

(* Save to a file; crash/restart = load the last saved file. *)
Save == /\ saved' = [ids |-> ids, A |-> A]
        /\ UNCHANGED <<ids, A, ml, cl>>
        /\ Call("save", 0, 0, 0, "ok")
Load == /\ saved # NoFile
        /\ ids' = saved.ids
        /\ A' = saved.A
        /\ SetCache(Regenerate({saved.ids[i] : i \in DOMAIN saved.ids}, saved.A))
        /\ saved' = saved
        /\ Call("load", 0, 0, 0, "ok")

Init == /\ ids = <<>> /\ A = {} /\ ml = <<>> /\ cl = <<>>
        /\ saved = NoFile
        /\ ev = [op |-> "init", x |-> 0, y |-> 0, t |-> 0, out |-> "ok"]

EditNext == \/ \E x \in Items : AddID(x) \/ DelID(x)
            \/ \E x, y \in Items : DelC(x, y) \/ \E t \in {ML, CL, 9} : AddC(x, y, t)
Next == EditNext \/ Save \/ Load
Spec == Init /\ [][Next]_vars
EditSpec == Init /\ [][EditNext]_vars

----------------------------------------------------------------------------
TypeOK == /\ Len(ids) = Cardinality(Managed)             \* C05 no duplicates
          /\ \A a \in A : a[1] \in Managed /\ a[2] \in Managed /\ a[1] < a[2]
          /\ \A x, y \in Managed : ~ (Ann(x, y, ML) \in A /\ Ann(x, y, CL) \in A)
          /\ DOMAIN ml = Managed /\ DOMAIN cl = Managed
(* C01: the cache is the transitive closure, in both formulations *)
CacheIsClosure == \A x, y \in Managed : /\ CodeInf(x, y) = Declared(A, x, y)
                                        /\ CodeInf(x, y) = Inf(k, x, y)
CacheDisjoint == \A x \in Managed : ml[x] \cap cl[x] = {}
(* C02 *)
Consistent == Satisfiable(A)
RejectIffContradicts ==
  \A x, y \in Managed : \A t \in Types :
     (CodeInf(x, y) = Opp(t)) <=> ~ (IF x = y THEN t = ML ELSE Satisfiable(A \cup {Ann(x, y, t)}))
(* C06 *)
GroupsPartition == /\ UNION Groups(k) = Managed
                   /\ \A g, h \in Groups(k) : g = h \/ g \cap h = {}
                   /\ \A x \in Managed : ml[x] \in Groups(k)
(* C07: the code's counting test is the pairwise test *)
CountingComplete == (\A x \in Managed : Cardinality(ml[x]) + Cardinality(cl[x]) = Len(ids))
                    <=> Complete(k)
(* C09 *)
InvolvedOK == \A x, y \in Managed : Involved(k, x, y) = ml[x] \cup ml[y]
(* C08: there is a clustering respecting everything with n clusters exactly *)
(* for the n between the chromatic number and the number of groups          *)
RangeOK == Managed # {} =>
   \A n \in 1 .. Len(ids) :
     (\E lab \in [Managed -> 1 .. n] : /\ {lab[x] : x \in Managed} = 1 .. n
                                      /\ RespectsML(k, lab) /\ RespectsCL(k, lab))
     <=> (ChromaticNumber(k) <= n /\ n <= Cardinality(Groups(k)))
(* C03: rejected calls change nothing (action property) *)
RejectedChangesNothing == [][ev'.out = "ValueError" => UNCHANGED <<ids, A, ml, cl, saved>>]_vars
(* C04: retraction leaves exactly a fresh manager over what remains *)
HistoryIndependent == LET c == Regenerate(Managed, A) IN c.ml = ml /\ c.cl = cl
(* C10: what is loaded is what was saved *)
SavedOK == saved # NoFile => /\ Satisfiable(saved.A)
                             /\ LET I == {saved.ids[i] : i \in DOMAIN saved.ids}
                                    c == Regenerate(I, saved.A)
                                    kk == Know(I, saved.A)
                                IN \A x, y \in I : (x \in c.ml[y]) <=> Inf(kk, x, y) = ML
LoadRestores == [][ev'.op = "load" => ids' = saved.ids /\ A' = saved.A]_vars
=============================================================================
