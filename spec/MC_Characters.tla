---------------------------- MODULE MC_Characters ---------------------------
(* Every reduced form up to a bound has a character whose lattice system is    *)
(* the one its automorphisms say, and the character does not depend on the     *)
(* description: reducing a skewed description of the lattice leads back to it. *)
(* Together the forms inhabit all 44 characters, and each conventional cell of *)
(* a form has the centering of its character.                                  *)
EXTENDS Characters, IOUtils, TLC, SequencesExt

Bound == atoi(IOEnv.BOUND)
Reduced(A, B, C) ==
  {g \in {Form(A, B, C, x, e, z) : x \in -B..B, e \in -A..A, z \in -A..A} : IsNiggli(g) /\ PosDef(g)}
All == UNION {Reduced(t[1], t[2], t[3]) : t \in {u \in Cube(1, Bound) : u[1] <= u[2] /\ u[2] <= u[3]}}
Skews == {FromCols(<<1,0,0>>, <<p,1,0>>, <<q,r,1>>) : p \in {-1,0,2}, q \in {-2,1}, r \in {-1,0,1}}

ASSUME Bound < 6 \/ Cardinality({Character(f) : f \in All}) = 44

VARIABLES g, k, cells
vars == <<g, k, cells>>
Init == g \in All /\ k = 0 /\ cells = {}
Classify == k = 0 /\ k' = Character(g) /\ UNCHANGED <<g, cells>>
Standardize == /\ k # 0 /\ cells = {}
               /\ cells' = Cells(g, Bravais(k)[1])
               /\ UNCHANGED <<g, k>>
Next == Classify \/ Standardize
Spec == Init /\ [][Next]_vars

InTable == k \in 0..44
SameSystem == k # 0 => Bravais(k)[1] = System(Cardinality(AutReduced(g)))
Unique == k # 0 => \A u \in Skews : Character(Niggli(Congr(g, u)).g) = k
HasCell == [][Standardize => cells' # {}]_vars
(* every conventional cell has the centering of the character *)
HasCentering == \A T \in cells : Centering(T) = Bravais(k)[2]
=============================================================================
