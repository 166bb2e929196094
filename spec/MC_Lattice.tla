----------------------------- MODULE MC_Lattice -----------------------------
(* Is the notion of a conventional cell satisfiable and tight?  For every      *)
(* reduced form up to a bound: its automorphisms form a group whose order is   *)
(* that of a lattice system, there is a cell of that system's shape and one of *)
(* its centerings, and every such cell of the form is the conventional cell of *)
(* the whole automorphism group: each automorphism is a symmetry of the cell.  *)
EXTENDS Characters, IOUtils, TLC

Bound == atoi(IOEnv.BOUND)
Reduced(A, B, C) ==
  {g \in {Form(A, B, C, x, e, z) : x \in -B..B, e \in -A..A, z \in -A..A} : IsNiggli(g) /\ PosDef(g)}
All == UNION {Reduced(t[1], t[2], t[3]) : t \in {u \in Cube(1, Bound) : u[1] <= u[2] /\ u[2] <= u[3]}}

VARIABLES g, cells, aut
Init == /\ g \in All
        /\ aut = AutReduced(g)
        /\ cells = {}
Next == /\ cells = {}
        /\ cells' = Cells(g, System(Cardinality(aut)))
        /\ cells' # {}
        /\ UNCHANGED <<g, aut>>
Spec == Init /\ [][Next]_<<g, cells, aut>>

IsAut == \A R \in aut : Congr(g, R) = g
Group == \A R \in aut : \A S \in aut : MM(R, S) \in aut
Order == Cardinality(aut) \in {2, 4, 8, 12, 16, 24, 48}
HasCell == ENABLED Next \/ cells # {}
(* a symmetric cell is mapped by every automorphism to a cell of the same form *)
Covers == \A T \in cells : \A R \in aut : Congr(g, MM(R, T)) = Congr(g, T)
(* the standard primitive cell of each centering is a basis of the lattice *)
PrimBasis == \A T \in cells : LET p == PrimOf(Centering(T)) IN
  MDivides(p.den, MM(T, p.m)) /\ Unimodular(MDiv(MM(T, p.m), p.den))
(* all conventional cells hold the same number of lattice points, except where the cell can be chosen *)
(* primitive or centred (monoclinic)                                                             *)
OneVolume == System(Cardinality(aut)) \in {"orthorhombic", "tetragonal", "cubic", "hexagonal", "rhombohedral"} =>
  \A T \in cells : \A U \in cells : Quad(g, Col(T,1)) = Quad(g, Col(U,1)) /\ Quad(g, Col(T,3)) = Quad(g, Col(U,3)) => Det(T) = Det(U)
=============================================================================
