----------------------------- MODULE MC_Symmetry ----------------------------
(* The symmetry operations of small crystals as the specification defines      *)
(* them: they form a group, they do not depend on the basis the crystal is     *)
(* described in, and in any cell there are exactly as many operations as the   *)
(* cell holds lattice points times operations compatible with it.              *)
EXTENDS Crystal, IOUtils, TLC

Bound == atoi(IOEnv.BOUND)
Grid == atoi(IOEnv.GRID)
Reduced(A, B, C) ==
  {g \in {Form(A, B, C, x, e, z) : x \in -B..B, e \in -A..A, z \in -A..A} : IsNiggli(g) /\ PosDef(g)}
All == UNION {Reduced(t[1], t[2], t[3]) : t \in {u \in Cube(1, Bound) : u[1] <= u[2] /\ u[2] <= u[3]}}

Shear(i, j, k) == [r \in 1..3 |-> [c \in 1..3 |-> IF r = c THEN 1 ELSE IF r = i /\ c = j THEN k ELSE 0]]
Bases == { Shear(1, 2, 1), Shear(3, 2, -1), << <<0,1,0>>, <<0,0,1>>, <<1,0,0>> >>, << <<-1,0,0>>, <<0,1,0>>, <<0,0,1>> >> }
Cells == { I3, << <<2,0,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<1,-1,0>>, <<1,1,0>>, <<0,0,1>> >>, << <<1,0,0>>, <<0,1,0>>, <<1,1,2>> >>,
           << <<0,1,0>>, <<1,0,0>>, <<1,0,1>> >> }

Placements == {{<<1,0,0,0>>}} \cup {{<<1,0,0,0>>, At(k, p)} : k \in {1, 2}, p \in Cube(0, Grid-1) \ {Z3}}

VARIABLES c, ops, depth
Init == /\ c \in {d \in {[g |-> g, n |-> Grid, sites |-> s] : g \in All, s \in Placements} : Primitive(d)}
        /\ ops = SymOps(c)
        /\ depth = 0
(* the same crystal with another reference basis *)
Next == /\ depth < atoi(IOEnv.DEPTH) /\ depth' = depth + 1
        /\ \E b \in Bases :
             /\ c' = [g |-> Congr(c.g, b), n |-> c.n,
                      sites |-> {At(s[1], VMod(InvV(b, Pos(s)), c.n)) : s \in c.sites}]
             /\ ops' = SymOps(c')
             /\ ops' = {<<Conj(b, o[1]), VMod(InvV(b, o[2]), c.n)>> : o \in ops} \/ Assert(FALSE, "operations depend on the basis")
Spec == Init /\ [][Next]_<<c, ops, depth>>

Group == IsGroup(ops, c.n)
Preserve == \A o \in ops : Maps(c, o[1], o[2])
Holohedry == {o[1] : o \in ops} \subseteq Aut(c.g)
(* a bare lattice has its full holohedry; inversion about the origin *)
Bare == Cardinality(c.sites) = 1 => Cardinality(ops) = Cardinality(Aut(c.g))
OnePerRotation == \A p \in ops : \A q \in ops : p[1] = q[1] => p = q
Counting == \A T \in Cells :
  LET d == Abs(Det(T))
      a == MScale(Sgn(Det(T)), Adj(T))
      inT == UNION {{<<Conj(T, o[1]), VMod(MV(a, VAdd(o[2], VScale(c.n, v))), c.n * d)>> : v \in Cube(0, d-1)}
                    : o \in Compatible(ops, T)}
  IN /\ Cardinality(inT) = d * Cardinality(Compatible(ops, T))
     /\ \A o \in inT : CellOpOk(c, ops, T, o)
     /\ ~CellOpOk(c, ops, T, <<I3, <<1, 0, 0>>>>) \/ c.n * d = 1
=============================================================================
