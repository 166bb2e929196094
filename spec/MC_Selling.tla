----------------------------- MODULE MC_Selling -----------------------------
(* Selling's reduction of a superbase, with a free choice of the pair to act   *)
(* on.  Checked: whatever the choices, the sum of squares decreases (so the    *)
(* reduction ends), the four vectors keep adding up to zero and keep spanning  *)
(* the lattice, and it ends exactly at obtuse superbases.                      *)
EXTENDS Lattice, IOUtils, TLC

Bound == atoi(IOEnv.BOUND)
Skew == atoi(IOEnv.SKEW)

Reduced(A, B, C) ==
  {g \in {Form(A, B, C, x, e, z) : x \in -B..B, e \in -A..A, z \in -A..A} : IsNiggli(g) /\ PosDef(g)}
All == UNION {Reduced(t[1], t[2], t[3]) : t \in {u \in Cube(1, Bound) : u[1] <= u[2] /\ u[2] <= u[3]}}
Shear(i, j, k) == [r \in 1..3 |-> [c \in 1..3 |-> IF r = c THEN 1 ELSE IF r = i /\ c = j THEN k ELSE 0]]
Shears == {Shear(p[1], p[2], k) : p \in {q \in (1..3) \X (1..3) : q[1] # q[2]}, k \in {-1, 1}}

VARIABLES f, b, m, n, phase
vars == <<f, b, m, n, phase>>

Init == f \in All /\ m = I3 /\ b = Superbase(I3) /\ n = 0 /\ phase = "skew"
Present == /\ phase = "skew" /\ n < Skew
           /\ \E s \in Shears : m' = MM(m, s) /\ b' = Superbase(MM(m, s))
           /\ n' = n + 1 /\ UNCHANGED <<f, phase>>
Begin == phase = "skew" /\ phase' = "reduce" /\ UNCHANGED <<f, b, m, n>>
Step == /\ phase = "reduce"
        /\ \E i \in 1..4 : \E j \in 1..4 : /\ i # j
             /\ BForm(f, b[i], b[j]) > 0
             /\ b' = SellingStep(b, <<i, j>>)
        /\ UNCHANGED <<f, m, n, phase>>
Next == Present \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

Zero == VAdd(VAdd(b[1], b[2]), VAdd(b[3], b[4])) = Z3
Spans == Abs(Det(FromCols(b[1], b[2], b[3]))) = 1
Decreases == [][Step => SellingWeight(f, b') < SellingWeight(f, b)]_vars
EndsObtuse == (phase = "reduce" /\ ~ENABLED Step) => ObtuseBase(f, b)
(* an obtuse superbase offers a basis of shortest vectors: three of the seven have the *)
(* lengths of the reduced form and span the lattice                                    *)
Voronoi == (phase = "reduce" /\ ObtuseBase(f, b)) =>
  \E u \in Offered(b) : Quad(f, u) = f[1][1] /\
    \E v \in Offered(b) : Quad(f, v) = f[2][2] /\
      \E w \in Offered(b) : Quad(f, w) = f[3][3] /\ Abs(Det(FromCols(u, v, w))) = 1
(* the lengths of a basis of shortest vectors are the successive minima *)
Minimal == (phase = "reduce" /\ ObtuseBase(f, b)) =>
  LET t == FromCols(b[1], b[2], b[3]) IN Shortest(f, t) = (Ascending(Lengths(f, t)) = <<f[1][1], f[2][2], f[3][3]>>)
=============================================================================
