------------------------------ MODULE Lattice -------------------------------
(* Lattices given by twice their (integer) Gram matrix                       *)
(*    g = << <<2A,zeta,eta>>, <<zeta,2B,xi>>, <<eta,xi,2C>> >>               *)
(* in some basis.  Contains: Niggli reduction (exact), Selling/Delaunay      *)
(* reduction (exact), the automorphism group (holohedry) and what it means   *)
(* for a cell to be a conventional one.                                      *)
EXTENDS IntLin

Form(A, B, C, xi, eta, zeta) ==
  << <<2*A, zeta, eta>>, <<zeta, 2*B, xi>>, <<eta, xi, 2*C>> >>
fA(g) == g[1][1] \div 2
fB(g) == g[2][2] \div 2
fC(g) == g[3][3] \div 2
fXi(g) == g[2][3]
fEta(g) == g[1][3]
fZeta(g) == g[1][2]

PosDef(g) == /\ g[1][1] > 0
             /\ g[1][1]*g[2][2] - g[1][2]*g[2][1] > 0
             /\ Det(g) > 0

---------------------------------------------------------------------------
(* The Niggli conditions, from International Tables A, chapter 3.1: main     *)
(* conditions and special conditions.                                        *)
IsNiggli(g) ==
  LET A == fA(g)  B == fB(g)  C == fC(g)
      x == fXi(g)  e == fEta(g)  z == fZeta(g)
      type1 == x > 0 /\ e > 0 /\ z > 0
      type2 == x <= 0 /\ e <= 0 /\ z <= 0
  IN /\ A <= B /\ B <= C
     /\ Abs(x) <= B /\ Abs(e) <= A /\ Abs(z) <= A
     /\ type1 \/ type2
     /\ (A = B => Abs(x) <= Abs(e))
     /\ (B = C => Abs(e) <= Abs(z))
     /\ (type1 => /\ (x = B => z <= 2*e)
                  /\ (e = A => z <= 2*x)
                  /\ (z = A => e <= 2*x))
     /\ (type2 => /\ (x = -B => z = 0)
                  /\ (e = -A => z = 0)
                  /\ (z = -A => e = 0)
                  /\ x + e + z + A + B >= 0
                  /\ (x + e + z + A + B = 0 => 2*(A + e) + z <= 0))

(* One step of the reduction of Krivy & Gruber (1976).  Each step is a change *)
(* of basis of determinant +1; NextStep gives its matrix, I3 when reduced.     *)
Signs(g) ==
  LET x == fXi(g)  e == fEta(g)  z == fZeta(g)
      s(v) == IF v > 0 THEN -1 ELSE 1
      zero == {k \in 1..3 : <<x, e, z>>[k] = 0}
      pos == Sgn(x) * Sgn(e) * Sgn(z) > 0
      i0 == IF pos THEN (IF x < 0 THEN -1 ELSE 1) ELSE s(x)
      j0 == IF pos THEN (IF e < 0 THEN -1 ELSE 1) ELSE s(e)
      k0 == IF pos THEN (IF z < 0 THEN -1 ELSE 1) ELSE s(z)
      fix == i0*j0*k0 < 0          \* possible only if some product vanishes
      m == CHOOSE k \in zero : \A l \in zero : l <= k
  IN IF fix THEN [<<i0, j0, k0>> EXCEPT ![m] = -1] ELSE <<i0, j0, k0>>

NextStep(g) ==
  LET A == fA(g)  B == fB(g)  C == fC(g)
      x == fXi(g)  e == fEta(g)  z == fZeta(g)
      sg == Signs(g)
      S == << <<sg[1],0,0>>, <<0,sg[2],0>>, <<0,0,sg[3]>> >>
  IN CASE A > B \/ (A = B /\ Abs(x) > Abs(e))
            -> << <<0,-1,0>>, <<-1,0,0>>, <<0,0,-1>> >>
       [] B > C \/ (B = C /\ Abs(e) > Abs(z))
            -> << <<-1,0,0>>, <<0,0,-1>>, <<0,-1,0>> >>
       [] S # I3 -> S
       [] Abs(x) > B \/ (x = B /\ 2*e < z) \/ (x = -B /\ z < 0)
            -> << <<1,0,0>>, <<0,1,-Sgn(x)>>, <<0,0,1>> >>
       [] Abs(e) > A \/ (e = A /\ 2*x < z) \/ (e = -A /\ z < 0)
            -> << <<1,0,-Sgn(e)>>, <<0,1,0>>, <<0,0,1>> >>
       [] Abs(z) > A \/ (z = A /\ 2*x < e) \/ (z = -A /\ e < 0)
            -> << <<1,-Sgn(z),0>>, <<0,1,0>>, <<0,0,1>> >>
       [] x + e + z + A + B < 0 \/ (x + e + z + A + B = 0 /\ 2*(A + e) + z > 0)
            -> << <<1,0,1>>, <<0,1,1>>, <<0,0,1>> >>
       [] OTHER -> I3

RECURSIVE NiggliFrom(_, _)
NiggliFrom(g, u) ==
  LET m == NextStep(g)
  IN IF m = I3 THEN [g |-> g, u |-> u] ELSE NiggliFrom(Congr(g, m), MM(u, m))
Niggli(g) == NiggliFrom(g, I3)          \* Congr(g, Niggli(g).u) = Niggli(g).g

(* the same lattice, presented by two forms *)
SameLattice(g, h) == Niggli(g).g = Niggli(h).g

---------------------------------------------------------------------------
(* Selling / Delaunay reduction: an obtuse superbase {a,b,c,-a-b-c}.          *)
Superbase(m) == << Col(m,1), Col(m,2), Col(m,3),
                   VScale(-1, VAdd(Col(m,1), VAdd(Col(m,2), Col(m,3)))) >>
Pairs == {<<i,j>> \in (1..4) \X (1..4) : i < j}
BForm(g, u, v) == Dot(u, MV(g, v))
ObtuseBase(g, b) == \A p \in Pairs : BForm(g, b[p[1]], b[p[2]]) <= 0
Obtuse(g, m) == ObtuseBase(g, Superbase(m))
SellingStep(b, p) ==
  [k \in 1..4 |-> IF k = p[2] THEN VScale(-1, b[p[2]])
                  ELSE IF k = p[1] THEN b[p[1]] ELSE VAdd(b[k], b[p[2]])]
(* the seven vectors an obtuse superbase offers, up to sign; the shortest ones of *)
(* the lattice are among them                                                     *)
Offered(b) == {b[i] : i \in 1..4} \cup {VAdd(b[1], b[2]), VAdd(b[2], b[3]), VAdd(b[1], b[3])}
(* the columns of t are as short as those of a basis can be: the lengths are the  *)
(* successive minima, which the Niggli cell shows                                 *)
Lengths(g, t) == <<Quad(g, Col(t,1)), Quad(g, Col(t,2)), Quad(g, Col(t,3))>>
Ascending(q) == LET lo == Min2(q[1], Min2(q[2], q[3]))
                    hi == -Min2(-q[1], Min2(-q[2], -q[3]))
                IN <<lo, q[1] + q[2] + q[3] - lo - hi, hi>>
Shortest(g, t) == LET n == Niggli(Congr(g, t)).g IN Ascending(Lengths(g, t)) = <<n[1][1], n[2][2], n[3][3]>>
(* What the implementation does instead: it orders an obtuse superbase by length, *)
(* takes the first three and exchanges one of them for the sum with another one,  *)
(* by a comparison that is the wrong way round.  Ties may be decided either way.  *)
Exchanged(g, t) ==
  LET f == Col(t,1)  s == Col(t,2)  h == Col(t,3)
      neg(v) == VSub(Z3, v)
      from(k) == CASE k = 0 -> <<f, s, h>>
                   [] k = 1 -> <<neg(f), VSub(f, s), h>>
                   [] k = 2 -> <<f, neg(s), VSub(s, h)>>
                   [] OTHER -> <<neg(f), s, VSub(f, h)>>
      is(k) ==
        LET v == from(k)
            b == <<v[1], v[2], v[3], neg(VAdd(v[1], VAdd(v[2], v[3])))>>
            p(i, j) == BForm(g, b[i], b[j])
            c1 == p(1,3) + p(1,4) - p(1,2)
            c2 == p(1,2) + p(2,4) - p(2,3)
            c3 == p(1,2) + p(1,4) - p(1,3)
        IN /\ ObtuseBase(g, b)
           /\ \A i \in 1..3 : Quad(g, b[i]) <= Quad(g, b[i+1])
           /\ CASE k = 0 -> c1 >= 0 /\ c2 >= 0 /\ c3 >= 0
                [] k = 1 -> c1 <= 0
                [] k = 2 -> c1 >= 0 /\ c2 <= 0
                [] OTHER -> c1 >= 0 /\ c2 >= 0 /\ c3 <= 0
  IN \E k \in 0..3 : is(k)
SellingWeight(g, b) == Quad(g, b[1]) + Quad(g, b[2]) + Quad(g, b[3]) + Quad(g, b[4])

---------------------------------------------------------------------------
(* Automorphisms of a lattice.  For a reduced form all of them have entries   *)
(* in {-1,0,1}.                                                               *)
Small == Cube(-1, 1)
AutReduced(g) ==
  LET c(i) == {v \in Small : Quad(g, v) = g[i][i]}
      c3 == c(3)
  IN UNION { UNION { { FromCols(a, b, d) : d \in {w \in c3 :
                           BForm(g, a, w) = g[1][3] /\ BForm(g, b, w) = g[2][3]} }
                     : b \in {w \in c(2) : BForm(g, a, w) = g[1][2]} }
             : a \in c(1) }
(* in the basis the form is given in *)
Aut(g) ==
  LET r == Niggli(g)
      uinv == InvM(r.u, I3)
  IN { MM(r.u, MM(R, uinv)) : R \in AutReduced(r.g) }

System(order) ==
  CASE order = 2 -> "triclinic"   [] order = 4 -> "monoclinic" [] order = 8 -> "orthorhombic"
    [] order = 12 -> "rhombohedral" [] order = 16 -> "tetragonal" [] order = 24 -> "hexagonal"
    [] order = 48 -> "cubic"

(* centering of the cell T: lattice points modulo the cell, as fractions of it, *)
(* scaled by |det T|                                                            *)
CentVecs(T) ==
  LET d == Abs(Det(T))
      a == MScale(Sgn(Det(T)), Adj(T))
  IN {VMod(MV(a, v), d) : v \in Cube(0, d-1)}
Centering(T) ==
  LET d == Abs(Det(T))
      cv == CentVecs(T)
  IN CASE d = 1 -> "P"
       [] d = 2 /\ cv = {Z3, <<1,1,0>>} -> "C"
       [] d = 2 /\ cv = {Z3, <<0,1,1>>} -> "A"
       [] d = 2 /\ cv = {Z3, <<1,0,1>>} -> "B"
       [] d = 2 /\ cv = {Z3, <<1,1,1>>} -> "I"
       [] d = 3 /\ cv = {Z3, <<2,1,1>>, <<1,2,2>>} -> "R"
       [] d = 4 /\ cv = {Z3, <<2,2,0>>, <<2,0,2>>, <<0,2,2>>} -> "F"
       [] OTHER -> "?"

Diagonal(h) == h[1][2] = 0 /\ h[1][3] = 0 /\ h[2][3] = 0
(* shape of a conventional cell with Gram matrix h/2 *)
Shape(sys, h) ==
  CASE sys = "triclinic" -> IsNiggli(h)
    [] sys = "monoclinic" -> h[1][2] = 0 /\ h[2][3] = 0
    [] sys = "orthorhombic" -> Diagonal(h)
    [] sys = "tetragonal" -> Diagonal(h) /\ h[1][1] = h[2][2]
    [] sys = "cubic" -> Diagonal(h) /\ h[1][1] = h[2][2] /\ h[2][2] = h[3][3]
    [] sys \in {"hexagonal", "rhombohedral"}
         -> h[1][1] = h[2][2] /\ 2*h[1][2] = -h[1][1] /\ h[1][3] = 0 /\ h[2][3] = 0
Centerings(sys) ==
  CASE sys = "triclinic" -> {"P"} [] sys = "monoclinic" -> {"P", "C"}
    [] sys = "orthorhombic" -> {"P", "C", "I", "F"} [] sys = "tetragonal" -> {"P", "I"}
    [] sys = "cubic" -> {"P", "I", "F"} [] sys = "hexagonal" -> {"P"}
    [] sys = "rhombohedral" -> {"R"}
(* basis vectors of the standard primitive cell in units of 1/den of the conventional ones *)
PrimOf(cent) ==
  CASE cent = "P" -> [m |-> I3, den |-> 1]
    [] cent = "C" -> [m |-> << <<1,1,0>>, <<-1,1,0>>, <<0,0,2>> >>, den |-> 2]
    [] cent = "I" -> [m |-> << <<-1,1,1>>, <<1,-1,1>>, <<1,1,-1>> >>, den |-> 2]
    [] cent = "F" -> [m |-> << <<0,1,1>>, <<1,0,1>>, <<1,1,0>> >>, den |-> 2]
    [] cent = "R" -> [m |-> << <<2,-1,-1>>, <<1,1,-2>>, <<1,1,1>> >>, den |-> 3]
    [] OTHER -> [m |-> I3, den |-> 1]
=============================================================================
