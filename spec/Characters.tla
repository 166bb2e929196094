----------------------------- MODULE Characters -----------------------------
(* The 44 lattice characters of International Tables A (table 9.2.5.1): which  *)
(* kind of Niggli-reduced form a lattice has, the Bravais type that follows,   *)
(* and the vectors of its conventional cell in the reduced basis.  The table   *)
(* is written down here independently of the implementation; MC_Characters     *)
(* checks it against the automorphisms and conventional cells of Lattice.      *)
EXTENDS Lattice, FiniteSets

(* for a reduced form; A, B, C, D, E, F in units of one twelfth *)
Character(g) ==
  LET A == 6*g[1][1]  B == 6*g[2][2]  C == 6*g[3][3]
      D == 6*g[2][3]  E == 6*g[1][3]  F == 6*g[1][2]
      I == D > 0 /\ E > 0 /\ F > 0
      is(x, y, z) == D = x /\ E = y /\ F = z
      star == 2 * Abs(D + E + F) = A + B
      all == A = B /\ B = C
      ab == A = B
      bc == B = C
      h(x) == x \div 2
  IN CASE all /\ I /\ is(h(A), h(A), h(A))                -> 1
       [] all /\ I /\ is(D, D, D)                         -> 2
       [] all /\ ~I /\ is(0, 0, 0)                        -> 3
       [] all /\ ~I /\ is(-(A \div 3), -(A \div 3), -(A \div 3)) -> 5
       [] all /\ ~I /\ is(D, D, D)                        -> 4
       [] all /\ ~I /\ star /\ is(D, D, F)                -> 6
       [] all /\ ~I /\ star /\ is(D, E, E)                -> 7
       [] all /\ ~I /\ star                               -> 8
       [] ab /\ I /\ is(h(A), h(A), h(A))                 -> 9
       [] ab /\ I /\ is(D, D, F)                          -> 10
       [] ab /\ ~I /\ is(0, 0, 0)                         -> 11
       [] ab /\ ~I /\ is(0, 0, -h(A))                     -> 12
       [] ab /\ ~I /\ is(0, 0, F)                         -> 13
       [] ab /\ ~I /\ is(-h(A), -h(A), 0)                 -> 15
       [] ab /\ ~I /\ star /\ is(D, D, F)                 -> 16
       [] ab /\ ~I /\ is(D, D, F)                         -> 14
       [] ab /\ ~I /\ star                                -> 17
       [] bc /\ I /\ is(A \div 4, h(A), h(A))             -> 18
       [] bc /\ I /\ is(D, h(A), h(A))                    -> 19
       [] bc /\ I /\ is(D, E, E)                          -> 20
       [] bc /\ ~I /\ is(0, 0, 0)                         -> 21
       [] bc /\ ~I /\ is(-h(B), 0, 0)                     -> 22
       [] bc /\ ~I /\ is(D, 0, 0)                         -> 23
       [] bc /\ ~I /\ star /\ is(D, -(A \div 3), -(A \div 3)) -> 24
       [] bc /\ ~I /\ is(D, E, E)                         -> 25
       [] I /\ is(A \div 4, h(A), h(A))                   -> 26
       [] I /\ is(D, h(A), h(A))                          -> 27
       [] I /\ is(D, h(A), 2*D)                           -> 28
       [] I /\ is(D, 2*D, h(A))                           -> 29
       [] I /\ is(h(B), E, 2*E)                           -> 30
       [] I                                               -> 31
       [] is(0, 0, 0)                                     -> 32
       [] is(-h(B), 0, 0)                                 -> 40
       [] is(D, 0, 0)                                     -> 35
       [] is(0, -h(A), 0)                                 -> 36
       [] is(0, E, 0)                                     -> 33
       [] is(0, 0, -h(A))                                 -> 38
       [] is(0, 0, F)                                     -> 34
       [] is(-h(B), -h(A), 0)                             -> 42
       [] is(-h(B), E, 0)                                 -> 41
       [] is(D, -h(A), 0)                                 -> 37
       [] is(D, 0, -h(A))                                 -> 39
       [] star /\ Abs(2*D + F) = B                        -> 43
       [] OTHER                                           -> 44

(* lattice system and centering of each character *)
Bravais(k) ==
  CASE k = 1 -> <<"cubic", "F">>   [] k = 3 -> <<"cubic", "P">>   [] k = 5 -> <<"cubic", "I">>
    [] k \in {2, 4, 9, 24} -> <<"rhombohedral", "R">>
    [] k \in {12, 22} -> <<"hexagonal", "P">>
    [] k \in {11, 21} -> <<"tetragonal", "P">>
    [] k \in {6, 7, 15, 18} -> <<"tetragonal", "I">>
    [] k = 32 -> <<"orthorhombic", "P">>
    [] k \in {13, 23, 36, 38, 40} -> <<"orthorhombic", "C">>
    [] k \in {8, 19, 42} -> <<"orthorhombic", "I">>
    [] k \in {16, 26} -> <<"orthorhombic", "F">>
    [] k \in {33, 34, 35} -> <<"monoclinic", "P">>
    [] k \in {10, 14, 17, 20, 25, 27, 28, 29, 30, 37, 39, 41, 43} -> <<"monoclinic", "C">>
    [] k \in {31, 44} -> <<"triclinic", "P">>

(* some conventional cells of a reduced form *)
Orth(g, u, S) == {v \in S : BForm(g, u, v) = 0}

(* cells of the right shape, right-handed, of at most four lattice points *)
Fits(g, sys, T) == /\ Det(T) \in 1..4
                   /\ Shape(sys, Congr(g, T))
                   /\ Centering(T) \in Centerings(sys)
(* shortest vectors along the axes of rotation *)
Axes(g) ==
  LET R3 == {R \in AutReduced(g) : R # I3 /\ Det(R) = 1}
      V == Cube(-3, 3) \ {Z3}
      prim(v) == \A d \in 2..3 : ~(v[1] % d = 0 /\ v[2] % d = 0 /\ v[3] % d = 0)
  IN {v \in V : prim(v) /\ \E R \in R3 : MV(R, v) = v}
Cells(g, sys) ==
  IF sys = "triclinic" THEN {T \in {I3} : Fits(g, sys, T)}
  ELSE IF sys = "monoclinic"
  THEN UNION {LET S == Orth(g, b, Cube(-2, 2) \ {Z3})
              IN {T \in {FromCols(a, b, c) : a \in S, c \in S} : Fits(g, sys, T)} : b \in Axes(g)}
  ELSE LET S == Axes(g)
       IN UNION {LET P == Orth(g, c, S)
                 IN {T \in {FromCols(a, b, c) : a \in P, b \in P} : Fits(g, sys, T)} : c \in S}
=============================================================================
