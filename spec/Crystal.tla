------------------------------ MODULE Crystal -------------------------------
(* A crystal is a record                                                     *)
(*   g      twice the Gram matrix of a primitive basis (the reference basis)  *)
(*   n      grid: positions are multiples of 1/n of the reference basis       *)
(*   sites  set of <<species, x, y, z>>, 0 <= x,y,z < n: one primitive cell   *)
(* A cell (a presentation of the crystal) is a record                         *)
(*   t      matrix whose columns are the cell vectors in the reference basis  *)
(*   s      sequence of <<species, x, y, z>>, not reduced                     *)
EXTENDS Lattice

Pos(s) == <<s[2], s[3], s[4]>>
At(sp, v) == <<sp, v[1], v[2], v[3]>>
SiteMod(s, n) == <<s[1], s[2] % n, s[3] % n, s[4] % n>>

ValidCell(c, cell) ==
  LET d == Abs(Det(cell.t))
      a == Adj(cell.t)
  IN /\ d # 0
     /\ Len(cell.s) = d * Cardinality(c.sites)
     /\ \A i \in DOMAIN cell.s : SiteMod(cell.s[i], c.n) \in c.sites
     /\ Cardinality({VMod(MV(a, Pos(cell.s[i])), c.n * d) : i \in DOMAIN cell.s}) = Len(cell.s)

(* translations (modulo the reference lattice) that map the crystal to itself *)
SpeciesCount(c, sp) == Cardinality({s \in c.sites : s[1] = sp})
MinSpecies(c) ==
  LET all == {s[1] : s \in c.sites}
  IN CHOOSE sp \in all : \A q \in all : SpeciesCount(c, sp) <= SpeciesCount(c, q)
Maps(c, R, t) ==
  \A s \in c.sites : At(s[1], VMod(VAdd(MV(R, Pos(s)), t), c.n)) \in c.sites
OpsWith(c, R) ==
  LET sp == MinSpecies(c)
      own == {s \in c.sites : s[1] = sp}
      a == CHOOSE s \in own : TRUE
      cand == {VMod(VSub(Pos(b), MV(R, Pos(a))), c.n) : b \in own}
  IN {t \in cand : Maps(c, R, t)}
Primitive(c) == OpsWith(c, I3) = {Z3}

(* all symmetry operations modulo lattice translations: pairs <<R, t>> with   *)
(* x -> R x + t, t in units of 1/n                                            *)
SymOps(c) == UNION { {<<R, t>> : t \in OpsWith(c, R)} : R \in Aut(c.g) }

(* group law, modulo lattice translations *)
Compose(p, q, n) == << MM(p[1], q[1]), VMod(VAdd(MV(p[1], q[2]), p[2]), n) >>
IsGroup(S, n) ==
  /\ <<I3, Z3>> \in S
  /\ \A p \in S : \A q \in S : Compose(p, q, n) \in S

(* an operation of the cell T: <<R, tau>> with tau in units of 1/(n |det T|)   *)
(* of the cell vectors; it stands for x -> T R T^-1 x + T tau                  *)
CellOpOk(c, ops, T, o) ==
  LET d == Abs(Det(T))
      RT == MM(T, MM(o[1], Adj(T)))          \* det(T) * rotation in the reference basis
      tt == MV(T, o[2])                      \* d * n * translation
  IN /\ MDivides(d, RT)
     /\ VDivides(d, tt)
     /\ << MScale(Sgn(Det(T)), MDiv(RT, d)), VMod(VDiv(tt, d), c.n) >> \in ops
Compatible(ops, T) == {o \in ops : ConjOk(T, o[1])}
=============================================================================
