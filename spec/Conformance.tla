---------------------------- MODULE Conformance -----------------------------
(* Accepts or rejects recorded executions of the implementation.  A trace      *)
(* carries a crystal and a sequence of events: one call each, with what it     *)
(* returned, projected to integers.  The state is the presentation the calls   *)
(* are applied to; every event must be a step the specification allows.  All   *)
(* disagreements are reported by name.                                         *)
EXTENDS Helpers

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, cell, memo
vars == <<tid, l, cell, memo>>

Fail(label, cond) == IF cond THEN {} ELSE {label}
SetOf(s) == {s[i] : i \in DOMAIN s}
CrystalOf(t) == [g |-> t.c.g, n |-> t.c.n, sites |-> SetOf(t.c.sites)]
CellOf(o) == [t |-> o.t, s |-> o.s]

(* ---- a returned structure ------------------------------------------------ *)
OnGrid(e) == e.o.res <= e.rt
(* normalized fractional coordinates: every component within [-tol, 1-tol];    *)
(* ft is the tolerance in ten-thousandths, per component; coordinates that were *)
(* given with an error may lie on either side of the limit                      *)
InRange(c, o, rt) ==
  LET slack(k) == IF rt > 1000 THEN o.ft[k] \div 3 ELSE 0
      d == Abs(Det(o.t))
      a == MScale(Sgn(Det(o.t)), Adj(o.t))
      one == c.n * d
  IN \A i \in DOMAIN o.s : LET v == MV(a, Pos(o.s[i])) IN
       \A k \in 1..3 : /\ Abs(v[k]) <= 2 * one
                       /\ 10000 * v[k] >= -(o.ft[k] + 1 + slack(k)) * one
                       /\ 10000 * v[k] <= (10000 - o.ft[k] + slack(k)) * one
Sorted(o) == \A i \in 1..(Len(o.s)-1) : o.s[i][1] <= o.s[i+1][1]

(* as many atoms of each element as the cell holds primitive ones *)
Populated(c, o) ==
  /\ Len(o.s) = Abs(Det(o.t)) * Cardinality(c.sites)
  /\ \A k \in {s[1] : s \in c.sites} : Cardinality({i \in DOMAIN o.s : o.s[i][1] = k})
                                       = Abs(Det(o.t)) * Cardinality({s \in c.sites : s[1] = k})

Structure(c, e) ==          \* what every structure-valued result must satisfy
  IF ~OnGrid(e) THEN {e.k \o ".ongrid"}
  ELSE Fail(e.k \o ".crystal", ValidCell(c, CellOf(e.o)))
       \cup Fail(e.k \o ".count", Populated(c, e.o))
       \cup Fail(e.k \o ".views", e.o.cres <= e.rt /\ e.o.same_views)
Normalized(c, e) ==
  IF ~OnGrid(e) \/ ~ValidCell(c, CellOf(e.o)) THEN {}
  ELSE Fail(e.k \o ".range", InRange(c, e.o, e.rt)) \cup Fail(e.k \o ".sorted", Sorted(e.o))
Pure(e) == Fail(e.k \o ".untouched", e.untouched) \cup Fail(e.k \o ".repeat", e.same)

G(c, t) == Congr(c.g, t)

NewOk(c, e) ==
  Structure(c, e) \cup (IF ~OnGrid(e) THEN {} ELSE
     Fail("new.asgiven", e.o.t = e.t0 /\ e.o.s = e.s0))

TransformOk(c, e) ==
  Structure(c, e) \cup Normalized(c, e) \cup (IF ~OnGrid(e) THEN {} ELSE
     Fail("transform.basis", MScale(e.den, e.o.t) = MM(cell.t, e.m)))

NormalizeOk(c, e) ==
  Structure(c, e) \cup Normalized(c, e) \cup (IF ~OnGrid(e) THEN {} ELSE
     Fail("normalize.basis", e.o.t = cell.t)
     \cup Fail("normalize.sites", ValidCell(c, CellOf(e.o)) =>
            (* site by site the same position modulo the cell, species kept together *)
            LET d == Abs(Det(cell.t))
                cls(s) == <<s[1], VMod(MV(Adj(cell.t), Pos(s)), c.n*d)>>
            IN SetOf([i \in DOMAIN e.o.s |-> cls(e.o.s[i])]) = SetOf([i \in DOMAIN cell.s |-> cls(cell.s[i])])))

PrimitiveOk(c, e) ==
  Structure(c, e) \cup Normalized(c, e) \cup Pure(e) \cup (IF ~OnGrid(e) THEN {} ELSE
     Fail("primitive.minimal", Unimodular(e.o.t))
     \cup Fail("primitive.handed", e.o.hand = 1))

NiggliOk(c, e) ==
  Structure(c, e) \cup Normalized(c, e) \cup Pure(e) \cup (IF ~OnGrid(e) \/ Det(e.o.t) = 0 THEN {} ELSE
     LET start == G(c, cell.t)
     IN Fail("niggli.unimodular", InvMOk(cell.t, e.o.t) /\ Unimodular(InvM(cell.t, e.o.t)))
        \cup Fail("niggli.reduced", IsNiggli(G(c, e.o.t)))
        \cup Fail("niggli.form", G(c, e.o.t) = Niggli(start).g)
        \cup Fail("niggli.handed", Sgn(Det(e.o.t)) = Sgn(Det(cell.t))))

DelaunayOk(c, e) ==
  Structure(c, e) \cup Normalized(c, e) \cup Pure(e) \cup (IF ~OnGrid(e) \/ Det(e.o.t) = 0 THEN {} ELSE
     Fail("delaunay.unimodular", InvMOk(cell.t, e.o.t) /\ Unimodular(InvM(cell.t, e.o.t)))
     \cup Fail("delaunay.obtuse", e.full \/ Obtuse(c.g, e.o.t))
     \cup (IF ~e.full \/ Shortest(c.g, e.o.t) THEN {}
           ELSE {IF Exchanged(c.g, e.o.t) THEN "delaunay.shortest-known" ELSE "delaunay.shortest"}))

StdConvOk(c, e) ==
  Structure(c, e) \cup Normalized(c, e) \cup Pure(e) \cup (IF ~OnGrid(e) \/ Det(e.o.t) = 0 THEN {} ELSE
     LET sys == System(Cardinality(Aut(c.g)))
     IN Fail("stdconv.shape", Shape(sys, G(c, e.o.t)))
        \cup Fail("stdconv.centering", Abs(Det(e.o.t)) <= 4 /\ Centering(e.o.t) \in Centerings(sys))
        \cup Fail("stdconv.handed", e.o.hand = 1))

StdPrimOk(c, e) ==
  Structure(c, e) \cup Normalized(c, e) \cup Pure(e) \cup (IF ~OnGrid(e) \/ Det(e.o.t) = 0 THEN {} ELSE
     Fail("stdprim.minimal", Unimodular(e.o.t))
     \cup Fail("stdprim.handed", e.o.hand = 1)
     \cup Fail("stdprim.relation", "conv" \in DOMAIN memo /\ Abs(Det(memo.conv)) \in 1..4 =>
             LET p == PrimOf(Centering(memo.conv))
             IN MScale(p.den, e.o.t) = MM(memo.conv, p.m)))

(* ---- space groups -------------------------------------------------------- *)
(* the operations in the basis of the standard primitive cell P *)
InBasis(ops, P, n) ==
  {<<Conj(P, o[1]), VMod(MV(InvM(P, I3), o[2]), n)>> : o \in ops}
Expected(c) == IF "prim" \in DOMAIN memo /\ Unimodular(memo.prim)
               THEN Identify(InBasis(SymOps(c), memo.prim, c.n), c.n, System(Cardinality(Aut(c.g)))) ELSE -1
SgOk(c, e) ==
  LET ops == SymOps(c)
      got == {OpOf(e.ops[i]) : i \in DOMAIN e.ops}
  IN Fail("sginfo.untouched", e.untouched)
     \cup Fail("sginfo.ongrid", e.res <= e.rt)
     \cup (IF e.res > e.rt THEN {} ELSE
            Fail("sginfo.valid", \A o \in got : CellOpOk(c, ops, cell.t, o))
            \cup Fail("sginfo.distinct", Cardinality(got) = Len(e.ops))
            \cup Fail("sginfo.complete", Cardinality(got) >= Abs(Det(cell.t)) * Cardinality(Compatible(ops, cell.t))))
     \cup (LET m == Expected(c) IN
            Fail("sginfo.number", m = -1 \/ e.number = m)
            \cup Fail("sginfo.symbol", e.number \in 1..230 /\ e.symbol \in SGNames[e.number]))
SgRefusal(c, e) ==           \* the call gave up: only allowed when no type matches
  Fail("sginfo.missed", Expected(c) \in {0, -1})

(* ---- groups -------------------------------------------------------------- *)
OpsSet(s) == {OpOf(s[i]) : i \in DOMAIN s}
SgGenOk(e) ==
  Fail("sggen.ongrid", e.res <= e.rt)
  \cup (IF e.res > e.rt THEN {} ELSE
     LET want == Generated(OpsSet(e.gens), e.n)
         got == {<<OpOf(e.ops[i])[1], VMod(e.ops[i][4], e.n)>> : i \in DOMAIN e.ops}
     IN Fail("sggen.sound", got \subseteq want)
        \cup Fail("sggen.complete", want \subseteq got)
        \cup Fail("sggen.distinct", Len(e.ops) <= Cardinality(got) + e.dups))
SgTransOk(e) ==
  Fail("sgtrans.ongrid", e.res <= e.rt)
  \cup (IF e.res > e.rt THEN {} ELSE
     LET want == Rebased(OpsSet(e.ops), e.n, e.m, e.den)
         got == {<<OpOf(e.out[i])[1], VMod(e.out[i][4], e.n * Abs(Det(e.m)))>> : i \in DOMAIN e.out}
     IN Fail("sgtrans.sound", got \subseteq want)
        \cup Fail("sgtrans.complete", want \subseteq got)
        \cup Fail("sgtrans.distinct", Len(e.out) = Cardinality(got)))
PgOk(e) ==
  LET ops == SetOf(e.ops)
      gens == SetOf(e.gens)
  IN Fail("pg.symbol", e.symbol \in PGNames)
     \cup Fail("pg.unique", "syms" \in DOMAIN memo => e.symbol \notin memo.syms)
     \cup Fail("pg.operations", e.symbol \in PGNames /\ ops \in PGSets(e.symbol))
     \cup Fail("pg.distinct", Cardinality(ops) = Len(e.ops))
     \cup Fail("pg.generated", RotGroup(gens) = ops)
     (* in a basis that the group does not leave integral, the result is left open *)
     \cup Fail("pg.rebased", ("m" \in DOMAIN e /\ \A o \in ops : ConjOk(e.m, o)) =>
            /\ e.tsymbol = e.symbol
            /\ Len(e.tops) = Len(e.ops)
            /\ SetOf(e.tops) = {Conj(e.m, o) : o \in ops}
            /\ Len(e.tgens) = Len(e.gens)
            /\ \A i \in DOMAIN e.gens : e.tgens[i] = Conj(e.m, e.gens[i]))

(* ---- single operations; translations and points in units of 1/n ------------ *)
Centered(v, n) == LET r == v % n IN IF 2*r > n THEN r - n ELSE r
OpEq(a, b, tol, n) ==
  /\ a[1] = b[1]
  /\ \A k \in 1..3 : Abs(Centered(a[2][k] - b[2][k], n)) < tol[k]
OpApplyOk(e) ==
  LET a == OpOf(e.a) IN
  Fail("opapply.ongrid", e.res <= e.rt)
  \cup Fail("opapply.value", e.res > e.rt \/ e.out = VAdd(MV(a[1], e.v), a[2]))
OpMulOk(e) ==
  LET a == OpOf(e.a)  b == OpOf(e.b)  o == OpOf(e.out) IN
  Fail("opmul.ongrid", e.res <= e.rt)
  \cup (IF e.res > e.rt THEN {} ELSE
     Fail("opmul.rotation", o[1] = MM(a[1], b[1]))
     \cup (IF o[2] = VAdd(MV(a[1], b[2]), a[2]) THEN {}
           ELSE IF o[2] = VAdd(MV(b[1], a[2]), b[2]) THEN {"opmul.compose-known"}
           ELSE {"opmul.compose"}))
OpEqOk(e) ==
  LET a == OpOf(e.a)  b == OpOf(e.b) IN
  Fail("opeq.value", e.ab = OpEq(a, b, e.tol, e.n))
  \cup Fail("opeq.symmetric", e.ab = e.ba)
  \cup Fail("opeq.reflexive", e.aa)
(* each component congruent to the input and within [-tol, 1-tol] *)
NormOne(x, y, tol, n) == (x - y) % n = 0 /\ y >= -tol /\ y <= n - tol
OpNormOk(e) ==
  LET a == OpOf(e.a)  o == OpOf(e.out) IN
  Fail("opnorm.ongrid", e.res <= e.rt)
  \cup Fail("opnorm.rotation", o[1] = a[1])
  \cup Fail("opnorm.value", e.res > e.rt \/ \A k \in 1..3 : NormOne(a[2][k], o[2][k], e.tol[k], e.n))

(* ---- chemistry ------------------------------------------------------------- *)
Count(sp, x) == Cardinality({i \in DOMAIN sp : sp[i] = x})
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdAll(_, _)
GcdAll(s, k) == IF k = 0 THEN 0 ELSE Gcd(s[k], GcdAll(s, k-1))
Part(name, k) == IF k = 1 THEN name ELSE name \o ToString(k)
RECURSIVE Concat(_, _, _, _)
Concat(names, counts, g, k) ==
  IF k = 0 THEN "" ELSE Concat(names, counts, g, k-1) \o Part(names[k], counts[k] \div g)
FormulaOk(e) ==             \* names: the distinct species in alphabetical order
  LET counts == [i \in DOMAIN e.names |-> Count(e.species, e.names[i])]
      k == Len(e.names)
      g == GcdAll(counts, k)
  IN Fail("formula.full", e.formula = Concat(e.names, counts, 1, k))
     \cup Fail("formula.reduced", e.reduced = Concat(e.names, counts, g, k))
MinEleOk(e) ==
  LET counts == [i \in DOMAIN e.names |-> Count(e.species, e.names[i])]
      least == CHOOSE i \in DOMAIN counts :
                 /\ \A j \in DOMAIN counts : counts[i] <= counts[j]
                 /\ \A j \in DOMAIN counts : counts[j] = counts[i] => i <= j
      first(x) == CHOOSE i \in DOMAIN e.species : e.species[i] = x /\ \A j \in 1..(i-1) : e.species[j] # x
  IN Fail("minele.least", e.min = e.names[least])
     \cup Fail("minele.counts", e.keys /\ e.counts = counts)
     \cup Fail("minele.first", \A i \in DOMAIN e.names : e.inds[i] + 1 = first(e.names[i]))
     \cup Fail("minele.sites", e.num_sites = Len(e.species))

(* the content of the current cell: that of the crystal as often as the cell holds *)
(* the primitive one; the species of a crystal are numbered in alphabetical order  *)
CensusOk(c, e) ==
  LET d == Abs(Det(cell.t))
      own(i) == Cardinality({s \in c.sites : s[1] = i})
      k == Len(e.names)
      one == [i \in 1..k |-> own(i)]
      all == [i \in 1..k |-> d * own(i)]
      g == GcdAll(one, k)
      least == CHOOSE i \in 1..k : \A j \in 1..k : one[i] <= one[j] /\ (one[j] = one[i] => i <= j)
  IN Fail("census.sites", e.num_sites = d * Cardinality(c.sites))
     \cup Fail("census.elements", e.keys /\ e.counts = all)
     \cup Fail("census.least", e.min = e.names[least])
     \cup Fail("census.formula", e.formula = Concat(e.names, all, 1, k))
     \cup Fail("census.reduced", e.reduced = Concat(e.names, one, g, k))
     \cup Fail("census.volume", e.res <= e.rt /\ e.cells = d)

(* ---- lattice quantities ------------------------------------------------------ *)
ScalarsOk(c, e) ==
  LET h == G(c, cell.t) IN
  Fail("scalars.ongrid", e.res <= e.rt)
  \cup (IF e.res > e.rt THEN {} ELSE
     Fail("scalars.lengths", 2*e.a2 = h[1][1] /\ 2*e.b2 = h[2][2] /\ 2*e.c2 = h[3][3])
     \cup Fail("scalars.angles", e.xi = h[2][3] /\ e.eta = h[1][3] /\ e.zeta = h[1][2])
     \cup Fail("scalars.metric", e.metric = h)
     \cup Fail("scalars.volume", e.v8 = Det(c.g) * Det(cell.t) * Det(cell.t) /\ e.vsign = 1)
     \cup Fail("scalars.reciprocal", e.dual = I3)
     \cup Fail("scalars.superbase", e.super = <<Col(cell.t,1), Col(cell.t,2), Col(cell.t,3), Superbase(cell.t)[4]>>)
     \cup Fail("scalars.sites", e.num_sites = Len(cell.s)))
(* matrices taking a saved cell to the current one and back, times the determinant of the first *)
TmatOk(e) ==
  Fail("tmat.ongrid", e.res <= e.rt)
  \cup (IF e.res > e.rt THEN {} ELSE
     Fail("tmat.forward", MM(memo.saved, e.fwd) = MScale(Det(memo.saved), cell.t))
     \cup Fail("tmat.backward", MM(cell.t, e.bwd) = MScale(Det(cell.t), memo.saved)))

(* two cells on a grid: the first times the matrix relating them is the second *)
RelateOk(e) == Fail("relate.value", e.res <= e.rt /\ e.out = e.to)

(* free points of space, in grid units of the reference basis *)
ConvertOk(e) == Fail(e.k \o ".value", e.res <= e.rt /\ e.out = e.pts)

(* ---- helper functions -------------------------------------------------------- *)
DecodeOk(e) == Fail("decode.digits", e.out = [i \in 1..e.len |-> Digits(e.e, e.base, e.len)[i] - e.sub])
DecodeOpOk(e) == LET o == DecodeOp(e.e) IN
  Fail("decodeop.rotation", e.r = o[1][1] \o o[1][2] \o o[1][3]) \cup Fail("decodeop.translation", e.t = o[2])
ParseOk(e) == Fail("parse.name", e.out = Parsed(e.what, e.text))
BravaisOk(e) == LET b == CHOOSE x \in BravaisTypes : x[1] = e.name IN
  Fail("bravais.name", e.out.name = e.name)
  \cup Fail("bravais.centering", e.out.centering = b[3])
  \cup Fail("bravais.system", e.out.system = b[2])
  \cup Fail("bravais.holohedry", e.out.symbol = HolohedryName(b[4]) /\ e.out.order = Cardinality(SGRot[b[4]]))
(* a list compared with one of another length is refused *)
ListEqOk(e) ==
  IF Len(e.a) # Len(e.b) THEN Fail("listeq.refused", e.st = "panic")
  ELSE IF e.st # "ok" THEN {"listeq.returns"}
  ELSE Fail("listeq.value", e.out = AllNear(e.a, e.b, [i \in DOMAIN e.a |-> e.tol]))
NumEqOk(e) == Fail("numeq.value", e.out = <<Near(e.a, e.b, e.tol), Near(e.a, e.b, e.tol)>>)
MatEqOk(e) == Fail("mateq.value", e.out = AllNear(e.a, e.b, e.tols))
SignsOk(e) == Fail("signs.negative", e.out[1] = Negative(e.a, e.tol)) \cup Fail("signs.zero", e.out[2] = Vanishing(e.a, e.tol))
WrapOk(e) ==
  IF e.res > e.rt THEN {"wrap.ongrid"}
  ELSE Fail("wrap.value", Len(e.out) = Len(e.v) /\ \A i \in DOMAIN e.v : \A k \in 1..3 :
                            Wraps(e.v[i][k], e.out[i][k], e.n, e.tols[k]))

(* calls whose result becomes the current presentation *)
Moves(e) == e.k \in {"new", "transform", "normalize"} \/
            (e.k \in {"primitive", "niggli", "delaunay", "stdconv", "stdprim"} /\ ~e.peek)

(* ---- what is remembered across presentations of one crystal ------------------ *)
Keep(m, key, v) == IF key \in DOMAIN m THEN m ELSE m @@ (key :> v)
Agree(key, v, label) == Fail(label, key \in DOMAIN memo => memo[key] = v)

(* what a call returned, for comparison with the same call made before *)
Returned(e) ==
  IF e.st # "ok" THEN <<e.st>>
  ELSE IF e.k = "sginfo" THEN <<e.number, e.symbol, {OpOf(e.ops[i]) : i \in DOMAIN e.ops}>>
  ELSE <<e.o.t, e.o.s>>
Repeated(e) == IF "rep" \in DOMAIN e THEN Agree(e.rep, Returned(e), e.k \o ".again") ELSE {}

Across(c, e) ==
  Repeated(e) \cup
  IF e.st # "ok" THEN {} ELSE
  CASE e.k = "primitive" /\ OnGrid(e) -> Agree("vol", Abs(Det(e.o.t)), "same.primitive")
    [] e.k = "niggli" /\ Unimodular(cell.t) /\ OnGrid(e) -> Agree("nig", G(c, e.o.t), "same.niggli")
    [] e.k = "stdconv" /\ OnGrid(e) -> Agree("conv_g", G(c, e.o.t), "same.stdconv")
    [] e.k = "stdprim" /\ OnGrid(e) -> Agree("prim_g", G(c, e.o.t), "same.stdprim")
    [] e.k = "sginfo" -> Agree("num", e.number, "same.number") \cup Agree("sym", e.symbol, "same.symbol")
    [] OTHER -> {}
Noted(m, e) == IF "rep" \in DOMAIN e THEN Keep(m, e.rep, Returned(e)) ELSE m
Remember(c, e) ==
  IF e.k = "pg" /\ e.st = "ok"
  THEN ("syms" :> ((IF "syms" \in DOMAIN memo THEN memo.syms ELSE {}) \cup {e.symbol})) @@ memo
  ELSE IF e.st # "ok" THEN memo
  ELSE IF "o" \in DOMAIN e /\ ~OnGrid(e) THEN memo
  ELSE LET kept == IF Moves(e) THEN [k \in DOMAIN memo \ {"conv", "prim"} |-> memo[k]] ELSE memo
           with(m, key) == IF Moves(e) THEN m ELSE (key :> e.o.t) @@ m
       IN CASE e.k = "primitive" -> Keep(kept, "vol", Abs(Det(e.o.t)))
            [] e.k = "niggli" /\ Unimodular(cell.t) -> Keep(kept, "nig", G(c, e.o.t))
            [] e.k = "stdconv" -> with(Keep(kept, "conv_g", G(c, e.o.t)), "conv")
            [] e.k = "stdprim" -> with(Keep(kept, "prim_g", G(c, e.o.t)), "prim")
            [] e.k = "sginfo" -> Keep(Keep(kept, "num", e.number), "sym", e.symbol)
            [] e.k = "save" -> ("saved" :> cell.t) @@ kept
            [] OTHER -> kept

Check(c, e) ==
  IF e.k = "blank" THEN {}
  ELSE IF e.k = "listeq" THEN ListEqOk(e)
  ELSE IF e.st # "ok" THEN (IF e.k = "sginfo" /\ e.st = "panic" THEN SgRefusal(c, e)
                       ELSE {e.k \o ".returns"})
  ELSE CASE e.k = "new" -> NewOk(c, e)
         [] e.k = "transform" -> TransformOk(c, e)
         [] e.k = "normalize" -> NormalizeOk(c, e)
         [] e.k = "primitive" -> PrimitiveOk(c, e)
         [] e.k = "niggli" -> NiggliOk(c, e)
         [] e.k = "delaunay" -> DelaunayOk(c, e)
         [] e.k = "stdconv" -> StdConvOk(c, e)
         [] e.k = "stdprim" -> StdPrimOk(c, e)
         [] e.k = "sginfo" -> SgOk(c, e)
         [] e.k = "sggen" -> SgGenOk(e)
         [] e.k = "sgtrans" -> SgTransOk(e)
         [] e.k = "pg" -> PgOk(e)
         [] e.k = "opapply" -> OpApplyOk(e)
         [] e.k = "opmul" -> OpMulOk(e)
         [] e.k = "opeq" -> OpEqOk(e)
         [] e.k = "opnorm" -> OpNormOk(e)
         [] e.k = "formula" -> FormulaOk(e)
         [] e.k = "minele" -> MinEleOk(e)
         [] e.k = "census" -> CensusOk(c, e)
         [] e.k = "scalars" -> ScalarsOk(c, e)
         [] e.k = "tmat" -> TmatOk(e)
         [] e.k = "relate" -> RelateOk(e)
         [] e.k \in {"tofrac", "tocart"} -> ConvertOk(e)
         [] e.k = "decode" -> DecodeOk(e)
         [] e.k = "decodeop" -> DecodeOpOk(e)
         [] e.k = "parse" -> ParseOk(e)
         [] e.k = "bravais" -> BravaisOk(e)
         [] e.k = "numeq" -> NumEqOk(e)
         [] e.k = "mateq" -> MatEqOk(e)
         [] e.k = "signs" -> SignsOk(e)
         [] e.k = "wrap" -> WrapOk(e)
         [] e.k \in {"save", "blank"} -> {}

NoCell == [t |-> I3, s |-> << >>]
NoCrystal == [g |-> I3, n |-> 1, sites |-> {}]

(* where to go on after a rejected step: at the next presentation of the crystal *)
Resume(ev, k) ==
  LET later == {j \in (k+1)..Len(ev) : ev[j].k = "new"}
  IN IF later = {} THEN Len(ev) + 1 ELSE CHOOSE j \in later : \A i \in later : j <= i

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ cell = NoCell
        /\ memo = [none |-> 0]

Next ==
  LET tr == Traces[tid]
      e == tr.ev[l]
      c == IF "c" \in DOMAIN tr THEN CrystalOf(tr) ELSE NoCrystal
      sane == l > 1 \/ "c" \notin DOMAIN tr \/ (PosDef(c.g) /\ Primitive(c))
      bad == IF sane THEN Check(c, e) \cup Across(c, e) ELSE {"model.input"}
      fatal == bad # {} /\ (e.st # "ok" \/ Moves(e))
  IN /\ l <= Len(tr.ev)
     /\ tid' = tid
     /\ (bad # {} => PrintT(ToString(<<"REJECT", tid, l, bad>>)))
     /\ l' = IF fatal THEN Resume(tr.ev, l) ELSE l + 1
     /\ cell' = IF e.st = "ok" /\ Moves(e) /\ bad = {} THEN CellOf(e.o) ELSE cell
     /\ memo' = Noted(Remember(c, e), e)

Spec == Init /\ [][Next]_vars
=============================================================================
