------------------------------- MODULE Groups -------------------------------
(* Space-group types and point groups, and groups given by generators.        *)
EXTENDS Crystal, Json, TLC, IOUtils

(* the 230 types, each in the basis of the standard primitive cell;            *)
(* translations in twelfths (expanded from Hall symbols, tools/hall.py)        *)
SGData == JsonDeserialize(IOEnv.SGDATA)
OpOf(o) == << <<o[1], o[2], o[3]>>, o[4] >>
SGOps == [n \in 1..230 |-> {OpOf(SGData[n].ops[i]) : i \in DOMAIN SGData[n].ops}]
SGNames == [n \in 1..230 |-> {SGData[n].hm[i] : i \in DOMAIN SGData[n].hm}]
SGSystem == [n \in 1..230 |-> SGData[n].sys]
SGCent == [n \in 1..230 |-> SGData[n].cent]
SGRot == [n \in 1..230 |-> {SGData[n].rot[i] : i \in DOMAIN SGData[n].rot}]

(* the type whose tabulated operations are exactly S (translations mod n), 0 if none *)
Lift(S, n) == {<<o[1], VMod(VScale(n, o[2]), 12*n)>> : o \in S}       \* twelfths -> 1/(12n)
(* among the types whose lattice system is that of the lattice *)
Identify(S, n, sys) ==
  LET up == {<<o[1], VMod(VScale(12, o[2]), 12*n)>> : o \in S}
      card == Cardinality(S)
      hits == {m \in 1..230 : Len(SGData[m].ops) = card /\ SGSystem[m] = sys /\ Lift(SGOps[m], n) = up}
  IN IF hits = {} THEN 0 ELSE CHOOSE m \in hits : TRUE

(* the 32 crystallographic point groups: Hermann-Mauguin symbol and the        *)
(* symmorphic space groups whose rotation parts are that group                  *)
PGTypes ==
  { <<"1", {1}>>, <<"-1", {2}>>, <<"2", {3}>>, <<"m", {6}>>, <<"2/m", {10}>>, <<"222", {16}>>,
    <<"mm2", {25}>>, <<"mmm", {47}>>, <<"4", {75}>>, <<"-4", {81}>>, <<"4/m", {83}>>, <<"422", {89}>>,
    <<"4mm", {99}>>, <<"-42m", {111}>>, <<"4/mmm", {123}>>, <<"3", {143}>>, <<"-3", {147}>>,
    <<"32", {149, 150}>>, <<"3m", {156, 157}>>, <<"-3m", {162, 164}>>, <<"6", {168}>>, <<"-6", {174}>>,
    <<"6/m", {175}>>, <<"622", {177}>>, <<"6mm", {183}>>, <<"-6m2", {187}>>, <<"6/mmm", {191}>>,
    <<"23", {195}>>, <<"m-3", {200}>>, <<"432", {207}>>, <<"-43m", {215}>>, <<"m-3m", {221}>> }
PGNames == {p[1] : p \in PGTypes}
PGSets(name) == LET p == CHOOSE q \in PGTypes : q[1] = name IN {SGRot[n] : n \in p[2]}

(* kind of a rotation: its order with a minus sign if improper *)
RotKind(R) ==
  LET d == Det(R)
      tr == d * Trace3(R)
      k == CASE tr = 3 -> 1 [] tr = -1 -> 2 [] tr = 0 -> 3 [] tr = 1 -> 4 [] tr = 2 -> 6
  IN d * k

(* groups from generators *)
RECURSIVE CloseRot(_, _, _)
CloseRot(S, new, gens) ==
  LET nxt == {MM(g, s) : g \in gens, s \in new} \ S
  IN IF nxt = {} THEN S ELSE CloseRot(S \cup nxt, nxt, gens)
RotGroup(gens) == CloseRot({I3} \cup gens, {I3} \cup gens, gens)

RECURSIVE CloseOps(_, _, _, _)
CloseOps(S, new, gens, n) ==
  LET nxt == {Compose(g, s, n) : g \in gens, s \in new} \ S
  IN IF nxt = {} THEN S ELSE CloseOps(S \cup nxt, nxt, gens, n)
Generated(gens, n) ==
  LET base == {<<I3, Z3>>} \cup {<<g[1], VMod(g[2], n)>> : g \in gens}
  IN CloseOps(base, base, gens, n)

(* the operations of a group with lattice Z^3 in the basis m/den: exactly those  *)
(* compatible with the new lattice; translations in units of 1/(n |det m|)        *)
Rebased(ops, n, m, den) ==
  LET d == Abs(Det(m))
      a == MScale(den * Sgn(Det(m)), Adj(m))
      ls == {VMod(MV(a, VScale(n, v)), n*d) : v \in Cube(0, d-1)}
  IN UNION { { << Conj(m, o[1]), VMod(VAdd(MV(a, o[2]), v), n*d) >> : v \in ls }
             : o \in {p \in ops : ConjOk(m, p[1])} }
=============================================================================
