------------------------------ MODULE MC_Cells ------------------------------
(* The life of one structure: presentations of small crystals, changed by the  *)
(* operations a client has.  Here the operations are constructive; checked is  *)
(* that they keep the crystal, and that the criterion the recorded executions  *)
(* are judged by (ValidCell) notices every single wrong site.                  *)
EXTENDS Crystal, IOUtils, TLC, SequencesExt

MaxVol == atoi(IOEnv.MAXVOL)
Grid == atoi(IOEnv.GRID)

(* representatives of the sites of crystal c in cell t, reduced into the cell *)
SitesIn(c, t) ==
  LET d == Abs(Det(t))
      a == Adj(t)
      rep(s, v) == LET w == VMod(MV(a, VAdd(Pos(s), VScale(c.n, v))), c.n * d)
                   IN At(s[1], VScale(Sgn(Det(t)), VDiv(MV(t, w), d)))
  IN {rep(s, v) : s \in c.sites, v \in Cube(0, d-1)}
CellWith(c, t) == [t |-> t, s |-> SetToSeq(SitesIn(c, t))]

Crystals ==
  LET g == Form(2, 3, 4, 1, 1, 1)
      pts == Cube(0, Grid-1)
      raw == {[g |-> g, n |-> Grid, sites |-> {<<1,0,0,0>>, At(k, p)}] : k \in {1, 2}, p \in pts \ {Z3}}
             \cup {[g |-> g, n |-> Grid, sites |-> {<<1,0,0,0>>}]}
  IN {c \in raw : Primitive(c)}

Shear(i, j, k) == [r \in 1..3 |-> [c \in 1..3 |-> IF r = c THEN 1 ELSE IF r = i /\ c = j THEN k ELSE 0]]
Moves == { Shear(1, 2, 1), Shear(3, 1, -1), Shear(2, 3, 1),
           << <<0,1,0>>, <<0,0,1>>, <<1,0,0>> >>, << <<1,0,0>>, <<0,-1,0>>, <<0,0,1>> >>,
           << <<2,0,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<1,0,0>>, <<1,2,0>>, <<0,0,1>> >>,
           << <<1,0,0>>, <<0,1,0>>, <<1,1,3>> >> }

VARIABLES c, cell, depth
vars == <<c, cell, depth>>

Init == c \in Crystals /\ cell = CellWith(c, I3) /\ depth = 0
Go(t) == cell' = CellWith(c, t) /\ depth' = depth + 1 /\ UNCHANGED c
Transform == \E m \in Moves : Abs(Det(MM(cell.t, m))) <= MaxVol /\ Go(MM(cell.t, m))
Shift == /\ Len(cell.s) > 0          \* other representatives: the cell vectors may be added to a site
         /\ \E k \in 1..3 : \E sg \in {-1, 1} :
              cell' = [cell EXCEPT !.s[1] = At(@[1], VAdd(Pos(@), VScale(sg * c.n, Col(cell.t, k))))]
         /\ depth' = depth + 1 /\ UNCHANGED c
ToPrimitive == Go(I3)
ToNiggli == Go(MM(cell.t, Niggli(Congr(c.g, cell.t)).u))
Next == depth < atoi(IOEnv.DEPTH) /\ (Transform \/ Shift \/ ToPrimitive \/ ToNiggli)
Spec == Init /\ [][Next]_vars

Valid == ValidCell(c, cell)
Count == Len(cell.s) = Abs(Det(cell.t)) * Cardinality(c.sites)
(* every cell determines its crystal: reducing its sites modulo the reference lattice gives the crystal back *)
Determines == {SiteMod(cell.s[i], c.n) : i \in DOMAIN cell.s} = c.sites
(* the criterion is sharp: wrong cells are not valid *)
Without(s, i) == [k \in 1..(Len(s)-1) |-> IF k < i THEN s[k] ELSE s[k+1]]
Sharp ==
  \A i \in DOMAIN cell.s :
    LET s == cell.s
        p == s[i]
    IN /\ ~ValidCell(c, [cell EXCEPT !.s = Without(s, i)])
       /\ ~ValidCell(c, [cell EXCEPT !.s = Append(s, p)])
       /\ ~ValidCell(c, [cell EXCEPT !.s[i] = At(3, Pos(p))])
       /\ \A j \in DOMAIN s : j # i => ~ValidCell(c, [cell EXCEPT !.s[i] = s[j]])
       /\ \A k \in 1..3 : LET q == VAdd(Pos(p), [Z3 EXCEPT ![k] = 1]) IN
             ValidCell(c, [cell EXCEPT !.s[i] = At(p[1], q)]) =>
             (* only if the crystal has the same species there as well, and then a site is missing elsewhere *)
             FALSE
=============================================================================
