------------------------------ MODULE Helpers -------------------------------
(* Encoded operations, names of lattice types, comparisons with a tolerance    *)
(* and wrapping into the unit interval.  Tolerances are odd numbers of half    *)
(* units, values whole numbers of units: ties cannot occur.                    *)
EXTENDS Groups

(* ---- integers that encode digits ------------------------------------------ *)
Pow(b, k) == IF k = 0 THEN 1 ELSE LET f[i \in 0..k] == IF i = 0 THEN 1 ELSE b * f[i-1] IN f[k]
(* most significant first *)
Digits(e, base, len) ==
  LET f[i \in 0..len] == IF i = 0 THEN e ELSE f[i-1] \div base       \* what remains after i digits
  IN [i \in 1..len |-> f[len-i] % base]
Number(d, base) ==
  LET f[i \in 0..Len(d)] == IF i = 0 THEN 0 ELSE f[i-1] * base + d[i] IN f[Len(d)]

(* an operation: nine digits of base three (matrix elements plus one, row by   *)
(* row) below three of base eight, which stand for these twelfths              *)
Twelfths == <<0, 2, 3, 4, 6, 8, 9, 10>>
DecodeOp(e) ==
  LET r == Digits(e % 19683, 3, 9)
      t == Digits(e \div 19683, 8, 3)
      row(i) == <<r[3*i-2] - 1, r[3*i-1] - 1, r[3*i] - 1>>
  IN << <<row(1), row(2), row(3)>>, <<Twelfths[t[1]+1], Twelfths[t[2]+1], Twelfths[t[3]+1]>> >>
EncodeOp(o) ==
  LET at(x) == (CHOOSE i \in 1..8 : Twelfths[i] = x) - 1
      r == o[1]
  IN 19683 * Number(<<at(o[2][1]), at(o[2][2]), at(o[2][3])>>, 8)
     + Number([k \in 1..9 |-> r[(k-1) \div 3 + 1][((k-1) % 3) + 1] + 1], 3)

(* ---- the fourteen lattice types ------------------------------------------- *)
BravaisTypes ==
  { <<"aP", "Triclinic", "P", 2>>, <<"mP", "Monoclinic", "P", 10>>, <<"mC", "Monoclinic", "C", 10>>,
    <<"oP", "Orthorhombic", "P", 47>>, <<"oC", "Orthorhombic", "C", 47>>, <<"oI", "Orthorhombic", "I", 47>>,
    <<"oF", "Orthorhombic", "F", 47>>, <<"tP", "Tetragonal", "P", 123>>, <<"tI", "Tetragonal", "I", 123>>,
    <<"hR", "Rhombohedral", "R", 164>>, <<"hP", "Hexagonal", "P", 191>>, <<"cP", "Cubic", "P", 221>>,
    <<"cI", "Cubic", "I", 221>>, <<"cF", "Cubic", "F", 221>> }
Letters == {<<"a", "Triclinic">>, <<"m", "Monoclinic">>, <<"o", "Orthorhombic">>, <<"t", "Tetragonal">>,
            <<"r", "Rhombohedral">>, <<"h", "Hexagonal">>, <<"c", "Cubic">>}
SystemNames == {x[2] : x \in Letters}
Parsed(what, text) ==
  IF what = "centering" THEN (IF text \in {"P", "A", "B", "C", "I", "F", "R"} THEN text ELSE "none")
  ELSE IF text \in SystemNames THEN text
  ELSE IF \E x \in Letters : x[1] = text THEN (CHOOSE x \in Letters : x[1] = text)[2] ELSE "none"
HolohedryName(n) == (CHOOSE p \in PGTypes : n \in p[2])[1]

(* ---- comparisons; tol counts half units ------------------------------------ *)
Near(a, b, tol) == 2 * Abs(a - b) < tol
AllNear(a, b, tol) == \A i \in DOMAIN a : Near(a[i], b[i], tol[i])
Negative(a, tol) == Cardinality({i \in DOMAIN a : 2 * a[i] < -tol})
Vanishing(a, tol) == Cardinality({i \in DOMAIN a : 2 * Abs(a[i]) < tol})
(* v and w differ by a multiple of one, w lies between -tol and one-tol *)
Wraps(v, w, one, tol) == (v - w) % one = 0 /\ -tol < 2 * w /\ 2 * w < 2 * one - tol
=============================================================================
