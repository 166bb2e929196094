----------------------------- MODULE MC_Helpers -----------------------------
(* Encoding is invertible on every tabulated operation, no two operations of a *)
(* type have the same number, digits and numbers correspond, each component is *)
(* wrapped to exactly one place, and comparison is symmetric.                  *)
EXTENDS Helpers

VARIABLES n, e
Init == n \in 1..230 /\ e = {}
Next == e = {} /\ e' = {EncodeOp(o) : o \in SGOps[n]} /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, e>>

Invertible == e # {} => {DecodeOp(x) : x \in e} = SGOps[n]
Injective == e # {} => Cardinality(e) = Cardinality(SGOps[n])
InRange == \A x \in e : x \in 0..(19683 * 512 - 1)
RoundTrip == \A b \in 2..9 : LET d == Digits(n * 41 + b, b, 14) IN Number(d, b) = n * 41 + b
OneImage == LET one == (n % 13) + 1 IN \A tol \in {t \in 1..(2*one) : t % 2 = 1} : \A v \in (-2*one)..(2*one) :
              Cardinality({w \in (-one)..(2*one) : Wraps(v, w, one, tol)}) = 1
Symmetric == \A a \in -4..4 : \A b \in -4..4 : \A tol \in {1, 3, 5} :
               /\ Near(a, b, tol) = Near(b, a, tol) /\ Near(a, a, tol)
               /\ Negative(<<a, b>>, tol) + Negative(<<-a, -b>>, tol) + Vanishing(<<a, b>>, tol) = 2
(* the holohedry of a lattice type is the largest of the groups: those of its system are contained in it *)
Holohedral == \A t \in BravaisTypes :
  (t[3] = "P" /\ SGCent[n] = "P" /\ SGSystem[n] = SGSystem[t[4]]) => SGRot[n] \subseteq SGRot[t[4]]
=============================================================================
