------------------------------- MODULE IntLin -------------------------------
(* Exact linear algebra over the integers in three dimensions.               *)
(* A vector is a triple, a matrix a triple of rows.                          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

I3 == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
Z3 == <<0,0,0>>

VAdd(u, v) == << u[1]+v[1], u[2]+v[2], u[3]+v[3] >>
Min2(a, b) == IF a < b THEN a ELSE b
VSub(u, v) == << u[1]-v[1], u[2]-v[2], u[3]-v[3] >>
VScale(k, v) == << k*v[1], k*v[2], k*v[3] >>
VMod(v, n) == << v[1] % n, v[2] % n, v[3] % n >>      \* n > 0; result in 0..n-1
VDivides(n, v) == v[1] % n = 0 /\ v[2] % n = 0 /\ v[3] % n = 0
VDiv(v, n) == << v[1] \div n, v[2] \div n, v[3] \div n >>
Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]

MV(m, v) == << Dot(m[1], v), Dot(m[2], v), Dot(m[3], v) >>
Tr(m) == << <<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>,
            <<m[1][3], m[2][3], m[3][3]>> >>
Row(r, b) == << r[1]*b[1][1] + r[2]*b[2][1] + r[3]*b[3][1],
                r[1]*b[1][2] + r[2]*b[2][2] + r[3]*b[3][2],
                r[1]*b[1][3] + r[2]*b[2][3] + r[3]*b[3][3] >>
MM(a, b) == << Row(a[1], b), Row(a[2], b), Row(a[3], b) >>
MScale(k, m) == << VScale(k, m[1]), VScale(k, m[2]), VScale(k, m[3]) >>
MDivides(n, m) == VDivides(n, m[1]) /\ VDivides(n, m[2]) /\ VDivides(n, m[3])
MDiv(m, n) == << VDiv(m[1], n), VDiv(m[2], n), VDiv(m[3], n) >>
Col(m, j) == << m[1][j], m[2][j], m[3][j] >>
FromCols(a, b, c) == << <<a[1], b[1], c[1]>>, <<a[2], b[2], c[2]>>, <<a[3], b[3], c[3]>> >>
Trace3(m) == m[1][1] + m[2][2] + m[3][3]

Det(m) ==   m[1][1] * (m[2][2]*m[3][3] - m[2][3]*m[3][2])
          - m[1][2] * (m[2][1]*m[3][3] - m[2][3]*m[3][1])
          + m[1][3] * (m[2][1]*m[3][2] - m[2][2]*m[3][1])

(* Adj(m) * m = m * Adj(m) = Det(m) * I3 *)
Adj(m) ==
  << << m[2][2]*m[3][3] - m[2][3]*m[3][2], m[1][3]*m[3][2] - m[1][2]*m[3][3], m[1][2]*m[2][3] - m[1][3]*m[2][2] >>,
     << m[2][3]*m[3][1] - m[2][1]*m[3][3], m[1][1]*m[3][3] - m[1][3]*m[3][1], m[1][3]*m[2][1] - m[1][1]*m[2][3] >>,
     << m[2][1]*m[3][2] - m[2][2]*m[3][1], m[1][2]*m[3][1] - m[1][1]*m[3][2], m[1][1]*m[2][2] - m[1][2]*m[2][1] >> >>

(* T^-1 v and T^-1 M, defined when the result is integral *)
InvVOk(T, v) == VDivides(Abs(Det(T)), MV(Adj(T), v))
InvV(T, v) == VScale(Sgn(Det(T)), VDiv(MV(Adj(T), v), Abs(Det(T))))
InvMOk(T, M) == MDivides(Abs(Det(T)), MM(Adj(T), M))
InvM(T, M) == MScale(Sgn(Det(T)), MDiv(MM(Adj(T), M), Abs(Det(T))))
(* the matrix R written in the basis T: T^-1 R T *)
ConjOk(T, R) == InvMOk(T, MM(R, T))
Conj(T, R) == InvM(T, MM(R, T))

(* congruence transform of a quadratic form *)
Congr(g, T) == MM(Tr(T), MM(g, T))
Quad(g, v) == Dot(v, MV(g, v))

Unimodular(m) == Abs(Det(m)) = 1
Cube(lo, hi) == (lo..hi) \X (lo..hi) \X (lo..hi)
=============================================================================
