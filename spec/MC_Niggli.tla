----------------------------- MODULE MC_Niggli ------------------------------
(* The reduction algorithm of the specification, checked on its own.  A        *)
(* lattice starts in its reduced form, is presented by up to Skew elementary   *)
(* changes of basis chosen freely, and is then reduced step by step.           *)
(* Checked: the reduced form is a fixed point, every step keeps the lattice,   *)
(* the reduction ends within MaxSteps, what it ends in fulfils the Niggli      *)
(* conditions, and it is the form the lattice started from: uniqueness.        *)
EXTENDS Lattice, IOUtils, TLC

Bound == atoi(IOEnv.BOUND)
Skew == atoi(IOEnv.SKEW)
MaxSteps == 60

Reduced(A, B, C) ==
  {g \in {Form(A, B, C, x, e, z) : x \in -B..B, e \in -A..A, z \in -A..A} : IsNiggli(g) /\ PosDef(g)}
All == UNION {Reduced(t[1], t[2], t[3]) : t \in {u \in Cube(1, Bound) : u[1] <= u[2] /\ u[2] <= u[3]}}

Shear(i, j, k) == [r \in 1..3 |-> [c \in 1..3 |-> IF r = c THEN 1 ELSE IF r = i /\ c = j THEN k ELSE 0]]
Elementary == {Shear(p[1], p[2], k) : p \in {q \in (1..3) \X (1..3) : q[1] # q[2]}, k \in {-1, 1}}
              \cup { << <<0,1,0>>, <<1,0,0>>, <<0,0,1>> >>, << <<0,0,1>>, <<0,1,0>>, <<1,0,0>> >>,
                     << <<-1,0,0>>, <<0,1,0>>, <<0,0,1>> >> }

VARIABLES f, g, phase, n
vars == <<f, g, phase, n>>

Init == f \in All /\ g = f /\ phase = "skew" /\ n = 0
Present == /\ phase = "skew" /\ n < Skew
           /\ \E m \in Elementary : g' = Congr(g, m)
           /\ n' = n + 1 /\ UNCHANGED <<f, phase>>
Begin == phase = "skew" /\ phase' = "reduce" /\ n' = 0 /\ UNCHANGED <<f, g>>
Step == /\ phase = "reduce" /\ NextStep(g) # I3
        /\ g' = Congr(g, NextStep(g)) /\ n' = n + 1 /\ UNCHANGED <<f, phase>>
Next == Present \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

SameVolume == Det(g) = Det(f) /\ PosDef(g)
Ends == n <= MaxSteps
Finished == phase = "reduce" /\ NextStep(g) = I3
EndsReduced == Finished => IsNiggli(g)
Unique == Finished => g = f
OnlyReducedStops == IsNiggli(g) => NextStep(g) = I3
ProperSteps == Det(NextStep(g)) = 1
=============================================================================
