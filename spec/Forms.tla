------------------------------- MODULE Forms --------------------------------
(* Enumerates every Niggli-reduced integer form A <= B <= C <= Bound, with the *)
(* order of its automorphism group and its lattice character, as input         *)
(* material for the implementation.                                            *)
EXTENDS Characters, Json, IOUtils, TLC, SequencesExt

Bound == atoi(IOEnv.BOUND)
Reduced(A, B, C) ==
  {g \in {Form(A, B, C, x, e, z) : x \in -B..B, e \in -A..A, z \in -A..A} : IsNiggli(g) /\ PosDef(g)}
All == UNION {Reduced(t[1], t[2], t[3]) : t \in {u \in Cube(1, Bound) : u[1] <= u[2] /\ u[2] <= u[3]}}

VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ LET s == SetToSeq(All)
           IN JsonSerialize(IOEnv.OUT, [i \in DOMAIN s |-> [g |-> s[i], order |-> Cardinality(AutReduced(s[i])), char |-> Character(s[i])]])
=============================================================================
