----------------------------- MODULE Histories ------------------------------
(* The calls a client can make on one structure, as a state machine over what  *)
(* the client can know: how many primitive cells the structure holds.  TLC     *)
(* enumerates every history up to Depth; each one is replayed on the           *)
(* implementation with crystals of all lattice systems.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets, SequencesExt

Depth == atoi(IOEnv.DEPTH)
MaxVol == 12

VARIABLES start, calls, vols      \* vols: the set of possible volumes (conventional cells hold 1..4)
vars == <<start, calls, vols>>

Factor == [unimodular |-> 1, mirror |-> 1, double |-> 2, triple |-> 3]
Keeps == {"normalize", "niggli", "delaunay", "delaunayfull"}

Init == start \in {1, 2, 3} /\ calls = << >> /\ vols = {start}

Call(k, v) == calls' = Append(calls, k) /\ vols' = v /\ UNCHANGED start
Next == /\ Len(calls) < Depth
        /\ \/ \E k \in DOMAIN Factor : /\ \A v \in vols : v * Factor[k] <= MaxVol
                                       /\ Call(k, {v * Factor[k] : v \in vols})
           \/ \E k \in Keeps : Call(k, vols)
           \/ Call("primitive", {1})
           \/ Call("stdprim", {1})
           \/ Call("stdconv", 1..4)

(* the volume never leaves the bound, and the smallest cells are always reachable again *)
Bounded == \A v \in vols : v \in 1..MaxVol
Full == Len(calls) = Depth

(* collect the complete histories *)
Collect == Full => TLCSet(1, TLCGet(1) \cup {[start |-> start, calls |-> calls]})
ASSUME TLCSet(1, {})
Dump == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
=============================================================================
