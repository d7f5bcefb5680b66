---------------------------- MODULE GenCycleValue ---------------------------
(* Design check and behaviour generation for C23: every list of up to N of    *)
(* the vertices 1..K.                                                         *)
EXTENDS CycleValue, TLC, CSV, IOUtils
CONSTANTS N, K
VARIABLES q, p     \* a list, and another one that may be a rotation of it
vars == <<q, p>>
Init == q = <<>> /\ p = <<>>
Next == Len(q) < N /\ \E v, w \in 1..K : q' = Append(q, v) /\ p' = Append(p, w)
Spec == Init /\ [][Next]_vars
\* the canonical form is a rotation, settles after one step, and tells rotations from anything else
Inv == Buildable(q) =>
         /\ Canonical(q) \in Rotations(q)
         /\ Canonical(Canonical(q)) = Canonical(q)
         /\ \A r \in Rotations(q) : Buildable(r) /\ Canonical(r) = Canonical(q)
         /\ Cardinality(Rotations(q)) = Len(q)
         /\ Buildable(p) => ((Canonical(p) = Canonical(q)) <=> p \in Rotations(q))
Emit == p # q \/ CSVWrite("%1$s", <<ToString(q)>>, IOEnv.GEN_OUT)
=============================================================================
