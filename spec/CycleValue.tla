----------------------------- MODULE CycleValue -----------------------------
(* C23: a cycle value stands for a closed walk through distinct vertices; the *)
(* rotations of its list of vertices are the same cycle, and the canonical    *)
(* form is the one that starts at the smallest vertex.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
LOCAL Rng(q) == {q[i] : i \in 1..Len(q)}
Buildable(q) == Len(q) >= 2 /\ Cardinality(Rng(q)) = Len(q)
RotateBy(q, k) == [i \in 1..Len(q) |-> q[((i - 1 + k) % Len(q)) + 1]]
Canonical(q) == RotateBy(q, (CHOOSE i \in 1..Len(q) : q[i] = Min(Rng(q))) - 1)
Rotations(q) == {RotateBy(q, k) : k \in 0..(Len(q) - 1)}
CycleValueOk(e) ==
  LET q == e.q
      r == e.res
  IN  IF ~Buildable(q) THEN r.k = "none"
      ELSE /\ r.k = "ok"
           /\ r.it = q /\ r.path = q /\ r.len = Len(q)
           /\ r.can = Canonical(q) /\ r.can2 = r.can
           /\ r.is = (q = Canonical(q)) /\ r.cis
\* a list of cycles: the pairs that are the same as they are, the pairs that have the same canonical
\* form, and the number of different canonical forms (as a set of values tells them apart)
CycleSetOk(e) ==
  LET P == (1..Len(e.qs)) \X (1..Len(e.qs))
      C == [i \in 1..Len(e.qs) |-> Canonical(e.qs[i])]
  IN  /\ e.res.k = "ok"
      /\ Rng(e.res.eq) = {p \in P : e.qs[p[1]] = e.qs[p[2]]}
      /\ Rng(e.res.same) = {p \in P : C[p[1]] = C[p[2]]}
      /\ e.res.n = Cardinality(Rng(C))
=============================================================================
