----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* C21.  The search containers.  The content is the sequence of elements    *)
(* pushed and not popped yet, in push order; an element is <<priority, tag>>*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* positions a pop may take
MayPop(kind, q) ==
  CASE kind = "stack" -> {Len(q)} \ {0}
    [] kind = "queue" -> IF q = <<>> THEN {} ELSE {1}
    [] kind = "max"   -> {i \in 1..Len(q) : \A j \in 1..Len(q) : q[j][1] <= q[i][1]}
    [] kind = "min"   -> {i \in 1..Len(q) : \A j \in 1..Len(q) : q[j][1] >= q[i][1]}
=============================================================================
