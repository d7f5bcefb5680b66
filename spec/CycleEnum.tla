------------------------------ MODULE CycleEnum -----------------------------
(***************************************************************************)
(* C08, design level: the stack search of iter_cycle.rs on every graph over *)
(* 1..N, every order of vertices and edges.  Shown: it ends, never reports  *)
(* a cycle twice, and reports exactly the elementary cycles that can be     *)
(* reached from its start vertices (all of them if no vertex lacks inbound  *)
(* edges: known finding K2 otherwise).                                      *)
(***************************************************************************)
EXTENDS Cycles
CONSTANTS N,
          Flaw        \* "none"; "onestart": without sources, a single start vertex
VARIABLES g, stack, returned

vars == <<g, stack, returned>>
Vs == 1..N
\* start vertices: the sources, or, without sources, vertices picked one after another
\* until every vertex is reached from one of them
RECURSIVE Covers(_, _, _)
Covers(gr, order, reached) ==
  IF order = <<>> THEN <<>>
  ELSE IF Head(order) \in reached THEN Covers(gr, Tail(order), reached)
  ELSE <<Head(order)>> \o Covers(gr, Tail(order), reached \cup Reach(gr, Head(order)))
StartLists(gr) == IF Sources(gr) # {} THEN SetToSeqs(Sources(gr))
                  ELSE IF Flaw = "onestart" THEN {<<v>> : v \in gr.V}
                  ELSE {Covers(gr, o, {}) : o \in SetToSeqs(gr.V)}

Init == /\ g \in {[V |-> Vs, E |-> es] : es \in SUBSET (Vs \X Vs)}
        /\ \E q \in StartLists(g) : stack = [i \in 1..Len(q) |-> <<q[i]>>]
        /\ returned = <<>>

Rotate(c) == LET i == CHOOSE j \in 1..Len(c) : \A k \in 1..Len(c) : c[j] <= c[k]
             IN  SubSeq(c, i, Len(c)) \o SubSeq(c, 1, i - 1)
Closed(p) == {i \in 1..(Len(p) - 1) : p[i] = Last1(p)}
CycleAt(p) == Rotate(SubSeq(p, Max(Closed(p)), Len(p) - 1))
Step == /\ stack # <<>>
        /\ LET p == Last1(stack)
               rest == SubSeq(stack, 1, Len(stack) - 1)
           IN  IF Closed(p) # {}
               THEN /\ stack' = rest
                    /\ returned' = IF CycleAt(p) \in Range(returned) THEN returned
                                   ELSE Append(returned, CycleAt(p))
               ELSE /\ \E o \in SetToSeqs(Adj(g)[Last1(p)]) :
                         stack' = rest \o [i \in 1..Len(o) |-> Append(p, o[i])]
                    /\ UNCHANGED returned
        /\ UNCHANGED g
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

NeverTwice == Cardinality(Range(returned)) = Len(returned)
Elementary == Range(returned) \subseteq ElemCycles(g)
Complete == stack = <<>> => Range(returned) = Enumerable(g, ElemCycles(g))
Ends == <>(stack = <<>>)
=============================================================================
