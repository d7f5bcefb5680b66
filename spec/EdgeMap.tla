------------------------------ MODULE EdgeMap -------------------------------
(***************************************************************************)
(* C01, design level: the adjacency structure of directed_graph.rs.  Each   *)
(* edge is kept in the list of both of its endpoints, a self-loop once.     *)
(* TLC checks that it refines Store and that every observer computed from   *)
(* the lists agrees with the abstract sets.  Lists are modelled as bags     *)
(* (vertex -> edge -> multiplicity): order is not observable.               *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS Ids,
          Flaw        \* "none"; "twice": a self-loop is stored twice; "oneside": removing a vertex forgets the other ends
VARIABLE em       \* function: vertices present -> (edges -> multiplicity)

AllE == Ids \X Ids
NoEdges == [e \in AllE |-> 0]
Present == DOMAIN em
Has(m, e) == e[1] \in DOMAIN m /\ e[2] \in DOMAIN m /\ m[e[1]][e] > 0
WithV(m, v) == IF v \in DOMAIN m THEN m ELSE m @@ (v :> NoEdges)
Push(m, v, e) == [m EXCEPT ![v][e] = @ + 1]
AddEdge(m, e) ==
  IF Has(m, e) THEN m
  ELSE LET m1 == WithV(WithV(m, e[1]), e[2])
           m2 == Push(m1, e[1], e)
       IN  IF e[1] # e[2] \/ Flaw = "twice" THEN Push(m2, e[2], e) ELSE m2
DropAt(m, v, e) == IF v \in DOMAIN m THEN [m EXCEPT ![v][e] = 0] ELSE m
RemEdge(m, e) == DropAt(DropAt(m, e[1], e), e[2], e)
RECURSIVE RemEdges(_, _)
RemEdges(m, S) == IF S = {} THEN m
                  ELSE LET e == CHOOSE x \in S : TRUE IN RemEdges(RemEdge(m, e), S \ {e})
RemVertex(m, v) ==
  IF v \notin DOMAIN m THEN m
  ELSE LET mine == {e \in AllE : m[v][e] > 0}
           m1 == [w \in DOMAIN m \ {v} |-> m[w]]
       IN  IF Flaw = "oneside" THEN m1 ELSE RemEdges(m1, mine)

Init == em = [v \in {} |-> NoEdges]
Next == \/ \E v \in Ids : em' = WithV(em, v) \/ em' = RemVertex(em, v)
        \/ \E e \in AllE : em' = AddEdge(em, e) \/ em' = RemEdge(em, e)
Spec == Init /\ [][Next]_em

\* observers, computed the way the code computes them
EdgesFromSource == {e \in AllE : e[1] \in Present /\ em[e[1]][e] > 0}
OutOf(v) == {e \in AllE : v \in Present /\ em[v][e] > 0 /\ e[1] = v}
InOf(v)  == {e \in AllE : v \in Present /\ em[v][e] > 0 /\ e[2] = v}

bar == [V |-> Present, E |-> EdgesFromSource]
Abs == INSTANCE Store WITH g <- bar
Refines == Abs!StoreSpec

Observers ==
  /\ IsGraph(bar)
  /\ \A v \in Present, e \in AllE : em[v][e] \in {0, 1}        \* nothing stored twice
  /\ \A v \in Ids : OutOf(v) = Out(bar, v) /\ InOf(v) = In(bar, v)
  /\ \A e \in AllE : Has(em, e) <=> e \in bar.E
=============================================================================
