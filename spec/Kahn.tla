-------------------------------- MODULE Kahn --------------------------------
(***************************************************************************)
(* C07, design level: the algorithm of topo_sort.rs on every graph over     *)
(* 1..N, with every order in which the hash map can list vertices and       *)
(* edges.  Shown: it ends, and its answer is the contract of Topo.          *)
(***************************************************************************)
EXTENDS Topo
CONSTANTS N, Loops,
          Flaw        \* "none"; "loops": self-loops are left out when the remaining edges are counted
VARIABLES g, queue, removed, res, cur, todo, done

vars == <<g, queue, removed, res, cur, todo, done>>
Vs == 1..N
Graphs0 == {[V |-> Vs, E |-> es] : es \in SUBSET (IF Loops THEN Vs \X Vs
                                                   ELSE {e \in Vs \X Vs : e[1] # e[2]})}
Start(gr) == {v \in gr.V : In(gr, v) = {}}

Init == /\ g \in Graphs0
        /\ queue \in {q \in SetToSeqs(Start(g)) : TRUE}
        /\ removed = {} /\ res = <<>> /\ cur = 0 /\ todo = {} /\ done = FALSE

\* take the next start vertex
Pop == /\ ~done /\ cur = 0 /\ queue # <<>>
       /\ cur' = Head(queue) /\ queue' = Tail(queue)
       /\ res' = Append(res, Head(queue))
       /\ todo' = Out(g, Head(queue)) \ removed
       /\ UNCHANGED <<g, removed, done>>
\* remove one of its edges; its target becomes a start vertex when it was the last one
Edge == /\ cur # 0
        /\ \E e \in todo :
             /\ removed' = removed \cup {e}
             /\ todo' = todo \ {e}
             /\ queue' = IF In(g, e[2]) \subseteq removed' THEN Append(queue, e[2]) ELSE queue
             /\ UNCHANGED <<g, res, cur, done>>
Close == /\ cur # 0 /\ todo = {} /\ cur' = 0
         /\ UNCHANGED <<g, queue, removed, res, todo, done>>
Finish == /\ ~done /\ cur = 0 /\ queue = <<>> /\ done' = TRUE
          /\ UNCHANGED <<g, queue, removed, res, cur, todo>>
Next == Pop \/ Edge \/ Close \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Answer == IF removed = (IF Flaw = "loops" THEN {e \in g.E : e[1] # e[2]} ELSE g.E) THEN [k |-> "ok", p |-> res] ELSE [k |-> "none"]
Correct == done => TopoToolOk(g, Answer)
\* on the way: no vertex twice, and everything listed precedes nothing listed before it
Safe == /\ NoRep(res \o queue)
        /\ \A i, j \in 1..Len(res) : <<res[i], res[j]>> \in g.E => i < j
Ends == <>done
=============================================================================
