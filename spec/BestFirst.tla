------------------------------ MODULE BestFirst -----------------------------
(***************************************************************************)
(* C10, C16, design level: the best-first iterator of iter_best.rs (a queue *)
(* of scored paths, the best score queued per vertex, a visited set) as A*  *)
(* uses it, on every graph over 1..N, all edge weights of Weights and all   *)
(* consistent heuristics with values in Heur.                               *)
(***************************************************************************)
EXTENDS Traverse
CONSTANTS N, Weights, Heur,
          Flaw        \* "none"; "first": the first path queued for a vertex stays the only one
VARIABLES g, W, h, queue, visited, best, out, adding, cur

vars == <<g, W, h, queue, visited, best, out, adding, cur>>
Vs == 1..N
s == 1
Es == {e \in Vs \X Vs : e[1] # e[2]}
None == Inf
Score(p) == PathWeight(W, p) + h[Last1(p)]

Init == /\ g \in {[V |-> Vs, E |-> es] : es \in SUBSET Es}
        /\ W \in [g.E -> Weights]
        /\ h \in [Vs -> Heur]
        /\ h[N] = 0                                    \* zero at the target
        /\ \A e \in g.E : h[e[1]] <= W[e] + h[e[2]]    \* consistent
        /\ queue = {<<s>>}
        /\ visited = {} /\ best = [v \in Vs |-> None] /\ out = <<>> /\ adding = {} /\ cur = <<>>

\* pop some path of least score; one to a visited vertex is dropped
Pop == /\ adding = {} /\ queue # {}
       /\ \E p \in queue :
            /\ \A q \in queue : Score(p) <= Score(q)
            /\ queue' = queue \ {p}
            /\ IF Last1(p) \in visited
               THEN UNCHANGED <<visited, out, adding, cur>>
               ELSE /\ visited' = visited \cup {Last1(p)}
                    /\ out' = Append(out, p)
                    /\ adding' = Adj(g)[Last1(p)] \ visited'
                    /\ cur' = p
       /\ UNCHANGED <<g, W, h, best>>
\* queue the extensions, in any order
Add == /\ \E v \in adding :
            LET np == Append(cur, v)
            IN  /\ adding' = adding \ {v}
                /\ IF (IF Flaw = "first" THEN best[v] = None ELSE Score(np) < best[v])
                   THEN queue' = queue \cup {np} /\ best' = [best EXCEPT ![v] = Score(np)]
                   ELSE UNCHANGED <<queue, best>>
       /\ UNCHANGED <<g, W, h, visited, out, cur>>
Next == Pop \/ Add
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == queue = {} /\ adding = {}
\* every path given is a cheapest one to its last vertex, in order of score
Optimal == LET d == Dist(g, W, s) IN
  \A i \in 1..Len(out) : /\ IsWalk(g, out[i]) /\ out[i][1] = s
                         /\ PathWeight(W, out[i]) = d[Last1(out[i])]
Ordered == \A i \in 1..(Len(out) - 1) : Score(out[i]) <= Score(out[i + 1])
OnceEach == NoRep([i \in 1..Len(out) |-> Last1(out[i])])
AllReached == Finished => {Last1(out[i]) : i \in 1..Len(out)} = Reach(g, s)
Ends == <>Finished
=============================================================================
