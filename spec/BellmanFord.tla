----------------------------- MODULE BellmanFord ----------------------------
(***************************************************************************)
(* C14, design level: the three relaxation algorithms of shortest_path.rs,  *)
(* on every graph over 1..N and all weights of Weights, with every order in *)
(* which edges can be listed (Bellman-Ford: a new order in each round).     *)
(*   alg = "bf"   |V|-1 rounds over all edges, then one looking for an      *)
(*                improvement (negative cycle)                              *)
(*   alg = "spfa" a queue of vertices to relax (graphs without negative     *)
(*                cycle reachable from the start)                           *)
(*   alg = "dag"  vertices in a topological order (acyclic graphs)          *)
(***************************************************************************)
EXTENDS Sssp, Topo
CONSTANTS N, Weights, Algs, MaxE,
          Flaw        \* "none"; "rounds": Bellman-Ford makes one round less
VARIABLES g, W, alg, d, pred, todo, round, q, ans

WeightsQ == {-2, -1, 0, 1}
WeightsT == {-1, 1}
vars == <<g, W, alg, d, pred, todo, round, q, ans>>
Vs == 1..N
Rounds == IF Flaw = "rounds" THEN N - 2 ELSE N - 1
s == 1
\* pred[v]: the path recorded for v
Init == /\ g \in {[V |-> Vs, E |-> es] : es \in {x \in SUBSET (Vs \X Vs) : Cardinality(x) <= MaxE}}
        /\ W \in [g.E -> Weights]
        /\ alg \in Algs
        /\ (alg = "spfa" => ~HasNegCycleFrom(g, W, s))
        /\ (alg = "dag" => Acyclic(g))
        /\ d = [v \in Vs |-> IF v = s THEN 0 ELSE Inf]
        /\ pred = [v \in Vs |-> IF v = s THEN <<s>> ELSE <<>>]
        /\ todo = (IF alg = "bf" /\ N > 1 THEN g.E ELSE {})
        /\ round = 1
        /\ IF alg = "dag" THEN q \in {p \in SetToSeqs(Vs) : IsTopoOrder(g, p)}
           ELSE q = (IF alg = "spfa" THEN <<s>> ELSE <<>>)
        /\ ans = "run"

Better(e) == d[e[1]] < Inf /\ d[e[1]] + W[e] < d[e[2]]
Relax(e) == IF Better(e)
            THEN /\ d' = [d EXCEPT ![e[2]] = d[e[1]] + W[e]]
                 /\ pred' = [pred EXCEPT ![e[2]] = Append(pred[e[1]], e[2])]
            ELSE UNCHANGED <<d, pred>>
\* one edge of the current round / of the current vertex
One == /\ ans = "run" /\ todo # {}
       /\ \E e \in todo :
            /\ Relax(e) /\ todo' = todo \ {e}
            /\ q' = IF alg = "spfa" /\ Better(e) THEN Append(q, e[2]) ELSE q
       /\ UNCHANGED <<g, W, alg, round, ans>>
Round == /\ ans = "run" /\ alg = "bf" /\ todo = {} /\ round < Rounds
         /\ round' = round + 1 /\ todo' = g.E
         /\ UNCHANGED <<g, W, alg, d, pred, q, ans>>
Check == /\ ans = "run" /\ alg = "bf" /\ todo = {} /\ round >= Rounds
         /\ ans' = IF \E e \in g.E : Better(e) THEN "neg" ELSE "ok"
         /\ UNCHANGED <<g, W, alg, d, pred, todo, round, q>>
Take == /\ ans = "run" /\ alg # "bf" /\ todo = {} /\ q # <<>>
        /\ todo' = Out(g, Head(q)) /\ q' = Tail(q)
        /\ UNCHANGED <<g, W, alg, d, pred, round, ans>>
Stop == /\ ans = "run" /\ alg # "bf" /\ todo = {} /\ q = <<>> /\ ans' = "ok"
        /\ UNCHANGED <<g, W, alg, d, pred, todo, round, q>>
Next == One \/ Round \/ Check \/ Take \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Entries == LET S == SetToSeq({v \in Vs : d[v] < Inf})
           IN  [i \in 1..Len(S) |-> <<S[i], d[S[i]], pred[S[i]]>>]
Correct == ans # "run" =>
  /\ (ans = "neg") <=> HasNegCycleFrom(g, W, s)
  /\ ans = "ok" => TableOk(g, W, s, Entries)
\* every entry is the weight of a real path at all times (bf with a negative self-loop at the
\* start may improve the start itself)
Honest == \A v \in Vs : d[v] < Inf => pred[v] # <<>> /\ IsWalk(g, pred[v]) /\ pred[v][1] = s /\ Last1(pred[v]) = v
Ends == <>(ans # "run")
=============================================================================
