----------------------------- MODULE RandomDag ------------------------------
(***************************************************************************)
(* C19, design level: the loop of gc-random.  Vertices 1..N; in each round   *)
(* every vertex but the last draws a partner, and the pair becomes an edge   *)
(* from the smaller to the larger id when they lie more than Gap apart.      *)
(* Rounds go on until Wanted edges are there; Capped says whether Wanted is  *)
(* first lowered to the number of edges that fit.                            *)
(* Shown for every draw: acyclic, no surplus vertices, every edge across     *)
(* layers, and at least min(Wanted, what fits) edges at the end; and the     *)
(* loop ends when every draw is made again and again (strong fairness).      *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, Layers, MaxWanted, Capped
VARIABLES wanted, E, vid, done
vars == <<wanted, E, vid, done>>

Gap == N \div Layers
Fits == {<<a, b>> \in (1..N) \X (1..N) : b - a > Gap}
\* the closed form the code uses
Span == IF N > Gap + 1 THEN N - Gap - 1 ELSE 0
ASSUME Cardinality(Fits) = (Span * (Span + 1)) \div 2

Goal == IF Capped THEN Min({wanted, Cardinality(Fits)}) ELSE wanted
Init == wanted \in 0..MaxWanted /\ E = {} /\ vid = 0 /\ done = FALSE
\* the test at the head of a round
Round == /\ ~done /\ vid = 0
         /\ IF Cardinality(E) < Goal THEN vid' = 1 /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED vid
         /\ UNCHANGED <<wanted, E>>
Draw(o) == /\ vid # 0
           /\ E' = E \cup ({<<Min({vid, o}), Max({vid, o})>>} \cap Fits)
           /\ vid' = (IF vid + 1 < N THEN vid + 1 ELSE 0)
           /\ UNCHANGED <<wanted, done>>
Next == Round \/ \E o \in 1..N : Draw(o)
Pick(v, o) == vid = v /\ Draw(o)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Next)
        /\ \A v \in 1..(N - 1), o \in 1..N : SF_vars(Pick(v, o))

TypeOk == E \subseteq Fits
NoCycle == Acyclic([V |-> 1..N, E |-> E])
Enough == done => Cardinality(E) >= Min({wanted, Cardinality(Fits)})
\* while the loop runs, an edge that would bring it closer to its end can still be drawn
CanEnd == ~done /\ Cardinality(E) < Goal => Fits \ E # {}
Ends == <>done
=============================================================================
