------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Directed graphs as pairs of sets, and the mathematics every contract of  *)
(* the specification is stated with.  A graph is a record [V, E] with       *)
(* E \subseteq V \X V (self-loops allowed).  Vertices are integers.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

EmptyGraph == [V |-> {}, E |-> {}]
IsGraph(g) == g.E \subseteq g.V \X g.V

(* ---- graph commands: <<0,v>> add vertex, <<1,a,b>> add edge,             *)
(*                      <<2,v>> remove vertex, <<3,a,b>> remove edge        *)
AddV(g, v)    == [g EXCEPT !.V = @ \cup {v}]
AddE(g, a, b) == [V |-> g.V \cup {a, b}, E |-> g.E \cup {<<a, b>>}]
RemV(g, v)    == [V |-> g.V \ {v}, E |-> {e \in g.E : e[1] # v /\ e[2] # v}]
RemE(g, a, b) == [g EXCEPT !.E = @ \ {<<a, b>>}]

Apply(g, c) == CASE c[1] = 0 -> AddV(g, c[2])
                 [] c[1] = 1 -> AddE(g, c[2], c[3])
                 [] c[1] = 2 -> RemV(g, c[2])
                 [] c[1] = 3 -> RemE(g, c[2], c[3])

RECURSIVE ApplyAllFrom(_, _, _)
ApplyAllFrom(g, cs, i) ==
  IF i > Len(cs) THEN g ELSE ApplyAllFrom(Apply(g, cs[i]), cs, i + 1)
ApplyAll(g, cs) == ApplyAllFrom(g, cs, 1)

(* ---- adjacency and reachability                                          *)
Adj(g)  == [v \in g.V |-> {e[2] : e \in {f \in g.E : f[1] = v}}]
RAdj(g) == [v \in g.V |-> {e[1] : e \in {f \in g.E : f[2] = v}}]
Out(g, v) == {e \in g.E : e[1] = v}
In(g, v)  == {e \in g.E : e[2] = v}

RECURSIVE ReachSet(_, _, _)
ReachSet(adj, S, frontier) ==
  LET new == (UNION {adj[v] : v \in frontier}) \ S
  IN  IF new = {} THEN S ELSE ReachSet(adj, S \cup new, new)

Reach(g, s) == IF s \in g.V THEN ReachSet(Adj(g), {s}, {s}) ELSE {s}

(* Vertices on some cycle exist iff repeatedly removing sinks gets stuck.    *)
RECURSIVE Core(_, _)
Core(adj, S) == LET T == {v \in S : adj[v] \cap S # {}}
                IN  IF T = S THEN S ELSE Core(adj, T)
Acyclic(g) == Core(Adj(g), g.V) = {}

(* ---- paths                                                               *)
NoRep(p) == \A i, j \in 1..Len(p) : i # j => p[i] # p[j]
EdgesOf(p) == {<<p[i], p[i + 1]>> : i \in 1..(Len(p) - 1)}
IsWalk(g, p) == /\ Len(p) >= 1
                /\ \A i \in 1..Len(p) : p[i] \in g.V
                /\ \A i \in 1..(Len(p) - 1) : <<p[i], p[i + 1]>> \in g.E
Last1(p) == p[Len(p)]

RECURSIVE ExtendAll(_, _)
\* all simple paths that extend p (p included)
ExtendAll(adj, p) ==
  {p} \cup UNION {ExtendAll(adj, Append(p, w)) : w \in adj[p[Len(p)]] \ Range(p)}
SimplePathsFrom(g, s) == IF s \in g.V THEN ExtendAll(Adj(g), <<s>>) ELSE {<<s>>}

(* Elementary cycles, each as the sequence of its vertices starting at the  *)
(* smallest one.                                                            *)
RECURSIVE CyclesExt(_, _, _)
CyclesExt(adj, s, p) ==
  LET last == p[Len(p)]
  IN  (IF s \in adj[last] THEN {p} ELSE {})
      \cup UNION {CyclesExt(adj, s, Append(p, w)) :
                    w \in {x \in adj[last] : x > s} \ Range(p)}
ElemCycles(g) == LET adj == Adj(g) IN UNION {CyclesExt(adj, s, <<s>>) : s \in g.V}

(* ---- distances.  W is a function from edges to integer weights.          *)
Inf == 1000000000
RECURSIVE RelaxRounds(_, _, _, _)
RelaxRounds(E, W, d, k) ==
  IF k = 0 THEN d
  ELSE LET d2 == [v \in DOMAIN d |->
                    Min({d[v]} \cup {d[e[1]] + W[e] : e \in {f \in E : f[2] = v /\ d[f[1]] < Inf}})]
       IN  IF d2 = d THEN d ELSE RelaxRounds(E, W, d2, k - 1)
\* least weight of a walk from s of at most |V| edges (exact without negative cycles)
Dist(g, W, s) == RelaxRounds(g.E, W, [v \in g.V |-> IF v = s THEN 0 ELSE Inf], Cardinality(g.V))
HasNegCycleFrom(g, W, s) ==
  LET d == Dist(g, W, s) IN \E e \in g.E : d[e[1]] < Inf /\ d[e[1]] + W[e] < d[e[2]]

UnitW(g) == [e \in g.E |-> 1]
RECURSIVE PathW(_, _, _)
PathW(W, p, i) == IF i >= Len(p) THEN 0 ELSE W[<<p[i], p[i + 1]>>] + PathW(W, p, i + 1)
PathWeight(W, p) == PathW(W, p, 1)

\* a sequence listing exactly the elements of S, each once
Lists(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S
=============================================================================
