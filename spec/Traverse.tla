------------------------------ MODULE Traverse ------------------------------
(* C16, C17: traversals, simple path enumeration, Hamiltonian paths.          *)
EXTENDS Sssp

UDist(g, s) == Dist(g, UnitW(g), s)
\* by non-decreasing distance
BfsByDist(g, s, p) ==
  /\ Lists(p, Reach(g, s)) /\ p[1] = s
  /\ LET d == UDist(g, s) IN \A i \in 1..(Len(p) - 1) : d[p[i]] <= d[p[i + 1]]

\* each next vertex is an unvisited successor of the latest visited vertex that has one
DfsByDef(g, s, p) ==
  /\ Lists(p, Reach(g, s)) /\ p[1] = s
  /\ LET adj == Adj(g) IN
     \A i \in 2..Len(p) :
       LET seen == {p[j] : j \in 1..(i - 1)}
           live == {j \in 1..(i - 1) : adj[p[j]] \ seen # {}}
       IN  live # {} /\ p[i] \in adj[p[Max(live)]] \ seen

(* The same two, stated layer by layer and with a stack, for larger graphs    *)
(* (Walkers has an ASSUME that they agree).                                   *)
RECURSIVE ByLayers(_, _, _, _, _)
ByLayers(adj, p, i, seen, layer) ==
  LET j == i + Cardinality(layer) - 1
      new == (UNION {adj[v] : v \in layer}) \ seen
  IN  /\ Len(p) >= j /\ {p[k] : k \in i..j} = layer
      /\ IF new = {} THEN Len(p) = j ELSE ByLayers(adj, p, j + 1, seen \cup new, new)
BfsFrom(g, s, p) == IF s \in g.V THEN ByLayers(Adj(g), p, 1, {s}, {s}) ELSE p = <<s>>

RECURSIVE ByStack(_, _, _, _, _)
ByStack(adj, p, i, stack, seen) ==
  IF stack = <<>> THEN i > Len(p)
  ELSE LET new == adj[stack[Len(stack)]] \ seen
       IN  IF new = {} THEN ByStack(adj, p, i, SubSeq(stack, 1, Len(stack) - 1), seen)
           ELSE /\ i <= Len(p) /\ p[i] \in new
                /\ ByStack(adj, p, i + 1, Append(stack, p[i]), seen \cup {p[i]})
DfsFrom(g, s, p) ==
  /\ Len(p) >= 1 /\ p[1] = s
  /\ IF s \in g.V THEN ByStack(Adj(g), p, 2, <<s>>, {s}) ELSE Len(p) = 1

\* e.s = 0: the traversal chose its own start
TravOk(g, e) ==
  LET r == e.res IN
  /\ r.k = "ok"
  /\ IF e.s = 0
     THEN IF g.V = {} THEN r.p = <<>>
          ELSE /\ Len(r.p) >= 1 /\ r.p[1] \in g.V
               /\ IF e.op = "bfs" THEN BfsFrom(g, r.p[1], r.p) ELSE DfsFrom(g, r.p[1], r.p)
     ELSE IF e.op = "bfs" THEN BfsFrom(g, e.s, r.p) ELSE DfsFrom(g, e.s, r.p)

\* entries <<path, score>>, score = total weight (e.kind = "sum") or weight of the last edge's
\* target id ("last", not monotone in general)
BestOk(g, e) ==
  LET r == e.res
      W == WFun(g, e.w)
      Sc(p) == IF e.kind = "sum" THEN PathWeight(W, p) ELSE e.lab[Last1(p)]
      mono == IF e.kind = "sum" THEN \A x \in g.E : W[x] >= 0
              ELSE \A x \in g.E : e.lab[x[1]] <= e.lab[x[2]]
  IN  /\ r.k = "ok"
      /\ \A i \in 1..Len(r.es) : LET p == r.es[i][1] IN
           IsWalk(g, p) /\ p[1] = e.s /\ Sc(p) = r.es[i][2]
      /\ Lists([i \in 1..Len(r.es) |-> Last1(r.es[i][1])], Reach(g, e.s))
      /\ Last1(r.es[1][1]) = e.s
      /\ mono => \A i \in 1..(Len(r.es) - 1) : r.es[i][2] <= r.es[i + 1][2]

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
PathsOk(g, e) ==
  LET r == e.res
      ps == r.ps
  IN  /\ r.k = "ok"
      /\ Lists(ps, SimplePathsFrom(g, e.s))
      /\ IF e.op = "bfsp"
         THEN \A i \in 1..(Len(ps) - 1) : Len(ps[i]) <= Len(ps[i + 1])
         ELSE \A i \in 2..Len(ps) : IsPrefixOf(SubSeq(ps[i], 1, Len(ps[i]) - 1), ps[i - 1])

HamPaths(g) == {p \in UNION {SimplePathsFrom(g, v) : v \in g.V} : Len(p) = Cardinality(g.V)}
HamiltonOk(g, e) ==
  LET r == e.res
      H == HamPaths(g)
  IN  /\ r.k = "ok"
      /\ Lists(r.ps, H)
      /\ IF H = {} THEN r.first = <<>> ELSE r.first \in H
      /\ r.is = (g.V = {} \/ H # {})
\* e.p is a walk of the graph
HamPathOk(g, e) ==
  /\ e.res.k = "ok"
  /\ e.res.b = (NoRep(e.p) /\ Len(e.p) = Cardinality(g.V))
=============================================================================
