-------------------------------- MODULE Sssp --------------------------------
(* C10, C14: shortest / longest paths.                                       *)
EXTENDS Graphs

WFun(g, w) == [e \in g.E |-> LET i == CHOOSE j \in 1..Len(w) : w[j][1] = e[1] /\ w[j][2] = e[2]
                             IN w[i][3]]
NegW(W) == [e \in DOMAIN W |-> -W[e]]

(* A table of entries <<v, score, path>> is exact: one entry for each         *)
(* reachable vertex, each with a real path of that weight, and no edge can    *)
(* improve any of them (so by induction no walk can).                         *)
TableOk(g, W, s, es) ==
  LET R == Reach(g, s)
  IN  /\ Len(es) = Cardinality(R)
      /\ {es[i][1] : i \in 1..Len(es)} = R
      /\ \A i \in 1..Len(es) :
           LET p == es[i][3]
           IN  /\ IsWalk(g, p) /\ p[1] = s /\ p[Len(p)] = es[i][1]
               /\ PathWeight(W, p) = es[i][2]
      /\ LET d == [v \in R |-> es[CHOOSE i \in 1..Len(es) : es[i][1] = v][2]]
         IN  /\ d[s] <= 0
             /\ \A e \in g.E : e[1] \in R => d[e[2]] <= d[e[1]] + W[e]

NegTable(es) == [i \in 1..Len(es) |-> <<es[i][1], -es[i][2], es[i][3]>>]

\* alg: "dag" shortest in a DAG, "long" longest in a DAG, "bf" Bellman-Ford, "spfa"
SsspOk(g, e) ==
  LET W == WFun(g, e.w)
      r == e.res
  IN  CASE e.alg = "long" -> r.k = "ok" /\ TableOk(g, NegW(W), e.s, NegTable(r.es))
        [] e.alg = "bf"   -> /\ r.k \in {"ok", "neg"}
                             /\ r.k = "neg" => HasNegCycleFrom(g, W, e.s)
                             \* a table no edge can improve also excludes negative cycles
                             /\ r.k = "ok" => TableOk(g, W, e.s, r.es)
        [] OTHER          -> r.k = "ok" /\ TableOk(g, W, e.s, r.es)

\* one target: the entry for t, or none exactly when unreachable
Sssp1Ok(g, e) ==
  LET W == IF e.alg = "long" THEN NegW(WFun(g, e.w)) ELSE WFun(g, e.w)
      sg == IF e.alg = "long" THEN -1 ELSE 1
      d == Dist(g, W, e.s)
      r == e.res
  IN  /\ r.k \in {"ok", "none"}
      /\ (r.k = "none") <=> d[e.t] >= Inf
      /\ r.k = "ok" => /\ IsWalk(g, r.p) /\ r.p[1] = e.s /\ Last1(r.p) = e.t
                       /\ PathWeight(W, r.p) = sg * r.c /\ sg * r.c = d[e.t]

(* C10: cheapest path between two vertices of the graph.                      *)
SpOk(g, W, d, s, t, r) ==
  /\ r.k \in {"ok", "none"}
  /\ (r.k = "none") <=> d[t] >= Inf
  /\ r.k = "ok" => /\ IsWalk(g, r.p) /\ r.p[1] = s /\ Last1(r.p) = t
                   /\ PathWeight(W, r.p) = r.c /\ r.c = d[t]
(* The same for larger graphs, with a certificate.  Potentials pi (claimed    *)
(* distances, one for each reachable vertex) that no edge can improve and     *)
(* that are 0 at the start bound every path from below; a path whose weight   *)
(* is the potential of its end is therefore cheapest.                         *)
SpCertOk(g, e) ==
  /\ e.res.k = "ok"
  /\ LET W == WFun(g, e.w)
         R == Reach(g, e.s)
         pi == [v \in R |-> e.pi[CHOOSE i \in 1..Len(e.pi) : e.pi[i][1] = v][2]]
     IN  /\ Assert(pi[e.s] = 0 /\ \A x \in g.E : x[1] \in R => pi[x[2]] <= pi[x[1]] + W[x], "bad certificate")
         /\ \A i \in 1..Len(e.res.m) :
              LET r == e.res.m[i] IN
              /\ r.k \in {"ok", "none"}
              /\ (r.k = "none") <=> r.t \notin R
              /\ r.k = "ok" => /\ IsWalk(g, r.p) /\ r.p[1] = e.s /\ Last1(r.p) = r.t
                               /\ PathWeight(W, r.p) = r.c /\ r.c = pi[r.t]
\* e.m: a sequence of queries [t, res] from e.s
SpAllOk(g, e) ==
  /\ e.res.k = "ok"
  /\ LET W == WFun(g, e.w)
         d == Dist(g, W, e.s)
     IN  \A i \in 1..Len(e.res.m) : SpOk(g, W, d, e.s, e.res.m[i].t, e.res.m[i])
=============================================================================
