-------------------------------- MODULE Flow --------------------------------
(* C15: maximum flow.  Optimality is checked through the residual graph:      *)
(* the sink is not reachable from the source in it (max-flow min-cut).        *)
EXTENDS Graphs

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

FlowOk(g, e) ==
  LET r == e.res IN
  /\ r.k = "ok"
  /\ Len(r.f) = Cardinality(g.E)
  /\ {<<r.f[i][1], r.f[i][2]>> : i \in 1..Len(r.f)} = g.E
  /\ LET cap == [x \in g.E |-> e.cap[CHOOSE i \in 1..Len(e.cap) : e.cap[i][1] = x[1] /\ e.cap[i][2] = x[2]][3]]
         ix  == [x \in g.E |-> CHOOSE i \in 1..Len(r.f) : r.f[i][1] = x[1] /\ r.f[i][2] = x[2]]
         f   == [x \in g.E |-> r.f[ix[x]][3]]
         net(v) == SumOver(f, In(g, v)) - SumOver(f, Out(g, v))
         radj == [v \in g.V |-> {w \in g.V : \/ <<v, w>> \in g.E /\ f[<<v, w>>] < cap[<<v, w>>]
                                             \/ <<w, v>> \in g.E /\ f[<<w, v>>] > 0}]
     IN  /\ \A x \in g.E : f[x] >= 0 /\ f[x] <= cap[x] /\ r.f[ix[x]][4] = cap[x]
         /\ \A v \in g.V \ {e.s, e.t} : net(v) = 0
         /\ net(e.t) = r.v
         /\ net(e.s) = -r.v
         /\ e.t \notin ReachSet(radj, {e.s}, {e.s})
=============================================================================
