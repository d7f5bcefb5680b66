-------------------------------- MODULE Topo --------------------------------
(* C07: topological order and DAG test.                                      *)
EXTENDS Graphs

IsTopoOrder(g, p) ==
  /\ Lists(p, g.V)
  /\ LET pos == [v \in g.V |-> CHOOSE i \in 1..Len(p) : p[i] = v]
     IN  \A e \in g.E : pos[e[1]] < pos[e[2]]

(* An order in which every edge goes forward exists exactly in an acyclic     *)
(* graph, so an accepted order also shows that the graph is acyclic.          *)
TopoToolOk(g, r) == CASE r.k = "ok"   -> IsTopoOrder(g, r.p)
                      [] r.k = "none" -> ~Acyclic(g)
                      [] OTHER        -> FALSE
\* r: result of topological_sort; d, t: answers of is_dag and try_dag
TopoOk(g, r) == /\ TopoToolOk(g, r)
                /\ r.d = (r.k = "ok") /\ r.t = (r.k = "ok")
=============================================================================
