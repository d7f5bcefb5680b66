------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* C01.  The in-memory graph: one abstract pair of sets, four operations,   *)
(* and what each observer must answer.                                      *)
(***************************************************************************)
EXTENDS Graphs
CONSTANT Ids            \* finite set of ids used by the exhaustive model
VARIABLE g

Commands == {<<0, v>> : v \in Ids} \cup {<<2, v>> : v \in Ids}
            \cup {<<k, a, b>> : k \in {1, 3}, a \in Ids, b \in Ids}

StoreInit == g = EmptyGraph
Do(c)     == g' = Apply(g, c)
StoreNext == \E c \in Commands : Do(c)
StoreSpec == StoreInit /\ [][StoreNext]_g

(* What the observers answer, as one record (n: ids are 1..n).              *)
ObsOk(gr, n, r) ==
  /\ r.k = "ok"
  /\ r.emp = (gr.V = {})
  /\ r.vc = Cardinality(gr.V)
  /\ r.ec = Cardinality(gr.E)
  /\ Lists(r.vs, gr.V)
  /\ Lists(r.es, gr.E)
  /\ Range(r.cv) = gr.V
  /\ Range(r.ce) = gr.E
  /\ \A v \in 1..n : /\ Lists(r.ob[v], Out(gr, v))
                     /\ Lists(r.ib[v], In(gr, v))
                     /\ r.dob[v] = Cardinality(Out(gr, v))
                     /\ r.dib[v] = Cardinality(In(gr, v))
  /\ IF gr.V = {} THEN r.hd = 0 ELSE r.hd \in gr.V

(* Adding an edge and removing a vertex report whether they had an effect     *)
(* (ret: one entry per command, -1 not observed; empty: nothing observed).   *)
RECURSIVE RetOk(_, _, _, _)
RetOk(gr, cs, ret, i) ==
  \/ i > Len(cs) \/ ret = <<>>
  \/ LET nx == Apply(gr, cs[i])
     IN  /\ ret[i] \in {-1, IF nx # gr THEN 1 ELSE 0}
         /\ RetOk(nx, cs, ret, i + 1)

(* Properties of the abstract store itself.                                 *)
TypeOK == IsGraph(g) /\ g.V \subseteq Ids
\* inapplicable or repeated operations change nothing; removing a vertex
\* removes exactly its edges; add then remove of something new is undone
Algebra ==
  \A a, b \in Ids :
    /\ (a \in g.V => AddV(g, a) = g)
    /\ (<<a, b>> \in g.E => AddE(g, a, b) = g)
    /\ (a \notin g.V => RemV(g, a) = g)
    /\ (<<a, b>> \notin g.E => RemE(g, a, b) = g)
    /\ AddE(g, a, b).V = g.V \cup {a, b}
    /\ RemV(g, a).E = {e \in g.E : a \notin {e[1], e[2]}}
    /\ (<<a, b>> \notin g.E => RemE(AddE(g, a, b), a, b).E = g.E)
=============================================================================
