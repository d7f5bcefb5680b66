------------------------------ MODULE TraceLib ------------------------------
(* Sessions of the library: a graph evolves by commands, and every query on   *)
(* it must be answered as its contract allows.                                *)
EXTENDS Store, Topo, Cycles, CycleValue, Flow, Traverse, WalkList, TraceCore

SameGraph(r, gr) == r.k = "ok" /\ Lists(r.vs, gr.V) /\ Lists(r.es, gr.E)

Accept(e) ==
  CASE e.op = "cmds"  -> TRUE
    [] e.op = "obs"   -> ObsOk(g, e.n, e.res)
    [] e.op = "step"  -> ObsOk(ApplyAll(g, e.cs), e.n, e.res) /\ RetOk(g, e.cs, e.res.ret, 1)
    [] e.op = "rt"    -> SameGraph(e.res, g)
    [] e.op = "topo"  -> TopoOk(g, e.res)
    [] e.op = "cycles" -> CyclesOk(g, e.res)
    [] e.op = "cv"    -> CycleValueOk(e)
    [] e.op = "cvset" -> CycleSetOk(e)
    [] e.op = "spall" -> SpAllOk(g, e)
    [] e.op = "spcert" -> SpCertOk(g, e)
    [] e.op = "sssp"  -> SsspOk(g, e)
    [] e.op = "sssp1" -> Sssp1Ok(g, e)
    [] e.op = "flow"  -> FlowOk(g, e)
    [] e.op \in {"bfs", "dfs"} -> TravOk(g, e)
    [] e.op = "best"  -> BestOk(g, e)
    [] e.op \in {"bfsp", "dfsp"} -> PathsOk(g, e)
    [] e.op = "ham"   -> HamiltonOk(g, e)
    [] e.op = "hamp"  -> HamPathOk(g, e)
    [] e.op = "con"   -> ConOk(e, Range(e.u), e.x)
    [] e.op = "path"  -> PathOk(e)
    [] e.op = "val"   -> ValidOk(e)
    [] e.op = "walks" -> WalkListOk(g, e)
    [] e.op = "csp"   -> CspOk(g, e)
    [] OTHER -> FALSE

Effect(e) == IF e.op \in {"cmds", "step"} THEN g' = ApplyAll(g, e.cs) ELSE g' = g

Init == TInit /\ StoreInit
Next == \/ More /\ Effect(Event) /\ Consume /\ Accept(Event)
        \/ ~More /\ UNCHANGED <<g, sid, l>>
Spec == Init /\ [][Next]_<<g, sid, l>>
=============================================================================
