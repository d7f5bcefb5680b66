------------------------------- MODULE GenLock ------------------------------
(* Design check and generation of behaviours of the library: for every state *)
(* and every call in it, one shortest history that ends with that call.      *)
EXTENDS LockApi, CSV, IOUtils, Json
CONSTANT Ids, MaxOpen
VARIABLES st, hist
C(fn, cs) == [op |-> "cmds", fn |-> fn, cs |-> cs]
Acts == {[op |-> k] : k \in {"mkdir", "init", "lock", "unlock", "clean", "begin"}}
        \cup {[op |-> "end", want |-> w] : w \in {"ok", "own"}}
        \cup {[op |-> "save", cs |-> << <<0, v>>, <<1, v, v>> >>] : v \in Ids}
        \cup UNION {{C(f, << <<0, v>> >>) : f \in {"add_vertex", "add_vertices"}} : v \in Ids}
        \cup UNION {{C(f, << <<2, v>> >>) : f \in {"remove_vertex", "remove_vertices"}} : v \in Ids}
        \cup UNION {{C(f, << <<1, a, b>> >>) : f \in {"add_edge", "add_edges"}} : a, b \in Ids}
        \cup {C("remove_edges", << <<3, a, b>> >>) : a, b \in Ids}
        \cup {C(f, <<>>) : f \in {"add_vertices", "add_edges", "remove_vertices", "remove_edges"}}
Allowed(e) == /\ e.op = "mkdir" => ~st.here
              /\ e.op = "begin" => st.open < MaxOpen
              /\ e.op = "end" => st.open > 0
GInit == st = Start /\ hist = <<>>
GNext == \E e \in Acts : Allowed(e) /\ st' = Call(st, e).st /\ hist' = Append(hist, e)
GSpec == GInit /\ [][GNext]_<<st, hist>>
View == st
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.GEN_OUT)
TypeOK == /\ IsGraph(st.g) /\ (st.ex \/ st.lk => st.here) /\ (~st.ex => st.g = EmptyGraph)
\* what fails changes nothing; nothing but saving and initialising works past a held lock
Refused == \A e \in Acts : Allowed(e) => LET c == Call(st, e) IN
             /\ c.k = "err" => c.st = st
             /\ st.lk /\ e.op \in {"lock", "cmds", "clean", "begin"} => c.k = "err"
\* additions, removals and cleaning leave no lock behind
Returned == \A e \in Acts : Allowed(e) /\ e.op \in {"cmds", "clean", "end"} => Call(st, e).st.lk = (st.lk /\ e.op # "end")
=============================================================================
