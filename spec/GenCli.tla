------------------------------- MODULE GenCli -------------------------------
(* Generates behaviours of the tools for replay into the real binaries: for   *)
(* every reachable state (graph over Ids, lock) and every invocation in it,   *)
(* one shortest history that ends with that invocation.                       *)
EXTENDS Cli, CSV, IOUtils, Json
CONSTANT Ids
VARIABLES st, hist

Two == {q \in Ids \X Ids : TRUE}
Distinct == {q \in Two : q[1] # q[2]}
AddOpts == {<< <<"vertex", <<v>>>> >> : v \in Ids}
           \cup {<< <<"edge", q>> >> : q \in Two}
           \cup {<< <<k, q>> >> : k \in {"chain", "cycle", "star", "clique"}, q \in Distinct}
           \cup {<< <<"vertex", <<q[1]>>>>, <<"edge", q>> >> : q \in Two}
DelOpts == {<< <<"vertex", <<v>>>> >> : v \in Ids}
           \cup {<< <<"edge", q>> >> : q \in Two}
           \cup {<< <<"vertex", <<q[1]>>>>, <<"edge", q>> >> : q \in Two}
Calls == {[op |-> "add", opts |-> o, rev |-> b] : o \in AddOpts, b \in BOOLEAN}
         \cup {[op |-> "del", opts |-> o] : o \in DelOpts}
         \cup {[op |-> k] : k \in {"init", "build", "lock", "unlock"}}
         \cup {[op |-> "spoil"]}
         \cup {[op |-> "clean", conf |-> c] : c \in {"force", "yes", "no", ""}}

GInit == st = [ex |-> FALSE, g |-> EmptyGraph, lk |-> FALSE, bad |-> FALSE] /\ hist = <<>>
GNext == \E e \in Calls : (e.op = "spoil" => st.ex) /\ st' = Post(st, e).st /\ hist' = Append(hist, e)
GSpec == GInit /\ [][GNext]_<<st, hist>>
View == st
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.GEN_OUT)

TypeOK == IsGraph(st.g) /\ st.g.V \subseteq Ids /\ (~st.ex => st.g = EmptyGraph)
\* while locked, or without a graph, no modifying tool does anything or claims to
Guarded == ~Ready(st) => \A e \in Calls : e.op \in {"add", "del", "build", "clean"}
                           => Post(st, e).st = st /\ (e.op # "clean" \/ Yes(e) => 0 \notin Post(st, e).rc)
\* compaction and refused confirmations never change the graph
Neutral == \A e \in Calls : e.op = "build" \/ (e.op = "clean" /\ ~Yes(e)) => Post(st, e).st = st
\* a damaged graph stays so until it is gone, and is never compacted
Damaged == st.bad => /\ st.ex
                     /\ \A e \in Calls : LET p == Post(st, e) IN
                          /\ e.op = "build" => 0 \notin p.rc /\ p.st = st
                          /\ p.st.bad \/ ~p.st.ex
=============================================================================
