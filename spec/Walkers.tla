------------------------------- MODULE Walkers ------------------------------
(***************************************************************************)
(* C16, C17, design level: the vertex and path iterators of iter_breadth.rs *)
(* and iter_depth.rs on every graph over 1..N, every order of edges.        *)
(***************************************************************************)
EXTENDS Traverse
CONSTANTS N,
          Flaw,       \* "none"; "mark": depth-first marks vertices when it pushes them
          Kinds       \* kinds of {"bfs", "dfs", "bfsp", "dfsp"}
VARIABLES g, kind, store, visited, out
vars == <<g, kind, store, visited, out>>
Vs == 1..N
s == 1
Init == /\ g \in {[V |-> Vs, E |-> es] : es \in SUBSET (Vs \X Vs)}
        /\ kind \in Kinds
        /\ store = <<IF kind \in {"bfs", "dfs"} THEN s ELSE <<s>>>>
        /\ visited = (IF kind = "bfs" THEN {s} ELSE {})
        /\ out = <<>>
ASSUME Agree == \A es \in SUBSET ((1..3) \X (1..3)) :
  LET h == [V |-> 1..3, E |-> es] IN
  \A p \in UNION {[1..k -> 1..3] : k \in 0..4} :
    /\ BfsFrom(h, s, p) = (p # <<>> /\ BfsByDist(h, s, p))
    /\ DfsFrom(h, s, p) = (p # <<>> /\ DfsByDef(h, s, p))
Fifo == kind \in {"bfs", "bfsp"}
Top == IF Fifo THEN Head(store) ELSE Last1(store)
Rest == IF Fifo THEN Tail(store) ELSE SubSeq(store, 1, Len(store) - 1)
Push(o) == store' = Rest \o o
Bfs == /\ kind = "bfs"
       /\ out' = Append(out, Top)
       /\ \E o \in SetToSeqs(Adj(g)[Top] \ visited) : Push(o)
       /\ visited' = visited \cup Adj(g)[Top]
Dfs == /\ kind = "dfs"
       /\ IF Flaw = "mark"
          THEN /\ out' = Append(out, Top) /\ visited' = visited \cup {s} \cup Adj(g)[Top]
               /\ \E o \in SetToSeqs(Adj(g)[Top] \ (visited \cup {s})) : Push(o)
          ELSE IF Top \in visited THEN store' = Rest /\ UNCHANGED <<visited, out>>
          ELSE /\ visited' = visited \cup {Top} /\ out' = Append(out, Top)
               /\ \E o \in SetToSeqs(Adj(g)[Top] \ visited') : Push(o)
Paths == /\ kind \in {"bfsp", "dfsp"}
         /\ out' = Append(out, Top) /\ UNCHANGED visited
         /\ \E o \in SetToSeqs(Adj(g)[Last1(Top)] \ Range(Top)) :
              Push([i \in 1..Len(o) |-> Append(Top, o[i])])
Next == /\ store # <<>> /\ (Bfs \/ Dfs \/ Paths) /\ UNCHANGED <<g, kind>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == store = <<>> =>
  CASE kind \in {"bfs", "dfs"} -> TravOk(g, [op |-> kind, s |-> s, res |-> [k |-> "ok", p |-> out]])
    [] OTHER -> PathsOk(g, [op |-> kind, s |-> s, res |-> [k |-> "ok", ps |-> out]])
Ends == <>(store = <<>>)
=============================================================================
