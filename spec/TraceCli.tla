------------------------------ MODULE TraceCli ------------------------------
(* Sessions of the command line tools on one directory.                      *)
EXTENDS Cli, TraceCore
VARIABLES ex, g, lk, bad
St == [ex |-> ex, g |-> g, lk |-> lk, bad |-> bad]
Goto(st) == ex' = st.ex /\ g' = st.g /\ lk' = st.lk /\ bad' = st.bad
Same == UNCHANGED <<ex, g, lk, bad>>
Ok(e) == e.res.rc = 0
Failed(e) == e.res.rc = 1

Dumped(r) == [V |-> Range(r.vs), E |-> Range(r.es)]
DumpIs(r, st) == IF st.ex /\ ~st.bad THEN r.k = "ok" /\ Lists(r.vs, st.g.V) /\ Lists(r.es, st.g.E) ELSE r.k = "err"

\* a query needs a graph, not the lock
Answer(gr, e) ==
  CASE e.op = "desc" -> DescOk(gr, e.res)
    \* nothing is promised about paths between vertices that are not there
    [] e.op \in {"sp", "csp"} /\ {e.s, e.t} \cap gr.V # {e.s, e.t} -> TRUE
    [] e.op = "topo" -> TopoToolOk(gr, e.res)
    [] e.op = "sp"   -> LET W == UnitW(gr) IN SpOk(gr, W, Dist(gr, W, e.s), e.s, e.t, e.res)
    [] e.op = "csp"  -> CspOk(gr, [s |-> e.s, t |-> e.t, w |-> <<>>, cs |-> CspCs(e.opts), res |-> e.res])
    [] e.op = "cyc"  -> CycToolOk(gr, e)
Queries == {"desc", "topo", "sp", "csp", "cyc"}
QueryOk(st, e) == IF e.op = "dump" THEN DumpIs(e.res, st)
                  ELSE IF st.ex /\ ~st.bad THEN Ok(e) /\ Answer(st.g, e)
                  ELSE Failed(e) /\ ~e.res.ans

(* ---- several tools at once: there is an order of the successful ones that     *)
(* explains every answer and the final graph (C05).  A failed modifying command  *)
(* did nothing, and had a reason: another one was at work, or no graph was there. *)
Modifying == {"add", "del", "build", "clean", "rand"}
Steps(st, j, cmds) ==
 LET e == cmds[j] IN
  IF e.op \in Queries \cup {"dump"} THEN (IF QueryOk(st, e) THEN {st} ELSE {})
  ELSE IF Ok(e)
       THEN IF e.op = "rand" THEN (IF Ready(st) THEN {[st EXCEPT !.g = EmptyGraph]} ELSE {})  \* with n = 0
            ELSE LET p == Post(st, e) IN IF 0 \in p.rc THEN {p.st} ELSE {}
  ELSE IF ~Failed(e) THEN {}
  ELSE IF e.op = "init" THEN (IF \E c \in Range(cmds) : c.op = "clean" THEN {st} ELSE {})
  ELSE IF ~Ready(st) THEN {st}
  ELSE IF e.op = "clean" /\ (\E c \in Range(cmds) : c.op = "init")
       THEN {st, [st EXCEPT !.ex = FALSE, !.g = EmptyGraph]}   \* re-initialised under the clean
  ELSE IF \E i \in 1..Len(cmds) : i # j /\ cmds[i].op \in Modifying THEN {st}
  ELSE {}
RECURSIVE Explained(_, _, _, _)
Explained(cmds, st, todo, fin) ==
  IF todo = {} THEN DumpIs(fin, st)
  ELSE \E i \in todo : \E st2 \in Steps(st, i, cmds) : Explained(cmds, st2, todo \ {i}, fin)
ParOk(st, e) == /\ Explained(e.cmds, st, 1..Len(e.cmds), e.res.dump)
                /\ e.res.lock = st.lk    \* no lock of their own left behind

(* ---- one tool under a fault (C06); the driver then removes a stale lock        *)
FaultOk(st, e) ==
  LET after == Post(st, e.cmd).st
      is(s) == DumpIs(e.res.dump, s)
  IN  /\ e.res.rc \in {0, 1} \cup (IF e.kind = "kill" THEN {2} ELSE {})
      /\ is(after) \/ (e.res.rc # 0 /\ is(st))

Do(e) ==
  CASE e.op \in Posted -> /\ LET p == Post(St, e) IN e.res.rc \in p.rc /\ Goto(p.st)
                          /\ (e.op = "build" /\ Ok(e) => /\ e.res.vc \in {-1, Cardinality(g.V)}
                                                         /\ e.res.ec \in {-1, Cardinality(g.E)})
    \* the driver writes a command log
    [] e.op = "put"   -> Goto([St EXCEPT !.ex = TRUE, !.g = ApplyAll(EmptyGraph, e.cs), !.bad = FALSE])
    [] e.op = "lockis" -> e.res.b = lk /\ Same
    [] e.op = "rand"  -> IF Yes(e)
                         THEN \/ /\ Ready(St) /\ Ok(e) /\ e.res.k = "ok"
                                 /\ g' = [V |-> Range(e.res.vs), E |-> Range(e.res.es)]
                                 /\ Lists(e.res.vs, g'.V) /\ Lists(e.res.es, g'.E)
                                 /\ RandOk(e.n, e.m, g')
                                 /\ bad' = FALSE /\ UNCHANGED <<ex, lk>>
                              \/ ~Ready(St) /\ Failed(e) /\ Same
                         ELSE e.res.rc \in {0, 1} /\ Same
    \* the graph as the library loads it
    [] e.op = "dump"  -> DumpIs(e.res, St) /\ Same
    [] e.op = "par"   -> /\ ParOk(St, e)
                         /\ ex' = (e.res.dump.k = "ok")
                         /\ g' = (IF ex' THEN Dumped(e.res.dump) ELSE EmptyGraph)
                         /\ UNCHANGED <<lk, bad>>
    [] e.op = "fault" -> /\ FaultOk(St, e)
                         /\ Goto([ex |-> TRUE, g |-> Dumped(e.res.dump), lk |-> FALSE, bad |-> FALSE])
    \* what changed on disk since the last such event: paths outside of the graph, and
    \* whether the graph's own files are byte for byte the same
    [] e.op = "files" -> e.res.outside = <<>> /\ (e.same => e.res.same) /\ Same
    [] e.op \in Queries -> QueryOk(St, e) /\ Same
    \* an invocation with a malformed option value
    [] e.op = "bad"   -> Failed(e) /\ ~e.res.ans /\ Same
    \* the driver makes the directory read-only, or writable again
    [] e.op \in {"ro", "rw"} -> Same
    \* any other invocation that does not modify the graph
    [] e.op = "run"   -> Same
    [] OTHER -> FALSE

Init == TInit /\ ex = FALSE /\ g = EmptyGraph /\ lk = FALSE /\ bad = FALSE
Next == \/ More /\ Do(Event) /\ Consume
        \/ ~More /\ UNCHANGED <<ex, g, lk, bad, sid, l>>
Spec == Init /\ [][Next]_<<ex, g, lk, bad, sid, l>>
=============================================================================
