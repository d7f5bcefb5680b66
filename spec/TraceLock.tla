------------------------------ MODULE TraceLock -----------------------------
(* Sessions of the library on one directory, in one thread or several.       *)
EXTENDS LockApi, TraceCore
VARIABLES st,
          busy, met, inside   \* threads at work, those that met another one, those in a block
vars == <<st, busy, met, inside>>
Quiet == UNCHANGED <<busy, met, inside>>
LOCAL Rng(q) == {q[i] : i \in 1..Len(q)}
LoadOk(r) == IF st.ex THEN /\ r.k = "ok" /\ Rng(r.vs) = st.g.V /\ Len(r.vs) = Cardinality(st.g.V)
                           /\ Rng(r.es) = st.g.E /\ Len(r.es) = Cardinality(st.g.E)
             ELSE r.k = "err"
Do(e) ==
  CASE e.op \in Calls -> LET c == Call(st, e) IN
                           /\ e.res.k = c.k \/ (e.op = "end" /\ c.k = "any" /\ e.res.k \in {"ok", "own", "err"})
                           /\ st' = c.st /\ Quiet
    [] e.op = "isl"   -> e.res.b = st.lk /\ UNCHANGED st /\ Quiet
    [] e.op = "load"  -> LoadOk(e.res) /\ UNCHANGED st /\ Quiet
    \* several threads: a call begins,
    [] e.op = "try"   -> /\ busy' = busy \cup {e.t}
                         /\ met' = IF busy = {} THEN met \ {e.t} ELSE (met \cup busy) \cup {e.t}
                         /\ UNCHANGED <<st, inside>>
    \* its block begins (alone) and ends,
    [] e.op = "enter" -> inside = {} /\ inside' = {e.t} /\ UNCHANGED <<st, busy, met>>
    [] e.op = "exit"  -> inside = {e.t} /\ inside' = {} /\ UNCHANGED <<st, busy, met>>
    \* and it returns: refused only if another call overlapped
    [] e.op = "back"  -> /\ e.res.k = "ok" \/ (e.res.k = "err" /\ e.t \in met)
                         /\ st' = IF e.res.k = "ok" THEN [st EXCEPT !.g = ApplyAll(@, e.cs)] ELSE st
                         /\ busy' = busy \ {e.t} /\ UNCHANGED <<met, inside>>
    [] OTHER -> FALSE
Init == TInit /\ st = Start /\ busy = {} /\ met = {} /\ inside = {}
Next == \/ More /\ Do(Event) /\ Consume
        \/ ~More /\ UNCHANGED <<st, busy, met, inside, sid, l>>
Spec == Init /\ [][Next]_<<st, busy, met, inside, sid, l>>
=============================================================================
