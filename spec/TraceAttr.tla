----------------------------- MODULE TraceAttr ------------------------------
(* C18: recorded sessions on one attribute mapping.                          *)
EXTENDS Attr, TraceCore
VARIABLES m, kind, name

\* r.obs: <<key, value>> for every key asked that has one; r.def: all keys asked, with
\* the default value -7 where there is none; asked: the keys asked
LookOk(e, mm) ==
  LET r == e.res
      asked == Range(e.keys)
  IN  /\ r.name = name
      /\ Range(r.obs) = {p \in mm : p[1] \in asked}
      /\ Len(r.def) = Len(e.keys)
      /\ \A i \in 1..Len(e.keys) :
           r.def[i] = (IF AHas(mm, e.keys[i]) THEN (CHOOSE p \in mm : p[1] = e.keys[i])[2] ELSE -7)

Do(e) ==
  \/ /\ e.op = "new" /\ e.res.k = "ok"
     /\ kind' = e.kind /\ name' = e.name /\ m' = {}
     /\ e.res.name = e.name
  \/ /\ e.op = "attr" /\ e.res.k = "ok"
     /\ m' = AApplyAll(kind, m, e.cs, 1)
     /\ (e.how # "batch" => e.res.rets = AReports(kind, m, e.cs, 1))
     /\ LookOk(e, m')
     /\ UNCHANGED <<kind, name>>

Init == TInit /\ m = {} /\ kind = "" /\ name = ""
Next == \/ More /\ Do(Event) /\ Consume
        \/ ~More /\ UNCHANGED <<m, kind, name, sid, l>>
Spec == Init /\ [][Next]_<<m, kind, name, sid, l>>
=============================================================================
