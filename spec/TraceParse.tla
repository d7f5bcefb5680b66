----------------------------- MODULE TraceParse -----------------------------
(* C04: files given to the readers, and what they made of them.              *)
EXTENDS Parse, TraceCore
Init == TInit
Next == \/ More /\ Event.op = "parse" /\ ParseOk(Event) /\ Consume
        \/ More /\ Event.op = "runs" /\ RunsOk(Event) /\ Consume
        \/ ~More /\ UNCHANGED <<sid, l>>
Spec == Init /\ [][Next]_<<sid, l>>
=============================================================================
