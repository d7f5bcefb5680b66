------------------------------ MODULE TraceCore -----------------------------
(* Trace validation core.  A trace file holds one session per line:          *)
(*   {"id":..., "ev":[event, ...]}                                           *)
(* Every session is one initial state; the specification consumes its events *)
(* one by one.  An event no action explains leaves no successor: TLC reports *)
(* a deadlock in state (sid, l) and the driver reports that event.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES sid,   \* which session
          l      \* next event
Sessions == ndJsonDeserialize(IOEnv.TRACE_FILE)
Events == Sessions[sid].ev
Event == Events[l]
More == l <= Len(Events)
Consume == l' = l + 1 /\ UNCHANGED sid
TInit == sid \in 1..Len(Sessions) /\ l = 1
=============================================================================
