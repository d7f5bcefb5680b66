--------------------------- MODULE GenContainers ----------------------------
(* Design check and behaviour generation for C21: every history of up to N   *)
(* pushes and pops; a pop is possible exactly when something remains,        *)
(* nothing is lost or duplicated, and elements come out in their order.      *)
EXTENDS Containers, CSV, IOUtils
CONSTANTS N, Prio
VARIABLES kind, q, h, n, outs
vars == <<kind, q, h, n, outs>>
Init == kind \in {"stack", "queue", "max", "min"} /\ q = <<>> /\ h = <<>> /\ n = 0 /\ outs = <<>>
Push(p) == /\ q' = Append(q, <<p, n + 1>>) /\ n' = n + 1 /\ h' = Append(h, p)
           /\ UNCHANGED <<kind, outs>>
Pop == /\ h' = Append(h, 0) /\ UNCHANGED <<kind, n>>
       /\ IF q = <<>> THEN UNCHANGED <<q, outs>>
          ELSE \E i \in MayPop(kind, q) : q' = DropAt(q, i) /\ outs' = Append(outs, q[i])
Next == Len(h) < N /\ ((\E p \in Prio : Push(p)) \/ Pop)
Spec == Init /\ [][Next]_vars
Inv == /\ (q # <<>>) => MayPop(kind, q) # {}
       /\ Len(outs) + Len(q) = n                                 \* nothing lost
       /\ Range([i \in 1..Len(outs) |-> outs[i][2]]) \cup {q[i][2] : i \in 1..Len(q)} = 1..n
       \* a queue's output is in push order
       /\ kind = "queue" => \A i \in 1..(Len(outs) - 1) : outs[i][2] < outs[i + 1][2]
Emit == (kind # "stack" \/ Len(h) < N) \/ CSVWrite("%1$s", <<ToString(h)>>, IOEnv.GEN_OUT)
=============================================================================
