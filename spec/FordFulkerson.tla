---------------------------- MODULE FordFulkerson ---------------------------
(***************************************************************************)
(* C15, design level: augmenting along any path with residual capacity,     *)
(* forward and backward, as max_flow.rs does, on every graph over 1..N and  *)
(* all capacities of Caps.  Shown: every intermediate flow is feasible, it  *)
(* ends, and the final one is maximal.                                      *)
(***************************************************************************)
EXTENDS Flow
CONSTANTS N, Caps,
          Flaw        \* "none"; "forward": flow is never pushed back
VARIABLES g, cap, f, val, done
vars == <<g, cap, f, val, done>>
Vs == 1..N
s == 1
t == N
Init == /\ g \in {[V |-> Vs, E |-> es] : es \in SUBSET {e \in Vs \X Vs : e[1] # e[2]}}
        /\ cap \in [g.E -> Caps]
        /\ f = [e \in g.E |-> 0] /\ val = 0 /\ done = FALSE
\* residual arcs <<from, to, direction>>
Res(a) == IF a[3] = "F" THEN cap[<<a[1], a[2]>>] - f[<<a[1], a[2]>>] ELSE f[<<a[2], a[1]>>]
Arcs == {a \in {<<e[1], e[2], "F">> : e \in g.E} \cup (IF Flaw = "forward" THEN {} ELSE {<<e[2], e[1], "B">> : e \in g.E}) : Res(a) > 0}
RECURSIVE Aug(_, _)
\* simple residual paths (as sets of arcs) from v to t avoiding seen
Aug(v, seen) == IF v = t THEN {{}}
                ELSE UNION {{{a} \cup p : p \in Aug(a[2], seen \cup {a[2]})} :
                              a \in {x \in Arcs : x[1] = v /\ x[2] \notin seen}}
Step == /\ ~done
        /\ LET P == Aug(s, {s}) IN
           IF P = {} THEN done' = TRUE /\ UNCHANGED <<f, val>>
           ELSE \E p \in P :
                  LET dl == Min({Res(a) : a \in p}) IN
                  /\ f' = [e \in g.E |-> IF <<e[1], e[2], "F">> \in p THEN f[e] + dl
                                         ELSE IF <<e[2], e[1], "B">> \in p THEN f[e] - dl ELSE f[e]]
                  /\ val' = val + dl /\ UNCHANGED done
        /\ UNCHANGED <<g, cap>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Net(v) == SumOver(f, In(g, v)) - SumOver(f, Out(g, v))
Feasible == /\ \A e \in g.E : f[e] >= 0 /\ f[e] <= cap[e]
            /\ \A v \in Vs \ {s, t} : Net(v) = 0
            /\ Net(t) = val /\ Net(s) = -val
Cuts == {S \in SUBSET Vs : s \in S /\ t \notin S}
CutCap(S) == SumOver(cap, {e \in g.E : e[1] \in S /\ e[2] \notin S})
Maximal == done => val = Min({CutCap(S) : S \in Cuts})
\* the residual-graph test used on recorded results agrees with the minimum cut
Certificate == LET r == [k |-> "ok", v |-> val,
                         f |-> LET q == SetToSeq(g.E) IN [i \in 1..Len(q) |-> <<q[i][1], q[i][2], f[q[i]], cap[q[i]]>>]]
                   c == LET q == SetToSeq(g.E) IN [i \in 1..Len(q) |-> <<q[i][1], q[i][2], cap[q[i]]>>]
               IN  FlowOk(g, [res |-> r, cap |-> c, s |-> s, t |-> t]) <=> val = Min({CutCap(S) : S \in Cuts})
Ends == <>done
=============================================================================
