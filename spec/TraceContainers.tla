-------------------------- MODULE TraceContainers ---------------------------
(* C21: recorded sessions on one container.  "pushes"/"pops" are runs of       *)
(* pushes and of pops recorded as one event (sessions with many elements).     *)
EXTENDS Containers, TraceCore
VARIABLES kind, q
Take(s, n) == SubSeq(s, 1, n)
\* xs, taken from the content q in one go, is what a run of pops may give; rest is what stays
PopRun(k, c, xs, rest) ==
  LET m == Len(xs) IN
  CASE k = "stack" -> xs = Reverse(SubSeq(c, Len(c) - m + 1, Len(c)))
    [] k = "queue" -> xs = Take(c, m)
    [] OTHER ->
       \E all \in {Range(c)} :                   \* elements are distinct in these sessions
           /\ Cardinality(all) = Len(c)
           /\ Len(rest) + m = Len(c)
           /\ \A i \in 1..m : xs[i] \in all
           /\ \A i \in 1..(m - 1) : IF k = "max" THEN xs[i][1] >= xs[i + 1][1] ELSE xs[i][1] <= xs[i + 1][1]
           /\ m > 0 => LET x == xs[m][1] IN
                       \A i \in 1..Len(rest) : IF k = "max" THEN rest[i][1] <= x ELSE rest[i][1] >= x
Rest(k, c, xs) ==
  LET m == Len(xs) IN
  CASE k = "stack" -> Take(c, Len(c) - m)
    [] k = "queue" -> SubSeq(c, m + 1, Len(c))
    [] OTHER -> LET R(got) == IF Cardinality(got) = m THEN SelectSeq(c, LAMBDA x : x \notin got) ELSE c
                IN  CHOOSE r \in {R(got) : got \in {Range(xs)}} : TRUE
Do(e) ==
  \/ e.op = "new" /\ kind' = e.kind /\ q' = <<>>
  \/ e.op = "push" /\ e.res.k = "ok" /\ q' = Append(q, e.x) /\ UNCHANGED kind
  \/ e.op = "pushes" /\ e.res.k = "ok" /\ q' = q \o e.xs /\ UNCHANGED kind
  \/ e.op = "pop" /\ e.res.k = "none" /\ q = <<>> /\ UNCHANGED <<kind, q>>
  \/ /\ e.op = "pop" /\ e.res.k = "some"
     /\ \E i \in MayPop(kind, q) : q[i] = e.res.x
     /\ q' = DropAt(q, CHOOSE i \in MayPop(kind, q) : q[i] = e.res.x)
     /\ UNCHANGED kind
  \/ /\ e.op = "pops" /\ e.res.k = "ok"
     /\ Len(e.res.xs) = (IF e.n <= Len(q) THEN e.n ELSE Len(q))
     /\ \E rest \in {Rest(kind, q, e.res.xs)} : PopRun(kind, q, e.res.xs, rest) /\ q' = rest
     /\ UNCHANGED kind
Init == TInit /\ kind = "" /\ q = <<>>
Next == \/ More /\ Do(Event) /\ Consume
        \/ ~More /\ UNCHANGED <<kind, q, sid, l>>
Spec == Init /\ [][Next]_<<kind, q, sid, l>>
=============================================================================
