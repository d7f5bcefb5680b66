------------------------------ MODULE WalkList ------------------------------
(* C26: what the constrained best-first iterator may yield.  ws is the list   *)
(* of scored walks [p, c] so far, par[i] the position of the walk that walk i *)
(* extends (a hint, verified), done whether the iterator has ended, b up to   *)
(* which length walks are looked for that meet all constraints.               *)
EXTENDS Constraints
RECURSIVE WalksFrom(_, _, _)
WalksFrom(A, ws, k) == IF k <= 1 \/ ws = {} THEN ws
                       ELSE ws \cup WalksFrom(A, UNION {{Append(q, v) : v \in A[Last1(q)]} : q \in ws}, k - 1)
PrefixesOf(Q) == UNION {{SubSeq(q, 1, k) : k \in 1..Len(q)} : q \in Q}
\* walks that lead to one that meets all constraints
Needed(gr, W, s, cs, b) ==
  PrefixesOf({q \in WalksFrom([v \in gr.V |-> Adj(gr)[v]], {<<s>>}, b) :
              \A i \in 1..Len(cs) : Holds(cs[i], q, PathWeight(W, q))})
WalkListOk(gr, e) ==
  LET ws == e.res.ws
      par == e.res.par
      n == Len(ws)
      W == WFun(gr, e.w)
      P == {ws[i].p : i \in 1..n}
      need == Needed(gr, W, e.s, e.cs, e.b) \ P
  IN  /\ e.res.k = "ok" /\ n >= 1 /\ ws[1].p = <<e.s>> /\ Cardinality(P) = n
      \* each is a walk from the start, one step longer than an earlier one, with its score
      /\ \A i \in 1..n : /\ IsWalk(gr, ws[i].p) /\ ws[i].c = PathWeight(W, ws[i].p)
                         /\ i > 1 => /\ par[i] \in 1..(i - 1)
                                     /\ ws[par[i]].p = SubSeq(ws[i].p, 1, Len(ws[i].p) - 1)
      \* best first: nothing that was waiting has a smaller score
      /\ \A i \in 1..n : \A j \in (i + 1)..n : par[j] < i => ws[i].c <= ws[j].c
      \* nothing beyond a bound, except the start itself
      /\ \A i \in 2..n : \A k \in 1..Len(e.cs) : Bounding(e.cs[k]) => Holds(e.cs[k], ws[i].p, ws[i].c)
      \* nothing that leads to a walk meeting all constraints is left out: it is still waiting
      /\ \A q \in need : LET f == SubSeq(q, 1, Len(q) - 1) IN
            f \in P => /\ ~e.res.done
                       /\ \E i \in 1..n : ws[i].p = f /\ \A j \in (i + 1)..n : ws[j].c <= PathWeight(W, q)
=============================================================================
