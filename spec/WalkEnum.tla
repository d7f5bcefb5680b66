------------------------------ MODULE WalkEnum ------------------------------
(* C26, design level: the queue of walks of iter_best_constraint.rs, on every *)
(* graph over 1..N; what it has yielded is at any moment a list WalkList      *)
(* allows.                                                                    *)
EXTENDS Pruning, WalkList
CONSTANTS N, L, Weights
VARIABLES g, want, w, queue, out
wvars == <<g, want, w, queue, out>>
Vs == 1..N
Singles == {<<"cv", 2>>, <<"ce", 1, 2>>, <<"cc">>, <<"not", <<"cc">>>>, <<"not", <<"cv", 2>>>>, <<"ov", <<2, 1>>>>, <<"minl", 3>>,
            <<"mins", 2>>, <<"maxs", 1>>, <<"xor", <<"cv", 2>>, <<"cc">>>>, <<"not", <<"or", <<"cv", 2>>, <<"maxs", 0>>>>>>}
WInit == /\ g \in {[V |-> Vs, E |-> es] : es \in SUBSET (Vs \X Vs)}
         /\ w \in [g.E -> Weights]
         /\ want \in {<< <<"maxl", L>>, x >> : x \in Singles}
         /\ queue = {[p |-> <<1>>, c |-> 0, at |-> 0]} /\ out = <<>>
         /\ c = <<>> /\ cs = <<>> /\ p = <<>> /\ sc = 0 /\ dead = FALSE
Keep(q, s) == \A i \in 1..Len(want) : IF Flaw = "holds" THEN Holds(want[i], q, s) ELSE Partial(want[i], q, s)
WNext == /\ queue # {}
         /\ \E q \in queue :
              /\ \A x \in queue : Flaw = "any" \/ q.c <= x.c
              /\ out' = Append(out, q)
              /\ queue' = (queue \ {q}) \cup
                   {y \in {[p |-> Append(q.p, e[2]), c |-> q.c + w[e], at |-> Len(out) + 1] : e \in Out(g, Last1(q.p))} : Keep(y.p, y.c)}
         /\ UNCHANGED <<g, want, w, c, cs, p, sc, dead>>
WSpec == WInit /\ [][WNext]_<<wvars, c, cs, p, sc, dead>>
Listed == out # <<>> =>
  WalkListOk(g, [s |-> 1, cs |-> want, b |-> L, w |-> SetToSeq({<<e[1], e[2], w[e]>> : e \in g.E}),
                 res |-> [k |-> "ok", ws |-> [i \in 1..Len(out) |-> [p |-> out[i].p, c |-> out[i].c]],
                          par |-> [i \in 1..Len(out) |-> out[i].at], done |-> queue = {}]])
=============================================================================
