--------------------------------- MODULE Csp --------------------------------
(***************************************************************************)
(* C11, design level: the constrained best-first search of                  *)
(* iter_best_constraint.rs and a_star.rs (a priority queue of walks, no      *)
(* visited set, extensions pruned by Partial), on every graph over 1..N,     *)
(* with each list of constraints of Sets (all with a bound on the length,    *)
(* so that every run ends).  Any least element may be popped.                *)
(***************************************************************************)
EXTENDS Pruning
CONSTANTS N, L
VARIABLES g, t, want, queue, ans

cvars == <<g, t, want, queue, ans>>
Vs == 1..N
Es == Vs \X Vs
Single == {x \in Lit : x[1] \notin {"maxl"}} \cup
          {<<"xor", <<"cv", 2>>, <<"cc">>>>, <<"or", <<"ce", 1, 2>>, <<"mins", 2>>>>,
           <<"and", <<"cc">>, <<"not", <<"ce", 1, 1>>>>>>, <<"not", <<"or", <<"cv", 2>>, <<"maxs", 1>>>>>>}
Sets == {<< <<"maxl", L>>, x >> : x \in Single}
        \cup (IF Deep THEN {<< <<"maxl", L>>, x, y >> : x \in Single, y \in Single} ELSE {})

CInit == /\ g \in {[V |-> Vs, E |-> es] : es \in SUBSET Es}
         /\ t \in Vs /\ want \in Sets
         /\ queue = {<<1>>} /\ ans = "run"
         /\ c = <<>> /\ cs = <<>> /\ p = <<>> /\ sc = 0 /\ dead = FALSE
Score(q) == Len(q) - 1
PopIt == /\ ans = "run" /\ queue # {}
         /\ \E q \in queue :
              /\ \A x \in queue : Score(q) <= Score(x)
              /\ queue' = (queue \ {q}) \cup
                   {y \in {Append(q, v) : v \in (IF Flaw = "revisit" THEN Adj(g)[Last1(q)] \ Range(q) ELSE Adj(g)[Last1(q)])} :
                      \A i \in 1..Len(want) : Partial(want[i], y, Score(y))}
              /\ IF Last1(q) = t /\ \A i \in 1..Len(want) : Holds(want[i], q, Score(q))
                 THEN ans' = "found" /\ p' = q
                 ELSE UNCHANGED <<ans, p>>
         /\ UNCHANGED <<g, t, want, c, cs, sc, dead>>
GiveUp == /\ ans = "run" /\ queue = {} /\ ans' = "none" /\ UNCHANGED <<g, t, want, queue, c, cs, p, sc, dead>>
CNext == PopIt \/ GiveUp
CSpec == CInit /\ [][CNext]_<<cvars, c, cs, p, sc, dead>> /\ WF_<<cvars, c, cs, p, sc, dead>>(CNext)

Result == CASE ans = "found" -> [k |-> "ok", p |-> p, c |-> Score(p)]
            [] ans = "none"  -> [k |-> "none", p |-> <<>>, c |-> 0]
\* the contract the implementation's answers are checked against
Contract == ans # "run" =>
  CspOk(g, [s |-> 1, t |-> t, w |-> <<>>, cs |-> want, res |-> Result])
\* the summaries of walks in that contract against plain enumeration (the bound on the length is in want)
RECURSIVE WalksTo(_, _)
WalksTo(ws, k) == IF k = 1 THEN ws ELSE ws \cup WalksTo(UNION {{Append(q, v) : v \in Adj(g)[Last1(q)]} : q \in ws}, k - 1)
SummariesAgree == queue = {<<1>>} /\ ans = "run" =>
  LET good == {q \in WalksTo({<<1>>}, L) : Last1(q) = t /\ \A i \in 1..Len(want) : Holds(want[i], q, Score(q))}
  IN  /\ Satisfiable(g, UnitW(g), 1, t, want) = (good # {})
      /\ \A k \in 0..L : CheaperThan(g, UnitW(g), 1, t, want, k) = (\E q \in good : Score(q) < k)
Ends == <>(ans # "run")
=============================================================================
