------------------------------ MODULE Pruning -------------------------------
(***************************************************************************)
(* C11, C12, C13, design level: a walk grows vertex by vertex and its score *)
(* never falls.  Partial is the pruning test of constraint.rs.              *)
(*   DeadStaysDead : once a prefix is pruned, no extension satisfies c      *)
(*   Unsat         : a contradictory list of constraints (module Constraints)*)
(*                   is satisfied by no walk at all                         *)
(***************************************************************************)
EXTENDS Constraints
CONSTANTS MaxLen, Deep,
          Flaw        \* "none"; "min": minima prune; "not": every negation prunes; "revisit": walks never revisit
VARIABLES c, cs, p, sc, dead

RECURSIVE Partial(_, _, _)
Partial(x, q, s) ==
  CASE x[1] \in {"cv", "ce", "cc", "minl", "mins"} -> (Flaw = "min" /\ x[1] \in {"minl", "mins"} => Holds(x, q, s))
    [] x[1] \in {"ov", "maxl", "maxs"} -> Holds(x, q, s)
    [] x[1] = "not" -> ((x[2][1] \in {"cv", "ce", "cc"} \/ Flaw = "not") => ~Holds(x[2], q, s))
    [] x[1] \in {"or", "xor"} -> Partial(x[2], q, s) \/ Partial(x[3], q, s)
    [] x[1] = "and" -> Partial(x[2], q, s) /\ Partial(x[3], q, s)

U == {1, 2, 3}
Atom == {<<"cv", 1>>, <<"cv", 2>>, <<"ce", 1, 2>>, <<"ce", 2, 1>>, <<"ce", 1, 1>>, <<"cc">>,
         <<"ov", <<1, 2>>>>, <<"ov", <<2, 3, 1>>>>, <<"ov", <<>>>>,
         <<"minl", 2>>, <<"minl", 3>>, <<"maxl", 0>>, <<"maxl", 2>>, <<"maxl", 3>>,
         <<"mins", 0>>, <<"mins", 2>>, <<"maxs", 0>>, <<"maxs", 1>>, <<"maxs", 2>>}
Not == {<<"not", a>> : a \in Atom}
Lit == Atom \cup Not
Pairs2 == {<<o, a, b>> : o \in {"or", "and", "xor"}, a \in Lit, b \in Lit}
Level2 == Pairs2 \cup {<<"not", x>> : x \in Pairs2} \cup {<<"not", x>> : x \in Not}
Pool == IF Deep THEN Lit \cup Level2 ELSE Lit \cup {x \in Level2 : x[1] = "not" \/ x[1] = "xor"}

\* either one constraint and pruning, or a contradictory list
Init == /\ p = <<>> /\ sc \in 0..1 /\ dead = FALSE
        /\ \/ c \in Pool /\ cs = <<>>
           \/ /\ c = <<"minl", 0>>
              /\ cs \in {q \in UNION {[1..k -> Lit] : k \in 2..(IF Deep THEN 3 ELSE 2)} : Contradictory(q)}
Next == /\ Len(p) < MaxLen
        /\ \E u \in U, d \in 0..1 : p' = Append(p, u) /\ sc' = sc + d
        /\ dead' = (dead \/ ~Partial(c, p', sc'))
        /\ UNCHANGED <<c, cs>>
Spec == Init /\ [][Next]_<<c, cs, p, sc, dead>>

DeadStaysDead == dead => ~Holds(c, p, sc)
Unsat == cs # <<>> => \E i \in 1..Len(cs) : ~Holds(cs[i], p, sc)
=============================================================================
