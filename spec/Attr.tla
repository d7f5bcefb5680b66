-------------------------------- MODULE Attr --------------------------------
(***************************************************************************)
(* C18.  An attribute mapping of one kind ("v" vertices, "e" edges) is a    *)
(* set of (key, value) pairs with unique keys.  Commands:                   *)
(*   <<0, v, x>> set vertex attribute    <<1, a, b, x>> set edge attribute  *)
(*   <<2, v>>    remove vertex attribute <<3, a, b>>    remove edge attr.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CmdKind(c) == IF c[1] \in {0, 2} THEN "v" ELSE "e"
IsSet(c) == c[1] \in {0, 1}
Key(c)   == IF CmdKind(c) = "v" THEN <<c[2]>> ELSE <<c[2], c[3]>>
Val(c)   == c[Len(c)]
Without(m, k) == {p \in m : p[1] # k}
AHas(m, k) == \E p \in m : p[1] = k

AApply(kind, m, c) ==
  IF CmdKind(c) # kind THEN m
  ELSE IF IsSet(c) THEN Without(m, Key(c)) \cup {<<Key(c), Val(c)>>}
  ELSE Without(m, Key(c))
\* what the command reports
Reports(kind, m, c) ==
  IF CmdKind(c) # kind THEN FALSE ELSE IF IsSet(c) THEN TRUE ELSE AHas(m, Key(c))
RECURSIVE AApplyAll(_, _, _, _)
AApplyAll(kind, m, cs, i) ==
  IF i > Len(cs) THEN m ELSE AApplyAll(kind, AApply(kind, m, cs[i]), cs, i + 1)
RECURSIVE AReports(_, _, _, _)
AReports(kind, m, cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE <<Reports(kind, m, cs[i])>> \o AReports(kind, AApply(kind, m, cs[i]), cs, i + 1)

\* the last command of the history that concerns key k says what it maps to
LastSays(kind, h, m) ==
  \A k \in {Key(h[i]) : i \in {j \in 1..Len(h) : CmdKind(h[j]) = kind}} :
    LET last == CHOOSE i \in 1..Len(h) :
                  /\ CmdKind(h[i]) = kind /\ Key(h[i]) = k
                  /\ \A j \in (i + 1)..Len(h) : CmdKind(h[j]) # kind \/ Key(h[j]) # k
    IN  IF IsSet(h[last]) THEN {p \in m : p[1] = k} = {<<k, Val(h[last])>>} ELSE ~AHas(m, k)
=============================================================================
