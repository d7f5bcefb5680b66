------------------------------- MODULE Cycles -------------------------------
(* C08: enumeration of the elementary cycles and the answers derived from it.*)
EXTENDS Graphs

Sources(g) == {v \in g.V : \A e \in g.E : e[2] # v}
(* Known finding K2: the enumeration starts from the vertices without inbound *)
(* edge when there are some; cycles not reachable from them are not reported  *)
(* (pinned by the repository's own test).                                     *)
Enumerable(g, all) ==
  LET z == Sources(g)
  IN  IF z = {} THEN all
      ELSE LET r == ReachSet(Adj(g), z, z) IN {c \in all : c[1] \in r}

Lens(S) == {Len(c) : c \in S}
FirstOk(S, c)  == IF S = {} THEN c = <<>> ELSE c \in S
TakeOk(S, n, q) == /\ Len(q) = Min({n, Cardinality(S)})
                   /\ Cardinality(Range(q)) = Len(q) /\ Range(q) \subseteq S
GirthOk(S, n)  == n = IF S = {} THEN 0 ELSE Min(Lens(S))
ShortOk(S, c)  == IF S = {} THEN c = <<>> ELSE c \in S /\ Len(c) = Min(Lens(S))
LongOk(S, c)   == IF S = {} THEN c = <<>> ELSE c \in S /\ Len(c) = Max(Lens(S))
HamOk(g, S, c) == LET H == {x \in S : Len(x) = Cardinality(g.V)}
                  IN  IF H = {} THEN c = <<>> ELSE c \in H

Derived(g, S, r) ==
  /\ FirstOk(S, r.first) /\ r.count = Cardinality(S) /\ TakeOk(S, r.n, r.take)
  /\ Lists(r.takeall, S) /\ GirthOk(S, r.girth)
  /\ ShortOk(S, r.short) /\ LongOk(S, r.long) /\ HamOk(g, S, r.ham)

CyclesOk(g, r) ==
  /\ r.k = "ok"
  /\ LET all == ElemCycles(g)
         must == Enumerable(g, all)
         got == Range(r.all)
     IN  /\ Cardinality(got) = Len(r.all)
         /\ got \subseteq all
         /\ must \subseteq got
         /\ (Derived(g, must, r) \/ (must # all /\ Derived(g, all, r)))
         /\ (got # all => PrintT("KNOWN-FINDING:K2"))
=============================================================================
