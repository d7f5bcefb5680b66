---------------------------- MODULE Constraints -----------------------------
(* C11, C12, C13: constraints on scored paths.  A constraint is a tuple:      *)
(*   <<"cv", v>> contains vertex       <<"ce", a, b>> contains edge           *)
(*   <<"ov", q>> ordered vertices      <<"cc">> contains a cycle              *)
(*   <<"minl", n>> <<"maxl", n>> number of vertices                           *)
(*   <<"mins", n>> <<"maxs", n>> score                                        *)
(*   <<"or", c, d>> <<"xor", c, d>> <<"and", c, d>> <<"not", c>>              *)
EXTENDS Sssp

OrderedOk(p, q) ==
  LET ix == [v \in Range(q) |-> CHOOSE i \in 1..Len(q) : q[i] = v]
      occ == SelectSeq(p, LAMBDA v : v \in Range(q))
  IN  \A i \in 1..(Len(occ) - 1) : ix[occ[i]] <= ix[occ[i + 1]]

RECURSIVE Holds(_, _, _)
Holds(c, p, sc) ==
  CASE c[1] = "cv"   -> c[2] \in Range(p)
    [] c[1] = "ce"   -> <<c[2], c[3]>> \in EdgesOf(p)
    [] c[1] = "ov"   -> OrderedOk(p, c[2])
    [] c[1] = "cc"   -> ~NoRep(p)
    [] c[1] = "minl" -> Len(p) >= c[2]
    [] c[1] = "maxl" -> Len(p) <= c[2]
    [] c[1] = "mins" -> sc >= c[2]
    [] c[1] = "maxs" -> sc <= c[2]
    [] c[1] = "or"   -> Holds(c[2], p, sc) \/ Holds(c[3], p, sc)
    [] c[1] = "and"  -> Holds(c[2], p, sc) /\ Holds(c[3], p, sc)
    [] c[1] = "xor"  -> Holds(c[2], p, sc) # Holds(c[3], p, sc)
    [] c[1] = "not"  -> ~Holds(c[2], p, sc)

RECURSIVE Atoms(_)
Atoms(c) == CASE c[1] \in {"or", "and", "xor"} -> Atoms(c[2]) \cup Atoms(c[3])
              [] c[1] = "not" -> Atoms(c[2])
              [] OTHER -> {c}

\* the same on a summary z of a path: what the constraints can tell apart
RECURSIVE HoldsZ(_, _)
HoldsZ(c, z) ==
  CASE c[1] = "cv"   -> c[2] \in z.seen
    [] c[1] = "ce"   -> <<c[2], c[3]>> \in z.es
    [] c[1] = "ov"   -> z.ord[c[2]] >= 0
    [] c[1] = "cc"   -> z.cyc
    [] c[1] = "minl" -> z.len >= c[2]
    [] c[1] = "maxl" -> z.len <= c[2]
    [] c[1] = "mins" -> z.sc >= c[2]
    [] c[1] = "maxs" -> z.sc <= c[2]
    [] c[1] = "or"   -> HoldsZ(c[2], z) \/ HoldsZ(c[3], z)
    [] c[1] = "and"  -> HoldsZ(c[2], z) /\ HoldsZ(c[3], z)
    [] c[1] = "xor"  -> HoldsZ(c[2], z) # HoldsZ(c[3], z)
    [] c[1] = "not"  -> ~HoldsZ(c[2], z)

(* ---- pruning is sound: false only if no extension can satisfy c            *)
RECURSIVE AtomScores(_)
AtomScores(c) ==
  CASE c[1] \in {"mins", "maxs"} -> {c[2] - 1, c[2], c[2] + 1}
    [] c[1] \in {"or", "and", "xor"} -> AtomScores(c[2]) \cup AtomScores(c[3])
    [] c[1] = "not" -> AtomScores(c[2])
    [] OTHER -> {}
RECURSIVE AtomLens(_)
AtomLens(c) ==
  CASE c[1] \in {"minl", "maxl"} -> {c[2] - 1, c[2], c[2] + 1}
    [] c[1] \in {"or", "and", "xor"} -> AtomLens(c[2]) \cup AtomLens(c[3])
    [] c[1] = "not" -> AtomLens(c[2])
    [] OTHER -> {}
\* the largest length and score there are (stand for the largest values of the machine types)
TopLen == 1000000
TopScore == 1000
\* an extension: up to k vertices of U, then any number of fresh ones (only the length tells)
RECURSIVE ExtSat(_, _, _, _, _, _)
ExtSat(c, p, scores, lens, U, k) ==
  \/ LET z == [seen |-> Range(p), cyc |-> ~NoRep(p), es |-> EdgesOf(p),
               ord |-> [q \in {a[2] : a \in {x \in Atoms(c) : x[1] = "ov"}} |-> IF OrderedOk(p, q) THEN 0 ELSE -1]]
     IN  \E s \in scores, n \in {Len(p)} \cup {m \in lens : m >= Len(p)} :
           HoldsZ(c, [seen |-> z.seen, cyc |-> z.cyc, es |-> z.es, ord |-> z.ord, len |-> n, sc |-> s])
  \/ k > 0 /\ \E u \in U : ExtSat(c, Append(p, u), scores, lens, U, k - 1)

\* U: vertices an extension may use; k: how many may be appended (bounded witness search)
ConOk(e, U, k) ==
  LET r == e.res
      scores == {s \in {e.sc} \cup AtomScores(e.c) : s >= e.sc /\ s <= TopScore}
      lens == {n \in AtomLens(e.c) : n <= TopLen}
  IN  /\ r.k = "ok"
      /\ r.full = Holds(e.c, e.p, e.sc)
      /\ (~r.part => ~ExtSat(e.c, e.p, scores, lens, U, k))

(* ---- the observers of a path p, and of p with vertex v appended             *)
PathViewOk(p, r) ==
  /\ r.vs = p
  /\ r.es = [i \in 1..(IF p = <<>> THEN 0 ELSE Len(p) - 1) |-> <<p[i], p[i + 1]>>]
  /\ r.size = Len(p) /\ r.empty = (p = <<>>)
  /\ r.first = (IF p = <<>> THEN 0 ELSE p[1]) /\ r.last = (IF p = <<>> THEN 0 ELSE p[Len(p)])
  /\ r.cyc = ~NoRep(p)
  /\ \A i \in 1..Len(r.hasv) : r.hasv[i][2] = (r.hasv[i][1] \in Range(p))
  /\ \A i \in 1..Len(r.hase) : r.hase[i][3] = (<<r.hase[i][1], r.hase[i][2]>> \in EdgesOf(p))
PathOk(e) == e.res.k = "ok" /\ PathViewOk(e.p, e.res.a) /\ PathViewOk(Append(e.p, e.v), e.res.b)

(* ---- C13: the validator                                                    *)
Tops(cs) == {cs[i] : i \in 1..Len(cs)}
Count(cs, k) == Cardinality({i \in 1..Len(cs) : cs[i][1] = k})
Bounds(cs, k) == {cs[i][2] : i \in {j \in 1..Len(cs) : cs[j][1] = k}}
HasTop(cs, k) == \E i \in 1..Len(cs) : cs[i][1] = k
NotIx(cs, k) == {i \in 1..Len(cs) : cs[i][1] = "not" /\ cs[i][2][1] = k}
ReqV(cs) == {cs[i][2] : i \in {j \in 1..Len(cs) : cs[j][1] \in {"cv", "ce"}}}
            \cup {cs[i][3] : i \in {j \in 1..Len(cs) : cs[j][1] = "ce"}}
ExcV(cs) == {cs[i][2][2] : i \in NotIx(cs, "cv")}
ReqE(cs) == {<<cs[i][2], cs[i][3]>> : i \in {j \in 1..Len(cs) : cs[j][1] = "ce"}}
ExcE(cs) == {<<cs[i][2][2], cs[i][2][3]>> : i \in NotIx(cs, "ce")}
Contradictory(cs) ==
  \/ ReqV(cs) \cap ExcV(cs) # {}
  \/ ReqE(cs) \cap ExcE(cs) # {}
  \/ HasTop(cs, "cc") /\ NotIx(cs, "cc") # {}
  \/ \E a \in Bounds(cs, "minl"), b \in Bounds(cs, "maxl") : a > b
  \/ \E a \in Bounds(cs, "mins"), b \in Bounds(cs, "maxs") : a > b
Duplicated(cs) == \E k \in {"minl", "maxl", "mins", "maxs"} : Count(cs, k) > 1
ValidOk(e) == e.res.k = "ok" /\ e.res.b = ~(Contradictory(e.cs) \/ Duplicated(e.cs))

(* ---- C11: cheapest walk meeting all constraints.  A walk is summarised by   *)
(* what the constraints can tell apart.                                       *)
AtomsOf(cs) == UNION {Atoms(cs[i]) : i \in 1..Len(cs)}

\* what the constraints can tell apart: visited vertices matter only if some constraint names
\* them, or, as long as no vertex repeats, if some constraint asks for a repetition
TellsCyc(A) == \E a \in A : a[1] = "cc"
Named(A) == {a[2] : a \in {x \in A : x[1] = "cv"}}
Seen(A, cyc, vs) == IF TellsCyc(A) /\ ~cyc THEN vs ELSE vs \cap Named(A)

Step1(A, W, Lcap, Scap, z, e) ==   \* z extended along edge e
  LET w == e[2]
      cyc == TellsCyc(A) /\ (z.cyc \/ w \in z.seen)
  IN  [v |-> w, seen |-> Seen(A, cyc, z.seen \cup {w}), cyc |-> cyc,
       es |-> IF \E a \in A : a[1] = "ce" /\ a[2] = e[1] /\ a[3] = e[2] THEN z.es \cup {e} ELSE z.es,
       ord |-> [q \in DOMAIN z.ord |->
                  LET i == IF w \in Range(q) THEN CHOOSE j \in 1..Len(q) : q[j] = w ELSE 0
                  IN  IF z.ord[q] < 0 THEN -1
                      ELSE IF i = 0 THEN z.ord[q]
                      ELSE IF i < z.ord[q] THEN -1 ELSE i],
       len |-> Min({z.len + 1, Lcap}), sc |-> Min({z.sc + W[e], Scap})]

Start1(A, s) ==
  LET Q == {a[2] : a \in {x \in A : x[1] = "ov"}}
  IN  [v |-> s, seen |-> Seen(A, FALSE, {s}), cyc |-> FALSE, es |-> {},
       ord |-> [q \in Q |-> IF s \in Range(q) THEN CHOOSE j \in 1..Len(q) : q[j] = s ELSE 0],
       len |-> 1, sc |-> 0]

\* a constraint of the list is broken for good (what these forbid, no extension undoes)
Broken(c, z) ==
  \/ c[1] \in {"maxl", "maxs", "ov"} /\ ~HoldsZ(c, z)
  \/ c[1] = "not" /\ c[2][1] \in {"cv", "ce", "cc"} /\ ~HoldsZ(c, z)

RECURSIVE Explore(_, _, _, _, _, _, _, _)
\* all summaries of walks that extend those of front
Explore(OutE, A, W, cs, Lcap, Scap, known, front) ==
  LET nxt == {z \in (UNION {{Step1(A, W, Lcap, Scap, z, e) : e \in OutE[z.v]} : z \in front}) \ known :
                \A i \in 1..Len(cs) : ~Broken(cs[i], z)}
  IN  IF nxt = {} THEN known ELSE Explore(OutE, A, W, cs, Lcap, Scap, known \cup nxt, nxt)

CapOver(A, ks, least) == 1 + Max({least} \cup {a[2] : a \in {x \in A : x[1] \in ks}})

\* summaries of all walks that may still become good ones; scores at or above Lim are merged
WalkSummaries(g, W, s, cs, Lim) ==
  LET OutE == [v \in g.V |-> Out(g, v)]
      A == AtomsOf(cs)
      Lcap == CapOver(A, {"minl", "maxl"}, 1)
      z0 == Start1(A, s)
  IN  Explore(OutE, A, W, cs, Lcap, Lim, {z0}, {z0})

Good(cs, t, z) == z.v = t /\ \A i \in 1..Len(cs) : HoldsZ(cs[i], z)
\* is there a satisfying walk at all?
Satisfiable(g, W, s, t, cs) ==
  \E z \in WalkSummaries(g, W, s, cs, CapOver(AtomsOf(cs), {"mins", "maxs"}, 0) + 1) : Good(cs, t, z)
\* ... cheaper than c (score thresholds beyond c cannot matter for those)
CheaperThan(g, W, s, t, cs, c) ==
  \E z \in WalkSummaries(g, W, s, <<<<"maxs", c - 1>>>> \o cs, c) : z.sc < c /\ Good(cs, t, z)

(* Known finding K1: an unsatisfiable query without a bound on the walks       *)
(* (max length, max score, no cycle) need not terminate if a cycle can be      *)
(* reached.                                                                    *)
Bounding(c) == c[1] \in {"maxl", "maxs"} \/ (c[1] = "not" /\ c[2][1] = "cc")
MayDiverge(g, s, cs) ==
  /\ \A i \in 1..Len(cs) : ~Bounding(cs[i])
  /\ LET R == Reach(g, s)
     IN  ~Acyclic([V |-> R, E |-> {e \in g.E : e[1] \in R}])

CspOk(g, e) ==
  LET r == e.res
      W == IF e.w = <<>> THEN UnitW(g) ELSE WFun(g, e.w)
  IN  CASE r.k = "ok"   -> /\ IsWalk(g, r.p) /\ r.p[1] = e.s /\ Last1(r.p) = e.t
                           /\ PathWeight(W, r.p) = r.c
                           /\ \A i \in 1..Len(e.cs) : Holds(e.cs[i], r.p, r.c)
                           /\ ~CheaperThan(g, W, e.s, e.t, e.cs, r.c)
        [] r.k = "none" -> ~Satisfiable(g, W, e.s, e.t, e.cs)
        [] r.k = "budget" -> /\ MayDiverge(g, e.s, e.cs)
                             /\ ~Satisfiable(g, W, e.s, e.t, e.cs)
                             /\ PrintT("KNOWN-FINDING:K1")
        [] OTHER -> FALSE
=============================================================================
