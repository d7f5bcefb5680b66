-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tools over one graph directory.                         *)
(* State: ex (a graph is there), g (its content), lk (a lock file is there),*)
(* bad (its file cannot be read as commands).                               *)
(* The meaning of each option is spelt out as graph commands / constraints. *)
(***************************************************************************)
EXTENDS Topo, Cycles, Constraints

Pairs(q)  == [i \in 1..(Len(q) \div 2) |-> <<q[2 * i - 1], q[2 * i]>>]
ChainE(q) == [i \in 1..(Len(q) - 1) |-> <<q[i], q[i + 1]>>]
CycleE(q) == ChainE(Append(q, q[1]))
StarE(q)  == [i \in 1..(Len(q) - 1) |-> <<q[1], q[i + 1]>>]
CliqueE(q) == SetToSeq({<<a, b>> \in Range(q) \X Range(q) : a # b})
OptEdges(o) == CASE o[1] = "edge"   -> Pairs(o[2])
                 [] o[1] = "chain"  -> ChainE(o[2])
                 [] o[1] = "cycle"  -> CycleE(o[2])
                 [] o[1] = "star"   -> StarE(o[2])
                 [] o[1] = "clique" -> CliqueE(o[2])
                 [] OTHER -> <<>>
RECURSIVE FlatMap(_, _, _)
FlatMap(F(_), q, i) == IF i > Len(q) THEN <<>> ELSE F(q[i]) \o FlatMap(F, q, i + 1)

\* the graph commands an invocation of gc-add / gc-delete stands for
AddCmds(opts, rev) ==
  FlatMap(LAMBDA o : IF o[1] = "vertex" THEN [i \in 1..Len(o[2]) |-> <<0, o[2][i]>>]
                     ELSE LET es == OptEdges(o)
                          IN  [i \in 1..Len(es) |-> IF rev THEN <<1, es[i][2], es[i][1]>>
                                                    ELSE <<1, es[i][1], es[i][2]>>], opts, 1)
DelCmds(opts) ==
  FlatMap(LAMBDA o : IF o[1] = "vertex" THEN [i \in 1..Len(o[2]) |-> <<2, o[2][i]>>]
                     ELSE LET es == Pairs(o[2])
                          IN  [i \in 1..Len(es) |-> <<3, es[i][1], es[i][2]>>], opts, 1)

(* ---- the modifying tools: state st = [ex, g, lk]; each invocation e leads to *)
(* exactly one state, with one of the given kinds of exit status (0; 1: any      *)
(* other).  A command either does its work and says so, or fails and changes     *)
(* nothing.                                                                      *)
Yes(e) == e.conf \in {"force", "yes", "y"}
Ready(st) == st.ex /\ ~st.lk
Outcome(rc, st) == [rc |-> rc, st |-> st]
\* commands may be added to a damaged file: it stays damaged
Modify(st, gnew) == IF ~Ready(st) THEN Outcome({1}, st)
                    ELSE IF st.bad THEN Outcome({0, 1}, st)
                    ELSE Outcome({0}, [st EXCEPT !.g = gnew])
Gone(st) == [st EXCEPT !.ex = FALSE, !.g = EmptyGraph, !.bad = FALSE]
Post(st, e) ==
  CASE e.op = "init"  -> Outcome(IF st.bad THEN {0, 1} ELSE {0}, IF st.ex THEN st ELSE [st EXCEPT !.ex = TRUE, !.g = EmptyGraph])
    [] e.op = "add"   -> Modify(st, ApplyAll(st.g, AddCmds(e.opts, e.rev)))
    [] e.op = "del"   -> Modify(st, ApplyAll(st.g, DelCmds(e.opts)))
    \* compaction has to read the whole graph first
    [] e.op = "build" -> IF st.bad THEN Outcome({1}, st) ELSE Modify(st, st.g)
    [] e.op = "clean" -> IF ~Yes(e) THEN Outcome({0, 1}, st)
                         ELSE IF Ready(st) THEN Outcome({0}, Gone(st))
                         ELSE Outcome({1}, st)
    \* not tools: somebody else takes / releases the lock
    [] e.op = "lock"   -> Outcome({0}, [st EXCEPT !.lk = TRUE])
    [] e.op = "unlock" -> Outcome({0}, [st EXCEPT !.lk = FALSE])
    \* the file of the graph gets a line that is no command, or can no longer be read
    [] e.op = "spoil"  -> Outcome({0}, [st EXCEPT !.bad = TRUE])
Posted == {"spoil", "init", "add", "del", "build", "clean", "lock", "unlock"}

\* the constraints an invocation of gc-csp stands for
CspCs(opts) ==
  FlatMap(LAMBDA o :
    CASE o[1] = "include" -> [i \in 1..Len(o[2]) |-> <<"cv", o[2][i]>>]
      [] o[1] = "exclude" -> [i \in 1..Len(o[2]) |-> <<"not", <<"cv", o[2][i]>>>>]
      [] o[1] = "ordered" -> << <<"ov", o[2]>> >>
      [] o[1] = "include-cycle" -> << <<"cc">> >>
      [] o[1] = "no-cycle" -> << <<"not", <<"cc">>>> >>
      [] o[1] = "min-length" -> << <<"minl", o[2][1]>> >>
      [] o[1] = "max-length" -> << <<"maxl", o[2][1]>> >>
      [] o[1] = "exact-length" -> << <<"minl", o[2][1]>>, <<"maxl", o[2][1]>> >>
      [] o[1] = "min-score" -> << <<"mins", o[2][1]>> >>
      [] o[1] = "max-score" -> << <<"maxs", o[2][1]>> >>
      [] o[1] = "exact-score" -> << <<"mins", o[2][1]>>, <<"maxs", o[2][1]>> >>, opts, 1)

\* does cycle c satisfy option o of gc-cycle?  length = score = number of vertices
CycEdges(c) == EdgesOf(Append(c, c[1]))
CycOpt(o, c) ==
  CASE o[1] \in {"min-length", "min-score"} -> Len(c) >= o[2][1]
    [] o[1] \in {"max-length", "max-score"} -> Len(c) <= o[2][1]
    [] o[1] \in {"exact-length", "exact-score"} -> Len(c) = o[2][1]
    [] o[1] = "include-all" -> Range(o[2]) \subseteq Range(c)
    [] o[1] = "exclude-all" -> Range(o[2]) \cap Range(c) = {}
    [] o[1] = "include-all-edges" -> Range(Pairs(o[2])) \subseteq CycEdges(c)
    [] o[1] = "exclude-all-edges" -> Range(Pairs(o[2])) \cap CycEdges(c) = {}
CycSel(S, opts) == {c \in S : \A i \in 1..Len(opts) : CycOpt(opts[i], c)}

\* r.cs: cycles printed, r.n: a number printed (count or girth; 0: infinity)
CycAnswer(gr, S, sel, act, n, r) ==
  CASE act = "all"      -> Lists(r.cs, sel)
    [] act = "head"     -> TakeOk(sel, 1, r.cs)
    [] act = "take-n"   -> TakeOk(sel, n, r.cs)
    [] act = "count"    -> r.n = Cardinality(sel)
    [] act = "girth"    -> GirthOk(S, r.n)
    [] act = "shortest" -> Len(r.cs) <= 1 /\ ShortOk(sel, IF r.cs = <<>> THEN <<>> ELSE r.cs[1])
    [] act = "longest"  -> Len(r.cs) <= 1 /\ LongOk(sel, IF r.cs = <<>> THEN <<>> ELSE r.cs[1])
    [] act = "hamiltonian" -> Len(r.cs) <= 1 /\ HamOk(gr, S, IF r.cs = <<>> THEN <<>> ELSE r.cs[1])
CycToolOk(gr, e) ==
  LET all == ElemCycles(gr)
      must == Enumerable(gr, all)
      ok(S) == CycAnswer(gr, S, CycSel(S, e.opts), e.act, e.n, e.res)
  IN  /\ e.res.k = "ok"
      /\ \/ ok(all)
         \/ must # all /\ ok(must) /\ PrintT("KNOWN-FINDING:K2")

(* ---- statistics                                                           *)
DescOk(gr, r) ==
  /\ r.k = "ok"
  /\ r.vc = Cardinality(gr.V) /\ r.ec = Cardinality(gr.E)
  /\ IF gr.V = {} THEN r.mn = 0 /\ r.mx = 0
     ELSE r.mn = Min(gr.V) /\ r.mx = Max(gr.V)

(* ---- gc-random: vertices 1..n, edges from lower to higher ids more than a  *)
(* tenth of n apart, at least m of them if that many fit                      *)
RandOk(n, m, gr) ==
  LET gap == n \div 10
      span == IF n > gap + 1 THEN n - gap - 1 ELSE 0
      fit == (span * (span + 1)) \div 2
  IN  /\ IsGraph(gr)
      /\ Cardinality(gr.V) = n
      /\ Acyclic(gr)
      /\ Cardinality(gr.E) >= Min({m, fit})
      /\ \A x \in gr.E : x[2] - x[1] > gap \/ x[1] - x[2] > gap
=============================================================================
