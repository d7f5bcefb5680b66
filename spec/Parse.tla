------------------------------- MODULE Parse --------------------------------
(***************************************************************************)
(* C04.  The two graph file formats, character by character.  A line is a   *)
(* sequence of code points (-1: a byte sequence that is not UTF-8).  For    *)
(* each line the specification gives the set of allowed outcomes:           *)
(*   <<"skip">>, <<"err">>, or a command <<kind, id>> / <<kind, id, id>>    *)
(* where an id is its sequence of decimal digits without leading zeros.     *)
(* Lines spelt canonically have one outcome.  Where the formats leave       *)
(* leeway (extra white space, leading zeros) reading the command the line   *)
(* spells and rejecting it are both allowed, misreading it is not.          *)
(***************************************************************************)
EXTENDS Graphs

Bad == -1
IsDigit(c) == c \in 48..57
OtherDigit(c) == c \in 1632..1641 \/ c \in 2406..2415 \/ c \in 65296..65305
AnyDigit(c) == IsDigit(c) \/ OtherDigit(c)
IsSpace(c) == c \in {9, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202

From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE SkipSp(_), SpanDigits(_, _), SpanWord(_, _)
SkipSp(s) == IF s # <<>> /\ IsSpace(s[1]) THEN SkipSp(Tail(s)) ELSE s
\* length of the longest prefix made of digits (of any script) / of non-spaces
SpanDigits(s, i) == IF i < Len(s) /\ AnyDigit(s[i + 1]) THEN SpanDigits(s, i + 1) ELSE i
SpanWord(s, i) == IF i < Len(s) /\ ~IsSpace(s[i + 1]) THEN SpanWord(s, i + 1) ELSE i
RECURSIVE Words(_)
Words(s) == LET t == SkipSp(s)
                n == SpanWord(t, 0)
            IN  IF t = <<>> THEN <<>> ELSE <<SubSeq(t, 1, n)>> \o Words(From(t, n + 1))

(* ---- ids: at most 2^64 - 1                                               *)
MaxId == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
RECURSIVE Strip0(_), LexLe(_, _)
Strip0(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip0(Tail(d)) ELSE d
LexLe(a, b) == IF a = <<>> THEN TRUE
               ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLe(Tail(a), Tail(b)))
AllDigits(w) == w # <<>> /\ \A i \in 1..Len(w) : IsDigit(w[i])
Id(w) == Strip0([i \in 1..Len(w) |-> w[i] - 48])
InRange(d) == Len(d) < 20 \/ (Len(d) = 20 /\ LexLe(d, MaxId))
IsId(w) == AllDigits(w) /\ InRange(Id(w))
Canonical(w) == Len(Id(w)) = Len(w)
\* a number with an explicit plus sign: understood or rejected
Unsigned(w) == IF Len(w) > 1 /\ w[1] = 43 THEN Tail(w) ELSE w

Err == {<<"err">>}
Skip == {<<"skip">>}
Blank(s) == \A i \in 1..Len(s) : IsSpace(s[i])
Comment(s) == LET t == SkipSp(s) IN t # <<>> /\ t[1] = 35
HasBad(s) == \E i \in 1..Len(s) : s[i] = Bad

(* ---- gcmd                                                                *)
KwAV == <<65,100,100,86,101,114,116,101,120>>
KwAE == <<65,100,100,69,100,103,101>>
KwRV == <<82,101,109,111,118,101,86,101,114,116,101,120>>
KwRE == <<82,101,109,111,118,101,69,100,103,101>>
Kind(w) == CASE w = KwAV -> 0 [] w = KwAE -> 1 [] w = KwRV -> 2 [] w = KwRE -> 3 [] OTHER -> -1
Joined(ws) == IF Len(ws) = 2 THEN ws[1] \o <<32>> \o ws[2]
              ELSE ws[1] \o <<32>> \o ws[2] \o <<32>> \o ws[3]

GcmdLine(s) ==
  LET ws == Words(s)
      k == Kind(ws[1])
      n == IF k \in {0, 2} THEN 1 ELSE 2
      a == [i \in 1..n |-> Unsigned(ws[i + 1])]
  IN  IF k = -1 \/ Len(ws) # n + 1 THEN Err
      ELSE IF \E i \in 1..n : ~IsId(a[i]) THEN Err
      ELSE LET c == IF n = 1 THEN <<k, Id(a[1])>> ELSE <<k, Id(a[1]), Id(a[2])>>
           IN  IF s = Joined(ws) /\ \A i \in 1..n : a[i] = ws[i + 1] /\ Canonical(a[i])
               THEN {c} ELSE {c} \cup Err

(* ---- TGF: an id is a vertex, two ids an edge, a label may follow          *)
TgfLine(s) ==
  LET t  == SkipSp(s)
      n1 == SpanDigits(t, 0)
      w1 == SubSeq(t, 1, n1)
      r1 == From(t, n1 + 1)              \* what follows the first id
      v  == <<0, Id(w1)>>
      x  == SkipSp(r1)
      n2 == SpanDigits(x, 0)
      w2 == SubSeq(x, 1, n2)
      r2 == From(x, n2 + 1)              \* what follows the second id
      y  == SkipSp(r2)
      e  == <<1, Id(w1), Id(w2)>>
      plain1 == t = s /\ Canonical(w1)
      plain2 == plain1 /\ Canonical(w2) /\ r1[1] = 32 /\ x = Tail(r1)
      loose(S, plain) == IF plain THEN S ELSE S \cup Err
  IN  IF n1 = 0 \/ ~IsId(w1) THEN Err
      ELSE IF r1 = <<>> THEN loose({v}, plain1)
      ELSE IF ~IsSpace(r1[1]) THEN {v} \cup Err                 \* label glued to the id
      ELSE IF x = <<>> THEN {v} \cup Err                        \* trailing white space
      ELSE IF n2 = 0
           THEN IF x[1] \in {43, 45} THEN {v} \cup Err          \* "1 -2"
                ELSE loose({v}, plain1 /\ x = Tail(r1) /\ r1[1] = 32)
      ELSE IF ~IsId(w2) THEN Err
      ELSE IF r2 = <<>> THEN loose({e}, plain2)
      ELSE IF ~IsSpace(r2[1]) THEN {e, v} \cup Err              \* "1 2nd": edge or label
      ELSE IF y = <<>> THEN {e} \cup Err
      ELSE IF AnyDigit(y[1]) \/ y[1] \in {43, 45} THEN {e} \cup Err   \* a numeric label
      ELSE loose({e}, plain2 /\ r2[1] = 32 /\ y = Tail(r2))

Allowed(fmt, s) ==
  IF HasBad(s) THEN (IF Comment(s) THEN Err \cup Skip ELSE Err)
  ELSE IF s = <<>> THEN Skip
  ELSE IF Blank(s) THEN Skip \cup Err
  ELSE IF Comment(s) THEN Skip
  ELSE IF fmt = "gcmd" THEN GcmdLine(s) ELSE TgfLine(s)

(* ---- whole files                                                         *)
RECURSIVE ReadsAs(_, _, _, _)
\* can the lines from i on yield exactly the commands cs[j..]?
ReadsAs(A, i, cs, j) ==
  IF i > Len(A) THEN j = Len(cs) + 1
  ELSE \/ <<"skip">> \in A[i] /\ ReadsAs(A, i + 1, cs, j)
       \/ j <= Len(cs) /\ cs[j] \in A[i] /\ ReadsAs(A, i + 1, cs, j + 1)

FailsAt(A, n) == /\ n \in 1..Len(A)
                 /\ <<"err">> \in A[n]
                 /\ \A i \in 1..(n - 1) : A[i] # Err

(* A file of very many lines, given as runs of equal lines <<line, times>>,     *)
(* each with one outcome; the commands read are given as runs, too.            *)
RECURSIVE SumN(_, _), MergeRuns(_, _)
SumN(rs, k) == IF k = 0 THEN 0 ELSE rs[k][2] + SumN(rs, k - 1)
MergeRuns(q, acc) ==
  IF q = <<>> THEN acc
  ELSE LET r == Head(q) IN
       MergeRuns(Tail(q), IF acc # <<>> /\ acc[Len(acc)][1] = r[1]
                          THEN [acc EXCEPT ![Len(acc)] = <<r[1], @[2] + r[2]>>] ELSE Append(acc, r))
RunsOk(e) ==
  LET out == [i \in 1..Len(e.rs) |-> CHOOSE o \in Allowed(e.fmt, e.rs[i][1]) : TRUE]
      bad == {i \in 1..Len(e.rs) : out[i] = <<"err">>}
      r == e.res
  IN  /\ Assert(\A i \in 1..Len(e.rs) : Cardinality(Allowed(e.fmt, e.rs[i][1])) = 1, "ambiguous line")
      /\ IF bad = {}
         THEN LET cs == SelectSeq([i \in 1..Len(e.rs) |-> <<out[i], e.rs[i][2]>>], LAMBDA x : x[1] # <<"skip">>)
                  gr == ApplyAll(EmptyGraph, [i \in 1..Len(cs) |-> cs[i][1]])   \* repeating a command changes nothing
              IN  r.k = "ok" /\ r.cs = MergeRuns(cs, <<>>) /\ r.gk = "ok" /\ Lists(r.vs, gr.V) /\ Lists(r.es, gr.E)
         ELSE r.k = "err" /\ r.gk = "err" /\ SumN(e.rs, Min(bad) - 1) + 1 \in Range(r.nums)

\* r.nums: the line number(s) the error message gives
ParseOk(e) ==
  LET A == [i \in 1..Len(e.ls) |-> Allowed(e.fmt, e.ls[i])]
      r == e.res
  IN  \/ r.k = "ok" /\ ReadsAs(A, 1, r.cs, 1)
                    /\ LET gr == ApplyAll(EmptyGraph, r.cs)
                       IN  r.gk = "ok" /\ Lists(r.vs, gr.V) /\ Lists(r.es, gr.E)
      \/ r.k = "err" /\ (\E i \in 1..Len(r.nums) : FailsAt(A, r.nums[i])) /\ r.gk = "err"
=============================================================================
