----------------------------- MODULE RoundTrip ------------------------------
(***************************************************************************)
(* C03, C04, design level.  Kind "graph": a graph is printed command by     *)
(* command, in any order, in either format; the text, read back by the      *)
(* rules of module Parse, can only be read as that graph.  Kind "line":     *)
(* every line over a small alphabet, character by character: the rules      *)
(* leave no line two readings unless one of them is a rejection, and both   *)
(* formats agree that blank lines and comments are skipped.                 *)
(***************************************************************************)
EXTENDS Parse
CONSTANTS MaxLine
VARIABLES kind, gr, left, text, fmt, done

vars == <<kind, gr, left, text, fmt, done>>
\* ids as digit sequences: 0, 1, 10 and the largest
IdSet == {<<0>>, <<1, 0>>, MaxId}
Txt(d) == [i \in 1..Len(d) |-> d[i] + 48]
Spell(f, c) ==
  IF f = "gcmd"
  THEN IF c[1] = 0 THEN KwAV \o <<32>> \o Txt(c[2]) ELSE KwAE \o <<32>> \o Txt(c[2]) \o <<32>> \o Txt(c[3])
  ELSE IF c[1] = 0 THEN Txt(c[2]) ELSE Txt(c[2]) \o <<32>> \o Txt(c[3])
Alphabet == {48, 49, 57, 32, 35, 45, 97, 65, Bad}
Sub == {1, 2, 3}
IdAt == <<<<0>>, <<1, 0>>, MaxId>>
Graph3 == {[V |-> {IdAt[i] : i \in vs}, E |-> {<<IdAt[e[1]], IdAt[e[2]]>> : e \in es}] :
             vs \in {Sub, {1, 3}}, es \in {x \in SUBSET (Sub \X Sub) : Cardinality(x) <= 3}}
Init ==
  /\ fmt \in {"gcmd", "tgf"} /\ done = FALSE
  /\ \/ /\ kind = "graph" /\ text = <<>>
        /\ gr \in {x \in Graph3 : IsGraph(x)}
        /\ left = {<<0, v>> : v \in gr.V} \cup {<<1, e[1], e[2]>> : e \in gr.E}
     \/ /\ kind = "line" /\ text = <<<<>>>> /\ gr = EmptyGraph /\ left = {}
Put == /\ kind = "graph" /\ left # {}
       \* vertices first, in any order; then a comment line; then the edges, in any order
       /\ \E c \in left : /\ (c[1] = 0 \/ \A x \in left : x[1] # 0)
                          /\ text' = (IF c[1] = 1 /\ \A i \in 1..Len(text) : text[i] # <<35>>
                                      THEN text \o <<<<35>>, Spell(fmt, c)>> ELSE Append(text, Spell(fmt, c)))
                          /\ left' = left \ {c}
       /\ UNCHANGED <<kind, gr, fmt, done>>
Grow == /\ kind = "line" /\ Len(text[1]) < MaxLine
        /\ \E a \in Alphabet : text' = <<Append(text[1], a)>>
        /\ UNCHANGED <<kind, gr, left, fmt, done>>
Next == Put \/ Grow
Spec == Init /\ [][Next]_vars

Exact == kind = "graph" =>
  /\ \A i \in 1..Len(text) : Cardinality(Allowed(fmt, text[i])) = 1 /\ Allowed(fmt, text[i]) # Err
  /\ left = {} =>
       LET cs == SelectSeq([i \in 1..Len(text) |-> CHOOSE o \in Allowed(fmt, text[i]) : TRUE],
                           LAMBDA o : o # <<"skip">>)
       IN  ApplyAll(EmptyGraph, cs) = gr
OneReading == kind = "line" =>
  LET A == Allowed(fmt, text[1]) IN
  /\ A # {}
  /\ Cardinality(A \ Err) > 1 => <<"err">> \in A
  /\ HasBad(text[1]) => A \subseteq (Err \cup Skip)
  /\ (text[1] # <<>> /\ text[1][1] = 35 /\ ~HasBad(text[1])) => A = Skip
=============================================================================
