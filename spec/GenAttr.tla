------------------------------ MODULE GenAttr -------------------------------
(* Design check and behaviour generation for C18: all histories of up to N   *)
(* commands; the mapping always holds what the last command per key said.    *)
EXTENDS Attr, CSV, IOUtils
CONSTANT N
VARIABLES h, mv, me
Cmds == {<<0, 1, 1>>, <<0, 1, 2>>, <<2, 1>>, <<0, 2, 1>>,
         <<1, 1, 2, 1>>, <<1, 2, 1, 2>>, <<3, 1, 2>>, <<3, 2, 1>>}
Init == h = <<>> /\ mv = {} /\ me = {}
Next == Len(h) < N /\ \E c \in Cmds : /\ h' = Append(h, c)
                                      /\ mv' = AApply("v", mv, c)
                                      /\ me' = AApply("e", me, c)
Spec == Init /\ [][Next]_<<h, mv, me>>
Inv == /\ LastSays("v", h, mv) /\ LastSays("e", h, me)
       /\ \A p, q \in mv \cup me : p[1] = q[1] => p = q
       /\ {p[1] : p \in mv} \subseteq {Key(h[i]) : i \in {j \in 1..Len(h) : CmdKind(h[j]) = "v"}}
Emit == Len(h) < N \/ CSVWrite("%1$s", <<ToString(h)>>, IOEnv.GEN_OUT)
=============================================================================
