------------------------------ MODULE GenStore ------------------------------
(* Generates behaviours of Store for replay into the code: for every        *)
(* reachable abstract graph over Ids, one shortest command history.         *)
EXTENDS Store, CSV, IOUtils
VARIABLE hist
Flat(c) == IF Len(c) = 2 THEN <<c[1], c[2], 0>> ELSE c
GInit == StoreInit /\ hist = <<>>
GNext == \E c \in Commands : Do(c) /\ hist' = Append(hist, Flat(c))
GSpec == GInit /\ [][GNext]_<<g, hist>>
View == g
Emit == CSVWrite("%1$s", <<ToString(hist)>>, IOEnv.GEN_OUT)
=============================================================================
