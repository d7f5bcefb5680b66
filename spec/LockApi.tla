------------------------------- MODULE LockApi ------------------------------
(***************************************************************************)
(* C25: the library behind the tools, over one graph directory.             *)
(* State: here (the directory is there), ex (a graph is there), g (its      *)
(* content), lk (the lock is held), open (how many blocks run under a lock: *)
(* with_lock calls whose block has begun and not ended).                    *)
(* Each call e leads to one state, with one kind of result.                 *)
(***************************************************************************)
EXTENDS Graphs
Res(k, st) == [k |-> k, st |-> st]
LockFree(st) == st.here /\ ~st.lk
Start == [here |-> FALSE, ex |-> FALSE, g |-> EmptyGraph, lk |-> FALSE, open |-> 0]
Call(st, e) ==
  CASE e.op = "mkdir"  -> Res("ok", [st EXCEPT !.here = TRUE])       \* the user makes the directory
    [] e.op = "init"   -> Res("ok", [st EXCEPT !.here = TRUE, !.ex = TRUE])
    [] e.op = "lock"   -> IF LockFree(st) THEN Res("ok", [st EXCEPT !.lk = TRUE]) ELSE Res("err", st)
    [] e.op = "unlock" -> IF st.lk THEN Res("ok", [st EXCEPT !.lk = FALSE]) ELSE Res("err", st)
    \* additions and removals take the lock themselves, and give it back
    [] e.op = "cmds"   -> IF LockFree(st) /\ st.ex THEN Res("ok", [st EXCEPT !.g = ApplyAll(@, e.cs)]) ELSE Res("err", st)
    [] e.op = "clean"  -> IF LockFree(st) /\ st.ex THEN Res("ok", [st EXCEPT !.ex = FALSE, !.g = EmptyGraph]) ELSE Res("err", st)
    \* saving leaves locking to the caller
    [] e.op = "save"   -> IF st.ex THEN Res("ok", [st EXCEPT !.g = ApplyAll(EmptyGraph, e.cs)]) ELSE Res("err", st)
    \* with_lock: the block runs if and only if the lock could be taken
    [] e.op = "begin"  -> IF LockFree(st) THEN Res("in", [st EXCEPT !.lk = TRUE, !.open = @ + 1]) ELSE Res("err", st)
    \* ... and its result is that of the block ("any": the block itself gave the lock away)
    [] e.op = "end"    -> Res(IF st.lk THEN e.want ELSE "any", [st EXCEPT !.lk = FALSE, !.open = @ - 1])
Calls == {"mkdir", "init", "lock", "unlock", "cmds", "clean", "save", "begin", "end"}
=============================================================================
