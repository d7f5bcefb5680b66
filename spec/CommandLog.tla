----------------------------- MODULE CommandLog -----------------------------
(***************************************************************************)
(* C02, C05, C06, design level: the command log at the level of single file *)
(* operations.  Processes run the tools on one directory; each step is one  *)
(* file operation.  The directory holds "commands" and "commands.tmp", both *)
(* names for inodes; an open file keeps its inode after a rename or unlink. *)
(* The log is a sequence of items: x adds x, -x removes x, 0 is a cut line. *)
(*                                                                          *)
(* A ghost state (the abstract graph of module Cli) moves at the operation  *)
(* at which a command takes effect; hist remembers all its values.          *)
(*                                                                          *)
(* Design in {"good", "touchlock", "truncate", "nolock", "unlockany"}: the  *)
(* repository's protocol, or one with a flaw that TLC must find (the flawed *)
(* ones show that the invariants have teeth).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tools,       \* the tools that may be run, e.g. {"add", "build", "read"}
          Procs,       \* process names: a set of integers
          MaxFaults,   \* file operations that may fail or be cut, kills
          Design, Starts     \* Starts: does a graph exist at the beginning?
VARIABLES dir, cmds, tmp, ino,      \* file system: directory there, names, inode contents
          lock,                     \* 0 or the process that created the lock file
          tool, pc, fd, buf, rc,    \* per process
          began,                    \* per process: length of hist when it started
          eff,                      \* per process: how often it changed the graph for good
          hist, faults

vars == <<dir, cmds, tmp, ino, lock, tool, pc, fd, buf, rc, began, eff, hist, faults>>
files == <<dir, cmds, tmp, ino>>

RECURSIVE Replay(_, _)
Replay(q, G) == IF q = <<>> THEN G
                ELSE Replay(Tail(q), IF Head(q) > 0 THEN G \cup {Head(q)} ELSE G \ {-Head(q)})
Loads(q) == \A i \in 1..Len(q) : q[i] # 0
None == [ex |-> FALSE, G |-> {}]
Has(G) == [ex |-> TRUE, G |-> G]
\* what a reader that comes now would see
Seen == IF dir /\ cmds # 0 THEN (IF Loads(ino[cmds]) THEN Has(Replay(ino[cmds], {})) ELSE [ex |-> TRUE, G |-> {0}])
        ELSE None
Abs == hist[Len(hist)]
Effect(a) == hist' = IF a = Abs THEN hist ELSE Append(hist, a)

\* the shortest log of a graph
RECURSIVE LogOf(_)
LogOf(G) == IF G = {} THEN <<>> ELSE LET x == CHOOSE y \in G : TRUE IN <<x>> \o LogOf(G \ {x})
NewIno(q) == Append(ino, q)

Init == /\ dir \in Starts /\ cmds = (IF dir THEN 1 ELSE 0) /\ tmp = 0
        /\ ino = (IF dir THEN << <<7, 8, -8>> >> ELSE <<>>)
        /\ lock = 0 /\ faults = 0
        /\ hist = << IF dir THEN Has({7}) ELSE None >>
        /\ tool \in [Procs -> Tools]
        /\ pc = [p \in Procs |-> "idle"] /\ fd = [p \in Procs |-> 0]
        /\ buf = [p \in Procs |-> <<>>] /\ rc = [p \in Procs |-> -1]
        /\ began = [p \in Procs |-> 0] /\ eff = [p \in Procs |-> 0]

Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Count(p, b) == eff' = [eff EXCEPT ![p] = @ + (IF b THEN 1 ELSE 0)]
Exit(p, c) == Go(p, "done") /\ rc' = [rc EXCEPT ![p] = c]
Keep(S) == UNCHANGED S

Mods == {"add", "del", "build", "rand", "clean"}
Begin(p) ==
  /\ pc[p] = "idle"
  /\ began' = [began EXCEPT ![p] = Len(hist)]
  /\ Go(p, CASE tool[p] \in Mods -> (IF Design = "nolock" /\ tool[p] = "build" THEN "open" ELSE "lock")
             [] tool[p] = "init" -> "mkdir"
             [] tool[p] = "read" -> "open")
  /\ Keep(<<files, lock, tool, fd, buf, rc, eff, hist, faults>>)

\* open(lock, O_CREAT|O_EXCL)
Lock(p) ==
  /\ pc[p] = "lock"
  /\ IF lock # 0 /\ Design # "touchlock"
     THEN Exit(p, 1) /\ Keep(lock)
     ELSE /\ lock' = p /\ Keep(rc)
          /\ Go(p, CASE tool[p] \in {"add", "del", "build"} -> "open"
                     [] tool[p] = "rand" -> "tmp" [] tool[p] = "clean" -> "unlink")
  /\ Keep(<<files, tool, fd, buf, began, eff, hist, faults>>)
Unlock(p) ==
  /\ pc[p] \in {"unlock0", "unlock1"}
  /\ lock' = 0 /\ Exit(p, IF pc[p] = "unlock0" THEN 0 ELSE 1)
  /\ Keep(<<files, tool, fd, buf, began, eff, hist, faults>>)
Fail(p) == Go(p, IF lock = p THEN "unlock1" ELSE "fail")
Failed(p) == pc[p] = "fail" /\ Exit(p, 1) /\ Keep(<<files, lock, tool, fd, buf, began, eff, hist, faults>>)

\* open "commands" (append for add and del, read otherwise); never creates
Open(p) ==
  /\ pc[p] = "open"
  /\ IF dir /\ cmds # 0
     THEN fd' = [fd EXCEPT ![p] = cmds] /\ Go(p, IF tool[p] \in {"add", "del"} THEN "append" ELSE "read1")
     ELSE Fail(p) /\ Keep(fd)
  /\ Keep(<<files, lock, tool, buf, rc, began, eff, hist, faults>>)
Append1(p) ==
  /\ pc[p] = "append"
  /\ ino' = [ino EXCEPT ![fd[p]] = Append(@, IF tool[p] = "add" THEN p ELSE -7)]
  /\ Effect(IF fd[p] = cmds THEN Has(Replay(ino'[fd[p]], {})) ELSE Abs)
  /\ Go(p, "unlock0") /\ Count(p, fd[p] = cmds)
  /\ Keep(<<dir, cmds, tmp, lock, tool, fd, buf, rc, began, faults>>)
\* reading takes at least two reads
Read1(p) == /\ pc[p] = "read1"
            /\ \E k \in 0..Len(ino[fd[p]]) : buf' = [buf EXCEPT ![p] = SubSeq(ino[fd[p]], 1, k)]
            /\ Go(p, "read2")
            /\ Keep(<<files, lock, tool, fd, rc, began, eff, hist, faults>>)
Read2(p) == /\ pc[p] = "read2"
            /\ LET q == ino[fd[p]] IN
               IF Len(buf[p]) <= Len(q)
               THEN buf' = [buf EXCEPT ![p] = @ \o SubSeq(q, Len(@) + 1, Len(q))]
               ELSE Keep(buf)
            /\ IF tool[p] = "read" THEN Exit(p, 0)
               ELSE Keep(rc) /\ Go(p, IF Design = "truncate" THEN "trunc" ELSE "tmp")
            /\ Keep(<<files, lock, tool, fd, began, eff, hist, faults>>)
NewLog(p) == IF tool[p] = "rand" THEN <<9>> ELSE LogOf(Replay(buf[p], {}))
\* replace in place (flawed)
Trunc(p) == /\ pc[p] = "trunc" /\ ino' = [ino EXCEPT ![fd[p]] = <<>>] /\ Go(p, "fill")
            /\ Keep(<<dir, cmds, tmp, lock, tool, fd, buf, rc, began, eff, hist, faults>>)
Fill(p) == /\ pc[p] = "fill" /\ ino' = [ino EXCEPT ![fd[p]] = NewLog(p)] /\ Go(p, "unlock0")
           /\ Keep(<<dir, cmds, tmp, lock, tool, fd, buf, rc, began, eff, hist, faults>>)
\* create "commands.tmp", write it, rename it
Tmp(p) == /\ pc[p] = "tmp"
          /\ IF dir THEN /\ ino' = (IF tmp = 0 THEN NewIno(<<>>) ELSE [ino EXCEPT ![tmp] = <<>>])
                         /\ tmp' = (IF tmp = 0 THEN Len(ino') ELSE tmp)
                         /\ fd' = [fd EXCEPT ![p] = tmp'] /\ Go(p, "wtmp")
             ELSE Fail(p) /\ Keep(<<ino, tmp, fd>>)
          /\ Keep(<<dir, cmds, lock, tool, buf, rc, began, eff, hist, faults>>)
WTmp(p) == /\ pc[p] = "wtmp" /\ ino' = [ino EXCEPT ![fd[p]] = NewLog(p)] /\ Go(p, "rename")
           /\ Keep(<<dir, cmds, tmp, lock, tool, fd, buf, rc, began, eff, hist, faults>>)
Rename(p) == /\ pc[p] = "rename"
             /\ Count(p, tmp # 0)
             /\ IF tmp # 0 THEN /\ cmds' = tmp /\ tmp' = 0
                                /\ Effect(IF tool[p] = "rand" THEN Has({9}) ELSE Abs)
                                /\ Go(p, IF Design = "nolock" /\ tool[p] = "build" THEN "ok" ELSE "unlock0")
                ELSE Fail(p) /\ Keep(<<cmds, tmp, hist>>)
             /\ Keep(<<dir, ino, lock, tool, fd, buf, rc, began, faults>>)
Okay(p) == pc[p] = "ok" /\ Exit(p, 0) /\ Keep(<<files, lock, tool, fd, buf, began, eff, hist, faults>>)
\* remove the files, then the directory
Unlink(p) == /\ pc[p] = "unlink"
             /\ IF dir THEN cmds' = 0 /\ tmp' = 0 /\ Go(p, "rmdir") ELSE Fail(p) /\ Keep(<<cmds, tmp>>)
             /\ Effect(IF dir THEN None ELSE Abs) /\ Count(p, dir)
             /\ Keep(<<dir, ino, lock, tool, fd, buf, rc, began, faults>>)
RmDir(p) == /\ pc[p] = "rmdir"
            /\ IF dir /\ cmds = 0 /\ tmp = 0 THEN dir' = FALSE /\ Go(p, "unlock0") ELSE Fail(p) /\ Keep(dir)
            /\ Keep(<<cmds, tmp, ino, lock, tool, fd, buf, rc, began, eff, hist, faults>>)
MkDir(p) == /\ pc[p] = "mkdir" /\ dir' = TRUE /\ Go(p, "create")
            /\ Keep(<<cmds, tmp, ino, lock, tool, fd, buf, rc, began, eff, hist, faults>>)
Create(p) == /\ pc[p] = "create" /\ Count(p, dir)
             /\ IF ~dir THEN Exit(p, 1) /\ Keep(<<cmds, ino, hist>>)
                ELSE /\ Exit(p, 0)
                     /\ IF cmds = 0 THEN ino' = NewIno(<<>>) /\ cmds' = Len(ino') /\ Effect(Has({}))
                        ELSE Keep(<<cmds, ino, hist>>)
             /\ Keep(<<dir, tmp, lock, tool, fd, buf, began, faults>>)

Step(p) == \/ Begin(p) \/ Lock(p) \/ Unlock(p) \/ Failed(p) \/ Open(p) \/ Append1(p) \/ Read1(p) \/ Read2(p)
           \/ Trunc(p) \/ Fill(p) \/ Tmp(p) \/ WTmp(p) \/ Rename(p) \/ Okay(p) \/ Unlink(p) \/ RmDir(p)
           \/ MkDir(p) \/ Create(p)

(* ---- faults: the process dies; an operation fails; a write is cut          *)
Working(p) == pc[p] \notin {"idle", "done"}
Die(p) == /\ Working(p) /\ faults < MaxFaults /\ faults' = faults + 1 /\ Exit(p, 2)
          /\ Keep(<<files, lock, tool, fd, buf, began, eff, hist>>)
Err(p) == /\ pc[p] \in {"open", "append", "read1", "read2", "tmp", "wtmp", "rename"}
          /\ faults < MaxFaults /\ faults' = faults + 1 /\ Fail(p)
          /\ Keep(<<files, lock, tool, fd, buf, rc, began, eff, hist>>)
\* half of the write reaches the file, the rest fails: the tool cuts the file back
Cut(p) == /\ pc[p] = "append" /\ faults < MaxFaults /\ faults' = faults + 1
          /\ ino' = [ino EXCEPT ![fd[p]] = Append(@, 0)] /\ Go(p, "back")
          /\ Keep(<<dir, cmds, tmp, lock, tool, fd, buf, rc, began, eff, hist>>)
Back(p) == /\ pc[p] = "back"
           /\ ino' = (IF Design = "noback" THEN ino ELSE [ino EXCEPT ![fd[p]] = SubSeq(@, 1, Len(@) - 1)]) /\ Fail(p)
           /\ Keep(<<dir, cmds, tmp, lock, tool, fd, buf, rc, began, eff, hist, faults>>)
CutTmp(p) == /\ pc[p] = "wtmp" /\ faults < MaxFaults /\ faults' = faults + 1
             /\ ino' = [ino EXCEPT ![fd[p]] = <<0>>] /\ Fail(p)
             /\ Keep(<<dir, cmds, tmp, lock, tool, fd, buf, rc, began, eff, hist>>)
Fault(p) == Die(p) \/ Err(p) \/ Cut(p) \/ Back(p) \/ CutTmp(p)
\* the user removes a stale lock once everything has ended
Stale == /\ lock # 0 /\ rc[lock] # -1 /\ lock' = 0
         /\ Keep(<<files, tool, pc, fd, buf, rc, began, eff, hist, faults>>)

Next == (\E p \in Procs : Step(p) \/ Fault(p)) \/ Stale
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

(* ---- what the user relies on                                               *)
Busy(l) == \E p \in Procs : pc[p] \in l
\* the directory always loads as the abstract graph says (while no cut write is being taken back)
Faithful == Busy({"back"}) \/ Seen = Abs
\* a reader saw the graph of one moment of its run
ReaderOk == \A p \in Procs : tool[p] = "read" /\ rc[p] = 0 =>
              \E i \in began[p]..Len(hist) : hist[i] = Has(Replay(buf[p], {})) /\ Loads(buf[p])
\* at most one process is between its lock and its unlock
Exclusive == Cardinality({p \in Procs : tool[p] \in Mods /\ pc[p] \notin {"idle", "lock", "done", "fail"}}) <= 1
\* an acknowledged addition is in the graph unless something removed it later
Removers == {"rand", "clean"}
Kept == \A p \in Procs : tool[p] = "add" /\ rc[p] = 0 /\ ~(\E q \in Procs : tool[q] \in Removers)
          => p \in Abs.G
\* success is reported exactly by the commands that took effect, once; a failed one did nothing
\* (unless the graph was initialised again under a clean, or the command was hit by a fault)
Acked == \A p \in Procs : tool[p] # "read" =>
           /\ rc[p] = 0 => eff[p] = 1
           /\ rc[p] = 1 /\ ~(tool[p] = "clean" /\ \E q \in Procs : tool[q] = "init") => eff[p] = 0
NoLockLeft == (faults = 0 /\ \A p \in Procs : rc[p] # -1) => lock = 0
Ends == <>(\A p \in Procs : rc[p] # -1)
=============================================================================
