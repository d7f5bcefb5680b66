#!/usr/bin/env python3
"""Writes level_notes.json (read by gen_manifest.py and design_tail.py)."""
import json, os
N = {}
def n(i, spec, run, bounds, beyond):
    N[i] = dict(spec=spec, run=run, bounds=bounds, beyond=beyond)

n("C01", "`Store` (pair of sets, all observers, what additions and removals report) and `EdgeMap` (adjacency lists with two entries per edge, one for a self-loop), which TLC shows to refine `Store`; variants that store a self-loop twice or forget the other end are refuted.",
  "TLC generates every graph over three ids (`GenStore`); the real graph is put into each of these states and every operation of the specification is applied, directly, as a command, in a batch and as a reverted command, and all observers are compared. Then long random histories over few ids, and hubs of up to 1050 neighbours.",
  "All states and operations over three ids; random histories of 20-120 steps over up to 20 ids, hubs to 1050.",
  "All observers after every step of every short history, self-loops included; the tests replay a dozen histories.")
n("C02", "`Cli`: directory, graph and lock as state; one action per tool, each option expanded to graph commands; exit statuses.",
  "All short histories generated by TLC (`GenCli`), random histories with all options, extreme ids and long argument lists, run with the real binaries; after each step the stored graph is loaded through the library and compared; gc-desc is compared with the model graph.",
  "GenCli: two ids, histories to its depth bound; random histories of up to about 18 invocations; argument lists to 1100 values, cliques of 40.",
  "No test runs a tool.")
n("C03", "`RoundTrip`: printing a graph command by command in either format, in any order, and reading it back by the rules of `Parse` can only give that graph; `Cli` for gc-build.",
  "Every graph of the corpus is saved in both formats, read back, turned into commands and applied; logs with removals are compacted by gc-build repeatedly, and further commands are applied.",
  "Graphs of up to 14 vertices exhaustively / at random, some of 400 (1500), ids to 2^64-1.",
  "There is no round-trip test.")
n("C04", "`Parse`: both line grammars over characters, value ranges by digit sequences, error with the number of the first bad line; `RoundTrip` shows that no line over a small alphabet has two readings.",
  "Generated files: grammar-directed, mutated at every position, unicode digits and spaces, CRLF, invalid UTF-8, overflowing ids, many lines, long lines; the reader's commands or error line are compared.",
  "Files of 1 to a few hundred lines (some beyond 65 536 lines for line numbers); alphabets cover ASCII, several scripts and invalid bytes. Where the statement leaves a line open (see Parse), both readings are allowed.",
  "The tests parse five lines per format.")
n("C05", "`CommandLog`: up to three processes, every step one file operation, all interleavings; ghost history; Faithful, ReaderOk, Exclusive, Kept, Acked, NoLockLeft. Variants with a touched lock or without one are refuted. `TraceCli.ParOk`: linearisability of recorded runs.",
  "Real processes stopped before each file operation by the shim; schedules explored fewest preemptions first, then at random; all pairs of modifying tools, modifying tools with readers and with init, selected triples and random quadruples, and logs of several buffers; also histories with a lock held by somebody else (old, new, with content).",
  "500-1000 schedules per pair in the quick tier (6000 in the thorough tier), which exhausts most pairs; evidence lists how many were not exhausted.",
  "The outcome of every schedule is judged, not only of those a stress test happens to meet.")
n("C06", "`CommandLog` with faults: a kill, an error or a short write at any step (`CommandFaults`), Faithful and Acked; variants that truncate in place or do not roll back are refuted.",
  "Every file operation of add, delete and build as kill point, with EIO/ENOSPC/EACCES, and with short writes cut at four positions (once, or for good: a full disk, with ENOSPC, EIO, EFBIG, EDQUOT, EINTR); then the stale lock is removed, the graph loaded, and further commands are run.",
  "All operations of commands of up to 120 operations, the first, last and 40 sampled ones beyond; batches of several buffers.",
  "No test injects a fault.")
n("C07", "`Topo` (an accepted order is also the proof of acyclicity) and `Kahn`, the algorithm with every order of the hash map; a variant that does not count self-loops is refuted.",
  "topological_sort, is_dag, try_dag on the corpus, random dags with one reversed edge, chains/rings/stars to 1030; gc-topo-sort on stored graphs.",
  "All graphs of up to three vertices with self-loops, isomorphism classes of four (five), random up to 150, regular to 1030.",
  "Six graphs are tested, none with a self-loop.")
n("C08", "`Cycles` (set of elementary cycles in canonical form) and `CycleEnum`, the stack search with every order; the variant with one start vertex (the original defect) is refuted.",
  "Iterator and all functions of algorithm::cycle on the corpus, cliques, large sparse graphs; gc-cycle with all plain actions.",
  "As C07; number of cycles bounded by choice of graphs (up to a few thousand per graph); rings to 30 vertices.",
  "Completeness over all small graphs and many hash orders. Known finding K2 is accepted only where it applies: the answer must be exactly that of the cycles reachable from a vertex without inbound edges.")
n("C09", "`Cli.CycOpt`: meaning of each option on a cycle, closing edge included; answers over the selected set.",
  "gc-cycle with random combinations of up to four options and all actions on small graphs.",
  "Graphs of up to five vertices, rings of up to 30; all graphs of up to three in the thorough tier.",
  "No test covers the tool.")
n("C10", "`Sssp` (distances; for large graphs a certificate of potentials that TLC verifies) and `BestFirst`, the search with all weights and all consistent heuristics of a small range; the variant that keeps the first path to a vertex (the original defect) is refuted.",
  "shortest_path with random weights (scaled to 2^50), generated consistent heuristics (zero, exact, uneven), all targets; gc-short-path on all pairs.",
  "As C07; ladders and dense dags to 15 vertices; detours of up to 550; large sparse graphs to 400, regular to 1030 vertices with certificates.",
  "One graph is tested.")
n("C11", "`Constraints`, `Csp` (queue of walks pruned by partial checks; any least element may be popped); the variant that never revisits a vertex is refuted.",
  "constrained_shortest_path with random constraint sets (with a bound so that every run ends, and satisfiable ones without), weights and heuristics; gc-csp with all options.",
  "Graphs of up to 6 vertices, walks up to the length TLC can enumerate; graphs of 40 (130) vertices where the cheapest walk is known from a certificate. Unsatisfiable queries without a bound are known finding K1.",
  "The two existing tests assert true.")
n("C12", "`Constraints.Holds`, `Pruning.Partial`: DeadStaysDead over all growing walks for all constraints of two levels; variants in which minima or all negations prune are refuted.",
  "check_complete and check_partial on paths with nested constraints; partial answers are judged against all extensions (an existential statement TLC decides over a bounded universe plus fresh vertices); path observers.",
  "Nesting to depth 6, all paths of up to three vertices, random ones to 7 and long ones to 120 (300) vertices, extensions bounded as argued in Constraints.tla.",
  "Soundness of pruning quantifies over extensions.")
n("C13", "`Constraints.Contradictory` and duplicates; `Pruning.Unsat`: a contradictory list has no walk.",
  "validate on all pairs of literals and random lists.", "All pairs, random lists of up to 19.", "The public validator is not called by a test.")
n("C14", "`Sssp.TableOk` (a table with real paths that no edge improves is optimal, and excludes negative cycles) and `BellmanFord` (three algorithms, all orders); one round less is refuted.",
  "All four algorithms on the corpus, dags, large sparse graphs; weights with and without negative cycles, scaled to 2^51.",
  "As C07, regular to 260.", "One dag from its source is tested.")
n("C15", "`Flow.FlowOk` (feasibility and no residual path: max-flow min-cut) and `FordFulkerson`, where TLC also shows that this certificate agrees with the minimum over all cuts; the variant without backward arcs (the original defect) is refuted.",
  "max_flow on the corpus, layered networks, crossing paths with shortcuts and reversed edges, chains to 300, capacities to 2^63.",
  "As C07 plus about 700 (7500) networks.", "Three networks solvable greedily are tested.")
n("C16", "`Traverse` (orders a traversal may produce) and `Walkers`/`BestFirst`; marking at push time (the original defect) is refuted.",
  "All iterators from a vertex that reaches most and others; arbitrary scores including negative and extreme ones.", "As C07, chains to 700, stars to 1030.", "Two graphs per iterator are tested.")
n("C17", "`Traverse.PathsOk`, HamiltonOk, HamPathOk; `Walkers`.",
  "Path iterators and Hamiltonian functions on the corpus and sparse large graphs, the checker on real paths, near misses and repeated vertices.", "As C07, regular to 260 for path iteration.", "Only counts are tested.")
n("C18", "`Attr`: a map per mapping; results of commands and batches.",
  "All short histories generated by TLC (`GenAttr`), random long ones with many keys, on vertex and edge mappings with string and numeric values.", "See GenAttr; random histories to a few hundred steps.", "The module has no tests.")
n("C19", "`Cli.RandOk` and `RandomDag` (every draw; ends under strong fairness; the closed form for the number of edges that fit is an ASSUME); the loop without a cap is refuted.",
  "gc-random with sizes 0 to 2050 (6001) and all relevant edge counts.", "About 1700 runs in the quick tier.", "The tool has no tests.")
n("C20", "`TraceCli`: clean and rand change the graph only for yes, y or force; `files` events list what changed outside the graph.",
  "Every answer of a list (case variants, prefixes, several lines, invalid UTF-8, end of input) for both tools in six ways of naming the directory; decoy files, links and neighbouring graphs (and a graph directory that is a link) are compared byte for byte after every command.", "Answers as listed.", "No test runs the tools.")
n("C21", "`Containers`: stack, queue, bag with maximum / minimum.",
  "All short push/pop histories generated by TLC (`GenContainers`), random long ones, batches up to 2^15 elements, scored paths with extreme scores.", "See GenContainers.", "One sequence per container is tested.")
n("C22", "`TraceCli` `bad` events: failure, no answer, unchanged graph; `Cli` for well-formed values.",
  "Invocations with exactly one malformed value or wrong number of values, next to well-formed ones; and well-formed ones of the same shape.", "2500 invocations in the quick tier.", "No test runs the tools with arguments.")
n("C23", "`CycleValue`: which lists are cycles, rotations, canonical form; `GenCycleValue`: TLC shows for all pairs of short lists that equal canonical forms mean rotations.",
  "Every list of up to five of five vertices generated by TLC (in several embeddings into 64-bit ids), random ones and rotations, reversals, near misses; groups of cycles compared pairwise and as set members.", "All lists to length five, random ones to several hundred vertices.", "Three lists are tested.")
n("C24", "`Cli` with a damaged flag: queries need a graph that can be read and nothing else; `GenCli` checks Damaged (only clean or random end it).",
  "Every state TLC reaches, then all queries in it with the directory tree compared byte for byte after each; held locks, read-only directories, 30 kinds of damage at the start, middle or end of the file, unreadable files.", "About 1000 sessions in the quick tier.", "No test runs a tool.")
n("C25", "`LockApi`: directory, graph, lock and running blocks; one action per library function. `GenLock` checks Refused and Returned in all states.",
  "All shortest histories to each state and call generated by TLC (with nested blocks), random histories, long lists, and two to six threads whose calls are judged by exclusion and overlap.", "Two ids and blocks nested to depth two exhaustively; random histories of up to 25 calls; 48 (100) threaded runs.", "The module has no tests.")
n("C26", "`WalkList` (what the list of yielded walks has to be at any moment) and `WalkEnum`, the queue of walks with every choice among equals; variants that prune with the complete check or pop any walk are refuted.",
  "constrained_best_iter_from on the corpus and larger sparse graphs with random constraint lists and weights (0 to 4, scaled to 2^42), to the end or stopped after 1 to 160 walks.", "Graphs of up to 33 vertices of which TLC can enumerate the walks of the length looked at (up to about 150, length 12); chains, rings and stars of 150 and 600.", "No test uses the iterator.")
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "level_notes.json"), "w"), indent=1)
