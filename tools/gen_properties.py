#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

CORE='core/src/'; CMD='command/src/'; BIN='command/src/bin/'

prop('C01', 'The in-memory graph behaves as a set of vertices and a set of edges',
 "After any sequence of vertex/edge additions and removals (called directly, or as graph commands, reverted commands included), every observer of a directed graph (membership tests, vertex and edge counts, emptiness, vertex and edge listings, in/out edges, in/out degrees) agrees with one abstract pair (vertex set, edge set): adding an edge adds its missing endpoints, removing a vertex removes exactly the edges that touch it, nothing is stored twice, and repeated or inapplicable operations change nothing. Adding an edge and removing a vertex report whether they had an effect. Self-loops are ordinary edges: they count once everywhere.",
 ['histories', 'inputs'], 'every finite sequence of AddVertex/RemoveVertex/AddEdge/RemoveEdge over any u64 ids, self-loops included',
 'The unit tests replay a dozen fixed histories without self-loops and never compare all observers with each other; the guarantee is over all histories.',
 [CORE+'directed_graph.rs', CORE+'graph.rs', CORE+'graph_command.rs'],
 [('every edge is indexed under both endpoints, once for a self-loop', CORE+'directed_graph.rs add_edge/remove_edge/remove_vertex'), ('command application', CORE+'graph_command.rs apply_to/revert')],
 [('edge_map', 'vertex -> list of incident edges', CORE+'directed_graph.rs')],
 ['public methods of DirectedGraph', 'GraphCommand::apply_commands'])

prop('C02', 'The stored graph is the replay of all accepted commands, in order',
 "At any moment the graph that every gc-* tool sees in a directory is exactly what results from applying, in order, all additions and deletions accepted since that graph was initialised or last cleaned, each option (vertex, edge, chain, cycle, star, clique, reverse) standing for exactly the vertices/edges its help text names. Initialising an existing graph keeps its content; a command given for a directory without a graph fails with a non-zero exit status instead of pretending to succeed. The statistics tool reports the exact vertex count, edge count, smallest and largest id of that graph.",
 ['histories', 'inputs'], 'every sequence of gc-init/gc-add/gc-delete/gc-build/gc-clean/gc-desc invocations with any u64 ids and option combinations',
 'No existing test runs a command-line tool or touches graph_utils at all; the guarantee spans histories of several processes.',
 [BIN+'gc-add.rs', BIN+'gc-delete.rs', BIN+'gc-desc.rs', BIN+'gc-init.rs', CMD+'graph_utils.rs', CMD+'arg_utils.rs', CORE+'format/gcmd.rs', CORE+'graph_command.rs'],
 [('append-only command log replayed on load', CMD+'graph_utils.rs apply_graph_commands/load_graph'), ('option expansion', BIN+'gc-add.rs *_from_vertices')],
 [('commands file', 'log of graph commands', '<path>/.graph/commands')],
 ['exit status and stdout of the gc-* binaries', '<path>/.graph/commands'])

prop('C03', 'Saving, compacting and reloading a graph never changes it',
 "Writing any graph to a file in the command format or in TGF and reading it back, turning it into commands and applying them to an empty graph, or running the compaction tool on a directory any number of times, yields the same vertex set (isolated vertices included) and the same edge set (self-loops included). The compacted log is a faithful replacement of the original one: further additions and deletions behave as if compaction had not happened.",
 ['inputs', 'histories'], 'every graph over u64 ids (0 and 2^64-1 included), every history that produced it',
 'There is no round-trip test: the tests only parse or print single lines.',
 [CORE+'format/gcmd.rs', CORE+'format/tgf.rs', CORE+'format/utils.rs', CORE+'graph_command.rs', BIN+'gc-build.rs', CMD+'graph_utils.rs'],
 [('writer emits all vertices, then all edges', CORE+'format/gcmd.rs save; tgf.rs save; graph_command.rs as_commands'), ('reader replays lines', CORE+'format/utils.rs')],
 (), ['files written by save', 'gc-build', 'read / read_as_commands'])

prop('C04', 'Graph files are parsed exactly or rejected with the offending line',
 "Reading a graph file never crashes: every non-blank, non-comment line either is understood as exactly the command it spells (same kind, same ids, file order) or makes the read fail with an error that gives the 1-based number of the first bad line. Ids outside the 64-bit range, digits of other scripts, unknown or misspelt commands, missing or surplus operands and undecodable bytes are rejected, never misread; in TGF a trailing non-numeric label is ignored.",
 ['inputs'], 'every byte content of a file in the command format or in TGF',
 'Five example lines per format are tested; overflow, unicode digits, CRLF, multi-line error positions and binary content are not.',
 [CORE+'format/gcmd.rs', CORE+'format/tgf.rs', CORE+'format/utils.rs'],
 [('anchored line grammar', CORE+'format/gcmd.rs parse_line; tgf.rs parse_line'), ('line numbering, blank and comment skipping', CORE+'format/utils.rs read_as_commands')],
 (), ['gcmd::read*, tgf::read*'])

prop('C05', 'Concurrent commands on one graph are serialised and lose no update',
 "When several gc-* processes work on the same graph directory at once, under any interleaving, the outcome (exit statuses, printed answers, final graph) is one that some sequential order of the successful commands could have produced: no update acknowledged with exit status 0 is lost or duplicated, and a reader sees the graph as it was at one moment of its run. While another command holds the lock file, a modifying command (add, delete, build, clean, random) fails with a non-zero status, changes nothing, and leaves that lock in place; a finished command, successful or not, leaves no lock of its own behind. (When an initialisation races a clean, either may fail, and the clean may have taken effect when it does.)",
 ['schedules', 'histories'], 'every interleaving of the file operations of two or more concurrently running commands, and every history with a lock file present',
 'The tests are single-threaded and never touch the lock or the command log.',
 [CMD+'graph_utils.rs', BIN+'gc-add.rs', BIN+'gc-delete.rs', BIN+'gc-build.rs', BIN+'gc-clean.rs', BIN+'gc-random.rs', CORE+'format/gcmd.rs'],
 [('exclusive lock file', CMD+'graph_utils.rs lock/with_lock/unlock'), ('append of a batch / replacement of the log', CORE+'format/gcmd.rs add_commands/save')],
 [('lock file', 'a modifying command is in progress', '<path>/lock'), ('commands file', 'the shared log', '<path>/.graph/commands')],
 ['exit status, stdout, files'])

prop('C06', 'A crash or failed write never corrupts the graph or passes for success',
 "If a modifying command (add, delete, build) is killed between any two of its file operations, or one of them fails or is cut short (a short write, a disk that fills up half-way), the graph directory still loads (after removing a stale lock file) and holds exactly the graph from before the command or the graph from after it. A command whose data did not reach the file exits with a non-zero status: success is only ever reported when the change can be read back.",
 ['crash_points', 'fault_sequences'], 'every file operation of a command as a kill point or as the place of an injected error (ENOSPC, EIO, short write)',
 'No test injects a fault, kills a process or checks an error path.',
 [CORE+'format/gcmd.rs', CORE+'format/utils.rs', CMD+'graph_utils.rs', BIN+'gc-build.rs', BIN+'gc-add.rs', BIN+'gc-delete.rs'],
 [('whole batch appended at once, rolled back on error', CORE+'format/gcmd.rs add_commands'), ('log replaced atomically', CORE+'format/gcmd.rs save'), ('errors propagated to the exit status', BIN+'gc-add.rs, gc-delete.rs, gc-build.rs')],
 [('commands file', 'persistent state', '<path>/.graph/commands')], ['exit status', 'graph loaded afterwards'])

prop('C07', 'A topological order is returned exactly for acyclic graphs and is correct',
 "For every graph, the topological sort, the DAG test and the topological-sort tool all answer 'acyclic' exactly when the graph has no directed cycle, a self-loop being a cycle. The order returned lists every vertex exactly once (isolated ones included) and places the source of every edge before its target.",
 ['inputs', 'histories'], 'every directed graph, however it was built',
 'Six fixed graphs are tested, none with a self-loop or an isolated vertex.',
 [CORE+'algorithm/topo_sort.rs', CORE+'directed_graph.rs', BIN+'gc-topo-sort.rs'],
 [("Kahn's algorithm, all edges removed iff acyclic", CORE+'algorithm/topo_sort.rs topological_sort')],
 (), ['topological_sort, is_dag, try_dag', 'gc-topo-sort stdout'])

prop('C08', 'Cycle enumeration reports exactly the elementary cycles, each once',
 "Every cycle reported is a real elementary cycle of the graph, no cycle is reported twice under rotation, each is given starting at its smallest vertex, and all elementary cycles (self-loops included) are reported. First, take-n, count, girth, shortest, longest and Hamiltonian answers are those of that set (a girth of infinity / no cycle when it is empty), in the library and in the cycle tool alike.",
 ['inputs', 'histories'], 'every directed graph; independent of hash-map iteration order',
 'Three fixed graphs are tested; completeness over all graphs and all iteration orders of the randomised hash map is out of reach of samples.',
 [CORE+'iter/iter_cycle.rs', CORE+'algorithm/cycle.rs', BIN+'gc-cycle.rs'],
 [('DFS over simple paths from the start vertices, canonical form, returned set', CORE+'iter/iter_cycle.rs')],
 (), ['cycle_iter and algorithm::cycle', 'gc-cycle stdout'])

prop('C09', 'The cycle tool returns exactly the cycles that satisfy the given constraints',
 "With any combination of the length, score, include/exclude-vertices and include/exclude-edges options, the cycle tool's count, all, head, take-n, shortest and longest answers range over exactly those enumerated cycles that satisfy every option: length and score are the number of vertices (= edges) of the cycle, all edges of a cycle count including the one that closes it, and options that take several ids accept several.",
 ['inputs', 'configurations'], 'every graph and every combination of constraint options',
 'No test covers the cycle tool or the option-to-constraint mapping.',
 [BIN+'gc-cycle.rs', CMD+'arg_utils.rs', CORE+'constraint/constraint.rs', CORE+'iter/iter_cycle.rs'],
 [('constraint filter on enumerated cycles', BIN+'gc-cycle.rs check/build_all_constraints'), ('option to constraint mapping', CMD+'arg_utils.rs build_constraint_*')],
 (), ['gc-cycle stdout'])

prop('C10', 'Shortest path search finds a cheapest path whenever one exists',
 "For every graph, non-negative edge costs and consistent heuristic (zero at the target), the shortest-path search between two vertices of the graph returns a real path from start to end whose reported score is its cost and is minimal among all paths, and reports 'no path' exactly when the end is unreachable. The short-path tool does so with cost one per edge.",
 ['inputs'], 'every graph, non-negative integer edge costs, consistent heuristic, start and end',
 'One fixed graph is tested; optimality is a statement over all graphs and costs.',
 [CORE+'search/a_star.rs', CORE+'iter/iter_best.rs', CORE+'path.rs', BIN+'gc-short-path.rs'],
 [('best-first expansion by score', CORE+'iter/iter_best.rs'), ('first pop of the target is optimal', CORE+'search/a_star.rs shortest_path')],
 (), ['a_star::shortest_path', 'gc-short-path stdout'])

prop('C11', 'Constrained shortest path returns a cheapest walk meeting all constraints',
 "For every graph, positive edge costs, consistent heuristic (zero at the target) and set of constraints, if some walk from start to end satisfies all constraints then the constrained search returns such a walk of minimal cost (vertices may repeat when the constraints ask for it), with its true score. If none exists the search ends and says so. The csp tool does so with cost one per edge, each of its options standing for the constraint its help text names.",
 ['inputs', 'configurations'], 'every graph, positive edge costs, start, end and set of constraints',
 "Both existing tests of the constrained search are 'assert true' placeholders.",
 [CORE+'search/a_star.rs', CORE+'iter/iter_best_constraint.rs', CORE+'constraint/constraint.rs', BIN+'gc-csp.rs', CMD+'arg_utils.rs'],
 [('best-first over walks pruned by partial checks', CORE+'iter/iter_best_constraint.rs'), ('first popped walk passing all complete checks', CORE+'search/a_star.rs constrained_shortest_path')],
 (), ['a_star::constrained_shortest_path', 'gc-csp stdout'])

prop('C12', 'Constraints mean what they say and pruning never discards a viable prefix',
 "Evaluated on a complete path, every constraint (contains vertex/edge, ordered vertices, contains cycle, min/max length and score, and any nesting of and/or/xor/not) is true exactly when the path has the named property. Evaluated on a partial path, the pruning check is never false while some extension of the path (more vertices, score not lower) could still satisfy the constraint. A path's own observers (size, emptiness, first and last vertex, vertex and edge lists) describe the same vertex sequence, and appending to a path leaves the original as it was.",
 ['inputs', 'programs'], 'every constraint expression of any nesting, every path and score, every extension',
 'The tests sample single-level combinations on two paths; soundness of pruning quantifies over all extensions.',
 [CORE+'constraint/constraint.rs', CORE+'path.rs'],
 [('complete evaluation', CORE+'constraint/constraint.rs check_complete'), ('sound over-approximation', CORE+'constraint/constraint.rs check_partial')],
 (), ['Constraint::check_complete / check_partial', 'Path::contains_*'])

prop('C13', 'Constraint validation rejects only contradictory or duplicated constraints',
 "The constraint-set validator rejects a set exactly when, among its top-level constraints, a vertex is both required (directly or as an end of a required edge) and excluded, an edge is both required and excluded, a cycle is both required and excluded, a min/max length or score bound is given more than once, or a minimum exceeds the corresponding maximum; every other set, the empty one included, is accepted. A rejected set without duplicated bounds is unsatisfiable by any path.",
 ['inputs'], 'every list of constraints in any order',
 'Only the private helpers are tested on nine lists; the public validator is never called by a test.',
 [CORE+'constraint/checker.rs'],
 [('six pairwise compatibility checks', CORE+'constraint/checker.rs validate')], (), ['checker::validate'])

prop('C14', 'Single-source shortest and longest path algorithms are exact',
 "From a start vertex of the graph, the DAG shortest-path, DAG longest-path, Bellman-Ford and SPFA algorithms return an entry for exactly the reachable vertices, each with a real path from the start and a score that is that path's total weight and is optimal, for any integer weights, negative ones included, whose totals stay well within 64 bits. Bellman-Ford reports failure exactly when a negative-weight cycle is reachable from the start; none of them crashes.",
 ['inputs'], 'every (acyclic where required) graph, integer weights, start vertex; SPFA without reachable negative cycles',
 'All algorithms are tested on one and the same DAG from its unique source, so unreachable vertices, cycles and negative cycles never occur.',
 [CORE+'algorithm/shortest_path.rs', CORE+'algorithm/longest_path.rs', CORE+'algorithm/topo_sort.rs'],
 [('relaxation in topological order', CORE+'algorithm/shortest_path.rs dag_shortest_paths'), ('|V|-1 rounds + negative cycle scan', CORE+'algorithm/shortest_path.rs bellman_ford'), ('queue-driven relaxation', CORE+'algorithm/shortest_path.rs spfa'), ('negated weights', CORE+'algorithm/longest_path.rs')],
 (), ['the public functions of both modules'])

prop('C15', 'Max flow returns a feasible flow of maximum value',
 "For every graph, capacity assignment and distinct source and sink, the result gives each edge of the graph a flow between zero and its capacity (reporting that capacity), conserves flow at every vertex other than source and sink, has the reported value as the net flow into the sink, and that value equals the capacity of a minimum cut (capacities whose total fits in 64 bits).",
 ['inputs'], 'every graph (antiparallel edges, self-loops, dead ends included), non-negative capacities, distinct source and sink',
 'Three fixed networks, all solvable by greedy augmentation, are tested.',
 [CORE+'algorithm/max_flow.rs'],
 [('augmentation along forward and backward residual edges', CORE+'algorithm/max_flow.rs AugmentingPathIter/update_flow')],
 (), ['max_flow'])

prop('C16', 'Graph traversals visit each reachable vertex exactly once, in their order',
 "Breadth-first, depth-first and best-first iteration from a vertex yield exactly the vertices reachable from it, each once, starting with it, and end. Breadth-first yields them by non-decreasing distance, depth-first in an order a depth-first search can produce (each next vertex is an unvisited successor of the deepest visited vertex that still has one), best-first with a real path, its score, and, when extending a path never lowers its score, by non-decreasing score.",
 ['inputs'], 'every graph and start vertex, every successor order',
 'Two fixed graphs are tested per iterator.',
 [CORE+'iter/iter_breadth.rs', CORE+'iter/iter_depth.rs', CORE+'iter/iter_best.rs', CORE+'iter/iter_datastructure.rs'],
 [('frontier plus visited set', CORE+'iter/iter_breadth.rs, iter_depth.rs, iter_best.rs')], (), ['bfs_iter*, dfs_iter*, best_iter_from'])

prop('C17', 'Path enumeration and Hamiltonian search are exact',
 "Breadth-first and depth-first path iteration from a vertex yield exactly the simple paths that start there, each once: shorter ones first, respectively every path directly followed by all of its extensions. The Hamiltonian iterator yields exactly the paths that visit every vertex once, each once; the first-path and is-Hamiltonian answers agree with it (an empty graph is Hamiltonian), and the path checker accepts a path of the graph exactly when it is Hamiltonian.",
 ['inputs'], 'every graph and start vertex',
 'A handful of fixed graphs; only counts are asserted for Hamiltonian paths.',
 [CORE+'iter/iter_breadth.rs', CORE+'iter/iter_depth.rs', CORE+'algorithm/hamiltonian.rs', CORE+'path.rs'],
 [('path frontier without repeated vertices', CORE+'iter/iter_breadth.rs, iter_depth.rs'), ('size filter', CORE+'algorithm/hamiltonian.rs')],
 (), ['bfs_path_iter_from, dfs_iter_path_from, hamiltonian::*'])

prop('C18', 'Attribute mappings hold exactly the last value set for each key',
 "After any sequence of attribute commands and direct additions/removals on a vertex or edge attribute mapping, looking a key up gives the value most recently set for exactly that key (edges being directed) or nothing, or the supplied default, if it was never set or was removed since. Commands for the other kind of element are ignored and reported as having had no effect; additions report success, a batch is applied in order to its end, and removal reports whether something was removed; the mapping keeps its name.",
 ['histories', 'inputs'], 'every history of attribute commands on both kinds of mapping',
 'The attribute module has no tests at all.',
 [CORE+'attribute/mapping.rs', CORE+'attribute/attribute_command.rs'],
 [('hash map per attribute', CORE+'attribute/mapping.rs'), ('command dispatch', CORE+'attribute/attribute_command.rs')], (), ['AttributeMapping, AttributeCommand'])

prop('C19', 'Random graph generation honours the requested size and is acyclic',
 "On an existing graph, and once confirmed, the random-graph tool always terminates and replaces the stored graph by one with exactly the requested number of vertices, no directed cycle, and at least the requested number of edges, or as many as its layering allows (edges join vertices whose ids differ by more than a tenth of the vertex count) when fewer fit.",
 ['configurations', 'inputs'], 'every vertex count and edge count, every random choice',
 'The random-graph tool has no tests; its outcome is random.',
 [BIN+'gc-random.rs', CMD+'graph_utils.rs'],
 [('edges go from smaller to larger ids across layers', BIN+'gc-random.rs creates_random_dag')], (), ['gc-random exit status and the graph loaded afterwards'])

prop('C20', 'Destructive commands act only on confirmation and only inside the graph',
 "Cleaning and random generation discard the existing graph only when forced or when the user answers yes (or y); any other answer, an empty one or end of input leaves the graph byte for byte as it was. Whatever happens, no gc-* command creates, changes or removes anything outside the graph's own .graph directory and lock file of the directory it was pointed at; after a clean the graph is gone and can be initialised afresh as empty.",
 ['histories', 'inputs'], 'every answer on standard input, every surrounding directory content, every history of commands',
 'No test runs the tools.',
 [BIN+'gc-clean.rs', BIN+'gc-random.rs', CMD+'arg_utils.rs', CMD+'graph_utils.rs'],
 [('confirmation prompt', CMD+'arg_utils.rs confirmation_yes_no'), ('removal of the graph directory only', CMD+'graph_utils.rs clean')], (), ['directory tree before/after'])

prop('C21', 'Search containers keep their order discipline and lose nothing',
 "Under any interleaving of pushes and pops, the stack pops the most recently pushed remaining element, the queue the least recently pushed one, the max (min) priority queue an element that no remaining element exceeds (undercuts); every element pushed is popped exactly once and a pop gives nothing exactly when the container is empty.",
 ['histories'], 'every sequence of pushes and pops, duplicates and ties included',
 'One push-all-then-pop-all sequence per container is tested.',
 [CORE+'iter/iter_datastructure.rs', CORE+'path.rs'],
 [('linked list / binary heap wrappers', CORE+'iter/iter_datastructure.rs'), ('scored paths order by score', CORE+'path.rs')], (), ['SearchQueue::push/pop'])

prop('C22', 'A malformed option value is rejected, never silently ignored',
 "When a value given to an option of gc-add, gc-delete, gc-short-path, gc-csp, gc-cycle or gc-random is not the number the option needs, or the values are not as many as it needs (none at all, an odd list for edges, a single vertex for a chain, cycle, star, clique or vertex order, several for a bound), the tool exits with a non-zero status, gives no answer, and does not change the stored graph. Well-formed values, up to the largest 64-bit id, are accepted.",
 ['inputs', 'configurations'], 'every value for every option',
 'No test runs the tools with arguments.',
 [CMD+'arg_utils.rs', BIN+'gc-add.rs', BIN+'gc-delete.rs', BIN+'gc-short-path.rs', BIN+'gc-csp.rs', BIN+'gc-cycle.rs', BIN+'gc-random.rs'],
 [('argument parsing', CMD+'arg_utils.rs and the main functions')], (), ['exit status, stdout, commands file'])

prop('C23', 'Cycle values identify rotations and nothing else',
 "A cycle value can be built from a vertex list or a path exactly when it has at least two vertices, none of them repeated; it keeps that list (iteration, length, path). Its canonical form is the rotation that starts at its smallest vertex: two cycles are rotations of one another exactly when their canonical forms are equal (as values, and as members of a set); canonicalising again changes nothing; the canonical test is true exactly for canonical forms.",
 ['inputs'], 'every list of u64 vertex ids',
 'Three vertex lists are tested; nothing relates two cycles to each other.',
 [CORE+'iter/iter_cycle.rs', CORE+'path.rs'],
 [('rotation to the smallest vertex', CORE+'iter/iter_cycle.rs canonical/is_canonical'), ('validation on construction', CORE+'iter/iter_cycle.rs from_vertices/from_path')], (), ['public methods of Cycle'])

prop('C24', 'Queries only read, and a missing or damaged graph is never answered from',
 "The query tools (desc, topo-sort, cycle, short-path, csp) only read: they leave every file byte for byte as it was, need no lock, answer while another command holds it and in a directory they may only read, and answer from the stored graph alone. When there is no graph, or its file cannot be read or contains a line that is not a command, every query and the compaction fail with a non-zero status and no answer, the compaction leaving the file as it was; cleaning, or replacing it by a random graph, makes the directory usable again.",
 ['histories', 'inputs', 'configurations'], 'every query in every state of the directory: graph, lock, permissions, damaged content',
 'No test runs a tool or damages a file.',
 [BIN+'gc-desc.rs', BIN+'gc-topo-sort.rs', BIN+'gc-cycle.rs', BIN+'gc-short-path.rs', BIN+'gc-csp.rs', BIN+'gc-build.rs', CMD+'graph_utils.rs', CORE+'format/gcmd.rs', CORE+'format/utils.rs'],
 [('loading without a lock', CMD+'graph_utils.rs load_graph'), ('errors of the reader end the tool', 'main functions of the query tools')],
 [('commands file', 'log of graph commands', '<path>/.graph/commands')], ['exit status, stdout, directory tree before/after'])

prop('C25', 'The graph directory library locks, changes and reports as documented',
 "For any sequence of calls on a directory (init, lock, unlock, is_locked, with_lock with nested calls, the addition and removal functions, save, load, clean), and for calls from several threads: a lock is taken exactly when the directory exists and no lock is held, and released exactly when one is held; is_locked says which. with_lock runs its block exactly when it could take the lock, gives back the block's own value or error, and leaves no lock behind in either case. Additions, removals and clean work exactly when a graph is there and the lock is free, take effect exactly when they report success, leave no lock behind, and leave a lock held by somebody else in place. Saving replaces the graph and init creates an empty one if there is none, locked or not; load gives the current graph or an error when there is none.",
 ['histories', 'schedules'], 'every sequence of library calls, nested calls inside a locked block and calls from several threads included',
 'The module has no tests.',
 [CMD+'graph_utils.rs', CORE+'format/gcmd.rs'],
 [('exclusive creation of the lock file', CMD+'graph_utils.rs lock'), ('release on both outcomes', CMD+'graph_utils.rs with_lock')],
 [('lock file', 'a modifying call is in progress', '<path>/lock')], ['results of the functions of graph_utils'])

prop('C26', 'Constrained enumeration yields walks best first and misses no solution',
 "The constrained best-first iterator started at a vertex yields walks of the graph from that vertex, the one-vertex walk first, each at most once and one step longer than one yielded before, each with the score the given function has for it, and never one while a walk with a smaller score is waiting. It never steps beyond a bound on length, score or repetition given as a constraint, and with such a bound it ends. No walk that leads to a walk meeting all constraints is left out: when the iterator ends, every walk from the start that meets all constraints has been yielded.",
 ['inputs'], 'every graph, start vertex, non-negative edge scores and list of constraints',
 'No test uses the iterator; the two tests of the search on top of it assert nothing.',
 [CORE+'iter/iter_best_constraint.rs', CORE+'constraint/constraint.rs', CORE+'iter/iter_datastructure.rs', CORE+'path.rs'],
 [('queue of scored walks, extensions pruned by partial checks', CORE+'iter/iter_best_constraint.rs next')],
 [('queue', 'walks waiting, least score first', CORE+'iter/iter_best_constraint.rs')], ['constrained_best_iter_from(..).next()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
