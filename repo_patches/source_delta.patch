From c8298caf4bc407ff646265c82249c32f3734db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 01/19] fix: count self-loops in edge_count

A self-loop is stored once, so halving the number of stored edges was wrong:
edge counts were off and topological_sort accepted graphs with a self-loop.
---
 core/src/directed_graph.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 767923e..8071de4 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -32,12 +32,8 @@ impl DirectedGraph {
     }
 
     pub fn edge_count(&self) -> usize {
-        let mut total_count: usize = 0;
-        for (_, edges) in &self.edge_map {
-            total_count += edges.len();
-        }
-        // Each edge is saved twice => the count should be a multiple of 2, and divided by 2
-        total_count / 2
+        // An edge is saved twice, but a self-loop only once => counting each edge from its source
+        self.edges().count()
     }
 
     pub fn contains_vertex(&self, vertex_id: VertexId) -> bool {
-- 
2.43.0


From 723fef39fdbd6615f4c27b76b4f44affef38c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 02/19] fix: follow inbound edges backward in max_flow

The backward step went to the end of the inbound edge, ie the current vertex
itself, so flow could never be pushed back and the result was not maximal.
---
 core/src/algorithm/max_flow.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 009f4b9..7b21424 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -197,15 +197,16 @@ impl<'a> Iterator for AugmentingPathIter<'a> {
             let foward_edges = self
                 .graph
                 .outbound_edges(*vid)
-                // .filter(|e| !is_full(e))
                 .map(|Edge(_, v)| (v, Forward));
             let backward_edges = self
                 .graph
                 .inbound_edges(*vid)
-                .map(|Edge(_, v)| (v, Backward));
+                .map(|Edge(v, _)| (v, Backward));
+            let current_flow = self.current_flow;
             // forward + backward edges
             (foward_edges.chain(backward_edges))
                 .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
+                .filter(|(v, dir)| edge_residual_capacity(&Edge(*vid, **v), dir, current_flow) > 0)
                 .for_each(|(v, dir)| self.queue.push(path.append(*v, dir)));
 
             // Path has reach the target vertex
-- 
2.43.0


From dc8644b93b1de5ed84b1e13d4f8874ecb621acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 03/19] fix: skip unreachable vertices in dag_shortest_paths

A vertex that follows start in the topological order is not necessarily
reachable from it; the search panicked on such vertices.
---
 core/src/algorithm/shortest_path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/algorithm/shortest_path.rs b/core/src/algorithm/shortest_path.rs
index 5c37b25..32e6c5c 100644
--- a/core/src/algorithm/shortest_path.rs
+++ b/core/src/algorithm/shortest_path.rs
@@ -36,10 +36,11 @@ where
         .skip_while(|v| **v != start)
         .for_each(|v| {
             graph.outbound_edges(*v).for_each(|edge| {
-                // FIXME is it necessarily true here ...
-                let ScoredPath { path, score } = scores
-                    .get(v)
-                    .expect("The current score of the processed vertex should be in the map");
+                // Vertices that are not reachable from start have no score
+                let ScoredPath { path, score } = match scores.get(v) {
+                    Some(scored_path) => scored_path,
+                    None => return,
+                };
                 let Edge(_, w) = edge;
                 let new_score = score + scorefn(&edge);
                 if let Some(current_score) = scores.get(w).map(|x| x.score) {
-- 
2.43.0


From 3e3fbce3ae9a62a56725e1c16e8ea6e11bddf255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 04/19] fix: accept constraints that say nothing about cycles

validate rejected every set of constraints with neither ContainsCycle nor
its negation.
---
 core/src/constraint/checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/constraint/checker.rs b/core/src/constraint/checker.rs
index 299ea74..1aa4d5e 100644
--- a/core/src/constraint/checker.rs
+++ b/core/src/constraint/checker.rs
@@ -98,7 +98,7 @@ fn check_cycle_inclusion_exclusion(constraints: &Vec<Constraint>) -> Result<(),
     let contains_no_cycle = negated_constraints(constraints)
         .find(|c| **c == ContainsCycle)
         .is_some();
-    if contains_cycle != contains_no_cycle {
+    if !(contains_cycle && contains_no_cycle) {
         ok()
     } else {
         fail(format![
-- 
2.43.0


From 3ef5bfbe0a0954ce66c32f1b5c920f4b6cebb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 05/19] fix: --max-score builds a maximum score constraint

---
 command/src/arg_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/arg_utils.rs b/command/src/arg_utils.rs
index 5d72cca..be3f976 100644
--- a/command/src/arg_utils.rs
+++ b/command/src/arg_utils.rs
@@ -103,7 +103,7 @@ pub fn build_constraint_min_score(score: i64) -> Constraint {
 }
 
 pub fn build_constraint_max_score(score: i64) -> Constraint {
-    MinScore(score)
+    MaxScore(score)
 }
 
 pub fn build_constraint_exact_score(score: i64) -> Vec<Constraint> {
-- 
2.43.0


From 0eead322c5e808f4816a565fec48ad1f17f15ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 06/19] fix: find all cycles when every vertex has an inbound
 edge

Only the cycles reachable from one random vertex were found, so that the
result changed from one run to the next.
---
 core/src/iter/iter_cycle.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/iter/iter_cycle.rs b/core/src/iter/iter_cycle.rs
index a2d7208..48f607c 100644
--- a/core/src/iter/iter_cycle.rs
+++ b/core/src/iter/iter_cycle.rs
@@ -1,6 +1,7 @@
 //! Cycle iterator
 use crate::directed_graph::DirectedGraph;
 use crate::graph::{Edge, VertexId};
+use crate::iter::iter_breadth::bfs_iter_from;
 use crate::iter::iter_datastructure::{SearchQueue, Stack};
 use crate::path::Path;
 
@@ -136,9 +137,16 @@ fn find_starting_edges(graph: &DirectedGraph) -> Vec<&VertexId> {
         .filter(|vid| graph.inbound_edges(**vid).count() == 0)
         .collect::<Vec<&VertexId>>();
 
-    // If no vertex with no inbound edges can be found, we need to randomly add a vertex
+    // If no vertex with no inbound edges can be found, we need to randomly add vertices,
+    // until all the vertices can be reached from one of them
     if res.is_empty() {
-        graph.head_option().iter().for_each(|x| res.push(x));
+        let mut reached = HashSet::<VertexId>::new();
+        for vid in graph.vertices() {
+            if !reached.contains(vid) {
+                reached.extend(bfs_iter_from(graph, *vid));
+                res.push(vid);
+            }
+        }
     }
     res
 }
-- 
2.43.0


From 94f052f8ec8ff986454082424074f260f6cea4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 07/19] fix: visit vertices in depth-first order

Marking vertices as visited when they are pushed gave an order no
depth-first search produces (1->2, 1->3, 1->4, 4->2 gave 1 4 3 2).
---
 core/src/iter/iter_depth.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/iter/iter_depth.rs b/core/src/iter/iter_depth.rs
index f847faa..4994a52 100644
--- a/core/src/iter/iter_depth.rs
+++ b/core/src/iter/iter_depth.rs
@@ -21,21 +21,21 @@ impl<'a> Iterator for DepthFirstIter<'a> {
     // children are pushed in reverse order in the stack
     // First child to be considered by the DFS will be the last one
     fn next(&mut self) -> Option<VertexId> {
-        match self.stack.pop() {
-            None => None,
-            Some(vid) => {
+        while let Some(vid) = self.stack.pop() {
+            // A vertex can be pushed by several parents: it is visited when it is popped first
+            if self.visited.insert(vid) {
                 self.graph
                     .outbound_edges(vid)
                     .map(|Edge(_, v)| v)
                     .for_each(|v| {
                         if !self.visited.contains(v) {
-                            self.visited.insert(*v);
                             self.stack.push(*v)
                         }
                     });
-                Some(vid)
+                return Some(vid);
             }
         }
+        None
     }
 }
 
@@ -51,7 +51,6 @@ pub fn dfs_iter(graph: &DirectedGraph) -> DepthFirstIter {
 pub fn dfs_iter_from(graph: &DirectedGraph, start_vertex: VertexId) -> DepthFirstIter {
     let mut dfs_iter = empty_dfs_iter(graph);
     dfs_iter.stack.push(start_vertex);
-    dfs_iter.visited.insert(start_vertex);
     dfs_iter
 }
 
-- 
2.43.0


From 8a55b844453547ccd7286818b09b050a0ae260d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:55 +0000
Subject: [PATCH 08/19] fix: best-first search keeps the best path to each
 vertex

A vertex was marked visited when first discovered, so a cheaper path found
later was dropped and shortest_path could return a non-optimal path.
---
 core/src/iter/iter_best.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/core/src/iter/iter_best.rs b/core/src/iter/iter_best.rs
index 3f40749..6fa87c1 100644
--- a/core/src/iter/iter_best.rs
+++ b/core/src/iter/iter_best.rs
@@ -5,7 +5,7 @@ use crate::iter::iter_datastructure::{MinPriorityQueue, SearchQueue};
 use crate::path::Path;
 
 use crate::path::ScoredPath;
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 /// Best-First search iterator
 
@@ -15,17 +15,34 @@ where
 {
     queue: MinPriorityQueue<ScoredPath>,
     visited: HashSet<VertexId>,
+    // Score of the best path queued so far for each vertex
+    best: HashMap<VertexId, i64>,
     graph: &'a DirectedGraph,
     scorefn: F,
 }
 
+impl<'a, F> BestFirstIter<'a, F>
+where
+    F: Fn(&DirectedGraph, &Path) -> i64,
+{
+    // Next best path, ignoring the ones to vertices already reached by a better path
+    fn pop(&mut self) -> Option<ScoredPath> {
+        while let Some(weighted_path) = self.queue.pop() {
+            if self.visited.insert(*weighted_path.path.last().unwrap()) {
+                return Some(weighted_path);
+            }
+        }
+        None
+    }
+}
+
 impl<'a, F> Iterator for BestFirstIter<'a, F>
 where
     F: Fn(&DirectedGraph, &Path) -> i64,
 {
     type Item = ScoredPath;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.queue.pop() {
+        match self.pop() {
             None => None,
             Some(weighted_path) => {
                 let vid = weighted_path.path.last().unwrap();
@@ -34,13 +51,16 @@ where
                     .map(|Edge(_, v)| v)
                     .for_each(|v| {
                         if !self.visited.contains(v) {
-                            self.visited.insert(*v);
                             let new_path = weighted_path.path.append(*v);
                             let new_scored_path = ScoredPath {
                                 path: weighted_path.path.append(*v),
                                 score: (self.scorefn)(self.graph, &new_path),
                             };
-                            self.queue.push(new_scored_path)
+                            let score = new_scored_path.score;
+                            if self.best.get(v).map_or(true, |best| score < *best) {
+                                self.best.insert(*v, score);
+                                self.queue.push(new_scored_path)
+                            }
                         }
                     });
                 Some(weighted_path)
@@ -62,7 +82,6 @@ where
     let score = scorefn(&graph, &path);
     let mut iter = empty_best_iter(graph, scorefn);
     iter.queue.push(ScoredPath { path, score });
-    iter.visited.insert(start_vertex);
     iter
 }
 
@@ -74,6 +93,7 @@ where
     BestFirstIter {
         queue: MinPriorityQueue::<ScoredPath>::new(),
         visited: HashSet::new(),
+        best: HashMap::new(),
         graph: graph,
         scorefn: scorefn,
     }
-- 
2.43.0


From 294417c2825a58ea921d33190aa368f205474706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:10 +0000
Subject: [PATCH 09/19] fix: edge constraints of gc-cycle consider the closing
 edge

---
 command/src/bin/gc-cycle.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f22fa24..d3fc1e0 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -327,8 +327,27 @@ where
 {
     let path = cycle.as_path();
     let score = scorefn(graph, &path);
+    // The last edge of a cycle goes back to its first vertex
+    let closed_path = path::ScoredPath {
+        path: path.first().map_or(path.clone(), |vid| path.append(*vid)),
+        score,
+    };
     let scored_path = path::ScoredPath { path, score };
-    constraints.iter().all(|c| c.check_complete(&scored_path))
+    constraints.iter().all(|c| {
+        if is_edge_constraint(c) {
+            c.check_complete(&closed_path)
+        } else {
+            c.check_complete(&scored_path)
+        }
+    })
+}
+
+fn is_edge_constraint(constraint: &Constraint) -> bool {
+    match constraint {
+        Constraint::ContainsEdge(_) => true,
+        Constraint::Not(c) => is_edge_constraint(c),
+        _ => false,
+    }
 }
 
 // Formatter
-- 
2.43.0


From ed04953e3e25c839dd41fb153d2527988b994cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:13 +0000
Subject: [PATCH 10/19] fix: gc-cycle include/exclude options accept several
 values

---
 command/src/bin/gc-cycle.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index d3fc1e0..2ca4730 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -140,28 +140,32 @@ fn main() {
                 .long("include-all")
                 .help("Return all the cycles from the graph that are including all the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("exclude-all")
                 .long("exclude-all")
                 .help("Return all the cycles from the graph that not including any of the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("include-all-edges")
                 .long("include-all-edges")
                 .help("Return all the cycles from the graph that are including all the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .arg(
             Arg::with_name("exclude-all-edges")
                 .long("exclude-all-edges")
                 .help("Return all the cycles from the graph that not including any of the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .get_matches();
 
-- 
2.43.0


From 5e090cc8c16ac3b98e9e952a77eae9fdc9f491f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:31 +0000
Subject: [PATCH 11/19] fix: reject malformed option values instead of ignoring
 them

---
 command/src/bin/gc-csp.rs    | 18 +++++++++---------
 command/src/bin/gc-cycle.rs  | 22 +++++++++++-----------
 command/src/bin/gc-random.rs |  2 +-
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/command/src/bin/gc-csp.rs b/command/src/bin/gc-csp.rs
index 72d0f79..6f59849 100644
--- a/command/src/bin/gc-csp.rs
+++ b/command/src/bin/gc-csp.rs
@@ -148,17 +148,17 @@ fn main() {
 
     let include = args
         .values_of("include")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
 
     let exclude = args
         .values_of("exclude")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
 
     let ordered = args
         .values_of("ordered")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_ordered);
 
     let include_cycle = arg_utils::option_of(args.is_present("include-cycle"),
@@ -169,32 +169,32 @@ fn main() {
 
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_length);
 
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_length);
 
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_length);
 
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_score);
 
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_score);
 
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_score);
 
 
diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 2ca4730..662dae5 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -183,49 +183,49 @@ fn main() {
         Some(1)
     } else {
         args.value_of("take-n")
-            .and_then(|x| x.parse::<usize>().ok())
+            .map(|x| x.parse::<usize>().expect("Invalid number"))
     };
     let take_all = args.is_present("all");
     // Constraints
     let include_all = args
         .values_of("include-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
     let exclude_all = args
         .values_of("exclude-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
     let include_all_edges = args
         .values_of("include-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid edge list"))
         .map(arg_utils::build_constraint_include_edges);
     let exclude_all_edges = args
         .values_of("exclude-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid edge list"))
         .map(arg_utils::build_constraint_exclude_edges);
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_length);
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_length);
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_length);
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_score);
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_score);
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_score);
 
     let constraints = build_all_constraints(
diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 74dc781..4ab0a4f 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -71,7 +71,7 @@ fn main() {
         .and_then(|x| x.parse::<usize>().ok())
         .unwrap();
     let edge_count =  args.value_of("edge-count")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number of edges"))
         .unwrap_or(vertex_count * 3);
 
 
-- 
2.43.0


From 09563d3c539186dfdc3207a49b8afbc60faa4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:34 +0000
Subject: [PATCH 12/19] fix: report unreadable lines and out of range ids
 instead of panicking

---
 core/src/format/gcmd.rs  | 17 +++++++++++------
 core/src/format/tgf.rs   | 11 ++++++++---
 core/src/format/utils.rs |  2 +-
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fd77c0a..89a8510 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -49,24 +49,29 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &parse_id(&cap[1])?;
+        let v2 = &parse_id(&cap[2])?;
         Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = ADD_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &parse_id(&cap[1])?;
         Ok(AddVertex(VertexId(*v1)))
     } else if let Some(cap) = REMOVE_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &parse_id(&cap[1])?;
+        let v2 = &parse_id(&cap[2])?;
         Ok(RemoveEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &parse_id(&cap[1])?;
         Ok(RemoveVertex(VertexId(*v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
 }
 
+fn parse_id(id: &str) -> Result<u64, String> {
+    id.parse::<u64>()
+        .map_err(|err| format!["Invalid id '{}': {}", id, err])
+}
+
 fn is_comment(line: &str) -> bool {
     line.trim().starts_with("#")
 }
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 6b7ea0a..64a9b4f 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -33,17 +33,22 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &parse_id(&cap[1])?;
+        let v2 = &parse_id(&cap[2])?;
         Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &parse_id(&cap[1])?;
         Ok(AddVertex(VertexId(*v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
 }
 
+fn parse_id(id: &str) -> Result<u64, String> {
+    id.parse::<u64>()
+        .map_err(|err| format!["Invalid id '{}': {}", id, err])
+}
+
 fn is_comment(line: &str) -> bool {
     line.trim().starts_with("#")
 }
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 5c89f31..f84c9f8 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -39,7 +39,7 @@ where
     let reader = BufReader::new(file);
     let mut result: Vec<GraphCommand> = vec![];
     for (index, line) in reader.lines().enumerate() {
-        let line = line.unwrap(); // Ignore errors.
+        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
         if !line.is_empty() && !is_comment(&line) {
             match parse_line(&line) {
                 Ok(command) => result.push(command),
-- 
2.43.0


From e2dc5f937e3798a22afca715ae3403cb544c428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:07 +0000
Subject: [PATCH 13/19] fix: saving a graph reports write errors and never
 leaves a partial file

---
 core/src/format/gcmd.rs | 7 +++++--
 core/src/format/tgf.rs  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index 89a8510..d7c06b5 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -82,7 +82,9 @@ fn is_comment(line: &str) -> bool {
 
 /// Saves a DirectedGraph into a gcmd file
 pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
-    let file = File::create(filename)?;
+    // The existing file is only replaced once the new one is complete
+    let tmp_filename = format!["{}.tmp", filename];
+    let file = File::create(&tmp_filename)?;
     let mut buffered = BufWriter::new(file);
     for vertex in graph.vertices() {
         let VertexId(vertex_id) = vertex;
@@ -92,7 +94,8 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln![buffered, "AddEdge {} {}", src, dest]?;
     }
-    Ok(())
+    buffered.flush()?;
+    std::fs::rename(&tmp_filename, filename)
 }
 
 /// Updates an existing file with a list of GraphCommand
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 64a9b4f..94c6f7a 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -69,7 +69,7 @@ pub fn save(graph: &DirectedGraph, filename: String) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln!(buffered, "{} {}", src, dest)?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7fdf2356ca76ad9842740e734d323a63fa5723f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:09 +0000
Subject: [PATCH 14/19] fix: append all commands or none, and report write
 errors

---
 core/src/format/gcmd.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index d7c06b5..8e863e6 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -101,13 +101,18 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
 /// Updates an existing file with a list of GraphCommand
 /// New commands will be appended at the end of the file
 pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
-    let file = OpenOptions::new().write(true).append(true).open(filename)?;
-    let mut buffered = BufWriter::new(file);
+    let mut file = OpenOptions::new().write(true).append(true).open(filename)?;
+    let length = file.metadata()?.len();
+    let mut buffered = vec![];
     for command in commands {
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
     }
-    Ok(())
+    // All or nothing: a partially written list of commands is discarded
+    file.write_all(&buffered).or_else(|err| {
+        file.set_len(length)?;
+        Err(err)
+    })
 }
 
 fn command_into_line(command: GraphCommand) -> String {
-- 
2.43.0


From b3afa340c4ffeb7f46da865541229317ef1c9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 15/19] fix: taking the lock fails when it is already taken

The lock file was opened whether or not it existed, so two commands could
hold the lock at once and the first to finish removed the other's lock.
---
 command/src/graph_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 28e40d6..d941d21 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -26,7 +26,11 @@ pub fn init(root_dir: &str) -> io::Result<()> {
 /// Creates a lock file indicating a command is already getting process
 /// Any command execution be put on hold / fail straight away if the lock file exists
 pub fn lock(root_dir: &str) -> io::Result<()> {
-    touch(lock_path(root_dir).as_ref())
+    fs::OpenOptions::new()
+        .create_new(true)
+        .write(true)
+        .open(lock_path(root_dir).as_ref())
+        .map(|_| ())
 }
 
 /// Removes the lock file to indicate
-- 
2.43.0


From bcd995885f9a9f221adb237a7b63b68b6209dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:46 +0000
Subject: [PATCH 16/19] fix: gc-add and gc-delete apply all their options or
 fail

Errors were dropped and reported as success, and a bad value in a later
option left the earlier ones applied.
---
 command/src/bin/gc-add.rs    | 25 ++++++++++++++++++-------
 command/src/bin/gc-delete.rs | 17 ++++++++++++++---
 command/src/graph_utils.rs   |  2 +-
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/command/src/bin/gc-add.rs b/command/src/bin/gc-add.rs
index 87940d6..94ed90c 100644
--- a/command/src/bin/gc-add.rs
+++ b/command/src/bin/gc-add.rs
@@ -3,6 +3,7 @@ use gc_command::arg_utils;
 use gc_command::graph_utils;
 use gc_command::version;
 use gc_core::graph::VertexId;
+use gc_core::graph_command::GraphCommand::{AddEdge, AddVertex};
 
 fn main() {
     let args = App::new("gc-add")
@@ -87,10 +88,13 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let reverse_edges = args.is_present("reverse");
 
+    // All options are applied at once, or none of them
+    let mut commands = vec![];
+
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
-        .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::add_vertices(path, vids));
+        .map(|vids| vids.map(|vid| VertexId(vid)))
+        .map(|vids| commands.extend(vids.map(|vid| AddVertex(vid))));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -100,13 +104,13 @@ fn main() {
                 .expect("Invalid number of vertices. Must be an even number")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dst)| AddEdge(*src, *dst))));
 
     args.values_of("chain")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dst)| AddEdge(*src, *dst))));
 
     args.values_of("cycle")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -114,18 +118,25 @@ fn main() {
             cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dst)| AddEdge(*src, *dst))));
 
     args.values_of("star")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| star_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dst)| AddEdge(*src, *dst))));
 
     args.values_of("clique")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dst)| AddEdge(*src, *dst))));
+
+    if !commands.is_empty() {
+        graph_utils::apply_graph_commands(path, commands).expect(&format![
+            "Couldn't update graph at '{}'. It might not exist, or is currently locked (check 'lock' file)",
+            path
+        ]);
+    }
 }
 
 fn chain_from_vertices(vertices: Vec<VertexId>) -> Vec<(VertexId, VertexId)> {
diff --git a/command/src/bin/gc-delete.rs b/command/src/bin/gc-delete.rs
index 905a639..00984f6 100644
--- a/command/src/bin/gc-delete.rs
+++ b/command/src/bin/gc-delete.rs
@@ -3,6 +3,7 @@ use gc_command::arg_utils;
 use gc_command::graph_utils;
 use gc_command::version;
 use gc_core::graph::VertexId;
+use gc_core::graph_command::GraphCommand::{RemoveEdge, RemoveVertex};
 
 fn main() {
     let args = App::new("gc-delete")
@@ -41,14 +42,24 @@ fn main() {
 
     let path = args.value_of("path").unwrap();
 
+    // All options are applied at once, or none of them
+    let mut commands = vec![];
+
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
-        .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::remove_vertices(path, vids));
+        .map(|vids| vids.map(|vid| VertexId(vid)))
+        .map(|vids| commands.extend(vids.map(|vid| RemoveVertex(vid))));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
         .map(|vids| arg_utils::as_vertex_tuple(vids).expect("Invalid number of vertices. Must be an even number"))
-        .map(|vids| graph_utils::remove_edges(path, vids));
+        .map(|vids| commands.extend(vids.iter().map(|(src, dst)| RemoveEdge(*src, *dst))));
+
+    if !commands.is_empty() {
+        graph_utils::apply_graph_commands(path, commands).expect(&format![
+            "Couldn't update graph at '{}'. It might not exist, or is currently locked (check 'lock' file)",
+            path
+        ]);
+    }
 }
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index d941d21..2925cf9 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -164,7 +164,7 @@ fn command_path(root_dir: &str) -> Box<path::Path> {
 }
 
 // Applies a GraphCommand on the file, making sure the lock is acquired and released
-fn apply_graph_commands(root_dir: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
+pub fn apply_graph_commands(root_dir: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
     with_lock(root_dir, || {
         let path = command_path(root_dir);
         gcmd::add_commands(path.as_ref().to_str().unwrap(), commands)
-- 
2.43.0


From 9a20860791db84f323fa0843fe8851e2f355364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:49 +0000
Subject: [PATCH 17/19] fix: gc-build holds the lock while rewriting the
 commands

Commands added between the load and the save were lost.
---
 command/src/bin/gc-build.rs |  5 +----
 command/src/graph_utils.rs  | 10 ++++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index ba884ec..ab9c2aa 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -31,14 +31,11 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let verbose = args.is_present("verbose");
 
-    let graph = graph_utils::load_graph(path).expect("Couldn't load graph");
+    let graph = graph_utils::build_graph(path).expect("Couldn't build graph");
     if verbose {
         println!("Vertices: {}", graph.vertex_count());
         println!("Edges: {}", graph.edge_count());
     }
 
-    graph_utils::save_graph_as_commands(path, &graph)
-        .expect("Couldn't save graph. Data maybe lost !");
-
     println!("Done.")
 }
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 2925cf9..0ce6ba3 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -76,6 +76,16 @@ pub fn save_graph_as_commands(filepath: &str, graph: &DirectedGraph) -> io::Resu
     )
 }
 
+/// Replaces the commands of a graph by the shortest list building it, and returns the graph
+pub fn build_graph(root_dir: &str) -> io::Result<DirectedGraph> {
+    with_lock(root_dir, || {
+        let graph =
+            load_graph(root_dir).map_err(|msg| io::Error::new(io::ErrorKind::InvalidData, msg))?;
+        save_graph_as_commands(root_dir, &graph)?;
+        Ok(graph)
+    })
+}
+
 /// Cleans-up the graph directory structure
 /// This can not be undone
 pub fn clean(root_dir: &str) -> std::io::Result<()> {
-- 
2.43.0


From 70b946288d829515f6fca3d8b6a8d2aba154dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:51 +0000
Subject: [PATCH 18/19] fix: gc-random replaces the graph in one step, under
 the lock

---
 command/src/bin/gc-random.rs | 11 +----------
 command/src/graph_utils.rs   |  8 ++++++++
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 4ab0a4f..b013245 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -89,19 +89,10 @@ fn main() {
             }
         }
 
-        // Cleaning current graph first
-        graph_utils::clean(path).expect(&format![
+        graph_utils::replace_graph(path, &random_graph).expect(&format![
             "A problem occured. Path '{}' might not exist, or the graph is currently lock (check 'lock' file)",
             &path
         ]);
-        graph_utils::init(path).expect(&format![
-            "A problem occured. Unable to create a new graph at '{}' (check directory structure and 'lock' file)",
-            &path
-        ]);
-        graph_utils::save_graph_as_commands(path, &random_graph).expect(&format![
-            "A problem occured. Unable to save graph at '{}' (check directory structure and 'lock' file)",
-            &path
-        ]);
     } else {
         println!("Couldn't generate graph.")
     }
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 0ce6ba3..7fb1091 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -86,6 +86,14 @@ pub fn build_graph(root_dir: &str) -> io::Result<DirectedGraph> {
     })
 }
 
+/// Replaces an existing graph
+pub fn replace_graph(root_dir: &str, graph: &DirectedGraph) -> io::Result<()> {
+    with_lock(root_dir, || {
+        fs::metadata(root_path(root_dir).as_ref())?;
+        save_graph_as_commands(root_dir, graph)
+    })
+}
+
 /// Cleans-up the graph directory structure
 /// This can not be undone
 pub fn clean(root_dir: &str) -> std::io::Result<()> {
-- 
2.43.0


From 6d3dee43d516631f6dcf9b372f47158967c173e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:54 +0000
Subject: [PATCH 19/19] fix: gc-random creates the requested number of vertices
 and terminates

---
 command/src/bin/gc-random.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index b013245..6e504f5 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -109,10 +109,16 @@ fn creates_random_dag(vertex_count: usize, edge_count: usize) -> Option<Directed
     let layer = 10;
     let layer_size = (vertex_count / layer) as u64;
     let mut graph = DirectedGraph::new();
+    for vid in 1..=vertex_count {
+        graph.add_vertex(VertexId(vid as u64));
+    }
+    // Only that many edges can join vertices of different layers
+    let span = vertex_count.saturating_sub(layer_size as usize + 1);
+    let edge_count = edge_count.min(span * (span + 1) / 2);
     while graph.edge_count() < edge_count {
         for vid in 1..vertex_count {
             let this = vid as u64;
-            let other = rng.gen::<u64>();
+            let other = rng.gen_range(1, vertex_count as u64 + 1);
             let (src, dst) = (this.min(other), this.max(other));
             if dst-src > layer_size {
                 graph.add_edge(Edge(VertexId(src), VertexId(dst)));
-- 
2.43.0

