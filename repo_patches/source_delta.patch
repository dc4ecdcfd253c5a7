From 708c30dee78b923ee1744de5829dd6653dba18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:20 +0000
Subject: [PATCH 01/11] fix: pairing returns no families for an empty
 population instead of panicking

---
 optlib/src/genetic/pairing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..4d7af1d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,9 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +80,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From ab6f306ac87da5249c8a9ac631864bed387234e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 02/11] fix: an individual with NaN fitness no longer wins
 every tournament

---
 optlib/src/genetic/pairing/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index 4d7af1d..e0c0695 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -100,6 +100,11 @@ impl<T> Pairing<T> for Tournament {
                     if population[challenger].get_goal() < population[best_ind_index].get_goal() {
                         best_ind_index = challenger;
                     }
+
+                    // An individual with NaN fitness loses against any other
+                    if population[best_ind_index].get_goal().is_nan() {
+                        best_ind_index = challenger;
+                    }
                 }
                 family.push(best_ind_index);
             }
-- 
2.43.0


From 9e193cb2c2a45ce0b969397f38dec12488fea007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 03/11] fix: kill_worst kills exactly the requested number of
 the worst living individuals

---
 optlib/src/genetic/selection/mod.rs | 46 ++++++++---------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..5326158 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -55,42 +55,20 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 /// Function to kill worst individuals in population.
 /// `count` - how many individuals must be killed.
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
-    // List of indexes of individuals in population to be kill
-    let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
+    // List of indexes of alive individuals in population, the worst ones go first.
+    let mut kill_list: Vec<usize> = (0..population.len())
+        .filter(|n| population[*n].is_alive())
+        .collect();
 
-    // Index of the items in kill_list with best fitness
-    let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
+    // NaN is worse than any other fitness
+    kill_list.sort_by(|n, m| {
+        let (left, right) = (population[*n].get_fitness(), population[*m].get_fitness());
+        right
+            .partial_cmp(&left)
+            .unwrap_or_else(|| right.is_nan().cmp(&left.is_nan()))
+    });
 
-    for n in 1..population.len() {
-        if !population[n].is_alive() {
-            continue;
-        }
-
-        if kill_list.len() < count {
-            kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
-                best_index = kill_list.len() - 1;
-            }
-        } else {
-            if population[n].get_fitness() > best_fitness {
-                kill_list[best_index] = n;
-
-                // Find new best item
-                best_index = 0;
-                best_fitness = population[kill_list[best_index]].get_fitness();
-                for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
-                        best_index = m;
-                        best_fitness = population[kill_list[best_index]].get_fitness();
-                    }
-                }
-            }
-        }
-    }
-
-    for n in kill_list {
+    for n in kill_list.into_iter().take(count) {
         population[n].kill();
     }
 }
-- 
2.43.0


From e32a49c47133d65b1098ffa757a1eb5597227c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 04/11] fix: LinearInertia stays at its minimum after the last
 iteration

---
 optlib/src/particleswarm/velocitycalc/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optlib/src/particleswarm/velocitycalc/mod.rs b/optlib/src/particleswarm/velocitycalc/mod.rs
index 90615e8..d0a7c0a 100644
--- a/optlib/src/particleswarm/velocitycalc/mod.rs
+++ b/optlib/src/particleswarm/velocitycalc/mod.rs
@@ -277,6 +277,10 @@ impl<T: Float> LinearInertia<T> {
 
 impl<T: Float> Inertia<T> for LinearInertia<T> {
     fn get(&mut self, iteration: usize) -> T {
+        if iteration >= self.t_max {
+            return self.w_min;
+        }
+
         self.w_max
             - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()
     }
-- 
2.43.0


From 28183d138ad22a9e317e9400321e2730f81a6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 05/11] fix: composite stop checkers show every state to every
 member

---
 optlib/src/tools/stopchecker/mod.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..a049c9e 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -25,13 +25,10 @@ impl<T> CompositeAny<T> {
 
 impl<T> StopChecker<T> for CompositeAny<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
-        for checker in &mut self.stop_checkers {
-            if checker.can_stop(state) {
-                return true;
-            }
-        }
-
-        false
+        // Every checker must see every state even if the answer is already known
+        self.stop_checkers
+            .iter_mut()
+            .fold(false, |stop, checker| checker.can_stop(state) || stop)
     }
 }
 
@@ -50,13 +47,10 @@ impl<T> CompositeAll<T> {
 
 impl<T> StopChecker<T> for CompositeAll<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
-        for checker in &mut self.stop_checkers {
-            if !checker.can_stop(state) {
-                return false;
-            }
-        }
-
-        true
+        // Every checker must see every state even if the answer is already known
+        self.stop_checkers
+            .iter_mut()
+            .fold(true, |stop, checker| checker.can_stop(state) && stop)
     }
 }
 
-- 
2.43.0


From 79e15f064fa20ba8f642037a1591536f229dc339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 06/11] fix: GoalNotChange starts afresh with every run

---
 optlib/src/tools/stopchecker/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index a049c9e..06f75ff 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -104,6 +104,12 @@ impl GoalNotChange {
 
 impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // A new run begins, forget about previous one
+        if state.get_iteration() < self.change_iter || state.get_iteration() == 0 {
+            self.old_goal = f64::MAX;
+            self.change_iter = 0;
+        }
+
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
-- 
2.43.0


From 780d19b7d0a6cb287d9db437939550f6ca67134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 07/11] fix: one aligned statistics record per run, whatever
 pauses and aborts

---
 optlib/src/tools/statistics/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..e9fbb25 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -171,8 +171,16 @@ impl<T: Clone> Statistics<T> {
         &self.convergence
     }
 
-    fn add_result(&mut self, state: &dyn AlgorithmState<T>) {
-        self.results.push(state.get_best_solution().clone());
+    /// Add the record about a new run. The run has no result until it is finished.
+    fn add_run(&mut self) {
+        self.results.push(None);
+        self.convergence.push(vec![]);
+    }
+
+    /// Set result of the last run.
+    fn set_result(&mut self, state: &dyn AlgorithmState<T>) {
+        let run_index = self.results.len() - 1;
+        self.results[run_index] = state.get_best_solution();
     }
 
     fn add_convergence(&mut self, state: &dyn AlgorithmState<T>) {
@@ -391,7 +399,7 @@ impl<'a, T> StatisticsLogger<'a, T> {
 impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
     /// Will be called after algorithm initializing.
     fn start(&mut self, _state: &dyn AlgorithmState<T>) {
-        self.statistics.convergence.push(vec![]);
+        self.statistics.add_run();
     }
 
     /// Will be called before run algorithm (possibly after result algorithm after pause).
@@ -404,7 +412,7 @@ impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
 
     /// Will be called when algorithm will be stopped.
     fn finish(&mut self, state: &dyn AlgorithmState<T>) {
-        self.statistics.add_result(state);
+        self.statistics.set_result(state);
     }
 }
 
-- 
2.43.0


From c1a61c3dc6123ae78d0360ebb514b094c1ca0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 08/11] fix: statistics logger attached to a started run
 records it as a run of its own

---
 optlib/src/tools/statistics/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index e9fbb25..2f1afef 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -388,11 +388,17 @@ fn vectorize<T>(v1: &Vec<T>, v2: &Vec<T>, func: fn(&T, &T) -> T) -> Vec<T> {
 
 pub struct StatisticsLogger<'a, T> {
     statistics: &'a mut Statistics<T>,
+
+    /// True if the logger has already added the record about current run.
+    run_added: bool,
 }
 
 impl<'a, T> StatisticsLogger<'a, T> {
     pub fn new(statistics: &'a mut Statistics<T>) -> Self {
-        Self { statistics }
+        Self {
+            statistics,
+            run_added: false,
+        }
     }
 }
 
@@ -400,10 +406,17 @@ impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
     /// Will be called after algorithm initializing.
     fn start(&mut self, _state: &dyn AlgorithmState<T>) {
         self.statistics.add_run();
+        self.run_added = true;
     }
 
     /// Will be called before run algorithm (possibly after result algorithm after pause).
-    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {}
+    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {
+        // The logger may be attached to the algorithm which has been started without it
+        if !self.run_added {
+            self.statistics.add_run();
+            self.run_added = true;
+        }
+    }
 
     /// Will be called in the end of iteration.
     fn next_iteration(&mut self, state: &dyn AlgorithmState<T>) {
-- 
2.43.0


From 8aa1effe9fc88c2e954af6f9a4d5f4b86b836e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 09/11] fix: a solution with NaN coordinate does not count as
 success

---
 optlib/src/tools/statistics/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 2f1afef..1e83f3f 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,8 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            // NaN is not a success, so the comparison must not be reversed
+            if !((*x - *e).abs() <= *d) {
                 return false;
             }
         }
-- 
2.43.0


From d532fcc034fb48cc63c316eae3bf82534a3bb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 10/11] fix: no-change criterion counts from the first seen
 best solution, NaN included

---
 optlib/src/tools/stopchecker/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 06f75ff..3c90970 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -80,7 +80,7 @@ pub struct GoalNotChange {
     max_iter: usize,
     delta: f64,
 
-    old_goal: f64,
+    old_goal: Option<f64>,
     change_iter: usize,
 }
 
@@ -96,7 +96,7 @@ impl GoalNotChange {
         GoalNotChange {
             max_iter,
             delta,
-            old_goal: f64::MAX,
+            old_goal: None,
             change_iter: 0,
         }
     }
@@ -106,16 +106,24 @@ impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
         // A new run begins, forget about previous one
         if state.get_iteration() < self.change_iter || state.get_iteration() == 0 {
-            self.old_goal = f64::MAX;
+            self.old_goal = None;
             self.change_iter = 0;
         }
 
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
-                let delta = (best_goal - self.old_goal).abs();
-                if delta > self.delta {
-                    self.old_goal = best_goal;
+                // NaN differs from any number, but not from NaN
+                let changed = match self.old_goal {
+                    None => true,
+                    Some(old_goal) => {
+                        (best_goal - old_goal).abs() > self.delta
+                            || best_goal.is_nan() != old_goal.is_nan()
+                    }
+                };
+
+                if changed {
+                    self.old_goal = Some(best_goal);
                     self.change_iter = state.get_iteration();
                 }
 
-- 
2.43.0


From 1d3dcc1512829c4e453832eafae54bd792a970c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 11/11] fix: a resumed swarm keeps the best and worst of an
 aborted iteration

---
 optlib/src/particleswarm/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optlib/src/particleswarm/mod.rs b/optlib/src/particleswarm/mod.rs
index 9df5b1b..47ae956 100644
--- a/optlib/src/particleswarm/mod.rs
+++ b/optlib/src/particleswarm/mod.rs
@@ -339,6 +339,10 @@ impl<'a, T: Clone + Float> Optimizer<Coordinate<T>> for ParticleSwarmOptimizer<'
 impl<'a, T: Clone + Float> IterativeOptimizer<Coordinate<T>> for ParticleSwarmOptimizer<'a, T> {
     /// Main algorithm steps is here
     fn next_iterations(&mut self) -> Option<Solution<Coordinate<T>>> {
+        // An iteration aborted by a panic has moved some of the particles only
+        self.swarm.update_best_particle();
+        self.swarm.update_worst_particle();
+
         for logger in &mut self.loggers {
             logger.resume(&self.swarm);
         }
-- 
2.43.0

