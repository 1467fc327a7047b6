From 0c34ec7b8ac470dd0f0150def978e037ab87a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 1/7] fix: keep the offspring when only one place is left in
 the new population

---
 src/algorithms.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..a25ecdd 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
-                    .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(
+                    self.model()
+                        .breed(population, breeding_parameters, &mut *rng),
+                );
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From c878299b92144d7e005fde3726116f3a8ba8dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 2/7] fix: return the best individual of the whole run, not of
 its last population

---
 src/evolution.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/evolution.rs b/src/evolution.rs
index 5fae56e..f971aea 100644
--- a/src/evolution.rs
+++ b/src/evolution.rs
@@ -57,8 +57,7 @@ where
             parameters.initial_population_size(),
             args,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_and_take_best(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm with an initial population based on a single individual.
@@ -100,8 +99,7 @@ where
             parameters.initial_population_size(),
             individual,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_and_take_best(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm on a given population.
@@ -181,6 +179,27 @@ where
 
         population
     }
+
+    /// Evolves the given population and returns the fittest individual of all its generations.
+    fn evolve_and_take_best<F>(
+        &self,
+        initial_population: Vec<M::Individual>,
+        parameters: &A::Parameters,
+        mut progress: F,
+    ) -> M::Individual
+    where
+        F: FnMut(&Population<M::Individual>) -> bool,
+    {
+        let mut best: Option<M::Individual> = None;
+        self.evolve_population(initial_population, parameters, |population| {
+            let fittest = population.fittest();
+            if !matches!(&best, Some(best) if best.fitness() >= fittest.fitness()) {
+                best = Some(fittest.clone());
+            }
+            progress(population)
+        });
+        best.unwrap()
+    }
 }
 
 impl<A, M> Default for Evolution<A, M>
-- 
2.43.0


From 72047c55b287ce371387d42bafba6fc18e589b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 3/7] fix: remove all duplicates among individuals with the
 same fitness

---
 src/population.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/population.rs b/src/population.rs
index d96fb99..13656e4 100644
--- a/src/population.rs
+++ b/src/population.rs
@@ -130,6 +130,7 @@ impl<I: Individual> From<Population<I>> for Vec<I> {
 fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {
     individuals.par_sort_unstable_by(compare_fitness);
     individuals.dedup();
+    dedup_equally_fit(individuals);
     individuals
         .iter()
         .map(|i| i.fitness())
@@ -137,3 +138,20 @@ fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> Popu
         .try_into()
         .unwrap()
 }
+
+/// Removes the duplicates that sorting by fitness has not placed next to each other, because
+/// other individuals with the same fitness are between them.
+fn dedup_equally_fit<I: Individual>(individuals: &mut Vec<I>) {
+    let mut kept = 0;
+    let mut first_equally_fit = 0;
+    for i in 0..individuals.len() {
+        if individuals[first_equally_fit].fitness() != individuals[i].fitness() {
+            first_equally_fit = kept;
+        }
+        if !individuals[first_equally_fit..kept].contains(&individuals[i]) {
+            individuals.swap(kept, i);
+            kept += 1;
+        }
+    }
+    individuals.truncate(kept);
+}
-- 
2.43.0


From 53f574a8af618c54f7bc6d264ae47f8499a7a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 4/7] fix: keep the adaptive rates defined when the initial
 population has no diversity

---
 src/algorithms/aga.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..f94ceb1 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,13 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                let relative_std = population.stats().std() / self.reference_std;
+                let diversity = if relative_std.is_nan() {
+                    // There was no diversity to compare with, and there is none now
+                    0.0
+                } else {
+                    relative_std.clamp(0.0, 1.0)
+                };
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From 653620d10b27ac4cfaa7c220f3eee118c8d69060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 5/7] fix: linear selection with a bias of 1.0 and at the end
 of the population

---
 src/operators/selection.rs | 15 +++++++--------
 src/stats.rs               |  4 ++--
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..da382b9 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -464,14 +464,13 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let index = population.len()
-            - ((population.len() as f64)
-                * (self.bias
-                    - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
-                        .sqrt()))
-                / 2.0
-                / (self.bias - 1.0)) as usize
-            - 1;
+        // The smaller root of (bias - 1) * x^2 - bias * x + r = 0, in the form that is also defined
+        // when the bias is 1.0
+        let r = rng.gen::<f64>();
+        let x =
+            2.0 * r / (self.bias + (self.bias * self.bias - 4.0 * (self.bias - 1.0) * r).sqrt());
+        let last = population.len() - 1;
+        let index = last - ((population.len() as f64 * x) as usize).min(last);
         (index, &population[index])
     }
 }
diff --git a/src/stats.rs b/src/stats.rs
index 82b7e92..a31f3c0 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -207,8 +207,8 @@ impl Stats {
 impl FromIterator<f64> for Stats {
     fn from_iter<I: IntoIterator<Item = f64>>(iter: I) -> Self {
         let mut samples = iter.into_iter();
-        let Some (first_sample) = samples.next() else {
-            return Default::default()
+        let Some(first_sample) = samples.next() else {
+            return Default::default();
         };
 
         let mut count = 1;
-- 
2.43.0


From c8addd73fe55cbcaabd5685fe2890bdb9f61cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 6/7] fix: Boltzmann selection when the exponential of the
 fitness overflows or vanishes

---
 src/operators/selection.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index da382b9..0cb323e 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -283,9 +283,11 @@ impl BoltzmannSelection {
     }
 
     /// Calculates the Boltzmann scaled fitness of an individual.
+    /// The scaled fitness is relative to the best fitness, so that its exponential neither
+    /// overflows nor vanishes for all individuals.
     #[inline]
-    fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {
-        (individual.fitness() / self.temperature).exp()
+    fn scaled_fitness<I: Individual>(&self, individual: &I, best_fitness: f64) -> f64 {
+        ((individual.fitness() - best_fitness) / self.temperature).exp()
     }
 }
 
@@ -297,18 +299,20 @@ where
     #[inline]
     fn prepare(&mut self, population: &Population<I>) {
         self.temperature *= self.cooling_rate;
+        let best_fitness = population.stats().max();
         self.total_scaled_fitness = population
             .par_iter()
-            .map(|i| self.scaled_fitness(i))
+            .map(|i| self.scaled_fitness(i, best_fitness))
             .sum();
     }
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
+        let best_fitness = population.stats().max();
         let target_fitness = rng.gen::<f64>() * self.total_scaled_fitness;
         let mut cumulative_fitness = 0.0;
         for (index, individual) in population.iter().enumerate() {
-            cumulative_fitness += self.scaled_fitness(individual);
+            cumulative_fitness += self.scaled_fitness(individual, best_fitness);
             if cumulative_fitness >= target_fitness {
                 return (index, individual);
             }
-- 
2.43.0


From b0ce5914233d7f50b29cb6c823ea29cdc12ac6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 7/7] fix: crossover of empty genomes, genomes of different
 lengths and empty ranges

---
 src/operators/crossover.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..8bd0f6e 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -71,6 +71,12 @@ impl CrossoverStrategy {
         parent2: &[G],
         rng: &mut R,
     ) -> Vec<G> {
+        assert!(parent1.len() == parent2.len());
+
+        if parent1.is_empty() {
+            return Vec::new();
+        }
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
@@ -490,6 +496,11 @@ where
         return parent1.to_vec();
     }
 
+    if range.is_empty() {
+        // Nothing to keep from parent1
+        return parent2.to_vec();
+    }
+
     let p1 = range.start;
     let p2 = range.end;
     let mut genome = vec![parent1[0]; n];
-- 
2.43.0

