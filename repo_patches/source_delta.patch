From 0c34c42a52118c92f07b2af244cca4290f70dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 01/24] fix: fitness no longer removes entries from the
 caller's conditions list

---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From 0e40aaf87898f047d3da61d6134b06a8246905a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 02/24] fix: genotype and phenotype are swapped back when the
 objective function raises

---
 baumeva/ga/fitness/base_fitness.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..eba5b9e 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -158,6 +158,19 @@ class BaseFitness(ABC):
             ga_data.population.get_phenotype()
             ga_data.population.swap()
 
+        try:
+            self.calc_population(ga_data)
+        finally:
+            if ga_data.population.is_phenotype:
+                ga_data.population.swap()
+
+    def calc_population(self, ga_data: GaData) -> None:
+        """
+        Calculate fitness scores of all individuals without score.
+
+        :param ga_data: GaData instance containing population and related data.
+        :return: None
+        """
         for individ in ga_data.population:
             if individ['score'] is None:
                 values = self.calc_obj_func(genotype=individ['genotype'])
@@ -179,6 +192,3 @@ class BaseFitness(ABC):
                     individ['obj_score'] = values
                     penalty_value = 0
                 individ['score'] = self.get_fitness_score(individ, penalty_value)
-
-        if ga_data.population.is_phenotype:
-            ga_data.population.swap()
-- 
2.43.0


From 37864c039529a8625131026a5c66b05ebd16815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 03/24] fix: falsy input data is passed to the objective
 function

---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index eba5b9e..bc6fbcd 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
-- 
2.43.0


From 85134fb928a4dbf5ce9bbc6816d5334fa7fd3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 04/24] fix: an objective function may return its value as a
 one-element sequence

---
 baumeva/ga/fitness/base_fitness.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index bc6fbcd..072bd35 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -110,6 +110,7 @@ class BaseFitness(ABC):
                                     f' optimization must be equal 1')
             except TypeError:
                 return values
+            return values[0]
 
     def calc_obj_func(self, genotype: List[Union[int, float]]) -> Union[int, float, list]:
         """
-- 
2.43.0


From 89924a58d6239b2db52af4fe9cf777b888f4f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 05/24] fix: Pareto ranking passes input data to the objective
 function

---
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..67df7e5 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(x['phenotype'])
+        y_score = self.calc_obj_func(y['phenotype'])
 
         if x_score == y_score:
             return None
-- 
2.43.0


From 7a4df586a979401ef98d9b14df219853fa4dda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 06/24] fix: objective scores of constrained multiobjective
 tasks keep the order returned

---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 67df7e5..e61f48a 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From 627074cb66ccd9f45c8b1ba853c1efeb9155a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 07/24] fix: FFGA scores of carried-over individuals follow
 their current rank

---
 baumeva/ga/fitness/ffga_fitness.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..623488d 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,6 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        # ranks of individuals from the previous generation have changed too
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From 1f16cf2bf07ad88bfe7c9dbb53566dce1d4a3196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 08/24] fix: history of pareto sets is not rewritten by later
 generations

---
 baumeva/ga/multi_ga_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index 2aa0b4d..d66ce28 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -48,7 +48,7 @@ class MultiGaData(GaData):
             else:
                 break
 
-        self.historical_best.append(pareto_set)
+        self.historical_best.append(deepcopy(pareto_set))
 
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
-- 
2.43.0


From bb734ae0054a8ceab1aca417cb0f0c8ba359a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 09/24] fix: an unchanged pareto set counts as no improvement

---
 baumeva/ga/multi_ga_data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index d66ce28..86efaf2 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -53,7 +53,7 @@ class MultiGaData(GaData):
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
 
-        if self.best_solution['pareto_set'] != pareto_set:
+        if self.get_genotypes(self.best_solution['pareto_set']) != self.get_genotypes(pareto_set):
             self.best_solution['pareto_set'] = deepcopy(pareto_set)
             self.best_solution['idx_generation'] = self.idx_generation
             self.num_generation_no_improve = 0
@@ -62,6 +62,15 @@ class MultiGaData(GaData):
 
         self.idx_generation += 1
 
+    @staticmethod
+    def get_genotypes(individs: list) -> set:
+        """
+        Method for getting the different genotypes of individuals.
+        :param individs: list of individuals;
+        :return: set of genotypes.
+        """
+        return set(tuple(individ['genotype']) for individ in individs)
+
     @staticmethod
     def print_list(head, lst, label) -> None:
         print(f'\t{head}:')
-- 
2.43.0


From 71ccc9fa7fe406666767221da52511edcc06ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 10/24] fix: an individual added in place of a duplicate elite
 is a separate copy

---
 baumeva/ga/new_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 64d964c..52a5732 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from random import sample
 from .ga_data import GaData
 
@@ -52,7 +53,7 @@ class NewGeneration:
 
                 z_counter += 1
                 if -num_elites - 1 - z_counter < 0:
-                    elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))
+                    elites[0:0] = deepcopy(sample(ga_data.population, num_elites + 1 - len(elites)))
                     break
                 elites.insert(0, ga_data.population[-num_elites - 1 - z_counter])
                 loop_counter += 1
-- 
2.43.0


From 62803ce4d3b6f5d7bb5e5b6b92e5e95aedee527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 11/24] fix: random transfer of parents works for
 multiobjective populations of less than 11 individuals

---
 baumeva/ga/multi_new_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_new_generation.py b/baumeva/ga/multi_new_generation.py
index e04d2b9..423c70a 100644
--- a/baumeva/ga/multi_new_generation.py
+++ b/baumeva/ga/multi_new_generation.py
@@ -39,7 +39,7 @@ class MultiNewGeneration(NewGeneration):
         # if not ga_data.population.is_sorted:
         #     ga_data.population.sort_by_dict('rank')
 
-        self.add_parents(ga_data, num_elites=10)
+        self.add_parents(ga_data, num_elites=min(10, len(ga_data.population) - 1))
 
         ga_data.population = ga_data.children
         ga_data.population.is_sorted = False
-- 
2.43.0


From c8de5fbba016350d72f336d1d25bd1c0df8568d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 12/24] fix: the random generator is seeded once per run, not
 again in every generation

---
 baumeva/ga/populations/base_population.py        | 5 +++--
 baumeva/ga/populations/binary_gray_population.py | 2 +-
 baumeva/ga/populations/binary_population.py      | 2 +-
 baumeva/ga/populations/cat_population.py         | 2 +-
 baumeva/ga/populations/order_cat_population.py   | 2 +-
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/baumeva/ga/populations/base_population.py b/baumeva/ga/populations/base_population.py
index 4e7c408..6e1c3bc 100644
--- a/baumeva/ga/populations/base_population.py
+++ b/baumeva/ga/populations/base_population.py
@@ -15,10 +15,11 @@ class BasePopulation(ABC, list):
     input_population: List[list] = None
     rnd_seed: Optional[int] = None
 
-    def __init__(self) -> None:
+    def __init__(self, is_seed: bool = True) -> None:
         super().__init__()
         self.rnd_seed = generator.rnd_seed
-        seed(self.rnd_seed)
+        if is_seed:
+            seed(self.rnd_seed)
 
     @abstractmethod
     def set_params(self, num_individ: int, gens: tuple, input_population: List[list] = None) -> None:
diff --git a/baumeva/ga/populations/binary_gray_population.py b/baumeva/ga/populations/binary_gray_population.py
index 9c3af6d..423d6fe 100644
--- a/baumeva/ga/populations/binary_gray_population.py
+++ b/baumeva/ga/populations/binary_gray_population.py
@@ -55,4 +55,4 @@ class BinaryGrayPopulation(BinaryPopulation):
 
         :return: An empty instance of BinaryGrayPopulation.
         """
-        return BinaryGrayPopulation()
+        return BinaryGrayPopulation(is_seed=False)
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 1c9fdd4..f8067e6 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -163,7 +163,7 @@ class BinaryPopulation(BasePopulation):
 
         :return: An empty instance of BinaryPopulation.
         """
-        new_population = BinaryPopulation()
+        new_population = BinaryPopulation(is_seed=False)
         new_population.is_phenotype = True
 
         return new_population
diff --git a/baumeva/ga/populations/cat_population.py b/baumeva/ga/populations/cat_population.py
index 2278b62..c017af1 100644
--- a/baumeva/ga/populations/cat_population.py
+++ b/baumeva/ga/populations/cat_population.py
@@ -68,4 +68,4 @@ class CatPopulation(BasePopulation):
 
         :return: An empty instance of CatPopulation.
         """
-        return CatPopulation()
+        return CatPopulation(is_seed=False)
diff --git a/baumeva/ga/populations/order_cat_population.py b/baumeva/ga/populations/order_cat_population.py
index 49bbd6e..fd0808f 100644
--- a/baumeva/ga/populations/order_cat_population.py
+++ b/baumeva/ga/populations/order_cat_population.py
@@ -27,4 +27,4 @@ class OrderCatPopulation(CatPopulation):
 
         :return: An empty instance of OrderCatPopulation.
         """
-        return OrderCatPopulation()
+        return OrderCatPopulation(is_seed=False)
-- 
2.43.0


From 699eceaaa3a4162fe842e5f2c91de96907d67ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 13/24] fix: mutation level 0.0 does not mutate

---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..8a3d751 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -56,7 +56,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From b311210799eb489a0f1bdf8277059a0f2968028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 14/24] fix: named level of BinStringMutation follows the
 length of the individuals at hand

---
 baumeva/ga/mutations/bin_string_mutation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index d51ffd1..c3ecb14 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -44,11 +44,13 @@ class BinStringMutation(BaseMutation):
         """
         if type(self.mutation_lvl) is str:
             if self.mutation_lvl == 'weak':
-                self.mutation_lvl = 0.3 / len_bin_str
+                self.mutation_prob = 0.3 / len_bin_str
             elif self.mutation_lvl == 'normal':
-                self.mutation_lvl = 1 / len_bin_str
+                self.mutation_prob = 1 / len_bin_str
             else:
-                self.mutation_lvl = 3 / len_bin_str
+                self.mutation_prob = 3 / len_bin_str
+        else:
+            self.mutation_prob = self.mutation_lvl
 
     def determines_mutation(self) -> bool:
         """
@@ -56,7 +58,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_prob * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 81b8127b6baa9752dc8063ae9047d2cd9419ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 15/24] fix: CategoricalMutation accepts the named mutation
 levels

---
 baumeva/ga/mutations/categorical_mutation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 8a3d751..9483075 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,8 +22,8 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
+            if self.mutation_lvl in ['weak', 'normal', 'strong']:
+                pass
             else:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
@@ -44,11 +44,13 @@ class CategoricalMutation(BaseMutation):
         """
         if type(self.mutation_lvl) is str:
             if self.mutation_lvl == 'weak':
-                self.mutation_lvl = 0.3 / len_bin_str
+                self.mutation_prob = 0.3 / len_bin_str
             elif self.mutation_lvl == 'normal':
-                self.mutation_lvl = 1 / len_bin_str
+                self.mutation_prob = 1 / len_bin_str
             else:
-                self.mutation_lvl = 3 / len_bin_str
+                self.mutation_prob = 3 / len_bin_str
+        else:
+            self.mutation_prob = self.mutation_lvl
 
     def determines_mutation(self) -> bool:
         """
@@ -56,7 +58,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_prob * self.rnd_samples:
             return True
         else:
             return False
@@ -91,5 +93,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From bb56ed080ff93b7e0fde98cf57248f7248fc1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 16/24] fix: StaticPenalty uses the coefficient of the interval
 that contains the violation

---
 baumeva/ga/penalties/static_penalty.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..c945c7b 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,23 +43,23 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
-                    res = 0
+                if values[i] == 0:
                     continue
                 for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
+                    if val[0] < abs(values[i]) <= val[1]:
                         res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                        break
+                else:
+                    raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
             elif conditional == '<=':
                 if values[i] <= 0:
-                    res = 0
                     continue
                 for idx, val in enumerate(self.inequality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                    if val[0] < values[i] <= val[1]:
+                        res = self.inequality_r_coef[i][idx] * max(0, values[i])
+                        break
+                else:
+                    raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
             self.sum_conditional += res ** self.power
-- 
2.43.0


From 3927e26537f03876389ec32b12e3cb1c546cba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 17/24] fix: VEGA uses the requested tournament size

---
 baumeva/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..96028b0 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -83,7 +83,7 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives, tournament_size=self.tournament_size)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
-- 
2.43.0


From 57748cde16692d449f0e5a23fa9ae0a8c8a06b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 18/24] fix: VEGA counts the objectives inside the declared
 space and with input data

---
 baumeva/vega.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 96028b0..979264f 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -63,14 +63,25 @@ class VEGA:
         self.transfer_parents = transfer_parents
         self.is_print = is_print
 
+    def get_num_objectives(self) -> int:
+        """
+        Method for getting the number of objectives: from conditions or, without them, from one value inside of gens.
+        :return: int
+        """
+        if self.conditions is not None:
+            return self.conditions.count('optimize')
+        point = [gen[0] for gen in self.gens]
+        if self.input_data is not None:
+            return len(self.obj_function(self.input_data, point))
+        return len(self.obj_function(point))
+
     def optimize(self) -> GaData:
         """
         Main method of VEGA.
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
+        num_objectives = self.get_num_objectives()
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
-- 
2.43.0


From d3cc85ca5bb768f4e32b0f55aed34f93bc7caf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 19/24] fix: balanced selection works with negative and
 all-zero scores

Scores are negative whenever no optimal value is given (minimisation): the
cumulative values then left [0, 1] and decreased, so that less fit
individuals were preferred, and a sum of 0 raised ZeroDivisionError.
Scores are shifted by their minimum when one is negative; all-equal zero
scores are drawn uniformly.
---
 baumeva/ga/selections/balanced_selection.py   | 22 ++++++++++++++++---
 .../ga/selections/vega_balanced_selection.py  | 14 ++++--------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 8830793..b1ac872 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -30,6 +30,15 @@ class BalancedSelection(BaseSelection):
         """
         return int(ga_data.children_percent * ga_data.population.num_individ)
 
+    def get_scores(self, ga_data: GaData) -> list:
+        """
+        Method for getting the values the selection probabilities are proportional to.
+
+        :param ga_data: GaData instance containing population and related data.
+        :return: list of values, one per individual.
+        """
+        return [ind[self.score_type] for ind in ga_data.population]
+
     def add_probabilities(self, ga_data: GaData):
         """
         Calculate and store selection probabilities based on individuals' scores.
@@ -38,11 +47,18 @@ class BalancedSelection(BaseSelection):
         :return: None
         """
         self.selection_scores = [0]
-        sum_scores = sum(ind[self.score_type] for ind in ga_data.population)
+        scores = self.get_scores(ga_data)
+        min_score = min(scores)
+        if min_score < 0:
+            scores = [score - min_score for score in scores]
+        sum_scores = sum(scores)
+        if sum_scores == 0:
+            scores = [1] * len(scores)
+            sum_scores = len(scores)
         proportional = 0
 
-        for ind in ga_data.population:
-            proportional += ind[self.score_type] / sum_scores
+        for score in scores:
+            proportional += score / sum_scores
             self.selection_scores.append(proportional)
 
     def get_index(self):
diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..590711e 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -29,20 +29,14 @@ class VEGABalancedSelection(BalancedSelection):
         """
         return int(ga_data.children_percent * ga_data.population.num_individ / self.num_objectives)
 
-    def add_probabilities(self, ga_data: MultiGaData):
+    def get_scores(self, ga_data: MultiGaData) -> list:
         """
-        Calculate and store selection probabilities based on individuals' scores.
+        Method for getting the values the selection probabilities are proportional to.
 
         :param ga_data: MultiGaData instance containing population and related data.
-        :return: None
+        :return: list of values, one per individual.
         """
-        self.selection_scores = [0]
-        sum_scores = sum(ind[self.score_type][self.idx] for ind in ga_data.population)
-        proportional = 0
-
-        for ind in ga_data.population:
-            proportional += ind[self.score_type][self.idx] / sum_scores
-            self.selection_scores.append(proportional)
+        return [ind[self.score_type][self.idx] for ind in ga_data.population]
 
     def execute(self, ga_data: MultiGaData) -> None:
         """
-- 
2.43.0


From 11e9ed9824febb856f9f396a1c9be8fce4e54006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 20/24] fix: balanced selection never picks an index outside
 the population or of zero probability

The nearest cumulative value was the last one, 1.0 or slightly below by
rounding, for a draw above it: index len(population), IndexError. With equal
neighbouring values (zero scores) the nearest one was the first.
---
 baumeva/ga/selections/balanced_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index b1ac872..736d724 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -1,3 +1,4 @@
+from bisect import bisect_right
 from random import random
 from copy import deepcopy
 from .base_selection import BaseSelection
@@ -68,8 +69,7 @@ class BalancedSelection(BaseSelection):
         :return: The index of the selected individual.
         """
         rand_value = random()
-        idx = min(range(len(self.selection_scores)), key=lambda i: abs(self.selection_scores[i] - rand_value))
-        return idx if rand_value >= self.selection_scores[idx] else idx - 1
+        return min(bisect_right(self.selection_scores, rand_value), len(self.selection_scores) - 1) - 1
 
     def balanced_selection(self, ga_data: GaData):
         """
-- 
2.43.0


From 70740d8445d5e33bbc6bca0238e9fd7a48c5b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 21/24] fix: balanced selection ends when one individual holds
 the whole probability

The second parent was drawn until it differed from the first, forever when
no other individual can be drawn. After 100 attempts it is one of the others.
---
 baumeva/ga/selections/balanced_selection.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 736d724..8ea7022 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -1,5 +1,5 @@
 from bisect import bisect_right
-from random import random
+from random import choice, random
 from copy import deepcopy
 from .base_selection import BaseSelection
 from baumeva.ga import GaData
@@ -12,6 +12,7 @@ class BalancedSelection(BaseSelection):
     """
     score_type = 'score'
     selection_scores: list = None
+    max_attempts: int = 100
 
     def __init__(self):
         """
@@ -81,11 +82,14 @@ class BalancedSelection(BaseSelection):
         total_num_parents = self.get_total_num_parents(ga_data)
 
         for _ in range(total_num_parents):
-            idxs = []
-            while len(idxs) < 2:
+            idxs = [self.get_index()]
+            for _ in range(self.max_attempts):
                 idx = self.get_index()
-                if len(idxs) == 0 or idx != idxs[-1]:
-                    idxs.append(idx)
+                if idx != idxs[0]:
+                    break
+            else:
+                idx = choice([i for i in range(len(ga_data.population)) if i != idxs[0]])
+            idxs.append(idx)
 
             ga_data.parents.extend(deepcopy(ga_data.population[idx]) for idx in idxs)
 
-- 
2.43.0


From 162ba648b3c7d1ee94a12d83e9de76bb4263cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 22/24] fix: ranked selection ranks by score and leaves the
 individuals' data alone

Ranks were positions in the population, which is not sorted by score in the
first generation (nor ever per objective), tie averages were off by one, and
the Pareto rank of multiobjective individuals was overwritten.
---
 baumeva/ga/selections/ranked_selection.py     | 37 ++++++++-----------
 .../ga/selections/vega_ranked_selection.py    | 31 +++-------------
 2 files changed, 22 insertions(+), 46 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..377c912 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -1,3 +1,4 @@
+from bisect import bisect_left, bisect_right
 from .balanced_selection import BalancedSelection
 from baumeva.ga import GaData
 
@@ -8,8 +9,6 @@ class RankedSelection(BalancedSelection):
     Inherits from BalancedSelection.
     """
 
-    score_type = 'rank'
-
     def __init__(self):
         """
         Initialize the RankedSelection instance.
@@ -18,29 +17,25 @@ class RankedSelection(BalancedSelection):
         """
         super().__init__()
 
-    def add_probabilities(self, ga_data: GaData):
+    def get_scores(self, ga_data: GaData) -> list:
         """
-        Calculate ranks and selection probabilities based on individuals' scores.
+        Calculate ranks based on individuals' scores, individuals with equal scores share their average rank.
 
         :param ga_data: GaData instance containing population and related data.
-        :return: None
+        :return: list of ranks, one per individual.
+        """
+        return self.get_ranks([ind['score'] for ind in ga_data.population])
+
+    @staticmethod
+    def get_ranks(scores: list) -> list:
+        """
+        Calculate ranks of scores (1 is the lowest score), equal scores share their average rank.
+
+        :param scores: list of scores.
+        :return: list of ranks.
         """
-        prev_score = -1
-        count = 1
-        for idx in range(len(ga_data.population)):
-            rank = idx + 1
-            ga_data.population[idx]['rank'] = rank
-            if ga_data.population[idx]['score'] == prev_score:
-                count += 1
-                if rank == len(ga_data.population):
-                    for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'] = (sum(range(rank - count, rank)) + count) / count
-            elif count > 1:
-                for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'] = (sum(range(idx - count, idx)) + count) / count
-                count = 1
-            prev_score = ga_data.population[idx]['score']
-        super().add_probabilities(ga_data)
+        ordered = sorted(scores)
+        return [(bisect_left(ordered, score) + 1 + bisect_right(ordered, score)) / 2 for score in scores]
 
     def execute(self, ga_data: GaData) -> None:
         """
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..8685121 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -1,3 +1,4 @@
+from .ranked_selection import RankedSelection
 from .vega_balanced_selection import VEGABalancedSelection
 from baumeva.ga import MultiGaData
 
@@ -8,8 +9,6 @@ class VEGARankedSelection(VEGABalancedSelection):
     Inherits from VEGABalancedSelection.
     """
 
-    score_type = 'rank'
-
     def __init__(self, num_objectives: int):
         """
         Initializes the VEGARankedSelection instance.
@@ -18,29 +17,14 @@ class VEGARankedSelection(VEGABalancedSelection):
         """
         super().__init__(num_objectives)
 
-    def add_probabilities(self, ga_data: MultiGaData):
+    def get_scores(self, ga_data: MultiGaData) -> list:
         """
-        Calculates ranks and selection probabilities based on individuals' scores.
+        Calculate ranks based on individuals' scores with respect to the current objective.
 
-        :param ga_data: GaData instance containing population and related data.
-        :return: None
+        :param ga_data: MultiGaData instance containing population and related data.
+        :return: list of ranks, one per individual.
         """
-        prev_score = -1
-        count = 1
-        for idx in range(len(ga_data.population)):
-            rank = idx + 1
-            ga_data.population[idx]['rank'][self.idx] = rank
-            if ga_data.population[idx]['score'][self.idx] == prev_score:
-                count += 1
-                if rank == len(ga_data.population):
-                    for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
-            elif count > 1:
-                for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
-                count = 1
-            prev_score = ga_data.population[idx]['score'][self.idx]
-        super().add_probabilities(ga_data)
+        return RankedSelection.get_ranks([ind['score'][self.idx] for ind in ga_data.population])
 
     def execute(self, ga_data: MultiGaData) -> None:
         """
@@ -49,7 +33,4 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        for ind in ga_data.population:
-            ind['rank'] = [0]*self.num_objectives
-
         super().execute(ga_data)
-- 
2.43.0


From 63f62013f436258f0ec1d9eaf5ee14e189c06586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:32 +0000
Subject: [PATCH 23/24] fix: VEGA balanced and ranked selection keep the
 parents of every objective

The parents were emptied for each objective, only those of the last remained.
---
 baumeva/ga/selections/vega_balanced_selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 590711e..792a78c 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -45,5 +45,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        super(BalancedSelection, self).execute(ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From 63037dfb015d8643fbd0e99b59a506ad31dfa54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:05 +0000
Subject: [PATCH 24/24] fix: tournament selection works in a population that
 has become smaller

MultiNewGeneration carries over the rank-one individuals only, so with a low
children percentage the population shrinks: a tournament of the whole
population always has the same winner (the second parent was looked for
forever), a larger one raised ValueError.
---
 baumeva/ga/selections/tournament_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/tournament_selection.py b/baumeva/ga/selections/tournament_selection.py
index d0a66cf..e4b522a 100644
--- a/baumeva/ga/selections/tournament_selection.py
+++ b/baumeva/ga/selections/tournament_selection.py
@@ -65,10 +65,11 @@ class TournamentSelection(BaseSelection):
         """
         idx_total = list(range(len(ga_data.population)))
         total_num_parents = self.get_total_num_parents(ga_data)
+        tournament_size = min(self.tournament_size, len(idx_total) - 1)
         for i in range(total_num_parents):
             parents_pair = []
             while len(parents_pair) < 2:
-                tournament = sample(idx_total, self.tournament_size)
+                tournament = sample(idx_total, tournament_size)
                 best = self.get_best(tournament, ga_data)
                 if len(parents_pair) == 0 or best['idx_individ'] != parents_pair[0]['idx_individ']:
                     parents_pair.append(best)
-- 
2.43.0

