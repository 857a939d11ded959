From 69e06e7431ba67e543b129891ee7f3989bea4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 01/28] fix: gain_from_trade of a recipe with an unused
 (zero-count) category does not divide by its size

---
 trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trade.py b/trade.py
index b191868..f12e095 100644
--- a/trade.py
+++ b/trade.py
@@ -124,6 +124,8 @@ class TradeWithSinglePrice (Trade):
         for i in range(self.num_categories):
             category = self.categories[i]
             agents_per_deal = self.ps_recipe[i]
+            if agents_per_deal==0:   # traders of this category do not participate in any deal (the category may even be empty)
+                continue
             participating_agents_in_category = agents_per_deal*self.num_of_deals_cache
             probability_to_participate_in_trade = participating_agents_in_category/len(category.values)
             price_per_agent_per_deal = self.prices[i]
-- 
2.43.0


From 8670e24c505bb3d47fc85d3865c681f23065b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 02/28] fix: recipe-tree ascending auctions terminate when a
 raised category is empty

---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index 2ec3382..e0bee4b 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -173,7 +173,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 8db1487..62fa5b4 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -169,7 +169,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
-- 
2.43.0


From a4aa02ce8070f75e2f8cb9e725d1ba2be18d9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 03/28] fix: integer recipe-tree auction keeps the price-sums
 of all recipes equal when agent counts exceed 1

---
 prices_integer.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index a75f326..c53f0ba 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -164,6 +164,12 @@ class SimultaneousAscendingPriceVectors:
     def price_sum(self):
         return self.vector.price_sum()
 
+    def category_weight(self, category_index:int):
+        """
+        :return: the number of times that the price of the given category is counted in the price-sum of its recipes.
+        """
+        return max(recipe[category_index] for recipe in self.ps_recipes) * self.agent_counts[category_index]
+
     def map_category_index_to_price(self):
         """
         >>> pv = SimultaneousAscendingPriceVectors([[1, 1, 0, 0], [1, 0, 1, 1]], -10000)
@@ -220,21 +226,24 @@ class SimultaneousAscendingPriceVectors:
         #    raise ValueError("There must be exactly one increase per recipe!")
 
         increase_to_upper_bound = sum_upper_bound - self.price_sum()
-        increases_to_new_prices = [new_price - self.vector[category_index]
-                                   for (category_index,new_price,_) in increases]
+        # All increases are measured in units of the price-sum: a category that appears w times in its recipes
+        # contributes w times its price, so the sums of all recipes remain equal iff its price grows by increase/w.
+        weights = [self.category_weight(category_index) for (category_index,_,_) in increases]
+        increases_to_new_prices = [(new_price - self.vector[category_index]) * weight
+                                   for ((category_index,new_price,_),weight) in zip(increases,weights)]
         min_increase_to_new_price = min(increases_to_new_prices)
         min_increase = min(min_increase_to_new_price, increase_to_upper_bound)
         if min_increase == increase_to_upper_bound:
             self.status = PriceStatus.STOPPED_AT_ZERO_SUM
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for ((category_index, new_price, description),weight) in zip(increases,weights):
+                fixed_new_price = self.vector[category_index] + min_increase / weight
                 logger.info("{}: while increasing price towards {}, stopped at {} where the price-sum crossed {}".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
         else: # min_increase == min_increase_to_new_price:
             self.status = PriceStatus.STOPPED_AT_AGENT_VALUE
-            for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+            for ((category_index, new_price, description),weight) in zip(increases,weights):
+                fixed_new_price = self.vector[category_index] + min_increase / weight
                 if fixed_new_price == new_price:
                     logger.info("{}: price increases to {}".format(description, new_price))
                 else:
-- 
2.43.0


From 85ffa5281faf26c1f232fc708db061ad485b1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 04/28] fix: optimal_trade_with_counters of integer recipe
 trees with children or empty categories

---
 recipetree_integer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index aab26aa..cf89802 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -391,26 +391,26 @@ class RecipeTree (NodeMixin):
         """
         self_values = self.category.values
         self_values.sort(reverse=True)
-        value_sets = []
+        sets = []
         current_set = []
         for value in self_values:
             current_set.append(value)
             if len(current_set) == self.agent_count:
-                value_sets.append((current_set, {'counter': 0}))
+                sets.append(current_set)
                 current_set = []
 
-        if len(self.children) > 0:
-            children_values = [child.combined_values_detailed_with_counters() for child in self.children]
-            #children_values.sort(key=lambda x: sum(x[0]), reverse=True)
-            #Get the min size
-            min_len = min(len(value_sets), len(children_values))
+        if len(self.children) == 0:
+            # a single counter object, shared by all deals of this path, counts the k of the path
+            deals_counter = {'counter': 0}
+            value_sets = [(current_set, deals_counter) for current_set in sets]
+        else:
+            children_values = sum([child.combined_values_detailed_with_counters() for child in self.children], [])
+            children_values.sort(key=lambda x: sum(x[0]), reverse=True)
             #zip the parent with its child value
-            for i in range(min_len):
-                children_values[i] = ([*children_values[i][0], *self_values[i]], children_values[i][1])
-            value_sets = children_values
+            value_sets = [([*self_set, *child_set], deals_counter)
+                          for (self_set, (child_set, deals_counter)) in zip(sets, children_values)]
 
             logger.debug("children_values: %s", value_sets)
-        value_sets.sort(key=lambda x: sum(x[0]), reverse=True)
         return value_sets
 
     def combined_values_detailed(self) -> list:
-- 
2.43.0


From f7863e2b37f77c6f290be8a4587dc5b2589d6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 05/28] fix: integer recipe-tree auction starts all recipes at
 the same price-sum whatever the numbering of the categories

---
 prices_integer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index c53f0ba..0341d20 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -288,12 +288,14 @@ def calculate_initial_prices(ps_recipes:List[List[int]], max_price_per_category:
 
     for i in range(len(ps_recipes)):
         recipe = ps_recipes[i]
+        # Adjust the price-sum of this recipe using a category that belongs to no other recipe (e.g. the leaf of a recipe-tree).
         for j in range(num_categories - 1, -1, -1):
-            if recipe[j] > 0:
-                if price_vector[j] != max_price_per_category:
-                    raise ValueError("Cannot determine initial prices: "+str(price_vector))
+            if recipe[j] > 0 and all(other[j] == 0 for other in ps_recipes if other is not recipe):
                 price_vector[j] = float(max_price_per_category * (max_weighted_depth - weighted_depths[i] + recipe[j])/recipe[j])
                 break
+        else:
+            if weighted_depths[i] != max_weighted_depth:
+                raise ValueError("Cannot determine initial prices: "+str(price_vector))
     return price_vector
 
 if __name__ == "__main__":
-- 
2.43.0


From a16f1cb48de18ee47d9e99ace84686b330086b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 06/28] fix: McAfee price-heuristic treats a zero-cost seller
 as a seller

---
 mcafee_protocol.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mcafee_protocol.py b/mcafee_protocol.py
index ecbdcfe..ec66e1d 100644
--- a/mcafee_protocol.py
+++ b/mcafee_protocol.py
@@ -21,6 +21,22 @@ logger.addHandler(logging.StreamHandler(sys.stdout))
 MAX_VALUE=100000000    # an upper bound (not necessarily tight) on the agents' values.
 
 
+def is_seller(value:float, ps:list)->bool:
+    """
+    Decides if the given value in the given PS belongs to a seller.
+    A zero value belongs to a seller (with no cost) if someone else in the PS is a buyer.
+
+    >>> is_seller(-3, [9, -3])
+    True
+    >>> is_seller(0, [9, 0])
+    True
+    >>> is_seller(9, [9, 0])
+    False
+    """
+    return value < 0 or (value == 0 and max(ps) > 0)
+
+
+
 def is_price_good_for_ps(price:float, ps:list)->bool:
     """
     Decides if the given price can be used as the trading price for the given PS.
@@ -31,9 +47,11 @@ def is_price_good_for_ps(price:float, ps:list)->bool:
     False
     >>> is_price_good_for_ps(5, [4, -3])
     False
+    >>> is_price_good_for_ps(5, [9, 0])
+    True
     """
     for i in range(len(ps)):
-        if ps[i] >= 0 and price > ps[i]:
+        if ps[i] >= 0 and price > ps[i] and not is_seller(ps[i], ps):
             return False   # price too high for a buyer
         elif ps[i] <= 0 and -price > ps[i]:
             return False   # price too low for a seller
@@ -166,7 +184,7 @@ def mcafee_trade_reduction(market:Market, ps_recipe:list, price_heuristic=True):
 
         if price_heuristic and is_price_good_for_ps(price_candidate, last_positive_ps):
             # All optimal traders trade in the candidate price - no reduction
-            prices = [price_candidate * (-1 if last_positive_ps[i]<0 else +1)
+            prices = [price_candidate * (-1 if is_seller(last_positive_ps[i], last_positive_ps) else +1)
                       for i in range(market.num_categories)]
 
         else:
-- 
2.43.0


From 1eae8f1d23bce3ad00ad98a3fd8ca844bdfe5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 07/28] fix: the smallest number of deals per recipe in an
 empty optimal trade is 0, not 99999

---
 recipetree.py         | 2 +-
 recipetree_integer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipetree.py b/recipetree.py
index f235b68..20e677a 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -304,7 +304,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if t[0]>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
diff --git a/recipetree_integer.py b/recipetree_integer.py
index cf89802..6967e26 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -455,7 +455,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if sum(t[0])>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
-- 
2.43.0


From ab1e48f1aa2fd151b1f2b10329f8ca408ebb8576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 08/28] fix: recipe-tree stock experiments average over the
 markets actually run, and write no blank row for skipped sizes

---
 experiment_ascending_auction_recipetree_integer_stock.py | 7 ++++++-
 experiment_ascending_auction_recipetree_stock.py         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/experiment_ascending_auction_recipetree_integer_stock.py b/experiment_ascending_auction_recipetree_integer_stock.py
index cea6b75..3c13ac9 100644
--- a/experiment_ascending_auction_recipetree_integer_stock.py
+++ b/experiment_ascending_auction_recipetree_integer_stock.py
@@ -71,8 +71,10 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     total_results = {}
+    num_of_markets = {}  # number of markets that were actually run for each num of agents (large nums may be skipped in some stocks).
     for num_of_agents_per_category in nums_of_agents:
         total_results[str(num_of_agents_per_category)] = []
+        num_of_markets[str(num_of_agents_per_category)] = 0
     for i in range(len(stock_names)):
         for _ in range(num_of_iterations):
             last_iteration = False
@@ -128,6 +130,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                            ("gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100)
                            ]
                 #results_table.add(OrderedDict(results))
+                num_of_markets[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -137,6 +140,8 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                             sum_result[index] = (results[index][0], sum_result[index][1] + results[index][1])
     for num_of_agents_per_category in nums_of_agents:
         results = total_results[str(num_of_agents_per_category)]
+        if len(results) == 0:
+            continue
         kmin = 0
         for index in range(len(results)):
             if index > 2:
@@ -145,7 +150,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                 #elif 'count' in results[index][0]:
                 #    results[index] = (results[index][0], results[index][1]/len(stock_names))
                 #else:
-                results[index] = (results[index][0], results[index][1]/len(stock_names)/num_of_iterations)
+                results[index] = (results[index][0], results[index][1]/num_of_markets[str(num_of_agents_per_category)])
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
             if results[index][0] == 'optimalkmin':
diff --git a/experiment_ascending_auction_recipetree_stock.py b/experiment_ascending_auction_recipetree_stock.py
index b99f56e..d135cf0 100644
--- a/experiment_ascending_auction_recipetree_stock.py
+++ b/experiment_ascending_auction_recipetree_stock.py
@@ -72,8 +72,10 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     total_results = {}
+    num_of_markets = {}  # number of markets that were actually run for each num of agents (large nums may be skipped in some stocks).
     for num_of_agents_per_category in nums_of_agents:
         total_results[str(num_of_agents_per_category)] = []
+        num_of_markets[str(num_of_agents_per_category)] = 0
     for i in range(len(stock_names)):
         for _ in range(num_of_iterations):
             last_iteration = False
@@ -129,6 +131,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                            ("gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100)
                            ]
                 #results_table.add(OrderedDict(results))
+                num_of_markets[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -138,6 +141,8 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                             sum_result[index] = (results[index][0], sum_result[index][1] + results[index][1])
     for num_of_agents_per_category in nums_of_agents:
         results = total_results[str(num_of_agents_per_category)]
+        if len(results) == 0:
+            continue
         kmin = 0
         for index in range(len(results)):
             if index > 2:
@@ -146,7 +151,7 @@ def experiment(results_csv_file: str, recipe: list, agent_counts:list, agent_val
                 #elif 'count' in results[index][0]:
                 #    results[index] = (results[index][0], results[index][1]/len(stock_names))
                 #else:
-                results[index] = (results[index][0], results[index][1]/len(stock_names)/num_of_iterations)
+                results[index] = (results[index][0], results[index][1]/num_of_markets[str(num_of_agents_per_category)])
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
             if results[index][0] == 'optimalkmin':
-- 
2.43.0


From 9df7cb34f02214914612a91a0f8909d081c110bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 09/28] fix: number of possible trades in the stock comparison
 counts every category of the recipe

---
 stock/experiment_compare_iterations_autions_without_mcafee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stock/experiment_compare_iterations_autions_without_mcafee.py b/stock/experiment_compare_iterations_autions_without_mcafee.py
index 2090aa6..a2a8da9 100644
--- a/stock/experiment_compare_iterations_autions_without_mcafee.py
+++ b/stock/experiment_compare_iterations_autions_without_mcafee.py
@@ -71,7 +71,7 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
     for i in range(len(stocks_prices)):
         last_iteration = False
         for num_of_agents_per_category in nums_of_agents:
-            num_of_possible_ps = min(num_of_agents_per_category,len(stocks_prices[i][0]))
+            num_of_possible_ps = min(num_of_agents_per_category, min(len(stocks_prices[i][j])//recipe[j] for j in range(len(recipe))))
             if last_iteration is True and num_of_possible_ps < num_of_agents_per_category:
                 break
             if num_of_possible_ps < num_of_agents_per_category:
-- 
2.43.0


From c828aec60fd2de685e1ae62532c060498723931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 10/28] fix: averages in exponent notation are not cut into
 garbage in the auctions comparison table

---
 stock/experiment_compare_iterations_autions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stock/experiment_compare_iterations_autions.py b/stock/experiment_compare_iterations_autions.py
index 50b4618..2eb92ef 100644
--- a/stock/experiment_compare_iterations_autions.py
+++ b/stock/experiment_compare_iterations_autions.py
@@ -232,5 +232,7 @@ def experiment(results_csv_file:str, auction_functions:list, auction_names:str,
 
 def padding_zeroes(result, num_digits:int):
     str_result = str(result)
+    if 'e' in str_result:  # exponent notation, such as 1.5e-05
+        str_result = '{:.20f}'.format(result)
     str_result += ("0" * num_digits) if '.' in str_result else '.' + ("0" * num_digits)
     return str_result[0 : str_result.index('.') + num_digits + 1]
-- 
2.43.0


From 6c9e2c53192c11d0d94a6897aef9ede89c02cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 11/28] fix: shuffled-stock comparison averages over the rounds
 and stocks actually run

---
 stock/experiment_compare_sbb_shufled_stock.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stock/experiment_compare_sbb_shufled_stock.py b/stock/experiment_compare_sbb_shufled_stock.py
index 7298e10..f19031c 100644
--- a/stock/experiment_compare_sbb_shufled_stock.py
+++ b/stock/experiment_compare_sbb_shufled_stock.py
@@ -70,13 +70,17 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
     if nums_of_agents is None:
         nums_of_agents = [10000000]
     average_total_results = {}
+    num_of_stocks = {}  # number of stocks that have a row for each num of agents (large nums may be skipped in some stocks).
     for num_of_agents_per_category in nums_of_agents:
         average_total_results[str(num_of_agents_per_category)] = []
+        num_of_stocks[str(num_of_agents_per_category)] = 0
 
     for i in range(len(stocks_prices)):
         total_results = {}
+        num_of_rounds = {}  # number of iterations that were actually run for each num of agents.
         for num_of_agents_per_category in nums_of_agents:
             total_results[str(num_of_agents_per_category)] = []
+            num_of_rounds[str(num_of_agents_per_category)] = 0
         stock_prices = stocks_prices[i]
         last_iteration = False
         for num_of_agents_per_category in nums_of_agents:
@@ -135,6 +139,7 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                     results.append((auction_name + "gftratio", 0 if optimal_gft==0 else gft / optimal_gft*100))
 
                 #results_table.add(OrderedDict(results))
+                num_of_rounds[str(num_of_agents_per_category)] += 1
                 if len(total_results[str(num_of_agents_per_category)]) == 0:
                     total_results[str(num_of_agents_per_category)] = results[0:len(results)]
                 else:
@@ -149,13 +154,14 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
             for index in range(len(results)):
                 if index > 2:
                     if 'ratio' in results[index][0]:
-                        results[index] = (results[index][0], results[index][1]/iterations)
+                        results[index] = (results[index][0], results[index][1]/num_of_rounds[str(num_of_agents_per_category)])
                     else:
-                        results[index] = (results[index][0], results[index][1]/iterations)
+                        results[index] = (results[index][0], results[index][1]/num_of_rounds[str(num_of_agents_per_category)])
                 #elif index == 0:
                 #    results[index] = (results[index][0], 'Average')
             results_table.add(OrderedDict(results))
 
+            num_of_stocks[str(num_of_agents_per_category)] += 1
             if len(average_total_results[str(num_of_agents_per_category)]) == 0:
                 average_total_results[str(num_of_agents_per_category)] = results[0:len(results)]
             else:
@@ -170,9 +176,9 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
         for index in range(len(results)):
             if index > 2:
                 if 'ratio' in results[index][0]:
-                    results[index] = (results[index][0], int(results[index][1]/len(stocks_prices)*1000)/1000)
+                    results[index] = (results[index][0], int(results[index][1]/num_of_stocks[str(num_of_agents_per_category)]*1000)/1000)
                 else:
-                    results[index] = (results[index][0], round(results[index][1]/len(stocks_prices), 1))
+                    results[index] = (results[index][0], round(results[index][1]/num_of_stocks[str(num_of_agents_per_category)], 1))
             elif index == 0:
                 results[index] = (results[index][0], 'Average')
         results_table.add(OrderedDict(results))
-- 
2.43.0


From 57915a6e49ae25787533171307501756289004d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 12/28] fix: integer price vector counts agent counts when it
 checks the bound on the price-sum

---
 prices_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index 0341d20..71b2fc2 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -113,7 +113,7 @@ class AscendingPriceVector:
         ('PriceStatus.STOPPED_AT_ZERO_SUM', 0.0, 50.0)
 
         """
-        category_count_in_recipe = self.ps_recipe[category_index]
+        category_count_in_recipe = self.ps_recipe[category_index] * self.agent_counts[category_index]
         sum_without_category = self.price_sum_without_category(category_index)
         new_sum = sum_without_category + category_count_in_recipe*new_price
         if new_sum >= sum_upper_bound:
-- 
2.43.0


From 6f9ffa8c21ade3883bfaeb45ac48dd7f5b7cf3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 13/28] fix: simultaneous integer clock with agent counts
 starts all recipes at the same price-sum

---
 prices_integer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index 71b2fc2..8829ace 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -150,7 +150,8 @@ class SimultaneousAscendingPriceVectors:
         self.num_categories = num_categories
         self.agent_counts = agent_counts if agent_counts else [1] * num_categories
 
-        initial_prices = calculate_initial_prices(ps_recipes, initial_price_sum)
+        weighted_recipes = [[r*c for (r,c) in zip(ps_recipe,self.agent_counts)] for ps_recipe in ps_recipes]
+        initial_prices = calculate_initial_prices(weighted_recipes, initial_price_sum)
 
         self.ps_recipes = ps_recipes
         self.vector = AscendingPriceVector(ps_recipes[0], initial_prices, self.agent_counts)
-- 
2.43.0


From 7328b5e92bd53b99d0aaf1623559901e63a9f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 14/28] fix: integer clock refuses a request that does not
 raise every recipe exactly once

---
 prices_integer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index 8829ace..a4bd1ab 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -221,10 +221,10 @@ class SimultaneousAscendingPriceVectors:
         for (recipe_index,recipe) in enumerate(self.ps_recipes):
             for (category_index, new_price, description) in increases:
                 if recipe[category_index] > 0:
-                    increases_per_recipe[recipe_index] += 1 / self.agent_counts[category_index]
+                    increases_per_recipe[recipe_index] += 1
         logger.info("  Increases per recipe: %s", increases_per_recipe)
-        #if any([ipr!=1 for ipr in increases_per_recipe]):
-        #    raise ValueError("There must be exactly one increase per recipe!")
+        if any([ipr!=1 for ipr in increases_per_recipe]):
+            raise ValueError("There must be exactly one increase per recipe!")
 
         increase_to_upper_bound = sum_upper_bound - self.price_sum()
         # All increases are measured in units of the price-sum: a category that appears w times in its recipes
-- 
2.43.0


From a068b72dc2255b2d614329da9336a778b33d772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 15/28] fix: explanation of an integer recipe-tree trade says
 'all traders selected' only when all of them trade

---
 recipetree_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index 6967e26..d8c0213 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -676,7 +676,7 @@ class RecipeTree (NodeMixin):
             sum_children_names = " + ".join(children_names)
             num_of_deals = min(sum_children_num_of_deals,self_num_of_deals)
             explanation = "".join(children_explanations)
-            if num_of_deals==self_num_of_deals:
+            if num_of_deals*self.agent_count==self.category.size():
                 explanation += "{}: all {} traders selected, price={}\n".format(self.name, self.category.size(), self_price)
             else:
                 explanation += "{}: {} out of {} traders selected, price={}\n".format(self.name, num_of_deals * self.agent_count, self.category.size(), self_price)
-- 
2.43.0


From 1a1c0f66f47260db77171c484f95468c0b552e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 16/28] fix: superseded several-recipes clock finds its start
 prices also where the equal split is the only solution

---
 old/SimultaneousAscendingPriceVector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/old/SimultaneousAscendingPriceVector.py b/old/SimultaneousAscendingPriceVector.py
index 03e61c9..08c2a86 100644
--- a/old/SimultaneousAscendingPriceVector.py
+++ b/old/SimultaneousAscendingPriceVector.py
@@ -156,7 +156,7 @@ def calculate_initial_prices(ps_recipes:List[int], initial_price_sum:float)->Lis
         A_eq=ps_recipes,
         b_eq=[initial_price_sum]*num_recipes,  # The sum of every recipe must be the same
         bounds=[(None, max_price)]*num_categories,
-        method="revised simplex"
+        method="highs"
     )
     if result.status==0:
         return list(result.x)
-- 
2.43.0


From 9e9d0adbe4d94fc0ef91fab22ead7c6545383b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 17/28] fix: superseded multi-recipe auction raises a common
 category once, and leaves the caller's recipe list alone

---
 old/ascending_auction_multirecipe_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/ascending_auction_multirecipe_protocol.py b/old/ascending_auction_multirecipe_protocol.py
index 5c3b59d..78a43ae 100644
--- a/old/ascending_auction_multirecipe_protocol.py
+++ b/old/ascending_auction_multirecipe_protocol.py
@@ -204,7 +204,7 @@ def budget_balanced_ascending_auction(
             main_category_index = largest_common_category_index
             main_category = remaining_market.categories[main_category_index]
             logger.info("%s before: %d agents remain", main_category.name, main_category.size())
-            increases = [(main_category_index, main_category.lowest_agent_value(), main_category.name)] * num_recipes
+            increases = [(main_category_index, main_category.lowest_agent_value(), main_category.name)]
 
         else:  # largest_common_category_size < unique_categories_size
             logger.info("Raising price of the largest unique categories in each recipe: %s", map_recipe_index_to_largest_unique_category_index)
@@ -214,7 +214,7 @@ def budget_balanced_ascending_auction(
                 logger.info("%s before: %d agents remain", main_category.name, main_category.size())
                 if main_category.size() == 0:
                     logger.info("\nThe %s category became empty - no trade in recipe %d", main_category.name, recipe_index)
-                    del ps_recipes[recipe_index]
+                    ps_recipes = ps_recipes[:recipe_index] + ps_recipes[recipe_index+1:]
                     if len(ps_recipes)>0:
                         return budget_balanced_ascending_auction(market, ps_recipes)
                     else:
-- 
2.43.0


From 14fead942025e504a921caf5baa383b4055e4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:18 +0000
Subject: [PATCH 18/28] fix: a recipe in which no category participates is
 refused instead of looping for ever

---
 markets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/markets.py b/markets.py
index 0e3cafa..29c0fa8 100644
--- a/markets.py
+++ b/markets.py
@@ -159,6 +159,8 @@ class Market:
             raise ValueError(
                 "There are {} categories but {} elements in the PS recipe".
                     format(num_categories, len(ps_recipe)))
+        if not any(ps_recipe):
+            raise ValueError("No category participates in the PS recipe {}".format(ps_recipe))
 
         trade = []
         remaining_market = self.clone()
-- 
2.43.0


From f5f79a14bc796c516c7f223ba5a325cc94cd44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:54 +0000
Subject: [PATCH 19/28] fix: shuffled-stock comparison no longer replaces the
 previous auction's columns with zeros when an auction is named mcafee

---
 stock/experiment_compare_sbb_shufled_stock.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/stock/experiment_compare_sbb_shufled_stock.py b/stock/experiment_compare_sbb_shufled_stock.py
index f19031c..9854d24 100644
--- a/stock/experiment_compare_sbb_shufled_stock.py
+++ b/stock/experiment_compare_sbb_shufled_stock.py
@@ -113,12 +113,6 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                            ("optimalcountwithgftzero", optimal_count_with_gft_zero),
                            ("optimalgft", optimal_gft)]
                 for auction_index in range(len(auction_functions)):
-                    if 'mcafee' in auction_names[auction_index]:
-                        results.append((auction_name + "auctioncount", 0))
-                        results.append((auction_name + "countratio", 0))
-                        results.append((auction_name + "gft", 0))
-                        results.append((auction_name + "gftratio", 0))
-
                     auction_trade = auction_functions[auction_index](market, recipe)
                     auction_count = auction_trade.num_of_deals()
                     # for j in range(len(stocks_prices[i])):
-- 
2.43.0


From 8f9e2993ce85b40456038127535c3eb80c67fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 20/28] fix: stock demo for recipe (1,2) imports the price
 reader that exists and finds the stock file on any system

---
 stock/ascending_auction_demo_12_stock.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stock/ascending_auction_demo_12_stock.py b/stock/ascending_auction_demo_12_stock.py
index 3d393ff..df2474a 100644
--- a/stock/ascending_auction_demo_12_stock.py
+++ b/stock/ascending_auction_demo_12_stock.py
@@ -12,14 +12,15 @@ from markets import Market
 from agents import AgentCategory
 import ascending_auction_protocol, prices
 from ascending_auction_protocol import budget_balanced_ascending_auction
-from get_stock_data import getPrices
+from get_stocks_data import getPrices
+from os.path import join
 
 import logging
 ascending_auction_protocol.logger.setLevel(logging.INFO)
 prices.logger.setLevel(logging.INFO)
 
 #stock prices
-att = getPrices('stocks\T.csv',(1,2))
+att = getPrices(join('stocks', 'T.csv'), (1,2))
 
 print("\n\n###### RUNNING EXAMPLE FROM THE PAPER FOR TYPE (1,2)")
 
-- 
2.43.0


From 9acc9579e7ac8efdc19bf6bcfe375e98e832b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:52 +0000
Subject: [PATCH 21/28] fix: optimal trade with counters of a deep recipe tree:
 every level was computed twice (time doubled per category)

---
 recipetree.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/recipetree.py b/recipetree.py
index 20e677a..3e6e018 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -255,8 +255,6 @@ class RecipeTree (NodeMixin):
             deals_counter = {'counter': 0}
             values = [(value, deals_counter) for value in self_values]
         else:
-            #List of lists of tuples of children that each tuple has agent value and counter object to count the k for each path
-            children_combined_values_detailed_list = [child.combined_values_detailed_with_counters() for child in self.children]
             #put all together:
             children_values = []
             for child in self.children:
-- 
2.43.0


From 00b468fcb5cf3dfa0ff841878bab1d2886851014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:15 +0000
Subject: [PATCH 22/28] fix: recipe-tree auctions send away one trader per
 raised category, not one of every category whose lowest bid equals its old
 price

---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index e0bee4b..87d356d 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -186,7 +186,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 62fa5b4..e805c17 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -182,7 +182,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
-- 
2.43.0


From 22808e3c443796c62c015ebe09ae318c252ad6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:05 +0000
Subject: [PATCH 23/28] fix: McAfee's middle price is used only in two-sided
 markets (with more categories the auctioneer paid out more than it took in)

---
 mcafee_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcafee_protocol.py b/mcafee_protocol.py
index ec66e1d..20ce2dd 100644
--- a/mcafee_protocol.py
+++ b/mcafee_protocol.py
@@ -174,6 +174,8 @@ def mcafee_trade_reduction(market:Market, ps_recipe:list, price_heuristic=True):
             category.append(-MAX_VALUE)
     logger.info("Optimal trade, by increasing GFT: {}".format(optimal_trade))
     first_negative_ps = remaining_market.get_highest_agents(ps_recipe)
+    if market.num_categories > 2:
+        price_heuristic = False   # a middle price between the two sides exists only in a two-sided market: with more categories the prices would not add up
     if price_heuristic:
         price_candidate = sum([abs(x) for x in first_negative_ps]) / len(first_negative_ps)
         logger.info("First negative PS: {}, candidate price: {}".format(first_negative_ps, price_candidate))
-- 
2.43.0


From 299bebc555441e9078c039cbc17f8870e5ab2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:13 +0000
Subject: [PATCH 24/28] fix: the optimal trade of a recipe tree of a single
 category can be computed (it raised TypeError, and so did the auction)

---
 recipetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.py b/recipetree.py
index 3e6e018..435b457 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -324,7 +324,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>=0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>=0]  # in a tree of a single category, each deal is a single value
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0


From d1c4305dd62e583d673fde50b0912527f970197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:21 +0000
Subject: [PATCH 25/28] fix: the multi-recipe auction sends away one trader per
 raised category, not one of every category whose lowest bid equals its old
 price

---
 old/ascending_auction_multirecipe_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/old/ascending_auction_multirecipe_protocol.py b/old/ascending_auction_multirecipe_protocol.py
index 78a43ae..03ba588 100644
--- a/old/ascending_auction_multirecipe_protocol.py
+++ b/old/ascending_auction_multirecipe_protocol.py
@@ -236,7 +236,7 @@ def budget_balanced_ascending_auction(
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, ps_recipes, map_category_index_to_price)
 
-        for category_index in range(num_categories):
+        for (category_index,_,_) in increases:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
-- 
2.43.0


From 1aee1d713a843e5687713bc24faf53afda309eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:06 +0000
Subject: [PATCH 26/28] fix: a recipe with a negative number of traders is
 refused (it was answered with a meaningless trade)

---
 markets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/markets.py b/markets.py
index 29c0fa8..bc79a17 100644
--- a/markets.py
+++ b/markets.py
@@ -161,6 +161,8 @@ class Market:
                     format(num_categories, len(ps_recipe)))
         if not any(ps_recipe):
             raise ValueError("No category participates in the PS recipe {}".format(ps_recipe))
+        if min(ps_recipe) < 0:
+            raise ValueError("A PS recipe cannot contain a negative number of agents; {} was given".format(ps_recipe))
 
         trade = []
         remaining_market = self.clone()
-- 
2.43.0


From 3a23a6fd9a00632e16ee6c81d52772a0e220211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:06 +0000
Subject: [PATCH 27/28] fix: a recipe tree naming a category by a negative
 number, or counting it with no trader, is refused (it was answered, e.g. with
 a negative number of deals)

---
 recipetree.py         | 2 ++
 recipetree_integer.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/recipetree.py b/recipetree.py
index 435b457..982b4ca 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -165,6 +165,8 @@ class RecipeTree (NodeMixin):
             agent_counts = [1] * self.num_categories
         self_index = category_indices[0]
         children_indices = category_indices[1]
+        if self_index < 0:
+            raise ValueError("There is no category with index {}.".format(self_index))
 
         self.category_index = self_index
         self.category = self_category = categories[self_index]
diff --git a/recipetree_integer.py b/recipetree_integer.py
index d8c0213..0c9de41 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -292,8 +292,12 @@ class RecipeTree (NodeMixin):
         self.agent_counts = agent_counts if agent_counts else [1] * self.num_categories
         self_index = category_indices[0]
         children_indices = category_indices[1]
+        if self_index < 0:
+            raise ValueError("There is no category with index {}.".format(self_index))
 
         self.agent_count = agent_counts[self_index] if agent_counts else 1
+        if self.agent_count < 1:
+            raise ValueError("At least one agent of category {} must participate; {} was given.".format(self_index, self.agent_count))
         self.category_index = self_index
         self.category = self_category = categories[self_index]
         self.name = self_category.name if isinstance(self_category, AgentCategory) else self_category
-- 
2.43.0


From 89a3baf3af113e0c3e486e0142d0e742d06ca27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:06 +0000
Subject: [PATCH 28/28] fix: the superseded recipe tree can compute the optimal
 trade of a single category (it raised TypeError)

---
 recipetree.old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.old.py b/recipetree.old.py
index 858edd2..93f19e2 100644
--- a/recipetree.old.py
+++ b/recipetree.old.py
@@ -260,7 +260,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>0]  # in a tree of a single category, each deal is a single value
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0

