From a716977fd0a59341e81e28837e66ab04a9167eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:03 +0000
Subject: [PATCH 01/27] fix: the empty conjunction returns a copy of the
 binding, not the caller's (or default) object

---
 richard/core/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 91abfc2..33e4475 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -27,7 +27,7 @@ class Solver(SomeSolver):
         if len(atoms) == 1:
             return self.solve_single(atoms[0], binding)
         if len(atoms) == 0:
-            return [binding]
+            return [binding.copy()]
         else:
             result = []
             bindings = self.solve_single(atoms[0], binding)
-- 
2.43.0


From 0a709347e46e90aba9da4587737f7f1b36075b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:03 +0000
Subject: [PATCH 02/27] fix: check every row a predicate returns, and that the
 result is a list, before using it

---
 richard/core/Solver.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 33e4475..39b5aba 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -56,14 +56,11 @@ class Solver(SomeSolver):
         if isinstance(values, ResultIterator):
             return values
 
-        if not isinstance(values, list):
-            raise Exception("Predicate '" + predicate + "' should return a list")
-
-        if len(values) > 0:
-            if not isinstance(values[0], list):
+        for row in values:
+            if not isinstance(row, list):
                 raise Exception("The results of '" + predicate + "' should be lists")
-            if len(values[0]) != len(arguments):
-                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(values[0])) + " and should be " + str(len(arguments)))
+            if len(row) != len(arguments):
+                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(row)) + " and should be " + str(len(arguments)))
 
         results = self.create_solve_single_results(values, binding, arguments)
         return results
@@ -131,6 +128,9 @@ class Solver(SomeSolver):
                     raise Exception("A relation that returns a ResultIterator can't be used in combination with another relation by the same name: " + relation.predicate)
                 return out_values
 
+            if not isinstance(out_values, list):
+                raise Exception("Predicate '" + predicate + "' should return a list")
+
             # deduplicate results
             for out_value in out_values:
                 stringed_value = str(out_value)
-- 
2.43.0


From 45cf387fefe6ab780ee3bce42036bfdae811eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:23 +0000
Subject: [PATCH 03/27] fix: multiply checks for unbound arguments before it
 multiplies

---
 richard/module/CoreModule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/module/CoreModule.py b/richard/module/CoreModule.py
index 5c8daa1..6eb6136 100644
--- a/richard/module/CoreModule.py
+++ b/richard/module/CoreModule.py
@@ -96,13 +96,14 @@ class CoreModule(SomeModule):
 
         e1 = values[0]
         e2 = values[1]
-        e3 = e1 * e2
 
         if e1 is None:
             raise Exception("* first argument is unbound")
         if e2 is None:
             raise Exception("* second argument is unbound")
 
+        e3 = e1 * e2
+
         return [
             [None, None, e3]
         ]
-- 
2.43.0


From 308f5fe3e9e28bf62bb881ee71e9416c43f6be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:39 +0000
Subject: [PATCH 04/27] fix: a rule whose head has another number of arguments
 does not match

---
 richard/module/InferenceModule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index eac8877..472e274 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -52,6 +52,11 @@ class InferenceModule(SomeModule):
     def solve_rule(self, rule: InferenceRule, arguments: list, solver: SomeSolver, binding: dict):
 
         rule_arguments = rule.head[1:]
+
+        # a head with another number of arguments does not match
+        if len(rule_arguments) != len(arguments):
+            return []
+
         # initialize with binding variables that do not affect this rule (but may be used later on)
         rule_binding = {key: value for (key, value) in binding.items() if key not in rule.get_all_variables()}
 
-- 
2.43.0


From 70c7135476a293a69fc2c91b4467987d617678f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:30 +0000
Subject: [PATCH 05/27] fix: rule text is parsed completely or rejected:
 unknown characters, final comments, zero and empty terms

---
 richard/module/helper/SimpleInferenceRuleParser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..7ba232e 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -22,11 +22,12 @@ class SimpleInferenceRuleParser:
             '\)',
             '\d+\.\d+',
             '\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
+            '\S',  # any other character: not part of a rule
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -204,7 +205,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
@@ -237,6 +238,9 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
+        if token is None or token in ["'", '"']:
+            return None, pos
+
         if token[0] == "'":
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
-- 
2.43.0


From 4949920d496dc3857296f2ca94b4c218e4a164d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:22 +0000
Subject: [PATCH 06/27] fix: learn_grammar_rule passes the required kind of
 rule to the parser

---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From 330e7d92c73e5b5eccfba9d05f92874783aa7078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:52 +0000
Subject: [PATCH 07/27] fix: parsing leaves the grammar unchanged: start rules
 go to the chart, not to the shared grammar

---
 richard/processor/parser/earley/EarleyParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..3f5b2d5 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -62,11 +62,12 @@ class EarleyParser:
         # ...
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
             variables = ["P" + str(j) for j in range(1, c+1)]
-            grammar_rules.add_rule(GrammarRule(
+            delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                 [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                 sem=lambda s: s
-            ))
+            )
+            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
 
 
         for i in range(charCount + 1):
-- 
2.43.0


From 19318cbcdaaedede439f3c9e8d6bdee019ba9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:56 +0000
Subject: [PATCH 08/27] fix: a part of a regular expression's match only counts
 as a token if it matches by itself

---
 richard/processor/parser/earley/EarleyParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 3f5b2d5..2aba780 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -130,8 +130,10 @@ class EarleyParser:
             if word is not None:
                 for i in range(1, len(word)+1):
                     sub_word = word[0:i]
+                    # a part of the match only counts if it is a match by itself
+                    if sub_word != word and not re.fullmatch(next_consequent.predicate, sub_word):
+                        continue
                     sem = self.create_semantic_function_for_scanned_state(sub_word)
-# todo check if match regexp
                     self.add_scanned_state(chart, state, sub_word, sem)
 
         # match a string constant over multiple tokens
-- 
2.43.0


From a51dbe13097725351ca3897ff3a7669e7835e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:01 +0000
Subject: [PATCH 09/27] fix: a literal is compared with exactly the characters
 it will cover

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 2aba780..8677b3d 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -208,6 +208,6 @@ class EarleyParser:
 
 
     def read_word(self, text: str, start_index: int, word: str):
-        part = text[start_index:].lower()
-        return part[:len(word)] == word
+        part = text[start_index:start_index+len(word)]
+        return part.lower() == word
 
-- 
2.43.0


From 784e1dbaccacd80ab53c5aaabe489e5d4d2ccc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:03 +0000
Subject: [PATCH 10/27] fix: rules of the same form with another meaning or
 other variables are separate chart entries

---
 richard/entity/GrammarRule.py                        | 11 +++++++++++
 richard/processor/parser/earley/entity/ChartState.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/richard/entity/GrammarRule.py b/richard/entity/GrammarRule.py
index 35ab282..8add33d 100644
--- a/richard/entity/GrammarRule.py
+++ b/richard/entity/GrammarRule.py
@@ -50,6 +50,17 @@ class GrammarRule:
         return True
 
 
+    def has_same_meaning(self, other_rule) -> bool:
+        if self.antecedent.arguments != other_rule.antecedent.arguments:
+            return False
+
+        if [c.arguments for c in self.consequents] != [c.arguments for c in other_rule.consequents]:
+            return False
+
+        return self.sem is other_rule.sem and self.exec is other_rule.exec and \
+            self.dialog is other_rule.dialog and self.boost == other_rule.boost
+
+
     def __str__(self):
 
         s = self.antecedent.predicate + "("
diff --git a/richard/processor/parser/earley/entity/ChartState.py b/richard/processor/parser/earley/entity/ChartState.py
index 7881547..d1dfdb5 100644
--- a/richard/processor/parser/earley/entity/ChartState.py
+++ b/richard/processor/parser/earley/entity/ChartState.py
@@ -24,6 +24,7 @@ class ChartState:
 
     def __eq__(self, other_state: object) -> bool:
         return self.rule.equals(other_state.rule) and \
+               (self.is_terminal() or self.rule.has_same_meaning(other_state.rule)) and \
                self.dot_position == other_state.dot_position and \
                self.start_char_index == other_state.start_char_index and \
                self.end_char_index == other_state.end_char_index
-- 
2.43.0


From 8ffc9b2ba9c5763c167027036617e075e1da861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:08 +0000
Subject: [PATCH 11/27] fix: a variant of a rule gets the hash of its own
 constituents

---
 richard/entity/GrammarRule.py  | 3 +++
 richard/entity/GrammarRules.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/richard/entity/GrammarRule.py b/richard/entity/GrammarRule.py
index 8add33d..0129d42 100644
--- a/richard/entity/GrammarRule.py
+++ b/richard/entity/GrammarRule.py
@@ -30,7 +30,10 @@ class GrammarRule:
         self.post = post
         self.dialog = dialog
         self.boost = boost
+        self.update_hash()
 
+
+    def update_hash(self):
         h = [c.hash for c in self.consequents] + [self.antecedent.hash]
         self.hash = hash(tuple(h))
 
diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index e7d6fb7..ea5950a 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -47,6 +47,7 @@ class GrammarRules:
         for consequent_variant in consequent_variants:
             new_rule = copy.copy(rule)
             new_rule.consequents = consequent_variant
+            new_rule.update_hash()
             variants.append(new_rule)
 
         return variants
-- 
2.43.0


From 22ca781f97019bbed808c946aa9ff2dfc90b082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:27 +0000
Subject: [PATCH 12/27] fix: a separator belongs to the part that follows it,
 whatever optional parts precede it

---
 richard/entity/GrammarRules.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index ea5950a..aceba10 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -62,21 +62,20 @@ class GrammarRules:
 
         skip = 1
 
-        # 'the'?_...
-        if index == 0 and consequent.optional and not consequent.separator and look_ahead_consequent and look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
-            skip = 2
         # ... _'the'? ...
-        elif consequent.separator and look_ahead_consequent and look_ahead_consequent.optional and not look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
+        if consequent.separator and look_ahead_consequent and not look_ahead_consequent.separator:
+            # the separator belongs to the part that follows it; at the start of a variant there is nothing to separate
+            part = look_ahead_consequent
+            new_variants = [v + [consequent, part] if v else [part] for v in variants]
+            # ... ~ ...
+            if consequent.optional:
+                new_variants.extend([v + [part] for v in variants if v])
             skip = 2
-        # ... ~ ...
-        elif consequent.optional:
-            new_variants = [v + [consequent] for v in variants]
-            new_variants.extend(variants)
         else:
-            new_variants = [v + [consequent] for v in variants]
+            part = consequent
+            new_variants = [v + [part] for v in variants]
+
+        if part.optional:
+            new_variants.extend(variants)
 
         return self.create_rule_variants_rest(rule, index+skip, new_variants)
-- 
2.43.0


From 451ef50a5bee0ef999fd01ef9e2bc0ee8d42a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 13/27] fix: the output buffer has relations for all error
 types of the parser

---
 richard/module/BasicOutputBuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/module/BasicOutputBuffer.py b/richard/module/BasicOutputBuffer.py
index 75eea77..5c37b13 100644
--- a/richard/module/BasicOutputBuffer.py
+++ b/richard/module/BasicOutputBuffer.py
@@ -15,6 +15,8 @@ class BasicOutputBuffer(SimpleMemoryModule):
         self.add_relation(Relation("output_list", arguments=["elements"]))
         self.add_relation(Relation("output_name_not_found", arguments=["name"]))
         self.add_relation(Relation("output_unknown_word", arguments=["word"]))
+        self.add_relation(Relation("output_no_sentence", arguments=[]))
+        self.add_relation(Relation("output_not_understood", arguments=[]))
 
 
     def clear(self):
-- 
2.43.0


From 38b0df3b062db054eba9f608b1b489193bceacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 14/27] fix: FindOne returns the first error, as documented,
 not the last

---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From 118e69ecaf2ab04d47dc063aa00114d085d88186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:05 +0000
Subject: [PATCH 15/27] fix: the output buffer is cleared when generating
 output fails

---
 richard/core/BasicGenerator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..73a7b6d 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -21,9 +21,11 @@ class BasicGenerator(SomeGenerator):
 
 
     def generate_output(self):
-        output = self.generate_node([], "s", [], False)
-        self.output_buffer.clear()
-        return output
+        try:
+            return self.generate_node([], "s", [], False)
+        finally:
+            # output that could not be generated must not become part of the next answer
+            self.output_buffer.clear()
 
 
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
-- 
2.43.0


From 3df5b2f98863f265695bd2bf4876f31c90b4d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 16/27] fix: a write rule is used with its own match, rules
 that do not match are skipped

---
 richard/core/BasicGenerator.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 73a7b6d..232f9f6 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -93,7 +93,7 @@ class BasicGenerator(SomeGenerator):
 
         found = False
         result_rule = None
-        binding = {}
+        result_binding = {}
 
         rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))
 
@@ -114,8 +114,7 @@ class BasicGenerator(SomeGenerator):
 
             if not rule.sem:
                 # no condition
-                result_rule = rule
-                found = True
+                match = binding
 
             else:
 
@@ -123,18 +122,19 @@ class BasicGenerator(SomeGenerator):
                 # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
                 match_bindings = self.solver.solve(rule.sem, binding)
 
-                if len(match_bindings) > 0:
-                    binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
+                match = match_bindings[0] if len(match_bindings) > 0 else None
+
 
+            if match is not None:
+                result_rule = rule
+                result_binding = match
+                found = True
 
-            if found:
                 # make sure the same rule is not executed again and again
                 if rule.hash not in used_rules:
                     break
 
-        return result_rule, binding, found
+        return result_rule, result_binding, found
 
 
     def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
-- 
2.43.0


From 5f907e2564cd818f12e5ac43a25eb22689da3ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:52 +0000
Subject: [PATCH 17/27] fix: write rules of the same form with another
 condition are not each other's use

---
 richard/core/BasicGenerator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 232f9f6..1261c72 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -28,15 +28,14 @@ class BasicGenerator(SomeGenerator):
             self.output_buffer.clear()
 
 
-    def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
+    def generate_node(self, used_rules: list[GrammarRule], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
 
         words = []
         rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)
 
         if found:
 
-            hash = rule.hash
-            used_rules.append(hash)
+            used_rules.append(rule)
 
             for i, consequent in enumerate(rule.consequents):
                 consequent_vals = self.get_consequent_values(rule, i, binding)
@@ -131,13 +130,13 @@ class BasicGenerator(SomeGenerator):
                 found = True
 
                 # make sure the same rule is not executed again and again
-                if rule.hash not in used_rules:
+                if rule not in used_rules:
                     break
 
         return result_rule, result_binding, found
 
 
-    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
+    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[GrammarRule], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
 
         if position_type == POS_TYPE_WORD_FORM:
             result = category
-- 
2.43.0


From 4ca465e2c6f93a4ebf2f2ddf945ba091fdcb31e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:56 +0000
Subject: [PATCH 18/27] fix: keep equal atoms apart when isolating independent
 parts (an atom that occurs twice was added twice to each part)

---
 .../semantic_composer/optimizer/IsolateIndependentParts.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 3297f03..710ca83 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -81,11 +81,14 @@ class IsolateIndependentParts:
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
         """
         ordered_atoms = []
+        remaining_atoms = batch.atoms.copy()
 
         for atom in atoms:
-            for batch_atom in batch.atoms:
+            for batch_atom in remaining_atoms:
                 if batch_atom == atom:
                     ordered_atoms.append(batch_atom)
+                    # an atom that occurs more than once must not be added again
+                    remaining_atoms.remove(batch_atom)
                     break
 
         ordered_batch = AtomBatch(ordered_atoms, batch.variables)
-- 
2.43.0


From 2d41bd3612b5ba08f42e544ebda17873d9e1b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:56 +0000
Subject: [PATCH 19/27] fix: rename variables that occur nested in the
 semantics, in templates, or only in dialog or exec atoms

---
 .../semantic_composer/SemanticComposer.py     | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index f672cf7..b8372c9 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -97,8 +97,8 @@ class SemanticComposer(SomeProcessor):
         else:
             inferences.extend(node.rule.dialog)
 
-        # extend the map with variables found in the result of the semantics function
-        self.extend_map_with_semantics(map, semantics)
+        # extend the map with variables found in the result of the semantics, dialog and exec functions
+        self.extend_map_with_semantics(map, [semantics, inferences, executable])
 
         # replace the formal parameters in the semantics with the unified variables
         unified_semantics = self.unify_variables(semantics, map)
@@ -127,14 +127,16 @@ class SemanticComposer(SomeProcessor):
         return map
 
 
-    def extend_map_with_semantics(self, map: dict, semantics: list[tuple]):
-        # only lists of atoms for now
-        if isinstance(semantics, list):
-            for atom in semantics:
-                for arg in atom:
-                    # since we're late in the game, don't replace variables that have already been replaced
-                    if isinstance(arg, Variable) and arg.name not in map and not self.variable_generator.isinstance(arg):
-                        map[arg.name] = self.variable_generator.next()
+    def extend_map_with_semantics(self, map: dict, semantics: any):
+        if isinstance(semantics, list) or isinstance(semantics, tuple):
+            for term in semantics:
+                self.extend_map_with_semantics(map, term)
+        elif isinstance(semantics, SemanticTemplate):
+            self.extend_map_with_semantics(map, semantics.body)
+        elif isinstance(semantics, Variable):
+            # since we're late in the game, don't replace variables that have already been replaced
+            if semantics.name not in map and not self.variable_generator.isinstance(semantics):
+                map[semantics.name] = self.variable_generator.next()
 
 
     def unify_variables(self, semantics: any, map: dict[str, str]) -> any:
-- 
2.43.0


From e276116d675a0e07c42f306ccbf643d85ed407a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:39 +0000
Subject: [PATCH 20/27] fix: end the context when solving its body fails

---
 richard/module/BasicDialogContext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..745e462 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -22,8 +22,10 @@ class BasicDialogContext(SimpleMemoryModule):
         name = values[0]
         body = values[1]
         self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        try:
+            context.solver.solve(body, context.binding)
+        finally:
+            self.data_source.delete('context', ['name'], [name])
         return [
             [None, None]
         ]
-- 
2.43.0


From aa8ec7ef83b009e4d30aea71c6db19237436127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:39 +0000
Subject: [PATCH 21/27] fix: escape the values that are placed in a Sparql
 query

---
 richard/data_source/SparqlDataSource.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..5e502a3 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -1,5 +1,6 @@
 import hashlib
 import pickle
+import re
 from richard.interface.SomeDataSource import SomeDataSource
 
 
@@ -116,17 +117,28 @@ class SparqlDataSource(SomeDataSource):
             prepared = "?term" + str(index)
         elif isinstance(term, str):
             if columns[index] == ID:
-                prepared = "<{}>".format(term)
+                prepared = "<{}>".format(self.escape_iri(term))
             elif columns[index] == CONSTANT:
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                prepared = "'{}'@{}".format(self.escape_literal(term), self.lang)
         else:
             prepared = str(term)
         return prepared
 
 
+    def escape_literal(self, text: str):
+        for char, escaped in [("\\", "\\\\"), ("'", "\\'"), ("\n", "\\n"), ("\r", "\\r")]:
+            text = text.replace(char, escaped)
+        return text
+
+
+    def escape_iri(self, text: str):
+        # these characters are not allowed in an IRI
+        return re.sub(r'[\x00-\x20<>"{}|^`\\]', lambda match: "%{:02X}".format(ord(match.group())), text)
+
+
     def prepare_variables(self, values, terms):
         variables = []
         for i in range(2):
-- 
2.43.0


From efbad8e986d5f24e55c49a40ff33cd32706092a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:39 +0000
Subject: [PATCH 22/27] fix: all error responses of a Sparql endpoint raise an
 error

---
 richard/data_source/SparqlDataSource.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 5e502a3..4ebff0f 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -83,6 +83,8 @@ class SparqlDataSource(SomeDataSource):
             raise Exception("Too many requests: " + str(response.text))
         if response.status_code == 400:
             raise Exception("Bad request: " + str(response.text))
+        if response.status_code != 200:
+            raise Exception("Unexpected response (" + str(response.status_code) + "): " + str(response.text))
 
         # Parse the JSON response
         data = response.json()
-- 
2.43.0


From 351305ff1748e7ed674e8ace2726cfd35367ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:39 +0000
Subject: [PATCH 23/27] fix: an interrupted write left an incomplete result in
 the Sparql cache

---
 richard/data_source/SparqlDataSource.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 4ebff0f..4ec5624 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -1,4 +1,5 @@
 import hashlib
+import os
 import pickle
 import re
 from richard.interface.SomeDataSource import SomeDataSource
@@ -44,9 +45,12 @@ class SparqlDataSource(SomeDataSource):
         # write to the results cache
         if self.result_cache_path:
             try:
-                with open(file_name, 'wb') as file:
+                # other requests only see the file when it is complete
+                temp_name = file_name + "." + str(os.getpid()) + ".tmp"
+                with open(temp_name, 'wb') as file:
                     pickle.dump(result, file)
-                    return result
+                os.replace(temp_name, file_name)
+                return result
             except OSError:
                 pass
 
-- 
2.43.0


From 6a3c7e6db5fcc2d972a267c439075546ea4f094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:39 +0000
Subject: [PATCH 24/27] fix: SimpleDataSource could not find records with empty
 columns, and ignored restrictions on them

---
 richard/data_source/SimpleDataSource.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..61de6ad 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -17,7 +17,7 @@ class SimpleDataSource(SomeDataSource):
     # def insert(self, record: Record):
     def insert(self, table: str, columns: list[str], values: list):
 
-        values = self.create_dict(columns, values)
+        values = dict(zip(columns, values))
 
         if not table in self.store:
             self.store[table] = []
@@ -38,11 +38,10 @@ class SimpleDataSource(SomeDataSource):
         for record in self.store[table]:
             ok = True
             for key, value in values.items():
-                if key in record:
-                    if record[key] != value:
-                        ok = False
+                if record.get(key) != value:
+                    ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From 8298872bc3e2ea0a27d417fc4b794edddbc1398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 25/27] fix: a value that contains the placeholder of another
 argument had that placeholder replaced as well

---
 .../parser/helper/grammar_functions.py        | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/richard/processor/parser/helper/grammar_functions.py b/richard/processor/parser/helper/grammar_functions.py
index 24a93b4..c64eb4f 100644
--- a/richard/processor/parser/helper/grammar_functions.py
+++ b/richard/processor/parser/helper/grammar_functions.py
@@ -3,23 +3,24 @@ from richard.type import SemanticTemplate
 
 
 def apply(template: SemanticTemplate, *values):
-    replaced = template.body
+    # all placeholders are replaced at once: a value may contain the placeholder of another argument
+    replacements = {}
     for i, value in enumerate(values):
-        token = template.args[i][0]       
-        replaced = replace(replaced, token, value, True)
+        token = template.args[i][0]
+        replacements[token] = value
 
-    return replaced
+    return replace(template.body, replacements, True)
 
 
-def replace(atoms, token, replacement, is_list):
+def replace(atoms, replacements, is_list):
     replaced = []
     for atom in atoms:
-        if atom == token:
-            replaced.extend(replacement)
+        if isinstance(atom, str) and atom in replacements:
+            replaced.extend(replacements[atom])
         elif isinstance(atom, tuple):
-            replaced.append(replace(atom, token, replacement, False))
+            replaced.append(replace(atom, replacements, False))
         elif isinstance(atom, list):
-            replaced.append(replace(atom, token, replacement, True))
+            replaced.append(replace(atom, replacements, True))
         else:
             replaced.append(atom)
 
-- 
2.43.0


From 3e2a8df7f380203f5114dcff4d1bb938bac5d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:47 +0000
Subject: [PATCH 26/27] fix: iterating over a ResultIterator used it up, so
 that logging the results changed them

---
 richard/entity/ResultIterator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/richard/entity/ResultIterator.py b/richard/entity/ResultIterator.py
index 8ca7731..63d875f 100644
--- a/richard/entity/ResultIterator.py
+++ b/richard/entity/ResultIterator.py
@@ -1,3 +1,6 @@
+from copy import copy
+
+
 class ResultIterator:
     """
     A relation needs to produce a list of results. Sometimes the number of results is very large, and you're not interested in the
@@ -14,7 +17,10 @@ class ResultIterator:
         self.index = 0
 
     def __iter__(self):
-        return self
+        # each iteration starts from the first result; iterating does not change this object
+        iterator = copy(self)
+        iterator.index = 0
+        return iterator
 
     def __len__(self):
         return self.number
-- 
2.43.0


From a5f72e202fc35672c9fd1bab58fe79c9bcbd15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:39 +0000
Subject: [PATCH 27/27] fix: one solution without a value for a head variable
 no longer drops the other solutions of the rule

---
 richard/module/InferenceModule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index 472e274..b1f1cf7 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -106,14 +106,14 @@ class InferenceModule(SomeModule):
                         # check if the results are not bound (completely)
                         # this happens when r(X). is matches against r(Y).
                         if not rule_argument.name in solution:
-                            return []
+                            break
                         result.append(solution[rule_argument.name])
                     else:
                         result.append(rule_argument)
                 else:
                     result.append(value)
-
-            results.append(result)
+            else:
+                results.append(result)
 
         return results
 
-- 
2.43.0

