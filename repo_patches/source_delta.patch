From ec6c97b40faf9f413bf9be2eeb3afbb4f9f74e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:01 +0000
Subject: [PATCH 01/38] fix: inference rules: zero is a value, not a missing
 term

---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..2db9a95 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -204,7 +204,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
-- 
2.43.0


From 0ba0199a230e74ff706175fefdb7c34aa6332cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:01 +0000
Subject: [PATCH 02/38] fix: inference rules: accept a comment at the end of
 the text without a newline

---
 richard/module/helper/SimpleInferenceRuleParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 2db9a95..56ee072 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -26,7 +26,7 @@ class SimpleInferenceRuleParser:
             '"(?:\\\\"|[^"])+"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-- 
2.43.0


From 5a0a60f83b06c13e36bd9578fa495a7a511ad469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:32 +0000
Subject: [PATCH 03/38] fix: inference rules: report a text that ends inside an
 argument list instead of crashing

---
 richard/module/helper/SimpleInferenceRuleParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 56ee072..f790125 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -237,6 +237,9 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
+        if token is None:
+            return None, new_pos
+
         if token[0] == "'":
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
-- 
2.43.0


From 03ccf7b1268660792d6da508a140bdc4056a3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 04/38] fix: inference rules: reject text outside the notation
 instead of skipping it

---
 richard/module/helper/SimpleInferenceRuleParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index f790125..79df014 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -27,6 +27,8 @@ class SimpleInferenceRuleParser:
             '[A-Z]\w*',
             '\w+',
             '#.*',
+            # anything else is not part of the notation; don't skip it
+            '\S',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -240,11 +242,11 @@ class SimpleInferenceRuleParser:
         if token is None:
             return None, new_pos
 
-        if token[0] == "'":
+        if token[0] == "'" and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
 
-        if token[0] == '"':
+        if token[0] == '"' and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace('\\"', '"'), pos
 
-- 
2.43.0


From f61e0acc762e026e7a592ae3866eaf447b652f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 05/38] fix: grammar rules: reject syntax outside the notation
 instead of skipping it

---
 richard/processor/parser/helper/SimpleGrammarRulesParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/processor/parser/helper/SimpleGrammarRulesParser.py b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
index 7c3e9fd..f64867b 100644
--- a/richard/processor/parser/helper/SimpleGrammarRulesParser.py
+++ b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
@@ -28,6 +28,8 @@ class SimpleGrammarRulesParser:
             '\w+',
             '\\+',
             '~',
+            # anything else (but a stray quote) is not part of the notation; don't skip it
+            '[^\s\'"]',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-- 
2.43.0


From 3a76d7b0395d268c31bf14e60c77401c472ee146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 06/38] fix: learn_grammar_rule: tell the parser that a read
 rule is learned

---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From 477820530d502f17fba22fec2ea492a5bdf2f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 07/38] fix: output buffer: accept the 'no sentence' and 'not
 understood' errors

---
 richard/module/BasicOutputBuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/module/BasicOutputBuffer.py b/richard/module/BasicOutputBuffer.py
index 75eea77..5c37b13 100644
--- a/richard/module/BasicOutputBuffer.py
+++ b/richard/module/BasicOutputBuffer.py
@@ -15,6 +15,8 @@ class BasicOutputBuffer(SimpleMemoryModule):
         self.add_relation(Relation("output_list", arguments=["elements"]))
         self.add_relation(Relation("output_name_not_found", arguments=["name"]))
         self.add_relation(Relation("output_unknown_word", arguments=["word"]))
+        self.add_relation(Relation("output_no_sentence", arguments=[]))
+        self.add_relation(Relation("output_not_understood", arguments=[]))
 
 
     def clear(self):
-- 
2.43.0


From 634ba2bd98b92e900e7b082186384d0b5bda61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 08/38] fix: FindOne: return the first error, as documented

---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From 62f8a4936d9d7dcb3132a94f43ac0e8cfff9b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 09/38] fix: multiply: check for unbound arguments before
 multiplying

---
 richard/module/CoreModule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/module/CoreModule.py b/richard/module/CoreModule.py
index 5c8daa1..6eb6136 100644
--- a/richard/module/CoreModule.py
+++ b/richard/module/CoreModule.py
@@ -96,13 +96,14 @@ class CoreModule(SomeModule):
 
         e1 = values[0]
         e2 = values[1]
-        e3 = e1 * e2
 
         if e1 is None:
             raise Exception("* first argument is unbound")
         if e2 is None:
             raise Exception("* second argument is unbound")
 
+        e3 = e1 * e2
+
         return [
             [None, None, e3]
         ]
-- 
2.43.0


From 7bb226602e2a8cf9a3800e61db8924b0ca2f34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:31 +0000
Subject: [PATCH 10/38] fix: generator: keep the binding of the matched rule,
 and don't take a rule whose condition fails

---
 richard/core/BasicGenerator.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..b386889 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -91,7 +91,7 @@ class BasicGenerator(SomeGenerator):
 
         found = False
         result_rule = None
-        binding = {}
+        result_binding = {}
 
         rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))
 
@@ -110,29 +110,26 @@ class BasicGenerator(SomeGenerator):
             # if antecedent_values is not None:
             #     binding[rule_antecedent_variable] = antecedent_values
 
-            if not rule.sem:
-                # no condition
-                result_rule = rule
-                found = True
-
-            else:
+            if rule.sem:
 
                 # match the condition
                 # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
                 match_bindings = self.solver.solve(rule.sem, binding)
 
-                if len(match_bindings) > 0:
-                    binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
+                if len(match_bindings) == 0:
+                    continue
+
+                binding = match_bindings[0]
 
+            result_rule = rule
+            result_binding = binding
+            found = True
 
-            if found:
-                # make sure the same rule is not executed again and again
-                if rule.hash not in used_rules:
-                    break
+            # make sure the same rule is not executed again and again
+            if rule.hash not in used_rules:
+                break
 
-        return result_rule, binding, found
+        return result_rule, result_binding, found
 
 
     def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
-- 
2.43.0


From 61af4c2f228f2695303b9a052e39485f44c3dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 11/38] fix: parser: match words regardless of the letter case
 of the grammar

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..82f1e9f 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -205,6 +205,6 @@ class EarleyParser:
 
 
     def read_word(self, text: str, start_index: int, word: str):
-        part = text[start_index:].lower()
-        return part[:len(word)] == word
+        part = text[start_index:start_index + len(word)]
+        return part.lower() == word.lower()
 
-- 
2.43.0


From be3dab87f24a143d09d7544c5c3aa6ad26c51dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:19 +0000
Subject: [PATCH 12/38] fix: parser: don't accept part of a regular expression
 match that doesn't match the expression

---
 richard/processor/parser/earley/EarleyParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 82f1e9f..58f653c 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -129,8 +129,10 @@ class EarleyParser:
             if word is not None:
                 for i in range(1, len(word)+1):
                     sub_word = word[0:i]
+                    # a part of the match must match the expression itself
+                    if i < len(word) and not re.fullmatch(next_consequent.predicate, sub_word):
+                        continue
                     sem = self.create_semantic_function_for_scanned_state(sub_word)
-# todo check if match regexp
                     self.add_scanned_state(chart, state, sub_word, sem)
 
         # match a string constant over multiple tokens
-- 
2.43.0


From 2c813d03d0042ac05bc1d7a8ea7ff40de4adfb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:53 +0000
Subject: [PATCH 13/38] fix: parser: don't add rules to the grammar while
 parsing

---
 richard/processor/parser/earley/EarleyParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 58f653c..b45a579 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -62,11 +62,12 @@ class EarleyParser:
         # ...
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
             variables = ["P" + str(j) for j in range(1, c+1)]
-            grammar_rules.add_rule(GrammarRule(
+            delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                 [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                 sem=lambda s: s
-            ))
+            )
+            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
 
 
         for i in range(charCount + 1):
-- 
2.43.0


From 5c21becb02b4612acf9fc9d93e4ffadc0a89d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:57 +0000
Subject: [PATCH 14/38] fix: parser: keep the readings of rules that differ
 only in their meaning

---
 richard/processor/parser/earley/entity/ChartState.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/entity/ChartState.py b/richard/processor/parser/earley/entity/ChartState.py
index 7881547..045c0ce 100644
--- a/richard/processor/parser/earley/entity/ChartState.py
+++ b/richard/processor/parser/earley/entity/ChartState.py
@@ -26,7 +26,8 @@ class ChartState:
         return self.rule.equals(other_state.rule) and \
                self.dot_position == other_state.dot_position and \
                self.start_char_index == other_state.start_char_index and \
-               self.end_char_index == other_state.end_char_index
+               self.end_char_index == other_state.end_char_index and \
+               (self.rule.sem is other_state.rule.sem or self.is_terminal())
 
 
     def is_terminal(self):
-- 
2.43.0


From f2e831b123acc9ea932874750e7be124c7bfcf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:19 +0000
Subject: [PATCH 15/38] fix: SPARQL: escape text values

---
 richard/data_source/SparqlDataSource.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..7816e1e 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -121,12 +121,19 @@ class SparqlDataSource(SomeDataSource):
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                prepared = "'{}'@{}".format(self.escape_text(term), self.lang)
         else:
             prepared = str(term)
         return prepared
 
 
+    def escape_text(self, text: str):
+        # the escape sequences of a SPARQL string literal
+        for char, escaped in [("\\", "\\\\"), ("'", "\\'"), ("\n", "\\n"), ("\r", "\\r")]:
+            text = text.replace(char, escaped)
+        return text
+
+
     def prepare_variables(self, values, terms):
         variables = []
         for i in range(2):
-- 
2.43.0


From 3b1b9ad7bc2821b9a891553433962945e8e52c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:19 +0000
Subject: [PATCH 16/38] fix: with_context: keep an enclosing context active,
 and end the context on an error

---
 richard/module/BasicDialogContext.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..f8cec3e 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -21,9 +21,14 @@ class BasicDialogContext(SimpleMemoryModule):
     def with_context(self, values: list, context: ExecutionContext) -> list[list]:
         name = values[0]
         body = values[1]
+        # an enclosing context of the same name must stay active afterwards
+        active = len(self.data_source.select('context', ['name'], [name])) > 0
         self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        try:
+            context.solver.solve(body, context.binding)
+        finally:
+            if not active:
+                self.data_source.delete('context', ['name'], [name])
         return [
             [None, None]
         ]
-- 
2.43.0


From dae0a3a3537c09486130039775bd6e010ed7d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:19 +0000
Subject: [PATCH 17/38] fix: in memory data source: a record without a value
 doesn't match a condition on it, and can be selected

---
 richard/data_source/SimpleDataSource.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..13a517b 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -38,11 +38,10 @@ class SimpleDataSource(SomeDataSource):
         for record in self.store[table]:
             ok = True
             for key, value in values.items():
-                if key in record:
-                    if record[key] != value:
-                        ok = False
+                if key not in record or record[key] != value:
+                    ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From cb800ca71e30ab391ec6d1c8a7bc95168259104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 18/38] fix: composer: rename local variables at any depth, so
 they can't coincide with those of other rules

---
 .../semantic_composer/SemanticComposer.py     | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index f672cf7..703ffc5 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -97,8 +97,10 @@ class SemanticComposer(SomeProcessor):
         else:
             inferences.extend(node.rule.dialog)
 
-        # extend the map with variables found in the result of the semantics function
+        # extend the map with variables found in the results of the rule's functions
         self.extend_map_with_semantics(map, semantics)
+        self.extend_map_with_semantics(map, inferences)
+        self.extend_map_with_semantics(map, executable)
 
         # replace the formal parameters in the semantics with the unified variables
         unified_semantics = self.unify_variables(semantics, map)
@@ -128,13 +130,15 @@ class SemanticComposer(SomeProcessor):
 
 
     def extend_map_with_semantics(self, map: dict, semantics: list[tuple]):
-        # only lists of atoms for now
-        if isinstance(semantics, list):
-            for atom in semantics:
-                for arg in atom:
-                    # since we're late in the game, don't replace variables that have already been replaced
-                    if isinstance(arg, Variable) and arg.name not in map and not self.variable_generator.isinstance(arg):
-                        map[arg.name] = self.variable_generator.next()
+        # lists of atoms, at any depth
+        if isinstance(semantics, (list, tuple)):
+            for term in semantics:
+                self.extend_map_with_semantics(map, term)
+        elif isinstance(semantics, SemanticTemplate):
+            self.extend_map_with_semantics(map, semantics.body)
+        # since we're late in the game, don't replace variables that have already been replaced
+        elif isinstance(semantics, Variable) and semantics.name not in map and not self.variable_generator.isinstance(semantics):
+            map[semantics.name] = self.variable_generator.next()
 
 
     def unify_variables(self, semantics: any, map: dict[str, str]) -> any:
-- 
2.43.0


From f2e533d5fed3c1cb56478a18c1cecfd4d049cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:27 +0000
Subject: [PATCH 19/38] fix: optimizer: don't multiply equal atoms when
 isolating parts

---
 .../semantic_composer/optimizer/IsolateIndependentParts.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 3297f03..2713df9 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -81,12 +81,11 @@ class IsolateIndependentParts:
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
         """
         ordered_atoms = []
+        remaining = list(batch.atoms)
 
         for atom in atoms:
-            for batch_atom in batch.atoms:
-                if batch_atom == atom:
-                    ordered_atoms.append(batch_atom)
-                    break
+            if atom in remaining:
+                ordered_atoms.append(remaining.pop(remaining.index(atom)))
 
         ordered_batch = AtomBatch(ordered_atoms, batch.variables)
         return ordered_batch
-- 
2.43.0


From 4bdd436df770d911c57cb3b4d34c40a2285b24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:30 +0000
Subject: [PATCH 20/38] fix: computed results: fail if the result is bound to
 another value

---
 richard/module/CoreModule.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/richard/module/CoreModule.py b/richard/module/CoreModule.py
index 6eb6136..a1ef144 100644
--- a/richard/module/CoreModule.py
+++ b/richard/module/CoreModule.py
@@ -104,6 +104,10 @@ class CoreModule(SomeModule):
 
         e3 = e1 * e2
 
+        # a result that is known already must be the same
+        if values[2] is not None and values[2] != e3:
+            return []
+
         return [
             [None, None, e3]
         ]
@@ -118,6 +122,10 @@ class CoreModule(SomeModule):
         results = context.solver.solve(body, context.binding)
         count = len(results)
 
+        # a result that is known already must be the same
+        if values[0] is not None and values[0] != count:
+            return []
+
         return [
             [count, None]
         ]
@@ -135,6 +143,10 @@ class CoreModule(SomeModule):
         for result in results:
             s += result[element_var.name]
 
+        # a result that is known already must be the same
+        if values[0] is not None and values[0] != s:
+            return []
+
         return [
             [s, None, None]
         ]
@@ -210,6 +222,10 @@ class CoreModule(SomeModule):
 
         average = s / n
 
+        # a result that is known already must be the same
+        if values[0] is not None and values[0] != average:
+            return []
+
         return [
             [average, None, None]
         ]
@@ -230,6 +246,10 @@ class CoreModule(SomeModule):
 
         percentage = (len(nominator_results) / len(denominator_results)) * 100.0
 
+        # a result that is known already must be the same
+        if values[0] is not None and values[0] != percentage:
+            return []
+
         return [
             [percentage, None, None]
         ]
-- 
2.43.0


From 94c42a2ec8c8f35b13ef54e90620a63a27487c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:35 +0000
Subject: [PATCH 21/38] fix: solver: check all results of a relation, not just
 the first

---
 richard/core/Solver.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/richard/core/Solver.py b/richard/core/Solver.py
index 91abfc2..e657cf0 100644
--- a/richard/core/Solver.py
+++ b/richard/core/Solver.py
@@ -56,14 +56,11 @@ class Solver(SomeSolver):
         if isinstance(values, ResultIterator):
             return values
 
-        if not isinstance(values, list):
-            raise Exception("Predicate '" + predicate + "' should return a list")
-
-        if len(values) > 0:
-            if not isinstance(values[0], list):
+        for value in values:
+            if not isinstance(value, list):
                 raise Exception("The results of '" + predicate + "' should be lists")
-            if len(values[0]) != len(arguments):
-                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(values[0])) + " and should be " + str(len(arguments)))
+            if len(value) != len(arguments):
+                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(value)) + " and should be " + str(len(arguments)))
 
         results = self.create_solve_single_results(values, binding, arguments)
         return results
@@ -131,6 +128,9 @@ class Solver(SomeSolver):
                     raise Exception("A relation that returns a ResultIterator can't be used in combination with another relation by the same name: " + relation.predicate)
                 return out_values
 
+            if not isinstance(out_values, list):
+                raise Exception("Predicate '" + predicate + "' should return a list")
+
             # deduplicate results
             for out_value in out_values:
                 stringed_value = str(out_value)
-- 
2.43.0


From 03e68621c7cdc5e3858d797a650f86e98ffeb2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:01 +0000
Subject: [PATCH 22/38] fix: ignore a SPARQL cache file that was not completely
 written

---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 7816e1e..8d97af9 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -34,7 +34,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except OSError:
+            except Exception:
+                # no cached result, or a file that was not completely written
                 pass
 
         # the actual select
-- 
2.43.0


From 3b32a9e499d25f36390720af68da3ce774053900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 23/38] fix: accept empty quoted strings in inference rules

---
 richard/module/helper/SimpleInferenceRuleParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 79df014..55b549d 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -22,8 +22,8 @@ class SimpleInferenceRuleParser:
             '\)',
             '\d+\.\d+',
             '\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
             '#.*',
-- 
2.43.0


From d5a1ab072656d8797b3c420de3d79b547cf16e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:01 +0000
Subject: [PATCH 24/38] fix: a rule with another number of arguments does not
 match

---
 richard/module/InferenceModule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index eac8877..06f1edf 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -52,6 +52,9 @@ class InferenceModule(SomeModule):
     def solve_rule(self, rule: InferenceRule, arguments: list, solver: SomeSolver, binding: dict):
 
         rule_arguments = rule.head[1:]
+        if len(rule_arguments) != len(arguments):
+            return []
+
         # initialize with binding variables that do not affect this rule (but may be used later on)
         rule_binding = {key: value for (key, value) in binding.items() if key not in rule.get_all_variables()}
 
-- 
2.43.0


From 91efa1a7454c547618baae676a1b69668d38e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:57 +0000
Subject: [PATCH 25/38] fix: variables in the atoms passed to a rule are not
 the rule's own variables

---
 richard/module/InferenceModule.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index 06f1edf..6c6d2b5 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -51,10 +51,12 @@ class InferenceModule(SomeModule):
 
     def solve_rule(self, rule: InferenceRule, arguments: list, solver: SomeSolver, binding: dict):
 
-        rule_arguments = rule.head[1:]
-        if len(rule_arguments) != len(arguments):
+        if len(rule.head[1:]) != len(arguments):
             return []
 
+        rule = self.rename_clashing_variables(rule, arguments, binding)
+        rule_arguments = rule.head[1:]
+
         # initialize with binding variables that do not affect this rule (but may be used later on)
         rule_binding = {key: value for (key, value) in binding.items() if key not in rule.get_all_variables()}
 
@@ -116,6 +118,26 @@ class InferenceModule(SomeModule):
         return results
 
 
+    # the atoms in an argument may contain variables with the same name as a variable of the rule
+    def rename_clashing_variables(self, rule: InferenceRule, arguments: list, binding: dict) -> InferenceRule:
+        values = [binding.get(argument.name, argument) if isinstance(argument, Variable) else argument for argument in arguments]
+        inner_variables = set(get_atom_variables([value for value in values if not isinstance(value, Variable)]))
+        clashing = inner_variables.intersection(rule.get_all_variables())
+        if len(clashing) == 0:
+            return rule
+
+        taken = inner_variables.union(rule.get_all_variables(), binding.keys())
+        renamed = {}
+        for name in sorted(clashing):
+            new_name = name
+            while new_name in taken:
+                new_name += "'"
+            taken.add(new_name)
+            renamed[name] = Variable(new_name)
+
+        return InferenceRule(bind_variables(rule.head, renamed), bind_variables(rule.body, renamed))
+
+
     # ('learn_rule', head, [body-atoms])
     def learn_rule(self, values: list, context: ExecutionContext) -> list[list]:
         head, body = values
-- 
2.43.0


From 6d3bcde77890af2c91a522e0f1b213cd0b9a9d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:59 +0000
Subject: [PATCH 26/38] fix: grammar rules that differ in exec, dialog or boost
 only are different rules

---
 richard/processor/parser/earley/entity/ChartState.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/entity/ChartState.py b/richard/processor/parser/earley/entity/ChartState.py
index 045c0ce..afec4b3 100644
--- a/richard/processor/parser/earley/entity/ChartState.py
+++ b/richard/processor/parser/earley/entity/ChartState.py
@@ -27,7 +27,15 @@ class ChartState:
                self.dot_position == other_state.dot_position and \
                self.start_char_index == other_state.start_char_index and \
                self.end_char_index == other_state.end_char_index and \
-               (self.rule.sem is other_state.rule.sem or self.is_terminal())
+               (self.has_same_attachments(other_state.rule) or self.is_terminal())
+
+
+    def has_same_attachments(self, other_rule: GrammarRule):
+        rule = self.rule
+        return rule.sem is other_rule.sem and \
+               rule.exec == other_rule.exec and \
+               rule.dialog == other_rule.dialog and \
+               rule.boost == other_rule.boost
 
 
     def is_terminal(self):
-- 
2.43.0


From 30b9ebdeb3112675732cb8c656363759a6ff495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:04 +0000
Subject: [PATCH 27/38] fix: words don't predict the category with the same
 name

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index b45a579..079c371 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -108,6 +108,10 @@ class EarleyParser:
         next_consequent_variables = state.rule.consequents[consequentIndex].arguments
         end_char_index = state.end_char_index
 
+        # a word is not a category, even if it has the same name
+        if nextConsequent.position_type != POS_TYPE_RELATION:
+            return
+
         for rule in grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables)) :
 
             predicted_state = ChartState(rule, 1, end_char_index, end_char_index)
-- 
2.43.0


From 84a2fd1ee9204cf8da3ce4c55b8cbbe450124ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:18 +0000
Subject: [PATCH 28/38] fix: a completed constituent only advances rules that
 wait for its number of arguments

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 079c371..6996c5b 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -194,6 +194,10 @@ class EarleyParser:
             if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
                 continue
 
+            # check if the number of arguments match
+            if len(charted_state.rule.consequents[dot_position-1].arguments) != len(completed_state.rule.antecedent.arguments):
+                continue
+
             # create a new state that is a dot-advancement of an older state
             advanced_state = ChartState(rule, dot_position+1, charted_state.start_char_index, completed_state.end_char_index)
 
-- 
2.43.0


From c7425cfe7f968a919f4bae07a06acad10b2f630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 29/38] fix: grammar rules: cover all combinations of optional
 parts, without stray or missing spaces

---
 richard/entity/GrammarRules.py | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index e7d6fb7..2674229 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -57,25 +57,26 @@ class GrammarRules:
             return variants
 
         consequent = rule.consequents[index]
-        look_ahead_consequent = rule.consequents[index+1] if index+1 < len(rule.consequents) else None
 
-        skip = 1
+        # a separator belongs to the constituent that follows it
+        if consequent.separator:
+            return self.create_rule_variants_rest(rule, index+1, variants)
+
+        separator = rule.consequents[index-1] if index > 0 and rule.consequents[index-1].separator else None
+
+        new_variants = []
+        for v in variants:
+            # a separator only stands between two constituents: 'the'?_... and ... _'the'? ...
+            if separator and len(v) > 0:
+                new_variants.append(v + [separator, consequent])
+            else:
+                new_variants.append(v + [consequent])
 
-        # 'the'?_...
-        if index == 0 and consequent.optional and not consequent.separator and look_ahead_consequent and look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
-            skip = 2
-        # ... _'the'? ...
-        elif consequent.separator and look_ahead_consequent and look_ahead_consequent.optional and not look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
-            skip = 2
         # ... ~ ...
-        elif consequent.optional:
-            new_variants = [v + [consequent] for v in variants]
+        if separator and separator.optional:
+            new_variants.extend([v + [consequent] for v in variants if len(v) > 0])
+
+        if consequent.optional:
             new_variants.extend(variants)
-        else:
-            new_variants = [v + [consequent] for v in variants]
 
-        return self.create_rule_variants_rest(rule, index+skip, new_variants)
+        return self.create_rule_variants_rest(rule, index+1, new_variants)
-- 
2.43.0


From e79c6758aec23c55c3cca2a101133a79427073b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:40 +0000
Subject: [PATCH 30/38] fix: grammar rules: reject syntax that ends in an
 operator

---
 richard/processor/parser/helper/SimpleGrammarRulesParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/helper/SimpleGrammarRulesParser.py b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
index f64867b..0da9521 100644
--- a/richard/processor/parser/helper/SimpleGrammarRulesParser.py
+++ b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
@@ -107,6 +107,7 @@ class SimpleGrammarRulesParser:
         pos = new_pos
 
         consequents = []
+        token = None
         while True:
 
             atom, new_pos = self.parse_atom(tokens, pos)
@@ -155,7 +156,8 @@ class SimpleGrammarRulesParser:
                     atom = RuleConstituent(' ', [], POS_TYPE_WORD_FORM, separator=True)
                     consequents.append(atom)
 
-        if pos != len(tokens):
+        # an operator must be followed by a constituent
+        if pos != len(tokens) or token in ['+', '~']:
             raise Exception("Could not complete parsing the consequents: " + syntax)
 
         return antecedent, consequents
-- 
2.43.0


From 01e19ebf1abb1931971b51b7214e56043ac7fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:44 +0000
Subject: [PATCH 31/38] fix: apply: don't replace slots inside the values of
 other slots

---
 .../parser/helper/grammar_functions.py          | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/richard/processor/parser/helper/grammar_functions.py b/richard/processor/parser/helper/grammar_functions.py
index 24a93b4..d1546f2 100644
--- a/richard/processor/parser/helper/grammar_functions.py
+++ b/richard/processor/parser/helper/grammar_functions.py
@@ -3,23 +3,22 @@ from richard.type import SemanticTemplate
 
 
 def apply(template: SemanticTemplate, *values):
-    replaced = template.body
-    for i, value in enumerate(values):
-        token = template.args[i][0]       
-        replaced = replace(replaced, token, value, True)
+    # replace all slots at once, since the values may contain slots of their own
+    replacements = [(template.args[i][0], value) for i, value in enumerate(values)]
 
-    return replaced
+    return replace(template.body, replacements, True)
 
 
-def replace(atoms, token, replacement, is_list):
+def replace(atoms, replacements, is_list):
     replaced = []
     for atom in atoms:
-        if atom == token:
+        replacement = next((value for token, value in replacements if atom == token), None)
+        if replacement is not None:
             replaced.extend(replacement)
         elif isinstance(atom, tuple):
-            replaced.append(replace(atom, token, replacement, False))
+            replaced.append(replace(atom, replacements, False))
         elif isinstance(atom, list):
-            replaced.append(replace(atom, token, replacement, True))
+            replaced.append(replace(atom, replacements, True))
         else:
             replaced.append(atom)
 
-- 
2.43.0


From 19980e733ac26669a1206073f3b8b8b948aa6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:16 +0000
Subject: [PATCH 32/38] fix: optimizer: don't divide by zero when an argument
 has no values

---
 richard/processor/semantic_composer/optimizer/SortByCost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/optimizer/SortByCost.py b/richard/processor/semantic_composer/optimizer/SortByCost.py
index f441cc7..0442e15 100644
--- a/richard/processor/semantic_composer/optimizer/SortByCost.py
+++ b/richard/processor/semantic_composer/optimizer/SortByCost.py
@@ -83,7 +83,8 @@ class SortByCost:
                     else:
                         unbound_argument_size_product *= argument_size
 
-                cost = relation.relation_size / unbound_argument_size_product
+                # an argument of an empty relation has no values
+                cost = relation.relation_size / max(unbound_argument_size_product, 1)
 
             costs.append(cost)
 
-- 
2.43.0


From cdcd16f63bb4809b655c192edfcdacd8f59c8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 33/38] fix: generator: empty the output buffer after an error
 as well

---
 richard/core/BasicGenerator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index b386889..033348b 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -21,9 +21,11 @@ class BasicGenerator(SomeGenerator):
 
 
     def generate_output(self):
-        output = self.generate_node([], "s", [], False)
-        self.output_buffer.clear()
-        return output
+        try:
+            return self.generate_node([], "s", [], False)
+        finally:
+            # what could not be worded may not end up in the next answer
+            self.output_buffer.clear()
 
 
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
-- 
2.43.0


From ad75b30bbc3591f063bf975d0b69bc0b603bbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:39 +0000
Subject: [PATCH 34/38] fix: generator: keep the optional parts of a rule that
 is used again

---
 richard/core/BasicGenerator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 033348b..ae31238 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -96,9 +96,16 @@ class BasicGenerator(SomeGenerator):
         result_binding = {}
 
         rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))
+        antecedent = None
 
         for rule in rules:
 
+            # the first variant of a rule has all optional constituents, and these are left out when they have no rule;
+            # skip the other variants: they are not alternatives
+            if rule.antecedent is antecedent:
+                continue
+            antecedent = rule.antecedent
+
             # example rule:
             # syn: s(E1) -> np(E2) vp(E1)
             # if: [('output_type', 'declarative'), ('output_subject', E1, E2)]
-- 
2.43.0


From 7930c2c0ab0f0156d12b2f0bd5139d8029ac34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:44 +0000
Subject: [PATCH 35/38] fix: generator: rules with the same syntax but other
 conditions are different rules

---
 richard/core/BasicGenerator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index ae31238..9f27468 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -28,15 +28,14 @@ class BasicGenerator(SomeGenerator):
             self.output_buffer.clear()
 
 
-    def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
+    def generate_node(self, used_rules: list[GrammarRule], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
 
         words = []
         rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)
 
         if found:
 
-            hash = rule.hash
-            used_rules.append(hash)
+            used_rules.append(rule)
 
             for i, consequent in enumerate(rule.consequents):
                 consequent_vals = self.get_consequent_values(rule, i, binding)
@@ -89,7 +88,7 @@ class BasicGenerator(SomeGenerator):
         return consequent_values
 
 
-    def find_rule(self, used_rules: list, antecedent_cat: str, antecedent_values: list[any]):
+    def find_rule(self, used_rules: list[GrammarRule], antecedent_cat: str, antecedent_values: list[any]):
 
         found = False
         result_rule = None
@@ -135,13 +134,13 @@ class BasicGenerator(SomeGenerator):
             found = True
 
             # make sure the same rule is not executed again and again
-            if rule.hash not in used_rules:
+            if rule not in used_rules:
                 break
 
         return result_rule, result_binding, found
 
 
-    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
+    def generate_single_consequent(self, rule: GrammarRule, used_rules: list[GrammarRule], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
 
         if position_type == POS_TYPE_WORD_FORM:
             result = category
-- 
2.43.0


From 0a9cc34bc023e0113d5cb633e33042cabcea0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 36/38] fix: log the name of the language as a whole, not
 letter by letter

---
 richard/processor/language_selector/LanguageSelectorProduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/language_selector/LanguageSelectorProduct.py b/richard/processor/language_selector/LanguageSelectorProduct.py
index 81757a7..6083eac 100644
--- a/richard/processor/language_selector/LanguageSelectorProduct.py
+++ b/richard/processor/language_selector/LanguageSelectorProduct.py
@@ -10,7 +10,7 @@ class LanguageSelectorProduct(SomeProduct):
 
 
     def log(self, logger: Logger):
-        logger.add(", ".join(self.locale))
+        logger.add(self.locale)
 
 
     def get_output(self) -> any:
-- 
2.43.0


From 97b2843c338b90b3afe1513dd23ec43fad925bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 37/38] fix: dialog tester: log only the last test, not the
 earlier ones that are equal to it

---
 richard/core/DialogTester.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/DialogTester.py b/richard/core/DialogTester.py
index f963a41..42d014a 100644
--- a/richard/core/DialogTester.py
+++ b/richard/core/DialogTester.py
@@ -42,12 +42,12 @@ class DialogTester:
 
 
     def do_run(self):
-        last = self.tests[-1] if len(self.tests) > 0 else None
+        last_index = len(self.tests) - 1
         for i, test in enumerate(self.tests):
 
             question, expected = test
 
-            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and test == last)
+            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and i == last_index)
             self.logger.is_last_test = log_this
 
             request = SentenceRequest(question, logger=self.logger)
-- 
2.43.0


From acdccef1d8fbb0d2eb740708001234521762dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:49 +0000
Subject: [PATCH 38/38] fix: line breaks inside the cells of a CSV file were
 changed on import

---
 richard/data_source/CsvImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/data_source/CsvImporter.py b/richard/data_source/CsvImporter.py
index 7c04749..541c9f9 100644
--- a/richard/data_source/CsvImporter.py
+++ b/richard/data_source/CsvImporter.py
@@ -4,7 +4,7 @@ from richard.interface.SomeDataSource import SomeDataSource
 
 class CsvImporter:
     def import_table_from_file(self, table_name: str, file_path: str, data_source: SomeDataSource):
-        with open(file_path) as csvfile:
+        with open(file_path, newline='') as csvfile:
             reader = csv.reader(csvfile, delimiter=',')
             line = 0
             headers = []
-- 
2.43.0

