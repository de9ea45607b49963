From 009fbb622d52dcdbd86d6f418e4177ef1abd65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 1/5] fix: FldExporter generates the largest number of values
 whose power does not exceed the total

The root of the total is rounded (e.g., pow(1000, 1/3.0) is 9.99...), and truncating it
dropped one value per variable for exact powers.
---
 src/imex/FldExporter.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..e55b29b 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -209,9 +209,15 @@ namespace fuzzylite {
         }
 
         int resolution;
-        if (scope == AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()));
-        else  // if (scope == EachVariable)
+        if (scope == AllVariables) {
+            // largest number of values per variable whose power does not exceed the number of values,
+            // taking the nearest integer because the root is rounded (e.g., 1000^(1/3) = 9.99...)
+            const scalar inputs = engine->numberOfInputVariables();
+            int valuesPerVariable = (int)std::max(1.0, std::floor(0.5 + std::pow(values, 1.0 / inputs)));
+            if (valuesPerVariable > 1 and std::pow(scalar(valuesPerVariable), inputs) > values)
+                --valuesPerVariable;
+            resolution = -1 + valuesPerVariable;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
-- 
2.43.0


From 4a0a8340fce67ddfb631ec7faeaf788a9d23a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 2/5] fix: Engine::isReady requires the operators of loaded
 rules however their text separates them

---
 src/Engine.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..abc5cae 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -186,6 +186,15 @@ namespace fuzzylite {
             delete activation;
     }
 
+    // whether the expression has an operator of the given name
+    static bool hasOperator(const Expression* expression, const std::string& name) {
+        if (not expression or expression->type() != Expression::Operator)
+            return false;
+        const Operator* fuzzyOperator = static_cast<const Operator*>(expression);
+        return fuzzyOperator->name == name or hasOperator(fuzzyOperator->left, name)
+               or hasOperator(fuzzyOperator->right, name);
+    }
+
     bool Engine::isReady(std::string* status) const {
         std::ostringstream ss;
         if (inputVariables().empty())
@@ -240,9 +249,13 @@ namespace fuzzylite {
                         std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
                         std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
                         std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
-                        if (andIndex != std::string::npos and andIndex < thenIndex)
+                        // the text of a loaded rule may separate its operators differently, e.g. (a is b)and(c is d)
+                        const Expression* antecedent = rule->isLoaded() ? rule->getAntecedent()->getExpression() : fl::null;
+                        if ((andIndex != std::string::npos and andIndex < thenIndex)
+                            or hasOperator(antecedent, Rule::andKeyword()))
                             ++requiresConjunction;
-                        if (orIndex != std::string::npos and orIndex < thenIndex)
+                        if ((orIndex != std::string::npos and orIndex < thenIndex)
+                            or hasOperator(antecedent, Rule::orKeyword()))
                             ++requiresDisjunction;
                         if (rule->isLoaded()) {
                             Consequent* consequent = rule->getConsequent();
-- 
2.43.0


From 762b07fa5d80b6c82501fd48ce49457878fc2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 3/5] fix: Operation::findReplace keeps the rest of the text
 after replacing once and returns when there is nothing to find

---
 fuzzylite/Operation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..7b6b56a 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -844,6 +844,8 @@ namespace fuzzylite {
     inline std::string Operation::findReplace(
         const std::string& str, const std::string& find, const std::string& replace, bool replaceAll
     ) {
+        if (find.empty())
+            return str;
         std::ostringstream result;
         std::size_t fromIndex = 0, nextIndex;
         do {
@@ -853,6 +855,8 @@ namespace fuzzylite {
                 result << replace;
             fromIndex = nextIndex + find.size();
         } while (replaceAll and nextIndex != std::string::npos);
+        if (nextIndex != std::string::npos)
+            result << str.substr(fromIndex);
         return result.str();
     }
 
-- 
2.43.0


From 553e7917044cacff30cb2608127c765dfd28d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 4/5] fix: copying an engine keeps the enabled flags and
 weights of its rules

---
 src/Engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index abc5cae..3f57d24 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -99,6 +99,12 @@ namespace fuzzylite {
             } catch (...) {
                 // ignore
             }
+            // loading enables the rules and takes their weights from the text
+            for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
+                const Rule* source = other._ruleBlocks.at(i)->getRule(r);
+                ruleBlock->getRule(r)->setEnabled(source->isEnabled());
+                ruleBlock->getRule(r)->setWeight(source->getWeight());
+            }
             _ruleBlocks.push_back(ruleBlock);
         }
     }
-- 
2.43.0


From d1cd0e4a4d16ef545268e5ba532ac8d1abbfaf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 5/5] fix: activated terms of a copied engine refer to the
 terms and operators of the copy

---
 src/Engine.cpp                  | 11 +++++++++++
 src/variable/OutputVariable.cpp |  9 +++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 3f57d24..9cb28bb 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -107,6 +107,17 @@ namespace fuzzylite {
             }
             _ruleBlocks.push_back(ruleBlock);
         }
+
+        // the activated terms are implied by the operators of the rule blocks in this engine
+        for (std::size_t i = 0; i < _outputVariables.size(); ++i) {
+            std::vector<Activated>& activated = _outputVariables.at(i)->fuzzyOutput()->terms();
+            for (std::size_t t = 0; t < activated.size(); ++t)
+                for (std::size_t r = 0; r < _ruleBlocks.size(); ++r)
+                    if (activated.at(t).getImplication() == other._ruleBlocks.at(r)->getImplication()) {
+                        activated.at(t).setImplication(_ruleBlocks.at(r)->getImplication());
+                        break;
+                    }
+        }
     }
 
     void Engine::updateReferences() const {
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..e68e031 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,15 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the activated terms refer to the terms of this variable
+        for (std::size_t i = 0; i < _fuzzyOutput->numberOfTerms(); ++i) {
+            Activated& activated = _fuzzyOutput->terms().at(i);
+            for (std::size_t t = 0; t < other.numberOfTerms(); ++t)
+                if (activated.getTerm() == other.getTerm(t)) {
+                    activated.setTerm(getTerm(t));
+                    break;
+                }
+        }
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0

