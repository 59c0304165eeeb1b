From 031ed0fb8b685d1c825715adba3160ecbb70b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 01/48] fix: do not read a number from a word without a value
 into system macros

A word whose value is an expression (S[SIN[30]]) or that is cut short (' H[') reached
stod("") and let std::invalid_argument escape from the parser.
---
 parser/fanuc/SystemMacroAssigner.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/fanuc/SystemMacroAssigner.cpp b/parser/fanuc/SystemMacroAssigner.cpp
index cafd964..8f8f860 100644
--- a/parser/fanuc/SystemMacroAssigner.cpp
+++ b/parser/fanuc/SystemMacroAssigner.cpp
@@ -52,6 +52,10 @@ public:
                 macro_values.insert_or_assign(macro_map_key{v, line}, value);
         };
 
+        // nothing to assign when the value is not a number but an expression, e.g. S[SIN[30]]
+        if (!data.value && !data.value2)
+            return;
+
         if (word_macros_map.count(data.word))
             macro_value_inserter(word_macros_map.find(data.word)->second);
     }
-- 
2.43.0


From c59351e8c98d955385e40eb1a53aee0cc13630ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:55 +0000
Subject: [PATCH 02/48] fix: forget bracket and macro state between lines

The grammar kept counting brackets and macro assignments over lines, so that e.g. after
'X[1' a word without a value was accepted and after 'X1]' balanced brackets were rejected.
---
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..de2aebf 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = {}; // brackets and macro assignment of another line have no meaning for the next one
     }
 
 private:
-- 
2.43.0


From 6cc40ff35d8252799156576ca0783313a074f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 03/48] fix: report why a macro expression could not be
 evaluated

---
 parser/fanuc/AllAttributesParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..3622770 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -223,7 +223,8 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         if (!MacroEvaluator::evaluate(macro_values, line, value, message, single_line_msg, other_settings.language))
         {
-            message = all_attr_grammar->get_message();
+            if (message.empty())
+                message = all_attr_grammar->get_message();
             return false;
         }
 
-- 
2.43.0


From a5771d8d0abb537c7256617e3d4fffa21ae1d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 04/48] fix: reject MOD by zero instead of crashing

---
 parser/fanuc/ValueCalculator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..4242478 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -240,7 +240,14 @@ public:
         else if (x.operator_name == "XOR")
             return static_cast<int>(lhs) ^ static_cast<int>(rhs);
         else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+        {
+            // integer division traps on a zero divisor (and on INT_MIN / -1)
+            const auto divisor = static_cast<int>(rhs);
+            if (divisor == 0)
+                throw eval_exception(
+                    make_message(MessageName::UnsupportedBinaryOperation, language, x.operator_name));
+            return divisor == -1 ? 0 : static_cast<int>(lhs) % divisor;
+        }
 
         // BOOST_ASSERT(0);
         // return 0;
-- 
2.43.0


From 60e567e14b4003f106d4776bcd6aee247197e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 05/48] fix: inverse trigonometric functions return degrees

---
 parser/fanuc/ValueCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 4242478..b6651e7 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -288,11 +288,11 @@ public:
         if (x.name == "abs")
             return std::abs(rhs);
         else if (x.name == "acos")
-            return std::acos(rhs * M_PI / 180);
+            return std::acos(rhs) * 180 / M_PI;
         else if (x.name == "asin")
-            return std::asin(rhs * M_PI / 180);
+            return std::asin(rhs) * 180 / M_PI;
         else if (x.name == "atan")
-            return std::atan(rhs * M_PI / 180);
+            return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
             return std::ceil(rhs);
         else if (x.name == "cos")
-- 
2.43.0


From dd82f7646d5d39d8ba36ddc3c381f4ebfc5d1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 06/48] fix: evaluate SINH

---
 parser/fanuc/ValueCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index b6651e7..a0713f3 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -309,6 +309,8 @@ public:
             return std::log(rhs);
         else if (x.name == "sin")
             return std::sin(rhs * M_PI / 180);
+        else if (x.name == "sinh")
+            return std::sinh(rhs * M_PI / 180);
         else if (x.name == "sqrt")
             return std::sqrt(rhs);
         else if (x.name == "tan")
-- 
2.43.0


From 2406ab3ff5d0f1c31c9954e7dfe1e14131564888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:20 +0000
Subject: [PATCH 07/48] fix: reject a macro reference without a number in front
 of a macro operation instead of crashing

---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index fac2654..43de2eb 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -46,6 +46,8 @@ public:
             text += *data.open_bracket;
         if (was_interesting_word && data.macro)
         {
+            if (!data.value)
+                throw macro_evaluated_code_exception(make_message(MessageName::MissingValue, language, *data.macro));
             unsigned int val        = std::stoi(*data.value);
             auto         macro_itor = macro_values.lower_bound({val, line});
             if (macro_itor == std::end(macro_values) ||
-- 
2.43.0


From eafb7e363d8995d21754c41bf4db398ab064d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:36 +0000
Subject: [PATCH 08/48] fix: combine the signs of a word and of its negative
 macro variable

---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index 43de2eb..7c9b4bf 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -54,7 +54,13 @@ public:
                 (macro_itor != std::end(macro_values) && macro_itor->first.id != val))
                 throw macro_evaluated_code_exception(
                     make_message(MessageName::MissingValue, language, "#" + *data.value));
-            text += to_string_trunc(macro_itor->second);
+            auto macro_value = to_string_trunc(macro_itor->second);
+            if (data.sign && !data.open_bracket && macro_value.front() == '-') // the word takes only one sign
+            {
+                text.back() = *data.sign == '-' ? '+' : '-';
+                macro_value.erase(0, 1);
+            }
+            text += macro_value;
             was_modified = true;
         }
         else
-- 
2.43.0


From 6104a84737665268c2e309b7a0cd84b2a433e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 09/48] fix: zero point is subtracted from the tool exchange
 and machine base points

The conditional operator bound wider than the subtraction, so with a zero
point set the points became the zero point itself, and an axis other than
X, Y, Z raised an exception.
---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 3622770..6f2618b 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -145,13 +145,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From ba353d7bf2de6f3625b2c9123c4a67f9b680b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 10/48] fix: drill cycles with a Q parameter report a missing Q
 instead of reading past the values

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..a09a28e 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1196,7 +1196,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                if (qit == std::end(values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
-- 
2.43.0


From 984af1acae0995b892e763ecf5a50035df6a26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 11/48] fix: reset of the path calculator clears the pending
 rapid traverse after a tool exchange

---
 parser/fanuc/AttributesPathCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a09a28e..fb98e42 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -454,6 +454,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
-- 
2.43.0


From b8151bdae8035ac12d5e16eef7b1953f5789ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 12/48] fix: a helix block without the third axis no longer
 reads an empty optional

---
 parser/fanuc/AttributesPathCalculator.cpp | 25 ++++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index fb98e42..d567b49 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -972,21 +972,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
             if (current_g9091 == EProgrammingType::Incremental)
             {
+                const auto z_incr = z ? *z : 0.;
                 if (active_helix == EHelixType::Full)
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z_incr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z_incr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_incr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_incr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -996,9 +997,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z_incr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z_incr, *r);
                     }
                     else
                     {
@@ -1017,16 +1018,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1035,9 +1036,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
-- 
2.43.0


From 948957119b549c78d382563e2e3e08d024254a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 13/48] fix: G20/G21 switch the word ranges used for the
 following lines

The grammar was built once for the initial unit system, so the ranges of the
other unit system were never applied.  The switch now also happens only for
accepted lines, whether or not macros were evaluated on them.
---
 parser/fanuc/AllAttributesParser.cpp | 20 ++++++++++++--------
 parser/fanuc/AllAttributesParser.h   |  1 +
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 6f2618b..a27381f 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -61,13 +61,8 @@ AllAttributesParser::AllAttributesParser(FanucWordGrammar&& grammar, std::vector
     , other_settings(std::move(other_settings))
     , fanuc_parser_type(fanuc_parser_type)
 {
-    build_symbols();
-
     if (instantiateWithoutNCSettings)
-    {
-        all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
-            *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
-    }
+        build_grammar();
 }
 
 void AllAttributesParser::set_parser_settings(const ParserSettings& parser_settings)
@@ -158,6 +153,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
         std::make_unique<AttributesPathCalculator>(machine_tool, machine_tool_type, machine_points_data_zero_point,
                                                    kinematics, cnc_default_values, other_settings.language);
 
+    build_grammar();
+}
+
+void AllAttributesParser::build_grammar()
+{
+    build_symbols();
+
     all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
         *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
 }
@@ -207,6 +209,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     bool              evaluated_code_part{};
     pos_iterator_type position_begin(data.cbegin()), iter = position_begin, position_end(data.cend());
     pos_iterator_type position_begin2;
+    const auto*       previous_word_grammar = active_word_grammar;
 
     try
     {
@@ -241,8 +244,6 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             evaluated_code_part     = true;
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
-
-            GrammarSelector()(word_grammar, active_word_grammar, value2);
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
@@ -274,6 +275,9 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         }
 
         GrammarSelector()(word_grammar, active_word_grammar, evaluated_code.empty() ? value : value2);
+
+        if (active_word_grammar != previous_word_grammar)
+            build_grammar();
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
diff --git a/parser/fanuc/AllAttributesParser.h b/parser/fanuc/AllAttributesParser.h
index 49ac6c7..960814f 100644
--- a/parser/fanuc/AllAttributesParser.h
+++ b/parser/fanuc/AllAttributesParser.h
@@ -114,6 +114,7 @@ private:
     bool remove_optional_block(int line, const std::string& data, std::vector<AttributeVariant>& value,
                                std::string& message, bool single_line_msg);
 
+    void build_grammar();
     void build_symbols();
 
     bool simple_parse(int line, std::string_view data, std::vector<AttributeVariant>& value, std::string& message,
-- 
2.43.0


From 665e4185eca096f5f84b9276e556de153eb963e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 14/48] fix: indirect addressing assigns the macro variable
 with the computed number

#[#1+1]=5 and ##1=5 assigned #1.  The text before the equal sign is now
evaluated when it is not a plain number.
---
 parser/fanuc/MacroEvaluator.cpp | 97 ++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 33 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 7b63f16..149a793 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -2,6 +2,9 @@
 
 #include "MacroEvaluator.h"
 
+#include <cmath>
+#include <limits>
+
 #include <boost/variant.hpp>
 
 #include "MessageTextImpl.h"
@@ -19,41 +22,28 @@ public:
         {
             if (data.word == "#")
             {
-                if (data.value)
-                    macro = std::stoi(*data.value);
+                index.clear();
+                append(index, data);
                 return;
             }
-            else if (macro != -1)
+            else if (index.empty())
             {
-                if (data.word == "=")
-                {
-                    was_equal_sign = true;
-                }
+                return;
             }
-            else
+            else if (data.word != "=")
             {
+                index += data.word;
+                append(index, data);
                 return;
             }
+            was_equal_sign = true;
         }
         else
         {
             text += data.word;
         }
 
-        if (data.sign)
-            text += *data.sign;
-        if (data.open_bracket)
-            text += *data.open_bracket;
-        if (data.macro)
-            text += *data.macro;
-        if (data.value)
-            text += *data.value;
-        if (data.dot)
-            text += *data.dot;
-        if (data.value2)
-            text += *data.value2;
-        if (data.close_bracket)
-            text += *data.close_bracket;
+        append(text, data);
     }
 
     template <typename T>
@@ -61,9 +51,10 @@ public:
     {
     }
 
-    int get_macro() const
+    // what stands between # and the equal sign: a number or, with indirect addressing, an expression
+    std::string get_index() const
     {
-        return macro;
+        return index;
     }
 
     std::string get_text() const
@@ -72,8 +63,26 @@ public:
     }
 
 private:
-    int         macro = -1;
+    static void append(std::string& str, const DecimalAttributeData& data)
+    {
+        if (data.sign)
+            str += *data.sign;
+        if (data.open_bracket)
+            str += *data.open_bracket;
+        if (data.macro)
+            str += *data.macro;
+        if (data.value)
+            str += *data.value;
+        if (data.dot)
+            str += *data.dot;
+        if (data.value2)
+            str += *data.value2;
+        if (data.close_bracket)
+            str += *data.close_bracket;
+    }
+
     bool        was_equal_sign{};
+    std::string index;
     std::string text;
 };
 
@@ -83,24 +92,46 @@ bool MacroEvaluator::evaluate(macro_map& macro_values, int line, const std::vect
     MacroVisitor macro_visitor;
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(macro_visitor, value[x]);
-    const auto macro_id   = macro_visitor.get_macro();
-    const auto macro_text = macro_visitor.get_text();
+    const auto macro_index = macro_visitor.get_index();
+    const auto macro_text  = macro_visitor.get_text();
 
-    if (macro_id != -1)
+    if (!macro_index.empty())
     {
-        if (macro_text.empty())
+        const auto is_number   = macro_index.find_first_not_of("0123456789") == std::string::npos;
+        const auto is_indirect = macro_index.front() == '[' || macro_index.front() == '#';
+
+        if (macro_text.empty() || (!is_number && !is_indirect))
         {
-            message = make_message(MessageName::WrongMacroDefinition, language, std::to_string(macro_id));
+            message = make_message(MessageName::WrongMacroDefinition, language, macro_index);
             return false;
         }
 
-        double          macro_result_value{};
         ValueCalculator value_calculator;
+
+        unsigned int macro_id{};
+        if (is_number)
+        {
+            macro_id = std::stoi(macro_index);
+        }
+        else
+        {
+            double macro_index_value{};
+            if (!value_calculator.parse(macro_index, message, single_line_msg, macro_values, macro_index_value,
+                                        language))
+                return false;
+            if (!(macro_index_value >= 1 && macro_index_value <= std::numeric_limits<int>::max()))
+            {
+                message = make_message(MessageName::WrongMacroDefinition, language, macro_index);
+                return false;
+            }
+            macro_id = static_cast<unsigned int>(std::round(macro_index_value));
+        }
+
+        double macro_result_value{};
         auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value, language);
         if (!vc_ret)
             return false;
-        macro_values.emplace(std::make_pair(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
-                                            macro_result_value));
+        macro_values.emplace(std::make_pair(macro_map_key{macro_id, line}, macro_result_value));
     }
 
     return true;
-- 
2.43.0


From ccc4402d8a47435c21916f645f146b283b849d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 15/48] fix: reject a line whose text with macro values breaks
 the word grammar

---
 parser/fanuc/AllAttributesParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a27381f..9f29c04 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -241,7 +241,9 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
             position_begin2         = pos_iterator_type(evaluated_code_view.cbegin());
             pos_iterator_type iter2 = position_begin2, position_end2(evaluated_code_view.cend());
+            all_attr_grammar->clear_message();
             evaluated_code_part     = true;
+            ret                     = false;
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
         }
-- 
2.43.0


From e8554e5a3736c8ae4aaaba487d7a6006b26ae2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 16/48] fix: dwell, offset and coordinate system words are not
 a motion

---
 parser/fanuc/AttributesPathCalculator.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index d567b49..d5b1f6e 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -168,7 +168,7 @@ public:
                 active_g9091 = vale;
             else
             {
-                auto tmp = *data.value;
+                auto tmp = std::to_string(val); // without leading zeros
                 if (data.dot && data.value2)
                     tmp += *data.dot + *data.value2;
                 other_g.push_back(tmp);
@@ -491,7 +491,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto  g9697                = attributes_visitor.get_g9697();
     const auto  feed_mode            = attributes_visitor.get_feed_mode();
     const auto& other_g              = attributes_visitor.get_other_g();
-    const auto& values               = attributes_visitor.get_values();
+    auto        values               = attributes_visitor.get_values();
     const auto  was_m6               = attributes_visitor.was_m6();
     const auto  was_pallet_exchange  = attributes_visitor.was_pallet_exchange();
     const auto  was_tool_measurement = attributes_visitor.was_tool_measurement();
@@ -575,7 +575,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
 
     if (std::find_if(std::cbegin(other_g), std::cend(other_g),
-                     [](const std::string& val) { return val == "04" || val == "4"; }) != std::cend(other_g))
+                     [](const std::string& val) { return val == "4"; }) != std::cend(other_g))
     {
         if (const auto xit = values.find("X"); xit != std::cend(values))
             time_result.total += xit->second;
@@ -583,6 +583,17 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             time_result.total += xit->second;
         if (const auto xit = values.find("P"); xit != std::cend(values))
             time_result.total += xit->second;
+        for (const auto* dwell : {"X", "U", "P"}) // not a motion
+            values.erase(dwell);
+    }
+
+    // words which have a different meaning in this block are not a motion
+    for (const auto& it : get_ignore_g_codes())
+    {
+        if (std::any_of(std::cbegin(it.second), std::cend(it.second), [&](const auto& ignore_g) {
+                return std::find(std::cbegin(other_g), std::cend(other_g), ignore_g) != std::cend(other_g);
+            }))
+            values.erase(std::string{it.first});
     }
 
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
-- 
2.43.0


From e10d4c985b96ba84d18b59ac67d37eddc4522087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 17/48] fix: keep F, S and modal G codes of a block without
 motion

---
 parser/fanuc/AttributesPathCalculator.cpp | 38 +++++++++++++++++------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index d5b1f6e..6bd8633 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -499,6 +499,24 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     bool move_to_tool_exchange_point{};
     bool move_to_machine_base_point{};
 
+    // modal values of a block without a motion hold for the next blocks
+    const auto save_modal_values = [&]() {
+        if (f)
+            active_f = *f;
+        if (s)
+            active_s = *s;
+        if (g171819)
+            active_g171819 = *g171819;
+        if (g_return)
+            active_g_return = *g_return;
+        if (g9091)
+            active_g9091 = *g9091;
+        if (g9697)
+            active_g9697 = *g9697;
+        if (feed_mode)
+            active_feed_mode = *feed_mode;
+    };
+
     if (!cnc_default_values.tool_number_executes_exchange && was_m6)
     {
         move_to_tool_exchange_point = true;
@@ -567,6 +585,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
+            save_modal_values();
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
@@ -612,14 +631,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     {
         if (active_g == -1 && !g)
         {
-            if (g171819)
-                active_g171819 = *g171819;
-            if (g9091)
-                active_g9091 = *g9091;
-            if (g9697)
-                active_g9697 = *g9697;
-            if (g_return)
-                active_g_return = *g_return;
+            save_modal_values();
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis because here may be start values before any G code is being used
@@ -749,8 +761,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && values.size() == 0) // no motion here
+        {
+            save_modal_values();
             return;
+        }
 
         if ((current_g == 2 && cnc_default_values.circular_interpolation_cw_cancel_cycle) ||
             (current_g == 3 && cnc_default_values.circular_interpolation_ccw_cancel_cycle))
@@ -1120,8 +1135,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && values.size() == 0) // no motion here
+        {
+            save_modal_values();
             return;
+        }
 
         std::string axis1, axis2, axis3, axis_gleb;
         using fn_drill_cycle =
-- 
2.43.0


From dc22bcb163e84655fc060e6db77a9e4cbd8a618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 18/48] fix: path calculator no longer reads parameters it
 moved from

---
 parser/fanuc/AttributesPathCalculator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 6bd8633..b8a0180 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -403,14 +403,15 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , cnc_default_values(std::move(cnc_default_values))
     , language(language)
     , active_s(this->cnc_default_values.operator_turns_on_rotation ? this->cnc_default_values.default_rotation : -1)
-    , active_g(static_cast<int>(cnc_default_values.default_motion))
+    , active_g(static_cast<int>(this->cnc_default_values.default_motion))
     , active_g171819(this->cnc_default_values.default_work_plane)
     , active_g_return(this->cnc_default_values.drill_cycle_return_value)
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
-    for (const auto& it : kinematics.cartesian_system_axis)
+    // the parameters were moved from
+    copy_on_return cr{active_g, active_g9091, this->machine_points_data.machine_base_point, prev_values, word_range};
+    for (const auto& it : this->kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
 
-- 
2.43.0


From 0875ea6fee50672ef59a770d6f95f98cd089bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 19/48] fix: decimal digits of S and F count against the
 allowed maximum

---
 parser/fanuc/RangeVerifier.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/RangeVerifier.cpp b/parser/fanuc/RangeVerifier.cpp
index 86196e8..0d066e4 100644
--- a/parser/fanuc/RangeVerifier.cpp
+++ b/parser/fanuc/RangeVerifier.cpp
@@ -24,10 +24,10 @@ public:
     {
         if (data.word == "S")
         {
-            if (data.value && std::stoi(*data.value) > kinematics.maximum_spindle_speed)
+            if (data.value && std::stod(number(data)) > kinematics.maximum_spindle_speed)
                 throw range_verifier_exception(make_message(MessageName::ValueHigherThanAllowed, language,
                                                             std::string("S"),
-                                                            *data.value,
+                                                            number(data),
                                                             std::to_string(kinematics.maximum_spindle_speed)));
         }
         else if (data.word == "T")
@@ -46,10 +46,10 @@ public:
         }
         else if (data.word == "F")
         {
-            if (data.value && std::stoi(*data.value) > kinematics.max_working_feed)
+            if (data.value && std::stod(number(data)) > kinematics.max_working_feed)
                 throw range_verifier_exception(make_message(MessageName::ValueHigherThanAllowed, language,
                                                             std::string("F"),
-                                                            *data.value, std::to_string(kinematics.max_working_feed)));
+                                                            number(data), std::to_string(kinematics.max_working_feed)));
         }
     }
 
@@ -59,6 +59,15 @@ public:
     }
 
 private:
+    // number with its decimal digits
+    static std::string number(const DecimalAttributeData& data)
+    {
+        std::string text{*data.value};
+        if (data.dot && data.value2)
+            text += *data.dot + *data.value2;
+        return text;
+    }
+
     EMachineToolType  machine_tool_type;
     const Kinematics& kinematics;
     const ELanguage   language;
-- 
2.43.0


From 35a57fbd6059db8a98f21a8707d02773dfcecc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 20/48] fix: arcs over 180 degrees which start or end on an
 axis through the centre

---
 parser/fanuc/PathCalculator.cpp | 69 +++------------------------------
 1 file changed, 5 insertions(+), 64 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7124b55..b77caca 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -67,70 +67,11 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             CurtempY = Ycur;
         }
 
-        // Sprawdzenie do której cwiartki nalezy punkt poprzedni
-        // Utworzenie grupy cwiartek poprzednich Prev
-        int Prev{};
-        if (PretempX > 0 && PretempY > 0)
-            Prev = 1;
-        else if (PretempX < 0 && PretempY < 0)
-            Prev = 3;
-        else if (PretempX > 0 && PretempY < 0)
-            Prev = 4;
-        else if (PretempX < 0 && PretempY > 0)
-            Prev = 2;
-
-        // Sprawdzenie do ktorej cwiartki nalezy punkt biezacy
-        // Utworzenie grup cwiartek biezacych Curr
-        int Curr{};
-        if (CurtempX > 0 && CurtempY > 0)
-            Curr = 1;
-        else if (CurtempX < 0 && CurtempY < 0)
-            Curr = 3;
-        else if (CurtempX > 0 && CurtempY < 0)
-            Curr = 4;
-        else if (CurtempX < 0 && CurtempY > 0)
-            Curr = 2;
-
-        // Sprawdzenie czy luk przechodzi przez 4 cwiartki
-        bool longArc{};
-        if (Direction_CW_CCW == 3)
-        {
-            if ((Prev == 1 && Curr == 4) || (Prev == 2 && Curr == 1) || (Prev == 3 && Curr == 2) ||
-                (Prev == 4 && Curr == 3))
-            {
-                longArc = true;
-            }
-        }
-        else if (Direction_CW_CCW == 2)
-        {
-            if ((Prev == 4 && Curr == 1) || (Prev == 1 && Curr == 2) || (Prev == 2 && Curr == 3) ||
-                (Prev == 3 && Curr == 4))
-            {
-                longArc = true;
-            }
-        }
-
-        // Sprawdzanie czy luk przechodzac przez 3 cwiartki jest wiekszy niz 180 stopni
-        // Najpierw obliczenie tg dla punktow poprzednich i biezacych
-        auto tg_p = atan(PretempY / PretempX) * Deg;
-        auto tg_c = atan(CurtempY / CurtempX) * Deg;
-
-        if (Direction_CW_CCW == 3)
-        {
-            if ((Prev == 1 && Curr == 3 && tg_c > tg_p) || (Prev == 3 && Curr == 1 && tg_c > tg_p) ||
-                (Prev == 2 && Curr == 4 && tg_c > tg_p) || (Prev == 4 && Curr == 2 && tg_c > tg_p))
-            {
-                longArc = true;
-            }
-        }
-        else if (Direction_CW_CCW == 2)
-        {
-            if ((Prev == 1 && Curr == 3 && tg_c < tg_p) || (Prev == 3 && Curr == 1 && tg_c < tg_p) ||
-                (Prev == 2 && Curr == 4 && tg_c < tg_p) || (Prev == 4 && Curr == 2 && tg_c < tg_p))
-            {
-                longArc = true;
-            }
-        }
+        // Iloczyn wektorowy jest dodatni gdy krotszy luk biegnie przeciwnie do ruchu wskazowek zegara (G3)
+        // Punkty w tej samej cwiartce: krotszy luk
+        const auto cross         = PretempX * CurtempY - PretempY * CurtempX;
+        const bool same_quadrant = PretempX * CurtempX > 0 && PretempY * CurtempY > 0;
+        const bool longArc       = !same_quadrant && (Direction_CW_CCW == 3 ? cross < 0 : cross > 0);
 
         // Jesli luk jest wiekszy niz 180 stopni
         if (longArc)
-- 
2.43.0


From 53acfad75ce06acf6233f99db3597c8326e51c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 21/48] fix: rapid distance of a drill cycle with R below zero

---
 parser/fanuc/PathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index b77caca..59fab50 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -382,7 +382,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
                 if (Zpre > 0 && Zgleb < 0)
                 {
                     auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) + std::abs(Zgleb);
+                    auto Cycle_distance_Rapid  = std::abs(Zpre) - Rparam + std::abs(Zpre) + std::abs(Zgleb);
                     return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
                 }
                 else
-- 
2.43.0


From c5018eb27220a97aec8a54f1ac5c5a9dce8cda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 22/48] fix: direction of G18 arcs, which is defined in the ZX
 plane

---
 parser/fanuc/PathCalculator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/PathCalculator.h b/parser/fanuc/PathCalculator.h
index 82d9b28..e89243f 100644
--- a/parser/fanuc/PathCalculator.h
+++ b/parser/fanuc/PathCalculator.h
@@ -355,7 +355,8 @@ private:
     static double G18(double Xpre, double Zpre, double Xcur, double Zcur, double Icur, double Kcur,
                       int Direction_CW_CCW)
     {
-        return G17(Xpre, Zpre, Xcur, Zcur, Icur, Kcur, Direction_CW_CCW);
+        // G18 is the ZX plane: seen with X as the first axis the direction is the opposite one
+        return G17(Xpre, Zpre, Xcur, Zcur, Icur, Kcur, Direction_CW_CCW == 2 ? 3 : 2);
     }
 
     static double G18(double Xcur, double Zcur, double Icur, double Kcur, int Direction_CW_CCW)
-- 
2.43.0


From 33a6a4ca5564c9b6ed0e953343405f179d948e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 23/48] fix: a motion other than an arc ends a helix

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index b8a0180..da25150 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1324,6 +1324,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     active_g9091     = current_g9091;
     active_g9697     = current_g9697;
     active_feed_mode = current_feed_mode;
+    if (current_g != 2 && current_g != 3)
+        active_helix = EHelixType::None;
 
     path_result.tool_id = active_t;
     path_result.tool_total += path_result.work_motion + path_result.fast_motion;
-- 
2.43.0


From 327a6bde4cfe72b4555680913b68330943c296cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 24/48] fix: position after a drill cycle: last of repeated
 holes, depth axis of the plane is left out

---
 parser/fanuc/AttributesPathCalculator.cpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index da25150..a9b2675 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -312,14 +312,13 @@ auto get_ignore_g_codes()
 
 struct copy_on_return
 {
-    copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
+    copy_on_return(const EProgrammingType& active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
                    word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
         : v(values)
         , pv(prev_values)
         , wr(word_range)
         , og(other_g)
-        , g(active_g)
         , g9091(active_g9091)
     {
     }
@@ -328,8 +327,6 @@ struct copy_on_return
     {
         for (const auto& it : v)
         {
-            if (it.first == "Z" && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
-                continue;
             if (it.first == "Q" || it.first == "L")
                 continue;
 
@@ -389,7 +386,6 @@ private:
     std::map<std::string, double>&       pv;
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
-    const int&                           g;
     const EProgrammingType&              g9091;
 };
 
@@ -410,7 +406,7 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
     // the parameters were moved from
-    copy_on_return cr{active_g, active_g9091, this->machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g9091, this->machine_points_data.machine_base_point, prev_values, word_range};
     for (const auto& it : this->kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -432,7 +428,7 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -456,7 +452,7 @@ void AttributesPathCalculator::reset()
     active_helix     = EHelixType::None;
     active_t.clear();
     active_auto_rapid_traverse_after_tool_exchange = false;
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
 template <typename T, typename U>
@@ -588,7 +584,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
             save_modal_values();
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
+                active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
             return;
         }
@@ -634,7 +630,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             save_modal_values();
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
+                active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis because here may be start values before any G code is being used
             return;
         }
@@ -651,7 +647,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 active_g9697 = *g9697;
             if(g_return)
                 active_g_return = *g_return;
-            copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, other_g}; // save axis because
+            copy_on_return cr{active_g9091, values, prev_values, word_range, other_g}; // save axis because
         here may be start values together with other irrelevant G codes return; // skip other G codes and their axis
         values
         }*/
@@ -1300,6 +1296,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     path_result.work_motion += work_motion;
                     path_result.fast_motion += fast_motion;
                 }
+                for (const auto& axis : {axis1, axis2}) // position of the last hole
+                    if (const auto it = values.find(axis); it != std::end(values))
+                        it->second *= holes;
             }
             else
             {
@@ -1309,6 +1308,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     func_drill_cycle_hole(*x_prev, *y_prev, x_curr, y_curr, path_result.cycle_distance);
             }
         }
+        values.erase(axis3); // depth of the hole is not a position
         ++path_result.hole_number;
     }
     else
@@ -1378,14 +1378,14 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
     if (move_to_tool_exchange_point)
         copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
+            EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
             &other_g};
     else if (move_to_machine_base_point)
         copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
+            EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
             &other_g};
     else
-        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g};
+        copy_on_return cr{active_g9091, values, prev_values, word_range, &other_g};
 }
 
 } // namespace fanuc
-- 
2.43.0


From d7e43c29c28c93f664e2d68a88f7209089bf1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 25/48] fix: positions after a tool exchange read the
 programming mode from a dead temporary

---
 parser/fanuc/AttributesPathCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a9b2675..66c2878 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -312,7 +312,7 @@ auto get_ignore_g_codes()
 
 struct copy_on_return
 {
-    copy_on_return(const EProgrammingType& active_g9091,
+    copy_on_return(EProgrammingType active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
                    word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
         : v(values)
@@ -386,7 +386,7 @@ private:
     std::map<std::string, double>&       pv;
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
-    const EProgrammingType&              g9091;
+    const EProgrammingType               g9091;
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
-- 
2.43.0


From 7db96c7a156cb6e4b846859f8591684521b7cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 26/48] fix: unit conversion to a word without decimals dropped
 the zeros of whole numbers

---
 parser/fanuc/UnitConverter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d9a07a7..26ee101 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -128,8 +128,11 @@ public:
         ostr << std::fixed << std::setprecision(precision) << dvalue;
 
         std::string ret_str(ostr.str());
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        if (ret_str.find('.') != std::string::npos)
+        {
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        }
 
         const auto pos = ret_str.find('.');
         if (pos != std::string::npos)
-- 
2.43.0


From 9e72fab6f444bb8b64ce3e504cb533d72bec48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:09 +0000
Subject: [PATCH 27/48] fix: unit conversion took G4.x for a dwell, and words
 before G4 or G68 in a block for lengths

---
 parser/fanuc/UnitConverter.cpp | 63 +++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index 26ee101..d76cc53 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -2,6 +2,7 @@
 
 #include "UnitConverter.h"
 
+#include <algorithm>
 #include <array>
 #include <iomanip>
 #include <sstream>
@@ -17,14 +18,39 @@
 namespace parser {
 namespace fanuc {
 
+static bool is_code(const DecimalAttributeData& data, int code)
+{
+    return data.word == "G" && data.value && !data.macro && !data.open_bracket && !data.close_bracket &&
+           std::stoi(*data.value) == code;
+}
+
+static bool is_dwell(const AttributeVariant& attr)
+{
+    const auto* data = boost::get<DecimalAttributeData>(&attr);
+    return data && is_code(*data, 4) && (!data->value2 || data->value2->find_first_not_of('0') == std::string::npos);
+}
+
+static bool is_coordinate_rotation(const AttributeVariant& attr)
+{
+    const auto* data = boost::get<DecimalAttributeData>(&attr);
+    if (!data || !is_code(*data, 68))
+        return false;
+    if (!data->value2)
+        return true;
+    const auto val2 = std::stoi(*data->value2);
+    return val2 == 2 || val2 == 3 || val2 == 4;
+}
+
 class UnitConverterVisitor : public boost::static_visitor<>
 {
 public:
     UnitConverterVisitor(const ConvWordGrammar& conv_word_grammar, const std::vector<std::string>& conv_words,
-                         UnitConversionType conversion_type)
+                         UnitConversionType conversion_type, const std::vector<AttributeVariant>& block)
         : word_grammar(conv_word_grammar)
         , words(conv_words)
         , conversion_type(conversion_type)
+        , has_dwell(std::any_of(std::cbegin(block), std::cend(block), is_dwell))
+        , has_g68(std::any_of(std::cbegin(block), std::cend(block), is_coordinate_rotation))
     {
     }
 
@@ -43,12 +69,6 @@ public:
         }
         was_first_item = true;
 
-        if (data.word == "G" && data.value && std::stoi(*data.value) == 4)
-        {
-            ignore_rest = true;
-            return;
-        }
-
         if (data.macro || data.open_bracket || data.close_bracket)
             return;
 
@@ -65,26 +85,12 @@ public:
                 *data.value = "20";
                 return;
             }
-            else if (val == 68)
-            {
-                if (data.value2)
-                {
-                    auto val2 = std::stoi(*data.value2);
-                    if (val2 == 2 || val2 == 3 || val2 == 4)
-                    {
-                        was_g68 = true;
-                        return;
-                    }
-                }
-                else
-                {
-                    was_g68 = true;
-                    return;
-                }
-            }
         }
 
-        if (was_g68)
+        if (has_dwell)
+            return;
+
+        if (has_g68)
         {
             auto itor = std::find_if(std::cbegin(gcode68_ignore_params), std::cend(gcode68_ignore_params),
                                      [&](auto value) { return data.word == value; });
@@ -162,7 +168,8 @@ private:
     const UnitConversionType        conversion_type;
     bool                            was_first_item{};
     bool                            ignore_rest{};
-    bool                            was_g68{};
+    const bool                      has_dwell;
+    const bool                      has_g68;
 
     static constexpr std::array<std::string_view, 4> gcode68_ignore_params = {"I", "J", "K", "R"};
 };
@@ -189,7 +196,7 @@ void UnitConverter::cache_grammar(const word_map& wm, ConvWordGrammar& conv_word
 void UnitConverter::mm_to_inch(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_imperial, conv_words_imperial,
-                                                UnitConversionType::metric_to_imperial);
+                                                UnitConversionType::metric_to_imperial, value);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
@@ -197,7 +204,7 @@ void UnitConverter::mm_to_inch(std::vector<AttributeVariant>& value)
 void UnitConverter::inch_to_mm(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_metric, conv_words_metric,
-                                                UnitConversionType::imperial_to_metric);
+                                                UnitConversionType::imperial_to_metric, value);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
-- 
2.43.0


From b6306597ec31814282b3e3573429b6017c00ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 28/48] fix: unit conversion of a word without a number threw

---
 parser/fanuc/UnitConverter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d76cc53..c78a289 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -111,6 +111,9 @@ public:
         if (data.value2)
             str_value += *data.value2;
 
+        if (str_value.empty() || str_value == ".")
+            return;
+
         double dvalue = std::stod(str_value);
         switch (conversion_type)
         {
-- 
2.43.0


From f4201c46021aef555833678d3b7cb651eec7b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 29/48] fix: renumbering a line with a computed number (N#1)
 kept the macro sign

---
 parser/fanuc/Renumberer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/Renumberer.cpp b/parser/fanuc/Renumberer.cpp
index 8f29a67..79591d5 100644
--- a/parser/fanuc/Renumberer.cpp
+++ b/parser/fanuc/Renumberer.cpp
@@ -64,6 +64,7 @@ void Renumberer::renumber(std::vector<AttributeVariant>& value, const RenumberSe
             modify_existing_one = true;
             if (renumber_settings.frequency < 2 || (renumber_settings.frequency > 1 && current_frequency == 0))
             {
+                *attr_dec      = DecimalAttributeData{};
                 attr_dec->word = renumber_settings.word;
                 if (renumber_settings.leading_zeroes && leading_zeroes_num > 0)
                     attr_dec->value = to_string_leading_zeroes(counter, leading_zeroes_num);
-- 
2.43.0


From 903dd02950dbc9e95ffae40f7b3c009eb901aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 30/48] fix: rotation missed G02, G03 and took G17.1 for G17

---
 parser/fanuc/AxesRotator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index a11b8f0..b2d610f 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -2,6 +2,7 @@
 
 #include "AxesRotator.h"
 
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 
@@ -191,14 +192,15 @@ public:
         }
         else if (data.word == "G")
         {
-            if (!data.value)
+            if (!data.value || data.value2 || data.macro || data.open_bracket)
                 return;
 
-            auto& val = *data.value;
-            if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
+            auto&      val  = *data.value;
+            const auto code = val.substr(std::min(val.find_first_not_of('0'), val.size()));
+            if (!(code == "17" || code == "18" || code == "19" || code == "2" || code == "3"))
                 return;
 
-            const auto wt_item = wtm.find({data.word, val});
+            const auto wt_item = wtm.find({data.word, code});
             if (wt_item == std::end(wtm))
                 return;
 
-- 
2.43.0


From 98e47343aa60c9616a4c811102575044d1ab41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 31/48] fix: splitting on rapid traverse only missed blocks
 with G0 and another code, and took G0 or G1 that end a cycle for a hole

---
 parser/fanuc/FileSplitter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 25109cd..79c81d7 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -44,14 +44,16 @@ public:
             if ((val >= 0 && val <= 3))
             {
                 active_g = val;
+                if ((val == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
+                    (val == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+                    drill_cycle = false;
             }
             else if (is_drill_cycle(val) || is_drill_cycle_qparam(val))
             {
                 active_g    = val;
                 drill_cycle = true;
             }
-            else if (val == 80 || (active_g == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
-                     (active_g == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+            else if (val == 80)
             {
                 active_g    = val;
                 drill_cycle = false;
-- 
2.43.0


From 9bde1ac9a69095d27669cfb032a4d21d269b3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 32/48] fix: splitting a file by blocks, tools, path or time
 numbered every block N1

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 9f29c04..64aa546 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -532,7 +532,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
@@ -559,7 +559,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 
             fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
-- 
2.43.0


From 05b0c821201fa0f8c3ed9706a471441c5eff0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 33/48] fix: splitting a file with an invalid line by text, or
 by nothing, reported success or threw

---
 parser/fanuc/AllAttributesParser.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 64aa546..f5110a8 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -494,7 +494,13 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             {
                 value[cnt].resize(t.size());
                 for (size_t x = 0; x < t.size(); ++x)
-                    renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs);
+                {
+                    auto line(t[x]);
+                    boost::algorithm::trim(line);
+                    if (!renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs) &&
+                        !line.empty())
+                        return false;
+                }
                 ++cnt;
             }
         }
@@ -565,6 +571,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
-- 
2.43.0


From 540903ffcfe41dcfbf10fccb716a32dfd2a67689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 34/48] fix: splitting a file by path or time counted the
 motion before a blank line twice

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index f5110a8..5be1853 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -519,9 +519,9 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     return false;
                 vtmp.emplace_back(std::move(v));
                 if (file_splitting.type == FileSplittingType::work_motion_path)
-                    vec_path_result.push_back(attr_path_calc->get_path_result());
+                    vec_path_result.push_back(tmp.empty() ? PathResult{} : attr_path_calc->get_path_result());
                 else
-                    vec_time_result.push_back(attr_path_calc->get_time_result());
+                    vec_time_result.push_back(tmp.empty() ? TimeResult{} : attr_path_calc->get_time_result());
             }
 
             std::vector<AttributeVariant> retraction_plane;
-- 
2.43.0


From 856b92918ad7c943098d9e5184e6506a1baa1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 35/48] fix: an empty piece of a split file was returned as an
 uninitialised pointer

---
 parser/fanuc/AllAttributesParserWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..16fd875 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -457,7 +457,7 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
+    *value  = new char*[ret_value.size()]();
     *length = static_cast<int>(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
-- 
2.43.0


From 15213ae662bb8bb857900fe7d425fcbbacc09587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:58 +0000
Subject: [PATCH 36/48] fix: continue an incremental quarter helix given by its
 radius

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 66c2878..1300e36 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1016,7 +1016,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 }
                 else if (active_helix == EHelixType::Quarter)
                 {
-                    if (first_helix_quarter_incr_block || (!first_helix_quarter_incr_block && x && i && j))
+                    if (first_helix_quarter_incr_block || (!first_helix_quarter_incr_block && x && ((i && j) || r)))
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-- 
2.43.0


From 2194399cfc891c47125bc2a8601846c53a845af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 37/48] fix: take the absolute value of arc radii and distances
 as doubles, not ints

---
 parser/fanuc/PathCalculator.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 59fab50..ca91b75 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -33,7 +33,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -78,7 +78,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             AlphaArc = 360 - AlphaArc;
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelny obwod okregu i kat 360 stopni
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -101,7 +101,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     auto ABhalf = (AB / 2);
 
     // 3. Obliczenie promienia R luku i w przypadku wartosci ujemnej (kat wiekszy niz 180 stopni) modul z liczby
-    auto Rarcradius = abs(Rcur);
+    auto Rarcradius = std::abs(Rcur);
 
     // 4. Obliczenie polowy okregu dla danego luku
     auto Semicircle = (2 * M_PI * Rarcradius) / 2;
@@ -109,7 +109,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -131,7 +131,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
 
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -158,7 +158,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
@@ -208,7 +208,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     const auto AB = MathUtils::CalcLineLength2d(Xcur, Ycur);
 
     // Obliczenie promienia R luku
-    const auto Rarcradius = abs(Rcur);
+    const auto Rarcradius = std::abs(Rcur);
 
     // Obliczenie polowy cieciwy
     const auto ABhalf = (AB / 2);
@@ -219,7 +219,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     const double tolerance = 1e-8;
     double       Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
-- 
2.43.0


From 2983c8ba5283ae687ee40620bf7c2e1c8c9e92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 38/48] fix: incremental depth of a drilling cycle is a length,
 whatever its sign

---
 parser/fanuc/PathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index ca91b75..97cf4b1 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -364,8 +364,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             }
             else if (GreturnMode == EDrillGreturnMode::G99)
             {
-                auto Cycle_distance_Rapid  = Zpre - Rparam + Zgleb;
-                auto Cycle_distance_Linear = Zgleb;
+                auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zgleb);
+                auto Cycle_distance_Linear = std::abs(Zgleb);
                 return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
             }
         }
@@ -543,7 +543,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         int mnoznikG98G99 = GreturnMode == EDrillGreturnMode::G99 ? 1 : 2;
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
-            auto Gleb_rzeczyw          = Zgleb;
+            auto Gleb_rzeczyw          = std::abs(Zgleb);
             auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
             auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
-- 
2.43.0


From fb190a4132b7000c041189612e2165d9bcf66072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 39/48] fix: a drilling cycle that follows another without G80
 has holes of its own

---
 parser/fanuc/AttributesPathCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 1300e36..3abe931 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1203,7 +1203,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
 
         const auto k = get_optional_value(values, "K");
-        if (path_result.hole_number == 0 || k) // we want to calculate this even though *k=0 or k is with G90 because
+        // a block that starts another cycle, or states the whole cycle again, has holes of its own
+        const bool new_cycle = current_g != active_g || (values.count("R") && values.count(axis_gleb) &&
+                                                         (!dcq || values.count("Q")));
+        if (path_result.hole_number == 0 || k || new_cycle) // we want to calculate this even though *k=0 or k is with G90 because
                                                // the results may be needed in next blocks
         {
             const bool zgleb_is_lathe_without_Y =
-- 
2.43.0


From 03b1a7863d3d098f9a4fe683139d37b371c18404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:35 +0000
Subject: [PATCH 40/48] fix: a message without the expected members does not
 stop the language server

---
 nclangsrv/JsonMessageHandler.cpp | 120 ++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 43 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..4420697 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -161,6 +161,27 @@ std::string markdownFormatHover(const std::string& contents, const std::string&
     return "**" + contents + ": " + title + "** \n\n---\n\n" + replaceAll(description, "\n", "\n\n");
 }
 
+const rapidjson::Value& getMember(const rapidjson::Value& object, const char* name)
+{
+    static const rapidjson::Value null;
+
+    if (!object.IsObject())
+        return null;
+
+    const auto it = object.FindMember(name);
+    return it != object.MemberEnd() ? it->value : null;
+}
+
+std::string getString(const rapidjson::Value& value)
+{
+    return value.IsString() ? std::string(value.GetString(), value.GetStringLength()) : std::string();
+}
+
+int getInt(const rapidjson::Value& value)
+{
+    return value.IsInt() ? value.GetInt() : -1;
+}
+
 std::string parserType_str(parser::EFanucParserType parserType)
 {
     std::ostringstream ostr;
@@ -214,19 +235,19 @@ bool JsonMessageHandler::parse(const std::string& json)
             LOGGER << "JsonMessageHandler::" << __func__
                    << ": JSON parse error: " << rapidjson::GetParseErrorFunc(parse_result.Code()) << "("
                    << parse_result.Offset() << ")" << std::endl;
+        return false;
     }
 
-    if (d.HasMember("id"))
-    {
-        if (d["id"].IsInt())
-            id = d["id"].GetInt();
-        else if (d["id"].IsString())
-            id = atoi(d["id"].GetString());
-    }
+    const auto& requestId = getMember(d, "id");
+    if (requestId.IsInt())
+        id = requestId.GetInt();
+    else if (requestId.IsString())
+        id = atoi(requestId.GetString());
 
-    if (d.HasMember("method"))
+    const auto& requestMethod = getMember(d, "method");
+    if (requestMethod.IsString())
     {
-        method = std::string{d["method"].GetString(), d["method"].GetStringLength()};
+        method = getString(requestMethod);
     }
     else
     {
@@ -370,27 +391,38 @@ void JsonMessageHandler::workspace_didChangeConfiguration(const rapidjson::Docum
 
 void JsonMessageHandler::textDocument_didOpen(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = getMember(request, "params");
+    const auto& textDocument = getMember(params, "textDocument");
+    const auto& uri          = getMember(textDocument, "uri");
+    const auto& text         = getMember(textDocument, "text");
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), textDocument["text"].GetString());
+    if (uri.IsString() && text.IsString())
+        textDocument_publishDiagnostics(getString(uri), getString(text));
 }
 
 void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& request)
 {
-    const auto& params         = request["params"];
-    const auto& textDocument   = params["textDocument"];
-    const auto& contentChanges = params["contentChanges"];
+    const auto& params         = getMember(request, "params");
+    const auto& textDocument   = getMember(params, "textDocument");
+    const auto& contentChanges = getMember(params, "contentChanges");
+
+    if (!contentChanges.IsArray() || contentChanges.Empty())
+        return;
+
+    // every change carries the full content of the document, the last one is the current content
+    const auto& uri  = getMember(textDocument, "uri");
+    const auto& text = getMember(contentChanges[contentChanges.Size() - 1], "text");
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[0]["text"].GetString());
+    if (uri.IsString() && text.IsString())
+        textDocument_publishDiagnostics(getString(uri), getString(text));
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = getMember(request, "params");
+    const auto& textDocument = getMember(params, "textDocument");
 
-    mFileContexts.erase(textDocument["uri"].GetString());
+    mFileContexts.erase(getString(getMember(textDocument, "uri")));
 }
 
 void JsonMessageHandler::fetch_gCodesDesc()
@@ -498,17 +530,19 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", getInt(getMember(request, "id")), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
-        if (request.HasMember("params"))
+        const auto& params = getMember(request, "params");
+        if (params.IsObject())
         {
-            const auto& params = request["params"];
-
-            rapidjson::Value value(rapidjson::kObjectType);
-            value.CopyFrom(params["label"], a);
-            result.AddMember("label", value, a);
+            if (params.HasMember("label"))
+            {
+                rapidjson::Value value(rapidjson::kObjectType);
+                value.CopyFrom(params["label"], a);
+                result.AddMember("label", value, a);
+            }
 
             if (params.HasMember("insertTextFormat"))
             {
@@ -533,7 +567,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
 
             std::string       desc;
             std::string       title;
-            const std::string label(params["label"].GetString(), params["label"].GetStringLength());
+            const std::string label = getString(getMember(params, "label"));
             if (!label.empty())
             {
                 if (label[0] == 'G' || label[0] == 'g')
@@ -601,13 +635,13 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
 
 void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& position     = params["position"];
-    const int   line         = position["line"].GetInt();
-    const int   character    = position["character"].GetInt();
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = getMember(request, "params");
+    const auto& position     = getMember(params, "position");
+    const int   line         = getInt(getMember(position, "line"));
+    const int   character    = getInt(getMember(position, "character"));
+    const auto& textDocument = getMember(params, "textDocument");
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = getString(getMember(textDocument, "uri"));
 
     std::string               strLine;
     parser::fanuc::macro_map* macroMap{};
@@ -642,7 +676,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", getInt(getMember(request, "id")), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -792,10 +826,10 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 
 void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& request)
 {
-    const auto& params       = request["params"];
-    const auto& textDocument = params["textDocument"];
+    const auto& params       = getMember(request, "params");
+    const auto& textDocument = getMember(params, "textDocument");
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = getString(getMember(textDocument, "uri"));
 
     PathTimeResult* pathTimeResult{};
 
@@ -819,7 +853,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", getInt(getMember(request, "id")), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
 
@@ -880,10 +914,10 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
 
 void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
 {
-    const auto& params = request["params"];
-    const auto& range  = params["range"];
-    const auto& start  = range["start"];
-    const int   line   = start["line"].GetInt();
+    const auto& params = getMember(request, "params");
+    const auto& range  = getMember(params, "range");
+    const auto& start  = getMember(range, "start");
+    const int   line   = getInt(getMember(start, "line"));
 
     PathTimeResult* pathTimeResult{};
 
@@ -907,7 +941,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", getInt(getMember(request, "id")), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
 
-- 
2.43.0


From 200d68e6047f06c1d6759fc226beaa27ef9ca3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 41/48] fix: the answer to a request carries the id of the
 request, string or number

---
 nclangsrv/JsonMessageHandler.cpp | 42 ++++++++++++++++----------------
 nclangsrv/JsonMessageHandler.h   |  6 ++---
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 4420697..5836e23 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -182,6 +182,13 @@ int getInt(const rapidjson::Value& value)
     return value.IsInt() ? value.GetInt() : -1;
 }
 
+rapidjson::Value makeId(const rapidjson::Value& request, rapidjson::Document::AllocatorType& a)
+{
+    rapidjson::Value id;
+    id.CopyFrom(getMember(request, "id"), a);
+    return id;
+}
+
 std::string parserType_str(parser::EFanucParserType parserType)
 {
     std::ostringstream ostr;
@@ -223,7 +230,6 @@ JsonMessageHandler::JsonMessageHandler(Logger* logger, const std::string& rootPa
 
 bool JsonMessageHandler::parse(const std::string& json)
 {
-    int32_t     id{};
     std::string method;
 
     rapidjson::Document d;
@@ -238,12 +244,6 @@ bool JsonMessageHandler::parse(const std::string& json)
         return false;
     }
 
-    const auto& requestId = getMember(d, "id");
-    if (requestId.IsInt())
-        id = requestId.GetInt();
-    else if (requestId.IsString())
-        id = atoi(requestId.GetString());
-
     const auto& requestMethod = getMember(d, "method");
     if (requestMethod.IsString())
     {
@@ -256,11 +256,11 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
 
     if (mLogger)
-        LOGGER << "JsonMessageHandler::" << __func__ << ": id:" << id << ", method:" << method << std::endl;
+        LOGGER << "JsonMessageHandler::" << __func__ << ": method:" << method << std::endl;
 
     if (method == "initialize")
     {
-        initialize(id);
+        initialize(d);
     }
     else if (method == "initialized")
     {
@@ -284,7 +284,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "textDocument/completion")
     {
-        textDocument_completion(id);
+        textDocument_completion(d);
     }
     else if (method == "completionItem/resolve")
     {
@@ -308,7 +308,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "shutdown")
     {
-        shutdown(id);
+        shutdown(d);
     }
     else if (method == "exit")
     {
@@ -323,14 +323,14 @@ bool JsonMessageHandler::parse(const std::string& json)
     return true;
 }
 
-void JsonMessageHandler::initialize(int32_t id)
+void JsonMessageHandler::initialize(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -476,7 +476,7 @@ void JsonMessageHandler::fetch_macrosDesc()
     }
 }
 
-void JsonMessageHandler::textDocument_completion(int32_t id)
+void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
@@ -486,7 +486,7 @@ void JsonMessageHandler::textDocument_completion(int32_t id)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
     {
@@ -530,7 +530,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", getInt(getMember(request, "id")), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -676,7 +676,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", getInt(getMember(request, "id")), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -853,7 +853,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", getInt(getMember(request, "id")), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
 
@@ -941,7 +941,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", getInt(getMember(request, "id")), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
 
@@ -1000,14 +1000,14 @@ void JsonMessageHandler::cancelRequest()
 {
 }
 
-void JsonMessageHandler::shutdown(int32_t id)
+void JsonMessageHandler::shutdown(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result;
     d.AddMember("result", result, a);
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index d712d3d..0c340f8 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -31,19 +31,19 @@ public:
     }
 
 private:
-    void initialize(int32_t id);
+    void initialize(const rapidjson::Document& request);
     void initialized();
     void workspace_didChangeConfiguration(const rapidjson::Document& request);
     void textDocument_didOpen(const rapidjson::Document& request);
     void textDocument_didChange(const rapidjson::Document& request);
     void textDocument_didClose(const rapidjson::Document& request);
-    void textDocument_completion(int32_t id);
+    void textDocument_completion(const rapidjson::Document& request);
     void completionItem_resolve(const rapidjson::Document& request);
     void textDocument_hover(const rapidjson::Document& request);
     void textDocument_codeLens(const rapidjson::Document& request);
     void codeLens_resolve(const rapidjson::Document& request);
     void cancelRequest();
-    void shutdown(int32_t id);
+    void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
     void fetch_gCodesDesc();
-- 
2.43.0


From 1c6f3cebf246c6c94e0d60a216f195dd0ea1520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 42/48] fix: diagnostics keep their line and whole text when
 the text contains colons or 'line 1'

---
 nclangsrv/JsonMessageHandler.cpp | 49 +++++++++++++-------------------
 nclangsrv/NCParser.cpp           | 25 ++++++----------
 2 files changed, 27 insertions(+), 47 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 5836e23..0b66d25 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -189,6 +189,17 @@ rapidjson::Value makeId(const rapidjson::Value& request, rapidjson::Document::Al
     return id;
 }
 
+int32_t cutLeadingNumber(std::string& text)
+{
+    const auto pos = text.find_first_not_of("0123456789");
+    if (pos == std::string::npos || pos == 0 || text[pos] != ':')
+        return 0;
+
+    const int32_t number = atoi(text.c_str());
+    text                 = text.substr(pos + 1);
+    return number;
+}
+
 std::string parserType_str(parser::EFanucParserType parserType)
 {
     std::ostringstream ostr;
@@ -1090,38 +1101,16 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
                 LOGGER << "JsonMessageHandler::" << __func__ << ": error_message: [" << error_message << "]"
                        << std::endl;
 
-            int32_t     line{};
-            int32_t     character{};
             std::string result_message = error_message;
 
-            std::string              data;
-            std::vector<std::string> tokens;
-            std::stringstream        ss(error_message);
-            while (std::getline(ss, data, ':'))
-            {
-                boost::algorithm::trim(data);
-                tokens.push_back(data);
-                if (mLogger)
-                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << data << "]" << std::endl;
-            }
-
-            if (not tokens.empty())
-            {
-                line = atoi(tokens[0].c_str());
-                if (line > 0)
-                    line--;
-                if (tokens.size() > 2)
-                {
-                    character = atoi(tokens[1].c_str());
-                    if (character > 0)
-                        character--;
-                    result_message = tokens[2];
-                }
-                else
-                {
-                    result_message = tokens[1];
-                }
-            }
+            // error message format: "[line:[ character:]] text", where text can contain any characters
+            int32_t line = cutLeadingNumber(result_message);
+            if (line > 0)
+                line--;
+            int32_t character = cutLeadingNumber(result_message);
+            if (character > 0)
+                character--;
+            boost::algorithm::trim(result_message);
 
             if (line != 0 or character != 0 or not result_message.empty())
             {
diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..6007d4c 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -392,7 +392,6 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_nbr{};
     size_t                   line_err{};
     std::string              text;
-    const std::string        line_str("line 1");
     double                   prev_time_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
@@ -438,26 +437,18 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (!ret)
         {
             ++line_err;
-            auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.empty())
             {
-                message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
+                message = data;
+                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+            }
+            else if (message.compare(0, 2, "1:") == 0)
+            {
+                message = std::to_string(line_nbr) + message.substr(1);
             }
             else
             {
-                if (message.empty())
-                {
-                    message = data;
-                    message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
-                }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
-                else
-                {
-                    message = std::to_string(line_nbr) + ": " + message;
-                }
+                message = std::to_string(line_nbr) + ": " + message;
             }
             messages.push_back(message);
         }
-- 
2.43.0


From 393c0191a4675c9563502e549c00de477e1d9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:54 +0000
Subject: [PATCH 43/48] fix: hover over and description of macro variables that
 do not exist

---
 nclangsrv/JsonMessageHandler.cpp | 27 ++++++++++++++++++++++-----
 nclangsrv/MacrosDescReader.cpp   | 28 ++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 0b66d25..3c7474e 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -2,9 +2,11 @@
 
 #include "JsonMessageHandler.h"
 
+#include <charconv>
 #include <chrono>
 #include <filesystem>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <regex>
 #include <sstream>
@@ -143,6 +145,14 @@ std::string extractCode(const std::string& data)
     return code;
 }
 
+unsigned int toMacroId(const std::string& code)
+{
+    unsigned int id{};
+    if (std::from_chars(code.data(), code.data() + code.size(), id).ec != std::errc())
+        id = std::numeric_limits<unsigned int>::max(); // no such variable
+    return id;
+}
+
 std::string replaceAll(const std::string& str1, const std::string& from, const std::string& to)
 {
     std::string str       = str1;
@@ -583,6 +593,8 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
             {
                 if (label[0] == 'G' || label[0] == 'g')
                 {
+                    fetch_gCodesDesc();
+
                     auto it = mGCodes->getDesc().find(label.substr(1));
                     if (it != mGCodes->getDesc().cend())
                     {
@@ -592,6 +604,8 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                 }
                 else if (label[0] == 'M' || label[0] == 'm')
                 {
+                    fetch_mCodesDesc();
+
                     auto it = mMCodes->getDesc().find(label.substr(1));
                     if (it != mMCodes->getDesc().cend())
                     {
@@ -599,7 +613,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                         desc  = it->second.second;
                     }
                 }
-                else if (label[0] == '#')
+                else if (label[0] == '#' && mMacrosDesc)
                 {
                     std::tie(title, desc) = mMacrosDesc->getDesc(label.substr(1));
                 }
@@ -735,7 +749,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             {
                 std::string code = extractCode(contents.substr(2));
 
-                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                auto macroId = toMacroId(code);
 
                 auto itm = macroMap->lower_bound({macroId, line + 1});
                 if (itm != macroMap->cend() && itm->first.id == macroId)
@@ -766,7 +780,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 }
                 else
                 {
-                    contents.clear();
+                    result.SetNull();
                 }
             }
             else
@@ -778,7 +792,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 if (!contents.empty())
                 {
                     auto code    = extractCode(contents.substr(1));
-                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                    auto macroId = toMacroId(code);
 
                     bool exist{};
 
@@ -789,7 +803,10 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents = contents + " = " + parser::to_string_trunc(it->second);
                     }
 
-                    auto [macroTitle, macroDesc] = mMacrosDesc->getDesc(code);
+                    std::string macroTitle;
+                    std::string macroDesc;
+                    if (mMacrosDesc)
+                        std::tie(macroTitle, macroDesc) = mMacrosDesc->getDesc(code);
                     if (not macroTitle.empty() or not macroDesc.empty())
                     {
                         exist    = true;
diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..17a93f8 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -102,14 +102,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -134,14 +140,20 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
-- 
2.43.0


From 282fa6764e791ecf45c7f391e309a3585fed1c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:54 +0000
Subject: [PATCH 44/48] fix: the first and the last variable of a described
 range belong to it

---
 nclangsrv/MacrosDescReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 17a93f8..a923f2a 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -158,7 +158,7 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
 
     auto it = std::find_if(mRanges.cbegin(), mRanges.cend(),
-                           [&icode](const auto& r) { return icode > r.first.first and icode < r.first.second; });
+                           [&icode](const auto& r) { return icode >= r.first.first and icode <= r.first.second; });
     if (it != mRanges.cend())
     {
         if (mData.count(it->second))
-- 
2.43.0


From 62f4bbf645ca69c671b795374d55b37f7be13d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 45/48] fix: text of path and time results does not reach
 beyond its buffer

---
 nclangsrv/NCParser.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 6007d4c..bbd6803 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -161,42 +161,41 @@ std::string formatPathTimeResult(const PathResult& pr, const TimeResult& tr, dou
 
     if (pr.total >= tolerance)
     {
-        auto written = std::snprintf(buffer, BUFFER_SIZE, " | Total path = %.2f", pr.total);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total path = %.2f", pr.total);
+        result += buffer;
     }
     if (tr.total >= tolerance)
     {
         auto formattedTime = formatTime(tr.total);
-        auto written       = std::snprintf(buffer, BUFFER_SIZE, " | Total time = %s", formattedTime.c_str());
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total time = %s", formattedTime.c_str());
+        result += buffer;
     }
     if (pr.tool_total >= tolerance && pr.total - pr.tool_total >= tolerance)
     {
-        auto written =
-            std::snprintf(buffer, BUFFER_SIZE, " | T%s total path = %.2f", pr.tool_id.c_str(), pr.tool_total);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | T%s total path = %.2f", pr.tool_id.c_str(), pr.tool_total);
+        result += buffer;
     }
     if (pr.fast_motion >= tolerance)
     {
-        auto written = std::snprintf(buffer, BUFFER_SIZE, " | Total rapid path = %.2f", total_fast_motion_path);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total rapid path = %.2f", total_fast_motion_path);
+        result += buffer;
     }
     if (tr.fast_motion >= tolerance)
     {
         auto formattedTime = formatTime(total_fast_motion_time);
-        auto written       = std::snprintf(buffer, BUFFER_SIZE, " | Total rapid time = %s", formattedTime.c_str());
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total rapid time = %s", formattedTime.c_str());
+        result += buffer;
     }
     if (pr.work_motion >= tolerance)
     {
-        auto written = std::snprintf(buffer, BUFFER_SIZE, " | Total cut path = %.2f", total_work_motion_path);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total cut path = %.2f", total_work_motion_path);
+        result += buffer;
     }
     if (tr.work_motion >= tolerance)
     {
         auto formattedTime = formatTime(total_work_motion_time);
-        auto written       = std::snprintf(buffer, BUFFER_SIZE, " | Total cut time = %s", formattedTime.c_str());
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total cut time = %s", formattedTime.c_str());
+        result += buffer;
     }
 
     return result;
-- 
2.43.0


From e5e8ba0b623559172905ee26b6391a33cf744210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:00 +0000
Subject: [PATCH 46/48] fix: positions in lines with tabs or characters outside
 ASCII

---
 nclangsrv/JsonMessageHandler.cpp     | 47 ++++++++++++++++++++++------
 parser/fanuc/AllAttributesParser.cpp |  4 +--
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 3c7474e..5f1f9d5 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -106,14 +106,39 @@ rapidjson::Value prepareMacroDescDiagnostic(const std::string& macroDescErr, rap
     return diagnostic;
 }
 
-void hoverMakeResult(const std::string& contents, int line, size_t from, size_t to, rapidjson::Value& result,
-                     rapidjson::Document::AllocatorType& a)
+// Positions in the protocol count UTF-16 code units, positions in strings count bytes (UTF-8)
+int utf16Units(unsigned char c)
+{
+    if ((c & 0xC0) == 0x80)
+        return 0; // continuation
+    return c < 0xF0 ? 1 : 2;
+}
+
+size_t toUtf16Position(const std::string& line, size_t bytePosition)
+{
+    size_t position{};
+    for (size_t x = 0; x < line.size() && x < bytePosition; ++x)
+        position += utf16Units(line[x]);
+    return position;
+}
+
+int toBytePosition(const std::string& line, int utf16Position)
+{
+    int    units{};
+    size_t x{};
+    for (; x < line.size() && units + utf16Units(line[x]) <= utf16Position; ++x)
+        units += utf16Units(line[x]);
+    return utf16Position < 0 ? utf16Position : static_cast<int>(x);
+}
+
+void hoverMakeResult(const std::string& contents, int line, const std::string& strLine, size_t from, size_t to,
+                     rapidjson::Value& result, rapidjson::Document::AllocatorType& a)
 {
     rapidjson::Value data;
     data.SetString(contents.c_str(), static_cast<rapidjson::SizeType>(contents.size()), a);
     result.AddMember("contents", data, a);
 
-    result.AddMember("range", makeRange(line, from, to, a), a);
+    result.AddMember("range", makeRange(line, toUtf16Position(strLine, from), toUtf16Position(strLine, to), a), a);
 }
 
 std::string searchPattern(const std::regex& r, const std::string& contentLine, int character, size_t& from, size_t& to)
@@ -663,7 +688,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     const auto& params       = getMember(request, "params");
     const auto& position     = getMember(params, "position");
     const int   line         = getInt(getMember(position, "line"));
-    const int   character    = getInt(getMember(position, "character"));
+    int         character    = getInt(getMember(position, "character"));
     const auto& textDocument = getMember(params, "textDocument");
 
     const std::string uri = getString(getMember(textDocument, "uri"));
@@ -692,8 +717,9 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     }
     else
     {
-        strLine  = it->second.contentLines[line];
-        macroMap = &it->second.macroMap;
+        strLine   = it->second.contentLines[line];
+        macroMap  = &it->second.macroMap;
+        character = toBytePosition(strLine, character);
     }
 
     rapidjson::Document d;
@@ -734,7 +760,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             }
 
             if (!contents.empty())
-                hoverMakeResult(contents, line, from, to, result, a);
+                hoverMakeResult(contents, line, strLine, from, to, result, a);
             else
                 result.SetNull();
         }
@@ -774,7 +800,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                     }
 
                     if (!contents.empty())
-                        hoverMakeResult(contents, line, from, to, result, a);
+                        hoverMakeResult(contents, line, strLine, from, to, result, a);
                     else
                         result.SetNull();
                 }
@@ -817,7 +843,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents += " = undefined";
 
                     if (!contents.empty())
-                        hoverMakeResult(contents, line, from, to, result, a);
+                        hoverMakeResult(contents, line, strLine, from, to, result, a);
                     else
                         result.SetNull();
                 }
@@ -1127,6 +1153,9 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             int32_t character = cutLeadingNumber(result_message);
             if (character > 0)
                 character--;
+            const auto& contentLines = mFileContexts.at(uri).contentLines;
+            if (static_cast<size_t>(line) < contentLines.size())
+                character = static_cast<int32_t>(toUtf16Position(contentLines[line], character));
             boost::algorithm::trim(result_message);
 
             if (line != 0 or character != 0 or not result_message.empty())
diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 5be1853..d2d9415 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -284,7 +284,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first);
+        size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
@@ -357,7 +357,7 @@ bool AllAttributesParser::simple_parse(int line, std::string_view data, std::vec
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(pos_begin, e.first);
+        size_t column = get_column(pos_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
-- 
2.43.0


From 0952542a55f778abf6b874ad121f41005885d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:36 +0000
Subject: [PATCH 47/48] fix: language server ends with its input and reads any
 header fields of a message

---
 nclangsrv/nclangsrv.cpp | 85 +++++++++++++----------------------------
 1 file changed, 27 insertions(+), 58 deletions(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 1d25f86..d2015ef 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -1,9 +1,7 @@
 #include "stdafx.h"
-#include <chrono>
 #include <fstream>
 #include <iostream>
 #include <string>
-#include <thread>
 
 #include <boost/program_options.hpp>
 #include <filesystem>
@@ -34,6 +32,31 @@ namespace po = boost::program_options;
         LOGGER << NAME << " was set to [" << VARIABLE << "]." << std::endl;                                            \
     }
 
+// Header fields of a message end with an empty line, then Content-Length bytes of the message follow
+bool readMessage(std::istream& in, std::string& message)
+{
+    const std::string contentLength("Content-Length:");
+    long              length{};
+    std::string       header;
+
+    while (std::getline(in, header))
+    {
+        if (!header.empty() and header.back() == '\r')
+            header.pop_back();
+        if (header.empty() and length > 0)
+            break;
+        if (header.compare(0, contentLength.size(), contentLength) == 0)
+            length = std::strtol(header.c_str() + contentLength.size(), nullptr, 10);
+    }
+
+    char c;
+    message.clear();
+    while (static_cast<long>(message.size()) < length and in.get(c))
+        message += c;
+
+    return static_cast<bool>(in);
+}
+
 #define LOGGER (*logger)()
 
 int main(int argc, char* argv[])
@@ -102,63 +125,9 @@ int main(int argc, char* argv[])
     if (logger)
         LOGGER << __func__ << ": Current path is " << fs::current_path() << std::endl;
 
-    while (true)
+    std::string buffer;
+    while (readMessage(std::cin, buffer))
     {
-        using namespace std::chrono_literals;
-        std::this_thread::sleep_for(1ms);
-
-        char        c;
-        std::string str;
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (str.empty() and c != 'C')
-                continue;
-            str += c;
-            if (str == "Content-Length: ")
-                break;
-        }
-
-        if (str.empty())
-            continue;
-
-        str.clear();
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                break;
-            str += c;
-        }
-
-        uint32_t length = std::atoi(str.c_str());
-        if (logger)
-            LOGGER << __func__ << ": Content-Length: [" << str << "(" << str.size() << ")"
-                   << "], " << length << std::endl;
-        if (length == 0)
-        {
-            continue;
-        }
-
-        std::string buffer;
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                continue;
-            buffer += c;
-            break;
-        }
-        std::string tmp(length, '\0');
-        std::cin.read(&tmp[0], length - 1);
-        tmp.resize(std::cin.gcount());
-        buffer += tmp;
-
         if (logger)
             LOGGER << __func__ << ": " << buffer << std::endl;
 
-- 
2.43.0


From 4bb17e782a2c8685e49c5ba58d6ef93cf2b22993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:58 +0000
Subject: [PATCH 48/48] fix: a rejected line is explained also when its first
 word is wrong

---
 nclangsrv/JsonMessageHandler.cpp     | 2 ++
 parser/fanuc/AllAttributesParser.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 5f1f9d5..079b2b7 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1157,6 +1157,8 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             if (static_cast<size_t>(line) < contentLines.size())
                 character = static_cast<int32_t>(toUtf16Position(contentLines[line], character));
             boost::algorithm::trim(result_message);
+            if (result_message.empty() && static_cast<size_t>(line) < contentLines.size())
+                result_message = "'" + boost::algorithm::trim_copy(contentLines[line]) + "'";
 
             if (line != 0 or character != 0 or not result_message.empty())
             {
diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index d2d9415..6d73130 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -278,6 +278,9 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         GrammarSelector()(word_grammar, active_word_grammar, evaluated_code.empty() ? value : value2);
 
+        if (!ret)
+            message = all_attr_grammar->get_message();
+
         if (active_word_grammar != previous_word_grammar)
             build_grammar();
     }
-- 
2.43.0

