From 9174711c1b665c6a85c7dec8bdac76e05f3ed609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:35 +0000
Subject: [PATCH 01/85] fix: subtract the zero point from machine points
 instead of replacing them

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..e8d80ac 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -145,13 +145,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From cea5ebd8d8bb92fd7dc143dc55cacd82def6cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 02/85] fix: do not record a system variable for a word that
 has no value

---
 parser/fanuc/SystemMacroAssigner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/SystemMacroAssigner.cpp b/parser/fanuc/SystemMacroAssigner.cpp
index cafd964..a7a8b94 100644
--- a/parser/fanuc/SystemMacroAssigner.cpp
+++ b/parser/fanuc/SystemMacroAssigner.cpp
@@ -52,7 +52,7 @@ public:
                 macro_values.insert_or_assign(macro_map_key{v, line}, value);
         };
 
-        if (word_macros_map.count(data.word))
+        if (word_macros_map.count(data.word) && (data.value || data.value2))
             macro_value_inserter(word_macros_map.find(data.word)->second);
     }
 
-- 
2.43.0


From 1d15ba0eb97e21140844321abf1235fd76681daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 03/85] fix: overwrite the macro value when the same line is
 evaluated again

---
 parser/fanuc/MacroEvaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 7b63f16..827a882 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -99,8 +99,8 @@ bool MacroEvaluator::evaluate(macro_map& macro_values, int line, const std::vect
         auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value, language);
         if (!vc_ret)
             return false;
-        macro_values.emplace(std::make_pair(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
-                                            macro_result_value));
+        macro_values.insert_or_assign(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
+                                      macro_result_value);
     }
 
     return true;
-- 
2.43.0


From 31ad0ac8c881ff3e994e13a8b9409bbc0e0da27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 04/85] fix: inverse trigonometric macro functions return
 degrees, SINH is evaluated

---
 parser/fanuc/ValueCalculator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..61d3ae0 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -281,11 +281,11 @@ public:
         if (x.name == "abs")
             return std::abs(rhs);
         else if (x.name == "acos")
-            return std::acos(rhs * M_PI / 180);
+            return std::acos(rhs) * 180 / M_PI;
         else if (x.name == "asin")
-            return std::asin(rhs * M_PI / 180);
+            return std::asin(rhs) * 180 / M_PI;
         else if (x.name == "atan")
-            return std::atan(rhs * M_PI / 180);
+            return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
             return std::ceil(rhs);
         else if (x.name == "cos")
@@ -302,6 +302,8 @@ public:
             return std::log(rhs);
         else if (x.name == "sin")
             return std::sin(rhs * M_PI / 180);
+        else if (x.name == "sinh")
+            return std::sinh(rhs * M_PI / 180);
         else if (x.name == "sqrt")
             return std::sqrt(rhs);
         else if (x.name == "tan")
-- 
2.43.0


From 536fd039f312f47d24c050caa435a98a5a775c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 05/85] fix: reject integer macro operations on unrepresentable
 operands and MOD by zero

---
 parser/fanuc/ValueCalculator.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 61d3ae0..0a02aba 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -234,13 +234,17 @@ public:
         else if (x.operator_name == "/")
             return lhs / rhs;
         else if (x.operator_name == "AND")
-            return static_cast<int>(lhs) & static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) & to_int(rhs, x.operator_name);
         else if (x.operator_name == "OR")
-            return static_cast<int>(lhs) | static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) | to_int(rhs, x.operator_name);
         else if (x.operator_name == "XOR")
-            return static_cast<int>(lhs) ^ static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) ^ to_int(rhs, x.operator_name);
         else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+        {
+            const int64_t divisor = to_int(rhs, x.operator_name);
+            if (divisor != 0)
+                return static_cast<double>(to_int(lhs, x.operator_name) % divisor);
+        }
 
         // BOOST_ASSERT(0);
         // return 0;
@@ -257,6 +261,8 @@ public:
         case '+':
             return +rhs;
         case '#': {
+            if (!(rhs > -1. && rhs < std::numeric_limits<unsigned int>::max() + 1.))
+                throw eval_exception(make_message(MessageName::ValueMissing, language, std::to_string(rhs)));
 #ifdef max
 #undef max
 #endif
@@ -312,9 +318,9 @@ public:
             return std::tanh(rhs * M_PI / 180);
         else if (x.name == "round")
             return std::round(rhs);
-        else if (x.name == "bcd")
+        else if (x.name == "bcd" && rhs > -1. && rhs < 18446744073709551616.)
             return bcd_to_ui32(static_cast<uint64_t>(rhs));
-        else if (x.name == "bin")
+        else if (x.name == "bin" && rhs > -1. && rhs < 4294967296.)
             return static_cast<double>(uint32_to_bcd(static_cast<uint32_t>(rhs)));
 
         // BOOST_ASSERT(0);
@@ -332,6 +338,14 @@ public:
         return state;
     }
 
+private:
+    int to_int(double value, const std::string& operator_name) const
+    {
+        if (!(value > std::numeric_limits<int>::min() - 1. && value < std::numeric_limits<int>::max() + 1.))
+            throw eval_exception(make_message(MessageName::UnsupportedBinaryOperation, language, operator_name));
+        return static_cast<int>(value);
+    }
+
 private:
     const macro_map& macro_val;
     const ELanguage  language;
-- 
2.43.0


From 61dd96917d8ecee944a263cbae7a4640fc7419a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 06/85] fix: start every block with a clean bracket and macro
 status

---
 parser/fanuc/AllAttributesParser.cpp      | 1 +
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index e8d80ac..b3cf4a3 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -238,6 +238,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             position_begin2         = pos_iterator_type(evaluated_code_view.cbegin());
             pos_iterator_type iter2 = position_begin2, position_end2(evaluated_code_view.cend());
             evaluated_code_part     = true;
+            all_attr_grammar->clear_message();
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
 
diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..2260fac 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = {};
     }
 
 private:
-- 
2.43.0


From 1723add1940a3966cf89fb9ed24fcd71d23b06c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 07/85] fix: report an impossible file splitting request
 instead of throwing it at the caller

---
 parser/fanuc/AllAttributesParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index b3cf4a3..3f1362d 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -559,6 +559,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
-- 
2.43.0


From 40c4a6e6c40e16512c2adb70fba96084d128a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:46 +0000
Subject: [PATCH 08/85] fix: keep the programming mode by value, it may be
 bound to a temporary

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..17d2d61 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -390,7 +390,7 @@ private:
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
     const int&                           g;
-    const EProgrammingType&              g9091;
+    const EProgrammingType               g9091;
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
-- 
2.43.0


From 2da280084a26a0c37ccbecffc1e765bd936bc4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:33 +0000
Subject: [PATCH 09/85] fix: keep the evaluated block alive while its parse
 error is reported

---
 parser/fanuc/AllAttributesParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 3f1362d..bcb4083 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -205,6 +205,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 {
     bool              ret{};
     bool              evaluated_code_part{};
+    std::string       evaluated_code; // outlives the try block, expectation_failure refers to it
     pos_iterator_type position_begin(data.cbegin()), iter = position_begin, position_end(data.cend());
     pos_iterator_type position_begin2;
 
@@ -229,7 +230,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         std::vector<AttributeVariant> value2;
 
-        auto evaluated_code =
+        evaluated_code =
             MacroEvaluatedCodeVerifier()(allowed_operations, macro_values, line, value, other_settings.language);
         if (!evaluated_code.empty())
         {
-- 
2.43.0


From 25a8d09d1a275da44781e27e12beddb4a90d941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 10/85] fix: reject a peck drilling cycle without a positive Q
 instead of dividing by it

---
 parser/fanuc/AttributesPathCalculator.cpp | 3 ++-
 parser/fanuc/PathCalculator.cpp           | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 17d2d61..0344151 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1196,7 +1196,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                // the number of passes of a peck drilling cycle is depth / Q
+                if (qit == std::end(values) || ((current_g == 73 || current_g == 83) && !(qit->second > 0.)))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7124b55..b48267e 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -608,7 +608,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-            int  liczbaQ               = static_cast<int>(sumaQ);
+            auto liczbaQ               = sumaQ;
             auto Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
             if (resztagleb > 0)
             {
@@ -631,7 +631,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-            int  liczbaQ               = static_cast<int>(sumaQ);
+            auto liczbaQ               = sumaQ;
             auto Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
             if (resztagleb > 0)
             {
@@ -736,7 +736,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zgleb, doubl
         const auto dparam                = Qparam / 5;
         const auto Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         const auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-        const int  liczbaQ               = static_cast<int>(sumaQ);
+        const auto liczbaQ               = sumaQ;
         auto       Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Rparam);
         if (resztagleb > 0)
             Cycle_distance = Cycle_distance + 2 * Gleb_rzeczyw;
-- 
2.43.0


From 3bc8552df644741c5c644416b27690cc1fda0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 11/85] fix: continue a helix in a block that does not program
 the third axis

---
 parser/fanuc/AttributesPathCalculator.cpp | 28 +++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 0344151..3174b63 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -969,23 +969,27 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(
                     make_message(MessageName::ValueNotSetForEitherEither, language, param1, param2, param3));
 
+            if (!z_prev)
+                throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
+
             if (current_g9091 == EProgrammingType::Incremental)
             {
+                const auto z_incr = z ? *z : 0.;
                 if (active_helix == EHelixType::Full)
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z_incr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z_incr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_incr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_incr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -995,9 +999,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z_incr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z_incr, *r);
                     }
                     else
                     {
@@ -1016,16 +1020,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1034,9 +1038,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
-- 
2.43.0


From 3ccfd377fba0f88d2742318c7273a9e6c4ff9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 12/85] fix: stop at the first failing stage of a block and
 keep the reason it gives

---
 parser/fanuc/AllAttributesParser.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index bcb4083..d73abf2 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -216,17 +216,14 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         UniqueCode()(*active_word_grammar, value, other_settings.language);
 
-        if (!parser_settings.evaluate_macro)
+        if (!ret || !parser_settings.evaluate_macro)
         {
             message = all_attr_grammar->get_message();
             return ret;
         }
 
         if (!MacroEvaluator::evaluate(macro_values, line, value, message, single_line_msg, other_settings.language))
-        {
-            message = all_attr_grammar->get_message();
             return false;
-        }
 
         std::vector<AttributeVariant> value2;
 
@@ -243,6 +240,12 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
 
+            if (!ret)
+            {
+                message = all_attr_grammar->get_message();
+                return false;
+            }
+
             GrammarSelector()(word_grammar, active_word_grammar, value2);
         }
 
-- 
2.43.0


From e91f0be74e5beffd42b05477edf1d8806666a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:39 +0000
Subject: [PATCH 13/85] fix: apply the word limits of the unit system chosen by
 G20/G21 to the following blocks

---
 parser/fanuc/AllAttributesParser.cpp | 18 ++++++++++++++++--
 parser/fanuc/AllAttributesParser.h   |  2 ++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index d73abf2..65b6295 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -158,10 +158,24 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
         std::make_unique<AttributesPathCalculator>(machine_tool, machine_tool_type, machine_points_data_zero_point,
                                                    kinematics, cnc_default_values, other_settings.language);
 
+    build_grammar();
+}
+
+void AllAttributesParser::build_grammar()
+{
+    build_symbols();
     all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
         *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
 }
 
+void AllAttributesParser::select_grammar(const std::vector<AttributeVariant>& value)
+{
+    const auto* const previous_word_grammar = active_word_grammar;
+    GrammarSelector()(word_grammar, active_word_grammar, value);
+    if (active_word_grammar != previous_word_grammar)
+        build_grammar();
+}
+
 void AllAttributesParser::build_symbols()
 {
     assignable_sym.clear();
@@ -246,7 +260,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
                 return false;
             }
 
-            GrammarSelector()(word_grammar, active_word_grammar, value2);
+            select_grammar(value2);
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
@@ -277,7 +291,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
                                 other_settings.language);
         }
 
-        GrammarSelector()(word_grammar, active_word_grammar, evaluated_code.empty() ? value : value2);
+        select_grammar(evaluated_code.empty() ? value : value2);
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
diff --git a/parser/fanuc/AllAttributesParser.h b/parser/fanuc/AllAttributesParser.h
index 49ac6c7..466f005 100644
--- a/parser/fanuc/AllAttributesParser.h
+++ b/parser/fanuc/AllAttributesParser.h
@@ -115,6 +115,8 @@ private:
                                std::string& message, bool single_line_msg);
 
     void build_symbols();
+    void build_grammar();
+    void select_grammar(const std::vector<AttributeVariant>& value);
 
     bool simple_parse(int line, std::string_view data, std::vector<AttributeVariant>& value, std::string& message,
                       bool single_line_msg);
-- 
2.43.0


From a7fd4b4e517443c735251604ba75a020305f1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 14/85] fix: convert words without a number and words without
 decimals correctly

---
 parser/fanuc/UnitConverter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d9a07a7..a06ea98 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -97,6 +97,9 @@ public:
                          [&](const std::string& item) { return item == data.word; }))
             return;
 
+        if (!data.value && !data.value2)
+            return;
+
         std::string str_value;
         if (data.value)
             str_value += *data.value;
@@ -128,8 +131,11 @@ public:
         ostr << std::fixed << std::setprecision(precision) << dvalue;
 
         std::string ret_str(ostr.str());
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        if (ret_str.find('.') != std::string::npos)
+        {
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        }
 
         const auto pos = ret_str.find('.');
         if (pos != std::string::npos)
-- 
2.43.0


From f4e424d4f34c7631fe1805603d1158f738873113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:53 +0000
Subject: [PATCH 15/85] fix: ignore a word that has a decimal point but no
 digits in the path calculation

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 3174b63..a9fab86 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -69,7 +69,7 @@ public:
 
         if (itor != std::cend(gcode_params))
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             // if(data.assign)
@@ -99,7 +99,7 @@ public:
         }
         else if (data.word == "F")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
@@ -114,7 +114,7 @@ public:
         }
         else if (data.word == "S")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
-- 
2.43.0


From 525180cf558c37bba961ba0e75cf20a214a89259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:10 +0000
Subject: [PATCH 16/85] fix: keep '=' and fold the sign when a macro is
 substituted into a block

---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index fac2654..6efcb3e 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -40,7 +40,10 @@ public:
         }
 
         text += data.word;
-        if (data.sign)
+        if (data.assign)
+            text += *data.assign;
+        const bool negated_macro = was_interesting_word && data.macro && !data.open_bracket;
+        if (data.sign && !negated_macro)
             text += *data.sign;
         if (data.open_bracket)
             text += *data.open_bracket;
@@ -52,7 +55,8 @@ public:
                 (macro_itor != std::end(macro_values) && macro_itor->first.id != val))
                 throw macro_evaluated_code_exception(
                     make_message(MessageName::MissingValue, language, "#" + *data.value));
-            text += to_string_trunc(macro_itor->second);
+            text += to_string_trunc(negated_macro && data.sign && *data.sign == '-' ? -macro_itor->second
+                                                                                    : macro_itor->second);
             was_modified = true;
         }
         else
-- 
2.43.0


From 83ab8b75ef3ab7b69d0a10099aaa7aa9c8044941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:12 +0000
Subject: [PATCH 17/85] fix: compare the whole feed value with the machine's
 feed limit

---
 parser/fanuc/RangeVerifier.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/RangeVerifier.cpp b/parser/fanuc/RangeVerifier.cpp
index 86196e8..e9ab93c 100644
--- a/parser/fanuc/RangeVerifier.cpp
+++ b/parser/fanuc/RangeVerifier.cpp
@@ -46,10 +46,14 @@ public:
         }
         else if (data.word == "F")
         {
-            if (data.value && std::stoi(*data.value) > kinematics.max_working_feed)
-                throw range_verifier_exception(make_message(MessageName::ValueHigherThanAllowed, language,
-                                                            std::string("F"),
-                                                            *data.value, std::to_string(kinematics.max_working_feed)));
+            if (data.value)
+            {
+                const auto feed = *data.value + (data.value2 ? "." + *data.value2 : "");
+                if (std::stod(feed) > kinematics.max_working_feed)
+                    throw range_verifier_exception(
+                        make_message(MessageName::ValueHigherThanAllowed, language, std::string("F"), feed,
+                                     std::to_string(kinematics.max_working_feed)));
+            }
         }
     }
 
-- 
2.43.0


From 07caf7a7108a101591fc20d463420f6688c1fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 18/85] fix: a reset restores the rotation check, the unit
 system and the tool exchange state

---
 parser/fanuc/AllAttributesParser.cpp      | 12 ++++++++++++
 parser/fanuc/AttributesPathCalculator.cpp |  1 +
 parser/fanuc/RotationVerifier.h           |  4 ++++
 3 files changed, 17 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 65b6295..9fe1d8a 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -100,7 +100,19 @@ void AllAttributesParser::init_macro_values()
 
 void AllAttributesParser::reset_attributes_path_calculator()
 {
+    if (!attr_path_calc)
+        return;
+
     attr_path_calc->reset();
+    rotation_verifier.reset();
+
+    const auto* const previous_word_grammar = active_word_grammar;
+    active_word_grammar =
+        attr_path_calc->get_cnc_default_values().default_driver_units == EDriverUnits::Millimeter
+            ? &word_grammar.metric
+            : &word_grammar.imperial;
+    if (active_word_grammar != previous_word_grammar)
+        build_grammar();
 }
 
 const PathResult& AllAttributesParser::get_path_result() const
diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a9fab86..13f0cee 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -454,6 +454,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
diff --git a/parser/fanuc/RotationVerifier.h b/parser/fanuc/RotationVerifier.h
index 22d3a3d..b1f212d 100644
--- a/parser/fanuc/RotationVerifier.h
+++ b/parser/fanuc/RotationVerifier.h
@@ -75,6 +75,10 @@ class PARSER_API RotationVerifier
 public:
     void operator()(const CncDefaultValues& cnc_default_values, const std::vector<AttributeVariant>& value,
                     ELanguage language);
+    void reset()
+    {
+        rotation_verifier_visitor.reset();
+    }
 
 private:
     RotationVerifierVisitor rotation_verifier_visitor;
-- 
2.43.0


From 8b3030fcfc88cec9b3f0edf79516bde22439209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 19/85] fix: do not read the moved-from settings when the path
 calculator is constructed

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 13f0cee..24d157c 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -403,14 +403,14 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , cnc_default_values(std::move(cnc_default_values))
     , language(language)
     , active_s(this->cnc_default_values.operator_turns_on_rotation ? this->cnc_default_values.default_rotation : -1)
-    , active_g(static_cast<int>(cnc_default_values.default_motion))
+    , active_g(static_cast<int>(this->cnc_default_values.default_motion))
     , active_g171819(this->cnc_default_values.default_work_plane)
     , active_g_return(this->cnc_default_values.drill_cycle_return_value)
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
-    for (const auto& it : kinematics.cartesian_system_axis)
+    copy_on_return cr{active_g, active_g9091, this->machine_points_data.machine_base_point, prev_values, word_range};
+    for (const auto& it : this->kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
 
-- 
2.43.0


From b3f33abac56a142e297fb024e61b8d0dc02ce51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 20/85] fix: a macro assignment in an optional block is not
 part of the block delete slash

---
 parser/fanuc/AllAttributesParserGrammar.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index 2260fac..213fca9 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -112,6 +112,10 @@ bool verify_range(const word_map& word_grammar, const AttributeDataDecimal<T, U>
         return true;
     auto& grammar = it->second;
 
+    // A hash after the optional block slash belongs to the next word, it is not divided by
+    if (data.word == "/" && data.macro && !st.was_macro && st.open_bracket == 0)
+        return false;
+
     if (data.word == "#")
         st.was_macro = true;
     else if (st.was_macro && data.word == "=")
@@ -333,7 +337,7 @@ public:
 
         // Note: division including closing brackets is handled in either division_attribute_grammar or here
         optional_block = qi::char_("/") > &!qi::lit('/') > qi::attr(boost::none) > -qi::char_("-+") >
-                         qi::attr(boost::none) > -qi::string("#") > qi::lexeme[-digits] > qi::no_skip[-qi::char_('.')] >
+                         qi::attr(boost::none) > qi::attr(boost::none) > qi::lexeme[-digits] > qi::no_skip[-qi::char_('.')] >
                          qi::no_skip[-digits_tens] > -close_bracket;
         start_optional_block %= optional_block[qi::_pass = verify_range_bind];
         BOOST_SPIRIT_DEBUG_NODES((digits)(digits_tens)(optional_block) /*(start_optional_block)*/);
-- 
2.43.0


From c77b662b64dd5be4453ac0ca3cb098dcb7244c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:37 +0000
Subject: [PATCH 21/85] fix: reject a block whose substituted macro values do
 not fit and do not switch units before it is checked

---
 parser/fanuc/AllAttributesParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 9fe1d8a..086c4a3 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -271,8 +271,6 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
                 message = all_attr_grammar->get_message();
                 return false;
             }
-
-            select_grammar(value2);
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
@@ -316,6 +314,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         if (!message.empty())
             msg << " <- " << message;
         message = msg.str();
+        return false;
     }
     catch (const code_groups_exception& e)
     {
-- 
2.43.0


From 047ccf4eff11d92a57043c273a9b8b4198bfb7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 22/85] fix: compute arc lengths with the floating point abs

The unqualified abs truncates its argument to an integer here, so arcs whose ends
differ by less than one unit counted as full circles and R lost its fraction.
---
 parser/fanuc/PathCalculator.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index b48267e..efcd8da 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -33,7 +33,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -137,7 +137,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             AlphaArc = 360 - AlphaArc;
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelny obwod okregu i kat 360 stopni
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -160,7 +160,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     auto ABhalf = (AB / 2);
 
     // 3. Obliczenie promienia R luku i w przypadku wartosci ujemnej (kat wiekszy niz 180 stopni) modul z liczby
-    auto Rarcradius = abs(Rcur);
+    auto Rarcradius = std::abs(Rcur);
 
     // 4. Obliczenie polowy okregu dla danego luku
     auto Semicircle = (2 * M_PI * Rarcradius) / 2;
@@ -168,7 +168,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -190,7 +190,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
 
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -217,7 +217,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
@@ -267,7 +267,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     const auto AB = MathUtils::CalcLineLength2d(Xcur, Ycur);
 
     // Obliczenie promienia R luku
-    const auto Rarcradius = abs(Rcur);
+    const auto Rarcradius = std::abs(Rcur);
 
     // Obliczenie polowy cieciwy
     const auto ABhalf = (AB / 2);
@@ -278,7 +278,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     const double tolerance = 1e-8;
     double       Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
-- 
2.43.0


From e88dcd194e82323b2c194115fe2be9ff90c8c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 23/85] fix: detect arcs longer than 180 degrees when the ends
 lie on the axes or in one quadrant

The quadrant comparison leaves those cases undecided and reported the length of the
shorter arc. When the end point lies on the circle the cross product decides.
---
 parser/fanuc/PathCalculator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index efcd8da..b571235 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -132,6 +132,14 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             }
         }
 
+        // Cwiartki nie rozstrzygaja gdy punkty leza na osiach lub w tej samej cwiartce. Jesli punkt biezacy lezy na
+        // okregu to rozstrzyga znak iloczynu wektorowego: po ktorej stronie punktu poprzedniego lezy punkt biezacy
+        if (std::abs(MathUtils::CalcLineLength2d(CurtempX, CurtempY) - Rarcradius) <= 0.01 * Rarcradius)
+        {
+            const auto side = PretempX * CurtempY - PretempY * CurtempX;
+            longArc         = Direction_CW_CCW == 3 ? side < 0 : side > 0;
+        }
+
         // Jesli luk jest wiekszy niz 180 stopni
         if (longArc)
             AlphaArc = 360 - AlphaArc;
-- 
2.43.0


From c0dda9aca50d8a4bf2cb5dd2c65ef5e7165f0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:53 +0000
Subject: [PATCH 24/85] fix: take the arc direction of G18 in the ZX plane

---
 parser/fanuc/AttributesPathCalculator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 24d157c..8a30978 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -825,15 +825,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             param1 = "I";
             param2 = "K";
             param3 = "J";
+            // G18 is the ZX plane, so the direction is reversed when axes are taken in the X, Z order
             if (current_g == 2)
             {
-                gfunc      = static_cast<fn_g*>(&PathCalculator::G2_G18);
-                gfunc_incr = static_cast<fn_g_incr*>(&PathCalculator::G2_G18);
+                gfunc      = static_cast<fn_g*>(&PathCalculator::G3_G18);
+                gfunc_incr = static_cast<fn_g_incr*>(&PathCalculator::G3_G18);
             }
             else
             {
-                gfunc      = static_cast<fn_g*>(&PathCalculator::G3_G18);
-                gfunc_incr = static_cast<fn_g_incr*>(&PathCalculator::G3_G18);
+                gfunc      = static_cast<fn_g*>(&PathCalculator::G2_G18);
+                gfunc_incr = static_cast<fn_g_incr*>(&PathCalculator::G2_G18);
             }
             gfunc_r                  = static_cast<fn_g_r*>(&PathCalculator::G2G3_G18);
             gfunc_r_incr             = static_cast<fn_g_r_incr*>(&PathCalculator::G2G3_G18);
-- 
2.43.0


From 816ebc2d4f6dd4e454dfbc6aee2d29a88fe554a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:59 +0000
Subject: [PATCH 25/85] fix: end a helix when the circular interpolation ends

A later G2/G3 arc, possibly in another part of the program, was computed as the
continuation of the helix.
---
 parser/fanuc/AttributesPathCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 8a30978..9466503 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -648,6 +648,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
     const auto lathe_non_diameter = lathe_programming && !kinematics.diameter_programming_2x;
 
+    if (current_g != 2 && current_g != 3)
+        active_helix = EHelixType::None; // helix ends together with the circular interpolation
+
     if (current_g == 0 || current_g == 1)
     {
         // if(move_to_tool_exchange_point)
-- 
2.43.0


From 40085b7d3de4f2e672dd58b488c88ff13b57c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 26/85] fix: recognise a full helix by the programming mode

An absolute move to X0 Y0 and an incremental move equal to the current position were
taken for full circles.
---
 parser/fanuc/AttributesPathCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 9466503..d5668e1 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -935,7 +935,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            if ((*x == *x_prev && *y == *y_prev) || (*x == 0. && *y == 0.))
+            if (current_g9091 == EProgrammingType::Incremental ? (*x == 0. && *y == 0.)
+                                                               : (*x == *x_prev && *y == *y_prev))
             {
                 active_helix = EHelixType::Full;
             }
-- 
2.43.0


From 03b982e87d013ac977f6b592fe5011ef16d30171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:38 +0000
Subject: [PATCH 27/85] fix: keep the position along the drilling axis of G18
 and G19

The depth of the hole is not a position; only Z was left out, so drilling along Y or X
moved the current position to the bottom of the hole and forgot the position in Z.
---
 parser/fanuc/AttributesPathCalculator.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index d5668e1..7626ca1 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -314,11 +314,13 @@ struct copy_on_return
 {
     copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
-                   word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
+                   word_range_map& word_range, const std::vector<std::string>* other_g = nullptr,
+                   const char* depth_axis = "Z")
         : v(values)
         , pv(prev_values)
         , wr(word_range)
         , og(other_g)
+        , depth_axis(depth_axis)
         , g(active_g)
         , g9091(active_g9091)
     {
@@ -328,7 +330,7 @@ struct copy_on_return
     {
         for (const auto& it : v)
         {
-            if (it.first == "Z" && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
+            if (it.first == depth_axis && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
                 continue;
             if (it.first == "Q" || it.first == "L")
                 continue;
@@ -389,6 +391,7 @@ private:
     std::map<std::string, double>&       pv;
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
+    const char*                          depth_axis;
     const int&                           g;
     const EProgrammingType               g9091;
 };
@@ -1362,7 +1365,18 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
             &other_g};
     else
-        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g};
+    {
+        // depth of a hole is not a position, lathes without Y axis drill along Z in each plane
+        const char* depth_axis = "Z";
+        if (machine_tool != EMachineTool::lathe_zx && machine_tool != EMachineTool::lathe_zxc)
+        {
+            if (active_g171819 == EWorkPlane::XZ)
+                depth_axis = "Y";
+            else if (active_g171819 == EWorkPlane::YZ)
+                depth_axis = "X";
+        }
+        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g, depth_axis};
+    }
 }
 
 } // namespace fanuc
-- 
2.43.0


From 8fba806774da25cdf7eea6480dcf08e65aee4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 28/85] fix: move the position with each of the repeated
 incremental holes

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 7626ca1..c0b1a65 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -494,7 +494,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto  g9697                = attributes_visitor.get_g9697();
     const auto  feed_mode            = attributes_visitor.get_feed_mode();
     const auto& other_g              = attributes_visitor.get_other_g();
-    const auto& values               = attributes_visitor.get_values();
+    auto        values               = attributes_visitor.get_values();
     const auto  was_m6               = attributes_visitor.was_m6();
     const auto  was_pallet_exchange  = attributes_visitor.was_pallet_exchange();
     const auto  was_tool_measurement = attributes_visitor.was_tool_measurement();
@@ -1282,6 +1282,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     path_result.work_motion += work_motion;
                     path_result.fast_motion += fast_motion;
                 }
+                // the position moves with each of the holes
+                for (const auto& axis : {axis1, axis2})
+                    if (const auto it = values.find(axis); it != std::end(values))
+                        it->second *= holes;
             }
             else
             {
-- 
2.43.0


From ef5da305f8ebea378c2d4ca0b3143d9ad267e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:12 +0000
Subject: [PATCH 29/85] fix: rapid path of a drilling cycle with the R plane
 below zero and the start above it

---
 parser/fanuc/PathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index b571235..9ecc069 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -449,7 +449,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
                 if (Zpre > 0 && Zgleb < 0)
                 {
                     auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) + std::abs(Zgleb);
+                    auto Cycle_distance_Rapid  = std::abs(Zpre) - Rparam + std::abs(Zpre) + std::abs(Zgleb);
                     return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
                 }
                 else
-- 
2.43.0


From 9a9ab29b0040c995f2e46136309da851bf1772c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 30/85] fix: do not take the words of a dwell or of a data
 setting code for a motion

G4 X2 moved to X2 and counted its path, G4 P500 repeated the modal arc or cycle; G04
was not recognised as G4 when the position was saved.
---
 parser/fanuc/AttributesPathCalculator.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index c0b1a65..8f7510b 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -169,6 +169,7 @@ public:
             else
             {
                 auto tmp = *data.value;
+                tmp.erase(0, std::min(tmp.find_first_not_of('0'), tmp.size() - 1)); // G04 is G4
                 if (data.dot && data.value2)
                     tmp += *data.dot + *data.value2;
                 other_g.push_back(tmp);
@@ -588,6 +589,20 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             time_result.total += xit->second;
     }
 
+    // words of a dwell and of data setting codes are not coordinates of a motion, G53 is a motion
+    if (std::find(std::cbegin(other_g), std::cend(other_g), "53") == std::cend(other_g))
+    {
+        for (const auto& [word, codes] : get_ignore_g_codes())
+            for (const auto& code : codes)
+                if (std::find(std::cbegin(other_g), std::cend(other_g), code) != std::cend(other_g))
+                    values.erase(std::string(word));
+        if (std::find(std::cbegin(other_g), std::cend(other_g), "4") != std::cend(other_g))
+        {
+            values.erase("U");
+            values.erase("P");
+        }
+    }
+
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
         std::cend(other_g))
         move_to_machine_base_point = true;
-- 
2.43.0


From 5fb008e223362ca8f1dd559c9b3d9ded8dbcc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:38 +0000
Subject: [PATCH 31/85] fix: keep modal values of blocks without motion

F, S, G90/G91, G94/G95... were lost in a block without coordinates while G2, G3 or a
drilling cycle was active and in a tool selection block; P alone repeated the arc or cycle.
---
 parser/fanuc/AttributesPathCalculator.cpp | 39 +++++++++++++++++------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 8f7510b..a4dc66d 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -571,6 +571,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
+            active_f         = f.value_or(active_f);
+            active_s         = s.value_or(active_s);
+            active_g9697     = g9697.value_or(active_g9697);
+            active_feed_mode = feed_mode.value_or(active_feed_mode);
+
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
@@ -666,6 +671,21 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
     const auto lathe_non_diameter = lathe_programming && !kinematics.diameter_programming_2x;
 
+    const auto save_modal_values = [&] {
+        active_f         = current_f;
+        active_s         = current_s;
+        active_g         = current_g;
+        active_g171819   = current_g171819;
+        active_g_return  = current_g_return;
+        active_g9091     = current_g9091;
+        active_g9697     = current_g9697;
+        active_feed_mode = current_feed_mode;
+    };
+
+    // dwell time or number of a subprogram does not start a motion
+    const auto no_motion_words = std::all_of(std::cbegin(values), std::cend(values),
+                                             [](const auto& value) { return value.first == "P"; });
+
     if (current_g != 2 && current_g != 3)
         active_helix = EHelixType::None; // helix ends together with the circular interpolation
 
@@ -759,8 +779,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && no_motion_words)
+        {
+            save_modal_values();
             return;
+        }
 
         if ((current_g == 2 && cnc_default_values.circular_interpolation_cw_cancel_cycle) ||
             (current_g == 3 && cnc_default_values.circular_interpolation_ccw_cancel_cycle))
@@ -1135,8 +1158,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && no_motion_words)
+        {
+            save_modal_values();
             return;
+        }
 
         std::string axis1, axis2, axis3, axis_gleb;
         using fn_drill_cycle =
@@ -1317,14 +1343,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         return; // don't save anything
     }
 
-    active_f         = current_f;
-    active_s         = current_s;
-    active_g         = current_g;
-    active_g171819   = current_g171819;
-    active_g_return  = current_g_return;
-    active_g9091     = current_g9091;
-    active_g9697     = current_g9697;
-    active_feed_mode = current_feed_mode;
+    save_modal_values();
 
     path_result.tool_id = active_t;
     path_result.tool_total += path_result.work_motion + path_result.fast_motion;
-- 
2.43.0


From 8555963a7130522439aa36f907672a5a69459ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:14 +0000
Subject: [PATCH 32/85] fix: G2 and G3 without coordinates do not move

They were computed as a full circle around the previous centre.
---
 parser/fanuc/AttributesPathCalculator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a4dc66d..ea86893 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -779,12 +779,6 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && no_motion_words)
-        {
-            save_modal_values();
-            return;
-        }
-
         if ((current_g == 2 && cnc_default_values.circular_interpolation_cw_cancel_cycle) ||
             (current_g == 3 && cnc_default_values.circular_interpolation_ccw_cancel_cycle))
         {
@@ -792,6 +786,12 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             path_result.hole_number    = 0;
         }
 
+        if (no_motion_words)
+        {
+            save_modal_values();
+            return;
+        }
+
         std::string axis1, axis2, axis3, param1, param2, param3;
         using fn_6dbl                   = double(double, double, double, double, double, double);
         using fn_5dbl                   = double(double, double, double, double, double);
-- 
2.43.0


From 40f5fa45324ed4d44776ec2658fd55e7f636ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 33/85] fix: keep depth, R and Q of a drilling cycle modal

A new depth, R, Q, G98/G99 or cycle code in a following block was ignored and K alone
was refused because the distance was computed only for the first hole.
---
 parser/fanuc/AttributesPathCalculator.cpp | 51 +++++++++++++++--------
 parser/fanuc/AttributesPathCalculator.h   |  5 +++
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ea86893..8ed17c4 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1229,8 +1229,27 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
 
         const auto k = get_optional_value(values, "K");
-        if (path_result.hole_number == 0 || k) // we want to calculate this even though *k=0 or k is with G90 because
-                                               // the results may be needed in next blocks
+        const auto depth = get_optional_value(values, axis_gleb);
+        const auto r     = get_optional_value(values, "R");
+        const auto q     = get_optional_value(values, "Q");
+        if (path_result.hole_number == 0)
+        {
+            cycle_depth.reset();
+            cycle_r.reset();
+            cycle_q.reset();
+        }
+        if (path_result.hole_number == 0 || depth || r || q)
+            cycle_g9091 = current_g9091;
+        if (depth)
+            cycle_depth = depth;
+        if (r)
+            cycle_r = r;
+        if (q)
+            cycle_q = q;
+
+        // depth, R and Q are modal and the distance changes with each of them, we want to calculate this even though
+        // k = 0 because the results may be needed in next blocks
+        if (path_result.hole_number == 0 || g || g_return || depth || r || q)
         {
             const bool zgleb_is_lathe_without_Y =
                 machine_tool == EMachineTool::lathe_zx ||
@@ -1239,44 +1258,40 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             const auto zit_prev = prev_values.find(axis3);
             if (zit_prev == std::end(prev_values))
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            const auto zglebit = values.find(axis_gleb);
-            if (zglebit == std::end(values) && !zgleb_is_lathe_without_Y)
+            if (!cycle_depth && !zgleb_is_lathe_without_Y)
                 throw path_calc_exception(make_message(MessageName::MissingValue, language, axis_gleb + "gleb"));
-            const auto rit = values.find("R");
-            if (rit == std::end(values))
+            const auto zgleb = !zgleb_is_lathe_without_Y ? *cycle_depth : 0.0;
+            if (!cycle_r)
                 throw path_calc_exception(make_message(MessageName::MissingValue, language, "R"));
 
             std::pair<double, double> ret;
             if (dcq)
             {
-                const auto qit = values.find("Q");
                 // the number of passes of a peck drilling cycle is depth / Q
-                if (qit == std::end(values) || ((current_g == 73 || current_g == 83) && !(qit->second > 0.)))
+                if (!cycle_q || ((current_g == 73 || current_g == 83) && !(*cycle_q > 0.)))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
-                if (current_g9091 == EProgrammingType::Incremental)
+                if (cycle_g9091 == EProgrammingType::Incremental)
                 {
-                    ret = func_drill_cycle_qparam_incr(!zgleb_is_lathe_without_Y ? zglebit->second : 0.0, rit->second,
-                                                       qit->second, static_cast<EDrillGmode>(current_g),
+                    ret = func_drill_cycle_qparam_incr(zgleb, *cycle_r, *cycle_q, static_cast<EDrillGmode>(current_g),
                                                        current_g_return);
                 }
                 else
                 {
-                    ret = func_drill_cycle_qparam(zit_prev->second, !zgleb_is_lathe_without_Y ? zglebit->second : 0.0,
-                                                  rit->second, qit->second, cnc_default_values.drill_cycle_z_value,
+                    ret = func_drill_cycle_qparam(zit_prev->second, zgleb, *cycle_r, *cycle_q,
+                                                  cnc_default_values.drill_cycle_z_value,
                                                   static_cast<EDrillGmode>(current_g), current_g_return);
                 }
             }
             else
             {
-                if (current_g9091 == EProgrammingType::Incremental)
+                if (cycle_g9091 == EProgrammingType::Incremental)
                 {
-                    ret = func_drill_cycle_incr(!zgleb_is_lathe_without_Y ? zglebit->second : 0.0, rit->second,
-                                                static_cast<EDrillGmode>(current_g), current_g_return);
+                    ret = func_drill_cycle_incr(zgleb, *cycle_r, static_cast<EDrillGmode>(current_g),
+                                                current_g_return);
                 }
                 else
                 {
-                    ret = func_drill_cycle(zit_prev->second, !zgleb_is_lathe_without_Y ? zglebit->second : 0.0,
-                                           rit->second, cnc_default_values.drill_cycle_z_value,
+                    ret = func_drill_cycle(zit_prev->second, zgleb, *cycle_r, cnc_default_values.drill_cycle_z_value,
                                            static_cast<EDrillGmode>(current_g), current_g_return);
                 }
             }
diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index 6bfbb4e..8d5bc72 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -3,6 +3,7 @@
 #include "parser_export.h"
 
 #include <map>
+#include <optional>
 #include <set>
 #include <stdexcept>
 #include <string>
@@ -97,6 +98,10 @@ private:
     EConstantSurfaceSpeedControl  active_g9697{};
     EFeedMode                     active_feed_mode{};
     EHelixType                    active_helix{};
+    std::optional<double>         cycle_depth;
+    std::optional<double>         cycle_r;
+    std::optional<double>         cycle_q;
+    EProgrammingType              cycle_g9091{};
     std::string                   active_t;
     bool                          active_auto_rapid_traverse_after_tool_exchange{};
 #ifdef _MSC_VER
-- 
2.43.0


From 7874ef307dde4d333d7c1223e6ed034c253c24cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:37 +0000
Subject: [PATCH 34/85] fix: count the passes of a peck drilling cycle
 regardless of rounding

A depth that is a multiple of Q only up to the rounding, like 1.0 and 0.1, got one pass
more or less and for G83 twice the depth on top.
---
 parser/fanuc/PathCalculator.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 9ecc069..8020e0b 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -9,6 +9,18 @@ namespace fanuc {
 
 constexpr double Deg = 180 / M_PI;
 
+// number of full passes of a peck drilling cycle, depth may be a multiple of Q only up to the rounding
+static double peck_passes(double depth, double q)
+{
+    return std::floor(depth / q + 1e-9);
+}
+
+static double peck_rest(double depth, double q)
+{
+    const auto rest = depth - peck_passes(depth, q) * q;
+    return rest > 1e-9 * q ? rest : 0.;
+}
+
 double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, double Icur, double Jcur,
                            int Direction_CW_CCW)
 {
@@ -566,14 +578,14 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
             auto Gleb_rzeczyw     = std::abs(Zgleb);
-            auto liczbaprzejsc    = std::floor(Gleb_rzeczyw / Qparam);
+            auto liczbaprzejsc    = peck_passes(Gleb_rzeczyw, Qparam);
             auto dparam           = Qparam / 5;
             Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         }
         else
         {
             auto Gleb_rzeczyw     = std::abs(Rparam - Zgleb);
-            auto liczbaprzejsc    = std::floor(Gleb_rzeczyw / Qparam);
+            auto liczbaprzejsc    = peck_passes(Gleb_rzeczyw, Qparam);
             auto dparam           = Qparam / 5;
             Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         }
@@ -611,8 +623,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
             auto Gleb_rzeczyw          = Zgleb;
-            auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
-            auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
+            auto liczbaprzejsc         = peck_passes(Gleb_rzeczyw, Qparam);
+            auto resztagleb            = peck_rest(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
@@ -634,8 +646,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             else
             {*/
             auto Gleb_rzeczyw          = std::abs(Rparam - Zgleb);
-            auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
-            auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
+            auto liczbaprzejsc         = peck_passes(Gleb_rzeczyw, Qparam);
+            auto resztagleb            = peck_rest(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
@@ -720,7 +732,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zgleb, doubl
     else if (Gmode == EDrillGmode::G73)
     {
         const auto Gleb_rzeczyw          = std::abs(Zgleb);
-        const auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
+        const auto liczbaprzejsc         = peck_passes(Gleb_rzeczyw, Qparam);
         const auto dparam                = Qparam / 5;
         const auto Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
 
@@ -739,8 +751,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zgleb, doubl
     {
         const int  mnoznikG98G99         = GreturnMode == EDrillGreturnMode::G99 ? 1 : 2;
         const auto Gleb_rzeczyw          = std::abs(Zgleb);
-        const auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
-        const auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
+        const auto liczbaprzejsc         = peck_passes(Gleb_rzeczyw, Qparam);
+        const auto resztagleb            = peck_rest(Gleb_rzeczyw, Qparam);
         const auto dparam                = Qparam / 5;
         const auto Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         const auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-- 
2.43.0


From c0ffc53e56d718cda10b439363dc81a70368397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:04 +0000
Subject: [PATCH 35/85] fix: depth of G83 programmed as a negative distance
 from the R plane

---
 parser/fanuc/PathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 8020e0b..b990042 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -622,7 +622,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         int mnoznikG98G99 = GreturnMode == EDrillGreturnMode::G99 ? 1 : 2;
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
-            auto Gleb_rzeczyw          = Zgleb;
+            auto Gleb_rzeczyw          = std::abs(Zgleb);
             auto liczbaprzejsc         = peck_passes(Gleb_rzeczyw, Qparam);
             auto resztagleb            = peck_rest(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
-- 
2.43.0


From 00de8a52ac354a46438721e64a2abcb834f2267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:10 +0000
Subject: [PATCH 36/85] fix: M6 exchanges the tool selected in an earlier block

T5 and M6 in separate blocks left the previous tool active, so paths and times were
counted for the wrong tool.
---
 parser/fanuc/AttributesPathCalculator.cpp | 14 +++++++++++++-
 parser/fanuc/AttributesPathCalculator.h   |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 8ed17c4..0749ac8 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -261,6 +261,11 @@ public:
         }
     }
 
+    std::optional<std::string> get_last_t() const
+    {
+        return active_t.empty() ? std::nullopt : std::make_optional(active_t.back());
+    }
+
     auto was_pallet_exchange() const
     {
         return pallet_exchange;
@@ -458,6 +463,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    selected_t.clear();
     active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
@@ -485,7 +491,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(attributes_visitor, value[x]);
 
-    const auto  t                    = attributes_visitor.get_t();
+    auto        t                    = attributes_visitor.get_t();
     const auto  f                    = attributes_visitor.get_f();
     const auto  s                    = attributes_visitor.get_s();
     const auto  g                    = attributes_visitor.get_g();
@@ -503,6 +509,12 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     bool move_to_tool_exchange_point{};
     bool move_to_machine_base_point{};
 
+    // M6 exchanges the tool selected in one of the previous blocks
+    if (!cnc_default_values.tool_number_executes_exchange && was_m6 && !t && !selected_t.empty())
+        t = selected_t;
+    if (const auto last_t = attributes_visitor.get_last_t())
+        selected_t = *last_t;
+
     if (!cnc_default_values.tool_number_executes_exchange && was_m6)
     {
         move_to_tool_exchange_point = true;
diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index 8d5bc72..974abf8 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -103,6 +103,7 @@ private:
     std::optional<double>         cycle_q;
     EProgrammingType              cycle_g9091{};
     std::string                   active_t;
+    std::string                   selected_t;
     bool                          active_auto_rapid_traverse_after_tool_exchange{};
 #ifdef _MSC_VER
 #pragma warning(pop)
-- 
2.43.0


From 51b971cda831939f3deffcf5c1987f101011a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:04 +0000
Subject: [PATCH 37/85] fix: only a tool exchange starts the automatic rapid
 traverse, not a tool selection

---
 parser/fanuc/AttributesPathCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 0749ac8..a078cd0 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -529,7 +529,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
     if (t)
     {
-        if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
+        if (cnc_default_values.auto_rapid_traverse_after_tool_exchange &&
+            (cnc_default_values.tool_number_executes_exchange || was_m6))
             active_auto_rapid_traverse_after_tool_exchange = true;
 
         if (!active_t.empty())
-- 
2.43.0


From a7f6732be1738827530d160303a88afab8209134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 38/85] fix: halve X and not Y of arcs in the YZ plane of a
 lathe

---
 parser/fanuc/AttributesPathCalculator.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a078cd0..0be3708 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1113,6 +1113,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
         if (calculate_arc && active_helix == EHelixType::None)
         {
+            const auto half_axis1 = lathe_non_diameter && axis1 == "X";
+
             if (!r && (!i || !j))
             {
                 if (!i)
@@ -1128,12 +1130,12 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (current_g9091 == EProgrammingType::Incremental)
             {
                 const auto x_curr = x ? *x_prev + *x : *x_prev;
-                const auto xprv   = lathe_non_diameter ? *x_prev / 2 : *x_prev;
-                const auto xcur   = lathe_non_diameter ? x_curr / 2 : x_curr;
+                const auto xprv   = half_axis1 ? *x_prev / 2 : *x_prev;
+                const auto xcur   = half_axis1 ? x_curr / 2 : x_curr;
 
                 if (i && j)
                 {
-                    const auto i_curr = lathe_non_diameter ? *i / 2 : *i;
+                    const auto i_curr = half_axis1 ? *i / 2 : *i;
                     // path_result.work_motion = gfunc_incr(x ? *x : 0., y ? *y : 0., *i, *j);
                     path_result.work_motion = gfunc(xprv, *y_prev, xcur, y ? *y_prev + *y : *y_prev, i_curr, *j);
                 }
@@ -1147,12 +1149,12 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             {
                 const auto x_curr = x ? *x : *x_prev;
                 const auto y_curr = y ? *y : *y_prev;
-                const auto xprv   = lathe_non_diameter ? *x_prev / 2 : *x_prev;
-                const auto xcur   = lathe_non_diameter ? x_curr / 2 : x_curr;
+                const auto xprv   = half_axis1 ? *x_prev / 2 : *x_prev;
+                const auto xcur   = half_axis1 ? x_curr / 2 : x_curr;
 
                 if (i && j)
                 {
-                    const auto i_curr       = lathe_non_diameter ? *i / 2 : *i;
+                    const auto i_curr       = half_axis1 ? *i / 2 : *i;
                     path_result.work_motion = gfunc(xprv, *y_prev, xcur, y_curr, i_curr, *j);
                 }
                 else
-- 
2.43.0


From 9421090fe6b6a13897be6c61732ddeadb8b06d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:35 +0000
Subject: [PATCH 39/85] fix: a helix programmed with R uses R

I and J of an earlier block or of the machine base point took precedence, so with the
default settings the radius was 0.
---
 parser/fanuc/AttributesPathCalculator.cpp | 29 ++++++++++++++++++-----
 parser/fanuc/AttributesPathCalculator.h   |  1 +
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 0be3708..77c3833 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -985,7 +985,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             else
                 path_result.work_motion = gfunc_helix_archimedes_l(*i, *j, *l);
         }
-        else if (active_helix == EHelixType::None && x && y && z && ((i && j && k) || r))
+        else if (active_helix == EHelixType::None)
+            helix_radius = false;
+
+        if (calculate_arc && active_helix == EHelixType::None && x && y && z && ((i && j && k) || r))
         {
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
@@ -1009,15 +1012,29 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             const auto k_prev = get_optional_value(prev_values, param3);
             const auto r_prev = get_optional_value(prev_values, "R");
 
+            // a helix programmed with R does not use I, J, K from the previous blocks
+            if (i && j)
+                helix_radius = false;
+            else if (r)
+                helix_radius = true;
+
             if ((!r && !r_prev) && ((!i && !i_prev) || (!j && !j_prev)))
                 throw path_calc_exception(
                     make_message(MessageName::ValueNotSetForEitherEither, language, param1, param2, param3));
 
-            if (!i)
-                i = i_prev;
+            if (helix_radius)
+            {
+                i = std::nullopt;
+                j = std::nullopt;
+            }
+            else
+            {
+                if (!i)
+                    i = i_prev;
 
-            if (!j)
-                j = j_prev;
+                if (!j)
+                    j = j_prev;
+            }
 
             if (!k && k_prev)
                 k = k_prev;
@@ -1055,7 +1072,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 }
                 else if (active_helix == EHelixType::Quarter)
                 {
-                    if (first_helix_quarter_incr_block || (!first_helix_quarter_incr_block && x && i && j))
+                    if (first_helix_quarter_incr_block || (!first_helix_quarter_incr_block && x && (helix_radius || (i && j))))
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index 974abf8..92b466f 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -98,6 +98,7 @@ private:
     EConstantSurfaceSpeedControl  active_g9697{};
     EFeedMode                     active_feed_mode{};
     EHelixType                    active_helix{};
+    bool                          helix_radius{};
     std::optional<double>         cycle_depth;
     std::optional<double>         cycle_r;
     std::optional<double>         cycle_q;
-- 
2.43.0


From 765d9212774ba916a8e785ec4e9fd62ae4cebef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:19 +0000
Subject: [PATCH 40/85] fix: recognise a full helix after incremental moves
 regardless of rounding

---
 parser/fanuc/AttributesPathCalculator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 77c3833..9daa18d 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -963,6 +963,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         const auto y = get_optional_value(values, axis2);
         const auto z = get_optional_value(values, axis3);
 
+        // positions reached by incremental moves differ by the rounding
+        const auto same = [](double a, double b) { return std::abs(a - b) < 1e-8; };
+
         bool calculate_arc                  = true;
         bool first_helix_quarter_incr_block = false;
 
@@ -993,7 +996,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
             if (current_g9091 == EProgrammingType::Incremental ? (*x == 0. && *y == 0.)
-                                                               : (*x == *x_prev && *y == *y_prev))
+                                                               : (same(*x, *x_prev) && same(*y, *y_prev)))
             {
                 active_helix = EHelixType::Full;
             }
@@ -1094,7 +1097,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 const auto z_curr = z ? *z : *z_prev;
                 if (active_helix == EHelixType::Full)
                 {
-                    if (*x_prev == x_curr && *y_prev == y_curr)
+                    if (same(*x_prev, x_curr) && same(*y_prev, y_curr))
                     {
                         if (i && j)
                             path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
@@ -1112,7 +1115,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 }
                 else if (active_helix == EHelixType::Quarter)
                 {
-                    if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
+                    if (!same(*x_prev, x_curr) && !same(*y_prev, y_curr) && !same(*z_prev, z_curr))
                     {
                         if (i && j)
                             path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
-- 
2.43.0


From 7276be6f3cb3119520091c5160a264d0d899ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:49 +0000
Subject: [PATCH 41/85] fix: a motion code ends the automatic rapid traverse
 after a tool exchange

G1 in a block without coordinates was forgotten and the next coordinates moved rapidly.
---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 9daa18d..4a4cef1 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -628,7 +628,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     if (move_to_tool_exchange_point || move_to_machine_base_point)
         active_g = 0;
 
-    if (active_auto_rapid_traverse_after_tool_exchange && !values.empty())
+    if (active_auto_rapid_traverse_after_tool_exchange && (g || !values.empty()))
     {
         active_auto_rapid_traverse_after_tool_exchange = false;
         active_g                                       = 0;
-- 
2.43.0


From e19d85d76b3da4bd2c9f2bd9a86e7d89f2d1a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 42/85] fix: rotate codes written with leading zeros, leave
 code variables and decimal codes alone

---
 parser/fanuc/AxesRotator.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index a11b8f0..ace9e34 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -2,6 +2,7 @@
 
 #include "AxesRotator.h"
 
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 
@@ -194,11 +195,15 @@ public:
             if (!data.value)
                 return;
 
-            auto& val = *data.value;
-            if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
+            if (data.macro || data.value2)
                 return;
 
-            const auto wt_item = wtm.find({data.word, val});
+            auto&      val  = *data.value;
+            const auto code = val.substr(std::min(val.find_first_not_of('0'), val.size()));
+            if (!(code == "17" || code == "18" || code == "19" || code == "2" || code == "3"))
+                return;
+
+            const auto wt_item = wtm.find({data.word, code});
             if (wt_item == std::end(wtm))
                 return;
 
-- 
2.43.0


From a53737f0b77ab58edc9103ec95e3080a90e13ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 43/85] fix: rotating the axes leaves the time of a dwell alone

---
 parser/fanuc/AxesRotator.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index ace9e34..1229c61 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -176,6 +176,11 @@ public:
 
     void operator()(DecimalAttributeData& data)
     {
+        if (is_dwell(data))
+            was_dwell = true;
+        if (was_dwell) // words of a dwell are not coordinates
+            return;
+
         if (data.word == "X" || data.word == "Y" || data.word == "Z" || data.word == "I" || data.word == "J" ||
             data.word == "K")
         {
@@ -217,7 +222,13 @@ public:
     }
 
 private:
+    static bool is_dwell(const DecimalAttributeData& data)
+    {
+        return data.word == "G" && data.value && !data.macro && !data.value2 && std::stoi(*data.value) == 4;
+    }
+
     const WordTransformMap& wtm;
+    bool                    was_dwell{};
 };
 
 void AxesRotator::operator()(AxesRotatingOption option, std::vector<AttributeVariant>& value)
-- 
2.43.0


From f2dbce17e5560baa6bea337c062646ec2947a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 44/85] fix: a code taken from variable 4 is not a dwell when
 converting units

---
 parser/fanuc/UnitConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index a06ea98..ad21919 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -43,7 +43,7 @@ public:
         }
         was_first_item = true;
 
-        if (data.word == "G" && data.value && std::stoi(*data.value) == 4)
+        if (data.word == "G" && data.value && !data.macro && std::stoi(*data.value) == 4)
         {
             ignore_rest = true;
             return;
-- 
2.43.0


From 17b0e34f1b4ffffa358300cdcc5bef0707242ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:30 +0000
Subject: [PATCH 45/85] fix: a rapid or linear block stays one when splitting a
 file, whatever code follows it

---
 parser/fanuc/FileSplitter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 25109cd..79c81d7 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -44,14 +44,16 @@ public:
             if ((val >= 0 && val <= 3))
             {
                 active_g = val;
+                if ((val == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
+                    (val == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+                    drill_cycle = false;
             }
             else if (is_drill_cycle(val) || is_drill_cycle_qparam(val))
             {
                 active_g    = val;
                 drill_cycle = true;
             }
-            else if (val == 80 || (active_g == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
-                     (active_g == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+            else if (val == 80)
             {
                 active_g    = val;
                 drill_cycle = false;
-- 
2.43.0


From d77c000c7c6959c5965054a202ede5c5fe4aeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:35 +0000
Subject: [PATCH 46/85] fix: a code taken from a variable is neither a motion
 nor a tool change when splitting a file

---
 parser/fanuc/FileSplitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 79c81d7..f4b6a51 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -38,7 +38,7 @@ public:
 
         if (data.word == "G")
         {
-            if (!data.value)
+            if (!data.value || data.macro)
                 return;
             const auto val = std::stoi(*data.value);
             if ((val >= 0 && val <= 3))
@@ -65,7 +65,7 @@ public:
         }
         else if (data.word == "M")
         {
-            if (!data.value)
+            if (!data.value || data.macro)
                 return;
             if (data.dot || data.value2)
                 return;
@@ -77,7 +77,7 @@ public:
         }
         else if (data.word == "T")
         {
-            if (!data.value)
+            if (!data.value || data.macro)
                 return;
             if (data.dot || data.value2)
                 return;
-- 
2.43.0


From 9bb1719a1c5d10c8fcf87c7e93b29a32ae092c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:35 +0000
Subject: [PATCH 47/85] fix: number the blocks of split files in order instead
 of giving all the same number

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 086c4a3..aa621c5 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -555,7 +555,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
@@ -582,7 +582,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 
             fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
-- 
2.43.0


From 847e515b0b58698b6d65ecfd21120b8b93a37d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 48/85] fix: an empty line has no path and no time of its own
 when splitting a file

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index aa621c5..1f8b1b0 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -536,9 +536,9 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     return false;
                 vtmp.emplace_back(std::move(v));
                 if (file_splitting.type == FileSplittingType::work_motion_path)
-                    vec_path_result.push_back(attr_path_calc->get_path_result());
+                    vec_path_result.push_back(tmp.empty() ? PathResult{} : attr_path_calc->get_path_result());
                 else
-                    vec_time_result.push_back(attr_path_calc->get_time_result());
+                    vec_time_result.push_back(tmp.empty() ? TimeResult{} : attr_path_calc->get_time_result());
             }
 
             std::vector<AttributeVariant> retraction_plane;
-- 
2.43.0


From dc39cfe248721ffae2f467256627346fc62e3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:02 +0000
Subject: [PATCH 49/85] fix: splitting by text reports a block with an error
 instead of dropping the rest of it

---
 parser/fanuc/AllAttributesParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 1f8b1b0..4799989 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -517,7 +517,13 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             {
                 value[cnt].resize(t.size());
                 for (size_t x = 0; x < t.size(); ++x)
-                    renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs);
+                {
+                    auto trimmed(t[x]);
+                    boost::algorithm::trim(trimmed);
+                    if (!trimmed.empty() &&
+                        !renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs))
+                        return false;
+                }
                 ++cnt;
             }
         }
-- 
2.43.0


From 77202127cf108abc5c622c84d08812a7935fd6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 50/85] fix: an empty part of a split file is no wild pointer

---
 parser/fanuc/AllAttributesParserWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..0b7c333 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -457,7 +457,7 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
+    *value  = new char*[ret_value.size()]{}; // an empty part has no text
     *length = static_cast<int>(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
-- 
2.43.0


From 94e1b5f74612dda3dfc4b316f32b0a72ec94754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 51/85] fix: end the language server when its input ends
 instead of looping forever

---
 nclangsrv/nclangsrv.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 1d25f86..11bdc1a 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -121,8 +121,9 @@ int main(int argc, char* argv[])
                 break;
         }
 
-        if (str.empty())
-            continue;
+        // the client is gone
+        if (!std::cin)
+            break;
 
         str.clear();
 
@@ -159,6 +160,10 @@ int main(int argc, char* argv[])
         tmp.resize(std::cin.gcount());
         buffer += tmp;
 
+        // the client is gone in the middle of a message
+        if (!std::cin)
+            break;
+
         if (logger)
             LOGGER << __func__ << ": " << buffer << std::endl;
 
-- 
2.43.0


From 4fb2bd428da6a8887f29cd4e04b75d6e2155f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 52/85] fix: read a whole message header, whatever other fields
 it has, before the content

---
 nclangsrv/nclangsrv.cpp | 56 ++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 11bdc1a..ca5b274 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -107,58 +107,40 @@ int main(int argc, char* argv[])
         using namespace std::chrono_literals;
         std::this_thread::sleep_for(1ms);
 
-        char        c;
-        std::string str;
-
-        while (std::cin.get(c))
+        // header fields end with an empty line, only Content-Length is of interest
+        const std::string field("Content-Length: ");
+        std::string       line;
+        std::string       str;
+        while (std::getline(std::cin, line))
         {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (str.empty() and c != 'C')
+            if (not line.empty() and line.back() == '\r')
+                line.pop_back();
+            if (line.empty())
+            {
+                if (not str.empty())
+                    break;
                 continue;
-            str += c;
-            if (str == "Content-Length: ")
-                break;
+            }
+            const auto pos = line.find(field);
+            if (pos != std::string::npos)
+                str = line.substr(pos + field.size());
         }
 
         // the client is gone
         if (!std::cin)
             break;
 
-        str.clear();
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                break;
-            str += c;
-        }
-
-        uint32_t length = std::atoi(str.c_str());
+        const int32_t length = std::atoi(str.c_str());
         if (logger)
             LOGGER << __func__ << ": Content-Length: [" << str << "(" << str.size() << ")"
                    << "], " << length << std::endl;
-        if (length == 0)
+        if (length <= 0)
         {
             continue;
         }
 
-        std::string buffer;
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                continue;
-            buffer += c;
-            break;
-        }
-        std::string tmp(length, '\0');
-        std::cin.read(&tmp[0], length - 1);
-        tmp.resize(std::cin.gcount());
-        buffer += tmp;
+        std::string buffer(length, '\0');
+        std::cin.read(&buffer[0], length);
 
         // the client is gone in the middle of a message
         if (!std::cin)
-- 
2.43.0


From b0ac18413129f8c140a4ba8e0993e25a9519acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 53/85] fix: answer every request with the id it came with, a
 string or a number

---
 nclangsrv/JsonMessageHandler.cpp | 40 +++++++++++++++++++-------------
 nclangsrv/JsonMessageHandler.h   |  6 ++---
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..eef6198 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -104,6 +104,14 @@ rapidjson::Value prepareMacroDescDiagnostic(const std::string& macroDescErr, rap
     return diagnostic;
 }
 
+void addId(rapidjson::Document& response, const rapidjson::Document& request)
+{
+    rapidjson::Value id;
+    if (request.HasMember("id"))
+        id.CopyFrom(request["id"], response.GetAllocator());
+    response.AddMember("id", id, response.GetAllocator());
+}
+
 void hoverMakeResult(const std::string& contents, int line, size_t from, size_t to, rapidjson::Value& result,
                      rapidjson::Document::AllocatorType& a)
 {
@@ -202,7 +210,7 @@ JsonMessageHandler::JsonMessageHandler(Logger* logger, const std::string& rootPa
 
 bool JsonMessageHandler::parse(const std::string& json)
 {
-    int32_t     id{};
+    std::string id;
     std::string method;
 
     rapidjson::Document d;
@@ -219,9 +227,9 @@ bool JsonMessageHandler::parse(const std::string& json)
     if (d.HasMember("id"))
     {
         if (d["id"].IsInt())
-            id = d["id"].GetInt();
+            id = std::to_string(d["id"].GetInt());
         else if (d["id"].IsString())
-            id = atoi(d["id"].GetString());
+            id = d["id"].GetString();
     }
 
     if (d.HasMember("method"))
@@ -239,7 +247,7 @@ bool JsonMessageHandler::parse(const std::string& json)
 
     if (method == "initialize")
     {
-        initialize(id);
+        initialize(d);
     }
     else if (method == "initialized")
     {
@@ -263,7 +271,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "textDocument/completion")
     {
-        textDocument_completion(id);
+        textDocument_completion(d);
     }
     else if (method == "completionItem/resolve")
     {
@@ -287,7 +295,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "shutdown")
     {
-        shutdown(id);
+        shutdown(d);
     }
     else if (method == "exit")
     {
@@ -302,14 +310,14 @@ bool JsonMessageHandler::parse(const std::string& json)
     return true;
 }
 
-void JsonMessageHandler::initialize(int32_t id)
+void JsonMessageHandler::initialize(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    addId(d, request);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -444,7 +452,7 @@ void JsonMessageHandler::fetch_macrosDesc()
     }
 }
 
-void JsonMessageHandler::textDocument_completion(int32_t id)
+void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
@@ -454,7 +462,7 @@ void JsonMessageHandler::textDocument_completion(int32_t id)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    addId(d, request);
 
     rapidjson::Value result(rapidjson::kArrayType);
     {
@@ -498,7 +506,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    addId(d, request);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -642,7 +650,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    addId(d, request);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -819,7 +827,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    addId(d, request);
 
     rapidjson::Value result(rapidjson::kArrayType);
 
@@ -907,7 +915,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    addId(d, request);
 
     rapidjson::Value result(rapidjson::kObjectType);
 
@@ -966,14 +974,14 @@ void JsonMessageHandler::cancelRequest()
 {
 }
 
-void JsonMessageHandler::shutdown(int32_t id)
+void JsonMessageHandler::shutdown(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    addId(d, request);
 
     rapidjson::Value result;
     d.AddMember("result", result, a);
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index d712d3d..0c340f8 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -31,19 +31,19 @@ public:
     }
 
 private:
-    void initialize(int32_t id);
+    void initialize(const rapidjson::Document& request);
     void initialized();
     void workspace_didChangeConfiguration(const rapidjson::Document& request);
     void textDocument_didOpen(const rapidjson::Document& request);
     void textDocument_didChange(const rapidjson::Document& request);
     void textDocument_didClose(const rapidjson::Document& request);
-    void textDocument_completion(int32_t id);
+    void textDocument_completion(const rapidjson::Document& request);
     void completionItem_resolve(const rapidjson::Document& request);
     void textDocument_hover(const rapidjson::Document& request);
     void textDocument_codeLens(const rapidjson::Document& request);
     void codeLens_resolve(const rapidjson::Document& request);
     void cancelRequest();
-    void shutdown(int32_t id);
+    void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
     void fetch_gCodesDesc();
-- 
2.43.0


From 990054a561cdbfcf5e8c6668727e7909c3f4a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 54/85] fix: a malformed message, missing parameters or an
 unknown request do not crash the server and are answered with an error

---
 nclangsrv/JsonMessageHandler.cpp | 105 ++++++++++++++++++++++++++++++-
 nclangsrv/JsonMessageHandler.h   |   1 +
 2 files changed, 104 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index eef6198..4eb8439 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -112,6 +112,58 @@ void addId(rapidjson::Document& response, const rapidjson::Document& request)
     response.AddMember("id", id, response.GetAllocator());
 }
 
+bool hasObject(const rapidjson::Value& value, const char* name)
+{
+    return value.HasMember(name) and value[name].IsObject();
+}
+
+bool hasString(const rapidjson::Value& value, const char* name)
+{
+    return value.HasMember(name) and value[name].IsString();
+}
+
+bool hasPosition(const rapidjson::Value& value, const char* name)
+{
+    if (not hasObject(value, name))
+        return false;
+    const auto& position = value[name];
+    return position.HasMember("line") and position["line"].IsInt() and position["line"].GetInt() >= 0 and
+           position.HasMember("character") and position["character"].IsInt();
+}
+
+// whether the message has all the parameters its handler reads
+bool validParams(const std::string& method, const rapidjson::Document& request)
+{
+    const bool completionResolve = method == "completionItem/resolve";
+    const bool codeLensResolve   = method == "codeLens/resolve";
+    const bool document          = method == "textDocument/didOpen" or method == "textDocument/didChange" or
+                          method == "textDocument/didClose" or method == "textDocument/hover" or
+                          method == "textDocument/codeLens";
+    if (not document and not completionResolve and not codeLensResolve)
+        return true;
+
+    if (not hasObject(request, "params"))
+        return false;
+    const auto& params = request["params"];
+
+    if (completionResolve)
+        return hasString(params, "label");
+    if (codeLensResolve)
+        return hasObject(params, "range") and hasPosition(params["range"], "start");
+
+    if (not hasObject(params, "textDocument") or not hasString(params["textDocument"], "uri"))
+        return false;
+    if (method == "textDocument/didOpen")
+        return hasString(params["textDocument"], "text");
+    if (method == "textDocument/didChange")
+        return params.HasMember("contentChanges") and params["contentChanges"].IsArray() and
+               not params["contentChanges"].Empty() and params["contentChanges"][0].IsObject() and
+               hasString(params["contentChanges"][0], "text");
+    if (method == "textDocument/hover")
+        return hasPosition(params, "position");
+    return true;
+}
+
 void hoverMakeResult(const std::string& contents, int line, size_t from, size_t to, rapidjson::Value& result,
                      rapidjson::Document::AllocatorType& a)
 {
@@ -222,6 +274,14 @@ bool JsonMessageHandler::parse(const std::string& json)
             LOGGER << "JsonMessageHandler::" << __func__
                    << ": JSON parse error: " << rapidjson::GetParseErrorFunc(parse_result.Code()) << "("
                    << parse_result.Offset() << ")" << std::endl;
+        return false;
+    }
+
+    if (not d.IsObject())
+    {
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": message is not an object!" << std::endl;
+        return false;
     }
 
     if (d.HasMember("id"))
@@ -232,7 +292,7 @@ bool JsonMessageHandler::parse(const std::string& json)
             id = d["id"].GetString();
     }
 
-    if (d.HasMember("method"))
+    if (hasString(d, "method"))
     {
         method = std::string{d["method"].GetString(), d["method"].GetStringLength()};
     }
@@ -245,7 +305,14 @@ bool JsonMessageHandler::parse(const std::string& json)
     if (mLogger)
         LOGGER << "JsonMessageHandler::" << __func__ << ": id:" << id << ", method:" << method << std::endl;
 
-    if (method == "initialize")
+    if (not validParams(method, d))
+    {
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": invalid params for method: " << method << std::endl;
+        if (d.HasMember("id"))
+            error(d, -32602, "Invalid params");
+    }
+    else if (method == "initialize")
     {
         initialize(d);
     }
@@ -305,6 +372,9 @@ bool JsonMessageHandler::parse(const std::string& json)
     {
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": WRN: No handler for method: " << method << std::endl;
+        // a response of the client has no method, a notification has no id
+        if (not method.empty() and d.HasMember("id"))
+            error(d, -32601, "Method not found");
     }
 
     return true;
@@ -974,6 +1044,37 @@ void JsonMessageHandler::cancelRequest()
 {
 }
 
+void JsonMessageHandler::error(const rapidjson::Document& request, int32_t code, const char* message)
+{
+    rapidjson::Document d;
+    d.SetObject();
+    rapidjson::Document::AllocatorType& a = d.GetAllocator();
+
+    d.AddMember("jsonrpc", "2.0", a);
+    addId(d, request);
+
+    rapidjson::Value err(rapidjson::kObjectType);
+    err.AddMember("code", code, a);
+    err.AddMember("message", rapidjson::StringRef(message), a);
+    d.AddMember("error", err, a);
+
+    rapidjson::StringBuffer                    stringBuffer;
+    rapidjson::Writer<rapidjson::StringBuffer> writer(stringBuffer);
+    d.Accept(writer);
+
+    std::string response{stringBuffer.GetString()};
+
+    if (mLogger)
+    {
+        LOGGER << "JsonMessageHandler::" << __func__ << ": Content-Length: " << response.size() << std::endl
+               << "[" << response << "]" << std::endl;
+        mLogger->flush();
+    }
+
+    std::cout << "Content-Length: " << response.size() << MSG_ENDL << MSG_ENDL << response;
+    std::cout.flush();
+}
+
 void JsonMessageHandler::shutdown(const rapidjson::Document& request)
 {
     rapidjson::Document d;
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index 0c340f8..fc3bcdf 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -43,6 +43,7 @@ private:
     void textDocument_codeLens(const rapidjson::Document& request);
     void codeLens_resolve(const rapidjson::Document& request);
     void cancelRequest();
+    void error(const rapidjson::Document& request, int32_t code, const char* message);
     void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
-- 
2.43.0


From 4f6727f5e01358e482e7ba5f95fc3ceb063cd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 55/85] fix: an error in the user macro descriptions is
 reported until it is corrected and does not hide the other descriptions

---
 nclangsrv/JsonMessageHandler.cpp |  4 ++++
 nclangsrv/MacrosDescReader.cpp   | 19 ++++++++++++++++++-
 nclangsrv/MacrosDescReader.h     |  4 ++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 4eb8439..0d1844e 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -515,6 +515,10 @@ void JsonMessageHandler::fetch_macrosDesc()
                                       fs::path("desc") / fs::path("macros_desc_" + getLangPrefix(mLanguage) + ".json"))
                             .string();
         mMacrosDesc = std::make_unique<MacrosDescReader>(descPath, mMacrosDescUserPath, mLogger);
+    }
+
+    if (!mMacrosDesc->isRead())
+    {
         mMacrosDesc->read();
 
         for (const auto& v : mMacrosDesc->getMacros())
diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..ee5f8c2 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -2,6 +2,7 @@
 
 #include "MacrosDescReader.h"
 
+#include <exception>
 #include <regex>
 
 #define BOOST_BIND_GLOBAL_PLACEHOLDERS
@@ -31,12 +32,28 @@ bool MacrosDescReader::read()
     mData.clear();
     mMacros.clear();
 
+    mRanges.clear();
+
+    std::exception_ptr userError;
     if (not mMacrosDescUserPath.empty())
-        readJson(mMacrosDescUserPath);
+    {
+        try
+        {
+            readJson(mMacrosDescUserPath);
+        }
+        catch (const json_parser_exception&)
+        {
+            userError = std::current_exception();
+        }
+    }
     readJson(mPath);
 
     readRanges();
 
+    // reported, and tried again, until the user corrects the file
+    if (userError)
+        std::rethrow_exception(userError);
+
     mRead = true;
 
     return true;
diff --git a/nclangsrv/MacrosDescReader.h b/nclangsrv/MacrosDescReader.h
index 6cfe2e2..ffc4270 100644
--- a/nclangsrv/MacrosDescReader.h
+++ b/nclangsrv/MacrosDescReader.h
@@ -23,6 +23,10 @@ public:
     MacrosDescReader(const std::string& path, const std::string& macrosDescUserPath, Logger* logger);
 
     bool read();
+    bool isRead() const
+    {
+        return mRead;
+    }
 
     using MacroDescPair   = std::pair<std::string, std::string>;
     using MacroCodesRange = std::pair<int, int>;
-- 
2.43.0


From b4dc26b4576c6ae4e5caaf5ce4056099ad6fccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 56/85] fix: the range of a problem in the user macro
 descriptions has no negative line

---
 nclangsrv/JsonMessageHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 0d1844e..579eef5 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -92,7 +92,7 @@ rapidjson::Value prepareMacroDescDiagnostic(const std::string& macroDescErr, rap
         rapidjson::Value uri;
         uri.SetString(file.c_str(), static_cast<rapidjson::SizeType>(file.size()), a);
         location.AddMember("uri", uri, a);
-        location.AddMember("range", makeRange(line - 1, 0, 0, a), a);
+        location.AddMember("range", makeRange(line > 0 ? line - 1 : 0, 0, 0, a), a);
 
         relatedInformation.AddMember("location", location, a);
 
-- 
2.43.0


From 5fce02e3371f59e84d95ae5a94ccd78131753be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 57/85] fix: the macro descriptions do not write to a log that
 is not there

---
 nclangsrv/MacrosDescReader.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index ee5f8c2..52e88b3 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -119,14 +119,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -151,14 +157,20 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
-- 
2.43.0


From c646db5d9ced56a71e0ee898cd67ce96a53bcd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 58/85] fix: the first and the last variable of a described
 range have its description

---
 nclangsrv/MacrosDescReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 52e88b3..1391ffa 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -175,7 +175,7 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
 
     auto it = std::find_if(mRanges.cbegin(), mRanges.cend(),
-                           [&icode](const auto& r) { return icode > r.first.first and icode < r.first.second; });
+                           [&icode](const auto& r) { return icode >= r.first.first and icode <= r.first.second; });
     if (it != mRanges.cend())
     {
         if (mData.count(it->second))
-- 
2.43.0


From 04f5386f94e8b04301c1908834b468dda6439883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 59/85] fix: resolving a completion item loads the descriptions
 it needs

---
 nclangsrv/JsonMessageHandler.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 579eef5..50bc0ba 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -618,6 +618,17 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
             const std::string label(params["label"].GetString(), params["label"].GetStringLength());
             if (!label.empty())
             {
+                fetch_gCodesDesc();
+                fetch_mCodesDesc();
+                try
+                {
+                    fetch_macrosDesc();
+                }
+                catch (const json_parser_exception&)
+                {
+                    // reported in diagnostics
+                }
+
                 if (label[0] == 'G' || label[0] == 'g')
                 {
                     auto it = mGCodes->getDesc().find(label.substr(1));
-- 
2.43.0


From 76d72217f6ac4a39d60a99a917a6b7d32f3446b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:18 +0000
Subject: [PATCH 60/85] fix: hovering over a variable with a number that is too
 big does not end the server

---
 nclangsrv/JsonMessageHandler.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 50bc0ba..24d6118 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -203,6 +203,21 @@ std::string extractCode(const std::string& data)
     return code;
 }
 
+using macro_id_type = decltype(parser::fanuc::macro_map_key::id);
+
+bool toMacroId(const std::string& code, macro_id_type& id)
+{
+    try
+    {
+        id = static_cast<macro_id_type>(std::stoi(code));
+        return true;
+    }
+    catch (const std::out_of_range&)
+    {
+        return false;
+    }
+}
+
 std::string replaceAll(const std::string& str1, const std::string& from, const std::string& to)
 {
     std::string str       = str1;
@@ -783,10 +798,11 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             {
                 std::string code = extractCode(contents.substr(2));
 
-                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                macro_id_type macroId{};
+                const auto    valid = toMacroId(code, macroId);
 
                 auto itm = macroMap->lower_bound({macroId, line + 1});
-                if (itm != macroMap->cend() && itm->first.id == macroId)
+                if (valid && itm != macroMap->cend() && itm->first.id == macroId)
                 {
                     fetch_gCodesDesc();
                     fetch_mCodesDesc();
@@ -825,13 +841,15 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 
                 if (!contents.empty())
                 {
-                    auto code    = extractCode(contents.substr(1));
-                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                    auto code = extractCode(contents.substr(1));
+
+                    macro_id_type macroId{};
+                    const auto    valid = toMacroId(code, macroId);
 
                     bool exist{};
 
                     auto it = macroMap->lower_bound({macroId, line + 1});
-                    if (it != macroMap->cend() && it->first.id == macroId)
+                    if (valid && it != macroMap->cend() && it->first.id == macroId)
                     {
                         exist    = true;
                         contents = contents + " = " + parser::to_string_trunc(it->second);
-- 
2.43.0


From 81b3f781afb81b4aa2c813a4412e15952c78b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:27 +0000
Subject: [PATCH 61/85] fix: hovering over a code taken from an undefined
 variable has no contents instead of an invalid hover

---
 nclangsrv/JsonMessageHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 24d6118..03c24c7 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -830,7 +830,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 }
                 else
                 {
-                    contents.clear();
+                    result.SetNull();
                 }
             }
             else
-- 
2.43.0


From f682ad4ed63e93226cba3929d502a18dcb825e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 62/85] fix: a system variable is described also in a program
 that assigns no variable

---
 nclangsrv/JsonMessageHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 03c24c7..ac636cc 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -787,7 +787,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             else
                 result.SetNull();
         }
-        else if (macroMap && !macroMap->empty())
+        else if (macroMap)
         {
             size_t from{};
             size_t to{};
-- 
2.43.0


From dc9f0288c0c8618c16f8063219310e9ba1a5881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 63/85] fix: a document does not end at a NUL character

---
 nclangsrv/JsonMessageHandler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index ac636cc..fb47048 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -466,7 +466,9 @@ void JsonMessageHandler::textDocument_didOpen(const rapidjson::Document& request
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), textDocument["text"].GetString());
+    const auto& text = textDocument["text"];
+
+    textDocument_publishDiagnostics(textDocument["uri"].GetString(), {text.GetString(), text.GetStringLength()});
 }
 
 void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& request)
@@ -475,7 +477,9 @@ void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& reque
     const auto& textDocument   = params["textDocument"];
     const auto& contentChanges = params["contentChanges"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[0]["text"].GetString());
+    const auto& text = contentChanges[0]["text"];
+
+    textDocument_publishDiagnostics(textDocument["uri"].GetString(), {text.GetString(), text.GetStringLength()});
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
-- 
2.43.0


From 393d86b61532a1205aa35bf70cc7cb5591585625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 64/85] fix: a message that quotes a text such as 'line 1' is
 reported at its own line

---
 nclangsrv/NCParser.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..4c9720a 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -392,7 +392,6 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_nbr{};
     size_t                   line_err{};
     std::string              text;
-    const std::string        line_str("line 1");
     double                   prev_time_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
@@ -438,26 +437,18 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (!ret)
         {
             ++line_err;
-            auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.empty())
             {
-                message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
+                message = data;
+                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+            }
+            else if (message.find("1:") == 0)
+            {
+                message = std::to_string(line_nbr) + message.substr(1);
             }
             else
             {
-                if (message.empty())
-                {
-                    message = data;
-                    message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
-                }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
-                else
-                {
-                    message = std::to_string(line_nbr) + ": " + message;
-                }
+                message = std::to_string(line_nbr) + ": " + message;
             }
             messages.push_back(message);
         }
-- 
2.43.0


From fac4367c0be4d30da4656dab72e59ac70dee03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 65/85] fix: a diagnostic contains its whole message, also when
 it has colons in it

---
 nclangsrv/JsonMessageHandler.cpp | 34 ++++++++++----------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index fb47048..6e386c8 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1206,33 +1206,19 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             int32_t     character{};
             std::string result_message = error_message;
 
-            std::string              data;
-            std::vector<std::string> tokens;
-            std::stringstream        ss(error_message);
-            while (std::getline(ss, data, ':'))
+            // "line: message" or "line:character: message"
+            const std::regex r("^([^:]*):(?:(\\d+):)?");
+            std::smatch      m;
+            if (std::regex_search(error_message, m, r))
             {
-                boost::algorithm::trim(data);
-                tokens.push_back(data);
-                if (mLogger)
-                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << data << "]" << std::endl;
-            }
-
-            if (not tokens.empty())
-            {
-                line = atoi(tokens[0].c_str());
+                line = atoi(m[1].str().c_str());
                 if (line > 0)
                     line--;
-                if (tokens.size() > 2)
-                {
-                    character = atoi(tokens[1].c_str());
-                    if (character > 0)
-                        character--;
-                    result_message = tokens[2];
-                }
-                else
-                {
-                    result_message = tokens[1];
-                }
+                character = atoi(m[2].str().c_str());
+                if (character > 0)
+                    character--;
+                result_message = m.suffix();
+                boost::algorithm::trim(result_message);
             }
 
             if (line != 0 or character != 0 or not result_message.empty())
-- 
2.43.0


From 2e677ceb2de516ecd2c2b4ca95b63def76c84579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 66/85] fix: a tool number with many digits does not overrun
 the text of a code lens

---
 nclangsrv/NCParser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 4c9720a..6658ffb 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -172,9 +172,8 @@ std::string formatPathTimeResult(const PathResult& pr, const TimeResult& tr, dou
     }
     if (pr.tool_total >= tolerance && pr.total - pr.tool_total >= tolerance)
     {
-        auto written =
-            std::snprintf(buffer, BUFFER_SIZE, " | T%s total path = %.2f", pr.tool_id.c_str(), pr.tool_total);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " total path = %.2f", pr.tool_total);
+        result.append(" | T").append(pr.tool_id).append(buffer);
     }
     if (pr.fast_motion >= tolerance)
     {
-- 
2.43.0


From 12145e34a01b276bd01d184b21d3d6cc97b023ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:21 +0000
Subject: [PATCH 67/85] fix: a spiral without a radius or without turns does
 not make the path and time not a number

---
 parser/fanuc/PathCalculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index b990042..9708e30 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -417,6 +417,10 @@ double PathCalculator::G2G3_HelixG17_ArchimedesQparam(double Icur, double Jcur,
 
 double PathCalculator::G2G3_Helix_Archimedes(double Lparam, double HRadius)
 {
+    // no spiral without a radius or turns
+    if (HRadius == 0. || Lparam == 0. || !std::isfinite(Lparam))
+        return 0.;
+
     const auto aparam   = HRadius / (Lparam * 2 * M_PI);
     const auto LArchmds = aparam / 2 *
                           (Lparam * 2 * M_PI * std::sqrt(1 + std::pow(Lparam * 2 * M_PI, 2)) +
-- 
2.43.0


From 1198f759bef4768a157fcac09b1655b4fc884a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 68/85] fix: feed per revolution without a turning spindle
 takes no negative or infinite time

---
 parser/fanuc/AttributesPathCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 4a4cef1..ab3b1ff 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1408,7 +1408,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         if (lathe_programming &&
             current_feed_mode == EFeedMode::PerRevolution /*&& current_g_return == EDrillGreturnMode::G99*/)
         {
-            if (current_g9697 == EConstantSurfaceSpeedControl::G96)
+            // no feed without revolutions
+            if (active_s <= 0.0)
+                time_result.work_motion = 0.0;
+            else if (current_g9697 == EConstantSurfaceSpeedControl::G96)
             {
                 double rpm{};
                 if (units == EDriverUnits::Inch)
-- 
2.43.0


From 2967b3f473ec02dbc470cc4dedac829bbb372ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 69/85] fix: descriptions are those of the configured control
 when it becomes known late

---
 nclangsrv/JsonMessageHandler.cpp | 32 ++++++++++++++++++++++++++++++++
 nclangsrv/JsonMessageHandler.h   |  2 ++
 2 files changed, 34 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 6e386c8..fc08a16 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -490,6 +490,22 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
     mFileContexts.erase(textDocument["uri"].GetString());
 }
 
+void JsonMessageHandler::fetch_settings()
+{
+    if (!mNcSettingsReader.getNcSettingsPath().empty())
+        mNcSettingsReader.read();
+
+    // the descriptions are those of the configured control
+    if (mDescParserType != mNcSettingsReader.getFanucParserType())
+    {
+        mDescParserType = mNcSettingsReader.getFanucParserType();
+        mGCodes.reset();
+        mMCodes.reset();
+        mMacrosDesc.reset();
+        mSuggestions.clear();
+    }
+}
+
 void JsonMessageHandler::fetch_gCodesDesc()
 {
     if (!mGCodes.get())
@@ -547,6 +563,7 @@ void JsonMessageHandler::fetch_macrosDesc()
 
 void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
 {
+    fetch_settings();
     fetch_gCodesDesc();
     fetch_mCodesDesc();
 
@@ -594,6 +611,8 @@ void JsonMessageHandler::textDocument_completion(const rapidjson::Document& requ
 
 void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& request)
 {
+    fetch_settings();
+
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
@@ -713,6 +732,8 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
 
 void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 {
+    fetch_settings();
+
     const auto& params       = request["params"];
     const auto& position     = params["position"];
     const int   line         = position["line"].GetInt();
@@ -859,6 +880,15 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents = contents + " = " + parser::to_string_trunc(it->second);
                     }
 
+                    try
+                    {
+                        fetch_macrosDesc();
+                    }
+                    catch (const json_parser_exception&)
+                    {
+                        // reported in diagnostics
+                    }
+
                     auto [macroTitle, macroDesc] = mMacrosDesc->getDesc(code);
                     if (not macroTitle.empty() or not macroDesc.empty())
                     {
@@ -1163,6 +1193,8 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
     mFileContexts.erase(uri);
     mFileContexts.emplace(std::make_pair(uri, std::move(fileContext)));
 
+    fetch_settings();
+
     std::string macroDescErr;
     try
     {
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index fc3bcdf..5c19789 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -47,6 +47,7 @@ private:
     void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
+    void fetch_settings();
     void fetch_gCodesDesc();
     void fetch_mCodesDesc();
     void fetch_macrosDesc();
@@ -79,6 +80,7 @@ private:
     NCParser                           mParser;
     std::string                        mMacrosDescUserPath;
     parser::ELanguage                  mLanguage;
+    parser::EFanucParserType           mDescParserType{};
     bool                               mExit{};
 };
 
-- 
2.43.0


From 137427e59d4ff0aea16fe6c381e350f6cee68ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:47 +0000
Subject: [PATCH 70/85] fix: codes like G80.5, G81.8 or G91.1 are not the cycle
 cancel, G81 or G91

---
 parser/fanuc/AllAttributesParserDefines.h | 6 ++++++
 parser/fanuc/AttributesPathCalculator.cpp | 7 ++++---
 parser/fanuc/FileSplitter.cpp             | 6 +++++-
 parser/fanuc/RotationVerifier.cpp         | 2 +-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AllAttributesParserDefines.h b/parser/fanuc/AllAttributesParserDefines.h
index 6c7527d..b649d68 100644
--- a/parser/fanuc/AllAttributesParserDefines.h
+++ b/parser/fanuc/AllAttributesParserDefines.h
@@ -57,6 +57,12 @@ PARSER_API std::ostream& operator<<(std::ostream& os, const DecimalAttributeData
 
 using AttributeVariant = boost::variant<DecimalAttributeData, StringAttributeData, CharAttributeData>;
 
+// codes like G80.5, G81.1 or G91.1 are not variants of G80, G81 or G91 but codes of their own
+inline bool is_code_of_its_own(int code, const DecimalAttributeData& data)
+{
+    return (code == 80 || code == 81 || code == 91) && data.value2 && std::stoi(*data.value2) != 0;
+}
+
 enum class WordType
 {
     misc = 0,
diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ab3b1ff..479f9c7 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -148,11 +148,12 @@ public:
         {
             if (!data.value)
                 return;
-            const auto val = std::stoi(*data.value);
+            const auto val   = std::stoi(*data.value);
+            const auto other = is_code_of_its_own(val, data);
             if (const auto vale = static_cast<EWorkPlane>(val);
                 vale == EWorkPlane::XY || vale == EWorkPlane::XZ || vale == EWorkPlane::YZ)
                 active_g171819 = vale;
-            else if ((val >= 0 && val <= 3) || val == 80 || is_drill_cycle(val) || is_drill_cycle_qparam(val))
+            else if (!other && ((val >= 0 && val <= 3) || val == 80 || is_drill_cycle(val) || is_drill_cycle_qparam(val)))
                 active_g = val;
             else if (const auto vale = static_cast<EFeedMode>(val);
                      vale == EFeedMode::PerMinute || vale == EFeedMode::PerRevolution)
@@ -164,7 +165,7 @@ public:
                      vale == EDrillGreturnMode::G98 || vale == EDrillGreturnMode::G99)
                 active_g_return = vale;
             else if (const auto vale = static_cast<EProgrammingType>(val);
-                     vale == EProgrammingType::Absolute || vale == EProgrammingType::Incremental)
+                     !other && (vale == EProgrammingType::Absolute || vale == EProgrammingType::Incremental))
                 active_g9091 = vale;
             else
             {
diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index f4b6a51..4844cae 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -41,7 +41,11 @@ public:
             if (!data.value || data.macro)
                 return;
             const auto val = std::stoi(*data.value);
-            if ((val >= 0 && val <= 3))
+            if (is_code_of_its_own(val, data))
+            {
+                other_g = std::make_optional(val);
+            }
+            else if ((val >= 0 && val <= 3))
             {
                 active_g = val;
                 if ((val == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
diff --git a/parser/fanuc/RotationVerifier.cpp b/parser/fanuc/RotationVerifier.cpp
index c19604f..fdaf42c 100644
--- a/parser/fanuc/RotationVerifier.cpp
+++ b/parser/fanuc/RotationVerifier.cpp
@@ -48,7 +48,7 @@ void RotationVerifierVisitor::operator()(const DecimalAttributeData& data)
     else if (!cnc_default_values->operator_turns_on_rotation && data.word == "G" && data.value)
     {
         int32_t value = std::stoi(*data.value);
-        if (value == 1 || (value >= 81 && value <= 89))
+        if (value == 1 || (value >= 81 && value <= 89 && !is_code_of_its_own(value, data)))
         {
             G = true;
         }
-- 
2.43.0


From 1c8841e860cc40361bcacf940346f511a7afa6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:22 +0000
Subject: [PATCH 71/85] fix: T1 and T01 are the same tool in the totals of a
 tool

---
 parser/fanuc/AttributesPathCalculator.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index 92b466f..e79bb75 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -84,9 +84,19 @@ private:
     ELanguage                     language;
     PathResult                    path_result{};
     TimeResult                    time_result{};
+    // T1 and T01 are the same tool
+    struct ToolLess
+    {
+        bool operator()(const std::string& lhs, const std::string& rhs) const
+        {
+            return std::stod("0" + lhs) < std::stod("0" + rhs);
+        }
+    };
+    using tool_map = std::map<std::string, double, ToolLess>;
+
     std::map<std::string, double> prev_values;
-    std::map<std::string, double> t_path;
-    std::map<std::string, double> t_time;
+    tool_map                      t_path;
+    tool_map                      t_time;
     word_range_map                word_range;
     std::set<std::string>         gcode_params = {"X", "Y", "Z", "I", "J", "K", "R", "Q", "L", "P", "U"};
     double                        active_f{-1};
-- 
2.43.0


From 70a2d1ea41f4508528ce5ebfa5447e31524a5dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 72/85] fix: M060 and M60 are the same exchange or measurement
 code

---
 parser/fanuc/AttributesPathCalculator.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 479f9c7..41af6c0 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -35,6 +35,16 @@ constexpr bool is_drill_cycle_qparam(int value)
                        [value](EDrillGmode gmode) { return static_cast<int>(gmode) == value; });
 }
 
+// M6 and M06 are the same code
+static bool is_same_number(std::string_view lhs, std::string_view rhs)
+{
+    if (lhs.empty() || rhs.empty())
+        return lhs == rhs;
+    lhs.remove_prefix(std::min(lhs.find_first_not_of('0'), lhs.size() - 1));
+    rhs.remove_prefix(std::min(rhs.find_first_not_of('0'), rhs.size() - 1));
+    return lhs == rhs;
+}
+
 class AttributesPathCalculatorVisitor : public boost::static_visitor<>
 {
 public:
@@ -135,12 +145,13 @@ public:
                 return;
             if (std::stoi(*data.value) == 6)
                 m6 = true;
-            if (data.word == kinematics.pallet_exchange_code && *data.value == kinematics.pallet_exchange_code_value)
+            if (data.word == kinematics.pallet_exchange_code &&
+                is_same_number(*data.value, kinematics.pallet_exchange_code_value))
                 pallet_exchange = true;
             if (!kinematics.auto_measure_after_tool_selection)
             {
                 if (data.word == kinematics.tool_measurement_code &&
-                    *data.value == kinematics.tool_measurement_code_value)
+                    is_same_number(*data.value, kinematics.tool_measurement_code_value))
                     tool_measurement = true;
             }
         }
@@ -180,11 +191,13 @@ public:
 
     void operator()(const StringAttributeData& data)
     {
-        if (data.word == kinematics.pallet_exchange_code && data.value == kinematics.pallet_exchange_code_value)
+        if (data.word == kinematics.pallet_exchange_code &&
+            is_same_number(data.value, kinematics.pallet_exchange_code_value))
             pallet_exchange = true;
         if (!kinematics.auto_measure_after_tool_selection)
         {
-            if (data.word == kinematics.tool_measurement_code && data.value == kinematics.tool_measurement_code_value)
+            if (data.word == kinematics.tool_measurement_code &&
+                is_same_number(data.value, kinematics.tool_measurement_code_value))
                 tool_measurement = true;
         }
     }
-- 
2.43.0


From e10df54d220381dd9a24138e9ae1d03bc9b4cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:58 +0000
Subject: [PATCH 73/85] fix: G95 counts feed per revolution on each machine

---
 parser/fanuc/AttributesPathCalculator.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 41af6c0..1b6ff92 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1419,13 +1419,12 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     // is non negative number to know if it was set
     if (path_result.work_motion != 0.0 && active_f > 0.0)
     {
-        if (lathe_programming &&
-            current_feed_mode == EFeedMode::PerRevolution /*&& current_g_return == EDrillGreturnMode::G99*/)
+        if (current_feed_mode == EFeedMode::PerRevolution /*&& current_g_return == EDrillGreturnMode::G99*/)
         {
             // no feed without revolutions
             if (active_s <= 0.0)
                 time_result.work_motion = 0.0;
-            else if (current_g9697 == EConstantSurfaceSpeedControl::G96)
+            else if (lathe_programming && current_g9697 == EConstantSurfaceSpeedControl::G96)
             {
                 double rpm{};
                 if (units == EDriverUnits::Inch)
@@ -1441,7 +1440,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 time_result.work_motion = 60. * MathUtils::CalcTime(path_result.work_motion, feed_minutes);
             }
         }
-        else // non lathe and lathe feed mode per minute
+        else // feed mode per minute
         {
             time_result.work_motion = 60. * MathUtils::CalcTime(path_result.work_motion, active_f);
         }
@@ -1457,7 +1456,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "Fast Feed"));
 
     if (path_result.work_motion != 0.0 && active_f > 0.0)
-        if (lathe_programming && current_feed_mode == EFeedMode::PerRevolution)
+        if (current_feed_mode == EFeedMode::PerRevolution)
             if (active_s < 0.0)
                 throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
 
-- 
2.43.0


From 510cc30427018a3d0f6c8813f49634cb32e1466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 74/85] fix: a comma stands alone also behind blanks that
 follow a bracket or a comment

---
 parser/fanuc/AllAttributesParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index 213fca9..64388e1 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -267,7 +267,7 @@ public:
     explicit space_empty_attribute_grammar(const word_symbols& symbols)
         : space_empty_attribute_grammar::base_type(space_empty_attribute)
     {
-        space_empty_attribute = symbols >> qi::omit[+qi::blank] >> qi::attr(0);
+        space_empty_attribute = qi::omit[*qi::blank] >> symbols >> qi::omit[+qi::blank] >> qi::attr(0);
         BOOST_SPIRIT_DEBUG_NODE(space_empty_attribute);
     }
 
-- 
2.43.0


From c3cb7a91003db5dca9c058dc75d77c2b261c2352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 75/85] fix: the configuration tool is not started where it is
 not supported

---
 vscode-client/src/extension.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 9a2d51f..6e4f2ee 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -349,6 +349,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
     const disposable = commands.registerCommand("ncproj.ncsettingCreate", () => {
         if (process.platform != "win32") {
             window.showInformationMessage("Function not supported.");
+            return;
         }
         if (cmtConfigRunning) {
             window.showInformationMessage("Configuration window is already running!");
-- 
2.43.0


From 9a6de26b0b0821411e677f2bf22c6a5cb32b1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 76/85] fix: start the configuration tool also from a directory
 with a blank in its name

---
 vscode-client/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 6e4f2ee..8494dd4 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -355,7 +355,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
             window.showInformationMessage("Configuration window is already running!");
         } else {
             const options = { cwd: currentWorkingDirectory };
-            execShell(exeCmtconfigPath, options);
+            execShell('"' + exeCmtconfigPath + '"', options);
         }
     });
 
-- 
2.43.0


From 838bf859f87ba6e4afb0198abab9a27de0e508db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 77/85] fix: selecting the value already set does not hide the
 next configuration change

---
 vscode-client/src/extension.ts | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 8494dd4..3d1ed44 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -177,6 +177,18 @@ function stem(ncsettingFilePath: string) {
 // i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
 let ignoreNextConfigurationChange = false;
 
+// no change is reported when the value is already the one being set, nothing is to be ignored once the update is done
+function stopIgnoringConfigurationChange() {
+    ignoreNextConfigurationChange = false;
+}
+
+function configurationUpdateFailed(error: unknown) {
+    stopIgnoringConfigurationChange();
+    console.log(error);
+    ncprojChannel.appendLine("Unable to save the setting: " + error);
+    ncprojChannel.show(true);
+}
+
 function startListeningConfigurationChanges() {
     workspace.onDidChangeConfiguration((event) => {
         if (ignoreNextConfigurationChange) {
@@ -262,7 +274,9 @@ function askFilePath(
                         }
                         const config = workspace.getConfiguration("ncproj");
                         ignoreNextConfigurationChange = true;
-                        config.update(configProperty, onfulfilled[0].fsPath, configurationTarget);
+                        config
+                            .update(configProperty, onfulfilled[0].fsPath, configurationTarget)
+                            .then(stopIgnoringConfigurationChange, configurationUpdateFailed);
                         askReloadWindow(
                             'Please use the "Reload Window" action for setting ' +
                                 onfulfilled[0].fsPath +
@@ -368,7 +382,9 @@ function registerCmdTogglePathTimeCalculation(context: ExtensionContext) {
         const calculatePathTime = config.get<boolean>("calculate.pathtime.enable");
 
         ignoreNextConfigurationChange = true;
-        config.update("calculate.pathtime.enable", !calculatePathTime, ConfigurationTarget.Global);
+        config
+            .update("calculate.pathtime.enable", !calculatePathTime, ConfigurationTarget.Global)
+            .then(stopIgnoringConfigurationChange, configurationUpdateFailed);
         askReloadWindow('Please use the "Reload Window" action for setting to take effect.');
     });
 
-- 
2.43.0


From ae8d7f30b9542cb25d926341646eb9322c07e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 78/85] fix: the status text drops the extension at the end of
 the file name only

---
 vscode-client/src/extension.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 3d1ed44..1e0619f 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -169,9 +169,7 @@ function setStatusText(ncsettingFilePath: string) {
 
 function stem(ncsettingFilePath: string) {
     const normalized = path.normalize(ncsettingFilePath);
-    const filename = path.basename(normalized);
-    const ext = path.extname(normalized);
-    return filename.replace(ext, "");
+    return path.basename(normalized, path.extname(normalized));
 }
 
 // i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
-- 
2.43.0


From 8ab612e0593a3b66b450a5ec72fe2cdf44bd4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 79/85] fix: a configuration tool which fails leaves no
 unhandled rejection

---
 vscode-client/src/extension.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 1e0619f..20ac6ff 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -367,7 +367,8 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
             window.showInformationMessage("Configuration window is already running!");
         } else {
             const options = { cwd: currentWorkingDirectory };
-            execShell('"' + exeCmtconfigPath + '"', options);
+            // the failure has already been shown in the output channel
+            execShell('"' + exeCmtconfigPath + '"', options).catch(() => undefined);
         }
     });
 
-- 
2.43.0


From a09993acc9eefbb5108e7e13bf0c6904f99867dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 80/85] fix: asking for path and time of a Heidenhain program
 ended the caller

---
 parser/heidenhain/AllAttributesParser.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/heidenhain/AllAttributesParser.h b/parser/heidenhain/AllAttributesParser.h
index 916dd17..5fffb72 100644
--- a/parser/heidenhain/AllAttributesParser.h
+++ b/parser/heidenhain/AllAttributesParser.h
@@ -51,7 +51,7 @@ public:
 
     virtual EDriverUnits get_unit_system() const override
     {
-        throw(0);
+        return EDriverUnits::Millimeter;
     }
 
     // virtual const macro_map& get_macro_values() const override;
@@ -60,13 +60,16 @@ public:
     virtual void reset_attributes_path_calculator() override
     {
     }
+    // path and time are not calculated
     virtual const PathResult& get_path_result() const override
     {
-        throw(0);
+        static const PathResult path_result{};
+        return path_result;
     }
     virtual const TimeResult& get_time_result() const override
     {
-        throw(0);
+        static const TimeResult time_result{};
+        return time_result;
     }
 
     // virtual const word_range_map& get_word_range() const override;
-- 
2.43.0


From 0d8c9eadb8225ab0cc6a4a3bbcebadb0ecbbd75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:16 +0000
Subject: [PATCH 81/85] fix: of several changes in one notification the first
 one was taken, the last is the text

---
 nclangsrv/JsonMessageHandler.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index fc08a16..5e22b16 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -2,6 +2,7 @@
 
 #include "JsonMessageHandler.h"
 
+#include <algorithm>
 #include <chrono>
 #include <filesystem>
 #include <iostream>
@@ -156,9 +157,15 @@ bool validParams(const std::string& method, const rapidjson::Document& request)
     if (method == "textDocument/didOpen")
         return hasString(params["textDocument"], "text");
     if (method == "textDocument/didChange")
-        return params.HasMember("contentChanges") and params["contentChanges"].IsArray() and
-               not params["contentChanges"].Empty() and params["contentChanges"][0].IsObject() and
-               hasString(params["contentChanges"][0], "text");
+    {
+        if (not params.HasMember("contentChanges") or not params["contentChanges"].IsArray())
+            return false;
+        const auto& contentChanges = params["contentChanges"];
+        return not contentChanges.Empty() and
+               std::all_of(contentChanges.Begin(), contentChanges.End(), [](const rapidjson::Value& change) {
+                   return change.IsObject() and hasString(change, "text");
+               });
+    }
     if (method == "textDocument/hover")
         return hasPosition(params, "position");
     return true;
@@ -477,7 +484,8 @@ void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& reque
     const auto& textDocument   = params["textDocument"];
     const auto& contentChanges = params["contentChanges"];
 
-    const auto& text = contentChanges[0]["text"];
+    // each change holds the whole text, the last one is the present text
+    const auto& text = contentChanges[contentChanges.Size() - 1]["text"];
 
     textDocument_publishDiagnostics(textDocument["uri"].GetString(), {text.GetString(), text.GetStringLength()});
 }
-- 
2.43.0


From 35354694c36aef4dd436e4e59d02b1e82d52bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 82/85] fix: a motion rejected for a missing feed or speed was
 counted in the total path

---
 parser/fanuc/AttributesPathCalculator.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 1b6ff92..c2458e2 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1409,6 +1409,17 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
     save_modal_values();
 
+    // a rejected motion is not counted, it does not leave the position either
+    if (path_result.work_motion != 0.0 && active_f < 0.0)
+        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "F"));
+    if (path_result.fast_motion != 0.0 && kinematics.max_fast_feed < 0.0)
+        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "Fast Feed"));
+
+    if (path_result.work_motion != 0.0 && active_f > 0.0)
+        if (current_feed_mode == EFeedMode::PerRevolution)
+            if (active_s < 0.0)
+                throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
+
     path_result.tool_id = active_t;
     path_result.tool_total += path_result.work_motion + path_result.fast_motion;
     path_result.total += path_result.work_motion + path_result.fast_motion;
@@ -1450,16 +1461,6 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     time_result.tool_total += time_result.work_motion + time_result.fast_motion;
     time_result.total += time_result.work_motion + time_result.fast_motion;
 
-    if (path_result.work_motion != 0.0 && active_f < 0.0)
-        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "F"));
-    if (path_result.fast_motion != 0.0 && kinematics.max_fast_feed < 0.0)
-        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "Fast Feed"));
-
-    if (path_result.work_motion != 0.0 && active_f > 0.0)
-        if (current_feed_mode == EFeedMode::PerRevolution)
-            if (active_s < 0.0)
-                throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
-
     if (move_to_tool_exchange_point)
         copy_on_return cr{
             active_g, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
-- 
2.43.0


From 761737448a82caed2b34f1ac40a56554ea788fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 83/85] fix: a request whose method is empty gets an answer

---
 nclangsrv/JsonMessageHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 5e22b16..2d8c2ee 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -395,7 +395,7 @@ bool JsonMessageHandler::parse(const std::string& json)
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": WRN: No handler for method: " << method << std::endl;
         // a response of the client has no method, a notification has no id
-        if (not method.empty() and d.HasMember("id"))
+        if (hasString(d, "method") and d.HasMember("id"))
             error(d, -32601, "Method not found");
     }
 
-- 
2.43.0


From 051dcadc1ca850a73daed2283d98a2bdd4e1e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 84/85] fix: a backslash in front of the closing parenthesis
 does not continue a highlighted comment

---
 syntaxes/ncproj.tmLanguage.json | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/syntaxes/ncproj.tmLanguage.json b/syntaxes/ncproj.tmLanguage.json
index 9fecc33..4024e1a 100644
--- a/syntaxes/ncproj.tmLanguage.json
+++ b/syntaxes/ncproj.tmLanguage.json
@@ -30,13 +30,7 @@
 			"name": "comment.type.comment.ncproj",
 			"comment": "Pattern for comments",
 			"begin": "(\\()|(\\;)",
-			"end": "(\\))|(\n)",
-			"patterns": [
-				{
-					"name": "constant.character.escape.ncproj",
-					"match": "\\\\."
-				}
-			]
+			"end": "(\\))|(\n)"
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 7005526cff82310c31656e91b166f3f27cbbb346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 85/85] fix: the editor's comment command makes comments of the
 controls instead of macro variables

---
 language-configuration.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/language-configuration.json b/language-configuration.json
index 6825a43..681c402 100644
--- a/language-configuration.json
+++ b/language-configuration.json
@@ -1,7 +1,7 @@
 {
     "comments": {
-        // symbol used for single line comment. Remove this entry if your language does not support line comments
-        "lineComment": "#"
+        // symbols used for start and end a comment, # is a macro variable
+        "blockComment": ["(", ")"]
     },
     // symbols used as brackets
     "brackets": [
-- 
2.43.0

