From a3bce6960d07807ad7933947f39a8d0b499286e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 01/30] fix: search must retry from the next position and drop
 state of failed attempts

A failed attempt could leave the cursor and the groups changed, so later
leftmost matches were skipped and groups of failed attempts were reported.
Searching after an empty match found the same match forever, and an empty
match at the end of the input was never found.
---
 src/match_result.hpp | 52 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index fe5e0ba..d4df980 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -54,11 +54,7 @@ namespace e_regex
                 data.actual_iterator_start = query.begin();
                 data.actual_iterator_end = data.actual_iterator_start;
 
-                data = matcher::match(data);
-                if (!data)
-                {
-                    next();
-                }
+                search();
             }
 
             constexpr __attribute__((always_inline)) auto
@@ -176,11 +172,41 @@ namespace e_regex
              */
             constexpr __attribute__((always_inline)) auto next() noexcept
             {
-                data.match_groups = {};
+                if (!data.accepted)
+                {
+                    return false;
+                }
+
+                if (data.actual_iterator_start == data.actual_iterator_end)
+                {
+                    // Empty match, searching from its end would find
+                    // it again
+                    if (data.actual_iterator_end == data.query.end())
+                    {
+                        data.match_groups = {};
+                        data.accepted     = false;
+                        return false;
+                    }
+
+                    ++data.actual_iterator_end;
+                }
+
                 data.actual_iterator_start = data.actual_iterator_end;
 
-                while (data.actual_iterator_start < data.query.end())
+                return search();
+            }
+
+        private:
+            // Find the first match starting from actual_iterator_start
+            constexpr __attribute__((always_inline)) auto search() noexcept
+                -> bool
+            {
+                while (true)
                 {
+                    data.match_groups        = {};
+                    data.actual_iterator_end = data.actual_iterator_start;
+                    data.accepted            = true;
+
                     matcher::match(data);
 
                     if (data.accepted)
@@ -188,11 +214,17 @@ namespace e_regex
                         return true;
                     }
 
-                    data.actual_iterator_start
-                        = ++data.actual_iterator_end;
+                    if (data.actual_iterator_start == data.query.end())
+                    {
+                        break;
+                    }
+
+                    ++data.actual_iterator_start;
                 }
 
-                data.accepted = false;
+                data.match_groups        = {};
+                data.actual_iterator_end = data.actual_iterator_start;
+
                 return false;
             }
     };
-- 
2.43.0


From a1ee1594fe660924d9eb41fc0f95b7839ec3d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 02/30] fix: match_result::size and structured bindings without
 groups must compile

---
 src/match_result.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index d4df980..a7155ca 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -114,7 +114,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto get() const noexcept
             {
                 static_assert(
-                    index <= matcher::groups,
+                    index <= groups_,
                     "Group index is greater than the number of groups.");
 
                 return get_group(index);
@@ -157,7 +157,7 @@ namespace e_regex
 
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
-                return data.matches;
+                return groups_;
             }
 
             static __attribute__((always_inline)) constexpr auto groups() noexcept
@@ -236,7 +236,7 @@ namespace std
     template<typename matcher>
     struct tuple_size<e_regex::match_result<matcher>>
     {
-            static const unsigned value = matcher::groups + 1;
+            static const unsigned value = e_regex::nodes::group_getter<matcher>::value + 1;
     };
 
     template<std::size_t N, typename matcher, typename Char_Type>
-- 
2.43.0


From 03b3fe80d5149a69939a0a4682b54b2965003e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 03/30] fix: multi byte terminals must not read past the end of
 the input

---
 src/terminals/exact_matcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index f9ec4e4..6a41a63 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -35,7 +35,8 @@ namespace e_regex::terminals
                 for (const auto c:
                      pack_string<identifier, identifiers...>::string.to_view())
                 {
-                    if (c != *result.actual_iterator_end)
+                    if (result.actual_iterator_end == result.query.end()
+                        || c != *result.actual_iterator_end)
                     {
                         result.actual_iterator_end = start;
                         result.accepted            = false;
-- 
2.43.0


From a0edd9547395f5d4ab40ebccb7cc8c92ae1b5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 04/30] fix: end anchor must not read past the end of the input

---
 src/terminals/anchors/end.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 4bfe158..b492e3b 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -30,11 +30,15 @@ namespace e_regex::terminals::anchors
                     return result;
                 }
 
-                result
-                    = (result.actual_iterator_end == result.query.end())
-                      || *result.actual_iterator_end == '\n';
+                if (result.actual_iterator_end == result.query.end())
+                {
+                    result.accepted = true;
+                    return result;
+                }
+
+                result = *result.actual_iterator_end == '\n';
 
-                if (*result.actual_iterator_end == '\n')
+                if (result)
                 {
                     result.actual_iterator_end++;
                 }
-- 
2.43.0


From 2b02b07695d7d60231ec0801c542889bb565bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 05/30] fix: negated classes and sets

\D, \W, \S and \N did not compile and did not advance, \s advanced when it
did not match, negated sets kept the advance of what they reject.
---
 src/nodes/negated.hpp              |  5 ++++-
 src/terminals/common.hpp           | 15 +++++++++++++--
 src/terminals/space_characters.hpp |  5 ++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 601a9b9..7bb00fd 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -38,8 +38,11 @@ namespace e_regex::nodes
                     return result;
                 }
 
+                const auto start = result.actual_iterator_end;
+
                 matcher::match(result);
-                result.accepted = !result.accepted;
+                result.accepted            = !result.accepted;
+                result.actual_iterator_end = start;
 
                 if (result)
                 {
diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index 32bc961..1cf2d3f 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -41,6 +41,9 @@ namespace e_regex::terminals
         : public terminal_common<negated_terminal<terminal, admission_set>,
                                  admitted_set_complement_t<admission_set>>
     {
+            static constexpr auto expression
+                = "[^" + terminal::expression + "]";
+
             template<typename... injected_children>
             using optimize = negated_terminal;
 
@@ -48,8 +51,16 @@ namespace e_regex::terminals
             static constexpr __attribute__((always_inline)) auto
                 match_(auto& result) -> auto&
             {
-                result = terminal::match_(std::move(result));
-                result = !result.accepted;
+                const auto start = result.actual_iterator_end;
+
+                terminal::match_(result);
+                result                     = !result.accepted;
+                result.actual_iterator_end = start;
+
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 4ed983e..7b8ffbb 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -29,7 +29,10 @@ namespace e_regex::terminals
                                    *result.actual_iterator_end)
                          != matched.end();
 
-                result.actual_iterator_end++;
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From 28c566e7bfc44559ab23249294e10d524c5fc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 06/30] fix: hex escapes with letters

Letters were decoded as digits, the characters between 9 and A were accepted
and lowercase letters were not.
---
 src/operators/hex.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/operators/hex.hpp b/src/operators/hex.hpp
index 94eeee2..8af9745 100644
--- a/src/operators/hex.hpp
+++ b/src/operators/hex.hpp
@@ -8,7 +8,18 @@
 namespace e_regex
 {
     template<char C>
-    concept hex = C >= '0' && C <= 'F';
+    concept hex = (C >= '0' && C <= '9') || (C >= 'A' && C <= 'F')
+                  || (C >= 'a' && C <= 'f');
+
+    consteval auto hex_nibble(char c) -> int
+    {
+        if (c <= '9')
+        {
+            return c - '0';
+        }
+
+        return c <= 'F' ? c - 'A' + 10 : c - 'a' + 10;
+    }
 
     template<char... digits>
     struct hex_to_bin;
@@ -20,7 +31,8 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << 4) | (second - '0');
+                = static_cast<char>((hex_nibble(first) << 4)
+                                    | hex_nibble(second));
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
@@ -34,8 +46,8 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << (4)) | (second - '0');
-            static constexpr char current_second = (third - '0') << 4;
+                = static_cast<char>((hex_nibble(first) << 4)
+                                    | hex_nibble(second));
 
             using result = pack_string<current>;
     };
@@ -46,7 +58,7 @@ namespace e_regex
             static_assert(hex<first>,
                           "Hex characters must be included between 0 and F");
 
-            static constexpr char current = first - '0';
+            static constexpr char current = hex_nibble(first);
 
             using result = pack_string<current>;
     };
-- 
2.43.0


From 0581774c119d3990a43ba23075e35c3eb8f5904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 07/30] fix: octal escapes

8 is not an octal digit, values over \177 did not compile and the documented
\oNNN form was not recognised.
---
 src/operators/octal.hpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index 7cc26e0..dfa5774 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -7,7 +7,7 @@
 namespace e_regex
 {
     template<char C>
-    concept octal = C >= '0' && C <= '8';
+    concept octal = C >= '0' && C <= '7';
 
     template<char... digits>
     struct octal_to_bin;
@@ -16,11 +16,12 @@ namespace e_regex
     struct octal_to_bin<first, second, third, tail...>
     {
             static_assert(octal<first> && octal<second> && octal<third>,
-                          "Octal characters must be included between 0 and 8");
+                          "Octal characters must be included between 0 and 7");
 
-            static constexpr char current = ((first - '0') << 6)
-                                            | ((second - '0') << 3)
-                                            | (third - '0');
+            static constexpr char current
+                = static_cast<char>(((first - '0') << 6)
+                                    | ((second - '0') << 3)
+                                    | (third - '0'));
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
@@ -67,6 +68,32 @@ namespace e_regex
             using tree = add_child_t<last_node, new_node>;
     };
 
+    template<typename last_node,
+             char first_nibble,
+             char second_nibble,
+             char third_nibble,
+             typename... tail,
+             auto group_index>
+        requires octal<first_nibble> && octal<second_nibble>
+                 && octal<third_nibble>
+    struct tree_builder_helper<last_node,
+                               std::tuple<pack_string<'\\', 'o'>,
+                                          pack_string<first_nibble>,
+                                          pack_string<second_nibble>,
+                                          pack_string<third_nibble>,
+                                          tail...>,
+                               group_index>
+    {
+            using value =
+                typename octal_to_bin<first_nibble, second_nibble, third_nibble>::result;
+
+            using new_node = typename tree_builder_helper<
+                nodes::simple<terminals::exact_matcher<value>>,
+                std::tuple<tail...>,
+                group_index>::tree;
+            using tree = add_child_t<last_node, new_node>;
+    };
+
     template<typename last_node, typename... tail, auto group_index>
     struct tree_builder_helper<
         last_node,
-- 
2.43.0


From b2b5c2dfba9a5a2062173cc8d1eb66dd958eb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 08/30] fix: ranges of one character must compile

---
 src/utilities/admitted_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index 4d4353b..7fe0958 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -27,7 +27,7 @@ namespace e_regex
              Char start,
              Char end,
              typename seq = std::make_integer_sequence<unsigned, 1 + end - start>>
-        requires(end > start)
+        requires(end >= start)
     struct admitted_set_range;
 
     template<typename Char, Char start, Char end, auto... seq>
-- 
2.43.0


From 218ac0b01bbb607e49d12f6422066cc178d5a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 09/30] fix: capturing groups must be numbered uniquely

Groups after a set, an anonymous group or a group with nested groups, and the
groups of alternatives, were given indices already in use.
---
 src/nodes/group.hpp               | 5 ++++-
 src/operators/round_brackets.hpp  | 6 ++++--
 src/operators/square_brackets.hpp | 7 ++-----
 src/tree_builder/tree_builder.hpp | 3 ++-
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5fc7019..3d6ab55 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -25,7 +25,10 @@ namespace e_regex::nodes
                 .minimum_match_size = matcher::meta.minimum_match_size,
                 .maximum_match_size = matcher::meta.maximum_match_size};
 
-            static constexpr auto next_group_index = group_index + 1;
+            static constexpr auto next_group_index
+                = max(group_index + 1,
+                      group_index_getter<matcher>::value,
+                      group_index_getter<children>::value...);
 
             template<typename... injected_children>
             using optimize
diff --git a/src/operators/round_brackets.hpp b/src/operators/round_brackets.hpp
index 2d755f6..a35e280 100644
--- a/src/operators/round_brackets.hpp
+++ b/src/operators/round_brackets.hpp
@@ -21,7 +21,8 @@ namespace e_regex
             using tree =
                 typename branched<std::tuple<parsed..., subtree>,
                                   std::tuple<subregexes...>,
-                                  group_index>::tree;
+                                  max(group_index,
+                                      subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
@@ -70,7 +71,8 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             max(group_index,
+                                                 subregex::next_group_index)>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/operators/square_brackets.hpp b/src/operators/square_brackets.hpp
index 4b9618e..6a7f627 100644
--- a/src/operators/square_brackets.hpp
+++ b/src/operators/square_brackets.hpp
@@ -107,7 +107,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -127,13 +127,10 @@ namespace e_regex
                 typename substring::result,
                 group_index>::tree;
 
-            // if subregex_group_index is 0 the subregex does not
-            // contain any group
-
             using new_node = typename tree_builder_helper<
                 nodes::simple<nodes::negated_node<subregex>>,
                 typename substring::remaining,
-                subregex::next_group_index>::tree;
+                group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/tree_builder/tree_builder.hpp b/src/tree_builder/tree_builder.hpp
index f327789..b2ccde0 100644
--- a/src/tree_builder/tree_builder.hpp
+++ b/src/tree_builder/tree_builder.hpp
@@ -22,7 +22,8 @@ namespace e_regex
             using tree =
                 typename tree_builder_branches<std::tuple<parsed..., subtree>,
                                                std::tuple<subregexes...>,
-                                               subtree::next_group_index>::tree;
+                                               max(group_index,
+                                                   subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
-- 
2.43.0


From 56836a3c17cece08f92c5abc9578dc9f32196d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 10/30] fix: alternatives must start from the state before the
 failed ones

---
 src/nodes/common.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 48ad323..0765c8b 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -123,14 +123,22 @@ namespace e_regex::nodes
             }
             else
             {
+                const auto end    = match_result.actual_iterator_end;
+                const auto groups = match_result.match_groups;
+
                 if (invoker::template match<typename _children::type>(
                         match_result))
                 {
                     return match_result;
                 }
 
-                match_result.accepted = true;
-                return dfs<typename _children::remaining>(match_result);
+                // Discard what the failed branch left
+                match_result.actual_iterator_end = end;
+                match_result.match_groups        = groups;
+                match_result.accepted            = true;
+
+                return dfs<typename _children::remaining, injected_children>(
+                    match_result);
             }
         }
     }
-- 
2.43.0


From e47dd55efa6a7c27b2523005dc8f07a941971daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 11/30] fix: the admission set of alternatives must include
 every branch

Only the first branch was considered, so quantifiers before or around
alternatives and sets were made possessive when they must backtrack.
---
 src/nodes/basic.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index d299d6c..5dffb8f 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -88,16 +88,12 @@ namespace e_regex::nodes
     template<typename... children>
     struct simple<void, children...> : public base<void, children...>
     {
-            using child
-                = std::tuple_element_t<0, std::tuple<children...>>;
-
             static constexpr auto expression
                 = get_children_expression<children...>();
 
-            using admission_set = std::conditional_t<
-                child::meta.minimum_match_size == 0,
-                typename extract_admission_set<children...>::type,
-                typename extract_admission_set<child>::type>;
+            // Any branch can be the matching one
+            using admission_set =
+                typename extract_admission_set<children...>::type;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
-- 
2.43.0


From 33a58c235b98c67aaec9f8b6fb9097bba3404dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 12/30] fix: admission sets must cover the characters over 0x7F

The any character matcher and complements did not admit them, so quantifiers
in front of such characters were made possessive.
---
 src/terminals/any.hpp          | 2 +-
 src/utilities/admitted_set.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/terminals/any.hpp b/src/terminals/any.hpp
index a3eec05..592eac8 100644
--- a/src/terminals/any.hpp
+++ b/src/terminals/any.hpp
@@ -9,7 +9,7 @@ namespace e_regex::terminals
     template<>
     struct terminal<pack_string<'.'>>
         : public terminal_common<terminal<pack_string<'.'>>,
-                                 admitted_set_range_t<char, '\0', '\x7F'>>
+                                 admitted_set_complement_t<admitted_set<char, '\n'>>>
     {
             static constexpr auto expression = static_string {"."};
 
diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index 7fe0958..055bc96 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -34,7 +34,7 @@ namespace e_regex
     struct admitted_set_range<Char, start, end, std::integer_sequence<unsigned, seq...>>
     {
             using type
-                = admitted_set<Char, (static_cast<Char>(seq) + start)...>;
+                = admitted_set<Char, static_cast<Char>(static_cast<int>(seq) + start)...>;
     };
 
     template<typename Char, Char start, Char end>
@@ -194,7 +194,9 @@ namespace e_regex
     template<typename set, typename Char = typename set::Char_t>
     using admitted_set_complement_t = admitted_sets_difference_t<
         set,
-        admitted_set_range_t<Char, 0, std::numeric_limits<Char>::max()>>;
+        admitted_set_range_t<Char,
+                             std::numeric_limits<Char>::min(),
+                             std::numeric_limits<Char>::max()>>;
 
     // Intersection of two sets
     template<typename set1,
-- 
2.43.0


From f147d2615ec6d55928f2ae83e1bcabc8041e695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 13/30] fix: admission sets of nullable nodes, end anchors and
 byte sequences

What follows a node that can match nothing can also be its first character,
an end anchor consumes a new line, and only the first byte of a byte sequence
is admitted.
---
 src/nodes/greedy.hpp            | 5 +++--
 src/nodes/group.hpp             | 8 ++++++--
 src/nodes/lazy.hpp              | 5 +++--
 src/nodes/possessive.hpp        | 5 +++--
 src/nodes/repeated.hpp          | 8 ++++++--
 src/terminals/anchors/end.hpp   | 3 +--
 src/terminals/exact_matcher.hpp | 4 ++--
 7 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3dcb5f3..b98dbd4 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -26,10 +26,11 @@ namespace e_regex::nodes
             using self_admission_set =
                 typename decltype(matcher::meta)::admission_set;
 
-            // If matcher is optional (aka repetitions_min==0),
+            // If matcher is optional (aka repetitions_min==0) or can be
+            // empty,
             // admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 self_admission_set>;
 
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 3d6ab55..cfcf20d 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -17,8 +17,12 @@ namespace e_regex::nodes
                 = '(' + matcher::expression + ')'
                   + get_children_expression<children...>();
 
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            // If matcher can be empty, admission set must include
+            // children too
+            using admission_set = std::conditional_t<
+                matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa309a2..aa31204 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -17,10 +17,11 @@ namespace e_regex::nodes
              typename... children>
     struct lazy : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
+            // If matcher is optional (aka repetitions_min==0) or can be
+            // empty,
             // admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index a625909..01e39fd 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -16,10 +16,11 @@ namespace e_regex::nodes
              typename... children>
     struct possessive : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
+            // If matcher is optional (aka repetitions_min==0) or can be
+            // empty,
             // admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                repetitions_min == 0 || matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 2ee9821..b7a6cc8 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -12,8 +12,12 @@ namespace e_regex::nodes
     template<typename matcher, unsigned repetitions, typename... children>
     struct repeated : public base<matcher, children...>
     {
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            // If matcher can be empty, admission set must include
+            // children too
+            using admission_set = std::conditional_t<
+                repetitions == 0 || matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index b492e3b..f7dc5a4 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -10,8 +10,7 @@ namespace e_regex::terminals::anchors
     {
             static constexpr auto expression = static_string {"$"};
 
-            static constexpr auto meta = e_regex::meta<
-                admitted_set_complement_t<admitted_set<char, '\n'>>> {
+            static constexpr auto meta = e_regex::meta<admitted_set<char, '\n'>> {
                 .policy_            = e_regex::policy::NONE,
                 .minimum_match_size = 0,
                 .maximum_match_size = 1,
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index 6a41a63..e030391 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -14,13 +14,13 @@ namespace e_regex::terminals
     struct exact_matcher<pack_string<identifier, identifiers...>>
         : public terminal_common<
               exact_matcher<pack_string<identifier, identifiers...>>,
-              admitted_set<char, identifier, identifiers...>>
+              admitted_set<char, identifier>>
     {
             static constexpr auto expression
                 = pack_string<identifier, identifiers...>::string;
 
             static constexpr auto meta
-                = e_regex::meta<admitted_set<char, identifier, identifiers...>> {
+                = e_regex::meta<admitted_set<char, identifier>> {
                     .policy_            = e_regex::policy::EXACT,
                     .minimum_match_size = sizeof...(identifiers) + 1,
                     .maximum_match_size = sizeof...(identifiers) + 1,
-- 
2.43.0


From 783f01b4fac8549e03b1b665a84ffb751844a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 14/30] fix: match size bounds must saturate, and cover every
 branch

---
 src/nodes/basic.hpp      | 10 +++++-----
 src/nodes/greedy.hpp     | 12 ++++++++----
 src/nodes/group.hpp      |  8 ++++++--
 src/nodes/lazy.hpp       | 12 ++++++++----
 src/nodes/possessive.hpp | 12 ++++++++----
 src/nodes/repeated.hpp   | 10 ++++++++--
 src/utilities/math.hpp   | 16 ++++++++++++++++
 7 files changed, 59 insertions(+), 21 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 5dffb8f..003667f 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -52,11 +52,11 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size
-                  + max(children::meta.minimum_match_size...),
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...)),
             };
 
             template<typename... injected_children>
@@ -128,7 +128,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_            = policy::NONE,
                 .minimum_match_size = child::meta.minimum_match_size,
-                .maximum_match_size = child::meta.minimum_match_size,
+                .maximum_match_size = child::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index b98dbd4..b316e6f 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -37,13 +37,17 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::GREEDY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size,
+                                   repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                            multiply_sizes(matcher::meta.maximum_match_size,
+                                           repetitions_max),
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr unsigned groups
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index cfcf20d..2565414 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -26,8 +26,12 @@ namespace e_regex::nodes
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-                .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.maximum_match_size};
+                .minimum_match_size
+                = add_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
+                .maximum_match_size
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...))};
 
             static constexpr auto next_group_index
                 = max(group_index + 1,
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa31204..4084e0d 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -28,13 +28,17 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size,
+                                   repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                            multiply_sizes(matcher::meta.maximum_match_size,
+                                           repetitions_max),
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 01e39fd..8f2dda8 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -27,13 +27,17 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::POSSESSIVE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size,
+                                   repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                            multiply_sizes(matcher::meta.maximum_match_size,
+                                           repetitions_max),
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index b7a6cc8..b228940 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -22,9 +22,15 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions,
+                = add_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size,
+                                   repetitions),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size * repetitions,
+                = add_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size,
+                                   repetitions),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/utilities/math.hpp b/src/utilities/math.hpp
index 1b9eab7..033f9de 100644
--- a/src/utilities/math.hpp
+++ b/src/utilities/math.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_UTILITIES_MATH_HPP_
 
 #include <algorithm>
+#include <limits>
 
 namespace e_regex
 {
@@ -15,6 +16,21 @@ namespace e_regex
         return (n + ...);
     }
 
+    // Sizes saturate: the maximum value means unbounded
+    consteval auto add_sizes(unsigned n1, unsigned n2) -> unsigned
+    {
+        constexpr auto limit = std::numeric_limits<unsigned>::max();
+
+        return n1 > limit - n2 ? limit : n1 + n2;
+    }
+
+    consteval auto multiply_sizes(unsigned n1, unsigned n2) -> unsigned
+    {
+        constexpr auto limit = std::numeric_limits<unsigned>::max();
+
+        return n1 != 0 && n2 > limit / n1 ? limit : n1 * n2;
+    }
+
     consteval auto min()
     {
         return 0;
-- 
2.43.0


From 07af2169fb4e288537ac0a901240a0059d7e10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 15/30] fix: quantifiers must see what really follows their
 node

---
 src/nodes/basic.hpp      | 14 +++++++++-----
 src/nodes/common.hpp     |  6 ++++++
 src/nodes/greedy.hpp     | 13 ++++++++-----
 src/nodes/group.hpp      | 12 +++++++-----
 src/nodes/lazy.hpp       | 13 ++++++++-----
 src/nodes/possessive.hpp |  7 ++++---
 src/nodes/repeated.hpp   |  5 +++--
 7 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 003667f..7a53725 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -61,16 +61,19 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<typename matcher::template optimize<injected_children...>,
-                         typename children::template optimize<>...>;
+                = simple<typename matcher::template optimize<children..., injected_children...>,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
+                using followers = followers_t<std::tuple<children...>,
+                                              std::tuple<injected_children...>>;
+
                 auto begin = res.actual_iterator_end;
 
-                matcher::match(res);
+                invoke_match<followers>::template match<matcher>(res);
 
                 if (res)
                 {
@@ -105,7 +108,8 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<void, typename children::template optimize<>...>;
+                = simple<void,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -165,7 +169,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return matcher::match(res);
+                return matcher::template match<injected_children...>(res);
             }
     };
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 0765c8b..7e2292b 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -91,6 +91,12 @@ namespace e_regex::nodes
             }
     };
 
+    // What has to be matched right after a node's matcher: its children
+    // or, when it has none, what follows the node itself
+    template<typename children, typename injected_children>
+    using followers_t
+        = std::conditional_t<std::tuple_size_v<children> == 0, injected_children, children>;
+
     template<typename nodes,
              typename terminals = std::tuple<>,
              typename others    = std::tuple<>>
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index b316e6f..06e584c 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -116,11 +116,11 @@ namespace e_regex::nodes
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
+                           typename children::template optimize<injected_children...>...>,
                 greedy<typename matcher::template optimize<>,
                        repetitions_min,
                        repetitions_max,
-                       typename children::template optimize<>...>>;
+                       typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr auto __attribute__((always_inline))
@@ -128,7 +128,8 @@ namespace e_regex::nodes
             {
                 if constexpr (sizeof...(children) > 0)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
                 }
                 else
                 {
@@ -147,7 +148,8 @@ namespace e_regex::nodes
             {
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
                 }
                 else if constexpr (repetitions_min == 0
                                    && repetitions_max == 1
@@ -227,7 +229,8 @@ namespace e_regex::nodes
 
                     if (result)
                     {
-                        return dfs<std::tuple<children...>>(result);
+                        return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
                     }
 
                     result.actual_iterator_end = begin;
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 2565414..ca6c6a5 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -42,7 +42,7 @@ namespace e_regex::nodes
             using optimize
                 = group<typename matcher::template optimize<children..., injected_children...>,
                         group_index,
-                        typename children::template optimize<>...>;
+                        typename children::template optimize<injected_children...>...>;
 
             static constexpr unsigned groups
                 = group_getter<matcher>::value
@@ -54,8 +54,11 @@ namespace e_regex::nodes
             {
                 auto begin = result.actual_iterator_end;
 
-                // This node's children matter in backtracking
-                matcher::template match<children...>(result);
+                // What follows this node matters in backtracking
+                using followers = followers_t<std::tuple<children...>,
+                                              std::tuple<injected_children...>>;
+
+                invoke_match<followers>::template match<matcher>(result);
 
                 if (result)
                 {
@@ -64,8 +67,7 @@ namespace e_regex::nodes
                             begin, result.actual_iterator_end};
 
                     return dfs<std::tuple<children...>,
-                               std::tuple<children..., injected_children...>>(
-                        result);
+                               std::tuple<injected_children...>>(result);
                 }
 
                 return result;
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 4084e0d..2959301 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -103,11 +103,11 @@ namespace e_regex::nodes
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
+                           typename children::template optimize<injected_children...>...>,
                 lazy<typename matcher::template optimize<>,
                      repetitions_min,
                      repetitions_max,
-                     typename children::template optimize<>...>>;
+                     typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -117,7 +117,8 @@ namespace e_regex::nodes
 
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
                 }
                 else
                 {
@@ -139,7 +140,8 @@ namespace e_regex::nodes
                     {
                         if constexpr (sizeof...(children) > 0)
                         {
-                            dfs<std::tuple<children...>>(result);
+                            dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
 
                             if (result)
                             {
@@ -170,7 +172,8 @@ namespace e_regex::nodes
                         }
                     }
 
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
                 }
             }
     };
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 8f2dda8..60b42fa 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -97,7 +97,7 @@ namespace e_regex::nodes
                 = possessive<typename matcher::template optimize<>,
                              repetitions_min,
                              repetitions_max,
-                             typename children::template optimize<>...>;
+                             typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -107,7 +107,7 @@ namespace e_regex::nodes
 
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
-                    matcher::template match<injected_children...>(result);
+                    matcher::match(result);
 
                     if (!result)
                     {
@@ -127,7 +127,8 @@ namespace e_regex::nodes
 		  end = result.actual_iterator_end;
                 }
 
-                return dfs<std::tuple<children...>>(result);
+                return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(result);
             }
     };
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index b228940..bf4b6bf 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -54,7 +54,7 @@ namespace e_regex::nodes
             using optimize
                 = repeated<typename matcher::template optimize<>,
                            repetitions,
-                           typename children::template optimize<>...>;
+                           typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -68,7 +68,8 @@ namespace e_regex::nodes
                     }
                 }
 
-                return dfs<std::tuple<children...>>(res);
+                return dfs<std::tuple<children...>,
+                           std::tuple<injected_children...>>(res);
             }
     };
 } // namespace e_regex::nodes
-- 
2.43.0


From 5c974b4f2d90790dc59743e01ddbd508c697c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 16/30] fix: greedy nodes must drop whole repetitions, restore
 failed ones and stop at empty ones

---
 src/nodes/greedy.hpp | 85 +++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 06e584c..de78592 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -129,14 +129,17 @@ namespace e_regex::nodes
                 if constexpr (sizeof...(children) > 0)
                 {
                     return dfs<std::tuple<children...>,
-                           std::tuple<injected_children...>>(result);
+                               std::tuple<injected_children...>>(result);
                 }
                 else
                 {
-                    auto bak = result.actual_iterator_end;
+                    // Only a lookahead
+                    const auto end    = result.actual_iterator_end;
+                    const auto groups = result.match_groups;
 
                     dfs<std::tuple<injected_children...>>(result);
-                    result.actual_iterator_end = bak;
+                    result.actual_iterator_end = end;
+                    result.match_groups        = groups;
 
                     return result;
                 }
@@ -149,26 +152,7 @@ namespace e_regex::nodes
                 if constexpr (std::is_same_v<matcher, void>)
                 {
                     return dfs<std::tuple<children...>,
-                           std::tuple<injected_children...>>(result);
-                }
-                else if constexpr (repetitions_min == 0
-                                   && repetitions_max == 1
-                                   && matcher::meta.minimum_match_size
-                                          == matcher::meta.maximum_match_size)
-                {
-                    // Optional node with a terminal matcher
-                    matcher::match(result);
-
-                    if (!backtrack<injected_children...>(result)
-                        && result.actual_iterator_end
-                               > result.actual_iterator_start)
-                    {
-                        result.actual_iterator_end
-                            -= matcher::meta.minimum_match_size;
-                        backtrack<injected_children...>(result);
-                    }
-
-                    return result;
+                               std::tuple<injected_children...>>(result);
                 }
                 else
                 {
@@ -187,50 +171,69 @@ namespace e_regex::nodes
 
                     // Iterate while this matcher accepts
                     auto       repetitions = repetitions_min;
-                    const auto start = result.actual_iterator_end;
+                    const auto start       = result.actual_iterator_end;
+                    const auto start_groups = result.match_groups;
 
                     while (repetitions < repetitions_max)
                     {
+                        const auto end    = result.actual_iterator_end;
+                        const auto groups = result.match_groups;
+
                         if (!matcher::match(result))
                         {
                             // Restore last good match
+                            result.actual_iterator_end = end;
+                            result.match_groups        = groups;
+
                             result = true;
                             break;
                         }
 
                         repetitions++;
+
+                        if (result.actual_iterator_end == end)
+                        {
+                            // Empty match, it would be repeated forever
+                            break;
+                        }
                     }
 
                     // Now backtrack
-                    while (repetitions > repetitions_min)
+                    while (true)
                     {
+                        const auto end = result.actual_iterator_end;
+
                         if (backtrack<injected_children...>(result))
                         {
                             return result;
                         }
 
-                        for (auto iter = result.actual_iterator_end - 1;
-                             iter >= start;
-                             --iter)
+                        if (repetitions == repetitions_min)
                         {
-                            result.actual_iterator_end = iter;
-
-                            if (matcher::match(result))
-                            {
-                                result.actual_iterator_end = iter;
-                                break;
-                            }
+                            break;
                         }
 
+                        // Drop the last repetition
                         --repetitions;
-                    }
+                        result              = true;
+                        result.match_groups = start_groups;
 
-                    result = repetitions >= repetitions_min;
+                        if constexpr (group_getter<matcher>::value == 0
+                                      && matcher::meta.minimum_match_size
+                                             == matcher::meta.maximum_match_size)
+                        {
+                            result.actual_iterator_end
+                                = end - matcher::meta.minimum_match_size;
+                        }
+                        else
+                        {
+                            result.actual_iterator_end = start;
 
-                    if (result)
-                    {
-                        return dfs<std::tuple<children...>,
-                           std::tuple<injected_children...>>(result);
+                            for (auto i = repetitions_min; i < repetitions; ++i)
+                            {
+                                matcher::match(result);
+                            }
+                        }
                     }
 
                     result.actual_iterator_end = begin;
-- 
2.43.0


From 037734dda4f71b19ec21c81f488f2623ee6f1937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 17/30] fix: possessive nodes must restore failed repetitions
 and stop at empty ones

---
 src/nodes/possessive.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 60b42fa..72d2328 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -103,10 +103,11 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-	      auto end = result.actual_iterator_end;
-
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
+                    const auto end    = result.actual_iterator_end;
+                    const auto groups = result.match_groups;
+
                     matcher::match(result);
 
                     if (!result)
@@ -119,12 +120,18 @@ namespace e_regex::nodes
 
                         // Failed but repetitions_min was satisfied,
                         // run dfs
-                        result.accepted = true;
-			result.actual_iterator_end = end;
+                        result.accepted            = true;
+                        result.actual_iterator_end = end;
+                        result.match_groups        = groups;
                         break;
                     }
 
-		  end = result.actual_iterator_end;
+                    if (i >= repetitions_min
+                        && result.actual_iterator_end == end)
+                    {
+                        // Empty match, it would be repeated forever
+                        break;
+                    }
                 }
 
                 return dfs<std::tuple<children...>,
-- 
2.43.0


From b1499db459992d3e35545429b58d6b27400522b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 18/30] fix: lazy nodes must try what follows before and after
 every repetition

---
 src/nodes/lazy.hpp | 49 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 2959301..9f4351d 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -94,12 +94,14 @@ namespace e_regex::nodes
             }();
 
             // If this node has no intersections with its children,
-            // backtracking is not needed
+            // backtracking is not needed, unless nothing has to follow
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                admitted_sets_intersection_t<
-                    admission_set,
-                    typename extract_admission_set<children..., injected_children...>::type>::empty,
+                (min(children::meta.minimum_match_size...) != 0
+                 || min(injected_children::meta.minimum_match_size...) != 0)
+                    && admitted_sets_intersection_t<
+                        admission_set,
+                        typename extract_admission_set<children..., injected_children...>::type>::empty,
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
@@ -135,13 +137,15 @@ namespace e_regex::nodes
 
                     unsigned matches = repetitions_min;
 
-                    while (result.actual_iterator_end < result.query.end()
-                           && matches < repetitions_max)
+                    while (true)
                     {
+                        const auto end    = result.actual_iterator_end;
+                        const auto groups = result.match_groups;
+
                         if constexpr (sizeof...(children) > 0)
                         {
                             dfs<std::tuple<children...>,
-                           std::tuple<injected_children...>>(result);
+                                std::tuple<injected_children...>>(result);
 
                             if (result)
                             {
@@ -150,30 +154,33 @@ namespace e_regex::nodes
                         }
                         else
                         {
-                            auto bak = result.actual_iterator_end;
+                            // Only a lookahead
                             dfs<std::tuple<injected_children...>>(result);
-                            result.actual_iterator_end = bak;
                         }
 
-                        if (!result)
+                        result.actual_iterator_end = end;
+                        result.match_groups        = groups;
+
+                        if (result)
+                        {
+                            return result;
+                        }
+
+                        if (matches < repetitions_max)
                         {
+                            result = true;
                             matcher::match(result);
                             matches++;
-
-                            if (!result)
-                            {
-                                result.actual_iterator_end = start;
-                                return result;
-                            }
                         }
-                        else
+
+                        // Exhausted, failed or empty repetitions
+                        if (!result || result.actual_iterator_end == end)
                         {
-                            break;
+                            result.accepted            = false;
+                            result.actual_iterator_end = start;
+                            return result;
                         }
                     }
-
-                    return dfs<std::tuple<children...>,
-                           std::tuple<injected_children...>>(result);
                 }
             }
     };
-- 
2.43.0


From 951f2986384516d9f247dc59bccbe0c2a8f33c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 19/30] fix: tokenizers must anchor every branch of their
 matchers

---
 src/tokenization/iterator.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index fb16900..577c38d 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -40,7 +40,7 @@ namespace e_regex::tokenization
                         token.type,
                         // Adding ^ to alway match the beginning of
                         // current
-                        e_regex::regex<static_string {"^"} + token.matcher> {}}),
+                        e_regex::regex<static_string {"^(?:"} + token.matcher + ")"> {}}),
                     rec::tokens);
                 static constexpr auto separators = rec::separators;
         };
@@ -53,7 +53,7 @@ namespace e_regex::tokenization
                 static constexpr auto tokens     = rec::tokens;
                 static constexpr auto separators = std::tuple_cat(
                     std::make_tuple(
-                        e_regex::regex<static_string {"^"} + token.matcher> {}),
+                        e_regex::regex<static_string {"^(?:"} + token.matcher + ")"> {}),
                     rec::separators);
         };
 
@@ -98,11 +98,23 @@ namespace e_regex::tokenization
             token_t               last_match;
             bool                  valid = true;
 
+            // Matches not starting from the beginning of current (e.g.
+            // from a following line) are not interesting
+            [[nodiscard]] constexpr auto match_head(auto regex) const
+                -> literal_string_view<>
+            {
+                literal_string_view<> match = regex(current).to_view();
+
+                return match.begin() == current.begin()
+                           ? match
+                           : literal_string_view<> {};
+            }
+
             [[nodiscard]] constexpr auto match_separator() -> bool
             {
                 auto matches = std::apply(
                     [this](auto... regex) {
-                        return std::array {regex(current).to_view()...};
+                        return std::array {match_head(regex)...};
                     },
                     data::separators);
 
@@ -129,7 +141,7 @@ namespace e_regex::tokenization
                 auto matches = std::apply(
                     [this](auto... token) {
                         return std::array {token_t {
-                            .value = token.matcher(current).to_view(),
+                            .value = match_head(token.matcher),
                             .type  = token.type}...};
                     },
                     data::tokens);
-- 
2.43.0


From 63f2e1ff2ebaea0cd57603e94c73affd7ab6c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 20/30] fix: start anchor must match the start of lines and of
 empty inputs

---
 src/terminals/anchors/start.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index e58799b..a82bd97 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -24,14 +24,9 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if (result.actual_iterator_end >= result.query.end())
-                {
-                    result.accepted = false;
-                    return result;
-                }
-
-                result = (result.actual_iterator_end
-                          == result.query.begin());
+                // Start of input or start of line
+                result = result.actual_iterator_end == result.query.begin()
+                         || *(result.actual_iterator_end - 1) == '\n';
 
                 return result;
             }
-- 
2.43.0


From 95b2aaf9986da1e3d0d9dd033cdcec02f3345bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 21/30] fix: tokenizers must work without separators and on
 empty constexpr inputs

---
 src/tokenization/iterator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index 577c38d..4b299b9 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -95,7 +95,7 @@ namespace e_regex::tokenization
         private:
             literal_string_view<> current;
             literal_string_view<> original_input;
-            token_t               last_match;
+            token_t               last_match {};
             bool                  valid = true;
 
             // Matches not starting from the beginning of current (e.g.
@@ -112,9 +112,15 @@ namespace e_regex::tokenization
 
             [[nodiscard]] constexpr auto match_separator() -> bool
             {
+                if constexpr (std::tuple_size_v<decltype(data::separators)> == 0)
+                {
+                    return false;
+                }
+
                 auto matches = std::apply(
                     [this](auto... regex) {
-                        return std::array {match_head(regex)...};
+                        return std::array<literal_string_view<>, sizeof...(regex)> {
+                            match_head(regex)...};
                     },
                     data::separators);
 
-- 
2.43.0


From fa55847fbcebb6239971abe8ff6bf6516d4606f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 22/30] fix: number 0 must have a digit in rebuilt expressions

---
 src/utilities/number_to_pack_string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utilities/number_to_pack_string.hpp b/src/utilities/number_to_pack_string.hpp
index 4c964b6..7a3581a 100644
--- a/src/utilities/number_to_pack_string.hpp
+++ b/src/utilities/number_to_pack_string.hpp
@@ -35,8 +35,9 @@ namespace e_regex
                                                pack_string<(current_unit + '0'), current...>>::type;
     };
 
-    template<>
-    struct number_to_pack_string<0, pack_string<>>
+    template<auto number>
+        requires(!nonzero(number))
+    struct number_to_pack_string<number, pack_string<>>
     {
             using type = pack_string<'0'>;
     };
-- 
2.43.0


From a717e6e61a34868c1d87ae960a177278c2827758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 23/30] fix: rebuilt expressions must keep groups, branches,
 sets and escapes

---
 src/nodes/basic.hpp                | 16 +++++-
 src/nodes/get_expression.hpp       | 88 +++++++++++++++++++++++++++++-
 src/nodes/greedy.hpp               |  2 +-
 src/nodes/lazy.hpp                 |  2 +-
 src/nodes/negated.hpp              | 47 +++++++++++++++-
 src/nodes/possessive.hpp           |  2 +-
 src/nodes/repeated.hpp             |  2 +-
 src/terminals/digit_characters.hpp |  3 +
 src/terminals/exact_matcher.hpp    | 17 +++++-
 src/terminals/new_line.hpp         |  3 +
 src/terminals/space_characters.hpp |  3 +
 src/terminals/word_characters.hpp  |  3 +
 12 files changed, 176 insertions(+), 12 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 7a53725..fb5ebc7 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -31,14 +31,24 @@ namespace e_regex::nodes
     struct simple : public base<matcher, children...>
     {
             static constexpr auto expression = []() {
+                auto self = []() {
+                    if constexpr (matcher::expression.to_view() == "^")
+                    {
+                        return matcher::expression;
+                    }
+                    else
+                    {
+                        return get_operand_expression<matcher>();
+                    }
+                }();
+
                 if constexpr (sizeof...(children) <= 1)
                 {
-                    return matcher::expression
-                           + get_children_expression<children...>();
+                    return self + get_children_expression<children...>();
                 }
                 else
                 {
-                    return matcher::expression + "(?:"
+                    return self + "(?:"
                            + get_children_expression<children...>()
                            + ')';
                 }
diff --git a/src/nodes/get_expression.hpp b/src/nodes/get_expression.hpp
index aa4e3b9..3f791b4 100644
--- a/src/nodes/get_expression.hpp
+++ b/src/nodes/get_expression.hpp
@@ -1,12 +1,88 @@
 #ifndef E_REGEX_NODES_GET_EXPRESSION_HPP_
 #define E_REGEX_NODES_GET_EXPRESSION_HPP_
 
+#include <cstddef>
+#include <string_view>
 #include <tuple>
 
 #include "utilities/pack_string.hpp"
+#include "utilities/static_string.hpp"
 
 namespace e_regex::nodes
 {
+    // Size of the first operand (character, set or group) of an
+    // expression
+    consteval auto first_operand_size(std::string_view expression)
+        -> std::size_t
+    {
+        std::size_t depth = 0;
+        bool        set   = false;
+
+        for (std::size_t i = 0; i < expression.size(); ++i)
+        {
+            const auto c = expression[i];
+
+            if (c == '\\')
+            {
+                ++i;
+            }
+            else if (set)
+            {
+                set = c != ']';
+            }
+            else if (c == '[')
+            {
+                set = true;
+            }
+            else if (c == '(')
+            {
+                ++depth;
+            }
+            else if (c == ')')
+            {
+                --depth;
+            }
+
+            if (!set && depth == 0)
+            {
+                return i + 1;
+            }
+        }
+
+        return expression.size();
+    }
+
+    // An expression that can be directly quantified or followed by
+    // other expressions
+    consteval auto is_single_operand(std::string_view expression) -> bool
+    {
+        return !expression.empty() && expression != "^" && expression != "$"
+               && first_operand_size(expression) == expression.size();
+    }
+
+    consteval auto has_branches(std::string_view expression) -> bool
+    {
+        while (!expression.empty() && expression.front() != '|')
+        {
+            expression.remove_prefix(first_operand_size(expression));
+        }
+
+        return !expression.empty();
+    }
+
+    template<typename node>
+    consteval auto get_operand_expression()
+    {
+        if constexpr (is_single_operand(node::expression.to_view()))
+        {
+            return node::expression;
+        }
+        else
+        {
+            return "(?:" + node::expression + ')';
+        }
+    }
+
     template<typename... children>
     constexpr __attribute__((always_inline)) auto get_children_expression()
     {
@@ -16,7 +92,17 @@ namespace e_regex::nodes
         }
         else if constexpr (sizeof...(children) == 1)
         {
-            return std::tuple_element_t<0, std::tuple<children...>>::expression;
+            using child = std::tuple_element_t<0, std::tuple<children...>>;
+
+            if constexpr (has_branches(child::expression.to_view())
+                          || child::expression.to_view().starts_with('^'))
+            {
+                return "(?:" + child::expression + ')';
+            }
+            else
+            {
+                return child::expression;
+            }
         }
         else
         {
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index de78592..ab5883a 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -91,7 +91,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_operand_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 9f4351d..b2309f1 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -78,7 +78,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_operand_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 7bb00fd..535fb1f 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -9,11 +9,54 @@
 
 namespace e_regex::nodes
 {
+    // Expression of a set's member
+    template<typename node>
+    struct set_expression
+    {
+            static constexpr auto value = node::expression;
+    };
+
+    template<char identifier>
+    struct set_expression<terminals::exact_matcher<pack_string<identifier>>>
+    {
+            static constexpr auto value = []() {
+                if constexpr (identifier == '-')
+                {
+                    return static_string {"\\-"};
+                }
+                else
+                {
+                    return terminals::exact_matcher<pack_string<identifier>>::expression;
+                }
+            }();
+    };
+
+    template<char start, char end>
+    struct set_expression<
+        terminals::range_terminal<pack_string<start>, pack_string<end>>>
+    {
+            static constexpr auto value
+                = pack_string<start, '-', end>::string;
+    };
+
+    template<typename node>
+    struct set_expression<simple<node>>
+    {
+            static constexpr auto value = set_expression<node>::value;
+    };
+
+    template<typename... members>
+    struct set_expression<simple<void, members...>>
+    {
+            static constexpr auto value
+                = (static_string {""} + ... + set_expression<members>::value);
+    };
+
     template<typename matcher>
     struct negated_node : public base<matcher>
     {
             static constexpr auto expression
-                = "[^" + matcher::expression + "]";
+                = "[^" + set_expression<matcher>::value + "]";
 
             using admission_set = admitted_set_complement_t<
                 typename extract_admission_set<matcher>::type>;
@@ -52,8 +95,6 @@ namespace e_regex::nodes
                 return result;
             }
     };
-
-    // TODO missing get_expression
 } // namespace e_regex::nodes
 
 #endif /* E_REGEX_NODES_NEGATED_HPP_*/
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 72d2328..fb52ae6 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -77,7 +77,7 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_operand_expression<matcher>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index bf4b6bf..bae2826 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -34,7 +34,7 @@ namespace e_regex::nodes
             };
 
             static constexpr auto expression = []() {
-                auto self = matcher::expression + '{'
+                auto self = get_operand_expression<matcher>() + '{'
                             + number_to_pack_string_t<repetitions>::string
                             + '}';
 
diff --git a/src/terminals/digit_characters.hpp b/src/terminals/digit_characters.hpp
index 49fa499..7428bac 100644
--- a/src/terminals/digit_characters.hpp
+++ b/src/terminals/digit_characters.hpp
@@ -20,6 +20,9 @@ namespace e_regex::terminals
                                   admitted_set_range_t<char, '0', '9'>>
     {
             static constexpr auto expression = static_string {"\\D"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index e030391..25e4834 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -10,6 +10,20 @@ namespace e_regex::terminals
     template<typename identifier>
     struct exact_matcher;
 
+    // Expression of a character, escaped when it is an operator
+    template<char identifier>
+    consteval auto get_character_expression()
+    {
+        if constexpr (std::string_view {"\\.[](){}*+?|^$"}.contains(identifier))
+        {
+            return pack_string<'\\', identifier>::string;
+        }
+        else
+        {
+            return pack_string<identifier>::string;
+        }
+    }
+
     template<char identifier, char... identifiers>
     struct exact_matcher<pack_string<identifier, identifiers...>>
         : public terminal_common<
@@ -17,7 +31,8 @@ namespace e_regex::terminals
               admitted_set<char, identifier>>
     {
             static constexpr auto expression
-                = pack_string<identifier, identifiers...>::string;
+                = (get_character_expression<identifier>() + ...
+                   + get_character_expression<identifiers>());
 
             static constexpr auto meta
                 = e_regex::meta<admitted_set<char, identifier>> {
diff --git a/src/terminals/new_line.hpp b/src/terminals/new_line.hpp
index e276d34..6e0037f 100644
--- a/src/terminals/new_line.hpp
+++ b/src/terminals/new_line.hpp
@@ -19,6 +19,9 @@ namespace e_regex::terminals
                                   admitted_set<char, '\n'>>
     {
             static constexpr auto expression = static_string {"\\N"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 7b8ffbb..c252f6e 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -44,6 +44,9 @@ namespace e_regex::terminals
                                   space_characters_admission_set>
     {
             static constexpr auto expression = static_string {"\\S"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
diff --git a/src/terminals/word_characters.hpp b/src/terminals/word_characters.hpp
index ed1b5b4..bef1046 100644
--- a/src/terminals/word_characters.hpp
+++ b/src/terminals/word_characters.hpp
@@ -42,6 +42,9 @@ namespace e_regex::terminals
         : public negated_terminal<terminal<pack_string<'\\', 'w'>>, word_characters_admission_set>
     {
             static constexpr auto expression = static_string {"\\W"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
-- 
2.43.0


From 846d0436511674eb47827739b5dbf49fa3cca24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 24/30] fix: the maximum match size of alternatives must be the
 largest one of the branches

---
 src/nodes/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index fb5ebc7..23e1ca4 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -113,7 +113,7 @@ namespace e_regex::nodes
                 .minimum_match_size
                 = min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = max(children::meta.minimum_match_size...),
+                = max(children::meta.maximum_match_size...),
             };
 
             template<typename... injected_children>
-- 
2.43.0


From 310d9d5c5f02986af666721efa58d38cc52aa108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 25/30] fix: match results must convert to std::string_view, as
 documented

---
 src/match_result.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index a7155ca..55381ee 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <cstddef>
+#include <string_view>
 
 #include "nodes/common.hpp"
 #include "utilities/literal_string_view.hpp"
@@ -155,6 +156,12 @@ namespace e_regex
                 return to_view();
             }
 
+            constexpr __attribute__((always_inline))
+            operator std::string_view() const noexcept
+            {
+                return to_view();
+            }
+
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
                 return groups_;
-- 
2.43.0


From 6dd4df2c16348ddf057dca244b82768f4dea0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 26/30] fix: parentheses in sets are plain characters

---
 src/utilities/balanced.hpp                  | 12 ++++++++++++
 src/utilities/extract_delimited_content.hpp | 16 ++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/utilities/balanced.hpp b/src/utilities/balanced.hpp
index f0a2701..e2b04e7 100644
--- a/src/utilities/balanced.hpp
+++ b/src/utilities/balanced.hpp
@@ -12,6 +12,16 @@ namespace e_regex
             // Base negative case, did not match any positive case
     };
 
+    /* The characters of a set are opaque, parentheses need no
+     * counterpart there.
+     */
+    template<typename stack>
+    constexpr bool inside_set = false;
+
+    template<typename stack>
+        requires(!stack::empty)
+    constexpr bool inside_set<stack> = stack::head == '[';
+
     template<typename stack>
         requires(stack::empty)
     struct balanced<stack> : public std::true_type
@@ -27,6 +37,7 @@ namespace e_regex
     };
 
     template<typename stack, typename... strings>
+        requires(!inside_set<stack>)
     struct balanced<stack, pack_string<'('>, strings...>
         : public balanced<typename stack::template push<'('>, strings...>
     {
@@ -57,6 +68,7 @@ namespace e_regex
     };
 
     template<typename stack, typename... strings>
+        requires(!inside_set<stack>)
     struct balanced<stack, pack_string<'{'>, strings...>
         : public balanced<typename stack::template push<'{'>, strings...>
     {
diff --git a/src/utilities/extract_delimited_content.hpp b/src/utilities/extract_delimited_content.hpp
index 634367e..8054beb 100644
--- a/src/utilities/extract_delimited_content.hpp
+++ b/src/utilities/extract_delimited_content.hpp
@@ -56,6 +56,22 @@ namespace e_regex
             // Iterate characters
     };
 
+    template<char closing, unsigned skip_counter, typename current, typename... tail>
+    struct extract_delimited_content<'(', closing, skip_counter, current, std::tuple<pack_string<'['>, tail...>>
+    {
+            // Set found, its content is opaque: parentheses are plain characters there
+            using set = extract_delimited_content<'[', ']', 0, std::tuple<>, std::tuple<tail...>>;
+            using next
+                = extract_delimited_content<'(',
+                                            closing,
+                                            skip_counter,
+                                            tuple_cat_t<tuple_cat_t<tuple_cat_t<current, pack_string<'['>>, typename set::result>, pack_string<']'>>,
+                                            typename set::remaining>;
+
+            using result    = typename next::result;
+            using remaining = typename next::remaining;
+    };
+
     template<char open, char closing, typename string>
     using extract_delimited_content_t
         = extract_delimited_content<open, closing, 0, std::tuple<>, string>;
-- 
2.43.0


From ff22a164f8cf646ffb70ffa4d56b70fceffce286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 27/30] fix: unset groups must be readable in constant
 expressions (g++)

---
 src/match_result.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 55381ee..66e1add 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -190,7 +190,7 @@ namespace e_regex
                     // it again
                     if (data.actual_iterator_end == data.query.end())
                     {
-                        data.match_groups = {};
+                        data.match_groups.fill({});
                         data.accepted     = false;
                         return false;
                     }
@@ -210,7 +210,7 @@ namespace e_regex
             {
                 while (true)
                 {
-                    data.match_groups        = {};
+                    data.match_groups.fill({});
                     data.actual_iterator_end = data.actual_iterator_start;
                     data.accepted            = true;
 
@@ -229,7 +229,7 @@ namespace e_regex
                     ++data.actual_iterator_start;
                 }
 
-                data.match_groups        = {};
+                data.match_groups.fill({});
                 data.actual_iterator_end = data.actual_iterator_start;
 
                 return false;
-- 
2.43.0


From d5d65acec0d747c8ea4500d9da9f52454af5b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 28/30] fix: braces and brackets in sets are plain characters

---
 src/tokenizer.hpp                           | 51 +++++++++++++++++++++
 src/utilities/balanced.hpp                  |  1 +
 src/utilities/extract_delimited_content.hpp | 11 +++++
 3 files changed, 63 insertions(+)

diff --git a/src/tokenizer.hpp b/src/tokenizer.hpp
index ee1b819..d14a9f5 100644
--- a/src/tokenizer.hpp
+++ b/src/tokenizer.hpp
@@ -120,6 +120,57 @@ namespace e_regex
                 typename tokenizer<current_, typename numbers::remaining>::tokens;
     };
 
+    // Content of a set, where operators are plain characters
+    template<typename current, typename string>
+    struct set_tokenizer;
+
+    template<typename current, char... tail>
+    struct tokenizer<current, pack_string<'[', tail...>>
+    {
+            // Set found
+            using current_
+                = tuple_cat_t<current, std::tuple<pack_string<'['>>>;
+            using tokens =
+                typename set_tokenizer<current_, pack_string<tail...>>::tokens;
+    };
+
+    template<typename current, char head, char... tail>
+    struct set_tokenizer<current, pack_string<head, tail...>>
+    {
+            // Simple iteration
+            using current_
+                = tuple_cat_t<current, std::tuple<pack_string<head>>>;
+            using tokens =
+                typename set_tokenizer<current_, pack_string<tail...>>::tokens;
+    };
+
+    template<typename current, char head, char... tail>
+    struct set_tokenizer<current, pack_string<'\\', head, tail...>>
+    {
+            // Escaped character
+            using current_
+                = tuple_cat_t<current, std::tuple<pack_string<'\\', head>>>;
+            using tokens =
+                typename set_tokenizer<current_, pack_string<tail...>>::tokens;
+    };
+
+    template<typename current, char... tail>
+    struct set_tokenizer<current, pack_string<']', tail...>>
+    {
+            // End of the set
+            using current_
+                = tuple_cat_t<current, std::tuple<pack_string<']'>>>;
+            using tokens =
+                typename tokenizer<current_, pack_string<tail...>>::tokens;
+    };
+
+    template<typename current>
+    struct set_tokenizer<current, pack_string<>>
+    {
+            // Base case, the set is not closed
+            using tokens = current;
+    };
+
     template<typename current>
     struct tokenizer<current, pack_string<>>
     {
diff --git a/src/utilities/balanced.hpp b/src/utilities/balanced.hpp
index e2b04e7..18d89a2 100644
--- a/src/utilities/balanced.hpp
+++ b/src/utilities/balanced.hpp
@@ -53,6 +53,7 @@ namespace e_regex
     };
 
     template<typename stack, typename... strings>
+        requires(!inside_set<stack>)
     struct balanced<stack, pack_string<'['>, strings...>
         : public balanced<typename stack::template push<'['>, strings...>
     {
diff --git a/src/utilities/extract_delimited_content.hpp b/src/utilities/extract_delimited_content.hpp
index 8054beb..3d7735b 100644
--- a/src/utilities/extract_delimited_content.hpp
+++ b/src/utilities/extract_delimited_content.hpp
@@ -49,6 +49,17 @@ namespace e_regex
             // Open delimiter found, increase skip counter
     };
 
+    template<char closing, unsigned skip_counter, typename current, typename... tail>
+    struct extract_delimited_content<'[', closing, skip_counter, current, std::tuple<pack_string<'['>, tail...>>
+        : public extract_delimited_content<'[',
+                                           closing,
+                                           skip_counter,
+                                           tuple_cat_t<current, pack_string<'['>>,
+                                           std::tuple<tail...>>
+    {
+            // Sets do not nest
+    };
+
     template<char open, char closing, unsigned skip_counter, typename current, typename head, typename... tail>
     struct extract_delimited_content<open, closing, skip_counter, current, std::tuple<head, tail...>>
         : public extract_delimited_content<open, closing, skip_counter, tuple_cat_t<current, head>, std::tuple<tail...>>
-- 
2.43.0


From 9fa2091b8c68ede0e1d8e1d3448bc1174ab21745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 29/30] fix: searching and tokenizing functions are noexcept,
 as documented

---
 src/regex.hpp                         | 10 +++++-----
 src/tokenization/iterator.hpp         |  6 +++---
 src/tokenization/tokenizer.hpp        |  4 ++--
 src/utilities/literal_string_view.hpp |  8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/regex.hpp b/src/regex.hpp
index a8282a0..f78abb9 100644
--- a/src/regex.hpp
+++ b/src/regex.hpp
@@ -38,26 +38,26 @@ namespace e_regex
                 typename tree_builder<build_pack_string_t<expression>>::tree>::type;
 
             static constexpr __attribute__((always_inline)) auto
-                match(literal_string_view<> data)
+                match(literal_string_view<> data) noexcept
             {
                 return match_result<ast> {data};
             }
 
             constexpr __attribute__((always_inline)) auto
-                operator()(literal_string_view<> data) const
+                operator()(literal_string_view<> data) const noexcept
             {
                 return match(data);
             }
 
             static __attribute__((always_inline)) constexpr auto
-                get_expression()
+                get_expression() noexcept
             {
                 return ast::expression.to_view();
             }
 
             template<typename other>
             static constexpr __attribute__((always_inline)) auto
-                is_independent() -> bool
+                is_independent() noexcept -> bool
             {
                 using intersection = admitted_sets_intersection_t<
                     typename nodes::extract_admission_set<ast>::type,
@@ -68,7 +68,7 @@ namespace e_regex
 
             template<typename T>
             static constexpr __attribute__((always_inline)) auto
-                is_independent(T /*other*/) -> bool
+                is_independent(T /*other*/) noexcept -> bool
             {
                 return is_independent<T>();
             }
diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index 4b299b9..8b2a595 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -171,7 +171,7 @@ namespace e_regex::tokenization
             }
 
         public:
-            constexpr explicit iterator(literal_string_view<> input)
+            constexpr explicit iterator(literal_string_view<> input) noexcept
                 : current {input}, original_input {input}
             {
                 if (!input.empty())
@@ -188,7 +188,7 @@ namespace e_regex::tokenization
                 -> iterator&               = default;
             constexpr ~iterator() noexcept = default;
 
-            constexpr auto begin() const -> iterator
+            constexpr auto begin() const noexcept -> iterator
             {
                 return iterator {original_input};
             }
@@ -211,7 +211,7 @@ namespace e_regex::tokenization
                 return *this;
             }
 
-            constexpr auto end() const -> iterator
+            constexpr auto end() const noexcept -> iterator
             {
                 return iterator {{}}; // Invalid by definition
             }
diff --git a/src/tokenization/tokenizer.hpp b/src/tokenization/tokenizer.hpp
index 1073ad1..40603cf 100644
--- a/src/tokenization/tokenizer.hpp
+++ b/src/tokenization/tokenizer.hpp
@@ -13,12 +13,12 @@ namespace e_regex::tokenization
     class tokenizer
     {
         public:
-            static constexpr auto match(literal_string_view<> input)
+            static constexpr auto match(literal_string_view<> input) noexcept
             {
                 return tokenization::iterator<_tokens...> {input};
             }
 
-            constexpr auto operator()(literal_string_view<> input) const
+            constexpr auto operator()(literal_string_view<> input) const noexcept
             {
                 return match(input);
             }
diff --git a/src/utilities/literal_string_view.hpp b/src/utilities/literal_string_view.hpp
index 4b71b8b..5faae02 100644
--- a/src/utilities/literal_string_view.hpp
+++ b/src/utilities/literal_string_view.hpp
@@ -14,12 +14,12 @@ namespace e_regex
             iterator begin_;
             iterator end_;
 
-            constexpr __attribute__((always_inline)) literal_string_view()
+            constexpr __attribute__((always_inline)) literal_string_view() noexcept
                 : begin_ {nullptr}, end_ {nullptr}
             {}
 
             constexpr __attribute__((always_inline))
-            literal_string_view(iterator begin_, iterator end_)
+            literal_string_view(iterator begin_, iterator end_) noexcept
                 : begin_ {begin_}, end_ {end_}
             {}
 
@@ -30,7 +30,7 @@ namespace e_regex
             {}
 
             constexpr __attribute__((always_inline))
-            literal_string_view(std::string_view data)
+            literal_string_view(std::string_view data) noexcept
                 : begin_ {data.begin()}, end_ {data.end()}
             {}
 
@@ -76,7 +76,7 @@ namespace e_regex
             }
 
             constexpr __attribute__((always_inline)) bool
-                operator==(literal_string_view other) const
+                operator==(literal_string_view other) const noexcept
             {
                 if (begin() == other.begin() && end() == other.end())
                 {
-- 
2.43.0


From a155cc8833c6e7a53e344a49cd1eb03e6be3631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:38 +0000
Subject: [PATCH 30/30] fix: lazy repetitions of what may be empty must not
 become possessive

---
 src/nodes/lazy.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index b2309f1..7483c2a 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -95,10 +95,12 @@ namespace e_regex::nodes
 
             // If this node has no intersections with its children,
             // backtracking is not needed, unless nothing has to follow
+            // or an empty repetition could be added
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                (min(children::meta.minimum_match_size...) != 0
-                 || min(injected_children::meta.minimum_match_size...) != 0)
+                matcher::meta.minimum_match_size != 0
+                    && (min(children::meta.minimum_match_size...) != 0
+                        || min(injected_children::meta.minimum_match_size...) != 0)
                     && admitted_sets_intersection_t<
                         admission_set,
                         typename extract_admission_set<children..., injected_children...>::type>::empty,
-- 
2.43.0

