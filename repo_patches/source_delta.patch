From 34f3c8090380c6c40d032ea7977909afcd24b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 01/80] fix: do not read the content of quoted strings as
 syntax

---
 sqlvalidator/grammar/lexer.py     | 12 +++++++-----
 sqlvalidator/grammar/tokeniser.py | 28 ++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..dcca7f2 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
@@ -511,10 +512,13 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
+        open_quote = None
         while next_token is not None:
             expression_tokens.append(next_token)
-            if next_token == "(":
+            open_quote = get_open_quote(open_quote, next_token)
+            if open_quote is not None:
+                pass
+            elif next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
                 count_parenthesis -= 1
@@ -522,15 +526,13 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
+                and open_quote is None
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..8c0cd93 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,13 +25,28 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def get_open_quote(open_quote: Optional[str], token: Optional[str]) -> Optional[str]:
+    """
+    Quote we are in after reading the token, when being in open_quote before it.
+    """
+    if open_quote is not None:
+        return None if token == open_quote else open_quote
+    return token if token in STRING_SPLIT_TOKENS else None
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
-    while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
+    open_quote = None
+    while next_token is not None and not (
+        next_token == ")" and count_parenthesis == 0 and open_quote is None
+    ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        open_quote = get_open_quote(open_quote, next_token)
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
@@ -48,8 +63,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
     count_case_expr = 0 if first_token != "case" else 1
+    open_quote = get_open_quote(None, first_token)
     while next_token is not None and not (
-        lower(next_token) in stop_words
+        open_quote is None
+        and lower(next_token) in stop_words
         and count_parenthesis <= 0
         and count_square_brackets <= 0
         and count_case_expr <= 0
@@ -59,7 +76,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        open_quote = get_open_quote(open_quote, next_token)
+        if open_quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
-- 
2.43.0


From 33ed807c32360466a115bb082435cdd106f53c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 02/80] fix: nested CASE in upper case at the start of an
 expression

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 8c0cd93..a2e83b0 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -62,7 +62,7 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     next_token = next(tokens, None)
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
-    count_case_expr = 0 if first_token != "case" else 1
+    count_case_expr = 0 if lower(first_token) != "case" else 1
     open_quote = get_open_quote(None, first_token)
     while next_token is not None and not (
         open_quote is None
-- 
2.43.0


From f4e540230b02910ce76545c2ea50f55ea32b2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 03/80] fix: do not split a sub-SELECT without own parentheses
 at its commas

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index dcca7f2..b84ef25 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -530,6 +530,7 @@ class ExpressionListParser:
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
+                and lower(expression_tokens[0]) != "select"
                 and count_parenthesis == 0
                 and count_square_brackets == 0
                 and open_quote is None
-- 
2.43.0


From 4a72b6dbe6d6c865f885e2a6fdf501e0947aad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 04/80] fix: keep decimal literals as they are written

---
 sqlvalidator/grammar/lexer.py | 2 +-
 sqlvalidator/grammar/sql.py   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index b84ef25..1859529 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -743,7 +743,7 @@ class ExpressionParser:
                 and main_token == "-"
                 and next_token.replace(".", "").isdigit()
             ):
-                expression = Float(-float(next_token))
+                expression = Float("-" + next_token)
                 next_token = next(tokens, None)
             elif (
                 lower(main_token) in String.PREFIXES
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..d6952f6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -916,9 +916,11 @@ class Integer(Expression):
 class Float(Expression):
     def __init__(self, value):
         super().__init__(float(value))
+        # Keep how it was written, float() may lose digits or add an exponent
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
-- 
2.43.0


From 530171da6ce02f45a7da8852d9ec89a9f89b6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 05/80] fix: RESPECT NULLS in ARRAY_AGG

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 1859529..29cb70e 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -633,7 +633,7 @@ class ExpressionParser:
 
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens,
-                        stop_words=[")", "ignore", "respects", "order", "limit"],
+                        stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
                     column, _ = ExpressionParser.parse(
-- 
2.43.0


From 837ffa41331f307502c5e6e4b9f4783dfd96350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 06/80] fix: operators != and || without surrounding whitespace

---
 sqlvalidator/grammar/tokeniser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index a2e83b0..013140d 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -16,6 +16,8 @@ KEPT_SPLIT_TOKENS = (
     "=",
     "<",
     ">",
+    "!",
+    "|",
     ".",
 )
 MERGE_TOKENS = ("<>", "<=", ">=", "<<", ">>", "||", "!=")
-- 
2.43.0


From 7377435fa6ecbadba1988513ac5db7652bf40a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 07/80] fix: split on carriage return and other ASCII
 whitespace

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 013140d..f3c0392 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -1,7 +1,7 @@
 from typing import Optional
 
 STRING_SPLIT_TOKENS = ("'", '"', "`")
-WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t")
+WHITESPACE_SPLIT_TOKENS = (" ", "\n", "\t", "\r", "\f", "\v")
 KEPT_SPLIT_TOKENS = (
     ",",
     ";",
-- 
2.43.0


From 021223d66f0efa38dd7afb00d39c610ef3bed68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:33 +0000
Subject: [PATCH 08/80] fix: find the end of quoted strings with escaped,
 doubled or other quotes

---
 sqlvalidator/grammar/tokeniser.py | 64 ++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index f3c0392..00bb3d7 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -158,17 +158,46 @@ def merge_stream(s, goals):
             yield next_element
 
 
-def _split_on_string_token(token: str, value: str):
-    split_result = split_with_sep(value, token)
-    in_str = False
-    for elem in split_result:
-        if elem == token:
-            in_str = not in_str
-            yield elem
-        elif in_str is True:
-            yield elem
+def get_first_string_token(value: str) -> Optional[str]:
+    string_tokens = [token for token in STRING_SPLIT_TOKENS if token in value]
+    return min(string_tokens, key=value.index, default=None)
+
+
+def find_closing_quote(value: str, quote: str) -> int:
+    """
+    Index of the quote that closes a string whose content starts with value, or -1.
+    Quotes that are doubled or escaped by a backslash belong to the content.
+    """
+    index = value.find(quote)
+    while index != -1:
+        num_backslashes = index - len(value[:index].rstrip("\\"))
+        if num_backslashes % 2 == 1:
+            index = value.find(quote, index + 1)
+        elif value[index + 1 : index + 2] == quote:
+            index = value.find(quote, index + 2)
         else:
-            yield from split_tokens(elem)
+            break
+    return index
+
+
+def _split_on_string_token(value: str):
+    string_token = get_first_string_token(value)
+    while string_token is not None:
+        before, _, value = value.partition(string_token)
+        if before:
+            yield from split_tokens(before)
+        yield string_token
+        closing_index = find_closing_quote(value, string_token)
+        content = value if closing_index == -1 else value[:closing_index]
+        if content:
+            yield content
+        if closing_index == -1:
+            return
+        yield string_token
+        value = value[closing_index + 1 :]
+        string_token = get_first_string_token(value)
+    if value:
+        yield from split_tokens(value)
 
 
 def _split_on_whitespace_token(token: str, value: str):
@@ -182,17 +211,16 @@ def _split_on_kept_token(token: str, value: str):
         yield value
     else:
         for elem in split_with_sep(value, token):
-            yield from split_tokens(elem)
+            if elem == value:
+                yield elem
+            else:
+                yield from split_tokens(elem)
 
 
 def split_tokens(value: str):
-    for string_token in sorted(
-        STRING_SPLIT_TOKENS,
-        key=lambda token: value.index(token) if token in value else (len(value) + 1),
-    ):
-        if string_token in value:
-            yield from _split_on_string_token(string_token, value)
-            return
+    if get_first_string_token(value) is not None:
+        yield from _split_on_string_token(value)
+        return
 
     for whitespace_token in WHITESPACE_SPLIT_TOKENS:
         if whitespace_token in value:
-- 
2.43.0


From 935a28d1aa15404bfee7a2e92b554e26761476bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 09/80] fix: formatting AND/OR conditions in THEN, ORDER BY,
 GROUP BY, DISTINCT ON

---
 sqlvalidator/grammar/sql.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d6952f6..e0db5c7 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -58,7 +58,7 @@ class SelectStatement:
             statement_str += " DISTINCT"
             if self.select_distinct_on:
                 statement_str += " ON ({})".format(
-                    ", ".join(map(str, self.select_distinct_on))
+                    ", ".join(map(transform, self.select_distinct_on))
                 )
 
         if len(self.expressions) == 1:
@@ -291,7 +291,7 @@ class GroupByClause(Expression):
 
     def __str__(self):
         if len(self.args) > 1:
-            group_by_str = "\n{}".format(",\n".join(map(str, self.args))).replace(
+            group_by_str = "\n{}".format(",\n".join(map(transform, self.args))).replace(
                 "\n", "\n "
             )
         else:
@@ -374,10 +374,10 @@ class OrderByClause(Expression):
     def transform(self, allow_linebreak=True):
         if len(self.args) > 1:
             if allow_linebreak:
-                order_by_str = "\n" + ",\n".join(map(str, self.args))
+                order_by_str = "\n" + ",\n".join(map(transform, self.args))
                 order_by_str = order_by_str.replace("\n", "\n ")
             else:
-                order_by_str = " " + ", ".join(map(str, self.args))
+                order_by_str = " " + ", ".join(map(transform, self.args))
         else:
             order_by_str = " " + transform(self.args[0])
         return order_by_str
@@ -408,7 +408,7 @@ class OrderByItem(Expression):
         self.has_desc = has_desc
 
     def __str__(self):
-        order_by_item_str = str(self.value)
+        order_by_item_str = transform(self.value)
         if self.has_asc:
             order_by_item_str += " ASC"
         elif self.has_desc:
@@ -452,7 +452,7 @@ class LimitClause(Expression):
         if self.limit_all:
             limit_str = "ALL"
         else:
-            limit_str = str(self.value)
+            limit_str = transform(self.value)
         return limit_str
 
     def __repr__(self):
@@ -1101,7 +1101,7 @@ class ArithmaticOperator(Expression):
 
     def __str__(self):
         join_str = " {} ".format(self.operator)
-        return join_str.join(map(str, self.args))
+        return join_str.join(map(transform, self.args))
 
     def __repr__(self):
         return "<{} {}: {}>".format(
@@ -1591,7 +1591,7 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {then}"
+            when_then_str += f"THEN {transform(then)}"
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
-- 
2.43.0


From 46ee02d9a1cc5931d102b1d36324474da4871f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:02 +0000
Subject: [PATCH 10/80] fix: NOT LIKE and NOT BETWEEN

---
 sqlvalidator/grammar/lexer.py | 47 +++++++++++++++++++----------------
 sqlvalidator/grammar/sql.py   |  2 +-
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 29cb70e..db06f53 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -840,33 +840,24 @@ class ExpressionParser:
                     first_token = next_next_token
             elif lower(next_token) == "not":
                 next_next_token = next(tokens)
-                if lower(next_next_token) == "in":
-                    symbol = "not in"
+                if lower(next_next_token) in ("in", "like", "between"):
+                    symbol = "not " + lower(next_next_token)
                 else:
                     first_token = next_next_token
 
-            right_hand, next_token = ExpressionParser.parse(
-                tokens,
-                is_right_hand=True,
-                until_one_of=until_one_of,
-                first_token=first_token,
-            )
+            if symbol == "not between":
+                right_hand, next_token = BetweenBoundsParser.parse(tokens, until_one_of)
+            else:
+                right_hand, next_token = ExpressionParser.parse(
+                    tokens,
+                    is_right_hand=True,
+                    until_one_of=until_one_of,
+                    first_token=first_token,
+                )
             expression = Condition(expression, symbol, right_hand)
         elif lower(next_token) == "between":
             symbol = next_token
-            right_hand_left, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            if lower(next_token) != "and":
-                raise ParsingError("expected AND")
-            right_hand_right, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            right_hand = BooleanCondition(
-                "and",
-                right_hand_left,
-                right_hand_right,
-            )
+            right_hand, next_token = BetweenBoundsParser.parse(tokens, until_one_of)
             expression = Condition(expression, symbol, right_hand)
         elif next_token in BitwiseOperation.OPERATORS:
             operator = next_token
@@ -934,6 +925,20 @@ class ExpressionParser:
         return expression, next_token
 
 
+class BetweenBoundsParser:
+    @staticmethod
+    def parse(tokens, until_one_of):
+        lower_bound, next_token = ExpressionParser.parse(
+            tokens, is_right_hand=True, until_one_of=until_one_of
+        )
+        if lower(next_token) != "and":
+            raise ParsingError("expected AND")
+        upper_bound, next_token = ExpressionParser.parse(
+            tokens, is_right_hand=True, until_one_of=until_one_of
+        )
+        return BooleanCondition("and", lower_bound, upper_bound), next_token
+
+
 class StringParser:
     @staticmethod
     def parse(tokens, start_quote, prefix=None):
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e0db5c7..2bcee34 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1439,7 +1439,7 @@ class Condition(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
-        if self.predicate.lower() == "between":
+        if self.predicate.lower() in ("between", "not between"):
             errors += self.right_hand.validate(known_fields, is_between_predicate=True)
         else:
             errors += self.right_hand.validate(known_fields)
-- 
2.43.0


From 2faad760f1b1ccbcc93ec8500515d82b7039e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 11/80] fix: operands after the first of chained || and bitwise
 operators

---
 sqlvalidator/grammar/lexer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index db06f53..4787b3b 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -826,6 +826,13 @@ class ExpressionParser:
             expression = Index(expression, arguments)
             next_token = next(tokens, None)
 
+        if next_token in BitwiseOperation.OPERATORS and not is_chained_columns:
+            operator = next_token
+            right_hand, next_token = ExpressionParser.parse(
+                tokens, is_right_hand=True, until_one_of=until_one_of
+            )
+            expression = BitwiseOperation(expression, operator, right_hand)
+
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
@@ -859,12 +866,6 @@ class ExpressionParser:
             symbol = next_token
             right_hand, next_token = BetweenBoundsParser.parse(tokens, until_one_of)
             expression = Condition(expression, symbol, right_hand)
-        elif next_token in BitwiseOperation.OPERATORS:
-            operator = next_token
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            expression = BitwiseOperation(expression, operator, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
             left_hand = expression
-- 
2.43.0


From 2e43e19d2eccf81bb41424c346d533926975eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 12/80] fix: keep the right operand of the modulo operator

---
 sqlvalidator/grammar/lexer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 4787b3b..ad4645d 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -808,7 +808,11 @@ class ExpressionParser:
             )
             expression = ChainedColumns(expression, right_hand)
 
-        if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
+        if (
+            next_token
+            and next_token in ("+", "-", "*", "/", "%")
+            and not is_chained_columns
+        ):
             left_hand = expression
             symbol = next_token
             right_hand, next_token = ExpressionParser.parse(
-- 
2.43.0


From 1a7d18dcf2407653475a845e7dc765dd31eae380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 13/80] fix: keep NULLS FIRST and NULLS LAST in ORDER BY

---
 sqlvalidator/grammar/lexer.py | 14 ++++++++++++--
 sqlvalidator/grammar/sql.py   | 12 +++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index ad4645d..f87cbe2 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -465,19 +465,29 @@ class OrderByParser:
 class OrderByItemParser:
     @staticmethod
     def parse(tokens):
-        expression_tokens, next_token = get_tokens_until_one_of(tokens, ["asc", "desc"])
+        expression_tokens, next_token = get_tokens_until_one_of(
+            tokens, ["asc", "desc", "nulls"]
+        )
         expression, _ = ExpressionParser.parse(iter(expression_tokens))
         if lower(next_token) == "asc":
             has_asc = True
             has_desc = False
+            next_token = next(tokens, None)
         elif lower(next_token) == "desc":
             has_asc = False
             has_desc = True
+            next_token = next(tokens, None)
         else:
             has_asc = False
             has_desc = False
 
-        return OrderByItem(expression, has_asc=has_asc, has_desc=has_desc)
+        nulls = None
+        if lower(next_token) == "nulls":
+            nulls = lower(next(tokens))
+            if nulls not in OrderByItem.NULLS_VALUES:
+                raise ParsingError("expected FIRST or LAST after NULLS")
+
+        return OrderByItem(expression, has_asc=has_asc, has_desc=has_desc, nulls=nulls)
 
 
 class LimitClauseParser:
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2bcee34..c89badc 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -402,10 +402,13 @@ class OrderByClause(Expression):
 
 
 class OrderByItem(Expression):
-    def __init__(self, expression, has_asc=False, has_desc=False):
+    NULLS_VALUES = ("first", "last")
+
+    def __init__(self, expression, has_asc=False, has_desc=False, nulls=None):
         super().__init__(expression)
         self.has_asc = has_asc
         self.has_desc = has_desc
+        self.nulls = nulls
 
     def __str__(self):
         order_by_item_str = transform(self.value)
@@ -413,11 +416,13 @@ class OrderByItem(Expression):
             order_by_item_str += " ASC"
         elif self.has_desc:
             order_by_item_str += " DESC"
+        if self.nulls:
+            order_by_item_str += " NULLS {}".format(self.nulls.upper())
         return order_by_item_str
 
     def __repr__(self):
-        return "<OrderByItem: {} has_asc={} has_desc={}>".format(
-            repr(self.value), self.has_asc, self.has_desc
+        return "<OrderByItem: {} has_asc={} has_desc={} nulls={}>".format(
+            repr(self.value), self.has_asc, self.has_desc, self.nulls
         )
 
     def __eq__(self, other):
@@ -425,6 +430,7 @@ class OrderByItem(Expression):
             super().__eq__(other)
             and self.has_asc == other.has_asc
             and self.has_desc == other.has_desc
+            and self.nulls == other.nulls
         )
 
     def validate(self, known_fields, select_expressions):
-- 
2.43.0


From abf139584d9cd3ea25507233b20f05034bd77dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:56 +0000
Subject: [PATCH 14/80] fix: validation of CAST

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c89badc..697436f 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -588,6 +588,9 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
+    def validate(self, known_fields):
+        return self.args[0].validate(known_fields)
+
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-- 
2.43.0


From 81f06f3c738a1f1d7ff8d659cbb88c19cf7e3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 15/80] fix: validation of an integer in the ORDER BY of a
 window

---
 sqlvalidator/grammar/sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 697436f..530fac6 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -440,7 +440,10 @@ class OrderByItem(Expression):
             value = value.value
 
         if isinstance(value, Integer):
-            if value.value <= 0 or value.value > len(select_expressions):
+            # Integers are not positions in the ORDER BY of a window or an aggregation
+            if select_expressions is not None and (
+                value.value <= 0 or value.value > len(select_expressions)
+            ):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
-- 
2.43.0


From 499f533e3b7fa0b05c8b511629c1a108e9fe9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:00 +0000
Subject: [PATCH 16/80] fix: validation of subqueries used as expressions

---
 sqlvalidator/grammar/sql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 530fac6..30bc922 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -147,6 +147,13 @@ class SelectStatement:
             errors += self.offset_clause.validate(known_fields)
         return errors
 
+    @property
+    def return_type(self):
+        return object
+
+    def resolve_return_type(self, known_fields):
+        return self.return_type
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
-- 
2.43.0


From 250f9983c18fd3192989be3f7695fd6f9fc3841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 17/80] fix: validation of LIMIT ALL

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 30bc922..9803dd3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -479,6 +479,8 @@ class LimitClause(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.limit_all:
+            return errors
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
-- 
2.43.0


From f14579e0dab9c241447d85028cc3e2845561b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 18/80] fix: report of an ambiguous column in GROUP BY

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9803dd3..4514097 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -345,7 +345,7 @@ class GroupByClause(Expression):
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
                 ]
                 if len(fields_without_alias) > 1:
-                    errors.append('column "{}" is ambiguous'.format(self.value))
+                    errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
-- 
2.43.0


From 416ef8bb8dd538606c932daa69d4d6dc19ebf201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 19/80] fix: validation of empty parentheses

---
 sqlvalidator/grammar/sql.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 4514097..9b6b7db 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -324,7 +324,7 @@ class GroupByClause(Expression):
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
         for arg in self.args:
-            while isinstance(arg, Parenthesis):
+            while isinstance(arg, Parenthesis) and arg.args:
                 arg = arg.args[0]
             if isinstance(arg, Integer) and (
                 arg.value <= 0 or arg.value > len(select_expressions)
@@ -443,8 +443,8 @@ class OrderByItem(Expression):
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
         value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        while isinstance(value, Parenthesis) and value.args:
+            value = value.args[0]
 
         if isinstance(value, Integer):
             # Integers are not positions in the ORDER BY of a window or an aggregation
@@ -482,8 +482,8 @@ class LimitClause(Expression):
         if self.limit_all:
             return errors
         value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        while isinstance(value, Parenthesis) and value.args:
+            value = value.args[0]
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of LIMIT must not contain variables")
         else:
@@ -496,8 +496,8 @@ class OffsetClause(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         value = self.value
-        while isinstance(value, Parenthesis):
-            value = value.value
+        while isinstance(value, Parenthesis) and value.args:
+            value = value.args[0]
         if value.return_type != int or not isinstance(value, Integer):
             errors.append("argument of OFFSET must be integer")
         else:
@@ -1034,8 +1034,9 @@ class Parenthesis(Expression):
 
     @property
     def return_type(self):
-        for a in self.args:
-            return a.return_type
+        if not self.args:
+            return object
+        return self.args[0].return_type
 
 
 class Array(Expression):
-- 
2.43.0


From b92c59cc1ce4493f0f1896da717abc8d7111f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 20/80] fix: validation of WITH statements

---
 sqlvalidator/grammar/sql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9b6b7db..28c0cbe 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -537,6 +537,17 @@ class WithStatement(Expression):
             transform(self.select_statement),
         )
 
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        errors = []
+        for with_query in self.with_queries:
+            errors += with_query.statement.validate(known_fields)
+        errors += self.select_statement.validate(known_fields)
+        return errors
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return self.select_statement.known_fields
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
-- 
2.43.0


From 6f8ba025795b448e3008ab57138a5effa92ccb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 21/80] fix: validate both sides of a join

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 28c0cbe..5cd7663 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1342,6 +1342,8 @@ class Join(Expression):
 
     def validate(self, known_fields: Set[_FieldInfo]) -> list:
         errors = super().validate(known_fields)
+        errors += self.left_from.validate(set())
+        errors += self.right_from.validate(set())
         if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
             errors.append("Missing ON or USING for join")
         return errors
-- 
2.43.0


From d39c108816fb91aaa27046fb439c45f96a604968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 22/80] fix: validate set operations and resolve columns in
 them

---
 sqlvalidator/grammar/sql.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5cd7663..a579bba 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1391,6 +1391,17 @@ class CombinedQueries(Expression):
 
         return "{}\n{}{}".format(left_query, self.set_operator.upper(), right_query)
 
+    def validate(self, known_fields: Set[_FieldInfo]) -> list:
+        errors = super().validate(known_fields)
+        errors += self.left_query.validate(set())
+        errors += self.right_query.validate(set())
+        return errors
+
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        # The left query names the columns
+        return self.left_query.known_fields
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
-- 
2.43.0


From 8bc36fc14a6c071d08ebd567d7b266a78cf65808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 23/80] fix: columns of UNNEST are not known to validation

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a579bba..fe36b44 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1214,6 +1214,10 @@ class Unnest(Expression):
                 unnest_str += f" {self.offset_alias}"
         return unnest_str
 
+    @property
+    def known_fields(self) -> Set[_FieldInfo]:
+        return {_FieldInfo("*", type=object)}
+
     def __eq__(self, other):
         return (
             (isinstance(other, type(self)) or isinstance(self, type(other)))
-- 
2.43.0


From 27940cabca74798c10919f0f6ba39601505e1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 24/80] fix: columns exported by a subquery with a qualifier or
 a quoted alias

---
 sqlvalidator/grammar/sql.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index fe36b44..a10c45b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -160,11 +160,10 @@ class SelectStatement:
         for e in self.expressions:
             if isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
+            elif isinstance(e, ChainedColumns) and isinstance(e.columns[-1], Column):
+                fields.add(_FieldInfo(e.columns[-1].value, e.return_type))
             elif isinstance(e, Alias):
-                if isinstance(e.alias, Column):
-                    fields.add(_FieldInfo(e.alias.value, e.return_type))
-                else:
-                    fields.add(_FieldInfo(e.alias, e.return_type))
+                fields.add(_FieldInfo(e.alias_name, e.return_type))
 
         if self.from_statement:
             if isinstance(self.from_statement, Parenthesis) and isinstance(
@@ -1099,6 +1098,12 @@ class Alias(Expression):
         errors += self.expression.validate(known_fields)
         return errors
 
+    @property
+    def alias_name(self) -> str:
+        if isinstance(self.alias, (Column, String)):
+            return self.alias.value
+        return self.alias
+
     @property
     def return_type(self):
         return self.expression.return_type
-- 
2.43.0


From 1e908df1f2f2e8f02661dfe3d73044c388ba47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 25/80] fix: GROUP BY an alias introduced with AS

---
 sqlvalidator/grammar/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a10c45b..b5b5dc7 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -336,7 +336,9 @@ class GroupByClause(Expression):
                 and (
                     not any(f.name == arg.value for f in known_fields)
                     and arg.value
-                    not in [e.alias for e in select_expressions if isinstance(e, Alias)]
+                    not in [
+                        e.alias_name for e in select_expressions if isinstance(e, Alias)
+                    ]
                 )
                 and not any(f.name == "*" for f in known_fields)
             ):
-- 
2.43.0


From 874b823f3b4b8dadf55776603249b6627b6e50d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 26/80] fix: ORDER BY an alias of the SELECT list

---
 sqlvalidator/grammar/sql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b5b5dc7..eebc884 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -455,7 +455,11 @@ class OrderByItem(Expression):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
-        else:
+        elif not (
+            isinstance(value, Column)
+            and value.value
+            in [e.alias_name for e in select_expressions or [] if isinstance(e, Alias)]
+        ):
             errors += self.value.validate(known_fields)
         return errors
 
-- 
2.43.0


From 1fe25b8cf7b8618c71e60385f1aab7620d74da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 27/80] fix: validation of joins with quoted aliases

---
 sqlvalidator/grammar/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index eebc884..fb84f9b 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1367,14 +1367,14 @@ class Join(Expression):
     def known_fields(self) -> Set[_FieldInfo]:
         known_fields = set()
         if isinstance(self.left_from, Alias):
-            left_alias = self.left_from.alias
+            left_alias = transform(self.left_from.alias)
             for field in self.left_from.expression.known_fields:
                 known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
         else:
             known_fields |= self.left_from.known_fields
 
         if isinstance(self.right_from, Alias):
-            right_alias = self.right_from.alias
+            right_alias = transform(self.right_from.alias)
             for field in self.right_from.expression.known_fields:
                 known_fields.add(
                     _FieldInfo(
-- 
2.43.0


From 68d5f558461f1a881ec07524dae095e9b99a3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 28/80] fix: unqualified columns of an aliased SELECT *

---
 sqlvalidator/grammar/sql.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index fb84f9b..ae138ab 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -17,6 +17,13 @@ class _FieldInfo:
     name: str
     type: type
 
+    @property
+    def has_any_column(self):
+        """
+        Is it the star of a table, or of an aliased table
+        """
+        return self.name.split(".")[-1] == "*"
+
     def __hash__(self):
         return hash(self.name)
 
@@ -340,7 +347,7 @@ class GroupByClause(Expression):
                         e.alias_name for e in select_expressions if isinstance(e, Alias)
                     ]
                 )
-                and not any(f.name == "*" for f in known_fields)
+                and not any(f.has_any_column for f in known_fields)
             ):
                 fields_without_alias = [
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
@@ -825,7 +832,7 @@ class Column(Expression):
         if (
             not any(f.name == self.value for f in known_fields)
             and self.value != "*"
-            and not any(f.name == "*" for f in known_fields)
+            and not any(f.has_any_column for f in known_fields)
         ):
             fields_without_alias = [
                 f for f in known_fields if f.name.split(".", 1)[-1] == self.value
-- 
2.43.0


From f0635ddb6e6bcdd0aadbf2000326e2f0140304d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 29/80] fix: quoted columns and star with EXCEPT or REPLACE
 exported by a subquery

---
 sqlvalidator/grammar/sql.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ae138ab..7beb829 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -167,8 +167,14 @@ class SelectStatement:
         for e in self.expressions:
             if isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
-            elif isinstance(e, ChainedColumns) and isinstance(e.columns[-1], Column):
-                fields.add(_FieldInfo(e.columns[-1].value, e.return_type))
+            elif isinstance(e, ChainedColumns) and isinstance(
+                e.columns[-1], (Column, String)
+            ):
+                fields.add(_FieldInfo(e.columns[-1].value, object))
+            elif isinstance(e, String) and e.quotes != "'":
+                fields.add(_FieldInfo(e.value, object))
+            elif isinstance(e, SelectAllClause):
+                fields.add(_FieldInfo("*", object))
             elif isinstance(e, Alias):
                 fields.add(_FieldInfo(e.alias_name, e.return_type))
 
@@ -1115,7 +1121,7 @@ class Alias(Expression):
     def alias_name(self) -> str:
         if isinstance(self.alias, (Column, String)):
             return self.alias.value
-        return self.alias
+        return transform(self.alias)
 
     @property
     def return_type(self):
-- 
2.43.0


From f535c624c190856bfb7235c53cd6c603a8c73676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 30/80] fix: report malformed statements as invalid instead of
 raising

---
 sqlvalidator/sql_validator.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..1e07fbc 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -14,7 +14,17 @@ class SQLQuery:
     @property
     def sql_query(self):
         if self._sql_query is None:
-            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
+            try:
+                self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
+            except (ParsingError, RecursionError):
+                raise
+            except Exception as ex:
+                # The parser ran out of tokens or found an unexpected one
+                raise ParsingError(
+                    "could not parse the statement ({}: {})".format(
+                        type(ex).__name__, ex
+                    )
+                ) from ex
         return self._sql_query
 
     def format(self) -> str:
-- 
2.43.0


From 224b515cdf08db16b4e9fba0e373c9f036729ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 31/80] fix: report a missing closing parenthesis

---
 sqlvalidator/grammar/tokeniser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 00bb3d7..8a1bd10 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -54,6 +54,8 @@ def get_tokens_until_closing_parenthesis(tokens, first_token=None):
             count_parenthesis -= 1
         next_token = next(tokens, None)
 
+    if next_token is None:
+        raise ValueError("Did not find closing parenthesis")
     return argument_tokens
 
 
-- 
2.43.0


From a7f4207a1d5a695ce66a42194859c20720ce7276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 32/80] fix: report a missing closing square bracket

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index f87cbe2..888ff7c 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -740,6 +740,7 @@ class ExpressionParser:
                 argument_tokens, next_token = get_tokens_until_one_of(
                     tokens, stop_words=["]"]
                 )
+                assert next_token == "]", next_token
                 arguments = ExpressionListParser.parse(iter(argument_tokens))
                 expression = Index(
                     Column(main_token), arguments
@@ -836,6 +837,7 @@ class ExpressionParser:
             argument_tokens, next_token = get_tokens_until_one_of(
                 tokens, stop_words=["]"]
             )
+            assert next_token == "]", next_token
             arguments = ExpressionListParser.parse(iter(argument_tokens))
             expression = Index(expression, arguments)
             next_token = next(tokens, None)
-- 
2.43.0


From 49050a03f9c3725ae85612d9fd5449609c1abb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:43 +0000
Subject: [PATCH 33/80] fix: report EXCEPT and REPLACE without columns

---
 sqlvalidator/grammar/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 888ff7c..deb4853 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -904,6 +904,8 @@ class ExpressionParser:
                 raise ParsingError("expected '('")
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
             arguments = ExpressionListParser.parse(iter(argument_tokens))
+            if not arguments:
+                raise ParsingError("expected a column in EXCEPT")
             expression = ExceptClause(expression, arguments)
             next_token = next(tokens, None)
 
@@ -913,6 +915,8 @@ class ExpressionParser:
                 raise ParsingError("expected '('")
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
             arguments = ExpressionListParser.parse(iter(argument_tokens))
+            if not arguments:
+                raise ParsingError("expected a column in REPLACE")
             for arg in arguments:
                 assert (
                     isinstance(arg, Alias) and arg.with_as is True
-- 
2.43.0


From 7601716b74a64fb5890d2224bde243fc5db0f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 34/80] fix: do not drop tokens that follow the argument of
 LIMIT or OFFSET

---
 sqlvalidator/grammar/lexer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index deb4853..207a3c7 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -499,17 +499,20 @@ class LimitClauseParser:
             expression = None
         else:
             limit_all = False
-            expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, [], first_token=next_token
+            expression, next_token = ExpressionParser.parse(
+                tokens, can_alias=False, first_token=next_token
             )
-            expression, _ = ExpressionParser.parse(iter(expression_tokens))
+            if next_token is not None:
+                raise ParsingError("unexpected {} in LIMIT".format(next_token))
         return LimitClause(limit_all, expression)
 
 
 class OffsetClauseParser:
     @staticmethod
     def parse(tokens):
-        expression, _ = ExpressionParser.parse(tokens)
+        expression, next_token = ExpressionParser.parse(tokens, can_alias=False)
+        if next_token is not None:
+            raise ParsingError("unexpected {} in OFFSET".format(next_token))
         return OffsetClause(expression)
 
 
-- 
2.43.0


From 5927f6500a0d2a1001e9b73e3277db3a082ccb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 35/80] fix: a malformed SQL string does not stop the analysis
 of its file

---
 sqlvalidator/file_handler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..6f57447 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -4,6 +4,7 @@ import tokenize
 from typing import IO, List, Optional, Set, Tuple
 
 from . import sql_validator
+from .grammar.lexer import ParsingError
 
 NO_SQLFORMAT_COMMENT = "nosqlformat"
 NO_SQLVALIDATION_COMMENT = "nosqlvalidation"
@@ -343,6 +344,7 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     Read a SQL string as input, potentially with quotes or not,
     and analyse it in order to get the formatter content and know if it is valid.
     """
+    original_string = sql_string
     quotes = None
     quotes_prefix = None
 
@@ -372,7 +374,11 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
 
     sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
-    formatted_sql = sql_query.format()
+    try:
+        formatted_sql = sql_query.format()
+    except ParsingError:
+        # Malformed statement, which can only be reported by the validation
+        return original_string, sql_query
 
     if len(quotes) == 1 and "\n" in formatted_sql:
         # Need to change to triple quotes
-- 
2.43.0


From 2739e0f29afca1a8fbb0f48c599691c17832c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:53 +0000
Subject: [PATCH 36/80] fix: a string that contains nosqlformat or
 nosqlvalidation is not a comment

---
 sqlvalidator/file_handler.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 6f57447..bb14bd0 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -292,16 +292,12 @@ def compute_file_content(
                 (next_token, next_token_value, next_starting, next_ending, next_line)
             )
 
-        needs_format = should_format and NO_SQLFORMAT_COMMENT not in next_token_value
-        needs_validate = (
-            should_validate and NO_SQLVALIDATION_COMMENT not in next_token_value
-        )
+        comment = next_token_value if next_token == tokenize.COMMENT else ""
+        needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
+        needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
         if next_token != tokenize.COMMENT or needs_format or needs_validate:
             formatted_sql, sql_query = handle_sql_string(token_value)
-            if (
-                formatted_sql != token_value
-                and NO_SQLFORMAT_COMMENT not in next_token_value
-            ):
+            if formatted_sql != token_value and NO_SQLFORMAT_COMMENT not in comment:
                 tokens.append((token_type, formatted_sql, starting, ending, line))
                 count_changed_sql += 1
             else:
-- 
2.43.0


From 40ccd8de85d917fb1544223846796783b0bdf003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 37/80] fix: formatted SQL that ends with the quote of its
 triple-quoted string

---
 sqlvalidator/file_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index bb14bd0..6ea069c 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -385,7 +385,9 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     else:
         new_quotes = quotes
 
-    if len(new_quotes) == 3 and "\n" in formatted_sql:
+    if len(new_quotes) == 3 and (
+        "\n" in formatted_sql or formatted_sql.endswith(new_quotes[0])
+    ):
         quoted_sql = "{prefix}{quotes}\n{sql}\n{quotes}".format(
             prefix=quotes_prefix or "", quotes=new_quotes, sql=formatted_sql
         )
-- 
2.43.0


From eda0455e0270c8fc460dd56585c833c2db5d67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 38/80] fix: do not take a string for SQL when it starts with
 other letters

---
 sqlvalidator/file_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 6ea069c..e73ddba 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -399,7 +399,7 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
 
 
 def is_select_string(token_value: str) -> bool:
-    cleaned_value = token_value.lower().lstrip(" \n'\"`ufbr")
+    cleaned_value = token_value.lower().lstrip("ufbr").lstrip(" \n'\"`")
     lines = cleaned_value.splitlines()
     if not lines:
         return False
-- 
2.43.0


From ce35f62bcf4b41468f6ea3c89c6dcc2770068f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 39/80] fix: keep the line endings of reformatted files

---
 sqlvalidator/file_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index e73ddba..8c11590 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -201,12 +201,15 @@ def analyse_file(
         ) = compute_file_content(
             file, format_input or check, validate or verbose_validate
         )
+        newlines = file.newlines
 
     file_changed = count_changed_sql > 0
     if file_changed:
         starting_text = None
         if format_input:
-            with open(filename, "w") as f:
+            # Keep the line endings, unless they were mixed
+            newline = newlines if isinstance(newlines, str) else None
+            with open(filename, "w", newline=newline) as f:
                 f.write(new_content)
             starting_text = "reformatted"
         elif check:
-- 
2.43.0


From 94e498bbb9d026d177c8699e2b19576948d5b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 40/80] fix: CAST to types with several words or with
 parameters

---
 sqlvalidator/grammar/lexer.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 207a3c7..48c6eae 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -630,11 +630,9 @@ class ExpressionParser:
                         until_one_of=until_one_of,
                     )
                     assert lower(next_token) == "as", next_token
-                    next_token = next(tokens)
-                    cast_type = Type(next_token)
+                    type_tokens = get_tokens_until_closing_parenthesis(tokens)
+                    cast_type = TypeParser.parse(iter(type_tokens))
                     expression = CastFunctionCall(column, cast_type)
-                    next_token = next(tokens)
-                    assert lower(next_token) == ")", next_token
                 elif lower(main_token) == "array_agg":
                     next_token = next(tokens)
                     if lower(next_token) == "distinct":
@@ -949,6 +947,18 @@ class ExpressionParser:
         return expression, next_token
 
 
+class TypeParser:
+    @staticmethod
+    def parse(tokens):
+        value = previous_token = next(tokens)
+        for token in tokens:
+            if token not in ("(", ")", "<", ">", ",") and previous_token not in "(<":
+                value += " "
+            value += token
+            previous_token = token
+        return Type(value)
+
+
 class BetweenBoundsParser:
     @staticmethod
     def parse(tokens, until_one_of):
-- 
2.43.0


From 3bf1f67d026b8b99afb740a150e7ffc2f4aabd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 41/80] fix: keep the operand of a unary minus or plus

---
 sqlvalidator/grammar/lexer.py |  9 +++++++++
 sqlvalidator/grammar/sql.py   | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 48c6eae..cce822b 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -40,6 +40,7 @@ from sqlvalidator.grammar.sql import (
     String,
     Table,
     Type,
+    UnaryOperator,
     Unnest,
     UsingClause,
     WhereClause,
@@ -757,6 +758,14 @@ class ExpressionParser:
             ):
                 expression = Float("-" + next_token)
                 next_token = next(tokens, None)
+            elif main_token in UnaryOperator.OPERATORS and next_token is not None:
+                operand, next_token = ExpressionParser.parse(
+                    tokens,
+                    is_right_hand=True,
+                    until_one_of=until_one_of,
+                    first_token=next_token,
+                )
+                expression = UnaryOperator(main_token, operand)
             elif (
                 lower(main_token) in String.PREFIXES
                 and next_token is not None
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 7beb829..9e6739a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1185,6 +1185,27 @@ class Addition(ArithmaticOperator):
         super().__init__("+", *args)
 
 
+class UnaryOperator(Expression):
+    OPERATORS = ("-", "+")
+
+    def __init__(self, operator, expression):
+        super().__init__(expression)
+        self.operator = operator
+
+    def __str__(self):
+        return "{}{}".format(self.operator, transform(self.value))
+
+    def __repr__(self):
+        return "<UnaryOperator {}: {!r}>".format(self.operator, self.value)
+
+    def __eq__(self, other):
+        return super().__eq__(other) and self.operator == other.operator
+
+    @property
+    def return_type(self):
+        return self.value.return_type
+
+
 class BitwiseOperation(Expression):
     OPERATORS = ("&", "|", "^", "||", "<<", ">>", "#")
 
-- 
2.43.0


From ab453cc1cdd95c0fac9744048ab3b31b666a3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:27 +0000
Subject: [PATCH 42/80] fix: keep the text of typed literals like DATE
 '2020-01-01'

---
 sqlvalidator/grammar/lexer.py | 5 +++++
 sqlvalidator/grammar/sql.py   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index cce822b..00451ac 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -766,6 +766,11 @@ class ExpressionParser:
                     first_token=next_token,
                 )
                 expression = UnaryOperator(main_token, operand)
+            elif lower(main_token) in String.TYPES and next_token == "'":
+                expression = StringParser.parse(
+                    tokens, start_quote=next_token, prefix=main_token.upper() + " "
+                )
+                next_token = next(tokens, None)
             elif (
                 lower(main_token) in String.PREFIXES
                 and next_token is not None
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9e6739a..01854a5 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -930,6 +930,7 @@ class DatePartExtraction(Expression):
 class String(Expression):
     QUOTES = ("'", '"', "`")
     PREFIXES = ("r",)
+    TYPES = ("date", "datetime", "time", "timestamp", "interval")
 
     def __init__(self, value, quotes, prefix=None):
         super().__init__(value)
-- 
2.43.0


From 02a067e6916f547807e7cd18e2d95120c0de1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 43/80] fix: keep what follows a string with a prefix

---
 sqlvalidator/grammar/lexer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 00451ac..36b8864 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -779,6 +779,7 @@ class ExpressionParser:
                 expression = StringParser.parse(
                     tokens, start_quote=next_token, prefix=main_token
                 )
+                next_token = next(tokens, None)
             else:
                 expression = Column(main_token)
 
-- 
2.43.0


From bdc0d9020035232bcfcb93b4a26f6876c5ee7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 44/80] fix: nested types in CAST and nested signs

---
 sqlvalidator/grammar/lexer.py | 4 +++-
 sqlvalidator/grammar/sql.py   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 36b8864..38d4dbc 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -967,7 +967,9 @@ class TypeParser:
     def parse(tokens):
         value = previous_token = next(tokens)
         for token in tokens:
-            if token not in ("(", ")", "<", ">", ",") and previous_token not in "(<":
+            if token not in ("(", ")", "<", ">", ">>", ",") and (
+                previous_token not in ("(", "<")
+            ):
                 value += " "
             value += token
             previous_token = token
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 01854a5..20801a5 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1194,7 +1194,10 @@ class UnaryOperator(Expression):
         self.operator = operator
 
     def __str__(self):
-        return "{}{}".format(self.operator, transform(self.value))
+        operand = transform(self.value)
+        # Two minus signs in a row would start a comment
+        separator = " " if operand.startswith(self.OPERATORS) else ""
+        return "{}{}{}".format(self.operator, separator, operand)
 
     def __repr__(self):
         return "<UnaryOperator {}: {!r}>".format(self.operator, self.value)
-- 
2.43.0


From 5f817bf3be96e2993912a7647ce32c794db2b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 45/80] fix: keep minus zero and leading zeros of integers

---
 sqlvalidator/grammar/lexer.py | 2 +-
 sqlvalidator/grammar/sql.py   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 38d4dbc..cb850fd 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -749,7 +749,7 @@ class ExpressionParser:
                 )  # left item will not always be a column
                 next_token = next(tokens, None)
             elif next_token is not None and main_token == "-" and next_token.isdigit():
-                expression = Integer(-int(next_token))
+                expression = Integer("-" + next_token)
                 next_token = next(tokens, None)
             elif (
                 next_token is not None
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 20801a5..ebc9365 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -955,9 +955,11 @@ class String(Expression):
 class Integer(Expression):
     def __init__(self, value):
         super().__init__(int(value))
+        # Keep how it was written, int() drops the sign and leading zeros of -0 and 007
+        self.text = str(value)
 
     def __str__(self):
-        return str(self.value)
+        return self.text
 
     @property
     def return_type(self):
-- 
2.43.0


From 46ce492d7aeef852c5d566545be64e37a6d64536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 46/80] fix: UNION, INTERSECT and EXCEPT with DISTINCT

---
 sqlvalidator/grammar/lexer.py | 2 +-
 sqlvalidator/grammar/sql.py   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index cb850fd..3f40d3b 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -241,7 +241,7 @@ class FromStatementParser:
         while lower(next_token) in CombinedQueries.SET_OPERATORS:
             left_expr = expression
             expression_tokens, next_token = get_tokens_until_not_in(
-                tokens, CombinedQueries.SET_OPERATORS, first_token=next_token
+                tokens, CombinedQueries.SET_OPERATOR_WORDS, first_token=next_token
             )
             set_operator = SetOperatorTypeParser.parse(iter(expression_tokens))
             expression_tokens, next_token = get_tokens_until_one_of(
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ebc9365..9dfe750 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1430,6 +1430,7 @@ class Join(Expression):
 
 class CombinedQueries(Expression):
     SET_OPERATORS = ("union", "intersect", "except", "all")
+    SET_OPERATOR_WORDS = SET_OPERATORS + ("distinct",)
 
     def __init__(self, set_operator, left_query, right_query):
         self.set_operator = set_operator
-- 
2.43.0


From 159140971d630606bc69d85ca53903ea20c0ace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 47/80] fix: keep set operators after any clause and validate
 each query in its own scope

---
 sqlvalidator/grammar/lexer.py | 70 +++++++++++++++++++++++++++++------
 sqlvalidator/grammar/sql.py   | 21 ++++++++++-
 2 files changed, 77 insertions(+), 14 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3f40d3b..251d282 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -73,7 +73,8 @@ class SQLStatementParser:
 
 
 class SelectStatementParser:
-    keywords = (";", "from", "where", "group", "having", "order", "limit", "offset")
+    clause_keywords = (";", "where", "group", "having", "order", "limit", "offset")
+    keywords = clause_keywords + ("from",)
 
     @classmethod
     def parse(cls, tokens):
@@ -99,16 +100,34 @@ class SelectStatementParser:
             first_expression_token = next_token
 
         expression_tokens, next_token = get_tokens_until_one_of(
-            tokens, cls.keywords, first_token=first_expression_token
+            tokens,
+            cls.keywords + CombinedQueries.SET_OPERATORS,
+            first_token=first_expression_token,
+            keep=[("*", "except")],
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
 
+        set_operator_tokens = []
         if lower(next_token) == "from":
+            from_keep = [("with", "offset")]
+            from_end = cls.clause_keywords + CombinedQueries.SET_OPERATORS
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens,
-                ["where", "group", "having", "order", "limit", "offset", ";"],
-                keep=[("with", "offset")],
+                tokens, from_end, keep=from_keep
             )
+            while lower(next_token) in CombinedQueries.SET_OPERATORS:
+                set_operator_tokens, next_token = get_tokens_until_not_in(
+                    tokens, CombinedQueries.SET_OPERATOR_WORDS, first_token=next_token
+                )
+                if next_token in (None, ";"):
+                    raise ParsingError("Missing query after set operator")
+                if lower(next_token) == "select":
+                    break
+                # The operator combines tables or parenthesised queries
+                right_tokens, next_token = get_tokens_until_one_of(
+                    tokens, from_end, first_token=next_token, keep=from_keep
+                )
+                expression_tokens += set_operator_tokens + right_tokens
+                set_operator_tokens = []
             from_statement = FromStatementParser.parse(iter(expression_tokens))
         else:
             from_statement = None
@@ -127,7 +146,7 @@ class SelectStatementParser:
             if not lower(next_token) == "by":
                 raise ParsingError("Missing BY after GROUP")
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["having", "order", "limit", "offset", ";"]
+                tokens, cls.clause_keywords + CombinedQueries.SET_OPERATORS
             )
             group_by_clause = GroupByParser.parse(iter(expression_tokens))
             group_by_clause.group_each_by = group_each_by
@@ -144,7 +163,7 @@ class SelectStatementParser:
             if not lower(next_token) == "by":
                 raise ParsingError("Missing BY after ORDER")
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["limit", "offset", ";"]
+                tokens, ("limit", "offset", ";") + CombinedQueries.SET_OPERATORS
             )
             order_by_clause = OrderByParser.parse(iter(expression_tokens))
         else:
@@ -152,18 +171,38 @@ class SelectStatementParser:
 
         if lower(next_token) == "limit":
             expression_tokens, next_token = get_tokens_until_one_of(
-                tokens, ["offset", ";"]
+                tokens, ("offset", ";") + CombinedQueries.SET_OPERATORS
             )
             limit_clause = LimitClauseParser.parse(iter(expression_tokens))
         else:
             limit_clause = None
 
         if lower(next_token) == "offset":
-            expression_tokens, next_token = get_tokens_until_one_of(tokens, [";"])
+            expression_tokens, next_token = get_tokens_until_one_of(
+                tokens, (";",) + CombinedQueries.SET_OPERATORS
+            )
             offset_clause = OffsetClauseParser.parse(iter(expression_tokens))
         else:
             offset_clause = None
 
+        if lower(next_token) in CombinedQueries.SET_OPERATORS:
+            set_operator_tokens, next_token = get_tokens_until_not_in(
+                tokens, CombinedQueries.SET_OPERATOR_WORDS, first_token=next_token
+            )
+
+        set_operator = right_query = None
+        if set_operator_tokens:
+            set_operator = SetOperatorTypeParser.parse(iter(set_operator_tokens))
+            if lower(next_token) == "select":
+                right_query, next_token = cls.parse(tokens), None
+            elif next_token in (None, ";"):
+                raise ParsingError("Missing query after set operator")
+            else:
+                right_tokens, next_token = get_tokens_until_one_of(
+                    tokens, [";"], first_token=next_token
+                )
+                right_query = FromStatementParser.parse(iter(right_tokens))
+
         semi_colon = bool(next_token and next_token == ";")
         return SelectStatement(
             select_all=select_all,
@@ -178,6 +217,8 @@ class SelectStatementParser:
             limit_clause=limit_clause,
             offset_clause=offset_clause,
             semi_colon=semi_colon,
+            set_operator=set_operator,
+            right_query=right_query,
         )
 
 
@@ -248,6 +289,7 @@ class FromStatementParser:
                 tokens,
                 CombinedQueries.SET_OPERATORS,
                 first_token=next_token,
+                keep=[("*", "except")],
             )
             if lower(expression_tokens[0]) == "select":
                 right_expr = SelectStatementParser.parse(iter(expression_tokens[1:]))
@@ -417,7 +459,8 @@ class WhereClauseParser:
         expression, next_token = ExpressionParser.parse(
             tokens,
             can_alias=False,
-            until_one_of=("group", "having", "order", "limit", "offset", ";"),
+            until_one_of=SelectStatementParser.clause_keywords
+            + CombinedQueries.SET_OPERATORS,
         )
         return WhereClause(expression), next_token
 
@@ -442,7 +485,10 @@ class HavingClauseParser:
     @staticmethod
     def parse(tokens):
         expression, next_token = ExpressionParser.parse(
-            tokens, can_alias=False, until_one_of=["order", "limit", "offset", ";"]
+            tokens,
+            can_alias=False,
+            until_one_of=SelectStatementParser.clause_keywords
+            + CombinedQueries.SET_OPERATORS,
         )
         return HavingClause(expression), next_token
 
@@ -914,7 +960,7 @@ class ExpressionParser:
                 right_alias.expression = expression
                 expression = right_alias
 
-        if lower(next_token) == "except":
+        if lower(next_token) == "except" and "except" not in until_one_of:
             opening_parenthesis = next(tokens, None)
             if opening_parenthesis != "(":
                 raise ParsingError("expected '('")
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9dfe750..6d84ccd 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -43,6 +43,8 @@ class SelectStatement:
         limit_clause=None,
         offset_clause=None,
         semi_colon=True,
+        set_operator=None,
+        right_query=None,
     ):
         self.expressions = expressions
         self.select_all = select_all
@@ -56,6 +58,8 @@ class SelectStatement:
         self.limit_clause = limit_clause
         self.offset_clause = offset_clause
         self.semi_colon = semi_colon
+        self.set_operator = set_operator
+        self.right_query = right_query
 
     def transform(self, is_subquery=False):
         statement_str = "SELECT"
@@ -124,6 +128,11 @@ class SelectStatement:
         if self.offset_clause:
             statement_str += "\nOFFSET {}".format(transform(self.offset_clause))
 
+        if self.set_operator:
+            statement_str += "\n{}\n{}".format(
+                self.set_operator, transform(self.right_query)
+            )
+
         if is_subquery:
             statement_str = " " + statement_str.replace("\n", "\n ")
         elif self.semi_colon:
@@ -152,6 +161,8 @@ class SelectStatement:
             errors += self.limit_clause.validate(known_fields)
         if self.offset_clause:
             errors += self.offset_clause.validate(known_fields)
+        if self.set_operator:
+            errors += self.right_query.validate(known_fields=set())
         return errors
 
     @property
@@ -218,6 +229,8 @@ class SelectStatement:
             and self.limit_clause == other.limit_clause
             and self.offset_clause == other.offset_clause
             and self.semi_colon == other.semi_colon
+            and self.set_operator == other.set_operator
+            and self.right_query == other.right_query
         )
 
     def __repr__(self):
@@ -232,6 +245,8 @@ class SelectStatement:
   Limit: {!r}
   Offset: {!r}
   Semi Colon: {!r}
+  Set Operator: {!r}
+  Right query: {!r}
 >
         """.format(
             self.__class__.__name__,
@@ -247,6 +262,8 @@ class SelectStatement:
             self.limit_clause,
             self.offset_clause,
             self.semi_colon,
+            self.set_operator,
+            self.right_query,
         )
 
 
@@ -1429,8 +1446,8 @@ class Join(Expression):
 
 
 class CombinedQueries(Expression):
-    SET_OPERATORS = ("union", "intersect", "except", "all")
-    SET_OPERATOR_WORDS = SET_OPERATORS + ("distinct",)
+    SET_OPERATORS = ("union", "intersect", "except")
+    SET_OPERATOR_WORDS = SET_OPERATORS + ("all", "distinct")
 
     def __init__(self, set_operator, left_query, right_query):
         self.set_operator = set_operator
-- 
2.43.0


From ceb2e115c7151c3037f131f6ba03806dfb2cb89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:56 +0000
Subject: [PATCH 48/80] fix: keep the lines of multi-line literals as they are

---
 sqlvalidator/grammar/sql.py   | 9 ++++++++-
 sqlvalidator/sql_formatter.py | 7 ++++++-
 sqlvalidator/sql_validator.py | 3 ++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6d84ccd..f56dad0 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -6,6 +6,10 @@ from sqlvalidator.grammar.tokeniser import lower
 DEFAULT_LINE_LENGTH = 88
 
 
+# Stands for a newline in the content of a literal until the layout is done
+CONTENT_NEWLINE = "\0"
+
+
 def transform(obj: Any) -> str:
     if hasattr(obj, "transform"):
         return obj.transform()
@@ -955,8 +959,11 @@ class String(Expression):
         self.prefix = prefix
 
     def __str__(self):
+        # The content must not be re-indented with the text around it
         return "{prefix}{quotes}{value}{quotes}".format(
-            quotes=self.quotes, value=self.value, prefix=self.prefix or ""
+            quotes=self.quotes,
+            value=self.value.replace("\n", CONTENT_NEWLINE),
+            prefix=self.prefix or "",
         )
 
     def __repr__(self):
diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index e4702de..33e6459 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,6 +1,11 @@
 from sqlvalidator.grammar.lexer import SQLStatementParser
+from sqlvalidator.grammar.sql import CONTENT_NEWLINE, transform
 from sqlvalidator.grammar.tokeniser import to_tokens
 
 
+def format_statement(statement) -> str:
+    return transform(statement).replace(CONTENT_NEWLINE, "\n")
+
+
 def format_sql(sql_string: str) -> str:
-    return SQLStatementParser.parse(to_tokens(sql_string)).transform()
+    return format_statement(SQLStatementParser.parse(to_tokens(sql_string)))
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index 1e07fbc..3a50fb9 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -2,6 +2,7 @@ from typing import List
 
 from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
 from sqlvalidator.grammar.tokeniser import to_tokens
+from sqlvalidator.sql_formatter import format_statement
 
 
 class SQLQuery:
@@ -28,7 +29,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return self.sql_query.transform()
+        return format_statement(self.sql_query)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From 818bc7e5d9c3a7b57aea8f577bfde18687190ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 49/80] fix: do not return a formatted text which lost a part
 of the query

---
 sqlvalidator/sql_formatter.py | 20 +++++++++++++++-----
 sqlvalidator/sql_validator.py |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/sql_formatter.py b/sqlvalidator/sql_formatter.py
index 33e6459..5b795bc 100644
--- a/sqlvalidator/sql_formatter.py
+++ b/sqlvalidator/sql_formatter.py
@@ -1,11 +1,21 @@
-from sqlvalidator.grammar.lexer import SQLStatementParser
+from sqlvalidator.grammar.lexer import ParsingError, SQLStatementParser
 from sqlvalidator.grammar.sql import CONTENT_NEWLINE, transform
-from sqlvalidator.grammar.tokeniser import to_tokens
+from sqlvalidator.grammar.tokeniser import lower, to_tokens
 
 
-def format_statement(statement) -> str:
-    return transform(statement).replace(CONTENT_NEWLINE, "\n")
+def get_significant_tokens(sql_string: str) -> list:
+    # The comma after the last element of a list is dropped
+    return [lower(token) for token in to_tokens(sql_string) if token != ","]
+
+
+def format_statement(statement, sql_string: str) -> str:
+    formatted_sql = transform(statement).replace(CONTENT_NEWLINE, "\n")
+    if get_significant_tokens(formatted_sql) != get_significant_tokens(sql_string):
+        # Something is not supported: rather no formatting than a different query
+        raise ParsingError("could not format the whole statement")
+    return formatted_sql
 
 
 def format_sql(sql_string: str) -> str:
-    return format_statement(SQLStatementParser.parse(to_tokens(sql_string)))
+    statement = SQLStatementParser.parse(to_tokens(sql_string))
+    return format_statement(statement, sql_string)
diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index 3a50fb9..af49bbd 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -29,7 +29,7 @@ class SQLQuery:
         return self._sql_query
 
     def format(self) -> str:
-        return format_statement(self.sql_query)
+        return format_statement(self.sql_query, self.sql)
 
     def is_valid(self) -> bool:
         if not self.validated:
-- 
2.43.0


From b6573529476ef9e21b52ffd568e9ecf480027606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:01 +0000
Subject: [PATCH 50/80] fix: date part of TIMESTAMP_TRUNC is not a column

---
 sqlvalidator/grammar/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 251d282..04473ad 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -751,8 +751,8 @@ class ExpressionParser:
                     expression = CountFunctionCall(*arguments, distinct=distinct)
                 else:
                     argument_tokens = get_tokens_until_closing_parenthesis(tokens)
-                    arguments_can_be_type = can_be_type or any(
-                        lower(t) == "timestamp_trunc" for t in argument_tokens
+                    arguments_can_be_type = (
+                        can_be_type or lower(main_token) == "timestamp_trunc"
                     )
                     arguments = ExpressionListParser.parse(
                         iter(argument_tokens), can_be_type=arguments_can_be_type
-- 
2.43.0


From 94ac8b5eb5072e0cd609e6793d8793f0ae2d2519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 51/80] fix: columns named yes or no are no boolean literals

---
 sqlvalidator/grammar/sql.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index f56dad0..bb164b3 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1019,14 +1019,8 @@ class Null(Expression):
 
 
 class Boolean(Expression):
-    TRUE_VALUES = (
-        "true",
-        "yes",
-    )
-    FALSE_VALUES = (
-        "false",
-        "no",
-    )
+    TRUE_VALUES = ("true",)
+    FALSE_VALUES = ("false",)
     BOOLEAN_VALUES = TRUE_VALUES + FALSE_VALUES
 
     def __init__(self, value):
-- 
2.43.0


From 5274663b8998fc040bfe4ce03908c9a84eb860ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 52/80] fix: keep LIMIT 0 and the digits of LIMIT in ARRAY_AGG

---
 sqlvalidator/grammar/lexer.py | 2 +-
 sqlvalidator/grammar/sql.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 04473ad..881e437 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -723,7 +723,7 @@ class ExpressionParser:
                     limit = None
                     if lower(next_token) == "limit":
                         next_token = next(tokens)
-                        limit = int(next_token)
+                        limit = Integer(next_token)
                         next_token = next(tokens)
 
                     assert lower(next_token) == ")", next_token
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index bb164b3..8f99b17 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -705,7 +705,7 @@ class ArrayAggFunctionCall(FunctionCall):
                 self.order_bys.transform(allow_linebreak=False)
             )
 
-        if self.limit:
+        if self.limit is not None:
             array_agg_str += " LIMIT {}".format(self.limit)
 
         return array_agg_str + ")"
-- 
2.43.0


From 681046678911c47910433a0a085fcda4168af1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 53/80] fix: two-character operators that follow another
 operator character

---
 sqlvalidator/grammar/tokeniser.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index 8a1bd10..2e5cb55 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -144,20 +144,14 @@ def merge_stream(s, goals):
             yield element
             continue
         next_element = next(s, None)
-        if not next_element:
+        while next_element and (element + next_element) not in matching_goals:
             yield element
-            continue
+            # The next element may itself be the start of one of the goals
+            element = next_element
+            matching_goals = [g for g in goals if g.startswith(element)]
+            next_element = next(s, None) if matching_goals else None
 
-        twice_matching_goals = [
-            g for g in matching_goals if (element + next_element) == g
-        ]
-        if len(twice_matching_goals) > 1:
-            raise ValueError("Should not reach here")
-        elif twice_matching_goals:
-            yield twice_matching_goals[0]
-        else:
-            yield element
-            yield next_element
+        yield element + next_element if next_element else element
 
 
 def get_first_string_token(value: str) -> Optional[str]:
-- 
2.43.0


From f0823a95a303cee13dcdeb43de7e9bddd79c800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:41 +0000
Subject: [PATCH 54/80] fix: accept alias.* of a derived table

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 8f99b17..575b19c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -897,6 +897,10 @@ class ChainedColumns(Expression):
         full_value = str(self)
         alias = ".".join(map(transform, self.columns[:-1]))
         last_value = self.columns[-1]
+        if last_value == Column("*") and any(
+            f.name.startswith(f"{alias}.") for f in known_fields
+        ):
+            return errors
         if (
             not any(f.name == full_value for f in known_fields)
             and not any(f.name == f"{alias}.*" for f in known_fields)
-- 
2.43.0


From 65aed5af17062ab83a50e879ce9611ce10ff9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:44 +0000
Subject: [PATCH 55/80] fix: find the columns of an aliased join

---
 sqlvalidator/grammar/sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 575b19c..ae0adec 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1154,8 +1154,11 @@ class Alias(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
+        # The alias of a join hides the aliases inside of it
         return {
-            _FieldInfo("{}.{}".format(transform(self.alias), f.name), f.type)
+            _FieldInfo(
+                "{}.{}".format(transform(self.alias), f.name.split(".")[-1]), f.type
+            )
             for f in self.expression.known_fields
         }
 
-- 
2.43.0


From 278655550c1dd3448e85b3eb9d0b058ca2080422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:46 +0000
Subject: [PATCH 56/80] fix: quoted identifiers are not always of type string

---
 sqlvalidator/grammar/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ae0adec..6c0a616 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -977,6 +977,9 @@ class String(Expression):
 
     @property
     def return_type(self):
+        if self.quotes != "'":
+            # Might be the quoted name of a column
+            return object
         return str
 
 
-- 
2.43.0


From e858e86ed5f940ef5da22a01acbc7e13e93784ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 57/80] fix: positions in a list with a star

---
 sqlvalidator/grammar/sql.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 6c0a616..d954d5a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -323,6 +323,16 @@ class WhereClause(Expression):
         return type(self) == type(other) and self.value == other.value
 
 
+def is_in_select_list(position: int, select_expressions) -> bool:
+    if position <= 0:
+        return False
+    # The number of columns of a star is unknown
+    return position <= len(select_expressions) or any(
+        isinstance(e, SelectAllClause) or transform(e).split(".")[-1] == "*"
+        for e in select_expressions
+    )
+
+
 class GroupByClause(Expression):
     def __init__(self, *args, rollup=False):
         self.args = args
@@ -359,8 +369,8 @@ class GroupByClause(Expression):
         for arg in self.args:
             while isinstance(arg, Parenthesis) and arg.args:
                 arg = arg.args[0]
-            if isinstance(arg, Integer) and (
-                arg.value <= 0 or arg.value > len(select_expressions)
+            if isinstance(arg, Integer) and not is_in_select_list(
+                arg.value, select_expressions
             ):
                 errors.append(
                     "GROUP BY position {} is not in select list".format(arg.value)
@@ -483,8 +493,8 @@ class OrderByItem(Expression):
 
         if isinstance(value, Integer):
             # Integers are not positions in the ORDER BY of a window or an aggregation
-            if select_expressions is not None and (
-                value.value <= 0 or value.value > len(select_expressions)
+            if select_expressions is not None and not is_in_select_list(
+                value.value, select_expressions
             ):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
-- 
2.43.0


From be9d8338896650463e217878231fb174a5a2ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 58/80] fix: validate all expressions of GROUP BY

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d954d5a..cdd0d15 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -393,6 +393,8 @@ class GroupByClause(Expression):
                     errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
+            elif not isinstance(arg, (Column, String, Integer)):
+                errors += arg.validate(known_fields)
 
         return errors
 
-- 
2.43.0


From a186b4b08c0f6d95c2cadda91192e875b01adcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 59/80] fix: columns exported by the star of an aliased derived
 table

---
 sqlvalidator/grammar/sql.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index cdd0d15..1da8603 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -193,16 +193,16 @@ class SelectStatement:
             elif isinstance(e, Alias):
                 fields.add(_FieldInfo(e.alias_name, e.return_type))
 
-        if self.from_statement:
-            if isinstance(self.from_statement, Parenthesis) and isinstance(
-                self.from_statement.args[0], SelectStatement
+        if hasattr(self.from_statement, "known_fields"):
+            subquery_known_fields = self.from_statement.known_fields
+            if any(f.name == "*" for f in fields) and not any(
+                f.has_any_column for f in subquery_known_fields
             ):
-                subquery_known_fields = self.from_statement.args[0].known_fields
-                if any(f.name == "*" for f in fields) and not any(
-                    f.name == "*" for f in subquery_known_fields
-                ):
-                    fields = {f for f in fields if f.name != "*"}
-                    fields |= subquery_known_fields
+                fields = {f for f in fields if f.name != "*"}
+                fields |= {
+                    _FieldInfo(f.name.split(".")[-1], f.type)
+                    for f in subquery_known_fields
+                }
 
         return fields
 
-- 
2.43.0


From cd1d2f31796aa38f1e081881e370b81d2e31cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:48 +0000
Subject: [PATCH 60/80] fix: validate every expression of a parenthesised GROUP
 BY

---
 sqlvalidator/grammar/sql.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1da8603..d2d57f5 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -366,9 +366,11 @@ class GroupByClause(Expression):
 
     def validate(self, known_fields, select_expressions):
         errors = super().validate(known_fields)
-        for arg in self.args:
-            while isinstance(arg, Parenthesis) and arg.args:
-                arg = arg.args[0]
+        args = list(self.args)
+        for arg in args:
+            if isinstance(arg, Parenthesis):
+                args.extend(arg.args)
+                continue
             if isinstance(arg, Integer) and not is_in_select_list(
                 arg.value, select_expressions
             ):
-- 
2.43.0


From 973cabd078eb5dd33e43c432f252ff3d1323f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 61/80] fix: validate the operands of NOT, CASE, arithmetic and
 other operators

---
 sqlvalidator/grammar/sql.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2d57f5..e5a94af 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -271,6 +271,13 @@ class SelectStatement:
         )
 
 
+def validate_all(expressions, known_fields) -> list:
+    errors = []
+    for expression in expressions:
+        errors += expression.validate(known_fields)
+    return errors
+
+
 class Expression:
     def __init__(self, value):
         self.value = value
@@ -965,6 +972,9 @@ class DatePartExtraction(Expression):
     def __str__(self):
         return "{} FROM {}".format(self.part.upper(), transform(self.value))
 
+    def validate(self, known_fields):
+        return self.value.validate(known_fields)
+
 
 class String(Expression):
     QUOTES = ("'", '"', "`")
@@ -1120,6 +1130,9 @@ class Array(Expression):
     def __repr__(self):
         return "<Array: {}>".format(", ".join(map(repr, self.args)))
 
+    def validate(self, known_fields):
+        return validate_all(self.args, known_fields)
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
@@ -1195,6 +1208,9 @@ class Index(Expression):
             self.value, ", ".join(map(repr, self.indices))
         )
 
+    def validate(self, known_fields):
+        return validate_all([self.value, *self.indices], known_fields)
+
 
 class ArithmaticOperator(Expression):
     def __init__(self, operator, *args):
@@ -1210,6 +1226,9 @@ class ArithmaticOperator(Expression):
             self.__class__.__name__, self.operator, ", ".join(map(repr, self.args))
         )
 
+    def validate(self, known_fields):
+        return validate_all(self.args, known_fields)
+
     def __eq__(self, other):
         return (
             (isinstance(other, type(self)) or isinstance(self, type(other)))
@@ -1249,6 +1268,9 @@ class UnaryOperator(Expression):
     def __eq__(self, other):
         return super().__eq__(other) and self.operator == other.operator
 
+    def validate(self, known_fields):
+        return self.value.validate(known_fields)
+
     @property
     def return_type(self):
         return self.value.return_type
@@ -1272,6 +1294,9 @@ class BitwiseOperation(Expression):
             self.value, self.predicate, self.right_hand
         )
 
+    def validate(self, known_fields):
+        return validate_all([self.value, self.right_hand], known_fields)
+
 
 class Table(Expression):
     def __init__(self, value, in_square_brackets=False):
@@ -1670,6 +1695,9 @@ class Negation(Expression):
             negation += " "
         return negation + transform(self.value)
 
+    def validate(self, known_fields):
+        return self.value.validate(known_fields)
+
     @property
     def return_type(self):
         return bool
@@ -1744,3 +1772,11 @@ class Case(Expression):
             case_str += "\n ELSE {}".format(transform(self.else_expression))
         case_str += "\nEND"
         return case_str
+
+    def validate(self, known_fields):
+        expressions = [e for when_then in self.when_then for e in when_then]
+        if self.value:
+            expressions.append(self.value)
+        if self.else_expression:
+            expressions.append(self.else_expression)
+        return validate_all(expressions, known_fields)
-- 
2.43.0


From a0fb506809599488e6f5ba6e5e40964923d12dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:53 +0000
Subject: [PATCH 62/80] fix: known type of a column in parentheses

---
 sqlvalidator/grammar/sql.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e5a94af..960a9a9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1119,6 +1119,11 @@ class Parenthesis(Expression):
             return object
         return self.args[0].return_type
 
+    def resolve_return_type(self, known_fields):
+        if not self.args:
+            return object
+        return self.args[0].resolve_return_type(known_fields)
+
 
 class Array(Expression):
     def __init__(self, *args):
-- 
2.43.0


From babe4d885f9dd3a545437118709a57a7ba4cf216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 63/80] fix: columns of a subquery hide those of the query
 around it

---
 sqlvalidator/grammar/sql.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 960a9a9..e90f65c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -147,7 +147,17 @@ class SelectStatement:
         errors = []
         known_fields = known_fields or set()
         if hasattr(self.from_statement, "known_fields"):
-            known_fields = known_fields | self.from_statement.known_fields
+            own_fields = list(self.from_statement.known_fields)
+            own_names = [f.name.split(".")[-1] for f in own_fields]
+            # Unqualified names are looked up in this query before the outer ones
+            known_fields = known_fields.union(
+                own_fields,
+                (
+                    _FieldInfo(name, field.type)
+                    for name, field in zip(own_names, own_fields)
+                    if own_names.count(name) == 1 and name != "*"
+                ),
+            )
 
         for e in self.expressions:
             errors += e.validate(known_fields)
-- 
2.43.0


From 88b3bc710cc7dfb34756bbf2b0a5585498d55c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:11 +0000
Subject: [PATCH 64/80] fix: date parts and functions without parentheses are
 no columns

---
 sqlvalidator/grammar/sql.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index e90f65c..d42bbb9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -651,10 +651,17 @@ class FunctionCall(Expression):
         return function_str
 
     def validate(self, known_fields):
-        errors = super().validate(known_fields)
-        for a in self.args:
-            errors += a.validate(known_fields)
-        return errors
+        args = self.args
+        if self.function_name.lower().endswith(("_trunc", "_diff")):
+            # The last argument may be a date part
+            args = [
+                a
+                for a in args
+                if not (
+                    isinstance(a, Column) and a.value.lower() in DatePartExtraction.PARTS
+                )
+            ]
+        return validate_all(args, known_fields)
 
     def __repr__(self):
         return "<FunctionCall {} - {}>".format(
@@ -880,6 +887,18 @@ class Column(Expression):
         "sunday",
     )
 
+    # Functions that are called without parentheses
+    FUNCTIONS = (
+        "current_date",
+        "current_datetime",
+        "current_time",
+        "current_timestamp",
+        "current_user",
+        "localtime",
+        "localtimestamp",
+        "session_user",
+    )
+
     def __str__(self):
         if self.value in self.KEYWORDS:
             return self.value.upper()
@@ -887,6 +906,8 @@ class Column(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.value.lower() in self.KEYWORDS + self.FUNCTIONS:
+            return errors
         if (
             not any(f.name == self.value for f in known_fields)
             and self.value != "*"
-- 
2.43.0


From 87a5204c9b423a08ca2f19b79eb1431abc435c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 65/80] fix: fields of struct columns, indices and functions
 after a dot

---
 sqlvalidator/grammar/sql.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d42bbb9..db06d7e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -946,20 +946,40 @@ class ChainedColumns(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
-        full_value = str(self)
-        alias = ".".join(map(transform, self.columns[:-1]))
-        last_value = self.columns[-1]
-        if last_value == Column("*") and any(
+        elements = self.elements
+        if isinstance(elements[-1], FunctionCall):
+            return elements[-1].validate(known_fields)
+        names = [
+            e.value if isinstance(e, (Column, String)) else transform(e)
+            for e in elements
+        ]
+        # A prefix may be a column, followed by the names of fields
+        prefixes = [".".join(names[: i + 1]) for i in range(len(names))]
+        alias = prefixes[-2]
+        last_value = names[-1]
+        if last_value == "*" and any(
             f.name.startswith(f"{alias}.") for f in known_fields
         ):
             return errors
         if (
-            not any(f.name == full_value for f in known_fields)
-            and not any(f.name == f"{alias}.*" for f in known_fields)
+            not any(f.name in prefixes for f in known_fields)
+            and not any(f.name == f"{p}.*" for p in prefixes[:-1] for f in known_fields)
         ) and not any(f.name == "*" for f in known_fields):
             errors.append(f"The column {last_value} was not found in alias {alias}")
         return errors
 
+    @property
+    def elements(self) -> list:
+        elements = []
+        for column in self.columns:
+            while isinstance(column, Index):
+                column = column.value
+            if isinstance(column, ChainedColumns):
+                elements += column.elements
+            else:
+                elements.append(column)
+        return elements
+
 
 class Type(Expression):
     VALUES = ("int", "float", "day", "month", "timestamp", "int64", "string", "date")
-- 
2.43.0


From 02cb691730fc39dc1e48f6787a98b0fd489cb69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:35 +0000
Subject: [PATCH 66/80] fix: columns qualified by a quoted alias

---
 sqlvalidator/grammar/sql.py | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index db06d7e..be734b2 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1242,9 +1242,7 @@ class Alias(Expression):
     def known_fields(self) -> Set[_FieldInfo]:
         # The alias of a join hides the aliases inside of it
         return {
-            _FieldInfo(
-                "{}.{}".format(transform(self.alias), f.name.split(".")[-1]), f.type
-            )
+            _FieldInfo("{}.{}".format(self.alias_name, f.name.split(".")[-1]), f.type)
             for f in self.expression.known_fields
         }
 
@@ -1528,27 +1526,7 @@ class Join(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        known_fields = set()
-        if isinstance(self.left_from, Alias):
-            left_alias = transform(self.left_from.alias)
-            for field in self.left_from.expression.known_fields:
-                known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
-        else:
-            known_fields |= self.left_from.known_fields
-
-        if isinstance(self.right_from, Alias):
-            right_alias = transform(self.right_from.alias)
-            for field in self.right_from.expression.known_fields:
-                known_fields.add(
-                    _FieldInfo(
-                        right_alias + "." + field.name,
-                        field.type,
-                    )
-                )
-        else:
-            known_fields |= self.right_from.known_fields
-
-        return known_fields
+        return self.left_from.known_fields | self.right_from.known_fields
 
 
 class CombinedQueries(Expression):
-- 
2.43.0


From 83f552111b35200de1017a158f6dd0281fe0e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 67/80] fix: report tokens the statement or window parser
 cannot use instead of ignoring them

---
 sqlvalidator/grammar/lexer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 881e437..21ec6f1 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -203,6 +203,9 @@ class SelectStatementParser:
                 )
                 right_query = FromStatementParser.parse(iter(right_tokens))
 
+        if next_token not in (None, ";", ")"):
+            raise ParsingError("unexpected {}".format(next_token))
+
         semi_colon = bool(next_token and next_token == ";")
         return SelectStatement(
             select_all=select_all,
@@ -864,6 +867,8 @@ class ExpressionParser:
                 frame_clause: Optional[WindowFrameClause] = WindowFrameClause(
                     rows_range, " ".join(expression_tokens)
                 )
+            elif argument_next_token is not None:
+                raise ParsingError("unexpected {}".format(argument_next_token))
             else:
                 frame_clause = None
 
-- 
2.43.0


From d13f0352ce063035a50a9822efcfd18809d11c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:53 +0000
Subject: [PATCH 68/80] fix: report operators without operand and empty SELECT
 lists

---
 sqlvalidator/grammar/lexer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 21ec6f1..e5bb209 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -49,6 +49,8 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    KEPT_SPLIT_TOKENS,
+    MERGE_TOKENS,
     get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
@@ -57,6 +59,12 @@ from sqlvalidator.grammar.tokeniser import (
 )
 
 
+# Tokens that can neither be nor start an operand
+NON_OPERAND_TOKENS = tuple(
+    token for token in KEPT_SPLIT_TOKENS + MERGE_TOKENS if token not in "(*["
+)
+
+
 class ParsingError(Exception):
     pass
 
@@ -106,6 +114,8 @@ class SelectStatementParser:
             keep=[("*", "except")],
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
+        if not expressions:
+            raise ParsingError("expected an expression after SELECT")
 
         set_operator_tokens = []
         if lower(next_token) == "from":
@@ -829,6 +839,8 @@ class ExpressionParser:
                     tokens, start_quote=next_token, prefix=main_token
                 )
                 next_token = next(tokens, None)
+            elif main_token in NON_OPERAND_TOKENS:
+                raise ParsingError("unexpected {}".format(main_token))
             else:
                 expression = Column(main_token)
 
-- 
2.43.0


From d32b298cbce6e12aab2f832733963b9954653168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:35 +0000
Subject: [PATCH 69/80] fix: replace the strings only, keep the other tokens
 and blanks of the file as they are

---
 sqlvalidator/file_handler.py | 120 ++++++++++-------------------------
 1 file changed, 35 insertions(+), 85 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 8c11590..8dc5388 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -246,96 +246,46 @@ def compute_file_content(
     count_changed_sql = 0
     count_has_errors = 0
     errors_locations = []
-    tokens = []
+    replacements = []
 
-    def handle_string_token(
-        token_generator, token_type, token_value, starting, ending, line
-    ):
-        nonlocal tokens
-        nonlocal count_changed_sql
-        nonlocal count_has_errors
-        nonlocal errors_locations
-
-        if not is_select_string(token_value):
-            tokens.append((token_type, token_value, starting, ending, line))
-            return
-
-        following_tokens = []
-        # Find if the next comment without a string in-between if there is one
-        next_token, next_token_value, next_starting, next_ending, next_line = next(
-            token_generator, (None, None, None, None, None)
-        )
-        if next_token is None:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            tokens.append((token_type, formatted_sql, starting, ending, line))
-            tokens += following_tokens
-            if formatted_sql != token_value:
-                count_changed_sql += 1
-            if not sql_query.is_valid():
-                count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
-            return
-
-        following_tokens.append(
-            (next_token, next_token_value, next_starting, next_ending, next_line)
-        )
-        while (
-            next_token
-            and next_token != tokenize.COMMENT
-            and next_token != tokenize.STRING
-        ):
-            next_token, next_token_value, next_starting, next_ending, next_line = next(
-                token_generator, (None, None, None, None, None)
-            )
-            if next_token is None:
-                tokens.append((token_type, token_value, starting, ending, line))
-                tokens += following_tokens
-                return
-            following_tokens.append(
-                (next_token, next_token_value, next_starting, next_ending, next_line)
-            )
+    lines = file.readlines()
+    tokens = list(tokenize.generate_tokens(iter(lines).__next__))
+    for index, (token_type, token_value, starting, ending, _) in enumerate(tokens):
+        if token_type != tokenize.STRING or not is_select_string(token_value):
+            continue
 
-        comment = next_token_value if next_token == tokenize.COMMENT else ""
+        comment = find_comment_before_next_string(tokens, index)
         needs_format = should_format and NO_SQLFORMAT_COMMENT not in comment
         needs_validate = should_validate and NO_SQLVALIDATION_COMMENT not in comment
-        if next_token != tokenize.COMMENT or needs_format or needs_validate:
-            formatted_sql, sql_query = handle_sql_string(token_value)
-            if formatted_sql != token_value and NO_SQLFORMAT_COMMENT not in comment:
-                tokens.append((token_type, formatted_sql, starting, ending, line))
-                count_changed_sql += 1
-            else:
-                tokens.append((token_type, token_value, starting, ending, line))
-            if needs_validate and not sql_query.is_valid():
-                count_has_errors += 1
-                errors_locations.append((starting[0], sql_query.errors))
-
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
-
-        if next_token == tokenize.STRING:
-            tokens += following_tokens[:-1]
-            handle_string_token(
-                token_generator,
-                next_token,
-                next_token_value,
-                next_starting,
-                next_ending,
-                next_line,
-            )
-        else:
-            tokens += following_tokens
-
-    token_generator = tokenize.generate_tokens(file.readline)
-    for token_type, token_value, starting, ending, line in token_generator:
+        if not needs_format and not needs_validate:
+            continue
+
+        formatted_sql, sql_query = handle_sql_string(token_value)
+        if needs_format and formatted_sql != token_value:
+            replacements.append((starting, ending, formatted_sql))
+            count_changed_sql += 1
+        if needs_validate and not sql_query.is_valid():
+            count_has_errors += 1
+            errors_locations.append((starting[0], sql_query.errors))
+
+    # Only touch the strings themselves, and start from the end of the file in order to
+    # keep the other positions
+    for (start_row, start_col), (end_row, end_col), new_string in reversed(replacements):
+        before = lines[start_row - 1][:start_col]
+        after = lines[end_row - 1][end_col:]
+        lines[start_row - 1 : end_row] = [before + new_string + after]
+
+    return count_changed_sql, "".join(lines), count_has_errors, errors_locations
+
+
+def find_comment_before_next_string(tokens: list, index: int) -> str:
+    for next_index in range(index + 1, len(tokens)):
+        token_type, token_value = tokens[next_index][:2]
         if token_type == tokenize.STRING:
-            handle_string_token(
-                token_generator, token_type, token_value, starting, ending, line
-            )
-        else:
-            tokens.append((token_type, token_value, starting, ending, line))
-
-    formatted_file_content = tokenize.untokenize(tokens)
-    return count_changed_sql, formatted_file_content, count_has_errors, errors_locations
+            break
+        if token_type == tokenize.COMMENT:
+            return token_value
+    return ""
 
 
 def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
-- 
2.43.0


From c8efb3b51e3e3200ee72b09f595a9e0458ab733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 70/80] fix: a comment after an f-string does not belong to the
 string before it

---
 sqlvalidator/file_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 8dc5388..7539e0d 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -9,6 +9,9 @@ from .grammar.lexer import ParsingError
 NO_SQLFORMAT_COMMENT = "nosqlformat"
 NO_SQLVALIDATION_COMMENT = "nosqlvalidation"
 
+# Since Python 3.12, f-strings have tokens of their own
+STRING_TOKEN_TYPES = (tokenize.STRING, getattr(tokenize, "FSTRING_START", None))
+
 POSSIBLE_QUOTES = ('"""', "'''", '"', "'")
 STRING_PREFIXES = (
     "r",
@@ -281,7 +284,7 @@ def compute_file_content(
 def find_comment_before_next_string(tokens: list, index: int) -> str:
     for next_index in range(index + 1, len(tokens)):
         token_type, token_value = tokens[next_index][:2]
-        if token_type == tokenize.STRING:
+        if token_type in STRING_TOKEN_TYPES:
             break
         if token_type == tokenize.COMMENT:
             return token_value
-- 
2.43.0


From 443a85f7090b634abcbbfa16079623d592e3e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 71/80] fix: join the continued lines of a string before
 formatting it

---
 sqlvalidator/file_handler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 7539e0d..32fc91b 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -324,6 +324,13 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     if quotes_prefix is not None:
         sql_string = sql_string[len(quotes_prefix) :]
     sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
+    if "r" not in (quotes_prefix or "").lower():
+        # Join the lines continued by a backslash, which may be escaped itself
+        sql_string_without_quotes = (
+            sql_string_without_quotes.replace("\\\\", "\0")
+            .replace("\\\n", "")
+            .replace("\0", "\\\\")
+        )
 
     sql_query = sql_validator.SQLQuery(sql_string_without_quotes)
     try:
-- 
2.43.0


From 463321df865f2c06079a423a4aec42aeea2fdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:42 +0000
Subject: [PATCH 72/80] fix: leave a string alone when its formatted query
 would escape the closing quotes

---
 sqlvalidator/file_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 32fc91b..5fc4b68 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -339,6 +339,11 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
         # Malformed statement, which can only be reported by the validation
         return original_string, sql_query
 
+    trailing_backslashes = len(formatted_sql) - len(formatted_sql.rstrip("\\"))
+    if trailing_backslashes % 2 == 1:
+        # The closing quotes would be escaped
+        return original_string, sql_query
+
     if len(quotes) == 1 and "\n" in formatted_sql:
         # Need to change to triple quotes
         if quotes == "'":
-- 
2.43.0


From 6421bc44fcb1bef521e7f583057d1820e6223a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:45 +0000
Subject: [PATCH 73/80] fix: leave a string alone when its escaped quotes
 cannot be kept

---
 sqlvalidator/file_handler.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 5fc4b68..b271f10 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -324,7 +324,8 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     if quotes_prefix is not None:
         sql_string = sql_string[len(quotes_prefix) :]
     sql_string_without_quotes = sql_string[len(quotes) : -len(quotes)]
-    if "r" not in (quotes_prefix or "").lower():
+    is_raw = "r" in (quotes_prefix or "").lower()
+    if not is_raw:
         # Join the lines continued by a backslash, which may be escaped itself
         sql_string_without_quotes = (
             sql_string_without_quotes.replace("\\\\", "\0")
@@ -344,6 +345,12 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
         # The closing quotes would be escaped
         return original_string, sql_query
 
+    if not is_raw and (
+        count_escaped_quotes(formatted_sql) != count_escaped_quotes(sql_query.sql)
+    ):
+        # A quote would be separated from its backslash
+        return original_string, sql_query
+
     if len(quotes) == 1 and "\n" in formatted_sql:
         # Need to change to triple quotes
         if quotes == "'":
@@ -366,6 +373,11 @@ def handle_sql_string(sql_string: str) -> Tuple[str, sql_validator.SQLQuery]:
     return quoted_sql, sql_query
 
 
+def count_escaped_quotes(sql: str) -> int:
+    sql = sql.replace("\\\\", "")
+    return sql.count("\\'") + sql.count('\\"')
+
+
 def is_select_string(token_value: str) -> bool:
     cleaned_value = token_value.lower().lstrip("ufbr").lstrip(" \n'\"`")
     lines = cleaned_value.splitlines()
-- 
2.43.0


From 590395ad7463c75c6611b2ff9dc1126a09093061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 74/80] fix: lay out each part of a query once, not twice per
 level of nesting

---
 sqlvalidator/grammar/sql.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index be734b2..31be5a9 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -11,9 +11,13 @@ CONTENT_NEWLINE = "\0"
 
 
 def transform(obj: Any) -> str:
-    if hasattr(obj, "transform"):
-        return obj.transform()
-    return str(obj)
+    if not isinstance(obj, (SelectStatement, Expression)):
+        return str(obj)
+    if obj.text is None:
+        # Several parts of the layout need it: for nested queries and conditions
+        # the number of times would double with each level
+        obj.text = obj.transform() if hasattr(obj, "transform") else str(obj)
+    return obj.text
 
 
 @dataclass
@@ -33,6 +37,8 @@ class _FieldInfo:
 
 
 class SelectStatement:
+    text: Optional[str] = None
+
     def __init__(
         self,
         expressions,
@@ -289,6 +295,8 @@ def validate_all(expressions, known_fields) -> list:
 
 
 class Expression:
+    text: Optional[str] = None
+
     def __init__(self, value):
         self.value = value
 
@@ -1662,10 +1670,11 @@ class BooleanCondition(Expression):
         self.args = args
 
     def transform(self, with_newline=False):
-        join_str = " {} ".format(self.type.upper())
-        transformed_condition = join_str.join(map(transform, self.args))
-        if len(transformed_condition) < DEFAULT_LINE_LENGTH and with_newline is False:
-            return transformed_condition
+        if with_newline is False:
+            join_str = " {} ".format(self.type.upper())
+            transformed_condition = join_str.join(map(transform, self.args))
+            if len(transformed_condition) < DEFAULT_LINE_LENGTH:
+                return transformed_condition
 
         join_str = "\n{} ".format(self.type.upper())
         transformed_args = []
-- 
2.43.0


From 52809d9943a98025847612b1eeb78d25fec7766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:00 +0000
Subject: [PATCH 75/80] fix: look up the columns of a nested query once, not
 twice per level

---
 sqlvalidator/grammar/sql.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 31be5a9..1c26aba 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -152,8 +152,9 @@ class SelectStatement:
     def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
         errors = []
         known_fields = known_fields or set()
-        if hasattr(self.from_statement, "known_fields"):
-            own_fields = list(self.from_statement.known_fields)
+        from_fields = getattr(self.from_statement, "known_fields", None)
+        if from_fields is not None:
+            own_fields = list(from_fields)
             own_names = [f.name.split(".")[-1] for f in own_fields]
             # Unqualified names are looked up in this query before the outer ones
             known_fields = known_fields.union(
@@ -209,8 +210,8 @@ class SelectStatement:
             elif isinstance(e, Alias):
                 fields.add(_FieldInfo(e.alias_name, e.return_type))
 
-        if hasattr(self.from_statement, "known_fields"):
-            subquery_known_fields = self.from_statement.known_fields
+        subquery_known_fields = getattr(self.from_statement, "known_fields", None)
+        if subquery_known_fields is not None:
             if any(f.name == "*" for f in fields) and not any(
                 f.has_any_column for f in subquery_known_fields
             ):
@@ -1168,9 +1169,7 @@ class Parenthesis(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        if hasattr(self.args[0], "known_fields"):
-            return self.args[0].known_fields
-        return set()
+        return getattr(self.args[0], "known_fields", set())
 
     @property
     def return_type(self):
-- 
2.43.0


From 64f46d557a04a6d973c9ba7503166ec5f272952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:17 +0000
Subject: [PATCH 76/80] fix: parse the content of parentheses in FROM once, not
 twice per level

---
 sqlvalidator/grammar/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index e5bb209..8ddc8f7 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -241,9 +241,9 @@ class FromStatementParser:
         next_token = next(tokens)
         if next_token == "(":
             argument_tokens = get_tokens_until_closing_parenthesis(tokens)
-            try:
+            if lower("".join(argument_tokens[:1])) in ("select", "with"):
                 argument = SQLStatementParser.parse(iter(argument_tokens))
-            except ParsingError:
+            else:
                 argument = FromStatementParser.parse(iter(argument_tokens))
             expression = Parenthesis(argument)
             next_token = next(tokens, None)
-- 
2.43.0


From 8829b968096b8bb56d1447b0c76c538c2bbfe30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:33 +0000
Subject: [PATCH 77/80] fix: do not compute the text in one line of conditions
 that get a line each

---
 sqlvalidator/grammar/sql.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1c26aba..0aae0de 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1669,11 +1669,12 @@ class BooleanCondition(Expression):
         self.args = args
 
     def transform(self, with_newline=False):
-        if with_newline is False:
-            join_str = " {} ".format(self.type.upper())
-            transformed_condition = join_str.join(map(transform, self.args))
-            if len(transformed_condition) < DEFAULT_LINE_LENGTH:
-                return transformed_condition
+        join_str = " {} ".format(self.type.upper())
+        # The text of the nested ones is laid out again if it is not used here
+        args = () if with_newline else self.args
+        transformed_condition = join_str.join(map(transform, args))
+        if len(transformed_condition) < DEFAULT_LINE_LENGTH and with_newline is False:
+            return transformed_condition
 
         join_str = "\n{} ".format(self.type.upper())
         transformed_args = []
-- 
2.43.0


From 5fac9a02076dd71ab8a71a62c048f64bd42922cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:23 +0000
Subject: [PATCH 78/80] fix: lay out an expression that holds a condition the
 way others are

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 0aae0de..a49845e 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -302,7 +302,7 @@ class Expression:
         self.value = value
 
     def __str__(self):
-        return str(self.value)
+        return transform(self.value)
 
     def __repr__(self):
         return "<{}: {!r}>".format(self.__class__.__name__, self.value)
-- 
2.43.0


From f401f888284b8dad8887cf14b2765e13b1acbb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:26 +0000
Subject: [PATCH 79/80] fix: report GROUP BY ROLLUP without any expression

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 8ddc8f7..e070c1c 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -491,6 +491,8 @@ class GroupByParser:
             tokens, [], first_token=next_token
         )
         expressions = ExpressionListParser.parse(iter(expression_tokens))
+        if not expressions:
+            raise ParsingError("expected an expression after GROUP BY")
         return GroupByClause(*expressions, rollup=rollup)
 
 
-- 
2.43.0


From ddc8c967971c50d8db079f33197b2df998972a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:29 +0000
Subject: [PATCH 80/80] fix: lay out WITH and set operations inside of WITH

---
 sqlvalidator/grammar/sql.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a49845e..ae86441 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -592,9 +592,11 @@ class WithQuery(Expression):
         self.statement = statement
 
     def __str__(self):
-        return "{} AS (\n{}\n)".format(
-            self.name, self.statement.transform(is_subquery=True)
-        )
+        if isinstance(self.statement, SelectStatement):
+            statement_str = self.statement.transform(is_subquery=True)
+        else:
+            statement_str = " " + transform(self.statement).replace("\n", "\n ")
+        return "{} AS (\n{}\n)".format(self.name, statement_str)
 
     def __eq__(self, other):
         return (
-- 
2.43.0

