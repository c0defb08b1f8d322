From 70d998e31bf2fe184c25bf6acb67b1114cec69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 01/45] fix: lexer treated /*/ as a complete block comment

---
 trlc/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 259364b..96c0d46 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -342,6 +342,10 @@ class TRLC_Lexer(Lexer_Base):
         elif self.cc == "/" and self.nc == "*":
             # lobster-trace: LRM.Comments
             kind = "COMMENT"
+            # The * that opens the comment cannot also close it
+            self.advance()
+            if self.nc:
+                self.advance()
             while self.nc and not (self.cc == "*" and self.nc == "/"):
                 self.advance()
             self.advance()
-- 
2.43.0


From bd1db3e73108083c649264b965282cda648cf169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 02/45] fix: keep no trailing whitespace on first line of
 triple quoted strings

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 96c0d46..29d740a 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -37,7 +37,7 @@ def triple_quoted_string_value(raw_value):
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-    value      = lines[0]
+    value      = lines[0].rstrip()
     common_ws  = ""
     common_len = 0
     if len(non_empty_lines) >= 2:
-- 
2.43.0


From 0f92b577dd40e67818a2bfeb27820e17225e7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 03/45] fix: end column of locations right after a leading
 empty line

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 29d740a..a0c83c2 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -115,7 +115,7 @@ class Source_Reference(Location):
         end_line = self.line_no + lines_in_between
 
         end_col = self.end_pos + 1
-        for n in range(self.end_pos, 1, -1):
+        for n in range(self.end_pos, -1, -1):
             if self.lexer.content[n] == "\n":
                 end_col = max(self.end_pos - n, 1)
                 break
-- 
2.43.0


From af59f52dc8d7e36f0539193ecf9551a129312cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 04/45] fix: lexer crashed on a quote at the very end of a file

---
 trlc/lexer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index a0c83c2..ec5e682 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -429,7 +429,9 @@ class TRLC_Lexer(Lexer_Base):
                                              start_line = start_line,
                                              start_col  = start_col,
                                              start_pos  = start_pos,
-                                             end_pos    = self.lexpos),
+                                             end_pos    = min(
+                                                 self.lexpos,
+                                                 self.length - 1)),
                             "unterminated triple-quoted string")
             else:
                 while self.nc != '"':
@@ -466,7 +468,9 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(
+                                             self.lexpos,
+                                             self.length - 1)),
                         "malformed triple-quoted string")
             quotes_seen = 0
             while quotes_seen < 3:
@@ -481,7 +485,9 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(
+                                             self.lexpos,
+                                             self.length - 1)),
                         "unterminated triple-quoted string")
 
         elif self.is_numeric(self.cc):
-- 
2.43.0


From 5e00777da49caed89db797e442d1a19586db66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 05/45] fix: accept triple quoted string that ends at the end
 of the file

---
 trlc/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index ec5e682..0b0f3bc 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -423,7 +423,7 @@ class TRLC_Lexer(Lexer_Base):
                         quotes_seen += 1
                     else:
                         quotes_seen = 0
-                    if self.nc is None:
+                    if self.nc is None and quotes_seen < 3:
                         self.mh.lex_error(
                             Source_Reference(lexer      = self,
                                              start_line = start_line,
@@ -479,7 +479,7 @@ class TRLC_Lexer(Lexer_Base):
                     quotes_seen += 1
                 else:
                     quotes_seen = 0
-                if self.nc is None:
+                if self.nc is None and quotes_seen < 3:
                     self.mh.lex_error(
                         Source_Reference(lexer      = self,
                                          start_line = start_line,
-- 
2.43.0


From a3152cdd871d3ce8ea19e6f716f5cffd4be98037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 06/45] fix: array index equal to the array length is a
 diagnostic, not a crash

---
 trlc/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ff2acf9..8131222 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1806,13 +1806,13 @@ class Binary_Expression(Expression):
                          (self.to_string(),
                           mh.cross_file_reference(self.location)))
             elif v_lhs.typ.upper_bound is not None and \
-                 v_rhs.value > v_lhs.typ.upper_bound:
+                 v_rhs.value >= v_lhs.typ.upper_bound:
                 mh.error(v_rhs.location,
-                         "index cannot be more than %u in %s (%s)" %
+                         "index must be less than %u in %s (%s)" %
                          (v_lhs.typ.upper_bound,
                           self.to_string(),
                           mh.cross_file_reference(self.location)))
-            elif v_rhs.value > len(v_lhs.value):
+            elif v_rhs.value >= len(v_lhs.value):
                 mh.error(v_lhs.location,
                          "array is not big enough in %s (%s)" %
                          (self.to_string(),
-- 
2.43.0


From 0282a27624b6886220baaca12bcc3226d9cd4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 07/45] fix: null as the right operand of and, or, implies is
 an error

---
 trlc/ast.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 8131222..cf321a9 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1611,6 +1611,18 @@ class Binary_Expression(Expression):
         else:
             assert False
 
+    def evaluate_rhs(self, mh, context, gstab):
+        # lobster-trace: LRM.Null_Is_Invalid
+        v_rhs = self.n_rhs.evaluate(mh, context, gstab)
+        if v_rhs.value is None and \
+           self.operator not in (Binary_Operator.COMP_EQ,
+                                 Binary_Operator.COMP_NEQ):
+            mh.error(v_rhs.location,
+                     "rhs of check %s (%s) must not be null" %
+                     (self.to_string(),
+                      mh.cross_file_reference(self.location)))
+        return v_rhs
+
     def evaluate(self, mh, context, gstab):
         # lobster-trace: LRM.Null_Equivalence
         # lobster-trace: LRM.Null_Is_Invalid
@@ -1637,7 +1649,7 @@ class Binary_Expression(Expression):
         if self.operator == Binary_Operator.LOGICAL_AND:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_rhs(mh, context, gstab)
             else:
                 return v_lhs
 
@@ -1646,26 +1658,19 @@ class Binary_Expression(Expression):
             if v_lhs.value:
                 return v_lhs
             else:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_rhs(mh, context, gstab)
 
         elif self.operator == Binary_Operator.LOGICAL_IMPLIES:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_rhs(mh, context, gstab)
             else:
                 return Value(location = self.location,
                              value    = True,
                              typ      = self.typ)
 
         # Otherwise, evaluate RHS and do the operation
-        v_rhs = self.n_rhs.evaluate(mh, context, gstab)
-        if v_rhs.value is None and \
-           self.operator not in (Binary_Operator.COMP_EQ,
-                                 Binary_Operator.COMP_NEQ):
-            mh.error(v_rhs.location,
-                     "rhs of check %s (%s) must not be null" %
-                     (self.to_string(),
-                      mh.cross_file_reference(self.location)))
+        v_rhs = self.evaluate_rhs(mh, context, gstab)
 
         if self.operator == Binary_Operator.LOGICAL_XOR:
             assert isinstance(v_lhs.value, bool)
-- 
2.43.0


From 78c89572a90fee074c70564002a5814aba9309c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 08/45] fix: null as a parameter of oneof is an error

---
 trlc/ast.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index cf321a9..7653b1a 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2054,8 +2054,15 @@ class OneOf_Expression(Expression):
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
-        v_choices = [n_choice.evaluate(mh, context, gstab).value
-                     for n_choice in self.choices]
+        v_choices = []
+        for n_choice in self.choices:
+            v_choice = n_choice.evaluate(mh, context, gstab)
+            if v_choice.value is None:
+                mh.error(v_choice.location,
+                         "parameter of %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
+            v_choices.append(v_choice.value)
 
         return Value(location = self.location,
                      value    = v_choices.count(True) == 1,
-- 
2.43.0


From 4bd130598ea77d254538ddde7117f59fae380cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 09/45] fix: null predicate of a quantifier is an error, not a
 crash

---
 trlc/ast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 7653b1a..0e8ad77 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2324,6 +2324,11 @@ class Quantified_Expression(Expression):
         for binding in array_values.value:
             new_ctx[self.n_var.name] = binding
             result = self.n_expr.evaluate(mh, new_ctx, gstab)
+            if result.value is None:
+                mh.error(result.location,
+                         "predicate of %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
             assert isinstance(result.value, bool)
             if self.universal and not result.value:
                 rv  = False
-- 
2.43.0


From 30e357ca150db13e34c98196f61d055eb7d9f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 10/45] fix: membership test in null is an error, not a crash

---
 trlc/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5c75a4c..796e3e0 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -912,6 +912,10 @@ class Parser(Parser_Base):
                     n_lhs    = n_lhs,
                     n_rhs    = n_a)
 
+            elif n_a.typ is None:
+                self.mh.error(n_a.location,
+                              "null is not permitted here")
+
             else:
                 self.mh.error(
                     n_a.location,
-- 
2.43.0


From 595ec63628545d0eec21c6d495d02071fed8d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 11/45] fix: wrong number of parameters of a type conversion is
 an error, not a crash

---
 trlc/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 796e3e0..ca1c037 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1274,12 +1274,12 @@ class Parser(Parser_Base):
             if required_arity != len(parameters):
                 self.mh.error(t_name.location,
                               "function requires %u parameters" %
-                              n_name.arity)
+                              required_arity)
         else:
             if required_arity > len(parameters):
                 self.mh.error(t_name.location,
                               "function requires at least %u parameters" %
-                              n_name.arity)
+                              required_arity)
 
         # Enforce types
         if n_name.name == "len":
-- 
2.43.0


From 4565ff9e57641ac4b0751c61169864a0ddcff115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 12/45] fix: inherited components of a record reference can be
 accessed

---
 trlc/ast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 0e8ad77..4f995b5 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1875,7 +1875,9 @@ class Field_Access_Expression(Expression):
         self.is_union_access = is_union_access
         self.is_universal    = is_universal
 
-        if not is_union_access:
+        if not is_union_access and \
+           not (isinstance(n_prefix.typ, Record_Type) and
+                n_prefix.typ.is_subclass_of(n_field.member_of)):
             self.n_prefix.ensure_type(mh, self.n_field.member_of)
 
     def dump(self, indent=0):  # pragma: no cover
-- 
2.43.0


From 2dacd0ff07a4f410750d9d9245779e2342186917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 13/45] fix: allow equality between references to a record and
 its extension

---
 trlc/ast.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 4f995b5..5de4f2c 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1505,6 +1505,13 @@ class Binary_Expression(Expression):
                                  "type mismatch: %s and %s do not match" %
                                  (self.n_lhs.typ.name,
                                   self.n_rhs.typ.name))
+            elif (isinstance(self.n_lhs.typ, Record_Type) and
+                  isinstance(self.n_rhs.typ, Record_Type) and
+                  (self.n_lhs.typ.is_subclass_of(self.n_rhs.typ) or
+                   self.n_rhs.typ.is_subclass_of(self.n_lhs.typ))):
+                # lobster-trace: LRM.Equality_Domain
+                # References to a record and one of its extensions
+                pass
             elif self.n_lhs.typ != self.n_rhs.typ:
                 # Otherwise we can compare anything, as long as the
                 # types match
-- 
2.43.0


From 0e9459737be40579c88a937ce694213e4b7d6a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 14/45] fix: array membership test requires the element type

---
 trlc/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 5de4f2c..eba5f4a 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1537,6 +1537,8 @@ class Binary_Expression(Expression):
         elif operator == Binary_Operator.ARRAY_CONTAINS:
             self.n_rhs.ensure_type(mh, Array_Type)
             self.n_lhs.ensure_type(mh, self.n_rhs.typ.element_type.__class__)
+            if not isinstance(self.n_rhs.typ.element_type, Union_Type):
+                self.n_lhs.ensure_type(mh, self.n_rhs.typ.element_type)
 
         elif operator == Binary_Operator.PLUS:
             if isinstance(self.n_lhs.typ, Builtin_Numeric_Type):
-- 
2.43.0


From 9fccee3c4462b799a8188de72449d78a6faecc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 15/45] fix: textual representation of tuple values was lost

---
 trlc/ast.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index eba5f4a..14d5c49 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1058,10 +1058,8 @@ class Tuple_Aggregate(Expression):
 
             if isinstance(n_item, Composite_Component):
                 rv += self.value[n_item.name].to_string()
-        if self.typ.has_separators():
-            rv = ""
-        else:
-            rv = ")"
+        if not self.typ.has_separators():
+            rv += ")"
         return rv
 
     def evaluate(self, mh, context, gstab):
-- 
2.43.0


From 3d9ef3edebb7cb8a9fe092710e70518f58e0e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 16/45] fix: record references are equal only if they refer to
 the same object

---
 trlc/ast.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 14d5c49..7c3aef3 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1089,6 +1089,28 @@ class Tuple_Aggregate(Expression):
                    for expr in self.value.values())
 
 
+class Referenced_Fields(dict):
+    # lobster-trace: LRM.Equality_On_Record_References
+    """Value of a record reference: the components of the target
+
+    Two of these are equal if and only if they belong to the same
+    record object.
+
+    :attribute target: the record object referred to
+    :type: Record_Object
+    """
+    def __init__(self, target):
+        super().__init__(target.field)
+        self.target = target
+
+    def __eq__(self, other):
+        return isinstance(other, Referenced_Fields) and \
+            self.target is other.target
+
+    def __ne__(self, other):
+        return not self == other
+
+
 class Record_Reference(Expression):
     """Reference to another record object
 
@@ -1145,7 +1167,7 @@ class Record_Reference(Expression):
         assert isinstance(mh, Message_Handler)
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
-        return Value(self.location, copy(self.target.field), self.typ)
+        return Value(self.location, Referenced_Fields(self.target), self.typ)
 
     def resolve_references(self, mh):
         # lobster-trace: LRM.References_To_Extensions
-- 
2.43.0


From 28588b660479deb8e0415012352158db60a3a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 17/45] fix: quantifier in a static context is an error, not a
 crash

---
 trlc/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 7c3aef3..d11e97a 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2339,6 +2339,9 @@ class Quantified_Expression(Expression):
         # the quantifier and substitute; for the sake of making better
         # error messages.
         assert isinstance(self.n_source.entity, Composite_Component)
+        if context is None:
+            mh.error(self.n_source.location,
+                     "cannot be used in a static context")
         array_values = context[self.n_source.entity.name]
         if isinstance(array_values, Implicit_Null):
             mh.error(array_values.location,
-- 
2.43.0


From 67c975fa5cf2b86102196e55cb1dc03fa4f42f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 18/45] fix: array upper bound of zero was not enforced

---
 trlc/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index ca1c037..5ae33b1 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1767,7 +1767,8 @@ class Parser(Parser_Base):
                               (typ.lower_bound,
                                len(rv.value)),
                               fatal=False)
-            if typ.upper_bound and len(rv.value) > typ.upper_bound:
+            if typ.upper_bound is not None and \
+               len(rv.value) > typ.upper_bound:
                 self.mh.error(rv.value[typ.upper_bound].location,
                               "this array requires at most %u elements "
                               "(%u provided)" %
-- 
2.43.0


From 6eabd594dfac263d280d6a13cfa6bce9b998ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 19/45] fix: separators of tuple values may not be omitted

---
 trlc/parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5ae33b1..51daefb 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1827,12 +1827,16 @@ class Parser(Parser_Base):
             # lobster-trace: LRM.Tuple_Separator_Form
             rv = ast.Tuple_Aggregate(self.nt.location, typ)
 
-            next_is_optional = False
+            separator_missing = False
             for n_item in typ.iter_sequence():
                 if isinstance(n_item, ast.Composite_Component):
-                    if next_is_optional and n_item.optional:
+                    if separator_missing and n_item.optional:
                         break
                     value = self.parse_value(n_item.n_typ)
+                    if separator_missing:
+                        self.mh.error(value.location,
+                                      "expected separator before %s" %
+                                      n_item.name)
                     rv.assign(n_item.name, value)
 
                 elif n_item.token.kind in ("AT", "COLON", "SEMICOLON"):
@@ -1840,7 +1844,7 @@ class Parser(Parser_Base):
                         self.match(n_item.token.kind)
                         n_item.set_ast_link(self.ct)
                     else:
-                        next_is_optional = True
+                        separator_missing = True
 
                 elif n_item.token.kind == "IDENTIFIER":
                     if self.peek("IDENTIFIER") and \
@@ -1848,7 +1852,7 @@ class Parser(Parser_Base):
                         self.match("IDENTIFIER")
                         n_item.set_ast_link(self.ct)
                     else:
-                        next_is_optional = True
+                        separator_missing = True
 
                 else:
                     assert False
-- 
2.43.0


From e0e816fa6889de174ecb26728cdfae71419ed8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 20/45] fix: crash on files that end in the middle of a
 declaration

---
 trlc/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 51daefb..b035897 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -637,7 +637,9 @@ class Parser(Parser_Base):
             elif self.peek("OPERATOR") and self.nt.value == "*":
                 self.match("OPERATOR")
             else:
-                self.mh.error(self.nt.location,
+                self.mh.error(self.ct.location
+                              if self.nt is None
+                              else self.nt.location,
                               "expected INTEGER or * for upper bound")
             t_hi = self.ct
             loc_hi = self.ct.location
@@ -1597,7 +1599,9 @@ class Parser(Parser_Base):
                 elif self.peek("STRING"):
                     has_extrainfo = True
                 else:
-                    self.mh.error(self.nt.location,
+                    self.mh.error(self.ct.location
+                                  if self.nt is None
+                                  else self.nt.location,
                                   "expected either a details string or"
                                   " identifier to anchor the check message")
 
@@ -1825,7 +1829,9 @@ class Parser(Parser_Base):
 
         elif isinstance(typ, ast.Tuple_Type) and typ.has_separators():
             # lobster-trace: LRM.Tuple_Separator_Form
-            rv = ast.Tuple_Aggregate(self.nt.location, typ)
+            rv = ast.Tuple_Aggregate(self.ct.location
+                                     if self.nt is None
+                                     else self.nt.location, typ)
 
             separator_missing = False
             for n_item in typ.iter_sequence():
-- 
2.43.0


From a38b0af278d7e321fe8581d7a0be204efdfe376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 21/45] fix: evaluate tuple checks for all elements of an array

---
 trlc/ast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index d11e97a..49e3d39 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2618,8 +2618,11 @@ class Array_Type(Type):
         assert isinstance(gstab, Symbol_Table)
 
         if isinstance(value, Array_Aggregate):
-            return all(self.element_type.perform_type_checks(mh, v, gstab)
-                       for v in value.value)
+            ok = True
+            for v in value.value:
+                if not self.element_type.perform_type_checks(mh, v, gstab):
+                    ok = False
+            return ok
         else:
             assert isinstance(value, Implicit_Null)
             return True
-- 
2.43.0


From 814931604ecdde558c8f4625b87af1320568d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 22/45] fix: evaluate the checks of tuples nested in tuples

---
 trlc/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 49e3d39..7183e81 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3152,6 +3152,10 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
+            for n_field in self.components.values():
+                if not n_field.n_typ.perform_type_checks(
+                        mh, value.value[n_field.name], gstab):
+                    ok = False
             for check in self.iter_checks():
                 if not check.perform(mh, value, gstab):
                     ok = False
-- 
2.43.0


From 5d39326201e65ce1e24f8cd3666b25b32bff3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 23/45] fix: crash when showing an example value of an
 enumeration

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 7183e81..a9060b8 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3242,7 +3242,7 @@ class Enumeration_Type(Concrete_Type):
         # lobster-exclude: utility method
         options = list(self.literals.values())
         if options:
-            choice = len(options) // 2
+            choice = options[len(options) // 2]
             return self.name + "." + choice.name
         else:
             return "ERROR"
-- 
2.43.0


From c632aeddf877972a3693f85c0f5f4b8e580753d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 24/45] fix: lint crashed on tuples with a field after an
 ambiguous separator

---
 trlc/lint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 9002cb8..0b4e3c6 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -137,6 +137,10 @@ class Linter:
                     "separator_based_literal_ambiguity",
                     "\n".join(explanation))
 
+                previous_was_bad_sep = False
+                previous_was_int     = isinstance(n_item.n_typ,
+                                                  ast.Builtin_Integer)
+
             elif isinstance(n_item, ast.Composite_Component) and \
                isinstance(n_item.n_typ, ast.Builtin_Integer):
                 previous_was_int = True
-- 
2.43.0


From c5273fbff06fbac83dbd38a372ad9f02aecfa62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 25/45] fix: iterating over objects by section a second time
 lost the sections

---
 trlc/ast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index a9060b8..b1f21d9 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3460,8 +3460,6 @@ class Symbol_Table:
         self.parent   = parent
         self.imported = []
         self.table    = OrderedDict()
-        self.trlc_files = []
-        self.section_names = []
 
     @staticmethod
     def simplified_name(name):
@@ -3489,16 +3487,18 @@ class Symbol_Table:
         Output: Information about sections and level of sections,
         record objects and levels of record object
         """
+        trlc_files = set()
+        sections   = set()
         for record_object in self.iter_record_objects():
             location = record_object.location.file_name
-            if location not in self.trlc_files:
-                self.trlc_files.append(location)
+            if location not in trlc_files:
+                trlc_files.add(location)
                 yield location
             if record_object.section:
                 object_level = len(record_object.section) - 1
                 for level, section in enumerate(record_object.section):
-                    if section not in self.section_names:
-                        self.section_names.append(section)
+                    if section not in sections:
+                        sections.add(section)
                         yield section.name, level
                 yield record_object, object_level
             else:
-- 
2.43.0


From a92b58fa261e2cb47b73460235b254a308411588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 26/45] fix: column of references on the first line of a triple
 quoted string

---
 trlc/nested.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/nested.py b/trlc/nested.py
index 339b975..4da4b6a 100644
--- a/trlc/nested.py
+++ b/trlc/nested.py
@@ -50,7 +50,8 @@ class Nested_Lexer(Lexer_Base):
             loc = Source_Reference(
                 lexer      = self.origin_location.lexer,
                 start_line = self.origin_location.line_no + (start_line - 1),
-                start_col  = (self.origin_location.col_no + self.base_offset
+                start_col  = (self.origin_location.col_no + self.base_offset +
+                              (start_col - 1)
                               if start_line == 1
                               else start_col),
                 start_pos  = (self.origin_location.start_pos +
-- 
2.43.0


From 5bf53567c810e2eba374d7fb93143483b6542ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 27/45] fix: report unused imports exactly when a package is
 not used

An import used only by a reference in a markup string inside an array or
tuple was reported as unused, and any string or component spelled like the
package hid an import that is not used.
---
 trlc/ast.py    |  8 ++++++++
 trlc/lint.py   | 36 +++++++++---------------------------
 trlc/parser.py |  3 +++
 3 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index b1f21d9..a5f31f2 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -223,6 +223,7 @@ class Compilation_Unit(Node):
         self.package       = None
         self.imports       = None
         self.raw_imports   = []
+        self.used_packages = set()
         self.items         = []
 
     def dump(self, indent=0):  # pragma: no cover
@@ -254,6 +255,8 @@ class Compilation_Unit(Node):
             if t_previous.value == t_import.value:
                 mh.warning(t_import.location,
                            "duplicate import of package %s" % t_import.value)
+                # No need to also complain that the import is not used
+                self.used_packages.add(t_import.value)
                 return
 
         self.raw_imports.append(t_import)
@@ -279,6 +282,11 @@ class Compilation_Unit(Node):
         assert isinstance(n_pkg, Package)
         return n_pkg == self.package or n_pkg in self.imports
 
+    def mark_used(self, n_pkg):
+        # lobster-exclude: Only used to find unused imports
+        assert isinstance(n_pkg, Package)
+        self.used_packages.add(n_pkg.name)
+
     def add_item(self, node):
         # lobster-trace: LRM.RSL_File
         # lobster-trace: LRM.TRLC_File
diff --git a/trlc/lint.py b/trlc/lint.py
index 0b4e3c6..8f0eef8 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -225,34 +225,16 @@ class Linter:
                           "be an optional %s instead." %
                           n_typ.element_type.name)
 
-    def markup_ref(self, item, string_literals):
-        for string_literal in string_literals:
-            for reference in string_literal.references:
-                if reference.package.name == item.name:
-                    return string_literal
-        return None
-
     def verify_imports(self):
+        # lobster-exclude: Not safety relevant
         for file in self.mh.sm.all_files.values():
             if not file.primary and not file.secondary:
                 continue
-            if not file.cu.imports:
-                continue
-            for item in file.cu.imports:
-                import_tokens = [t for t in file.lexer.tokens
-                                 if t.value == item.name]
-                markup = self.markup_ref(item,
-                                         (m.ast_link for m in
-                                          file.lexer.tokens if
-                                          isinstance(m.ast_link,
-                                                     ast.String_Literal) and
-                                          m.ast_link.has_references))
-                if markup is not None:
-                    import_tokens.append(markup)
-                if len(import_tokens) == 1:
-                    import_tk = import_tokens[0]
-                    self.mh.check(import_tk.location,
-                                    "unused import %s" % import_tk.value,
-                                    "unused_imports",
-                                    "Consider deleting this import"
-                                    " statement if not needed.")
+            for t_import in file.cu.raw_imports:
+                if t_import.value in file.cu.used_packages:
+                    continue
+                self.mh.check(t_import.location,
+                              "unused import %s" % t_import.value,
+                              "unused_imports",
+                              "Consider deleting this import"
+                              " statement if not needed.")
diff --git a/trlc/parser.py b/trlc/parser.py
index b035897..05a174f 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -267,6 +267,7 @@ class Markup_Parser(Parser_Base):
             if not self.parent.cu.is_visible(package):
                 self.mh.error(self.ct.location,
                               "package must be imported before use")
+            self.parent.cu.mark_used(package)
 
             self.match("REFLIST_DOT")
             self.match("REFLIST_IDENTIFIER")
@@ -366,6 +367,7 @@ class Parser(Parser_Base):
             if not self.cu.is_visible(sym):
                 self.mh.error(self.ct.location,
                               "package must be imported before use")
+            self.cu.mark_used(sym)
             self.match("DOT")
             sym.set_ast_link(self.ct)
             self.match("IDENTIFIER")
@@ -1811,6 +1813,7 @@ class Parser(Parser_Base):
                 if not self.cu.is_visible(the_pkg):
                     self.mh.error(self.ct.location,
                                   "package must be imported before use")
+                self.cu.mark_used(the_pkg)
                 t_name = self.ct
             else:
                 the_pkg = self.cu.package
-- 
2.43.0


From 42147e97e911b5ea80d30b6f13730704af66f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 28/45] fix: lint union types also if they are array elements

The issues union_single_type and union_redundant_subtype were never reported
for the element type of an array.
---
 trlc/lint.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 8f0eef8..6038fd5 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -198,6 +198,11 @@ class Linter:
         # lobster-exclude: Not safety relevant
         assert isinstance(n_typ, ast.Array_Type)
 
+        # Only union types are declared here, all others have a name and
+        # are visited anyway
+        if isinstance(n_typ.element_type, ast.Union_Type):
+            self.verify_type(n_typ.element_type)
+
         if n_typ.upper_bound is None:
             pass
         elif n_typ.lower_bound > n_typ.upper_bound:
-- 
2.43.0


From 36564ad98cc82e29206b5ef91a5b1bac64bc74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:16 +0000
Subject: [PATCH 29/45] fix: no precedence issue for an indexed array after
 unary minus

Indexing is part of the operand, so -x[0] has only one meaning.
---
 trlc/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 05a174f..6cc4f77 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -968,6 +968,7 @@ class Parser(Parser_Base):
             # pylint: disable=possibly-used-before-assignment
             if self.lint_mode and \
                isinstance(n_lhs, ast.Binary_Expression) and \
+               n_lhs.operator != ast.Binary_Operator.INDEX and \
                not has_explicit_brackets:
                 self.mh.check(t_unary.location,
                               "expression means -(%s), place explicit "
-- 
2.43.0


From 5abc31860d54170be1c677101ed06d44883ceb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:31 +0000
Subject: [PATCH 30/45] fix: process() returns no symbols after an import of an
 unknown package

The error was reported, but if nothing of the package was used all objects
were returned as if there was no error.
---
 trlc/ast.py  | 9 ++++++---
 trlc/trlc.py | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index a5f31f2..4d57e2f 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -265,16 +265,19 @@ class Compilation_Unit(Node):
         # lobster-trace: LRM.Import_Visibility
         assert isinstance(mh, Message_Handler)
         assert isinstance(stab, Symbol_Table)
+        ok = True
         self.imports = set()
         for t_import in self.raw_imports:
-            # We can ignore errors here, because that just means we
-            # generate more error later.
+            # We can continue after errors here, because that just
+            # means we generate more error later.
             try:
                 a_import = stab.lookup(mh, t_import, Package)
                 self.imports.add(a_import)
                 a_import.set_ast_link(t_import)
             except TRLC_Error:
-                pass
+                ok = False
+
+        return ok
 
     def is_visible(self, n_pkg):
         # lobster-trace: LRM.Import_Visibility
diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5d7f5dd..de78327 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -341,7 +341,7 @@ class Source_Manager:
                 if parser.cu.package is None:
                     continue
                 pkg_name = parser.cu.package.name
-                parser.cu.resolve_imports(self.mh, self.stab)
+                ok &= parser.cu.resolve_imports(self.mh, self.stab)
 
                 graph[(pkg_name , kind)] |= \
                     {(imported_pkg.name , kind)
-- 
2.43.0


From df4356f95e9648d1fecb6fe28d97d6d44c692795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:35 +0000
Subject: [PATCH 31/45] fix: a missing comma between array elements is a fatal
 error

process() returned a symbol table although the error was reported; all other
syntax errors make it return None.
---
 trlc/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 6cc4f77..c9c724a 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1761,8 +1761,7 @@ class Parser(Parser_Base):
                 else:
                     self.mh.error(self.ct.location,
                                   "comma separating array elements is "
-                                  "missing",
-                                  fatal = False)
+                                  "missing")
 
             self.match("S_KET")
             rv.set_ast_link(self.ct)
-- 
2.43.0


From 36fb3b1a4f5a2277e3c4985e3763549ecb866216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 32/45] fix: do not parse the body of a type file with an
 incorrect preamble

The imports are not known then; any qualified name in the body failed with
an AssertionError.
---
 trlc/trlc.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index de78327..59e8ff5 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -387,6 +387,13 @@ class Source_Manager:
                    if parser.cu.package and (parser.primary or
                                              parser.secondary)}
 
+        # The imports of files with an incorrect preamble are unknown,
+        # so we cannot parse the rest of them
+        broken = {(parser.cu.package.name , "rsl")
+                  for name, parser in self.rsl_files.items()
+                  if parser.cu.package and
+                  name in self.files_with_preamble_errors}
+
         # Parse packages that have no unparsed dependencies. Keep
         # doing it until we parse everything or until we have reached
         # a fix point (in which case we have a cycle in our
@@ -418,11 +425,12 @@ class Source_Manager:
                 return False
 
             for node in sorted(candidates):
-                try:
-                    ok &= rsl_map[node].parse_rsl_file()
-                    self.signal_progress()
-                except TRLC_Error:
-                    ok = False
+                if node not in broken:
+                    try:
+                        ok &= rsl_map[node].parse_rsl_file()
+                        self.signal_progress()
+                    except TRLC_Error:
+                        ok = False
                 processed.add(node)
 
             work_list -= candidates
-- 
2.43.0


From f125a63faa3f94f8a675e4a77c472cd848e586ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 33/45] fix: keep records and sections of equal name apart in
 the RST report

---
 tools/trlc_rst/trlc_rst.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index a57bc84..d719f70 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -142,7 +142,8 @@ class TRLCRST:
             parent_root = Node("root")
             parent_tree = self._build_parent_tree(obj.section, parent_root)
             # Store the TRLC object in the node so we can access its attributes later
-            parent_tree.append(Node(obj.fully_qualified_name(), trlc_obj=obj))
+            # Prefixed, so that it can never be confused with a section
+            parent_tree.append(Node("record " + obj.fully_qualified_name(), trlc_obj=obj))
 
             # Merge both trees
             to_tree = requirements_root
@@ -203,7 +204,8 @@ class TRLCRST:
                     continue
 
                 if not node.is_leaf:
-                    file.write(f"{node.name}\n")
+                    title_text = node.get_attr("title")
+                    file.write(f"{title_text}\n")
                     lookup = node.depth - depth_offset
                     if 0 < lookup <= len(RST_HEADLINE_SEPARATORS):
                         separator_char = RST_HEADLINE_SEPARATORS[lookup - 1]
@@ -211,16 +213,20 @@ class TRLCRST:
                         logger.warning(
                             "Section '%s' at depth %d exceeds max RST heading depth, "
                             'falling back to "\'" separator',
-                            node.name,
+                            title_text,
                             node.depth,
                         )
                         separator_char = "'"
-                    file.write(f"{separator_char * len(node.name)}\n")
+                    file.write(f"{separator_char * len(title_text)}\n")
 
                 else:
                     trlc_obj = getattr(node, "trlc_obj", None)
                     file.write(
-                        "\n".join(self._render_record_block(node.name, trlc_obj, normalized))
+                        "\n".join(
+                            self._render_record_block(
+                                trlc_obj.fully_qualified_name(), trlc_obj, normalized
+                            )
+                        )
                     )
                     file.write("\n")
 
@@ -601,7 +607,7 @@ class TRLCRST:
         current = root
 
         for section in sections:
-            current = Node(section.name, parent=current)
+            current = Node("section " + section.name, parent=current, title=section.name)
         return current
 
     def render(
-- 
2.43.0


From f419c6e7af08e5dbf1a9eb999812f538846f666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 34/45] fix: render records before the subsections of their
 section

---
 tools/trlc_rst/trlc_rst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index d719f70..db33a17 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -164,6 +164,11 @@ class TRLCRST:
                 to_tree.append(from_node)
                 break
 
+        # Everything after a heading belongs to its section in RST, so the
+        # records of a section have to come before its subsections.
+        for node in preorder_iter(requirements_root):
+            node.sort(key=lambda child: not child.is_leaf)
+
         self._requirements_tree = requirements_root
 
     def render_to_file(
-- 
2.43.0


From a4b38427cb9a2f67c5c1a72d0f86590854c0bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 35/45] fix: render descriptions of type String as prose

---
 tools/trlc_rst/trlc_rst.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index db33a17..7d263a7 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -262,7 +262,8 @@ class TRLCRST:
     def _render_record_block(self, fqn: str, trlc_obj, fields: list[tuple[str, str]]) -> list:
         """Render one record as a ``requirement:definition`` directive block.
 
-        ``Markup_String`` fields are rendered as preprocessed prose paragraphs.
+        ``Markup_String`` fields and descriptions are rendered as preprocessed
+        prose paragraphs.
         All other fields are rendered as ``:Label: value`` field-list entries.
 
         Returns a list of RST lines (with a trailing blank line).
@@ -275,7 +276,9 @@ class TRLCRST:
             value = self._field_value(trlc_obj, field_name)
             if value is None or value == "":
                 continue
-            if self._is_markup_field(trlc_obj, field_name):
+            if self._is_markup_field(trlc_obj, field_name) or (
+                field_name in _DEFAULT_FIELDS and isinstance(value, str)
+            ):
                 block_values.append(value)
             else:
                 field_list.append((label, value))
-- 
2.43.0


From 93006855023d4442e3a6847cccb0262f86c96dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 36/45] fix: keep values of several lines inside their field or
 table cell

---
 tools/trlc_rst/trlc_rst.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 7d263a7..2cd14fa 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -284,7 +284,9 @@ class TRLCRST:
                 field_list.append((label, value))
 
         for label, value in field_list:
-            lines.append(f":{label}: {value}")
+            # Continuation lines must be indented to stay part of the field
+            text = str(value).replace("\n", "\n   ")
+            lines.append(f":{label}: {text}")
         if field_list:
             lines.append("")
         for value in block_values:
@@ -432,7 +434,10 @@ class TRLCRST:
             lines.append(f"   * - {cell}")
             for field_name, _ in normalized:
                 value = self._field_value(obj, field_name)
-                lines.append(f"     - {'' if value is None else value}")
+                text = "" if value is None else str(value)
+                # Continuation lines must be indented to stay in the cell
+                text = text.replace("\n", "\n       ")
+                lines.append(f"     - {text}")
         lines.append("")
         return "\n".join(lines) + "\n"
 
-- 
2.43.0


From a2f6ad4e048a9b44c27cd980c6fe1b0d1c8409ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 37/45] fix: return the values 0 and false of a field in the
 RST renderer

---
 tools/trlc_rst/trlc_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 2cd14fa..c5e8a0b 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -351,12 +351,12 @@ class TRLCRST:
         if obj is None:
             return None
         value = self._field_value(obj, field_name)
-        if not value:
+        if value is None or value == "":
             return None
         field_node = obj.field.get(field_name)
         if isinstance(field_node, trlc.ast.String_Literal):
             return self._preprocess_description(value, indent=0)
-        return value
+        return str(value)
 
     def render_records_to_string(
         self,
-- 
2.43.0


From a9ef3fb342d222cf8c8e25b1b31ee8df3092a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 38/45] fix: verify divisions, indices, ranges and oneof inside
 quantifiers and tuple checks

---
 trlc/vcg.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 5eee6ec..d5e25c6 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -937,7 +937,8 @@ class VCG:
                 sym_value = smt.String_Concatenation(lhs_value, rhs_value)
 
             elif isinstance(n_expr.n_lhs.typ, Builtin_Integer):
-                if n_expr.operator in (Binary_Operator.DIVIDE,
+                if not self.functional and \
+                   n_expr.operator in (Binary_Operator.DIVIDE,
                                        Binary_Operator.REMAINDER):
                     self.attach_int_division_check(rhs_value, n_expr)
 
@@ -955,7 +956,8 @@ class VCG:
 
             else:
                 assert isinstance(n_expr.n_lhs.typ, Builtin_Decimal)
-                if n_expr.operator == Binary_Operator.DIVIDE:
+                if not self.functional and \
+                   n_expr.operator == Binary_Operator.DIVIDE:
                     self.attach_real_division_check(rhs_value, n_expr)
 
                 smt_op = {
@@ -1008,7 +1010,8 @@ class VCG:
                 smt.String_Literal(rhs_evaluation))
 
         elif n_expr.operator == Binary_Operator.INDEX:
-            self.attach_index_check(lhs_value, rhs_value, n_expr)
+            if not self.functional:
+                self.attach_index_check(lhs_value, rhs_value, n_expr)
             sym_value = smt.Sequence_Index(lhs_value, rhs_value)
 
         elif n_expr.operator == Binary_Operator.ARRAY_CONTAINS:
@@ -1049,11 +1052,14 @@ class VCG:
         assert isinstance(n_expr, Range_Test)
 
         lhs_value, lhs_valid     = self.tr_expression(n_expr.n_lhs)
-        self.attach_validity_check(lhs_valid, n_expr.n_lhs)
+        if not self.functional:
+            self.attach_validity_check(lhs_valid, n_expr.n_lhs)
         lower_value, lower_valid = self.tr_expression(n_expr.n_lower)
-        self.attach_validity_check(lower_valid, n_expr.n_lower)
+        if not self.functional:
+            self.attach_validity_check(lower_valid, n_expr.n_lower)
         upper_value, upper_valid = self.tr_expression(n_expr.n_upper)
-        self.attach_validity_check(upper_valid, n_expr.n_upper)
+        if not self.functional:
+            self.attach_validity_check(upper_valid, n_expr.n_upper)
 
         sym_value = smt.Conjunction(
             smt.Comparison(">=", lhs_value, lower_value),
@@ -1067,7 +1073,8 @@ class VCG:
         choices = []
         for n_choice in n_expr.choices:
             c_value, c_valid = self.tr_expression(n_choice)
-            self.attach_validity_check(c_valid, n_choice)
+            if not self.functional:
+                self.attach_validity_check(c_valid, n_choice)
             choices.append(c_value)
 
         negated_choices = [smt.Boolean_Negation(c)
-- 
2.43.0


From c41c02ae38caea77e9adcd74e9b79773ab1d009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 39/45] fix: quote strings in examples of verification issues

---
 trlc/vcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index d5e25c6..88eba80 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -497,7 +497,7 @@ class VCG:
             if "\n" in value:
                 return "'''%s'''" % value
             else:
-                return '"%s"' % value
+                return '"%s"' % value.replace('"', '\\"')
 
         elif isinstance(n_typ, (Record_Type, Union_Type)):
             # lobster-trace: LRM.Union_Type_Equality
-- 
2.43.0


From 933de847a2a289dd57f187dd6ec1ace17d5bede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 40/45] fix: name the package of enumerations in examples of
 verification issues

---
 trlc/vcg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 88eba80..52f0ac8 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -491,7 +491,12 @@ class VCG:
             return "true" if value else "false"
 
         elif isinstance(n_typ, Enumeration_Type):
-            return n_typ.name + "." + value
+            if n_typ.n_package is self.n_ctyp.n_package:
+                return n_typ.name + "." + value
+            else:
+                return "%s.%s.%s" % (n_typ.n_package.name,
+                                     n_typ.name,
+                                     value)
 
         elif isinstance(n_typ, Builtin_String):
             if "\n" in value:
-- 
2.43.0


From 2b9beb0998920e6ff5868578eb8234a279a31850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 41/45] fix: files given more than once on the command line

---
 trlc/trlc.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 59e8ff5..5275ac1 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -90,6 +90,7 @@ class Source_Manager:
         self.rsl_files   = {}
         self.trlc_files  = {}
         self.all_files   = {}
+        self.registered  = set()
         self.dep_graph   = {}
 
         self.files_with_preamble_errors = set()
@@ -234,11 +235,11 @@ class Source_Manager:
     def register_directory(self, dir_name):
         """Schedule a directory tree for parsing.
 
+        Files that are already registered are skipped.
+
         :param dir_name: name of the directory
         :type file_name: str
         :raise AssertionError: if the directory does not exist
-        :raise AssertionError: if any item in the directory is already \
-        registered
         :raise TRLC_Error: on any parse errors
 
         :return: true if the directory could be registered without issues
@@ -263,9 +264,23 @@ class Source_Manager:
             for file_name in sorted(files):
                 if os.path.splitext(file_name)[1] in (".rsl",
                                                       ".trlc"):
-                    ok &= self.register_file(os.path.join(path, file_name))
+                    full_name = os.path.join(path, file_name)
+                    if not self.is_registered(full_name):
+                        ok &= self.register_file(full_name)
         return ok
 
+    def is_registered(self, file_name):
+        """Check if a file is already scheduled for parsing.
+
+        :param file_name: name of the file
+        :type file_name: str
+
+        :return: true if the file is registered under this or an \
+          equivalent name
+        :rtype: bool
+        """
+        return os.path.abspath(file_name) in self.registered
+
     def register_rsl_file(self, file_name, file_content=None, primary=True):
         assert os.path.isfile(file_name)
         assert file_name not in self.rsl_files
@@ -279,6 +294,7 @@ class Source_Manager:
                                     primary)
         self.rsl_files[file_name] = parser
         self.all_files[file_name] = parser
+        self.registered.add(os.path.abspath(file_name))
         if os.path.abspath(file_name) in self.includes:
             del self.includes[os.path.abspath(file_name)]
 
@@ -300,6 +316,7 @@ class Source_Manager:
                                     primary)
         self.trlc_files[file_name] = parser
         self.all_files[file_name] = parser
+        self.registered.add(os.path.abspath(file_name))
         if os.path.abspath(file_name) in self.includes:
             del self.includes[os.path.abspath(file_name)]
 
@@ -718,7 +735,7 @@ def trlc():
         for path_name in options.items:
             if os.path.isdir(path_name):
                 ok &= sm.register_directory(path_name)
-            else:  # pragma: no cover
+            elif not sm.is_registered(path_name):  # pragma: no cover
                 try:
                     ok &= sm.register_file(path_name)
                 except TRLC_Error:
-- 
2.43.0


From 9a3d74256a453bf403763bbf01e2711bea6d6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 42/45] fix: verification assumed that optional tuples and
 arrays are always present

The constraints of an optional tuple (its checks) or array (its bounds)
only limit values that are given. If they cannot be satisfied then the
component must be null, but verification concluded that there is no such
object at all, so no problems were found and every check was reported as
always true.
---
 trlc/vcg.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 52f0ac8..6130946 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -562,7 +562,7 @@ class VCG:
         return n_component.member_of.fully_qualified_name() + \
             "." + n_component.name + ".valid"
 
-    def emit_tuple_constraints(self, n_tuple, s_sym):
+    def tuple_constraints(self, n_tuple, s_sym):
         assert isinstance(n_tuple, Tuple_Type)
         assert isinstance(s_sym, smt.Constant)
 
@@ -610,8 +610,7 @@ class VCG:
         del self.tuple_base[n_tuple]
         self.functional = old_functional
 
-        for cons in constraints:
-            self.start.add_statement(smt.Assertion(cons))
+        return constraints
 
     def tr_component_decl(self, n_component, gn_locals):
         assert isinstance(n_component, Composite_Component)
@@ -642,27 +641,27 @@ class VCG:
         gn_locals.add_statement(s_decl)
         self.constants[id_value] = s_sym
 
+        constraints = []
+
         if isinstance(n_component.n_typ, Tuple_Type):
-            self.emit_tuple_constraints(n_component.n_typ, s_sym)
+            constraints += self.tuple_constraints(n_component.n_typ, s_sym)
 
         # For arrays we need to add additional constraints for the
         # length
         if isinstance(n_component.n_typ, Array_Type):
             if n_component.n_typ.lower_bound > 0:
                 s_lower = smt.Integer_Literal(n_component.n_typ.lower_bound)
-                gn_locals.add_statement(
-                    smt.Assertion(
-                        smt.Comparison(">=",
-                                       smt.Sequence_Length(s_sym),
-                                       s_lower)))
+                constraints.append(
+                    smt.Comparison(">=",
+                                   smt.Sequence_Length(s_sym),
+                                   s_lower))
 
             if n_component.n_typ.upper_bound is not None:
                 s_upper = smt.Integer_Literal(n_component.n_typ.upper_bound)
-                gn_locals.add_statement(
-                    smt.Assertion(
-                        smt.Comparison("<=",
-                                       smt.Sequence_Length(s_sym),
-                                       s_upper)))
+                constraints.append(
+                    smt.Comparison("<=",
+                                   smt.Sequence_Length(s_sym),
+                                   s_upper))
 
         id_valid = self.tr_component_valid_name(n_component)
         s_sym  = smt.Constant(smt.BUILTIN_BOOLEAN, id_valid)
@@ -676,6 +675,12 @@ class VCG:
         gn_locals.add_statement(s_decl)
         self.constants[id_valid] = s_sym
 
+        # The constraints only limit values that are actually there
+        for cons in constraints:
+            if s_val is None:
+                cons = smt.Implication(s_sym, cons)
+            gn_locals.add_statement(smt.Assertion(cons))
+
     def tr_type(self, n_type):
         assert isinstance(n_type, Type)
 
-- 
2.43.0


From 82655c15c3a087a7ba9c6cbfb4926b1ff39c59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 43/45] fix: keep form feeds and other separators in triple
 quoted strings

They were replaced by line ends, although the value is the string of
characters between the quotes.
---
 trlc/lexer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 0b0f3bc..9b9b46e 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -31,9 +31,7 @@ def triple_quoted_string_value(raw_value):
     assert raw_value.startswith("'''") or raw_value.startswith('"""')
     assert raw_value[:3] == raw_value[-3:]
 
-    lines = raw_value[3:-3].strip().splitlines()
-    if not lines:
-        return ""
+    lines = raw_value[3:-3].strip().split("\n")
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-- 
2.43.0


From 938eea2f92cfb2477816913f1409153e407f2e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 44/45] fix: link enumeration literals in tuples to their token

---
 trlc/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index c9c724a..d8108d4 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1797,8 +1797,10 @@ class Parser(Parser_Base):
             lit = enum.literals.lookup(self.mh,
                                        self.ct,
                                        ast.Enumeration_Literal_Spec)
-            return ast.Enumeration_Literal(self.ct.location,
-                                           lit)
+            rv = ast.Enumeration_Literal(self.ct.location,
+                                         lit)
+            rv.set_ast_link(self.ct)
+            return rv
 
         elif isinstance(typ, (ast.Record_Type, ast.Union_Type)):
             self.match("IDENTIFIER")
-- 
2.43.0


From cc6e93d08b2e11df68bc4573521179e755cd1045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:19 +0000
Subject: [PATCH 45/45] fix: determine the common root of all files by whole
 path components

---
 trlc/trlc.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5275ac1..2b370a5 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -140,15 +140,17 @@ class Source_Manager:
     def update_common_root(self, file_name):
         assert isinstance(file_name, str)
 
+        new_root = os.path.dirname(os.path.abspath(file_name))
         if self.common_root is None:
-            self.common_root = os.path.dirname(os.path.abspath(file_name))
-        else:
-            new_root = os.path.dirname(os.path.abspath(file_name))
-            for n, (char_a, char_b) in enumerate(zip(self.common_root,
-                                                     new_root)):
-                if char_a != char_b:
-                    self.common_root = self.common_root[0:n]
-                    break
+            self.common_root = new_root
+
+        # Ascend until we find a directory that contains both
+        while not os.path.join(new_root, "").startswith(
+                os.path.join(self.common_root, "")):
+            parent = os.path.dirname(self.common_root)
+            if parent == self.common_root:
+                break
+            self.common_root = parent
 
     def create_parser(self, file_name, file_content=None, primary_file=True):
         assert os.path.isfile(file_name)
-- 
2.43.0

