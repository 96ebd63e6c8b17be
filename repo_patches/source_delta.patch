From ee0055ab0250c469e94b77ec4e2bb48708e689be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 01/51] fix: strip trailing whitespace on the first line of
 triple quoted strings

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 259364b..21009ac 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -37,7 +37,7 @@ def triple_quoted_string_value(raw_value):
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-    value      = lines[0]
+    value      = lines[0].rstrip()
     common_ws  = ""
     common_len = 0
     if len(non_empty_lines) >= 2:
-- 
2.43.0


From 4ce09970be023e5ddbeb7546aee2fd5155daa76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 02/51] fix: do not treat /*/ as a complete comment

---
 trlc/lexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 21009ac..7cca88b 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -342,6 +342,9 @@ class TRLC_Lexer(Lexer_Base):
         elif self.cc == "/" and self.nc == "*":
             # lobster-trace: LRM.Comments
             kind = "COMMENT"
+            self.advance()
+            if self.nc:
+                self.advance()
             while self.nc and not (self.cc == "*" and self.nc == "/"):
                 self.advance()
             self.advance()
-- 
2.43.0


From 351796e99f7f4367162f254e79834809a4b1d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 03/51] fix: unterminated or final triple quoted string at the
 end of a file

A file ending in ', '', ''' or """ crashed the lexer, and a triple quoted
string as the very last characters of a file was reported as unterminated.
---
 trlc/lexer.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 7cca88b..e84f550 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -417,11 +417,6 @@ class TRLC_Lexer(Lexer_Base):
                 self.advance()
                 quotes_seen = 0
                 while quotes_seen < 3:
-                    self.advance()
-                    if self.cc == '"':
-                        quotes_seen += 1
-                    else:
-                        quotes_seen = 0
                     if self.nc is None:
                         self.mh.lex_error(
                             Source_Reference(lexer      = self,
@@ -430,6 +425,11 @@ class TRLC_Lexer(Lexer_Base):
                                              start_pos  = start_pos,
                                              end_pos    = self.lexpos),
                             "unterminated triple-quoted string")
+                    self.advance()
+                    if self.cc == '"':
+                        quotes_seen += 1
+                    else:
+                        quotes_seen = 0
             else:
                 while self.nc != '"':
                     if self.nc is None:
@@ -465,15 +465,11 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(self.lexpos,
+                                                          self.length - 1)),
                         "malformed triple-quoted string")
             quotes_seen = 0
             while quotes_seen < 3:
-                self.advance()
-                if self.cc == "'":
-                    quotes_seen += 1
-                else:
-                    quotes_seen = 0
                 if self.nc is None:
                     self.mh.lex_error(
                         Source_Reference(lexer      = self,
@@ -482,6 +478,11 @@ class TRLC_Lexer(Lexer_Base):
                                          start_pos  = start_pos,
                                          end_pos    = self.lexpos),
                         "unterminated triple-quoted string")
+                self.advance()
+                if self.cc == "'":
+                    quotes_seen += 1
+                else:
+                    quotes_seen = 0
 
         elif self.is_numeric(self.cc):
             # lobster-trace: LRM.Integers
-- 
2.43.0


From 8482334a9bb89967679cb6bfcae7605055142bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 04/51] fix: indexing an array right after its last element is
 an error

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ff2acf9..32dadaa 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1812,7 +1812,7 @@ class Binary_Expression(Expression):
                          (v_lhs.typ.upper_bound,
                           self.to_string(),
                           mh.cross_file_reference(self.location)))
-            elif v_rhs.value > len(v_lhs.value):
+            elif v_rhs.value >= len(v_lhs.value):
                 mh.error(v_lhs.location,
                          "array is not big enough in %s (%s)" %
                          (self.to_string(),
-- 
2.43.0


From 38332ad176d71533b54eba5743993eed58b2a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 05/51] fix: null as the predicate of a quantified expression
 is an error

---
 trlc/ast.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 32dadaa..57ce5ee 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2312,6 +2312,12 @@ class Quantified_Expression(Expression):
         for binding in array_values.value:
             new_ctx[self.n_var.name] = binding
             result = self.n_expr.evaluate(mh, new_ctx, gstab)
+            if result.value is None:
+                mh.error(result.location,
+                         "predicate of quantified expression %s (%s) "
+                         "must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
             assert isinstance(result.value, bool)
             if self.universal and not result.value:
                 rv  = False
-- 
2.43.0


From e9e66c3e7e41b76e7daedf875d574b9d2a5fdd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 06/51] fix: null as right operand of and, or, implies is an
 error

---
 trlc/ast.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 57ce5ee..adec0a4 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1636,23 +1636,17 @@ class Binary_Expression(Expression):
         # Check for the short-circuit operators first
         if self.operator == Binary_Operator.LOGICAL_AND:
             assert isinstance(v_lhs.value, bool)
-            if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
-            else:
+            if not v_lhs.value:
                 return v_lhs
 
         elif self.operator == Binary_Operator.LOGICAL_OR:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
                 return v_lhs
-            else:
-                return self.n_rhs.evaluate(mh, context, gstab)
 
         elif self.operator == Binary_Operator.LOGICAL_IMPLIES:
             assert isinstance(v_lhs.value, bool)
-            if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
-            else:
+            if not v_lhs.value:
                 return Value(location = self.location,
                              value    = True,
                              typ      = self.typ)
@@ -1667,7 +1661,13 @@ class Binary_Expression(Expression):
                      (self.to_string(),
                       mh.cross_file_reference(self.location)))
 
-        if self.operator == Binary_Operator.LOGICAL_XOR:
+        if self.operator in (Binary_Operator.LOGICAL_AND,
+                             Binary_Operator.LOGICAL_OR,
+                             Binary_Operator.LOGICAL_IMPLIES):
+            assert isinstance(v_rhs.value, bool)
+            return v_rhs
+
+        elif self.operator == Binary_Operator.LOGICAL_XOR:
             assert isinstance(v_lhs.value, bool)
             assert isinstance(v_rhs.value, bool)
             return Value(location = self.location,
-- 
2.43.0


From c3c69781f49ac07dbca4d207d8cbbc915be55010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 07/51] fix: null as parameter of oneof is an error

---
 trlc/ast.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index adec0a4..85c87d7 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2049,8 +2049,15 @@ class OneOf_Expression(Expression):
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
-        v_choices = [n_choice.evaluate(mh, context, gstab).value
-                     for n_choice in self.choices]
+        v_choices = []
+        for n_choice in self.choices:
+            v_choice = n_choice.evaluate(mh, context, gstab)
+            if v_choice.value is None:
+                mh.error(v_choice.location,
+                         "parameter of %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
+            v_choices.append(v_choice.value)
 
         return Value(location = self.location,
                      value    = v_choices.count(True) == 1,
-- 
2.43.0


From e1eac18c46a06cec06a686ad7b5fe06900f5a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 08/51] fix: equality is defined for a record type and its
 extensions

---
 trlc/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 85c87d7..3994706 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1474,10 +1474,10 @@ class Binary_Expression(Expression):
             if (self.n_lhs.typ is None) or (self.n_rhs.typ is None):
                 # We can compary anything to null (including itself)
                 pass
-            elif isinstance(self.n_lhs.typ, Union_Type) or \
-                 isinstance(self.n_rhs.typ, Union_Type):
-                # For union types, we allow comparison if both
-                # sides are record-like (Record_Type or Union_Type)
+            elif isinstance(self.n_lhs.typ, (Record_Type, Union_Type)) or \
+                 isinstance(self.n_rhs.typ, (Record_Type, Union_Type)):
+                # For record and union types, we allow comparison if
+                # both sides are record-like (Record_Type or Union_Type)
                 lhs_is_record = isinstance(self.n_lhs.typ,
                                            (Record_Type, Union_Type))
                 rhs_is_record = isinstance(self.n_rhs.typ,
-- 
2.43.0


From a07156504cae73db5b67548e5e569dfdc24b5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 09/51] fix: references are equal only if they refer to the
 same record

---
 trlc/ast.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 3994706..906bb26 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1143,11 +1143,23 @@ class Record_Reference(Expression):
     def to_string(self):
         return self.name
 
+    def __eq__(self, other):
+        # lobster-trace: LRM.Equality_On_Record_References
+        if not isinstance(other, Record_Reference):
+            return False
+        elif self.target is None or other.target is None:
+            return self is other
+        else:
+            return self.target is other.target
+
+    def __hash__(self):
+        return hash((self.package.name, self.name))
+
     def evaluate(self, mh, context, gstab):
         assert isinstance(mh, Message_Handler)
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
-        return Value(self.location, copy(self.target.field), self.typ)
+        return Value(self.location, self, self.typ)
 
     def resolve_references(self, mh):
         # lobster-trace: LRM.References_To_Extensions
@@ -1893,6 +1905,8 @@ class Field_Access_Expression(Expression):
             # lobster-trace: LRM.Dereference
             mh.error(self.n_prefix.location,
                      "null dereference")
+        elif isinstance(v_prefix, Record_Reference):
+            v_prefix = v_prefix.target.field
 
         # lobster-trace: LRM.Union_Type_Partial_Field_Access
         # lobster-trace: LRM.Union_Type_Partial_Field_Null
-- 
2.43.0


From dbc8e86f52f4ead460c67fda22eff2a1560b4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 10/51] fix: array membership agrees with equality on types and
 values

---
 trlc/ast.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 906bb26..dcaf863 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1541,7 +1541,28 @@ class Binary_Expression(Expression):
 
         elif operator == Binary_Operator.ARRAY_CONTAINS:
             self.n_rhs.ensure_type(mh, Array_Type)
-            self.n_lhs.ensure_type(mh, self.n_rhs.typ.element_type.__class__)
+            element_type = self.n_rhs.typ.element_type
+            if isinstance(self.n_lhs.typ, (Record_Type, Union_Type)) and \
+               isinstance(element_type, (Record_Type, Union_Type)):
+                # lobster-trace: LRM.Array_Membership_Semantics
+                # Same rule as for equality
+                lhs_members = (self.n_lhs.typ.types
+                               if isinstance(self.n_lhs.typ, Union_Type)
+                               else [self.n_lhs.typ])
+                rhs_members = (element_type.types
+                               if isinstance(element_type, Union_Type)
+                               else [element_type])
+                if not any(lm.is_subclass_of(rm) or rm.is_subclass_of(lm)
+                           for lm in lhs_members
+                           for rm in rhs_members):
+                    mh.error(self.location,
+                             "type mismatch: %s and %s do not match" %
+                             (self.n_lhs.typ.name,
+                              element_type.name))
+            elif isinstance(element_type, Builtin_Type):
+                self.n_lhs.ensure_type(mh, element_type.__class__)
+            else:
+                self.n_lhs.ensure_type(mh, element_type)
 
         elif operator == Binary_Operator.PLUS:
             if isinstance(self.n_lhs.typ, Builtin_Numeric_Type):
@@ -1744,7 +1765,8 @@ class Binary_Expression(Expression):
             assert isinstance(v_rhs.value, list)
 
             return Value(location = self.location,
-                         value    = v_lhs in v_rhs.value,
+                         value    = any(v_lhs.value == v_item.value
+                                        for v_item in v_rhs.value),
                          typ      = self.typ)
 
         elif self.operator == Binary_Operator.PLUS:
-- 
2.43.0


From 0040753aa9f0390233fea84c17e676051e189b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 11/51] fix: quantified expressions are not static

---
 trlc/ast.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index dcaf863..beb2a35 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2331,9 +2331,10 @@ class Quantified_Expression(Expression):
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
         if context is None:
-            new_ctx = {}
-        else:
-            new_ctx = copy(context)
+            mh.error(self.location,
+                     "cannot be used in a static context")
+
+        new_ctx = copy(context)
 
         # This is going to be a bit tricky. We essentially eliminate
         # the quantifier and substitute; for the sake of making better
-- 
2.43.0


From 91dee6351b754c6dfa144277cc6d66b9e3013b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 12/51] fix: access to inherited components of a referenced
 record

---
 trlc/ast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index beb2a35..1779dd9 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1904,7 +1904,11 @@ class Field_Access_Expression(Expression):
         self.is_union_access = is_union_access
         self.is_universal    = is_universal
 
-        if not is_union_access:
+        # For records the field may be inherited
+        if not is_union_access and \
+           not (isinstance(self.n_prefix.typ, Record_Type) and
+                isinstance(self.n_field.member_of, Record_Type) and
+                self.n_prefix.typ.is_subclass_of(self.n_field.member_of)):
             self.n_prefix.ensure_type(mh, self.n_field.member_of)
 
     def dump(self, indent=0):  # pragma: no cover
-- 
2.43.0


From e837f8871a24b2911bcc150133bf52cc4b3a7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 13/51] fix: no internal error if a file ends in an array
 bound, check, or tuple

---
 trlc/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5c75a4c..936dfab 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -637,7 +637,7 @@ class Parser(Parser_Base):
             elif self.peek("OPERATOR") and self.nt.value == "*":
                 self.match("OPERATOR")
             else:
-                self.mh.error(self.nt.location,
+                self.mh.error((self.nt or self.ct).location,
                               "expected INTEGER or * for upper bound")
             t_hi = self.ct
             loc_hi = self.ct.location
@@ -1593,7 +1593,7 @@ class Parser(Parser_Base):
                 elif self.peek("STRING"):
                     has_extrainfo = True
                 else:
-                    self.mh.error(self.nt.location,
+                    self.mh.error((self.nt or self.ct).location,
                                   "expected either a details string or"
                                   " identifier to anchor the check message")
 
@@ -1820,7 +1820,7 @@ class Parser(Parser_Base):
 
         elif isinstance(typ, ast.Tuple_Type) and typ.has_separators():
             # lobster-trace: LRM.Tuple_Separator_Form
-            rv = ast.Tuple_Aggregate(self.nt.location, typ)
+            rv = ast.Tuple_Aggregate((self.nt or self.ct).location, typ)
 
             next_is_optional = False
             for n_item in typ.iter_sequence():
-- 
2.43.0


From 491dd65c929518c0eac2a2274b489f0b973af435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 14/51] fix: no internal error for a membership test in null

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 936dfab..eae3bf1 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -916,7 +916,7 @@ class Parser(Parser_Base):
                 self.mh.error(
                     n_a.location,
                     "membership test only defined for Strings and Arrays,"
-                    " not for %s" % n_a.typ.name)
+                    " not for %s" % (n_a.typ.name if n_a.typ else "null"))
 
             if t_not is not None:
                 a_unary_op = ast.Unary_Operator.LOGICAL_NOT
-- 
2.43.0


From 01fc1003e562b7c4c4b90e97b9b50a7096bb87c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 15/51] fix: no internal error for conversions with the wrong
 number of parameters

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index eae3bf1..3aba942 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1270,7 +1270,7 @@ class Parser(Parser_Base):
             if required_arity != len(parameters):
                 self.mh.error(t_name.location,
                               "function requires %u parameters" %
-                              n_name.arity)
+                              required_arity)
         else:
             if required_arity > len(parameters):
                 self.mh.error(t_name.location,
-- 
2.43.0


From 4cba09806499f5f59b8a7cb5403b59b5d9490297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 16/51] fix: arrays with an upper bound of zero must be empty

---
 trlc/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 3aba942..182678c 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1763,7 +1763,8 @@ class Parser(Parser_Base):
                               (typ.lower_bound,
                                len(rv.value)),
                               fatal=False)
-            if typ.upper_bound and len(rv.value) > typ.upper_bound:
+            if typ.upper_bound is not None and \
+               len(rv.value) > typ.upper_bound:
                 self.mh.error(rv.value[typ.upper_bound].location,
                               "this array requires at most %u elements "
                               "(%u provided)" %
-- 
2.43.0


From 7c0ba4d3bb9180111e19df6c33779d96ef54bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 17/51] fix: no internal error when linting tuples containing
 enumerations

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 1779dd9..4b9b00f 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3238,7 +3238,7 @@ class Enumeration_Type(Concrete_Type):
         # lobster-exclude: utility method
         options = list(self.literals.values())
         if options:
-            choice = len(options) // 2
+            choice = options[len(options) // 2]
             return self.name + "." + choice.name
         else:
             return "ERROR"
-- 
2.43.0


From bcef6b46e6185b28b048c067b19de87df465f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 18/51] fix: missing separators in tuple values are an error

---
 trlc/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 182678c..13248b8 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1829,6 +1829,10 @@ class Parser(Parser_Base):
                     if next_is_optional and n_item.optional:
                         break
                     value = self.parse_value(n_item.n_typ)
+                    if next_is_optional:
+                        self.mh.error(value.location,
+                                      "expected separator before %s" %
+                                      n_item.name)
                     rv.assign(n_item.name, value)
 
                 elif n_item.token.kind in ("AT", "COLON", "SEMICOLON"):
-- 
2.43.0


From b90fcf7eacfbaf07241f547422b0619854aa5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 19/51] fix: no internal error for packages with errors in the
 preamble

---
 trlc/trlc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5d7f5dd..446b21c 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -383,16 +383,20 @@ class Source_Manager:
 
         # Select RSL files that we should parse
         rsl_map = {(parser.cu.package.name , "rsl"): parser
-                   for parser in self.rsl_files.values()
+                   for name, parser in self.rsl_files.items()
                    if parser.cu.package and (parser.primary or
-                                             parser.secondary)}
+                                             parser.secondary)
+                   and name not in self.files_with_preamble_errors}
 
         # Parse packages that have no unparsed dependencies. Keep
         # doing it until we parse everything or until we have reached
         # a fix point (in which case we have a cycle in our
         # dependencies).
         work_list = set(rsl_map)
-        processed = set()
+        processed = {(self.rsl_files[name].cu.package.name , "rsl")
+                     for name in self.files_with_preamble_errors
+                     if name in self.rsl_files and
+                     self.rsl_files[name].cu.package} - work_list
         while work_list:
             candidates = {node
                           for node in work_list
-- 
2.43.0


From 46d9a3bfbd5c8c172dfb678a156e61536bd8b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 20/51] fix: evaluate the tuple checks of all elements of an
 array

---
 trlc/ast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 4b9b00f..3af329f 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2621,8 +2621,11 @@ class Array_Type(Type):
         assert isinstance(gstab, Symbol_Table)
 
         if isinstance(value, Array_Aggregate):
-            return all(self.element_type.perform_type_checks(mh, v, gstab)
-                       for v in value.value)
+            ok = True
+            for v in value.value:
+                if not self.element_type.perform_type_checks(mh, v, gstab):
+                    ok = False
+            return ok
         else:
             assert isinstance(value, Implicit_Null)
             return True
-- 
2.43.0


From 90953e98f52ba531e70527a26f7a983d80990689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 21/51] fix: evaluate the checks of tuples nested in tuples

---
 trlc/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 3af329f..c00af05 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3155,6 +3155,10 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
+            for n_comp in self.components.values():
+                if not n_comp.n_typ.perform_type_checks(
+                        mh, value.value[n_comp.name], gstab):
+                    ok = False
             for check in self.iter_checks():
                 if not check.perform(mh, value, gstab):
                     ok = False
-- 
2.43.0


From 1b04fbca443844d2ef5e9c589b13a39a6d5a9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 22/51] fix: no internal error for integers with more than 4300
 digits

---
 trlc/lexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index e84f550..6795636 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -18,11 +18,17 @@
 # You should have received a copy of the GNU General Public License
 # along with TRLC. If not, see <https://www.gnu.org/licenses/>.
 
+import sys
 from fractions import Fraction
 from abc import ABCMeta, abstractmethod
 
 from trlc.errors import Location, Message_Handler
 
+# The language has no limit on the number of digits in a literal, but
+# newer versions of Python do (by default).
+if hasattr(sys, "set_int_max_str_digits"):
+    sys.set_int_max_str_digits(0)
+
 
 def triple_quoted_string_value(raw_value):
     # lobster-trace: LRM.Complex_String_Value
-- 
2.43.0


From 8ab51f773ae0a3be147ba40ff8c260116e9bf282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 23/51] fix: string form of tuple values

---
 trlc/ast.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index c00af05..f900cfa 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1050,7 +1050,7 @@ class Tuple_Aggregate(Expression):
             rv = "("
         for n_item in self.typ.iter_sequence():
             if isinstance(n_item, Separator):
-                rv += " %s " % n_item.token.value
+                rv += " %s " % n_item.to_string()
             elif first:
                 first = False
             else:
@@ -1058,10 +1058,8 @@ class Tuple_Aggregate(Expression):
 
             if isinstance(n_item, Composite_Component):
                 rv += self.value[n_item.name].to_string()
-        if self.typ.has_separators():
-            rv = ""
-        else:
-            rv = ")"
+        if not self.typ.has_separators():
+            rv += ")"
         return rv
 
     def evaluate(self, mh, context, gstab):
-- 
2.43.0


From f3f8b20b3f9581ad240c614f700a5d5dc0568418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 24/51] fix: a trailing comma in a parameter list is an error

---
 trlc/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 13248b8..80cc266 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1253,6 +1253,9 @@ class Parser(Parser_Base):
             if self.peek("COMMA"):
                 self.match("COMMA")
                 n_name.set_ast_link(self.ct)
+                if self.peek("KET"):
+                    self.mh.error(self.nt.location,
+                                  "expected a parameter")
             else:
                 break
         self.match("KET")
-- 
2.43.0


From 22c99e66ff760c94c08f8d32187b9f9c623da022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 25/51] fix: importing an unknown package is an error

---
 trlc/ast.py  | 8 +++++---
 trlc/trlc.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index f900cfa..3fc7c15 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -263,15 +263,17 @@ class Compilation_Unit(Node):
         assert isinstance(mh, Message_Handler)
         assert isinstance(stab, Symbol_Table)
         self.imports = set()
+        ok = True
         for t_import in self.raw_imports:
-            # We can ignore errors here, because that just means we
-            # generate more error later.
+            # We can keep going after errors here, because that just
+            # means we generate more error later.
             try:
                 a_import = stab.lookup(mh, t_import, Package)
                 self.imports.add(a_import)
                 a_import.set_ast_link(t_import)
             except TRLC_Error:
-                pass
+                ok = False
+        return ok
 
     def is_visible(self, n_pkg):
         # lobster-trace: LRM.Import_Visibility
diff --git a/trlc/trlc.py b/trlc/trlc.py
index 446b21c..0ebb419 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -341,7 +341,7 @@ class Source_Manager:
                 if parser.cu.package is None:
                     continue
                 pkg_name = parser.cu.package.name
-                parser.cu.resolve_imports(self.mh, self.stab)
+                ok &= parser.cu.resolve_imports(self.mh, self.stab)
 
                 graph[(pkg_name , kind)] |= \
                     {(imported_pkg.name , kind)
-- 
2.43.0


From 8fec24c3260014dd14744ae9ffeb7c95408b9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 26/51] fix: no internal error when linting tuples with an
 ambiguous separator

---
 trlc/lint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 9002cb8..0b4e3c6 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -137,6 +137,10 @@ class Linter:
                     "separator_based_literal_ambiguity",
                     "\n".join(explanation))
 
+                previous_was_bad_sep = False
+                previous_was_int     = isinstance(n_item.n_typ,
+                                                  ast.Builtin_Integer)
+
             elif isinstance(n_item, ast.Composite_Component) and \
                isinstance(n_item.n_typ, ast.Builtin_Integer):
                 previous_was_int = True
-- 
2.43.0


From c221928890a562bbe2d0c8bd4bd5e1416fdb15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 27/51] fix: report unused imports in a fixed order

---
 trlc/lint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 0b4e3c6..3ed27a7 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -238,7 +238,8 @@ class Linter:
                 continue
             if not file.cu.imports:
                 continue
-            for item in file.cu.imports:
+            for item in sorted(file.cu.imports,
+                               key=lambda pkg: pkg.name):
                 import_tokens = [t for t in file.lexer.tokens
                                  if t.value == item.name]
                 markup = self.markup_ref(item,
-- 
2.43.0


From 4c4798efe607021cd9094e38b84afcee428899e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 28/51] fix: no internal error when verifying a quantifier over
 a body with its own checks

A quantified expression is translated functionally a second time, and
divisions, index, range or one-of expressions in its body then tripped
an assertion in the attach_*_check helpers. The checks have already been
generated in the first pass, so ignore the request, as documented for
functional.
---
 trlc/vcg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 5eee6ec..4734d96 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -166,9 +166,8 @@ class VCG:
         assert isinstance(bool_expr, smt.Expression)
         assert bool_expr.sort is smt.BUILTIN_BOOLEAN
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -186,9 +185,8 @@ class VCG:
         assert isinstance(int_expr, smt.Expression)
         assert int_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -207,9 +205,8 @@ class VCG:
         assert isinstance(real_expr, smt.Expression)
         assert real_expr.sort is smt.BUILTIN_REAL
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -231,9 +228,8 @@ class VCG:
         assert index_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Binary_Expression)
         assert origin.operator == Binary_Operator.INDEX
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
-- 
2.43.0


From 7f4d92e859700b77e5f0055db12368f94d61563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 29/51] fix: declare enumeration and tuple sorts where they can
 always be used

Sorts were declared at the current graph node, which is not necessarily
one that accepts declarations (assertion failure), nor one preceding the
use in a record sort declared in the preamble, or on another branch.
---
 trlc/vcg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 4734d96..ff9f2e0 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -689,7 +689,7 @@ class VCG:
                 for n_lit in n_type.literals.values():
                     s_sort.add_literal(n_lit.name)
                 self.enumerations[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Enumeration_Declaration(
                         s_sort,
                         "enumeration %s from %s" % (
@@ -708,7 +708,7 @@ class VCG:
                         s_sort.add_component(n_component.name + ".valid",
                                              smt.BUILTIN_BOOLEAN)
                 self.tuples[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Record_Declaration(
                         s_sort,
                         "tuple %s from %s" % (
-- 
2.43.0


From 4b07ea9dab2c21a1d329fa43be55a74e83ec6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 30/51] fix: support large integers and decimals in --verify

The CVC5 API raises an OverflowError for integer literals that do not
fit into 32 bits (and reals that do not fit into 64 bits).
---
 trlc/vcg.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index ff9f2e0..66ddc31 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -640,7 +640,7 @@ class VCG:
         # length
         if isinstance(n_component.n_typ, Array_Type):
             if n_component.n_typ.lower_bound > 0:
-                s_lower = smt.Integer_Literal(n_component.n_typ.lower_bound)
+                s_lower = self.tr_integer(n_component.n_typ.lower_bound)
                 gn_locals.add_statement(
                     smt.Assertion(
                         smt.Comparison(">=",
@@ -648,7 +648,7 @@ class VCG:
                                        s_lower)))
 
             if n_component.n_typ.upper_bound is not None:
-                s_upper = smt.Integer_Literal(n_component.n_typ.upper_bound)
+                s_upper = self.tr_integer(n_component.n_typ.upper_bound)
                 gn_locals.add_statement(
                     smt.Assertion(
                         smt.Comparison("<=",
@@ -667,6 +667,35 @@ class VCG:
         gn_locals.add_statement(s_decl)
         self.constants[id_valid] = s_sym
 
+    def tr_integer(self, value):
+        assert isinstance(value, int)
+
+        # The CVC5 API only takes literals of up to 32 bits (and reals
+        # of up to 64 bits); larger numbers are put together from such
+        # literals.
+        if -2 ** 31 <= value < 2 ** 31:
+            return smt.Integer_Literal(value)
+
+        high, low = divmod(value, 2 ** 30)
+        return smt.Binary_Int_Arithmetic_Op(
+            "+",
+            smt.Binary_Int_Arithmetic_Op("*",
+                                         self.tr_integer(high),
+                                         smt.Integer_Literal(2 ** 30)),
+            smt.Integer_Literal(low))
+
+    def tr_real(self, value):
+        assert isinstance(value, Fraction)
+
+        num, den = value.as_integer_ratio()
+        if -2 ** 63 <= num < 2 ** 63 and den < 2 ** 63:
+            return smt.Real_Literal(value)
+
+        return smt.Binary_Real_Arithmetic_Op(
+            "/",
+            smt.Conversion_To_Real(self.tr_integer(num)),
+            smt.Conversion_To_Real(self.tr_integer(den)))
+
     def tr_type(self, n_type):
         assert isinstance(n_type, Type)
 
@@ -788,10 +817,10 @@ class VCG:
             value = smt.Boolean_Literal(n_expr.value)
 
         elif isinstance(n_expr, Integer_Literal):
-            value = smt.Integer_Literal(n_expr.value)
+            value = self.tr_integer(n_expr.value)
 
         elif isinstance(n_expr, Decimal_Literal):
-            value = smt.Real_Literal(n_expr.value)
+            value = self.tr_real(n_expr.value)
 
         elif isinstance(n_expr, Enumeration_Literal):
             value = smt.Enumeration_Literal(self.tr_type(n_expr.typ),
-- 
2.43.0


From 4a825c2127320eab1fbc8ecbe6fa9329a00d05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 31/51] fix: escape quotes in the strings of counter-examples

---
 trlc/vcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 66ddc31..27e750a 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -493,7 +493,7 @@ class VCG:
             if "\n" in value:
                 return "'''%s'''" % value
             else:
-                return '"%s"' % value
+                return '"%s"' % value.replace('"', '\\"')
 
         elif isinstance(n_typ, (Record_Type, Union_Type)):
             # lobster-trace: LRM.Union_Type_Equality
-- 
2.43.0


From 258465ffca31088031097f920523b84888d088d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 32/51] fix: column of problems in the first line of triple
 quoted markup

The location always was the first character of the string.
---
 trlc/nested.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trlc/nested.py b/trlc/nested.py
index 339b975..63ea493 100644
--- a/trlc/nested.py
+++ b/trlc/nested.py
@@ -50,7 +50,9 @@ class Nested_Lexer(Lexer_Base):
             loc = Source_Reference(
                 lexer      = self.origin_location.lexer,
                 start_line = self.origin_location.line_no + (start_line - 1),
-                start_col  = (self.origin_location.col_no + self.base_offset
+                start_col  = (self.origin_location.col_no +
+                              self.base_offset +
+                              start_col - 1
                               if start_line == 1
                               else start_col),
                 start_pos  = (self.origin_location.start_pos +
-- 
2.43.0


From 8bf7562e1b77064c56c8899e44f936938d1893f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 33/51] fix: end location of constructs close to the start of
 the file

A newline in the first two characters was not taken into account.
---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 6795636..150fa4b 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -121,7 +121,7 @@ class Source_Reference(Location):
         end_line = self.line_no + lines_in_between
 
         end_col = self.end_pos + 1
-        for n in range(self.end_pos, 1, -1):
+        for n in range(self.end_pos, -1, -1):
             if self.lexer.content[n] == "\n":
                 end_col = max(self.end_pos - n, 1)
                 break
-- 
2.43.0


From b9a61c670f99c0eadb51287f89afb7ed843d128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 34/51] fix: quoted source line for locations at the end of a
 line

The following line was shown, if the location is a newline.
---
 trlc/lexer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 150fa4b..17900f1 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -92,20 +92,20 @@ class Source_Reference(Location):
 
     def context_lines(self):
         line = ""
-        n = self.start_pos
+        n = self.start_pos - 1
         while n >= 0:
             if self.lexer.content[n] == "\n":
                 break
             line = self.lexer.content[n] + line
             n -= 1
         offset = self.start_pos - n - 1
-        n = self.start_pos + 1
+        n = self.start_pos
         while n < self.lexer.length:
             if self.lexer.content[n] == "\n":
                 break
             line = line + self.lexer.content[n]
             n += 1
-        maxtrail = n - self.start_pos
+        maxtrail = max(n - self.start_pos, 1)
         tlen = self.end_pos + 1 - self.start_pos
 
         stripped_line = line.lstrip()
-- 
2.43.0


From b7a992646645108c6e0b15fea572426df2944d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 35/51] fix: end location of constructs at the end of a line

A location at a newline ended in the next line.
---
 trlc/lexer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 17900f1..3f5fab9 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -116,14 +116,14 @@ class Source_Reference(Location):
 
     def get_end_location(self):
         lines_in_between = self.lexer.content[
-            self.start_pos : self.end_pos + 1
+            self.start_pos : self.end_pos
         ].count("\n")
         end_line = self.line_no + lines_in_between
 
         end_col = self.end_pos + 1
-        for n in range(self.end_pos, -1, -1):
+        for n in range(self.end_pos - 1, -1, -1):
             if self.lexer.content[n] == "\n":
-                end_col = max(self.end_pos - n, 1)
+                end_col = self.end_pos - n
                 break
 
         return Location(self.file_name, end_line, end_col)
-- 
2.43.0


From 04723365943506609169b3ffabb0910485ce3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 36/51] fix: iterate by section more than once

The symbol table kept track of the files and sections seen between calls,
so only the first iteration was complete.
---
 trlc/ast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 3fc7c15..652ce1c 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3463,8 +3463,6 @@ class Symbol_Table:
         self.parent   = parent
         self.imported = []
         self.table    = OrderedDict()
-        self.trlc_files = []
-        self.section_names = []
 
     @staticmethod
     def simplified_name(name):
@@ -3492,16 +3490,18 @@ class Symbol_Table:
         Output: Information about sections and level of sections,
         record objects and levels of record object
         """
+        trlc_files    = []
+        section_names = []
         for record_object in self.iter_record_objects():
             location = record_object.location.file_name
-            if location not in self.trlc_files:
-                self.trlc_files.append(location)
+            if location not in trlc_files:
+                trlc_files.append(location)
                 yield location
             if record_object.section:
                 object_level = len(record_object.section) - 1
                 for level, section in enumerate(record_object.section):
-                    if section not in self.section_names:
-                        self.section_names.append(section)
+                    if section not in section_names:
+                        section_names.append(section)
                         yield section.name, level
                 yield record_object, object_level
             else:
-- 
2.43.0


From ef0b09cafabce09464365d391f1f843bfde0db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 37/51] fix: mention of builtin entities in messages

They have no file, and so no path relative to the others.
---
 trlc/trlc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 0ebb419..337e1e3 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -126,7 +126,8 @@ class Source_Manager:
     def cross_file_reference(self, location):
         assert isinstance(location, Location)
 
-        if self.common_root is None:
+        if self.common_root is None or \
+           location.file_name == ast.Builtin_Type.LOCATION.file_name:
             return location.to_string(False)
         elif location.line_no is None:
             return os.path.relpath(location.file_name,
-- 
2.43.0


From d0abbbc864e3da77cdefd2677442cb363bbe8693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 38/51] fix: common directory of all files

The common prefix of two directories is not always a directory; and files
in a directory further up were not considered.
---
 trlc/trlc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 337e1e3..492e8a9 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -143,12 +143,9 @@ class Source_Manager:
         if self.common_root is None:
             self.common_root = os.path.dirname(os.path.abspath(file_name))
         else:
-            new_root = os.path.dirname(os.path.abspath(file_name))
-            for n, (char_a, char_b) in enumerate(zip(self.common_root,
-                                                     new_root)):
-                if char_a != char_b:
-                    self.common_root = self.common_root[0:n]
-                    break
+            self.common_root = os.path.commonpath(
+                [self.common_root,
+                 os.path.dirname(os.path.abspath(file_name))])
 
     def create_parser(self, file_name, file_content=None, primary_file=True):
         assert os.path.isfile(file_name)
-- 
2.43.0


From 585acf15369117134863d62c17a97a3a0c299e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 39/51] fix: files named more than once on the command line

They were processed twice, or caused an assertion to fail.
---
 trlc/trlc.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 492e8a9..5c9bc68 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -89,6 +89,7 @@ class Source_Manager:
         self.includes    = {}
         self.rsl_files   = {}
         self.trlc_files  = {}
+        self.registered  = set()
         self.all_files   = {}
         self.dep_graph   = {}
 
@@ -229,14 +230,24 @@ class Source_Manager:
 
         return True
 
+    def is_registered(self, file_name):
+        """Test if a file is already registered, under any of its names
+
+        :param file_name: name of the file
+        :type file_name: str
+
+        :rtype: bool
+        """
+        return os.path.abspath(file_name) in self.registered
+
     def register_directory(self, dir_name):
         """Schedule a directory tree for parsing.
 
         :param dir_name: name of the directory
         :type file_name: str
+        Files which are already registered are skipped.
+
         :raise AssertionError: if the directory does not exist
-        :raise AssertionError: if any item in the directory is already \
-        registered
         :raise TRLC_Error: on any parse errors
 
         :return: true if the directory could be registered without issues
@@ -259,9 +270,10 @@ class Source_Manager:
                     del dirs[n]
 
             for file_name in sorted(files):
-                if os.path.splitext(file_name)[1] in (".rsl",
-                                                      ".trlc"):
-                    ok &= self.register_file(os.path.join(path, file_name))
+                full_name = os.path.join(path, file_name)
+                if os.path.splitext(file_name)[1] in (".rsl", ".trlc") and \
+                   not self.is_registered(full_name):
+                    ok &= self.register_file(full_name)
         return ok
 
     def register_rsl_file(self, file_name, file_content=None, primary=True):
@@ -277,6 +289,7 @@ class Source_Manager:
                                     primary)
         self.rsl_files[file_name] = parser
         self.all_files[file_name] = parser
+        self.registered.add(os.path.abspath(file_name))
         if os.path.abspath(file_name) in self.includes:
             del self.includes[os.path.abspath(file_name)]
 
@@ -298,6 +311,7 @@ class Source_Manager:
                                     primary)
         self.trlc_files[file_name] = parser
         self.all_files[file_name] = parser
+        self.registered.add(os.path.abspath(file_name))
         if os.path.abspath(file_name) in self.includes:
             del self.includes[os.path.abspath(file_name)]
 
@@ -712,7 +726,7 @@ def trlc():
         for path_name in options.items:
             if os.path.isdir(path_name):
                 ok &= sm.register_directory(path_name)
-            else:  # pragma: no cover
+            elif not sm.is_registered(path_name):  # pragma: no cover
                 try:
                     ok &= sm.register_file(path_name)
                 except TRLC_Error:
-- 
2.43.0


From 2143a50d02ffaacb1c8e16b9b2b8a660a1d6d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 40/51] fix: rst: records of a section come before its
 subsections

Otherwise they end up in the last subsection.
---
 tools/trlc_rst/trlc_rst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index a57bc84..0addd9f 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -163,6 +163,11 @@ class TRLCRST:
                 to_tree.append(from_node)
                 break
 
+        # The records of a section come before its subsections, otherwise
+        # they would end up below the last subsection
+        for node in list(preorder_iter(requirements_root)):
+            node.sort(key=lambda child: not child.is_leaf)
+
         self._requirements_tree = requirements_root
 
     def render_to_file(
-- 
2.43.0


From 22e4336e102e2f80ec84cb3db5f15aff123e89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 41/51] fix: rst: names of sections

Records in sections named like a record were lost; names which are empty or
have a meaning in RST were not rendered as headlines.
---
 tools/trlc_rst/trlc_rst.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 0addd9f..b06494a 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -208,7 +208,7 @@ class TRLCRST:
                     continue
 
                 if not node.is_leaf:
-                    file.write(f"{node.name}\n")
+                    file.write(f"{node.title}\n")
                     lookup = node.depth - depth_offset
                     if 0 < lookup <= len(RST_HEADLINE_SEPARATORS):
                         separator_char = RST_HEADLINE_SEPARATORS[lookup - 1]
@@ -216,11 +216,11 @@ class TRLCRST:
                         logger.warning(
                             "Section '%s' at depth %d exceeds max RST heading depth, "
                             'falling back to "\'" separator',
-                            node.name,
+                            node.title,
                             node.depth,
                         )
                         separator_char = "'"
-                    file.write(f"{separator_char * len(node.name)}\n")
+                    file.write(f"{separator_char * len(node.title)}\n")
 
                 else:
                     trlc_obj = getattr(node, "trlc_obj", None)
@@ -592,6 +592,14 @@ class TRLCRST:
 
         return "\n".join(processed_lines)
 
+    @staticmethod
+    def _headline(name: str) -> str:
+        """Return the section name as one line which is plain text in RST."""
+        title = " ".join(name.split())
+        if title and not title[0].isalnum():
+            title = "\\" + title
+        return title
+
     @staticmethod
     def _build_parent_tree(sections, root: Node) -> Node:
         """Build a parent tree from a section hierarchy.
@@ -606,7 +614,10 @@ class TRLCRST:
         current = root
 
         for section in sections:
-            current = Node(section.name, parent=current)
+            title = TRLCRST._headline(section.name)
+            if title:
+                # Names of records do not contain spaces, so this is distinct
+                current = Node("section " + section.name, parent=current, title=title)
         return current
 
     def render(
-- 
2.43.0


From 812f2fff2011f456002e236b7a1d8d7af8d510be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 42/51] fix: rst: fields belong to the directive of their
 record

They were not indented, so that text was read as part of the last field; and
values with several lines ended the field.
---
 tools/trlc_rst/trlc_rst.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index b06494a..9ff073d 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -275,7 +275,8 @@ class TRLCRST:
                 field_list.append((label, value))
 
         for label, value in field_list:
-            lines.append(f":{label}: {value}")
+            text = self._indent_lines(value, 6)
+            lines.append(f"   :{label}: {text}")
         if field_list:
             lines.append("")
         for value in block_values:
@@ -285,6 +286,13 @@ class TRLCRST:
             lines.append("")
         return lines
 
+    @staticmethod
+    def _indent_lines(value, indent: int) -> str:
+        """Return the text of *value*, all lines but the first one indented."""
+        return ("\n" + " " * indent).join(
+            line.strip() for line in str(value).split("\n")
+        )
+
     def _iter_filtered_objects(self, records: set[str] | None = None):
         """Yield record objects honouring the source-file and fqn filters.
 
@@ -423,7 +431,8 @@ class TRLCRST:
             lines.append(f"   * - {cell}")
             for field_name, _ in normalized:
                 value = self._field_value(obj, field_name)
-                lines.append(f"     - {'' if value is None else value}")
+                text = "" if value is None else self._indent_lines(value, 7)
+                lines.append(f"     - {text}")
         lines.append("")
         return "\n".join(lines) + "\n"
 
-- 
2.43.0


From e1ba9a81ae00295b88ac496dea2d43d1d5fabee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 43/51] fix: rst: references next to other text

Roles are not recognised there, unless separated.
---
 tools/trlc_rst/trlc_rst.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 9ff073d..ce88310 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -469,7 +469,15 @@ class TRLCRST:
                     )
                 else:
                     parts.append(match.group(0))
-            return ", ".join(parts)
+            # RST roles are only recognised between whitespace and some
+            # punctuation
+            before = match.string[:match.start()][-1:]
+            after = match.string[match.end():][:1]
+            return "%s%s%s" % (
+                "" if before.isspace() or before in "'\"([{<-/:" else "\\ ",
+                ", ".join(parts),
+                "" if after.isspace() or after in "'\")]}>-/\\:.,;!?" else "\\ ",
+            )
 
         return _MARKUP_REF_RE.sub(_replace, raw_value)
 
-- 
2.43.0


From 46c1fd16e178e553e5b940cf3ed3a0383837dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 44/51] fix: rst: field_value_for zero, false and empty lists

---
 tools/trlc_rst/trlc_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index ce88310..03f7fc7 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -348,12 +348,12 @@ class TRLCRST:
         if obj is None:
             return None
         value = self._field_value(obj, field_name)
-        if not value:
+        if value is None or value == "":
             return None
         field_node = obj.field.get(field_name)
         if isinstance(field_node, trlc.ast.String_Literal):
             return self._preprocess_description(value, indent=0)
-        return value
+        return str(value)
 
     def render_records_to_string(
         self,
-- 
2.43.0


From f31568ffebab78bf0bde1f224950496f13d61e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 45/51] fix: rst: report files which cannot be read

---
 tools/trlc_rst/trlc_rst.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 03f7fc7..0267405 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -96,20 +96,18 @@ class TRLCRST:
         message_handler = Message_Handler()
         source_manager = Source_Manager(message_handler)
 
+        ok = True
         if self.input_directory is not None:
-            source_manager.register_directory(self.input_directory)
+            ok = source_manager.register_directory(self.input_directory)
         else:
             registered: set[str] = set()
-            for f in self._source_files or []:
-                source_manager.register_file(f)
-                registered.add(os.path.abspath(f))
-            for f in self._dep_files or []:
+            for f in (self._source_files or []) + (self._dep_files or []):
                 if os.path.abspath(f) not in registered:
-                    source_manager.register_file(f)
+                    ok &= source_manager.register_file(f)
                     registered.add(os.path.abspath(f))
 
         symbols = source_manager.process()
-        if symbols is None:
+        if symbols is None or not ok:
             # TRLC Message_Handler has already printed detailed diagnostics to stderr
             raise TRLCParseError(
                 "Failed to parse TRLC files. See error messages below for details."
-- 
2.43.0


From 9e3371944db5870240a487947a2d2a815356fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 46/51] fix: lint: check the element types of arrays

---
 trlc/lint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 3ed27a7..23e6bd6 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -78,6 +78,7 @@ class Linter:
 
         elif isinstance(n_typ, ast.Array_Type):
             self.verify_array_type(n_typ)
+            self.verify_type(n_typ.element_type)
 
         elif isinstance(n_typ, ast.Union_Type):
             # lobster-trace: LRM.Union_Type_Minimum_Members
-- 
2.43.0


From 07d42373e9ea87df51f778a0c972ae38d398f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 47/51] fix: lint: unary minus before an array access is not
 misleading

---
 trlc/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 80cc266..810b03c 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -960,6 +960,7 @@ class Parser(Parser_Base):
             # pylint: disable=possibly-used-before-assignment
             if self.lint_mode and \
                isinstance(n_lhs, ast.Binary_Expression) and \
+               n_lhs.operator != ast.Binary_Operator.INDEX and \
                not has_explicit_brackets:
                 self.mh.check(t_unary.location,
                               "expression means -(%s), place explicit "
-- 
2.43.0


From 69b9030616024c55005ff4e781843bfb58e5e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 48/51] fix: lint: a string equal to the name of a package does
 not use its import

---
 trlc/lint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 23e6bd6..a133811 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -242,7 +242,8 @@ class Linter:
             for item in sorted(file.cu.imports,
                                key=lambda pkg: pkg.name):
                 import_tokens = [t for t in file.lexer.tokens
-                                 if t.value == item.name]
+                                 if t.kind == "IDENTIFIER" and
+                                 t.value == item.name]
                 markup = self.markup_ref(item,
                                          (m.ast_link for m in
                                           file.lexer.tokens if
-- 
2.43.0


From 76a1ba2a571842fe275e0df685a8d3cbbaf19c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 49/51] fix: lint: references in markup within arrays and
 tuples use an import

---
 trlc/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 810b03c..6c4fef9 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1890,6 +1890,7 @@ class Parser(Parser_Base):
         rv = ast.String_Literal(self.ct, self.builtin_mstr)
         mpar = Markup_Parser(self, rv)
         mpar.parse_all_references()
+        rv.set_ast_link(self.ct)
         return rv
 
     def parse_record_object_declaration(self):
-- 
2.43.0


From 8b376b04fd0b9eec67fee93c40585766c54eace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 50/51] fix: forget the requirements of a document which is
 read again or removed

---
 tools/sphinx/extensions/trlc/trlc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index 25e2c20..7e6000f 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -138,6 +138,13 @@ class RequirementsDomain(Domain):
     def resolve_any_xref(self, env, fromdocname, builder, target, node, contnode):
         return []
 
+    def clear_doc(self, docname):
+        self.data["requirements"] = [
+            requirement
+            for requirement in self.data["requirements"]
+            if requirement[3] != docname
+        ]
+
     def merge_domaindata(self, docnames, otherdata):
         existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
         for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-- 
2.43.0


From 6ce825b75e1420c22b02f5739a4e347c39999fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 51/51] fix: report ambiguous requirements in parallel builds
 as well

---
 tools/sphinx/extensions/trlc/trlc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index 7e6000f..48dc5bd 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -146,11 +146,9 @@ class RequirementsDomain(Domain):
         ]
 
     def merge_domaindata(self, docnames, otherdata):
-        existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
         for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-            if docname in docnames and anchor not in existing_anchors:
+            if docname in docnames:
                 self.data["requirements"].append((_name, _sig, _typ, docname, anchor, _prio))
-                existing_anchors.add(anchor)
 
 
 def setup(app: Sphinx):
-- 
2.43.0

