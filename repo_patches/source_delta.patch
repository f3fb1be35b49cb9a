From 59639df0d5de955ede8650e6745064a811b5fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/50] fix: inline function dec() returned its argument plus
 one

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index bf27a1d..8cd5c52 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -502,7 +502,7 @@ class CliInterface(StdStreamsHolder):
         if func_name == 'dec':
             r = args[0]
             try:
-                r = r + 1
+                r = r - 1
             except Exception:
                 pass
             return r
-- 
2.43.0


From aff001ca2f18ab59db9aa99343a088c40257863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 02/50] fix: an optional block around a repeated block dropped
 the repeat count

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b3404c9..d8cf6c8 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -277,7 +277,7 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
             post_match_binding = rule.post_match_binding
-- 
2.43.0


From 65ee5d23ee73e1597ff0330e2d69c5fce24a76ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 03/50] fix: matching a line without an argument list raised
 after running its actions

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 8cd5c52..c471470 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -895,7 +895,7 @@ class CliInterface(StdStreamsHolder):
                                     root_arglist = await self.execute_success_sequence(matching_sequences[0], match_values, args)
                                 finally:
                                     self._executing = False
-                                arglen = len(arglist)
+                                arglen = len(arglist) if arglist else 0
                                 for i in range(arglen):
                                     arglist[i] = root_arglist.pop(0)
                                 res.result = MATCH_SUCCESS
-- 
2.43.0


From 4a5452074bcaabd8dea02491cedf608693f7fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 04/50] fix: a (0:n) multiplier accepted only 0 or n
 repetitions

---
 nessaid_cli/compiler.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index d8cf6c8..e6f70c0 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -223,14 +223,12 @@ class NessaidCliParser(NessaidCliParserCommon):
             if max_count == 1:
                 t[0] = OptionalInputElement((term,))
                 term.parent = t[0]
-            else:
-                t0 = SequenceInputElement((term,))
-                term.parent = t0
-                term.position = 0
-                t0.repeat_count = max_count
-                t[0] = OptionalInputElement((t0,))
-                t0.parent = t[0]
-            return
+                return
+            # (0:n) is an optional (1:n)
+            optional = True
+            min_count = 1
+        else:
+            optional = False
 
         term_copy = term.copy()
         if min_count == 1:
@@ -253,6 +251,11 @@ class NessaidCliParser(NessaidCliParserCommon):
         block_1.parent = t[0]
         block_2.parent = t[0]
 
+        if optional:
+            block = t[0]
+            t[0] = OptionalInputElement((block,))
+            block.parent = t[0]
+
     def p_repeater(self, t):
         """repeater : INTEGER
                     | LPAREN INTEGER RPAREN
-- 
2.43.0


From 889634cbf0d7392ff1aeaca32d28064216fb069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 05/50] fix: a token used before its declaration was silently
 optional and lost its help text

---
 nessaid_cli/compiler.py |  2 +-
 nessaid_cli/elements.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index e6f70c0..95a46ed 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -420,7 +420,7 @@ class NessaidCliParser(NessaidCliParserCommon):
             t[0] = elem
             return
 
-        elem = UnresolvedInputElement(identifier)
+        elem = UnresolvedInputElement(identifier, helpstring=helpstring)
         self._grammar_spec.add_unresolved_element(elem)
         t[0] = elem
 
diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 81f4f8c..0098683 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -463,8 +463,8 @@ class GrammarRefElement(InputElement):
 
 class UnresolvedInputElement(InputElement):
 
-    def __init__(self, keyword, arglist=None):
-        super().__init__()
+    def __init__(self, keyword, arglist=None, helpstring=None):
+        super().__init__(helpstring)
         if isinstance(keyword, str):
             self._value = keyword
         else:
@@ -480,10 +480,14 @@ class UnresolvedInputElement(InputElement):
         return self._arglist
 
     def copy(self):
-        cp = UnresolvedInputElement(self._value)
+        cp = UnresolvedInputElement(self._value, self._arglist, helpstring=self.helpstring)
         self.copy_extras(cp)
         return cp
 
+    @property
+    def mandatory(self):
+        return True
+
 
 class TokenClassDef():
 
-- 
2.43.0


From 66cf668bfb97b6504f25f95fc94c7403cdf3a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 06/50] fix: hexadecimal numbers in grammars and actions were
 rejected

---
 nessaid_cli/lex_yacc_common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/lex_yacc_common.py b/nessaid_cli/lex_yacc_common.py
index f9f4944..ca4d154 100644
--- a/nessaid_cli/lex_yacc_common.py
+++ b/nessaid_cli/lex_yacc_common.py
@@ -82,11 +82,15 @@ class NessaidCliLexerCommon(StdStreamsHolder):
     t_INTEGER     = r'[\+-]?(([0])|(([1-9])([0-9]*)))'
     t_FLOAT       = r'[\+-]?(([0]?)|(([1-9])([0-9]*)))(\.)([0-9]+)'
     t_QUOTED_STR  = r'(")(([^"\n\r\t\\\0])|((\\\\)|(\\)(0|n|r|t|b|v|a|")))*(")'
-    t_HEX_NUMBER  = r'(0)(x|X)([a-fA-F0-9]+)'
 
     t_DOLLAR_NUMBER_ID   = r'[\$][0-9]+'
     t_DOLLAR_VAR_ID      = r'[\$][A-Za-z_][a-zA-Z0-9_]*'
 
+    # A function, so that it is tried before t_INTEGER, which matches the leading 0
+    def t_HEX_NUMBER(self, t):
+        r'(0)(x|X)([a-fA-F0-9]+)'
+        return t
+
     def t_eof(self, t): # noqa
         return None
 
@@ -237,7 +241,7 @@ class NessaidCliParserCommon(StdStreamsHolder):
         """integer : INTEGER
                    | HEX_NUMBER"""
         int_str =  t[1]
-        integer = int(int_str)
+        integer = int(int_str, 16) if int_str[:2] in ("0x", "0X") else int(int_str)
         t[0] = integer
 
     def p_float(self, t):
-- 
2.43.0


From 58fffb521f95b31d5702b25407a82ce80771bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 07/50] fix: action identifiers starting with call, True, False
 or None were split in two

---
 .../binding_parser/binding_text_parser.py     | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 83e6afa..77c5544 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -27,20 +27,16 @@ class NessaidCliBindingLexer(NessaidCliLexerCommon):
 
     t_ignore_COMMENT = NessaidCliLexerCommon.common_COMMENT
 
-    def t_TRUE(self, t):
-        "True"
-        return t
-
-    def t_FALSE(self, t):
-        "False"
-        return t
-
-    def t_NONE(self, t):
-        "None"
-        return t
-
-    def t_CALL(self, t):
-        "call"
+    KEYWORD_TOKENS = {
+        "call": 'CALL',
+        "True": 'TRUE',
+        "False": 'FALSE',
+        "None": 'NONE',
+    }
+
+    def t_IDENTIFIER(self, t):
+        r'[A-Za-z_][-a-zA-Z0-9_]*'
+        t.type = self.KEYWORD_TOKENS.get(t.value, t.type)
         return t
 
     def __init__(self, filename="", starting_lineno=1, starting_linepos=0, stdin=None, stdout=None, stderr=None):
-- 
2.43.0


From 3729a05e49e1b974c5188bb7e37981c81bfc32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 08/50] fix: assigning one action variable to another aliased
 them, and swapping two never ended

---
 nessaid_cli/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index c471470..46f12a1 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -247,6 +247,9 @@ class ExecContext():
 
                     if lhs:
                         rhs = await self.resolve_argument(block.rhs)
+                        if isinstance(rhs, BindingVariable):
+                            # Assign the value: only grammar parameters are references
+                            rhs = rhs.value
                         lhs.assign(rhs)
 
                 elif isinstance(block, BindingCall):
-- 
2.43.0


From e1f8ec844643099f584ce05fc43adb4f37015582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 09/50] fix: RangedIntToken rejected negative numbers and
 mishandled 0, - and unfinished input

A range as in the README (-100, 200) never matched a negative integer; '0'
was completed as if nothing had been typed; the suggestions for '-' and ''
were not strings or ignored the suggestion limit; an unfinished number with
one completion counted as complete.
---
 nessaid_cli/tokens.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 73120e4..0a30056 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -288,9 +288,13 @@ class RangedIntToken(CliToken):
     def helpstring(self):
         return self._helpstring or "An integer between {} and {}".format(self._start, self._end)
 
+    @staticmethod
+    def _is_integer(text):
+        return text.isnumeric() or (text.startswith("-") and text[1:].isnumeric())
+
     async def get_value(self, match_string=None, cli=None): # noqa
         try:
-            if match_string.isnumeric():
+            if self._is_integer(match_string):
                 number = int(match_string)
                 if number >= self._start and number <= self._end:
                     return number
@@ -375,6 +379,8 @@ class RangedIntToken(CliToken):
             if n > 1 or n == TOO_MANY_COMPLETIONS:
                 return MATCH_PARTIAL
             elif n == 1:
+                if await self.get_value(token_input, cli=cli) is NullTokenValue:
+                    return MATCH_PARTIAL
                 return MATCH_SUCCESS
         return MATCH_FAILURE
 
@@ -387,39 +393,40 @@ class RangedIntToken(CliToken):
                 if self._start >= 0:
                     return 0, []
                 if self._end >= 0:
-                    comp_args = [0, -self._start, 0]
+                    comp_args = [1, -self._start, 0]
                 else:
                     comp_args = [-self._end, -self._start, 0]
                 n, comps = await self._complete(*comp_args)
                 if n > 0 and not comps:
                     return TOO_MANY_COMPLETIONS, []
-                return n, [-c for c in comps]
+                return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
-                if count > 10:
-                    return count, []
-                elif count == 1:
+                if count == 1:
                     return 1, [str(self._start)]
                 elif count == 0:
                     return 0, []
                 if count > self._max_suggestions:
                     comps = []
                 else:
-                    comps = list(range(self._start, self._end + 1))
+                    comps = [str(c) for c in range(self._start, self._end + 1)]
                 return count, comps
 
             else:
                 try:
-                    if token_input.isnumeric():
+                    if self._is_integer(token_input):
                         number = int(token_input)
                     else:
                         return 0, []
                 except Exception:
                     return 0, []
 
-                if number < 0 or token_input.startswith("-"):
-                    if number == 0 and self._start == 0:
+                if number == 0:
+                    if self._start <= 0 and self._end >= 0:
                         return 1, ["0"]
+                    return 0, []
+
+                if number < 0:
                     if self._start >= 0:
                         return 0, []
                     if self._end >= 0:
-- 
2.43.0


From 5418ccb0305f0dc2d9fbcac4e19256c410a020af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 10/50] fix: a valid value was rejected when another
 alternative also partly matched it

E.g. two integer tokens as alternatives, or an unfinished choice token next
to a string token: the viable alternative was dropped, or the whole line
failed at once as ambiguous.
---
 nessaid_cli/interface.py | 48 +++++++++++++---------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 46f12a1..7348000 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -736,6 +736,7 @@ class CliInterface(StdStreamsHolder):
 
         while True:
             seq_complete = False
+            ambiguous_options = False
 
             assert len(seq_copy) == len(matching_seq_choices)
 
@@ -777,43 +778,24 @@ class CliInterface(StdStreamsHolder):
 
                 for p in partial_matches:
                     token = self.get_token(p[-1].name)
-                    if token.completable:
-                        if completion:
-                            if dry_run and not token_list and not last_token_complete:
-                                self.append_matching_sequence(matching_sequences, p)
-                            elif len(completion) == 1:
-                                _n, comps = await self.complete_token(token, cur_token_input) # noqa
-                                if len(comps) == 1:
-                                    val = await self.get_token_value(token, cur_token_input)
-                                    if val is not NullTokenValue:
-                                        self.append_matching_sequence(matching_sequences, p)
-                            elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
-                            else:
-                                res.result = MATCH_FAILURE
-                                res.offending_token = tok_list[len(res.matched_sequence)]
-                                res.offending_token_position = len(res.matched_sequence)
-                                res.error = "Ambiguous options matched for the input token: {}".format(
-                                    tok_list[len(res.matched_sequence)])
-                                self.clear_caches()
-                                return res
-                        elif dry_run and not token_list and not last_token_complete:
-                            self.append_matching_sequence(matching_sequences, p)
-                        elif len(partial_matches) == 1:
-                            v = await self.get_token_value(token, cur_token_input)
-                            if v is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
-                    else:
-                        v = await self.get_token_value(token, cur_token_input)
-                        if v is not NullTokenValue:
-                            self.append_matching_sequence(matching_sequences, p)
-                        elif dry_run:
-                            if not token_list and not last_token_complete:
-                                self.append_matching_sequence(matching_sequences, p)
+                    if dry_run and not token_list and not last_token_complete:
+                        self.append_matching_sequence(matching_sequences, p)
+                    elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
+                        self.append_matching_sequence(matching_sequences, p)
+                    elif token.completable and len(completion) > 1:
+                        ambiguous_options = True
 
             if not initial:
 
                 if not matching_sequences:
+                    if ambiguous_options:
+                        res.result = MATCH_FAILURE
+                        res.offending_token = tok_list[len(res.matched_sequence)]
+                        res.offending_token_position = len(res.matched_sequence)
+                        res.error = "Ambiguous options matched for the input token: {}".format(
+                            tok_list[len(res.matched_sequence)])
+                        self.clear_caches()
+                        return res
                     if len(tok_list) == len(res.matched_sequence):
                         res.result = MATCH_PARTIAL
                         res.error = "Input sequence is not complete"
-- 
2.43.0


From 8ca740a046be58a0a6617b033f10cdff3e447186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 11/50] fix: TAB typed a token's help text into the line

---
 nessaid_cli/interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 7348000..657fdc1 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -148,7 +148,8 @@ class ParsingResult():
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-        elif cur_input:
+        elif cur_input and all(t.completion for t in self.next_tokens):
+            # A help text is shown, never typed into the line
             common_prefix = self.common_prefix(self.next_tokens)
             if common_prefix:
                 self.last_token = (cur_input, common_prefix)
-- 
2.43.0


From 6978239e214116994bf067810b984dfc149eb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 12/50] fix: TAB took a space inside an open quote for the end
 of the token

---
 nessaid_cli/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 68fefbf..74e07a6 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -240,7 +240,9 @@ class NessaidCli(CliInterface):
             self.set_completion_tokens(["Exception tokenizing input line: {}: {}".format(type(e), e)])
             return None
 
-        if line and line[-1] in TOKEN_SEPARATORS:
+        in_open_quote = bool(tokens) and tokens[-1].quote_incomplete
+
+        if line and line[-1] in TOKEN_SEPARATORS and not in_open_quote:
             last_token_complete = True
         else:
             last_token_complete = False
-- 
2.43.0


From 2c841e74d4ede9c284475effb54f95aa1bbeefdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 13/50] fix: constants with a backslash or an outer quote could
 not be typed

---
 nessaid_cli/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index e7b1e30..b879506 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -75,12 +75,10 @@ def convert_to_python_string(cli_string, cli=None):
 
 
 def convert_to_cli_string(python_string):
-    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"']):
+    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
-        if python_string.startswith('"'):
-            python_string = python_string[1:]
-        if python_string.endswith('"'):
-            python_string = python_string[:-1]
+        if len(python_string) > 1 and python_string.startswith('"') and python_string.endswith('"'):
+            python_string = python_string[1:-1]
 
         parts = python_string.split("\\")
         converted_parts = []
-- 
2.43.0


From 783520771888859103210945873c5c2bb3c53973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 14/50] fix: string values were unescaped a second time when
 passed to actions

Token values and results of called methods lost their backslashes; values
collected in a list kept their escapes. Strings are now unescaped once, where
they are read.
---
 nessaid_cli/interface.py | 7 ++++---
 nessaid_cli/tokens.py    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 657fdc1..fdf1009 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -40,6 +40,7 @@ from nessaid_cli.binding_parser.binding_objects import (
     TokenVariable,
     BindingVariable,
     AssignmentStatement,
+    BindingStrObject,
 )
 
 from nessaid_cli.lex_yacc_common import (
@@ -216,6 +217,9 @@ class ExecContext():
             arglist = [await self.evaluate(arg) for arg in argument.arglist]
             call_res = await self._interface.execute_binding_call(ext_fn, True, *arglist)
             return call_res
+        elif type(argument) == BindingStrObject:
+            # Only literals are still escaped: token and call values are used as they are
+            return convert_to_python_string(str(argument), cli=self._interface)
         return argument
 
     async def evaluate(self, arg):
@@ -224,9 +228,6 @@ class ExecContext():
             res = res_arg.value
         else:
             res = res_arg
-
-        if isinstance(res, str):
-            res = convert_to_python_string(str(res), cli=self._interface)
         return res
 
     async def execute_binding(self, binding_code):
diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 0a30056..7733526 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -233,7 +233,7 @@ class StringToken(CliToken):
                 match_string = match_string[1:]
             if match_string.endswith('"'):
                 match_string = match_string[:-1]
-            return match_string
+            return convert_to_python_string(match_string, cli=cli)
         return NullTokenValue
 
 
-- 
2.43.0


From 7abccbb9f016eed30ded98a7c9d14cd064a10f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 15/50] fix: leaving a context through the parent grammar
 called its on_exit twice

---
 nessaid_cli/cmd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index cfb8208..c203a3f 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -476,7 +476,6 @@ class NessaidCmd(NessaidCli):
                 if dry_run:
                     return parent_resp
                 else:
-                    await self.on_exit()
                     raise ChildCliExitException(
                         tok_list=tok_list, dry_run=dry_run,
                         last_token_complete=last_token_complete, arglist=arglist
-- 
2.43.0


From 746c9b32d6ce7ae74dda14742ac83c1b9f8ca6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 16/50] fix: executing an empty file blocked the remaining
 lines of the enclosing file

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 74e07a6..52508d0 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -462,7 +462,8 @@ class NessaidCli(CliInterface):
         try:
             with open(filename) as fd:
                 lines = [l.rstrip() for l in fd.readlines()]
-                self.file_data.append(lines)
+                if lines:
+                    self.file_data.append(lines)
         except Exception as e:
             self.error("Exception processing input file:", filename, type(e), e)
 
-- 
2.43.0


From 2399419d5def247029e92b77987df6ca1e0e8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 17/50] fix: Ctrl-C at a continuation prompt kept the abandoned
 part of the line

---
 nessaid_cli/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 52508d0..3baf412 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -526,6 +526,9 @@ class NessaidCli(CliInterface):
                     else:
                         line = await self.get_next_line(self.prompt)
                 except NessaidReadlineKeyboadInterrupt:
+                    # Ctrl-C abandons the line being typed, with its continued part
+                    self._partial_line = False
+                    self._effective_line = ""
                     await self.handle_keyboard_interrupt()
                     continue
                 except NessaidReadlineEOF:
-- 
2.43.0


From 738b4b76fa71ba40328b765e55d89cd1b28b81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 18/50] fix: profiling and memory reports and match errors
 ignored the configured streams

---
 nessaid_cli/cmd.py       | 12 ++++++------
 nessaid_cli/interface.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index c203a3f..0ae7321 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -269,7 +269,7 @@ class NessaidCmd(NessaidCli):
                 return
             top_stats = snapshot.compare_to(self.last_tracemalloc_snapshot, key_type)
             for stat in top_stats[:limit]:
-                print(stat)
+                print(stat, file=self.stdout)
 
         self.last_tracemalloc_snapshot = snapshot
 
@@ -435,13 +435,13 @@ class NessaidCmd(NessaidCli):
             with cProfile.Profile() as pr:
                 res = await super().match(tok_list, dry_run, last_token_complete, arglist)
             if self._enable_profiling and enable_profiling:
-                stats = pstats.Stats(pr)
+                stats = pstats.Stats(pr, stream=self.stdout)
                 stats.sort_stats('cumtime')
                 stats.print_stats()
-                print("Token Hit:", self._token_hit)
-                print("Token Miss:", self._token_miss)
-                print("Token Value Hit:", self._token_value_hit)
-                print("Token Value Miss:", self._token_value_miss)
+                print("Token Hit:", self._token_hit, file=self.stdout)
+                print("Token Miss:", self._token_miss, file=self.stdout)
+                print("Token Value Hit:", self._token_value_hit, file=self.stdout)
+                print("Token Value Miss:", self._token_value_miss, file=self.stdout)
         else:
             res = await super().match(tok_list, dry_run, last_token_complete, arglist)
         end = time.time()
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index fdf1009..2c51da5 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -758,7 +758,7 @@ class CliInterface(StdStreamsHolder):
                             self._matched_values.append(value)
                         i += 1
                 except Exception as e:
-                    print("Exception getting matched values:", type(e), e, file=self._stderr)
+                    print("Exception getting matched values:", type(e), e, file=self.stderr)
 
                 for c in choices:
                     token = self.get_token(c.name)
@@ -826,7 +826,7 @@ class CliInterface(StdStreamsHolder):
                                 self._matched_values.append(value)
                             i += 1
                     except Exception as e:
-                        print("Exception getting matched values:", type(e), e, file=self._stderr)
+                        print("Exception getting matched values:", type(e), e, file=self.stderr)
                     last_token = matching_sequence[-1]
                     if last_token == EndOfInpuToken:
                         seq_complete = True
-- 
2.43.0


From 5e94956c9d4d31aac14274c3bafd661bd04b708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 19/50] fix: values of PathToken were cached although the file
 system changes

---
 nessaid_cli/tokens.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 7733526..6d0e3bd 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -587,6 +587,11 @@ class PathToken(StringToken):
     def completable(self):
         return True
 
+    @property
+    def cacheable(self):
+        # The value depends on the file system
+        return False
+
     @property
     def is_windows(self):
         if self._is_windows is None:
-- 
2.43.0


From 49d766db7616706103124b308d2d9419eb36da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 20/50] fix: exec_args mangled arguments with quotes,
 backslashes or tabs

---
 nessaid_cli/cmd.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 0ae7321..aefdbdc 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -19,6 +19,7 @@ import linecache
 import tracemalloc
 from datetime import datetime
 
+from nessaid_cli.utils import convert_to_cli_string
 from nessaid_cli.compiler import compile_grammar
 from nessaid_cli.cli import NessaidCli, ChildCliExitException, CliAlreadyRunning
 from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE, MATCH_PARTIAL, MATCH_AMBIGUOUS
@@ -376,18 +377,10 @@ class NessaidCmd(NessaidCli):
 
     def exec_args(self, *args):
         modified_args = []
-        chars_to_check = [" "]
         for arg in args:
-            if not (arg.startswith('"') and arg.endswith('"')):
-                need_quoting = False
-                for c in chars_to_check:
-                    if arg.strip():
-                        if c in arg:
-                            need_quoting = True
-                            break
-                if need_quoting:
-                    modified_args.append('"' + arg + '"')
-                    continue
+            quoted = len(arg) > 1 and arg.startswith('"') and arg.endswith('"')
+            if arg.strip() and not quoted:
+                arg = convert_to_cli_string(arg)
             modified_args.append(arg)
 
         args = modified_args
-- 
2.43.0


From 2764a22cf9cd804bc9e6c2c3fe9573e3c262a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 21/50] fix: a complete command was ambiguous with, or lost to,
 one that needs more input

An accepted line was compared with sequences that match it but are not yet
complete, so 'show' was ambiguous where 'show all' exists too, and an
incomplete sequence could be executed.
---
 nessaid_cli/interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 2c51da5..b2d9d16 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -862,6 +862,10 @@ class CliInterface(StdStreamsHolder):
                 if matching_sequences:
                     res.matched_sequence.append(cur_token_input)
                     if not dry_run:
+                        if seq_complete and len(matching_sequences) > 1:
+                            # Sequences which need more input do not compete with the complete ones
+                            matching_sequences = [s for s in matching_sequences if EndOfInpuToken in s[-1].next()]
+
                         if seq_complete and len(matching_sequences) > 1:
                             matching_sequences = await self.fix_sequences(matching_sequences, tok_list)
 
-- 
2.43.0


From b6ecc853eaeb63192cd2fb5bb64f93ef15dd9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 22/50] fix: choose between equally good matches in grammar
 order, not in hash order

The candidate tokens were kept in sets of objects, so which of two
derivations of an orderless set ran could change from line to line.
---
 nessaid_cli/interface.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index b2d9d16..63d7ecb 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -123,7 +123,7 @@ class ParsingResult():
     async def set_next_tokens(self, cli, cur_input, tokens):
         add_EOI = False
         tokens = list(tokens)
-        next_tokens = set()
+        next_tokens = {}
         self.last_token = None
         self.case_insensitive = False
 
@@ -133,15 +133,15 @@ class ParsingResult():
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
-                        next_tokens.add(TokenCompletion(None, helpstring))
+                        next_tokens.setdefault(TokenCompletion(None, helpstring))
                     else:
                         if t.case_insensitive:
                             self.case_insensitive = True
                         for c in completions:
                             h = await t.get_helpstring(str(c), cli=cli)
-                            next_tokens.add(TokenCompletion(str(c), h))
+                            next_tokens.setdefault(TokenCompletion(str(c), h))
                 else:
-                    next_tokens.add(TokenCompletion(None, helpstring))
+                    next_tokens.setdefault(TokenCompletion(None, helpstring))
             else:
                 add_EOI = True
 
@@ -709,7 +709,7 @@ class CliInterface(StdStreamsHolder):
         cur_token_input = None
         token_list = tok_list.copy()
 
-        prompt_choices = set(self._parse_tree.first())
+        prompt_choices = list(self._parse_tree.first())
 
         res = ParsingResult()
 
@@ -720,15 +720,15 @@ class CliInterface(StdStreamsHolder):
             return res
 
         async def set_next_tokens(res, choices):
-            next_tokens = set()
+            next_tokens = {} # In the order of the grammar, without duplicates
             add_EOT = False
             for c in choices:
                 if not c:
                     add_EOT = True
                     continue
-                next_tokens.add(self.get_token(c.name, c.helpstring))
+                next_tokens[self.get_token(c.name, c.helpstring)] = True
             if add_EOT:
-                next_tokens.add(EndOfInpuToken)
+                next_tokens[EndOfInpuToken] = True
             return await res.set_next_tokens(self, None if last_token_complete else cur_token_input, next_tokens)
 
         initial = True
@@ -812,10 +812,10 @@ class CliInterface(StdStreamsHolder):
                     self.clear_caches()
                     return res
 
-                prompt_choices = set()
+                prompt_choices = []
 
                 for matching_sequence in matching_sequences:
-                    choices = set()
+                    choices = []
                     try:
                         self._matched_values = []
                         i = 0
@@ -832,22 +832,22 @@ class CliInterface(StdStreamsHolder):
                         seq_complete = True
                     else:
                         if (not token_list) and (not last_token_complete):
-                            choices.add(last_token)
+                            choices.append(last_token)
                         else:
                             nexts = last_token.next()
                             for c in nexts:
                                 if c == EndOfInpuToken:
                                     seq_complete = True
                                 else:
-                                    choices.add(c)
+                                    choices.append(c)
                     matching_seq_choices.append(choices)
-                    prompt_choices = prompt_choices.union(choices)
+                    prompt_choices = prompt_choices + choices
 
             initial = False
 
             if not token_list:
                 if seq_complete:
-                    prompt_choices.add(EndOfInpuToken)
+                    prompt_choices.append(EndOfInpuToken)
 
                 if prompt_choices:
                     await set_next_tokens(res, prompt_choices)
-- 
2.43.0


From a3029c92010ff919ae6c689d2385912dfac9dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 23/50] fix: reject stray tokens in binding code

They were reported as a syntax error and then dropped silently.
---
 nessaid_cli/binding_parser/binding_text_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 77c5544..258fc9b 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -5,7 +5,7 @@
 # file included as part of this package.
 #
 
-from nessaid_cli.lex_yacc_common import NessaidCliLexerCommon, NessaidCliParserCommon
+from nessaid_cli.lex_yacc_common import CliSyntaxError, NessaidCliLexerCommon, NessaidCliParserCommon
 
 from nessaid_cli.binding_parser.binding_objects import (
     BindingCode,
@@ -194,8 +194,7 @@ class NessaidCliBindingParser(NessaidCliParserCommon):
                         | QUOTED_INCOMPLETE_STR
                         | quoted_split_string
                         | eof"""
-        print("Syntax error (Unused token)")
-        pass
+        raise CliSyntaxError("Syntax error (Unused token): {}".format(t[1]))
 
     def __init__(self, filename="", starting_lineno=1, stdin=None, stdout=None, stderr=None):
         self._filename = filename
-- 
2.43.0


From 519eafbf0720b34c452a61767c145e6707d655d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 24/50] fix: end // and # comments at any kind of line end

A carriage return ended a line everywhere but in a comment, which
swallowed the rest of such a text.
---
 nessaid_cli/lex_yacc_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/lex_yacc_common.py b/nessaid_cli/lex_yacc_common.py
index ca4d154..abad395 100644
--- a/nessaid_cli/lex_yacc_common.py
+++ b/nessaid_cli/lex_yacc_common.py
@@ -149,7 +149,7 @@ class NessaidCliLexerCommon(StdStreamsHolder):
         self.lexer.begin(self._lex_states[-1] if self._lex_states else NessaidCliLexerCommon.INITIAL_STATE)
 
     def common_COMMENT(self, t):
-        r'(/\*(.|\n)*?\*/)|(//.*)|(\#.*)'
+        r'(/\*(.|\n)*?\*/)|(//[^\n\r]*)|(\#[^\n\r]*)'
         self.update_counters(t)
 
     @property
-- 
2.43.0


From 107951d05ff0f3314a4c2fc31b774f0b2ce5b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 25/50] fix: keep the grammar of base classes behind a plain
 mixin

The declarations of NessaidCmd base classes were dropped as soon as a class
not derived from NessaidCmd came first in the method resolution order.
---
 nessaid_cli/cmd.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index aefdbdc..04f346f 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -203,14 +203,12 @@ class NessaidCmd(NessaidCli):
         base_classes = self.__class__.mro()[1:]
         while base_classes:
             base_class = base_classes.pop(0)
-            if NessaidCmd in base_class.mro():
-                if base_class != NessaidCmd:
-                    if base_class.__doc__:
-                        grammar_texts.append(base_class.__doc__)
-                else:
-                    break
-            else:
+            if base_class == NessaidCmd:
                 break
+            # Plain mixin classes may come anywhere in between
+            if NessaidCmd in base_class.mro():
+                if base_class.__doc__:
+                    grammar_texts.append(base_class.__doc__)
         grammar_texts = reversed(grammar_texts)
 
         if grammar_texts:
-- 
2.43.0


From 021bb881f9f5d0d6dc337f018c77ab9cfbb106eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 26/50] fix: exec_args passed blank arguments on to the
 tokenizer

A line break or an exotic blank as an argument made the whole command fail
or arrived as a token of its own, while blanks and tabs were left out.
---
 nessaid_cli/cmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 04f346f..edbcd14 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -376,8 +376,10 @@ class NessaidCmd(NessaidCli):
     def exec_args(self, *args):
         modified_args = []
         for arg in args:
+            if not arg.strip():
+                continue
             quoted = len(arg) > 1 and arg.startswith('"') and arg.endswith('"')
-            if arg.strip() and not quoted:
+            if not quoted:
                 arg = convert_to_cli_string(arg)
             modified_args.append(arg)
 
-- 
2.43.0


From 6c3b313cfc361a087b41cf725d3a6e205e1c8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 27/50] fix: enter contexts from lines that leave the context
 entered after the intro

---
 nessaid_cli/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 3baf412..03aa012 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -507,13 +507,15 @@ class NessaidCli(CliInterface):
                 child_cli = self.child_cli
                 try:
                     await child_cli.context_loop()
+                    self.child_cli = None
                 except ChildCliExitException as e:
+                    # The line may enter another context
+                    self.child_cli = None
                     match_output = await self.match(
                         e.token_list, dry_run=e.dry_run,
                         last_token_complete=e.last_token_complete, arglist=e.arglist
                     )
-                finally:
-                    self.child_cli = None
+                    self.process_cli_response(e.token_list, match_output)
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From 9a4e4638c94a97475ea7c7c7800a34c4a15a7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 28/50] fix: leave a context for a line that is complete only
 in its parent

---
 nessaid_cli/cli.py | 7 +++++++
 nessaid_cli/cmd.py | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 03aa012..5930f6d 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -443,6 +443,13 @@ class NessaidCli(CliInterface):
             self.error("\n")
             return 13
 
+    async def can_execute(self, tok_list):
+        """Tells, without executing it, whether the line is accepted as it is"""
+        if not tok_list:
+            return False
+        resp = await self.match(tok_list, dry_run=True, last_token_complete=True)
+        return resp.result == MATCH_PARTIAL and EndOfInpuToken in resp.next_tokens
+
     async def cli_exec_init(self):
         if not self._exec_inited:
             self._readline.set_completer(self.complete)
diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index edbcd14..c1fca36 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -451,6 +451,11 @@ class NessaidCmd(NessaidCli):
     async def on_exit(self):
         pass
 
+    async def can_execute(self, tok_list):
+        if await super().can_execute(tok_list):
+            return True
+        return self._match_parent_grammar and await self.parent.can_execute(tok_list)
+
     async def match(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
         resp = await self._match(tok_list, dry_run=dry_run, last_token_complete=last_token_complete, arglist=arglist)
         if resp.result != MATCH_SUCCESS and self._match_parent_grammar:
@@ -462,7 +467,8 @@ class NessaidCmd(NessaidCli):
                 if parent_resp.result == MATCH_FAILURE:
                     parent_resp = None
             elif resp.result in [MATCH_PARTIAL, MATCH_AMBIGUOUS]:
-                if parent_resp.result != MATCH_SUCCESS:
+                # A dry run never reports success, only that the line may end here
+                if dry_run or not await self.parent.can_execute(tok_list):
                     parent_resp = None
 
             if parent_resp is not None:
-- 
2.43.0


From 56cbc2f0995141aca5674c7068a9e562761dc907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 29/50] fix: finish leaving a loop whose exit hook fails

---
 nessaid_cli/cli.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 5930f6d..878f4e1 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -599,14 +599,16 @@ class NessaidCli(CliInterface):
                     traceback.print_tb(e.__traceback__, file=self.stderr)
                     self.error("\n")
         finally:
-            await self.on_exit()
-            self._exit_loop = False
-            self.exit_grammar()
-            self._running = False
-            top_cli = self._cli_stack.pop()
+            try:
+                await self.on_exit()
+            finally:
+                self._exit_loop = False
+                self.exit_grammar()
+                self._running = False
+                top_cli = self._cli_stack.pop()
+                self._loop_task = None
             if self != top_cli:
                 raise(Exception("Bug in CLI stack"))
-            self._loop_task = None
 
     async def on_exit(self):
         pass
-- 
2.43.0


From 0808cf10c299cc69363a3399440ca3fbab4a78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 30/50] fix: go on after a context entered after the intro
 fails

---
 nessaid_cli/cli.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 878f4e1..9439020 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -523,6 +523,13 @@ class NessaidCli(CliInterface):
                         last_token_complete=e.last_token_complete, arglist=e.arglist
                     )
                     self.process_cli_response(e.token_list, match_output)
+                except Exception as e:
+                    # As for contexts entered from lines, the cli goes on
+                    self.child_cli = None
+                    self.error("Exception running context:", type(e), e)
+                    self.error("\n")
+                    traceback.print_tb(e.__traceback__, file=self.stderr)
+                    self.error("\n")
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From 594640f0b82eee92b07c7c3c6d1e5623eb3e1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 31/50] fix: run lines while another cli is being profiled

---
 nessaid_cli/cmd.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index c1fca36..c108e76 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -425,12 +425,24 @@ class NessaidCmd(NessaidCli):
 
         start = time.time()
         if self._enable_profiling:
-            with cProfile.Profile() as pr:
+            pr = cProfile.Profile()
+            try:
+                pr.enable()
+            except ValueError:
+                # Another profiler is active, possibly that of another cli
+                pr = None
+            try:
                 res = await super().match(tok_list, dry_run, last_token_complete, arglist)
+            finally:
+                if pr:
+                    pr.disable()
             if self._enable_profiling and enable_profiling:
-                stats = pstats.Stats(pr, stream=self.stdout)
-                stats.sort_stats('cumtime')
-                stats.print_stats()
+                if pr:
+                    stats = pstats.Stats(pr, stream=self.stdout)
+                    stats.sort_stats('cumtime')
+                    stats.print_stats()
+                else:
+                    print("Another profiler is active", file=self.stdout)
                 print("Token Hit:", self._token_hit, file=self.stdout)
                 print("Token Miss:", self._token_miss, file=self.stdout)
                 print("Token Value Hit:", self._token_value_hit, file=self.stdout)
-- 
2.43.0


From 5c693ace33542bae5ad8d098ab40eb27cbae9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 32/50] fix: paths with repeated separators were taken for
 their first directory

---
 nessaid_cli/tokens.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 6d0e3bd..8dbf89f 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -758,7 +758,12 @@ class PathToken(StringToken):
 
             segment = segments.pop(0)
             if segment == "":
-                break
+                if not segments:
+                    break
+                # Repeated separators
+                for p in path_objects:
+                    p.path_string += path_sep
+                continue
 
             p.has_dir_completion = False
 
-- 
2.43.0


From 2c90f183ebb871c6655c88147a954e537138f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 33/50] fix: paths with quotes and backslashes in their names

---
 nessaid_cli/tokens.py | 46 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 8dbf89f..561ced8 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -616,6 +616,29 @@ class PathToken(StringToken):
             path_sep = "/"
         return "A {}.".format(self._pathtype) + ' Start the input with quote (") and use {} as separator'.format(path_sep)
 
+    @staticmethod
+    def unquote(token_input):
+        """The path which was typed, and whether its quote is closed"""
+        if not token_input.startswith('"'):
+            return token_input, False
+        path = token_input[1:]
+        closed = False
+        if path.endswith('"'):
+            text = path[:-1]
+            if (len(text) - len(text.rstrip("\\"))) % 2 == 0:
+                path = text
+                closed = True
+        elif (len(path) - len(path.rstrip("\\"))) % 2:
+            # An escape still being typed
+            path = path[:-1]
+        return convert_to_python_string(path), closed
+
+    @staticmethod
+    def quote(path, closed):
+        """How the path is typed"""
+        quoted = convert_to_cli_string('"' + path + '"')
+        return str(quoted) if closed else str(quoted)[:-1]
+
     def children(self, path):
         try:
             content = os.listdir(path)
@@ -648,13 +671,10 @@ class PathToken(StringToken):
 
             options = ['".', '"..', '"' + path_sep]
             children = self.children(os.path.curdir)
-            options += ['"' + c for c in children]
+            options += [self.quote(c, False) for c in children]
             return len(options), options
         else:
-            if str_input.startswith('"') and str_input.endswith('"') and len(str_input) > 1:
-                path_complete = True
-            else:
-                path_complete = False
+            _, path_complete = self.unquote(str_input)
             m, n, l, path_sep = await self.lookup(str_input)
 
             if not path_complete:
@@ -679,14 +699,10 @@ class PathToken(StringToken):
                         if not self.children(l[0].path):
                             path_complete = True
 
-            return n, ['"' + str(elem.path_string) + ('"' if path_complete else "") for elem in l]
+            return n, [self.quote(elem.path_string, path_complete) for elem in l]
 
     async def match(self, str_input, cli=None): # noqa
-
-        if str_input.startswith('"') and str_input.endswith('"') and len(str_input) > 1:
-            path_complete = True
-        else:
-            path_complete = False
+        _, path_complete = self.unquote(str_input)
         m, _n, l, _ = await self.lookup(str_input) # noqa
         if m == MATCH_PARTIAL and len(l) == 1:
             if path_complete:
@@ -696,16 +712,10 @@ class PathToken(StringToken):
         return m
 
     async def lookup(self, str_input):
-        path_complete = False
         if str_input == "":
             return MATCH_PARTIAL, TOO_MANY_COMPLETIONS, [], os.path.pathsep
 
-        if str_input.startswith('"'):
-            str_input = str_input[1:]
-
-            if str_input.endswith('"'):
-                str_input = str_input[:-1]
-                path_complete = True
+        str_input, path_complete = self.unquote(str_input)
 
         segments = str_input.split(os.path.sep)
         add_drive_mark = ""
-- 
2.43.0


From d873ec39acdc9d419012363723a54f33bce9b0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 34/50] fix: quoted paths of existing entries were taken for
 patterns

---
 nessaid_cli/tokens.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 561ced8..fa51b21 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -717,6 +717,10 @@ class PathToken(StringToken):
 
         str_input, path_complete = self.unquote(str_input)
 
+        if path_complete and os.path.lexists(str_input):
+            # The path of an existing entry is not taken for a pattern
+            return MATCH_SUCCESS, 1, [PathTokenPath(Path(str_input), str_input)], os.path.sep
+
         segments = str_input.split(os.path.sep)
         add_drive_mark = ""
 
-- 
2.43.0


From 9c3138ccf7d1ec45b244b10925a9151e84672590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 35/50] fix: hidden entries were not suggested for a name
 starting with a dot

---
 nessaid_cli/tokens.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index fa51b21..f07bfec 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -658,6 +658,9 @@ class PathToken(StringToken):
         elif n == 1:
             return l[0].path_string
         else:
+            exacts = [e for e in l if not e.partial]
+            if len(exacts) == 1:
+                return exacts[0].path_string
             return str_input
 
     async def complete(self, str_input, cli=None): # noqa
@@ -685,7 +688,7 @@ class PathToken(StringToken):
                             path_string = elem.path_string + c
                             l += [PathTokenPath(Path(path_string), path_string)]
 
-            if m == MATCH_PARTIAL and len(l) == 1:
+            if m == MATCH_PARTIAL and (len(l) == 1 or l[0].path_string.split(path_sep)[-1] in [os.path.curdir, os.path.pardir]):
                 if l[0].is_dir and not l[0].has_dir_completion:
                     l.append(PathTokenPath(l[0].path, l[0].path_string + path_sep, partial=True))
                 if not l[0].is_dir:
@@ -781,14 +784,15 @@ class PathToken(StringToken):
 
             p.has_dir_completion = False
 
-            if segment == ".":
+            if segment in [".", ".."]:
+                hidden = []
                 for p in path_objects:
-                    p.path_string += "."
-                continue
-            elif segment == "..":
-                for p in path_objects:
-                    p.path_string += ".."
+                    if not segments and not path_complete:
+                        # May be the start of the name of a hidden entry
+                        hidden += [p.path_string + c for c in self.children(p.path) if c.startswith(segment)]
+                    p.path_string += segment
                     p.path = Path(p.path_string)
+                path_objects += [PathTokenPath(Path(h), h, partial=True) for h in hidden]
             elif segment == "*":
                 opts = []
                 for p in path_objects:
-- 
2.43.0


From 176aec934fbf7e00c077eb5337d3f836a76462ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 36/50] fix: PathToken printed to the standard output of the
 process

---
 nessaid_cli/tokens.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index f07bfec..89ae385 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -639,7 +639,7 @@ class PathToken(StringToken):
         quoted = convert_to_cli_string('"' + path + '"')
         return str(quoted) if closed else str(quoted)[:-1]
 
-    def children(self, path):
+    def children(self, path, cli=None):
         try:
             content = os.listdir(path)
             if "." in content:
@@ -648,11 +648,12 @@ class PathToken(StringToken):
                 content.remove("..")
             return content
         except PermissionError:
-            print("\nPermissionError on {}\n".format(path))
+            if cli:
+                cli.print("\nPermissionError on {}\n".format(path))
             return []
 
     async def get_value(self, str_input, cli=None): # noqa
-        _m, n, l, _ = await self.lookup(str_input) # noqa
+        _m, n, l, _ = await self.lookup(str_input, cli) # noqa
         if n == 0:
             return NullTokenValue
         elif n == 1:
@@ -673,17 +674,17 @@ class PathToken(StringToken):
                 path_sep = "/"
 
             options = ['".', '"..', '"' + path_sep]
-            children = self.children(os.path.curdir)
+            children = self.children(os.path.curdir, cli)
             options += [self.quote(c, False) for c in children]
             return len(options), options
         else:
             _, path_complete = self.unquote(str_input)
-            m, n, l, path_sep = await self.lookup(str_input)
+            m, n, l, path_sep = await self.lookup(str_input, cli)
 
             if not path_complete:
                 for elem in l.copy():
                     if elem.is_dir and elem.has_dir_completion:
-                        children = self.children(elem.path)
+                        children = self.children(elem.path, cli)
                         for c in children:
                             path_string = elem.path_string + c
                             l += [PathTokenPath(Path(path_string), path_string)]
@@ -699,14 +700,14 @@ class PathToken(StringToken):
                             p = l[0].path_string + os.path.curdir
                             l.append(PathTokenPath(Path(p), p, partial=True))
                     else:
-                        if not self.children(l[0].path):
+                        if not self.children(l[0].path, cli):
                             path_complete = True
 
             return n, [self.quote(elem.path_string, path_complete) for elem in l]
 
     async def match(self, str_input, cli=None): # noqa
         _, path_complete = self.unquote(str_input)
-        m, _n, l, _ = await self.lookup(str_input) # noqa
+        m, _n, l, _ = await self.lookup(str_input, cli) # noqa
         if m == MATCH_PARTIAL and len(l) == 1:
             if path_complete:
                 return MATCH_SUCCESS
@@ -714,7 +715,7 @@ class PathToken(StringToken):
                 return MATCH_SUCCESS
         return m
 
-    async def lookup(self, str_input):
+    async def lookup(self, str_input, cli=None):
         if str_input == "":
             return MATCH_PARTIAL, TOO_MANY_COMPLETIONS, [], os.path.pathsep
 
@@ -789,14 +790,14 @@ class PathToken(StringToken):
                 for p in path_objects:
                     if not segments and not path_complete:
                         # May be the start of the name of a hidden entry
-                        hidden += [p.path_string + c for c in self.children(p.path) if c.startswith(segment)]
+                        hidden += [p.path_string + c for c in self.children(p.path, cli) if c.startswith(segment)]
                     p.path_string += segment
                     p.path = Path(p.path_string)
                 path_objects += [PathTokenPath(Path(h), h, partial=True) for h in hidden]
             elif segment == "*":
                 opts = []
                 for p in path_objects:
-                    children = self.children(p.path)
+                    children = self.children(p.path, cli)
                     for c in children:
                         path_string = p.path_string + c
                         opts.append(PathTokenPath(Path(path_string), path_string))
@@ -804,7 +805,7 @@ class PathToken(StringToken):
             else:
                 opts = []
                 for p in path_objects:
-                    children = self.children(p.path)
+                    children = self.children(p.path, cli)
                     if self.case_insensitive:
                         exacts = [p.path_string + c for c in children if c.lower() == segment.lower()]
                     else:
-- 
2.43.0


From 7f0504651655e9abd555890453aa3f054800de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 37/50] fix: quoted strings ended at a tab or at an unknown
 escape

The rest of the string became further tokens, and TAB wrote the end of a
completion behind it.
---
 nessaid_cli/tokenizer/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokenizer/tokenizer.py b/nessaid_cli/tokenizer/tokenizer.py
index 945ed35..3756638 100644
--- a/nessaid_cli/tokenizer/tokenizer.py
+++ b/nessaid_cli/tokenizer/tokenizer.py
@@ -59,7 +59,7 @@ class NessaidCliTokenizerLexer(StdStreamsHolder):
         return t
 
     def t_QUOTED_INCOMPLETE_STR(self, t):
-        r'(")(([^"\n\r\t\\\0])|((\\\\)|(\\)(0|n|r|t|b|v|a|")))*(\\)?'
+        r'(")(([^"\n\r\t\\\0])|((\\\\)|(\\)(0|n|r|t|b|v|a|")))*(\\)?\Z'
         t.value = TokenInputString(t.value, t.lexpos, len(t.value), quote_incomplete=True)
         return t
 
-- 
2.43.0


From 765074a86b89e1eb4ddabbb7324f22918f2d7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 38/50] fix: errors in the grammar of a command class went to
 the process's own streams

---
 .../binding_parser/binding_text_parser.py        |  2 +-
 nessaid_cli/cmd.py                               |  2 +-
 nessaid_cli/compiler.py                          | 16 +++++++++-------
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 258fc9b..7b312c8 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -211,7 +211,7 @@ class NessaidCliBindingParser(NessaidCliParserCommon):
                 return False, errmsg
             return True, code
         except Exception as e:
-            print("Error:", e)
+            self.error("Error:", e)
             return False, str(e)
 
 
diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index c108e76..fb0ee84 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -181,7 +181,7 @@ class NessaidCmd(NessaidCli):
             self.print("# Generated CLI grammar:")
             self.print(grammar_text)
 
-        grammar_set = compile_grammar(grammar_text)
+        grammar_set = compile_grammar(grammar_text, stdout=self.stdout, stderr=self.stderr)
         super().__init__(
             grammar_set, prompt=prompt, parent=parent, loop=loop, enable_bell=enable_bell,
             stdin=stdin, stdout=stdout, stderr=stderr, filename=filename,
diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 95a46ed..f3b1377 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -388,10 +388,10 @@ class NessaidCliParser(NessaidCliParserCommon):
         r, binding_code = self.binding_parser.parse(binding)
         #print("Binding parsed:", r, binding_code)
         if not r:
-            print("Failed to parse binding code")
-            print("Code:")
-            print(binding)
-            print(binding_code)
+            self.error("Failed to parse binding code")
+            self.error("Code:")
+            self.error(binding)
+            self.error(binding_code)
             raise Exception("Failed to parse binding code")
         return binding_code
 
@@ -695,7 +695,7 @@ class NessaidCliParser(NessaidCliParserCommon):
                         | SINGLE_BACKSLASH
                         | QUOTED_INCOMPLETE_STR
                         | quoted_split_string"""
-        print("Syntax error (Unused token)")
+        self.error("Syntax error (Unused token)")
         self.p_error(t)
 
     def parse(self, input_str):
@@ -710,14 +710,16 @@ class NessaidCliParser(NessaidCliParserCommon):
         super().__init__(stdin=stdin, stdout=stdout, stderr=stderr)
 
 
-def compile_grammar(input_str: str):
+def compile_grammar(input_str: str, stdout=None, stderr=None):
     """Compile the grammar specification in str format to a GrammarSpecification object
 
     :param input_str: The grammar specification as string
+    :param stdout: The stream used for output, the standard output by default
+    :param stderr: The stream used to report errors, the standard error by default
     :returns: a GrammarSpecification object which will contain the parsed grammars and token definitions
     :rtype: GrammarSpecification
     """
 
-    parser = NessaidCliParser()
+    parser = NessaidCliParser(stdout=stdout, stderr=stderr)
     output = parser.parse(input_str)
     return output
\ No newline at end of file
-- 
2.43.0


From ce7fdee1c5c9187b35aeb89028723fa8bfbb59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 39/50] fix: warning about a token class mixing sync and async
 methods failed in a plain CLI

---
 nessaid_cli/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 9439020..128a919 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -54,9 +54,9 @@ class NessaidCli(CliInterface):
                  completekey='tab', use_rawinput=True, history_size=100, enable_bell=False, str_cache_size=128):
 
         self._loop = loop if loop else asyncio.get_event_loop()
-        self.validate_token_classes()
 
         super().__init__(self._loop, grammarset, stdin=stdin, stdout=stdout, stderr=stderr, str_cache_size=str_cache_size)
+        self.validate_token_classes()
 
         enable_bell = False if enable_bell is not True else True
 
-- 
2.43.0


From 2c64ade64f112dbaef391b810653c09d8a203551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 40/50] fix: a token class with a synchronous or failing
 get_helpstring broke every line it could follow

---
 nessaid_cli/interface.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 63d7ecb..c64c5ac 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -129,7 +129,7 @@ class ParsingResult():
 
         for t in tokens:
             if t:
-                helpstring = await t.get_helpstring(cur_input if cur_input else "", cli=cli)
+                helpstring = await cli.get_token_helpstring(t, cur_input if cur_input else "")
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
@@ -138,7 +138,7 @@ class ParsingResult():
                         if t.case_insensitive:
                             self.case_insensitive = True
                         for c in completions:
-                            h = await t.get_helpstring(str(c), cli=cli)
+                            h = await cli.get_token_helpstring(t, str(c))
                             next_tokens.setdefault(TokenCompletion(str(c), h))
                 else:
                     next_tokens.setdefault(TokenCompletion(None, helpstring))
@@ -689,6 +689,15 @@ class CliInterface(StdStreamsHolder):
         except:
             return 0, []
 
+    async def get_token_helpstring(self, token, token_input):
+        try:
+            if asyncio.iscoroutinefunction(token.get_helpstring):
+                return await token.get_helpstring(token_input, cli=self)
+            else:
+                return token.get_helpstring(token_input, cli=self)
+        except:
+            return str(token)
+
     async def match(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
 
         self._token_hit = 0
-- 
2.43.0


From e891e6fb6522db9fc445e94ffc38bb66935100e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 41/50] fix: a token was asked for suggestions while the values
 before it were those of another reading or line

---
 nessaid_cli/interface.py | 75 +++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index c64c5ac..3a82ce9 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -127,8 +127,10 @@ class ParsingResult():
         self.last_token = None
         self.case_insensitive = False
 
-        for t in tokens:
+        for t, matched_values in tokens:
             if t:
+                # Each token sees the values which precede it in its own sequence
+                cli.set_matched_values(matched_values)
                 helpstring = await cli.get_token_helpstring(t, cur_input if cur_input else "")
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
@@ -156,13 +158,15 @@ class ParsingResult():
                 self.last_token = (cur_input, common_prefix)
 
         if len(self.next_tokens) == 1 and self.next_tokens[0]:
+            token, matched_values = tokens[0]
             if self.last_token:
                 if self.last_token[0] == self.last_token[1]:
-                    if tokens[0].completable:
+                    if token.completable:
                         self.next_constant_token = self.last_token[1]
             else:
-                if tokens[0].completable:
-                    _n, completion = await cli.complete_token(tokens[0], "") # noqa
+                if token.completable:
+                    cli.set_matched_values(matched_values)
+                    _n, completion = await cli.complete_token(token, "") # noqa
                     if completion and len(completion) == 1:
                         self.next_constant_token = str(completion[0])
 
@@ -671,6 +675,22 @@ class CliInterface(StdStreamsHolder):
     def get_matched_values(self):
         return self._matched_values.copy()
 
+    def set_matched_values(self, values):
+        self._matched_values = list(values)
+
+    async def match_values(self, sequence, tok_list):
+        """Makes the values of the tokens of the sequence the matched ones"""
+        self._matched_values = []
+        try:
+            for t, token_input in zip(sequence, tok_list):
+                token = self.get_token(t.name)
+                value = await self.get_token_value(token, token_input)
+                if value is not NullTokenValue:
+                    self._matched_values.append(value)
+        except Exception as e:
+            print("Exception getting matched values:", type(e), e, file=self.stderr)
+        return self.get_matched_values()
+
     async def match_token(self, token, token_input):
         try:
             if asyncio.iscoroutinefunction(token.match):
@@ -719,6 +739,7 @@ class CliInterface(StdStreamsHolder):
         token_list = tok_list.copy()
 
         prompt_choices = list(self._parse_tree.first())
+        prompt_sequences = [([], [c for c in prompt_choices if c])]
 
         res = ParsingResult()
 
@@ -728,16 +749,16 @@ class CliInterface(StdStreamsHolder):
             res.error = "No matching start tokens"
             return res
 
-        async def set_next_tokens(res, choices):
+        async def set_next_tokens(res, sequences, add_EOT):
             next_tokens = {} # In the order of the grammar, without duplicates
-            add_EOT = False
-            for c in choices:
-                if not c:
-                    add_EOT = True
-                    continue
-                next_tokens[self.get_token(c.name, c.helpstring)] = True
+            for sequence, choices in sequences:
+                values = await self.match_values(sequence, tok_list)
+                for c in choices:
+                    token = self.get_token(c.name, c.helpstring)
+                    next_tokens.setdefault((token,) + tuple(id(v) for v in values), (token, values))
+            next_tokens = list(next_tokens.values())
             if add_EOT:
-                next_tokens[EndOfInpuToken] = True
+                next_tokens.append((EndOfInpuToken, []))
             return await res.set_next_tokens(self, None if last_token_complete else cur_token_input, next_tokens)
 
         initial = True
@@ -757,17 +778,7 @@ class CliInterface(StdStreamsHolder):
                 partial_matches = []
                 choices = matching_seq_choices.pop(0)
 
-                try:
-                    self._matched_values = []
-                    i = 0
-                    for t in sequence:
-                        token = self.get_token(t.name)
-                        value = await self.get_token_value(token, tok_list[i])
-                        if value is not NullTokenValue:
-                            self._matched_values.append(value)
-                        i += 1
-                except Exception as e:
-                    print("Exception getting matched values:", type(e), e, file=self.stderr)
+                await self.match_values(sequence, tok_list)
 
                 for c in choices:
                     token = self.get_token(c.name)
@@ -822,26 +833,18 @@ class CliInterface(StdStreamsHolder):
                     return res
 
                 prompt_choices = []
+                prompt_sequences = []
 
                 for matching_sequence in matching_sequences:
                     choices = []
-                    try:
-                        self._matched_values = []
-                        i = 0
-                        for t in matching_sequence:
-                            token = self.get_token(t.name)
-                            value = await self.get_token_value(token, tok_list[i])
-                            if value is not NullTokenValue:
-                                self._matched_values.append(value)
-                            i += 1
-                    except Exception as e:
-                        print("Exception getting matched values:", type(e), e, file=self.stderr)
+                    preceding = matching_sequence
                     last_token = matching_sequence[-1]
                     if last_token == EndOfInpuToken:
                         seq_complete = True
                     else:
                         if (not token_list) and (not last_token_complete):
                             choices.append(last_token)
+                            preceding = matching_sequence[:-1]
                         else:
                             nexts = last_token.next()
                             for c in nexts:
@@ -851,6 +854,7 @@ class CliInterface(StdStreamsHolder):
                                     choices.append(c)
                     matching_seq_choices.append(choices)
                     prompt_choices = prompt_choices + choices
+                    prompt_sequences.append((preceding, choices))
 
             initial = False
 
@@ -859,7 +863,7 @@ class CliInterface(StdStreamsHolder):
                     prompt_choices.append(EndOfInpuToken)
 
                 if prompt_choices:
-                    await set_next_tokens(res, prompt_choices)
+                    await set_next_tokens(res, prompt_sequences, EndOfInpuToken in prompt_choices)
                 else:
                     res.result = MATCH_FAILURE
                     if cur_token_input:
@@ -963,6 +967,7 @@ class CliInterface(StdStreamsHolder):
                     for j in range(seq_count):
                         toc = matching_sequences[j][i]
                         token = self.get_token(toc.name)
+                        await self.match_values(matching_sequences[j][:i], tok_list)
                         match = await self.match_token(token, tok_list[i])
                         toc_types.append(match)
 
-- 
2.43.0


From 4e076f11fc9ead528445969c6fc62663f700a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 42/50] fix: a list, dict or set value changed by an action was
 delivered changed to later lines

---
 nessaid_cli/interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 3a82ce9..ec71f5c 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -666,7 +666,8 @@ class CliInterface(StdStreamsHolder):
                 value = await token.get_value(token_input, cli=self)
             else:
                 value =  token.get_value(token_input, cli=self)
-            if token.cacheable:
+            # Containers can be changed by the actions they are delivered to
+            if token.cacheable and not isinstance(value, (list, dict, set)):
                 self._token_value_cache[token_value_key] = value
             return value
         except:
-- 
2.43.0


From 8914783a9bbdd241bdfac923b3096b1a92f050ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 43/50] fix: a help text equal to a suggested word no longer
 hides the word (or the help)

---
 nessaid_cli/interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index ec71f5c..57fd861 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -135,19 +135,19 @@ class ParsingResult():
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
-                        next_tokens.setdefault(TokenCompletion(None, helpstring))
+                        next_tokens.setdefault((None, helpstring), TokenCompletion(None, helpstring))
                     else:
                         if t.case_insensitive:
                             self.case_insensitive = True
                         for c in completions:
                             h = await cli.get_token_helpstring(t, str(c))
-                            next_tokens.setdefault(TokenCompletion(str(c), h))
+                            next_tokens.setdefault(str(c), TokenCompletion(str(c), h))
                 else:
-                    next_tokens.setdefault(TokenCompletion(None, helpstring))
+                    next_tokens.setdefault((None, helpstring), TokenCompletion(None, helpstring))
             else:
                 add_EOI = True
 
-        self.next_tokens = list(next_tokens)
+        self.next_tokens = list(next_tokens.values())
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-- 
2.43.0


From 19a3ce4ca00d3e7c7897c3904aa3bfb248e21cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 44/50] fix: named arguments of a token declaration reach the
 parameters they name

---
 nessaid_cli/elements.py  | 7 ++++++-
 nessaid_cli/interface.py | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 0098683..26d5dba 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -493,7 +493,8 @@ class TokenClassDef():
 
     def __init__(self, classname, arglist):
         self._classname = classname
-        self._arglist = [arg.value for arg in arglist]
+        self._arglist = [arg.value for arg in arglist if arg.param_name is None]
+        self._kwargs = {arg.param_name: arg.value for arg in arglist if arg.param_name is not None}
 
     @property
     def classname(self):
@@ -503,6 +504,10 @@ class TokenClassDef():
     def arglist(self):
         return self._arglist
 
+    @property
+    def kwargs(self):
+        return self._kwargs
+
 
 class GrammarSpecification:
 
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 57fd861..d27754a 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -452,6 +452,10 @@ class CliInterface(StdStreamsHolder):
             self._token_miss += 1
             tokendef = self._grammars.get_tokendef(name)
             if tokendef:
+                kwargs = dict(tokendef.kwargs)
+                if helpstring is not None or "helpstring" not in kwargs:
+                    kwargs["helpstring"] = helpstring
+
                 if self._token_class_map is None:
                     token_classes = self.get_base_token_classes() + self.get_token_classes()
                     self._token_class_map = {t.__name__: t for t in token_classes}
@@ -459,7 +463,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in self._token_class_map:
                     try:
                         self._tokens[(name, helpstring)] = self._token_class_map[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, **kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
@@ -468,7 +472,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in _globals:
                     try:
                         self._tokens[(name, helpstring)] =  _globals[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, **kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
-- 
2.43.0


From 59d46458dde264c0d7b41a3fb834de16646dbcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:36 +0000
Subject: [PATCH 45/50] fix: keep what a running line gathers out of the shared
 grammar tree

A handler entering another line, lines run at the same time and lines
cancelled half-way lost or mixed up the action variables.
---
 nessaid_cli/interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index d27754a..d5232c5 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -5,6 +5,7 @@
 # file included as part of this package.
 #
 
+import copy
 import asyncio
 
 from nessaid_cli.utils import StdStreamsHolder, convert_to_python_string
@@ -274,6 +275,10 @@ class ExecContext():
             element_node.input_sequence.append(token_value)
             return
 
+        # The nodes belong to the grammar, what is gathered in them to this run only:
+        # other lines may be run before it ends, or it may never end
+        element_node = copy.copy(element_node)
+        element_node.reset()
         element_node.input_sequence.append(token_value)
 
         element = element_node.element
-- 
2.43.0


From 26dcd998236931e764550b663522cab94b896df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:00 +0000
Subject: [PATCH 46/50] fix: what is not a number is not the beginning of a
 decimal number

---
 nessaid_cli/tokens.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 89ae385..e28e39e 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -484,6 +484,9 @@ class RangedDecimalToken(CliToken):
                 decimal = float(token_input)
             except Exception:
                 return MATCH_FAILURE
+            if decimal != decimal:
+                # nan
+                return MATCH_FAILURE
             if decimal > 0 and decimal > self._end:
                 return MATCH_FAILURE
             if decimal < 0 and decimal < self._start:
-- 
2.43.0


From 679d7643d73d17076b64fd67cd536a0099a49dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 47/50] fix: count the completions of integers of any size

---
 nessaid_cli/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index e28e39e..3b6c44f 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -340,7 +340,7 @@ class RangedIntToken(CliToken):
             else:
                 lower_limit = max(min_limit, min_num)
                 upper_limit = min(max_limit, max_num)
-                count = len(range(lower_limit, upper_limit + 1))
+                count = max(0, upper_limit - lower_limit + 1)
                 if count > self._max_suggestions:
                     return count, []
                 completions = list(range(lower_limit, upper_limit + 1))
@@ -366,7 +366,7 @@ class RangedIntToken(CliToken):
             max_num = min_num + power - 1
 
         if min_num <= max_limit and num_len == max_len:
-            count += len(range(min_num, min(max_num, max_limit) + 1))
+            count += min(max_num, max_limit) - min_num + 1
             if count > self._max_suggestions:
                 return count, []
             completions += list(range(min_num, min(max_num, max_limit) + 1))
-- 
2.43.0


From 2bafabf3f5b6321abe4d5ed30b6f53c164dc3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:32 +0000
Subject: [PATCH 48/50] fix: a cancelled line does not go on when its token
 methods or input requests wait

---
 nessaid_cli/interface.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index d5232c5..803e096 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -562,6 +562,8 @@ class CliInterface(StdStreamsHolder):
                     show_char = args[1]
             try:
                 return await self.input(prompt, show_char)
+            except asyncio.CancelledError:
+                raise
             except:
                 return ""
 
@@ -679,6 +681,8 @@ class CliInterface(StdStreamsHolder):
             if token.cacheable and not isinstance(value, (list, dict, set)):
                 self._token_value_cache[token_value_key] = value
             return value
+        except asyncio.CancelledError:
+            raise
         except:
             return NullTokenValue
 
@@ -707,6 +711,8 @@ class CliInterface(StdStreamsHolder):
                 return await token.match(token_input, cli=self)
             else:
                 return token.match(token_input, cli=self)
+        except asyncio.CancelledError:
+            raise
         except:
             return MATCH_FAILURE
 
@@ -716,6 +722,8 @@ class CliInterface(StdStreamsHolder):
                 return await token.complete(token_input, cli=self)
             else:
                 return token.complete(token_input, cli=self)
+        except asyncio.CancelledError:
+            raise
         except:
             return 0, []
 
@@ -725,6 +733,8 @@ class CliInterface(StdStreamsHolder):
                 return await token.get_helpstring(token_input, cli=self)
             else:
                 return token.get_helpstring(token_input, cli=self)
+        except asyncio.CancelledError:
+            raise
         except:
             return str(token)
 
-- 
2.43.0


From 2c4c226fccfa6c0b5d70aabbeac5c651ccff8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 49/50] fix: static and decorated methods as command handlers
 get their arguments

---
 nessaid_cli/cmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index fb0ee84..38a6f69 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -145,8 +145,9 @@ class NessaidCmd(NessaidCli):
 
         for hook in grammar_hooks:
             if hook.__doc__:
-                argspec = inspect.getfullargspec(hook)
-                argnames = argspec.args[1:]
+                # Static and decorated methods do not have self as their first argument
+                argnames = [p.name for p in inspect.signature(hook).parameters.values()
+                            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
                 gramar_name = self.generate_grammar_name(hook)
                 grammar_alternatives.append(gramar_name)
                 argstring = ", ".join(["$arg_" + str(n + 1) for n in range(cli_nargs)])
-- 
2.43.0


From af69e8bd18404de33bd608d4743b3c89595a11fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:07 +0000
Subject: [PATCH 50/50] fix: a context takes over the bell when it starts, not
 when it is entered

---
 nessaid_cli/cli.py | 8 +++++++-
 nessaid_cli/cmd.py | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 128a919..faf24e7 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -40,6 +40,11 @@ class ParentBackup():
         self._readline = readline
         self._enable_bell = readline._enable_bell
 
+    def start(self):
+        # Only a context that is really started takes over the line editor
+        self._enable_bell = self._readline._enable_bell
+        self._readline.enable_bell(self._cli._enable_bell)
+
     async def restore(self):
         self._readline.set_prepare_history_entry(lambda entry: entry.strip())
         self._readline.set_history_size(self._parent._history_size)
@@ -66,11 +71,12 @@ class NessaidCli(CliInterface):
             self._readline = NessaidAsyncReadline(loop=self.loop, stdin=self.stdin, stdout=self.stdout, stderr=self.stderr)
             self._readline.set_prepare_history_entry(lambda entry: entry.strip())
             self._readline.set_history_size(self._history_size)
+            self._readline.enable_bell(enable_bell)
         else:
             self._parent_backup = ParentBackup(self, parent.readline)
             self._readline = parent.readline
 
-        self._readline.enable_bell(enable_bell)
+        self._enable_bell = enable_bell
 
         self._complete_tokens_processor =  self.process_completion_tokens
 
diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 38a6f69..8e21879 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -312,6 +312,8 @@ class NessaidCmd(NessaidCli):
             self._loop_task = None
 
     async def context_loop(self):
+        if self.parent:
+            self.parent_backup.start()
         try:
             return await super().cmdloop(grammarname=self.generate_root_grammar_name())
         finally:
-- 
2.43.0

