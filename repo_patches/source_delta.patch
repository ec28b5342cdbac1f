From 5fd6ff0e5ab64ab5f41927e2e4706f13a60a8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 01/31] fix: dec() subtracts one instead of adding one

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index bf27a1d..8cd5c52 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -502,7 +502,7 @@ class CliInterface(StdStreamsHolder):
         if func_name == 'dec':
             r = args[0]
             try:
-                r = r + 1
+                r = r - 1
             except Exception:
                 pass
             return r
-- 
2.43.0


From 0da3d3b3905ebaee6ed4868da7d39ca934f1606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 02/31] fix: RangedIntToken accepts the negative integers of
 its range

---
 nessaid_cli/tokens.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 73120e4..3340217 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -288,9 +288,13 @@ class RangedIntToken(CliToken):
     def helpstring(self):
         return self._helpstring or "An integer between {} and {}".format(self._start, self._end)
 
+    @staticmethod
+    def is_integer_text(text):
+        return text.isnumeric() or (text.startswith("-") and text[1:].isnumeric())
+
     async def get_value(self, match_string=None, cli=None): # noqa
         try:
-            if match_string.isnumeric():
+            if self.is_integer_text(match_string):
                 number = int(match_string)
                 if number >= self._start and number <= self._end:
                     return number
@@ -410,7 +414,7 @@ class RangedIntToken(CliToken):
 
             else:
                 try:
-                    if token_input.isnumeric():
+                    if self.is_integer_text(token_input):
                         number = int(token_input)
                     else:
                         return 0, []
-- 
2.43.0


From c252e0b86beff6daa543f5d2c6fdfc96e5996f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 03/31] fix: grammar variable assignment copies the value
 instead of aliasing the variable

---
 nessaid_cli/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 8cd5c52..27dbc85 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -247,6 +247,8 @@ class ExecContext():
 
                     if lhs:
                         rhs = await self.resolve_argument(block.rhs)
+                        if isinstance(rhs, BindingVariable):
+                            rhs = rhs.value
                         lhs.assign(rhs)
 
                 elif isinstance(block, BindingCall):
-- 
2.43.0


From d2eb9a2f4415292dc401df05b486afe8a5c69396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 04/31] fix: identifiers that start with a keyword are usable
 in action code

---
 .../binding_parser/binding_text_parser.py     | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 83e6afa..2604dbb 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -27,20 +27,17 @@ class NessaidCliBindingLexer(NessaidCliLexerCommon):
 
     t_ignore_COMMENT = NessaidCliLexerCommon.common_COMMENT
 
-    def t_TRUE(self, t):
-        "True"
-        return t
-
-    def t_FALSE(self, t):
-        "False"
-        return t
-
-    def t_NONE(self, t):
-        "None"
-        return t
-
-    def t_CALL(self, t):
-        "call"
+    KEYWORD_TOKENS = {
+        "call": 'CALL',
+        "True": 'TRUE',
+        "False": 'FALSE',
+        "None": 'NONE',
+    }
+
+    def t_IDENTIFIER(self, t):
+        r'[A-Za-z_][-a-zA-Z0-9_]*'
+        if t.value in NessaidCliBindingLexer.KEYWORD_TOKENS:
+            t.type = NessaidCliBindingLexer.KEYWORD_TOKENS[t.value]
         return t
 
     def __init__(self, filename="", starting_lineno=1, starting_linepos=0, stdin=None, stdout=None, stderr=None):
-- 
2.43.0


From f3ea1f9c1e154ad173f88e6b529dd218150e0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 05/31] fix: an empty command file no longer blocks the files
 queued before it

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 68fefbf..b61ad21 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -460,7 +460,8 @@ class NessaidCli(CliInterface):
         try:
             with open(filename) as fd:
                 lines = [l.rstrip() for l in fd.readlines()]
-                self.file_data.append(lines)
+                if lines:
+                    self.file_data.append(lines)
         except Exception as e:
             self.error("Exception processing input file:", filename, type(e), e)
 
-- 
2.43.0


From 789b14748f5ed138e0966a9eafc7afe5967693c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 06/31] fix: executing a match without an argument list no
 longer fails after the actions ran

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 27dbc85..3d5cfe4 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -897,7 +897,7 @@ class CliInterface(StdStreamsHolder):
                                     root_arglist = await self.execute_success_sequence(matching_sequences[0], match_values, args)
                                 finally:
                                     self._executing = False
-                                arglen = len(arglist)
+                                arglen = len(arglist) if arglist else 0
                                 for i in range(arglen):
                                     arglist[i] = root_arglist.pop(0)
                                 res.result = MATCH_SUCCESS
-- 
2.43.0


From 9340f825eae4f1eb87e0f650e32b94a5e7eeb553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 07/31] fix: on_exit of a child context runs once when falling
 back to the parent

---
 nessaid_cli/cmd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index cfb8208..c203a3f 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -476,7 +476,6 @@ class NessaidCmd(NessaidCli):
                 if dry_run:
                     return parent_resp
                 else:
-                    await self.on_exit()
                     raise ChildCliExitException(
                         tok_list=tok_list, dry_run=dry_run,
                         last_token_complete=last_token_complete, arglist=arglist
-- 
2.43.0


From 83533fb9464969a0f58102e6716d00c0f1630a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 08/31] fix: keep the context a parent command opens while a
 startup child context exits

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index b61ad21..4e10818 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -511,7 +511,8 @@ class NessaidCli(CliInterface):
                         last_token_complete=e.last_token_complete, arglist=e.arglist
                     )
                 finally:
-                    self.child_cli = None
+                    if self.child_cli is child_cli:
+                        self.child_cli = None
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From 6350b994dc8665b67e86955e4a3964f186d74d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 09/31] fix: runtime output goes to the configured streams

---
 nessaid_cli/cmd.py       | 12 ++++++------
 nessaid_cli/interface.py |  4 ++--
 nessaid_cli/tokens.py    |  4 +++-
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index c203a3f..0ae7321 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -269,7 +269,7 @@ class NessaidCmd(NessaidCli):
                 return
             top_stats = snapshot.compare_to(self.last_tracemalloc_snapshot, key_type)
             for stat in top_stats[:limit]:
-                print(stat)
+                print(stat, file=self.stdout)
 
         self.last_tracemalloc_snapshot = snapshot
 
@@ -435,13 +435,13 @@ class NessaidCmd(NessaidCli):
             with cProfile.Profile() as pr:
                 res = await super().match(tok_list, dry_run, last_token_complete, arglist)
             if self._enable_profiling and enable_profiling:
-                stats = pstats.Stats(pr)
+                stats = pstats.Stats(pr, stream=self.stdout)
                 stats.sort_stats('cumtime')
                 stats.print_stats()
-                print("Token Hit:", self._token_hit)
-                print("Token Miss:", self._token_miss)
-                print("Token Value Hit:", self._token_value_hit)
-                print("Token Value Miss:", self._token_value_miss)
+                print("Token Hit:", self._token_hit, file=self.stdout)
+                print("Token Miss:", self._token_miss, file=self.stdout)
+                print("Token Value Hit:", self._token_value_hit, file=self.stdout)
+                print("Token Value Miss:", self._token_value_miss, file=self.stdout)
         else:
             res = await super().match(tok_list, dry_run, last_token_complete, arglist)
         end = time.time()
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 3d5cfe4..0e83344 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -754,7 +754,7 @@ class CliInterface(StdStreamsHolder):
                             self._matched_values.append(value)
                         i += 1
                 except Exception as e:
-                    print("Exception getting matched values:", type(e), e, file=self._stderr)
+                    self.error("Exception getting matched values:", type(e), e)
 
                 for c in choices:
                     token = self.get_token(c.name)
@@ -841,7 +841,7 @@ class CliInterface(StdStreamsHolder):
                                 self._matched_values.append(value)
                             i += 1
                     except Exception as e:
-                        print("Exception getting matched values:", type(e), e, file=self._stderr)
+                        self.error("Exception getting matched values:", type(e), e)
                     last_token = matching_sequence[-1]
                     if last_token == EndOfInpuToken:
                         seq_complete = True
diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 3340217..bd274fb 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -81,6 +81,7 @@ class CliToken():
     def __init__(self, name, helpstring=None, cli=None): # noqa
         self._name = name
         self._helpstring = helpstring
+        self._cli = cli
         self._cli_string = convert_to_cli_string(name)
 
     def __repr__(self):
@@ -617,7 +618,8 @@ class PathToken(StringToken):
                 content.remove("..")
             return content
         except PermissionError:
-            print("\nPermissionError on {}\n".format(path))
+            if self._cli is not None:
+                self._cli.error("\nPermissionError on {}\n".format(path))
             return []
 
     async def get_value(self, str_input, cli=None): # noqa
-- 
2.43.0


From 9076ca50a8c4dac009b5deac0f41a7167ca46a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 10/31] fix: set up the streams before the token class warning
 uses them

---
 nessaid_cli/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 4e10818..1d19b54 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -54,10 +54,10 @@ class NessaidCli(CliInterface):
                  completekey='tab', use_rawinput=True, history_size=100, enable_bell=False, str_cache_size=128):
 
         self._loop = loop if loop else asyncio.get_event_loop()
-        self.validate_token_classes()
-
         super().__init__(self._loop, grammarset, stdin=stdin, stdout=stdout, stderr=stderr, str_cache_size=str_cache_size)
 
+        self.validate_token_classes()
+
         enable_bell = False if enable_bell is not True else True
 
         self._history_size = history_size
-- 
2.43.0


From 53a3cfe9bf57c4c68f823b27ab865a0616c72b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 11/31] fix: the string conversion cache distinguishes quoted
 from unquoted text

---
 nessaid_cli/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index e7b1e30..f24ac9d 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -39,16 +39,20 @@ class ExtendedString(str):
 
 def convert_to_python_string(cli_string, cli=None):
 
-    if cli and cli_string in cli.str_cache:
-        return cli.str_cache[cli_string]
+    quoted = bool(getattr(cli_string, "quoted", False))
+    quote_incomplete = bool(getattr(cli_string, "quote_incomplete", False))
+    cache_key = (cli_string, quoted, quote_incomplete)
+
+    if cli and cache_key in cli.str_cache:
+        return cli.str_cache[cache_key]
 
     converted_str = cli_string
 
-    if hasattr(cli_string, "quoted") and cli_string.quoted:
+    if quoted:
         if converted_str.startswith('"'):
             converted_str = converted_str[1:]
 
-        if not hasattr(cli_string, "quote_incomplete") or not cli_string.quote_incomplete:
+        if not quote_incomplete:
             if converted_str.endswith('"'):
                 converted_str = converted_str[:-1]
 
@@ -69,7 +73,7 @@ def convert_to_python_string(cli_string, cli=None):
         converted_str = "\\".join(converted_parts)
 
     if cli:
-        cli.cache_string(cli_string, converted_str)
+        cli.cache_string(cache_key, converted_str)
 
     return converted_str
 
-- 
2.43.0


From 031be9928d1ca93250298249ab2e0dff97a14bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 12/31] fix: a line that could not be tokenized no longer runs
 the previous line again

---
 nessaid_cli/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 1d19b54..2b4fbdc 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -555,6 +555,7 @@ class NessaidCli(CliInterface):
                     self.error("\n")
                     traceback.print_tb(e.__traceback__, file=self.stderr)
                     self.error("\n")
+                    continue
                 else:
                     #print("Tokens:", tokens)
                     pass
-- 
2.43.0


From 44b516dff7af4454bf51d1298ae953fc3cdfb274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 13/31] fix: the loop state is cleaned up when on_exit raises

---
 nessaid_cli/cli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 2b4fbdc..2358fd4 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -587,14 +587,16 @@ class NessaidCli(CliInterface):
                     traceback.print_tb(e.__traceback__, file=self.stderr)
                     self.error("\n")
         finally:
-            await self.on_exit()
-            self._exit_loop = False
-            self.exit_grammar()
-            self._running = False
-            top_cli = self._cli_stack.pop()
-            if self != top_cli:
-                raise(Exception("Bug in CLI stack"))
-            self._loop_task = None
+            try:
+                await self.on_exit()
+            finally:
+                self._exit_loop = False
+                self.exit_grammar()
+                self._running = False
+                top_cli = self._cli_stack.pop()
+                if self != top_cli:
+                    raise(Exception("Bug in CLI stack"))
+                self._loop_task = None
 
     async def on_exit(self):
         pass
-- 
2.43.0


From 781d5ab38fd79b386429f6240b2235f722793108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 14/31] fix: hexadecimal literals are lexed and converted

---
 nessaid_cli/lex_yacc_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/lex_yacc_common.py b/nessaid_cli/lex_yacc_common.py
index f9f4944..cdf5c3a 100644
--- a/nessaid_cli/lex_yacc_common.py
+++ b/nessaid_cli/lex_yacc_common.py
@@ -82,7 +82,10 @@ class NessaidCliLexerCommon(StdStreamsHolder):
     t_INTEGER     = r'[\+-]?(([0])|(([1-9])([0-9]*)))'
     t_FLOAT       = r'[\+-]?(([0]?)|(([1-9])([0-9]*)))(\.)([0-9]+)'
     t_QUOTED_STR  = r'(")(([^"\n\r\t\\\0])|((\\\\)|(\\)(0|n|r|t|b|v|a|")))*(")'
-    t_HEX_NUMBER  = r'(0)(x|X)([a-fA-F0-9]+)'
+
+    def t_HEX_NUMBER(self, t):
+        r'(0)(x|X)([a-fA-F0-9]+)'
+        return t
 
     t_DOLLAR_NUMBER_ID   = r'[\$][0-9]+'
     t_DOLLAR_VAR_ID      = r'[\$][A-Za-z_][a-zA-Z0-9_]*'
@@ -237,7 +240,7 @@ class NessaidCliParserCommon(StdStreamsHolder):
         """integer : INTEGER
                    | HEX_NUMBER"""
         int_str =  t[1]
-        integer = int(int_str)
+        integer = int(int_str, 0)
         t[0] = integer
 
     def p_float(self, t):
-- 
2.43.0


From 57e1a7fdacf5c2934dbefc955098b9c09ce6a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 15/31] fix: only a complete sequence is executed when several
 sequences match

---
 nessaid_cli/interface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 0e83344..fab6edd 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -735,6 +735,7 @@ class CliInterface(StdStreamsHolder):
 
         while True:
             seq_complete = False
+            complete_sequences = []
 
             assert len(seq_copy) == len(matching_seq_choices)
 
@@ -845,6 +846,7 @@ class CliInterface(StdStreamsHolder):
                     last_token = matching_sequence[-1]
                     if last_token == EndOfInpuToken:
                         seq_complete = True
+                        complete_sequences.append(matching_sequence)
                     else:
                         if (not token_list) and (not last_token_complete):
                             choices.add(last_token)
@@ -853,6 +855,7 @@ class CliInterface(StdStreamsHolder):
                             for c in nexts:
                                 if c == EndOfInpuToken:
                                     seq_complete = True
+                                    complete_sequences.append(matching_sequence)
                                 else:
                                     choices.add(c)
                     matching_seq_choices.append(choices)
@@ -877,6 +880,9 @@ class CliInterface(StdStreamsHolder):
                 if matching_sequences:
                     res.matched_sequence.append(cur_token_input)
                     if not dry_run:
+                        if seq_complete:
+                            matching_sequences = complete_sequences
+
                         if seq_complete and len(matching_sequences) > 1:
                             matching_sequences = await self.fix_sequences(matching_sequences, tok_list)
 
-- 
2.43.0


From 230d457cf0ea1d4386bc345f8b25363c18ae7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 16/31] fix: an optional block keeps the repetition of the term
 it holds

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b3404c9..d8cf6c8 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -277,7 +277,7 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
             post_match_binding = rule.post_match_binding
-- 
2.43.0


From c538fe6ad156f0109d35eade3449209457c7cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 17/31] fix: integer token completions are always strings

---
 nessaid_cli/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index bd274fb..7b14efa 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -398,7 +398,7 @@ class RangedIntToken(CliToken):
                 n, comps = await self._complete(*comp_args)
                 if n > 0 and not comps:
                     return TOO_MANY_COMPLETIONS, []
-                return n, [-c for c in comps]
+                return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
                 if count > 10:
@@ -410,7 +410,7 @@ class RangedIntToken(CliToken):
                 if count > self._max_suggestions:
                     comps = []
                 else:
-                    comps = list(range(self._start, self._end + 1))
+                    comps = [str(c) for c in range(self._start, self._end + 1)]
                 return count, comps
 
             else:
-- 
2.43.0


From 309557ac485e287a131908d6aace607ab21f63a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 18/31] fix: forget a nested context that ended with an error

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 2358fd4..3c0bb92 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -575,7 +575,8 @@ class NessaidCli(CliInterface):
                             self.child_cli = None
                             match_output = await self.match(e.token_list, dry_run=False, last_token_complete=True, arglist=arglist)
                         finally:
-                            pass
+                            if self.child_cli is child_cli:
+                                self.child_cli = None
 
                     self._current_line = None
                     self.process_cli_response(tokens, match_output)
-- 
2.43.0


From 59645b15cddf6d2cd0c97675959917e2a27e9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 19/31] fix: an undeclared word in a grammar was optional

---
 nessaid_cli/elements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 81f4f8c..526a39c 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -484,6 +484,10 @@ class UnresolvedInputElement(InputElement):
         self.copy_extras(cp)
         return cp
 
+    @property
+    def mandatory(self):
+        return True
+
 
 class TokenClassDef():
 
-- 
2.43.0


From 599aceda0067a7ab0e01c111ae1bc09c4979727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 20/31] fix: a copied undeclared word lost its arguments

---
 nessaid_cli/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 526a39c..23134ec 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -480,7 +480,7 @@ class UnresolvedInputElement(InputElement):
         return self._arglist
 
     def copy(self):
-        cp = UnresolvedInputElement(self._value)
+        cp = UnresolvedInputElement(self._value, self._arglist)
         self.copy_extras(cp)
         return cp
 
-- 
2.43.0


From b449ef94f62d83281d8e1deda9d58af5008c808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 21/31] fix: a repetition with lower bound zero admits every
 count up to the upper bound

---
 nessaid_cli/compiler.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index d8cf6c8..f6c1a8f 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -221,17 +221,16 @@ class NessaidCliParser(NessaidCliParserCommon):
             return
         elif min_count == 0:
             if max_count == 1:
-                t[0] = OptionalInputElement((term,))
-                term.parent = t[0]
+                block = term
             else:
-                t0 = SequenceInputElement((term,))
-                term.parent = t0
-                term.position = 0
-                t0.repeat_count = max_count
-                t[0] = OptionalInputElement((t0,))
-                t0.parent = t[0]
+                block = self.repeat_term(term, 1, max_count)
+            t[0] = OptionalInputElement((block,))
+            block.parent = t[0]
             return
 
+        t[0] = self.repeat_term(term, min_count, max_count)
+
+    def repeat_term(self, term, min_count, max_count):
         term_copy = term.copy()
         if min_count == 1:
             block_1 = term
@@ -249,9 +248,10 @@ class NessaidCliParser(NessaidCliParserCommon):
         opt_block.parent = block_2
         opt_block.position = 0
 
-        t[0] = SequenceInputElement((block_1, block_2))
-        block_1.parent = t[0]
-        block_2.parent = t[0]
+        block = SequenceInputElement((block_1, block_2))
+        block_1.parent = block
+        block_2.parent = block
+        return block
 
     def p_repeater(self, t):
         """repeater : INTEGER
-- 
2.43.0


From 0df20f70267af3c9b16b034d428bbcc694b710d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 22/31] fix: a word with a backslash was written without
 quotes, so it could not be entered

---
 nessaid_cli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index f24ac9d..ce10a41 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -79,7 +79,7 @@ def convert_to_python_string(cli_string, cli=None):
 
 
 def convert_to_cli_string(python_string):
-    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"']):
+    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
         if python_string.startswith('"'):
             python_string = python_string[1:]
-- 
2.43.0


From 6311e905755cf1f20a399ea19af5c9afdef9d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:48 +0000
Subject: [PATCH 23/31] fix: quoted text with a character that cannot stand in
 quotes was split into several tokens

---
 nessaid_cli/tokenizer/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokenizer/tokenizer.py b/nessaid_cli/tokenizer/tokenizer.py
index 945ed35..3756638 100644
--- a/nessaid_cli/tokenizer/tokenizer.py
+++ b/nessaid_cli/tokenizer/tokenizer.py
@@ -59,7 +59,7 @@ class NessaidCliTokenizerLexer(StdStreamsHolder):
         return t
 
     def t_QUOTED_INCOMPLETE_STR(self, t):
-        r'(")(([^"\n\r\t\\\0])|((\\\\)|(\\)(0|n|r|t|b|v|a|")))*(\\)?'
+        r'(")(([^"\n\r\t\\\0])|((\\\\)|(\\)(0|n|r|t|b|v|a|")))*(\\)?\Z'
         t.value = TokenInputString(t.value, t.lexpos, len(t.value), quote_incomplete=True)
         return t
 
-- 
2.43.0


From 7d5bf7108e740112d1990687be9f70ac5bd70986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:41 +0000
Subject: [PATCH 24/31] fix: pass named arguments of a token declaration by
 name

---
 nessaid_cli/elements.py  | 7 ++++++-
 nessaid_cli/interface.py | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 23134ec..7c2d20c 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -493,7 +493,8 @@ class TokenClassDef():
 
     def __init__(self, classname, arglist):
         self._classname = classname
-        self._arglist = [arg.value for arg in arglist]
+        self._arglist = [arg.value for arg in arglist if arg.param_name is None]
+        self._kwargs = {arg.param_name: arg.value for arg in arglist if arg.param_name is not None}
 
     @property
     def classname(self):
@@ -503,6 +504,10 @@ class TokenClassDef():
     def arglist(self):
         return self._arglist
 
+    @property
+    def kwargs(self):
+        return self._kwargs
+
 
 class GrammarSpecification:
 
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index fab6edd..39fc651 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -452,7 +452,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in self._token_class_map:
                     try:
                         self._tokens[(name, helpstring)] = self._token_class_map[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
@@ -461,7 +461,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in _globals:
                     try:
                         self._tokens[(name, helpstring)] =  _globals[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
-- 
2.43.0


From 003c854036d9685d642e7f51034518d91a332721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:41 +0000
Subject: [PATCH 25/31] fix: a quoted text that is also the name of a declared
 token stands for itself

---
 nessaid_cli/elements.py  |  8 ++++++++
 nessaid_cli/interface.py | 38 ++++++++++++++++++++------------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 7c2d20c..65e6b68 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -585,6 +585,10 @@ class LookupToken():
     def name(self):
         return self._name
 
+    @property
+    def constant(self):
+        return isinstance(self._node.element, ConstantInputElement)
+
     @property
     def helpstring(self):
         return self._node.element.helpstring
@@ -818,6 +822,10 @@ class _EndOfInpuToken(LookupToken, CliToken):
 
     __instance = None
 
+    @property
+    def constant(self):
+        return False
+
     @property
     def completable(self):
         return False
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 39fc651..074838b 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -437,13 +437,15 @@ class CliInterface(StdStreamsHolder):
     def get_token_classes(self):
         return []
 
-    def get_token(self, name, helpstring=None):
+    def get_token(self, name, helpstring=None, constant=False):
         if not (isinstance(name, str) and name):
             raise ValueError("Expected valid token name")
 
-        if (name, helpstring) not in self._tokens:
+        token_key = (name, helpstring, constant)
+
+        if token_key not in self._tokens:
             self._token_miss += 1
-            tokendef = self._grammars.get_tokendef(name)
+            tokendef = None if constant else self._grammars.get_tokendef(name)
             if tokendef:
                 if self._token_class_map is None:
                     token_classes = self.get_base_token_classes() + self.get_token_classes()
@@ -451,25 +453,25 @@ class CliInterface(StdStreamsHolder):
 
                 if tokendef.classname in self._token_class_map:
                     try:
-                        self._tokens[(name, helpstring)] = self._token_class_map[tokendef.classname](
+                        self._tokens[token_key] = self._token_class_map[tokendef.classname](
                             name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
-                        return self._tokens[(name, helpstring)]
+                        return self._tokens[token_key]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
 
                 _globals = globals()
                 if tokendef.classname in _globals:
                     try:
-                        self._tokens[(name, helpstring)] =  _globals[tokendef.classname](
+                        self._tokens[token_key] =  _globals[tokendef.classname](
                             name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
-                        return self._tokens[(name, helpstring)]
+                        return self._tokens[token_key]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
-            self._tokens[(name, helpstring)] = self.create_cli_token(name, tokendef=tokendef, helpstring=helpstring)
+            self._tokens[token_key] = self.create_cli_token(name, tokendef=tokendef, helpstring=helpstring)
         else:
             self._token_hit += 1
 
-        return self._tokens[(name, helpstring)]
+        return self._tokens[token_key]
 
     def get_cli_hook(self, func_name):
         return func_name
@@ -723,7 +725,7 @@ class CliInterface(StdStreamsHolder):
                 if not c:
                     add_EOT = True
                     continue
-                next_tokens.add(self.get_token(c.name, c.helpstring))
+                next_tokens.add(self.get_token(c.name, c.helpstring, constant=c.constant))
             if add_EOT:
                 next_tokens.add(EndOfInpuToken)
             return await res.set_next_tokens(self, None if last_token_complete else cur_token_input, next_tokens)
@@ -749,7 +751,7 @@ class CliInterface(StdStreamsHolder):
                     self._matched_values = []
                     i = 0
                     for t in sequence:
-                        token = self.get_token(t.name)
+                        token = self.get_token(t.name, constant=t.constant)
                         value = await self.get_token_value(token, tok_list[i])
                         if value is not NullTokenValue:
                             self._matched_values.append(value)
@@ -758,7 +760,7 @@ class CliInterface(StdStreamsHolder):
                     self.error("Exception getting matched values:", type(e), e)
 
                 for c in choices:
-                    token = self.get_token(c.name)
+                    token = self.get_token(c.name, constant=c.constant)
                     if await self.match_token(token, cur_token_input) == MATCH_SUCCESS:
                         if await self.get_token_value(token, cur_token_input) is not NullTokenValue:
                             full_matches.append(sequence + [c])
@@ -770,13 +772,13 @@ class CliInterface(StdStreamsHolder):
 
                 completion = []
                 for p in partial_matches:
-                    token = self.get_token(p[-1].name)
+                    token = self.get_token(p[-1].name, constant=p[-1].constant)
                     if token.completable:
                         _n, comps = await self.complete_token(token, cur_token_input) # noqa
                         completion += comps
 
                 for p in partial_matches:
-                    token = self.get_token(p[-1].name)
+                    token = self.get_token(p[-1].name, constant=p[-1].constant)
                     if token.completable:
                         if completion:
                             if dry_run and not token_list and not last_token_complete:
@@ -836,7 +838,7 @@ class CliInterface(StdStreamsHolder):
                         self._matched_values = []
                         i = 0
                         for t in matching_sequence:
-                            token = self.get_token(t.name)
+                            token = self.get_token(t.name, constant=t.constant)
                             value = await self.get_token_value(token, tok_list[i])
                             if value is not NullTokenValue:
                                 self._matched_values.append(value)
@@ -892,7 +894,7 @@ class CliInterface(StdStreamsHolder):
                                 match_values = []
                                 self._matched_values = []
                                 for t in matching_sequences[0]:
-                                    token = self.get_token(t.name)
+                                    token = self.get_token(t.name, constant=t.constant)
                                     match_value = await self.get_token_value(token, tok_list[tok_index])
                                     match_values.append(match_value)
                                     self._matched_values.append(match_value)
@@ -970,7 +972,7 @@ class CliInterface(StdStreamsHolder):
                     toc_types = []
                     for j in range(seq_count):
                         toc = matching_sequences[j][i]
-                        token = self.get_token(toc.name)
+                        token = self.get_token(toc.name, constant=toc.constant)
                         match = await self.match_token(token, tok_list[i])
                         toc_types.append(match)
 
@@ -986,7 +988,7 @@ class CliInterface(StdStreamsHolder):
                     toc_types = []
                     for j in range(seq_count):
                         toc = matching_sequences[j][i]
-                        token = self.get_token(toc.name)
+                        token = self.get_token(toc.name, constant=toc.constant)
                         if token.completable:
                             toc_types.append(True)
                         else:
-- 
2.43.0


From 3ecdb03320735f04e50543852f3346500ec8fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:21 +0000
Subject: [PATCH 26/31] fix: keep the token classes of the built-in commands
 when get_token_classes is overridden

---
 nessaid_cli/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 0ae7321..b394eb8 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -37,6 +37,9 @@ class NessaidCmd(NessaidCli):
     the function. The global grammar definitions should go as the derived class's docstring
     """
 
+    def get_base_token_classes(self):
+        return [RangedIntToken, StringToken]
+
     def get_token_classes(self):
         return [RangedIntToken, StringToken]
 
-- 
2.43.0


From 2be0d10697cae8fe5b141a8509942618d7b8b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:02 +0000
Subject: [PATCH 27/31] fix: collect the grammars of base classes behind a
 class without one

---
 nessaid_cli/cmd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index b394eb8..8dee829 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -211,8 +211,6 @@ class NessaidCmd(NessaidCli):
                         grammar_texts.append(base_class.__doc__)
                 else:
                     break
-            else:
-                break
         grammar_texts = reversed(grammar_texts)
 
         if grammar_texts:
-- 
2.43.0


From 8d5c3a98358b9c5b5a622955758390a7fc7ec0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:00 +0000
Subject: [PATCH 28/31] fix: match a line with profiling on when a profiler is
 already active

---
 nessaid_cli/cmd.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 8dee829..e701945 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -433,9 +433,18 @@ class NessaidCmd(NessaidCli):
 
         start = time.time()
         if self._enable_profiling:
-            with cProfile.Profile() as pr:
+            pr = cProfile.Profile()
+            try:
+                pr.enable()
+            except ValueError:
+                # Only one profiler can be active. The active one covers this match also
+                pr = None
+            try:
                 res = await super().match(tok_list, dry_run, last_token_complete, arglist)
-            if self._enable_profiling and enable_profiling:
+            finally:
+                if pr:
+                    pr.disable()
+            if pr and self._enable_profiling and enable_profiling:
                 stats = pstats.Stats(pr, stream=self.stdout)
                 stats.sort_stats('cumtime')
                 stats.print_stats()
-- 
2.43.0


From 649184cbc5872fa138cc924baa91d6624a8caae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:36 +0000
Subject: [PATCH 29/31] fix: set the parent of a NessaidCli before its state is
 backed up

---
 nessaid_cli/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 3c0bb92..7f9fb15 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -61,6 +61,7 @@ class NessaidCli(CliInterface):
         enable_bell = False if enable_bell is not True else True
 
         self._history_size = history_size
+        self._parent = parent
 
         if not parent:
             self._readline = NessaidAsyncReadline(loop=self.loop, stdin=self.stdin, stdout=self.stdout, stderr=self.stderr)
@@ -75,7 +76,6 @@ class NessaidCli(CliInterface):
         self._complete_tokens_processor =  self.process_completion_tokens
 
         self._filename = filename
-        self._parent = parent
         self._completekey = completekey
         self._use_rawinput = use_rawinput
         self._completion_matches = []
-- 
2.43.0


From c4f7860bd945ae57c1fd44c1e4dbf0d7de120959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:00 +0000
Subject: [PATCH 30/31] fix: report a stray token in a grammar as a syntax
 error

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index f6c1a8f..f661773 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -693,7 +693,7 @@ class NessaidCliParser(NessaidCliParserCommon):
                         | QUOTED_INCOMPLETE_STR
                         | quoted_split_string"""
         print("Syntax error (Unused token)")
-        self.p_error(t)
+        self.p_error(t.slice[1])
 
     def parse(self, input_str):
         self.lexer.enter_state(NessaidCliLexer.INITIAL_STATE)
-- 
2.43.0


From 2a642f3f285d9419d888eea1b3daeb8c3f97d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:04 +0000
Subject: [PATCH 31/31] fix: a typed zero is the number zero, not a number not
 typed yet

An integer range answered "0" (and "-0") as if nothing had been typed: it
offered the numbers that do not begin with 0, took 0 for unfinished, and was
complete for 0 in a range of one other number. A lone minus offered 0.
---
 nessaid_cli/tokens.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 7b14efa..f667250 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -392,7 +392,7 @@ class RangedIntToken(CliToken):
                 if self._start >= 0:
                     return 0, []
                 if self._end >= 0:
-                    comp_args = [0, -self._start, 0]
+                    comp_args = [1, -self._start, 0]
                 else:
                     comp_args = [-self._end, -self._start, 0]
                 n, comps = await self._complete(*comp_args)
@@ -422,9 +422,12 @@ class RangedIntToken(CliToken):
                 except Exception:
                     return 0, []
 
-                if number < 0 or token_input.startswith("-"):
-                    if number == 0 and self._start == 0:
+                if number == 0:
+                    if self._start <= 0 <= self._end:
                         return 1, ["0"]
+                    return 0, []
+
+                if number < 0:
                     if self._start >= 0:
                         return 0, []
                     if self._end >= 0:
-- 
2.43.0

