From 61b360fc301e38cf0186fe400a051fd5b68c18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 01/51] fix: do not crash on bytes that cp1252 does not define

---
 asterisklint/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d14a1a4..3380343 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -98,7 +98,8 @@ class EncodingReader(object):
                 data = data.decode('utf-8')
             except UnicodeDecodeError:
                 E_FILE_UTF8_BAD(where)
-                data = data.decode('cp1252')  # or latin1? or 9?
+                # Five bytes are not defined in cp1252: replace those.
+                data = data.decode('cp1252', 'replace')  # or latin1? or 9?
             yield where, data
 
 
-- 
2.43.0


From 869270c4fb296f5868247a54e229d62c7975a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 02/51] fix: do not crash on a second [general] context

---
 asterisklint/dialplan.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 52983dc..137a00f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -117,10 +117,8 @@ class Dialplan(object):
 
     def add_general(self, general):
         if self._general:
+            # The varsets that follow are added to the first one.
             W_CONF_CTX_DUPE(general.where, previous=self._general.where)
-            # BEWARE: make sure we use a ref to the NEW context, because
-            # we may be appending to that object...!!
-            self._general.extend(general)
         else:
             if self._globals or self.contexts:
                 H_DP_GENERAL_MISPLACED(general.where)
@@ -584,7 +582,7 @@ class DialplanAggregator(ConfigAggregator):
     def on_context(self, context):
         if context.name == 'general':
             self._dialplan.add_general(context)
-            self._curcontext = context
+            self._curcontext = self._dialplan.general
         elif context.name == 'globals':
             self._dialplan.add_globals(context)
             self._curcontext = context
-- 
2.43.0


From 8b43e0e09da74e8c219655d9d4148f06dad0820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 03/51] fix: do not crash on a reopened context with a comment
 or template

---
 asterisklint/configobj.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 94f2f21..ff6b6d5 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -61,9 +61,7 @@ class Context(object):
 
     def update(self, othercontext):
         assert self.name == othercontext.name
-        assert not othercontext.comment
         self.where = othercontext.where  # or not?
-        assert not othercontext._templates
         assert not othercontext._varsets
 
     def add(self, varset):
-- 
2.43.0


From 9d667d02f1428e261e45e6518d44bcc9ab98b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 04/51] fix: report an exten without a priority instead of
 crashing

---
 asterisklint/dialplan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 137a00f..e04e226 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -471,7 +471,11 @@ class DialplanVarset(object):
         if varset.variable in ('exten', 'same'):
             expect_varset_arrow(varset)
             if varset.variable == 'exten':
-                pattern, rest = varset.value.split(',', 1)
+                try:
+                    pattern, rest = varset.value.split(',', 1)
+                except ValueError:
+                    E_DP_PRIO_MISSING(varset.where)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From 19a22909f36105999036eaed4173459448d807f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 05/51] fix: report an exten without a pattern instead of
 treating it as same

---
 asterisklint/dialplan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index e04e226..1c27d7c 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -476,6 +476,9 @@ class DialplanVarset(object):
                 except ValueError:
                     E_DP_PRIO_MISSING(varset.where)
                     return None
+                if not pattern:
+                    E_DP_PAT_MISSING(varset.where)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From 48b55aa97070fd7671e9fe1a5f48df9b770f7a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 06/51] fix: pass the label to the invalid label message

---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 1c27d7c..fa9a7cf 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -503,7 +503,7 @@ class DialplanVarset(object):
 
             if label is not None:
                 if not label.endswith(')'):
-                    E_DP_LABEL_INVALID(varset.where)
+                    E_DP_LABEL_INVALID(varset.where, label=label)
                     return None
                 label = label[0:-1]
                 # TODO: check label validity
-- 
2.43.0


From d342541a0b3c2800b14aa15c47ce5e0c80bbcf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 07/51] fix: do not crash on digits that are not decimals
 (superscripts)

---
 asterisklint/dialplan.py | 4 ++--
 asterisklint/varfun.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index fa9a7cf..a60b12c 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -448,7 +448,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdigit():
+            if isinstance(g_prio, str) and g_prio.isdecimal():
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -492,7 +492,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdigit():
+            elif prio.isdecimal():
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 28ade07..cf539d3 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -398,8 +398,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdigit() or
-                    (start[0] == '-' and start[1:].isdigit()))):
+                    start.isdecimal() or
+                    (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
                 start = length = None
@@ -410,8 +410,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdigit() or
-                    (length[0] == '-' and length[1:].isdigit()))):
+                    length.isdecimal() or
+                    (length[0] == '-' and length[1:].isdecimal()))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-- 
2.43.0


From 7337189525fa99b7654ad4897802948913740c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 08/51] fix: report bad patterns instead of crashing on a bad
 range

---
 asterisklint/dialplan.py |  3 +++
 asterisklint/pattern.py  | 14 +++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index a60b12c..6d549f3 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -511,6 +511,9 @@ class DialplanVarset(object):
                 label = None
 
             pattern = pattern and Pattern(pattern, varset.where) or None
+            if pattern and not pattern.is_valid:
+                E_DP_PAT_INVALID(varset.where)
+                return None
             app = App(app, varset.where)
             return Extension(pattern, prio, label, app, varset.comment,
                              varset.where)
diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 4615a2b..3ee37e0 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -141,8 +141,9 @@ class Pattern(object):
             elif num == 0x5b:           # '['
                 try:
                     range_end = raw.index(0x5d)  # ']'
-                except IndexError:
-                    # TODO: raise error!
+                except ValueError:
+                    range_end = 0
+                if not range_end:  # unterminated or empty range
                     ret.append((0x40000,))
                     return ret
                 ret.append(cls.parse_range_list(raw[0:range_end]))
@@ -158,7 +159,6 @@ class Pattern(object):
     @classmethod
     def parse_range_list(cls, rawlist):
         "Takes list, returns number."""
-        # TODO: check empty list?
         # TODO: complain about backslashes?
         # TODO: warn on [-0-9] (prefer [0-9-])
         usedlist = []
@@ -196,6 +196,14 @@ class Pattern(object):
 
         return (num,)
 
+    @property
+    def is_valid(self):
+        """
+        False if there is nothing to match or if there is a bad range.
+        """
+        return (self.values != (self.IS_A_PATTERN, (0x30000,)) and
+                self.values[-1] != (0x40000,))
+
     @property
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
-- 
2.43.0


From 018a4897d1d8d2548e83a833a8203c3e4e05f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 09/51] fix: do not crash on numbers that are too large for
 int()

---
 asterisklint/dialplan.py | 5 +++--
 asterisklint/varfun.py   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 6d549f3..d3c2f29 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -448,7 +448,8 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdecimal():
+            if (isinstance(g_prio, str) and g_prio.isdecimal() and
+                    len(g_prio) <= 30):
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -492,7 +493,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdecimal():
+            elif prio.isdecimal() and len(prio) <= 30:  # "%30d"
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index cf539d3..2098947 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -397,7 +397,7 @@ class VarLoader(metaclass=Singleton):
             if isinstance(start, Var):
                 # We cannot determine anything more from this.
                 pass
-            elif (start and (
+            elif (0 < len(start) <= 31 and (
                     start.isdecimal() or
                     (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
@@ -409,7 +409,7 @@ class VarLoader(metaclass=Singleton):
             if isinstance(length, Var):
                 # We cannot determine anything more from this.
                 pass
-            elif (length and (
+            elif (0 < len(length) <= 31 and (
                     length.isdecimal() or
                     (length[0] == '-' and length[1:].isdecimal()))):
                 length = int(length)
-- 
2.43.0


From 2159352000508b68fb0c1d90468803c3dd041ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:20 +0000
Subject: [PATCH 10/51] fix: do not loop forever on a Goto with more than three
 arguments

---
 asterisklint/app/vall/builtin.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 28409ad..4baf366 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -14,7 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import (
-    AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
+    E_APP_ARG_MANY, AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
     NoPipeDelimiterMixin, VarCondIfStyleApp)
 
 from asterisklint.varfun import VarLoader
@@ -74,10 +74,10 @@ class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
         args = super().__call__(data, where, jump_destinations)
 
         jumpdest = args[:]
-        while len(jumpdest) != 3:
+        while len(jumpdest) < 3:
             jumpdest.insert(0, None)
-        assert len(jumpdest) == 3
-        jump_destinations.append(tuple(jumpdest))
+        if len(jumpdest) == 3:  # the MinMaxArgsMixin warned already
+            jump_destinations.append(tuple(jumpdest))
 
         return args
 
@@ -90,10 +90,12 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
         for args in (iftrue, iffalse):
             if args:
                 jumpdest = self.separate_args(args)
-                while len(jumpdest) != 3:
+                while len(jumpdest) < 3:
                     jumpdest.insert(0, None)
-                assert len(jumpdest) == 3
-                jump_destinations.append(tuple(jumpdest))
+                if len(jumpdest) == 3:
+                    jump_destinations.append(tuple(jumpdest))
+                else:
+                    E_APP_ARG_MANY(where, app=self.name, max_args=3)
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From 3ce32f532767a55aadffba4fc1dd88fe90e7a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 11/51] fix: do not crash on (or follow) the branches of old
 style ExecIf/GotoIf

---
 asterisklint/app/vall/app_exec.py  | 2 +-
 asterisklint/app/vall/app_stack.py | 2 +-
 asterisklint/app/vall/builtin.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 2374939..d43d75d 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -46,7 +46,7 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
-        if iftrue:
+        if iftrue and not isinstance(iftrue, list):  # list: E_APP_ARG_IFSTYLE
             App(iftrue, where=where)
         if iffalse:
             App(iffalse, where=where)
diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index c81db78..1e80bc7 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -89,7 +89,7 @@ class GosubIf(VarCondIfStyleApp, _GosubMixin):
             data, where, jump_destinations)
 
         for args in (iftrue, iffalse):
-            if args:
+            if args and not isinstance(args, list):  # list: E_APP_ARG_IFSTYLE
                 jumpdest = self.separate_args(args)
                 jump_destinations.append(
                     self._gosub_args_to_destination(jumpdest, where))
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 4baf366..ebd902d 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -88,7 +88,7 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
             data, where, jump_destinations)
 
         for args in (iftrue, iffalse):
-            if args:
+            if args and not isinstance(args, list):  # list: E_APP_ARG_IFSTYLE
                 jumpdest = self.separate_args(args)
                 while len(jumpdest) < 3:
                     jumpdest.insert(0, None)
-- 
2.43.0


From 8ed5273b904d2e055798779ff8f0f813b8db55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 12/51] fix: ExecIf: do not crash on, or parse twice, the
 variables of the app

---
 asterisklint/application.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index cc069c8..88dc3fb 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -19,6 +19,7 @@ from .app import E_APP_MISSING
 from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .varfun import VarLoader, VarParseError
+from .variable import Var
 from .version import AsteriskVersion
 
 
@@ -155,20 +156,24 @@ class App(object):
         """
         Splits self.raw into self.app, self.app_lower, self.data.
         """
-        try:
-            app, data = self.raw.split('(', 1)
-        except ValueError:
-            # We allow NoOp without parentheses. The others need parens.
-            app = self.raw
-            if self.raw.lower() != 'noop':
-                W_APP_NEED_PARENS(self.where, app=app)
-            data = '()'
-        else:
-            data = '(' + str(data)  # data could be a Var; collapse for now
+        # We get a Var from the likes of ExecIf. Its variables have been
+        # parsed already, so we don't want it as a string.
+        chars = list(self.raw)
+        pos = chars.index('(') if '(' in chars else len(chars)
+        app, data = Var.join(chars[0:pos]), (chars[pos:] or ['(', ')'])
+
+        # Don't know which app this is? Then there is nothing to check.
+        if isinstance(app, Var):
+            return False
+
+        # We allow NoOp without parentheses. The others need parens.
+        if pos == len(chars) and app.lower() != 'noop':
+            W_APP_NEED_PARENS(self.where, app=app)
 
         # SOURCE: pbx/pbx_config.c: pbx_load_config()
-        if data.startswith('(') and data.endswith(')'):
+        if data[-1] == ')':
             data = data[1:-1]
+        data = Var.join(data)
 
         # Set it and try to find a handler for it.
         self.app = app
-- 
2.43.0


From c363070304aee24127fb9223d935163e7f1fa0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 13/51] fix: ExecIf: also check the destination of a Goto in
 ExecIf

---
 asterisklint/app/vall/app_exec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index d43d75d..66e9f17 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -46,10 +46,10 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
-        if iftrue and not isinstance(iftrue, list):  # list: E_APP_ARG_IFSTYLE
-            App(iftrue, where=where)
-        if iffalse:
-            App(iffalse, where=where)
+        for app in (iftrue, iffalse):
+            if app and not isinstance(app, list):  # list: E_APP_ARG_IFSTYLE
+                jump_destinations.extend(
+                    App(app, where=where).jump_destinations)
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From 6d4b5afcca09dcd178b74c236c75a8a452ecbb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 14/51] fix: do not crash on the empty variable and expression
 ${} and $[]

---
 asterisklint/expression.py | 2 +-
 asterisklint/variable.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 51cda58..652dee5 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -31,6 +31,6 @@ class Expr(Var):
         super().__init__(name=expression)
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '$[{}]'.format(self.name)
         return super().__str__()
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 8fab989..51283eb 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -79,7 +79,7 @@ class Var(object):
             Var('${number}23').could_match('123') == True
             Var('${user}@${domain}').could_match('somelabel') == False
         """
-        if self.name:  # this is a plain variable, it could match anything
+        if self.name is not None:  # this is a plain variable, it could match anything
             return True
 
         re_joined = ''.join(
@@ -168,13 +168,13 @@ class Var(object):
         return self.name == other.name
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
-        if self.name:
+        if self.name is not None:
             list_ = [self.name]  # [name]  # (start, length)
         else:
             list_ = self._list   # [contents...]  # (start, length)
@@ -226,7 +226,7 @@ class Var(object):
         return split_up
 
     def strip(self):
-        if self.name:
+        if self.name is not None:
             return self  # no (deep)copy?
 
         new_list = self._list[:]
-- 
2.43.0


From a056b653741757095a2dcd7f48e898ccab607fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 15/51] fix: pass the data to the dynamic function message

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 2098947..ddd7df3 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -168,7 +168,7 @@ class FuncLoader(metaclass=Singleton):
         if isinstance(func, Var):
             # We won't be able to match any real functions. And you
             # should get a big fat warning.
-            W_FUNC_DYNAMIC(where, func=func)
+            W_FUNC_DYNAMIC(where, data=func_and_args)
 
             if start is not None:
                 return ReadFuncSlice(func, args, start=start, length=length)
-- 
2.43.0


From 98dadf9e2379b0e4e84fbfaa5bd1eae79dc6caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 16/51] fix: do not crash on partially dynamic or empty
 function names

---
 asterisklint/varfun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index ddd7df3..029c3d0 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -135,9 +135,8 @@ class FuncLoader(metaclass=Singleton):
         # SOURCE: main/pbx.c -- ast_func_read2, func_args
         for i, char in enumerate(func_and_args):
             if char == '(':
-                func = func_and_args[0:i]
+                func = Var.join(func_and_args[0:i])
                 break
-        assert func  # we only get here if there is a '('
 
         # Search backwards for the trailing ')'.
         tail = ''
-- 
2.43.0


From ae3878300a497e29aeace985437899593902b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:41 +0000
Subject: [PATCH 17/51] fix: do not crash on a slice with a dynamic start and a
 fixed length

---
 asterisklint/varfun.py   | 4 +++-
 asterisklint/variable.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 029c3d0..2c46ce9 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -414,7 +414,9 @@ class VarLoader(metaclass=Singleton):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-                if length == 0 or (start < 0 and -length <= start):
+                if length == 0 or (
+                        not isinstance(start, Var) and
+                        start < 0 and -length <= start):
                     length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
             else:
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 51283eb..30a548d 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -252,7 +252,7 @@ class SliceMixin(object):
         super().__init__(*args, **kwargs)
         self.start = start
         self.length = length
-        if length is not None and isinstance(length, int):
+        if isinstance(length, int) and isinstance(start, int):
             assert length != 0
             if length < 0:
                 self._endpos = length
-- 
2.43.0


From 2955f52e9d3dc39d830a2689d4f19fc481b29cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 18/51] fix: do not crash on an assignment to a function
 without parentheses

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 2c46ce9..3996726 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -193,7 +193,7 @@ class FuncLoader(metaclass=Singleton):
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
             # argument."
-            args = ''
+            func, args = func_and_args, ''
 
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
-- 
2.43.0


From 6d9df7ca76b7a64b843e51e5a8e7b7698df4209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 19/51] fix: do not turn the arguments of a written function
 into a list

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 3996726..95c159a 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -188,7 +188,7 @@ class FuncLoader(metaclass=Singleton):
         if '(' in func_and_args:
             func, args = func_and_args.split('(', 1)
             assert args[-1] == ')'  # FIXME: warn, don't raise
-            args = args[0:-1]
+            args = Var.join(args[0:-1])
         else:
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
-- 
2.43.0


From d3e50ed3c3fa125a69cf2c39020f93f3ba8e2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 20/51] fix: do not crash on an assignment to a dynamic
 function

---
 asterisklint/varfun.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 95c159a..d425a77 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -195,6 +195,11 @@ class FuncLoader(metaclass=Singleton):
             # argument."
             func, args = func_and_args, ''
 
+        # We cannot look up a function if its name is dynamic.
+        if isinstance(func, Var):
+            W_FUNC_DYNAMIC(where, data=func_and_args)
+            return WriteFunc(func, args)
+
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
         loaded_func(args, where=where)
-- 
2.43.0


From 270961524f54fb65147f767973fe0f462df13798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 21/51] fix: do not crash on INC and DEC of a dynamic variable

---
 asterisklint/func/vall/func_math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asterisklint/func/vall/func_math.py b/asterisklint/func/vall/func_math.py
index 33077ea..999913d 100644
--- a/asterisklint/func/vall/func_math.py
+++ b/asterisklint/func/vall/func_math.py
@@ -15,6 +15,7 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import FuncBase
 from ...varfun import VarLoader
+from ...variable import Var
 
 
 class MATH(FuncBase):
@@ -28,7 +29,8 @@ class INC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if not isinstance(data, Var):
+            VarLoader().count_var(data, where)
         return ret
 
 
@@ -39,7 +41,8 @@ class DEC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if not isinstance(data, Var):
+            VarLoader().count_var(data, where)
         return ret
 
 
-- 
2.43.0


From 7a6af7d4ed49c083eb27026076b08b140ce858b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 22/51] fix: do not turn a dynamic Gosub priority into a list

---
 asterisklint/app/vall/app_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index 1e80bc7..a3e682f 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -62,7 +62,7 @@ class _GosubMixin:
                     args = prio[(i + 1):]
                 else:
                     args = prio[(i + 1):-1]
-                prio = prio[0:i]
+                prio = Var.join(prio[0:i])
                 break
 
         # FYI: The args are parsed by Asterisk using AST_STANDARD_RAW_ARGS.
-- 
2.43.0


From cae69de13738d1eac10b779efe610c9887e91eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 23/51] fix: do not recurse forever on circular dialplan
 includes

---
 asterisklint/dialplan.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index d3c2f29..c9f2b13 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -282,10 +282,16 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority):
+    def match_pattern(self, extension, priority, seen=None):
         """
         Find the best matching extension for the priority.
+
+        The seen set holds the contexts that we looked at already:
+        dialplan includes may be circular.
         """
+        seen = seen or set()
+        seen.add(self.name)
+
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
             if pattern.matches_extension(extension):
@@ -312,9 +318,10 @@ class DialplanContext(Context):
                 # warn about that somewhere else.
                 pass
             else:
-                ret = context.match_pattern(extension, priority)
-                if ret:
-                    return ret
+                if context.name not in seen:
+                    ret = context.match_pattern(extension, priority, seen)
+                    if ret:
+                        return ret
 
         # > If the location that is put into the channel
         # > information is bogus, and asterisk cannot find that
-- 
2.43.0


From 20c3393569d5f5c4ce15190c2bd0fb9411df4c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 24/51] fix: do not let a pattern match an extension that is
 longer

---
 asterisklint/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 3ee37e0..2585132 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -368,8 +368,10 @@ class Pattern(object):
             except IndexError:
                 return False  # extension is longer than pattern
 
-            if value[0] in (0x18000, 0x28000, 0x30000):
+            if value[0] in (0x18000, 0x28000):
                 return True
+            elif value[0] == 0x30000:
+                return False  # extension is longer than pattern
             elif len(value) == 2:
                 if char not in value[1]:
                     return False
-- 
2.43.0


From ce29726837c5bcd9e39e85ce2a080aef5a3d3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 25/51] fix: handle non-ASCII extensions as the bytes they are
 in the dialplan

---
 asterisklint/pattern.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 2585132..ee7ed5e 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -217,23 +217,21 @@ class Pattern(object):
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
             if self.values[0] == self.NOT_A_PATTERN:
-                # Hrm.. latin1 here.. not so nice.
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:]).decode('latin1')
+                ret = bytes((i[0] & 0xff) for i in self.values[1:])
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
                     self.values[-1] == (0x30000,)):
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:-1]).decode('latin1')
+                ret = bytes((i[0] & 0xff) for i in self.values[1:-1])
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
                 # up.
                 assert self.values[0] == self.IS_A_PATTERN
-                ret = ('_' + self._canonical_pattern_range(
-                    self.values[1:-1]).decode('latin1'))
-            self._canonical_pattern = ret
+                ret = b'_' + self._canonical_pattern_range(
+                    self.values[1:-1])
+            self._canonical_pattern = ret.decode(
+                'utf-8', 'surrogateescape')
         return self._canonical_pattern
 
     def _canonical_pattern_range(self, values):
@@ -337,32 +335,33 @@ class Pattern(object):
         """
         Generate an example value that matches pattern.
         """
-        ret = []
+        ret = bytearray()
         if self.values[0] == Pattern.NOT_A_PATTERN:
             for value in self.values[1:]:
                 assert len(value) == 1, self.values
-                ret.append(chr(value[0] & 0xff))
+                ret.append(value[0] & 0xff)
         elif self.values[0] == Pattern.IS_A_PATTERN:
             for value in self.values[1:]:
                 if value[0] == 0x18000:
-                    ret.append('0-123456789-333')  # 1+ chars
+                    ret.extend(b'0-123456789-333')  # 1+ chars
                 elif value[0] == 0x28000:
-                    ret.append('-123456789-333')  # 0+ chars
+                    ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
                 else:
-                    ret.append(chr(value[0] & 0xff))
+                    ret.append(value[0] & 0xff)
         else:
             assert False, self.values  # what pattern?
 
-        return ''.join(ret)
+        return ret.decode('utf-8', 'surrogateescape')
 
     def matches_extension(self, extension):
         """
         Check if the extension matches this pattern.
         """
         i = -1
-        for i, char in enumerate(extension.replace('-', '').encode('latin1')):
+        for i, char in enumerate(extension.replace('-', '').encode(
+                'utf-8', 'surrogateescape')):
             try:
                 value = self.values[i + 1]
             except IndexError:
-- 
2.43.0


From 4ba18bf80cf2af3890f89fa2cf99c564b999bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 26/51] fix: do not look up a dynamic slice or expression as if
 it were ${EXTEN}

---
 asterisklint/expression.py | 3 +++
 asterisklint/variable.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 652dee5..f7f2440 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -30,6 +30,9 @@ class Expr(Var):
     def __init__(self, expression=None):  # drop start and length args
         super().__init__(name=expression)
 
+    def format(self, **kwargs):
+        raise KeyError(str(self))  # not known until run time
+
     def __str__(self):
         if self.name is not None:
             return '$[{}]'.format(self.name)
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 30a548d..39fd36b 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -289,6 +289,9 @@ class VarDynSlice(Var):
         self.start = start
         self.length = length
 
+    def format(self, **kwargs):
+        raise KeyError(str(self))  # not known until run time
+
     def __str__(self):
         if self.length:
             return '${{{}:{}:{}}}'.format(
-- 
2.43.0


From cc07a9622e9bbf91feef61378aa7531f291402e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 27/51] fix: do not split inside a variable or expression
 (Set($[a=b]))

---
 asterisklint/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 39fd36b..4cf2499 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -175,7 +175,7 @@ class Var(object):
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
         if self.name is not None:
-            list_ = [self.name]  # [name]  # (start, length)
+            list_ = [self]       # [self]
         else:
             list_ = self._list   # [contents...]  # (start, length)
 
-- 
2.43.0


From 80cbc505cd7386b9d4b658171d76b54ebaefd015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 28/51] fix: do not show memory addresses of variables in
 messages

---
 asterisklint/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 4cf2499..2289ff5 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -172,6 +172,9 @@ class Var(object):
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
+    def __repr__(self):
+        return repr(str(self))  # used in messages
+
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
         if self.name is not None:
-- 
2.43.0


From 31271427fcde1dc45c02fc6117826b3132fb4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 29/51] fix: report circular #includes instead of reading them
 forever

---
 asterisklint/config.py | 10 ++++++++--
 asterisklint/file.py   |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 79ff51f..5f05cf4 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -45,6 +45,9 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
         # values.
         message = 'duplicate context found, in some cases it is legal'
 
+    class E_PP_INCLUDE_LOOP(ErrorDef):
+        message = 'the #include file {filename!r} is being read already'
+
     class W_PP_EXEC(WarningDef):
         message = 'using #exec is not recommended; command is {cmd!r}'
 
@@ -172,9 +175,12 @@ class ConfigParser(object):
             W_PP_EXEC(where, cmd=rest)
         elif cmd in ('#include', '#tryinclude'):
             error_if_not_exists = (cmd == '#include')
+            path = os.path.join(os.path.dirname(where.filename), rest)
+            if self.is_open(path):
+                E_PP_INCLUDE_LOOP(where, filename=rest)
+                return
             try:
-                self.include(os.path.join(os.path.dirname(where.filename),
-                                          rest))
+                self.include(path)
             except OSError:
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
diff --git a/asterisklint/file.py b/asterisklint/file.py
index 3380343..e014c42 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -13,6 +13,8 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+import os
+
 from .defines import ErrorDef, WarningDef
 from .where import Where
 
@@ -64,6 +66,10 @@ class BinFileReader(object):
 
         self._opener = opener
 
+    def is_open(self, filename):
+        return (os.path.normpath(filename) in
+                [os.path.normpath(i) for i in self._filenames])
+
     def include(self, filename):
         fp = self._opener(filename)
 
-- 
2.43.0


From 52ca23c7919549cfe26ae112b43d284623850f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 30/51] fix: report an #include with a NUL byte as missing

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 5f05cf4..63091ff 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -181,7 +181,7 @@ class ConfigParser(object):
                 return
             try:
                 self.include(path)
-            except OSError:
+            except (OSError, ValueError):  # ValueError for a NUL in path
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
 
-- 
2.43.0


From fcd8f184da02e8f8b0175dc4d2aae348594c71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 31/51] fix: report a single quote after #include as bad
 quoting

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 63091ff..017bec1 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -162,7 +162,7 @@ class ConfigParser(object):
             W_WSH_CTRL(where)
         rest = rest[idx:]
 
-        if rest[0] == '"' and rest[-1] == '"':
+        if len(rest) > 1 and rest[0] == '"' and rest[-1] == '"':
             rest = rest[1:-1]
         elif rest[0] == '<' and rest[-1] == '>':
             rest = rest[1:-1]
-- 
2.43.0


From ee6dd0177ee60bce8b486d38beb11c1f1c829090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:22 +0000
Subject: [PATCH 32/51] fix: mutator: find the target of relative and chained
 symlinks

---
 asterisklint/helper/mutator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 37c6566..903e760 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -61,10 +61,9 @@ class FileMutatorBase(object):
 
     def process_file(self, filename):
         # If filename is a symlink, process the target.
-        try:
-            disk_filename = os.readlink(filename)
-        except OSError:
-            disk_filename = filename
+        disk_filename = filename
+        if os.path.islink(filename):
+            disk_filename = os.path.realpath(filename)
 
         # Place the tempfile in the same dir, so renaming works
         # (same device).
-- 
2.43.0


From cdabbeb99954d13ac639024c66931d294008a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:23 +0000
Subject: [PATCH 33/51] fix: mutator: do not skip issues after a line with two
 issues

---
 asterisklint/helper/mutator.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 903e760..9469745 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -70,25 +70,20 @@ class FileMutatorBase(object):
         tempout = NamedTemporaryFile(
             dir=os.path.dirname(disk_filename), mode='wb', delete=False)
 
-        issues = self.issues_per_file[filename]
+        # One issue per line: a file could have been included twice.
+        issues = {}
+        for issue in self.issues_per_file[filename]:
+            issues.setdefault(issue.lineno, issue)
+
         try:
-            issueptr = 0
-            issue = issues[issueptr]
             with open(filename, 'rb') as file_:
                 for lineno, line in enumerate(file_):
-                    if issue and lineno == issue.lineno:
+                    if lineno in issues:
                         # Do actual work on the issue.
                         self.process_issue(
-                            issue=issue,
+                            issue=issues[lineno],
                             inline=line,
                             outfile=tempout)
-
-                        # Jump to the next issue.
-                        issueptr += 1
-                        if issueptr < len(issues):
-                            issue = issues[issueptr]
-                        else:
-                            issue = None
                     else:
                         tempout.write(line)
             tempout.flush()
-- 
2.43.0


From 77dd4dc5c1ce982a098e8c511600c034e4e97565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 34/51] fix: mutator: leave no temporary file behind if
 replacing fails

---
 asterisklint/helper/mutator.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 9469745..a78a053 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -87,23 +87,23 @@ class FileMutatorBase(object):
                     else:
                         tempout.write(line)
             tempout.flush()
-        except Exception:
+
+            # Update file permissions.
+            srcstat = os.stat(tempout.name)
+            dststat = os.stat(filename)
+            if (srcstat.st_uid != dststat.st_uid or
+                    srcstat.st_gid != dststat.st_gid):
+                os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
+            if srcstat.st_mode != dststat.st_mode:
+                os.chmod(tempout.name, dststat.st_mode)
+
+            print('Overwriting', disk_filename, '...')
+            os.rename(tempout.name, disk_filename)
+        except BaseException:
             os.unlink(tempout.name)
             raise
         finally:
             tempout.close()
 
-        # Update file permissions.
-        srcstat = os.stat(tempout.name)
-        dststat = os.stat(filename)
-        if (srcstat.st_uid != dststat.st_uid or
-                srcstat.st_gid != dststat.st_gid):
-            os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
-        if srcstat.st_mode != dststat.st_mode:
-            os.chmod(tempout.name, dststat.st_mode)
-
-        print('Overwriting', disk_filename, '...')
-        os.rename(tempout.name, disk_filename)
-
     def process_issue(self, issue, inline, outfile):
         raise NotImplementedError()
-- 
2.43.0


From 8ad32d5e9460001919f56fb173a47de358ace71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 35/51] fix: ident-scan: do not let the hash seed decide what
 is similar

---
 asterisklint/commands/ident-scan.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/asterisklint/commands/ident-scan.py b/asterisklint/commands/ident-scan.py
index 454325b..af372d8 100644
--- a/asterisklint/commands/ident-scan.py
+++ b/asterisklint/commands/ident-scan.py
@@ -59,10 +59,11 @@ class Main(MainBase):
             key=(lambda x: x.lower())))
         # TODO: dialplan.all_labels is not a public interface..
         labels_by_name = list(sorted(
-            dialplan.all_labels, key=(lambda x: x.lower())))
+            dialplan.all_labels, key=(lambda x: (x.lower(), x))))
         # TODO: loader._variables is *not* a public interface..
         varlist_by_name = list(sorted(
-            loader._variables.items(), key=(lambda x: x[0].lower())))
+            loader._variables.items(),
+            key=(lambda x: (x[0].lower(), x[0]))))
 
         if args.verbose:
             self.print_contexts(contexts_by_name)
@@ -109,9 +110,9 @@ class Main(MainBase):
 
     def print_distance(self, identifiers):
         id_by_name = sorted(
-            identifiers, key=(lambda x: x.lower()))
+            identifiers, key=(lambda x: (x.lower(), x)))
         id_by_len = sorted(
-            identifiers, key=(lambda x: (len(x), x.lower())))
+            identifiers, key=(lambda x: (len(x), x.lower(), x)))
 
         similar = defaultdict(set)
         for id_list in (id_by_name, id_by_len):
@@ -138,7 +139,7 @@ class Main(MainBase):
         if similar:
             print('Identifiers with similar names include:')
             for identifier in sorted(
-                    similar.keys(), key=(lambda x: x.lower())):
+                    similar.keys(), key=(lambda x: (x.lower(), x))):
                 similar_to = ', '.join(sorted(similar[identifier]))
                 print('  {:32}  [similar to: {}]'.format(
                     identifier, similar_to))
-- 
2.43.0


From 84ac5f4c6dc6e3291c49b21c215999cf3eaaad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 36/51] fix: web: do not keep state between requests

---
 asterisklint/cls.py | 7 +++++++
 web/wsgi.py         | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/asterisklint/cls.py b/asterisklint/cls.py
index 3d66efb..1233145 100644
--- a/asterisklint/cls.py
+++ b/asterisklint/cls.py
@@ -35,6 +35,13 @@ class Singleton(type):
     """
     _instances = {}
 
+    @staticmethod
+    def reset():
+        """
+        Drop all instances, for those that do more than one run.
+        """
+        Singleton._instances.clear()
+
     def __call__(cls, *args, **kwargs):
         if cls not in cls._instances:
             ret = cls._instances[cls] = super().__call__(*args, **kwargs)
diff --git a/web/wsgi.py b/web/wsgi.py
index 9896db9..b9f3579 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -6,6 +6,7 @@ from wsgiref.simple_server import WSGIRequestHandler, make_server
 
 from asterisklint import FileDialplanParser
 from asterisklint.alintver import version_str
+from asterisklint.cls import Singleton
 from asterisklint.defines import MessageDefManager
 
 
@@ -118,6 +119,10 @@ class DialplanCheck:
         # > handler is provided for the application/json media type.
         filename = 'extensions.conf'
 
+        # Do not keep anything of the previous request.
+        Singleton.reset()
+        MessageDefManager.reset()
+
         # {"files": {"FILENAME": "FILEDATA"}}
         filedata = req.media['files'][filename].encode('utf-8')
         opener = UploadedFileOpener(filename, filedata)
-- 
2.43.0


From ee5d05031db7946f823660c1d3b6ad9e1a441b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 37/51] fix: goto: do not let a variable label match "None"

---
 asterisklint/dialplan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index c9f2b13..bb0e35f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -306,7 +306,8 @@ class DialplanContext(Context):
                     # Is it a variable? Then format all unknowns as .*
                     # and attempt a regex match.
                     elif (priority.could_match(exten.prio) or
-                            priority.could_match(exten.label)):
+                            (exten.label and
+                             priority.could_match(exten.label))):
                         return exten
 
         # Nothing? Try our includes.
-- 
2.43.0


From 61e9a28c1fd7424fce0afd5953f55793b32ba3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:18 +0000
Subject: [PATCH 38/51] fix: goto: look for the label in included contexts too

---
 asterisklint/dialplan.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index bb0e35f..e62f7e0 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -276,11 +276,24 @@ class DialplanContext(Context):
                 sorted(list(set(i.pattern for i in self))))
         return self._sorted_patterns
 
-    def has_label(self, label):
+    def has_label(self, label, seen=None):
         """
-        Check whether the label is used anywhere in this context.
+        Check whether the label is used anywhere in this context or in a
+        context that it includes.
         """
-        return any(label in i['labels'] for i in self.pattern_cache.values())
+        seen = seen or set()
+        seen.add(self.name)
+
+        if any(label in i['labels'] for i in self.pattern_cache.values()):
+            return True
+
+        for include in self.includes:
+            context = self.dialplan.contexts_by_name.get(include.context_name)
+            if context and context.name not in seen:
+                if context.has_label(label, seen):
+                    return True
+
+        return False
 
     def match_pattern(self, extension, priority, seen=None):
         """
-- 
2.43.0


From b0649158ae8708be5de7d75a276f50498dc50536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 39/51] fix: keep the vertical whitespace state per opened file

---
 asterisklint/configws.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/asterisklint/configws.py b/asterisklint/configws.py
index 62d31f2..d223f87 100644
--- a/asterisklint/configws.py
+++ b/asterisklint/configws.py
@@ -31,19 +31,16 @@ class VswContext(object):
     """
     We need a separate context object to keep state per file. Because of
     how the parser works, we won't get any notifications about file
-    switches, other than that the "where" changes. This VswContext and
-    the VswContextStack keep track of the changes and of the
+    switches, other than that the opened files change. This VswContext
+    and the VswContextStack keep track of the changes and of the
     file-specific state.
     """
-    def __init__(self, where):
-        self.filename = where.filename
+    def __init__(self, file_):
+        self.file = file_
         self.bof = True
         self.blanks = []
         self.last_context_varsets = 0
 
-    def is_where(self, where):
-        return self.filename == where.filename
-
     def handle(self, element):
         if isinstance(element, EmptyLine):
             self.blanks.append(element)
@@ -146,22 +143,22 @@ class VswContext(object):
 
 
 class VswContextStack(list):
-    def handle(self, element):
-        if not self.is_on_stack(element.where):
-            self.append(VswContext(element.where))
-        else:
-            while not self[-1].is_where(element.where):
-                locontext = self.pop()
-                for delayed in locontext.handle_eof():
-                    yield delayed
-            assert self, 'eof of last file will not happen here'
+    def handle(self, element, files):
+        """
+        Handle element while having files open, where the last file is
+        the one that holds the element.
+        """
+        while len(self) > len(files) or (
+                self and self[-1].file is not files[len(self) - 1]):
+            locontext = self.pop()
+            for delayed in locontext.handle_eof():
+                yield delayed
+        while len(self) < len(files):
+            self.append(VswContext(files[len(self)]))
 
         for delayed in self[-1].handle(element):
             yield delayed
 
-    def is_on_stack(self, where):
-        return any(i.is_where(where) for i in reversed(self))
-
     def handle_eof(self):
         first = True
         while self:
@@ -184,7 +181,7 @@ class VerticalSpaceWarner(object):
         # stack.
         stack = VswContextStack()
         for element in super().__iter__():
-            for delayed in stack.handle(element):
+            for delayed in stack.handle(element, self._files):
                 yield delayed
         for delayed in stack.handle_eof():
             yield delayed
-- 
2.43.0


From f7c3cd8e77cc0987224a17ccc962a859c112a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 40/51] fix: do not crash on a control character around the
 equals sign

---
 asterisklint/configobj.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index ff6b6d5..c945c5b 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -85,15 +85,13 @@ class Context(object):
 
 class Varset(object):
     def __init__(self, variable, value, separator, comment, where):
-        clean_separator = separator.strip()
-        if clean_separator == '=>':
+        self.arrow = ('>' in separator)
+        if self.arrow:
             if separator != ' => ':
                 W_WSH_OBJSET(where)
-            self.arrow = True
-        elif clean_separator == '=':
+        else:
             if separator != '=':
                 W_WSH_VARSET(where)
-            self.arrow = False
 
         if variable.startswith(tuple(' \t')):
             # QUICK HACK: only allow leading WS for 'same'..
-- 
2.43.0


From df0679339e021448f2b26456a5e37c587eed4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 41/51] fix: let the example of a set with a dash be a number
 it matches

---
 asterisklint/pattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index ee7ed5e..353204a 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -348,6 +348,9 @@ class Pattern(object):
                     ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
+                elif value[0] & 0xff == 0x2d and value[0] >= 0x200:
+                    # Dashes are skipped when matching: use the next one.
+                    ret.append(value[1][1] if len(value) == 2 else 0x2e)
                 else:
                     ret.append(value[0] & 0xff)
         else:
-- 
2.43.0


From 232f479e55f01935552da55256733c84fc4f58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 42/51] fix: keep a closing bracket inside its range in
 canonical patterns

---
 asterisklint/pattern.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 353204a..7af824e 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -265,7 +265,7 @@ class Pattern(object):
                         start = num & 0xff
                         if length == 2:
                             ret.extend([0x5b, start, start + 1, 0x5d])
-                        elif length == 3:
+                        elif length == 3 and start != 0x5c:  # no ']'
                             ret.extend([0x5b, start, start + 1, start + 2,
                                         0x5d])
                         else:
@@ -283,9 +283,7 @@ class Pattern(object):
         dash = (0x2d in binstr)
         if dash:
             binstr.remove(0x2d)
-        if (0x5d in binstr):
-            binstr.remove(0x5d)
-            ret.append(0x5d)
+        # A ']' can only be in here as the inside of a range.
         ranges = self._canonical_pattern_get_ranges(binstr)
         # Reorder ranges: first numeric and alpha, and then the rest.
         # (Does this cause trouble if the dash is in a range?)
@@ -296,7 +294,7 @@ class Pattern(object):
             else:
                 assert len(range_) == 2
                 length = range_[1] - range_[0] + 1
-                if length <= 3:
+                if length <= 3 and range_[0] != 0x5c:  # no ']'
                     ret.extend([range_[0] + i for i in range(length)])
                 else:
                     ret.extend([range_[0], 0x2d, range_[1]])
-- 
2.43.0


From e08f695b99b81517a4d0b5268fd3a7df0f8b46c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:22 +0000
Subject: [PATCH 43/51] fix: list the commands even if one of them cannot be
 loaded

---
 asterisklint/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d1071e2..f7443ec 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -73,7 +73,8 @@ def list_commands(args, envs):
                         try:
                             command = load_command(
                                 command_name, os.path.join(command_dir, file_))
-                        except NoSuchCommand as e:
+                        except Exception as e:
+                            # No entrypoint, or it cannot be loaded.
                             command_desc = '(error: {})'.format(e)
                         else:
                             try:
-- 
2.43.0


From fbfb0e8eb69eb6daa293807ecd8a308e256000b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:51 +0000
Subject: [PATCH 44/51] fix: mutator: write a file once if it is included by
 several names

---
 asterisklint/helper/mutator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index a78a053..79adabd 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -56,7 +56,15 @@ class FileMutatorBase(object):
         print('Done')
 
     def process(self):
+        # A file may have been included by several names: write it once.
+        filenames = {}
         for filename in self.filenames:
+            first = filenames.setdefault(os.path.realpath(filename), filename)
+            if first != filename:
+                self.issues_per_file[first].extend(
+                    self.issues_per_file[filename])
+
+        for filename in sorted(filenames.values()):
             self.process_file(filename)
 
     def process_file(self, filename):
-- 
2.43.0


From 05970aebb9c7edccdc1bacb96c099337ec329c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 45/51] fix: convert: do not replace the exten and prio if they
 look like the data

---
 contrib/convert_dp_104_to_1100.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contrib/convert_dp_104_to_1100.py b/contrib/convert_dp_104_to_1100.py
index 199d854..3a7d271 100755
--- a/contrib/convert_dp_104_to_1100.py
+++ b/contrib/convert_dp_104_to_1100.py
@@ -67,7 +67,8 @@ class ConvertDp104To1100Mutator(FileMutatorBase):
             replacement = '{}?{}'.format(issue.cond, app_with_args)
             replacement = replacement.encode('utf-8')
 
-            outline = inline.replace(needle, replacement, 1)
+            # Include the parenthesis, lest we find the exten and prio.
+            outline = inline.replace(b'(' + needle, b'(' + replacement, 1)
             if inline == outline:
                 raise AssertionError(
                     "We did not replace anything in {!r} "
-- 
2.43.0


From e861f7bdb715868c7ca0f8a647e51e752d26c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 46/51] fix: make_patterns_canonical: do not end in an error on
 a set of bytes that is not a character

---
 contrib/make_patterns_canonical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contrib/make_patterns_canonical.py b/contrib/make_patterns_canonical.py
index 5cb19b3..c2b2b40 100755
--- a/contrib/make_patterns_canonical.py
+++ b/contrib/make_patterns_canonical.py
@@ -47,7 +47,8 @@ class Aggregator(object):
             Replacement(
                 lineno=(message.where.lineno - 1),  # 0-based
                 needle=message.fmtkwargs['pat'].encode('utf-8'),
-                replacement=message.fmtkwargs['expected'].encode('utf-8')))
+                replacement=message.fmtkwargs['expected'].encode(
+                    'utf-8', 'surrogateescape')))
 
 
 class MakePatternsCanonicalMutator(FileMutatorBase):
-- 
2.43.0


From 83b7047fdb379f3f002b3ed17613e999fa4342db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:42 +0000
Subject: [PATCH 47/51] fix: func_odbc: a NUL in a section name or prefix is no
 reason to crash

---
 asterisklint/func_odbc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index 5e67bad..712c649 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -46,6 +46,13 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 
 
 class FuncOdbcFunc(FuncBase):
+    def __init__(self, name):
+        self._name = name
+
+    @property
+    def name(self):
+        return self._name
+
     @property
     def module(self):
         # This would be correct automatically, since this module is
@@ -236,9 +243,7 @@ class OdbcFunction(Context):
 
     def finalize_register(self):
         # Register the custom function.
-        odbc_function_class = type(
-            self.get_function_name(), (FuncOdbcFunc,), {})
-        FuncLoader().register(odbc_function_class())
+        FuncLoader().register(FuncOdbcFunc(self.get_function_name()))
 
 
 class FuncOdbcAggregator(ConfigAggregator):
-- 
2.43.0


From d3224952d39f11a4a2c4ffe35636af4c6540b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:45 +0000
Subject: [PATCH 48/51] fix: an include of a file that is being read is a loop,
 whatever link leads to it

---
 asterisklint/file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index e014c42..7ca4350 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -67,8 +67,9 @@ class BinFileReader(object):
         self._opener = opener
 
     def is_open(self, filename):
-        return (os.path.normpath(filename) in
-                [os.path.normpath(i) for i in self._filenames])
+        # A directory or a file may have more than one name.
+        return (os.path.realpath(filename) in
+                [os.path.realpath(i) for i in self._filenames])
 
     def include(self, filename):
         fp = self._opener(filename)
-- 
2.43.0


From 2c5534435d7ead60db8be9a55818c6f07c3acb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:46 +0000
Subject: [PATCH 49/51] fix: ls: a directory that is called like a command does
 not hide the command

---
 asterisklint/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index f7443ec..a4079f3 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -67,7 +67,10 @@ def list_commands(args, envs):
             pass
         else:
             for file_ in files:
-                if file_.endswith('.py') and COMMAND_RE.match(file_[0:-3]):
+                # A directory is skipped like load_command skips it.
+                if (file_.endswith('.py') and
+                        COMMAND_RE.match(file_[0:-3]) and
+                        os.path.isfile(os.path.join(command_dir, file_))):
                     command_name = file_[0:-3]
                     if command_name not in commands_used:
                         try:
-- 
2.43.0


From 49881ca01d3f9d7110177cf9749f3aaebd4389b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:27 +0000
Subject: [PATCH 50/51] fix: let readers that look ahead know the file of a
 line

---
 asterisklint/configws.py | 10 ++++------
 asterisklint/file.py     |  5 ++++-
 asterisklint/where.py    |  4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/asterisklint/configws.py b/asterisklint/configws.py
index d223f87..c293696 100644
--- a/asterisklint/configws.py
+++ b/asterisklint/configws.py
@@ -143,11 +143,9 @@ class VswContext(object):
 
 
 class VswContextStack(list):
-    def handle(self, element, files):
-        """
-        Handle element while having files open, where the last file is
-        the one that holds the element.
-        """
+    def handle(self, element):
+        files = element.where.files
+
         while len(self) > len(files) or (
                 self and self[-1].file is not files[len(self) - 1]):
             locontext = self.pop()
@@ -181,7 +179,7 @@ class VerticalSpaceWarner(object):
         # stack.
         stack = VswContextStack()
         for element in super().__iter__():
-            for delayed in stack.handle(element, self._files):
+            for delayed in stack.handle(element):
                 yield delayed
         for delayed in stack.handle_eof():
             yield delayed
diff --git a/asterisklint/file.py b/asterisklint/file.py
index 7ca4350..05fcdec 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -80,6 +80,7 @@ class BinFileReader(object):
         self._files.append(fp)
         self._generators.append(enumerate(fp))
         self._filenames.append(fp.name)
+        self._files_tuple = tuple(self._files)
 
     def __iter__(self):
         while self._generators:
@@ -91,8 +92,10 @@ class BinFileReader(object):
                 self._files.pop()
                 self._generators.pop()
                 self._filenames.pop()
+                self._files_tuple = tuple(self._files)
             else:
-                yield Where(self._filenames[-1], i + 1, line), line
+                yield Where(self._filenames[-1], i + 1, line,
+                            self._files_tuple), line
 
 
 class EncodingReader(object):
diff --git a/asterisklint/where.py b/asterisklint/where.py
index 7da7e08..7b684ea 100644
--- a/asterisklint/where.py
+++ b/asterisklint/where.py
@@ -16,10 +16,12 @@
 
 
 class Where(object):
-    def __init__(self, filename, lineno, line):
+    def __init__(self, filename, lineno, line, files=()):
         self.filename = filename  # shared constant in CPython, so cheap
         self.lineno = lineno
         self.line = line
+        # The files that were open here, innermost last (shared as well).
+        self.files = files
 
     def __str__(self):
         return '%s:%d' % (self.filename, self.lineno)
-- 
2.43.0


From da92894f8bd506cc910d2788364b08ebd0414eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:59 +0000
Subject: [PATCH 51/51] fix: let a later context replace an earlier one in vg
 configs as intended

---
 contrib/commands/vg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 88a19df..7496402 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -155,10 +155,8 @@ class VoipgridFileConfigParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileConfigParser = VoipgridFileConfigParser  # noqa
@@ -192,10 +190,8 @@ class VoipgridFileFuncOdbcParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileFuncOdbcParser = VoipgridFileFuncOdbcParser  # noqa
-- 
2.43.0

