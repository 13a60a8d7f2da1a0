From c00edf60385c544be3f548b29b99c0d2be7d99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 01/10] fix: match patterns whose mixed or last-dot sub-pieces
 are literal

---
 src/os_urlpattern/parsed_piece_view.py | 23 ++++++++++++++++++++---
 src/os_urlpattern/pattern_matcher.py   |  4 ++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..5f136f5 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -2,7 +2,8 @@
 """
 from __future__ import unicode_literals
 
-from .definition import DIGIT_AND_ASCII_RULE_SET, BasePatternRule
+from .definition import (DIGIT_AND_ASCII_RULE_SET, MIXED_RULE_SET,
+                         BasePatternRule)
 from .parse_utils import ParsedPiece, fuzzy_join, mix
 from .utils import pick
 
@@ -138,6 +139,23 @@ class FuzzyView(ParsedPieceView):
         return self._parsed_pieces
 
 
+def _last_dot_splitable(pattern_unit, ext_pattern_units):
+    """Whether the units around the last dot should be viewed as fuzzy.
+
+    If the unit before the dot mix the signs, it can only be matched with
+    LastDotSplitFuzzyView, otherwise LastDotSplitFuzzyView is only used when
+    the extension is a single sub-piece.
+    """
+    ext_rules = set()
+    for u in ext_pattern_units:
+        ext_rules.update(u.rules)
+    if ext_rules - DIGIT_AND_ASCII_RULE_SET:
+        return False
+    if len(pattern_unit.rules) > 1 and set(pattern_unit.rules) - MIXED_RULE_SET:
+        return True
+    return len(ext_pattern_units) == 1 and len(ext_rules) == 1
+
+
 def view_cls_from_pattern(pattern, is_last_path=False):
     """Get ParsedPieceView class from pattern.
 
@@ -169,11 +187,10 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 else:
                     view_cls = MultiView
         if is_last_path \
-                and len(pattern_units) == 3 \
                 and view_cls != PieceView \
                 and len(pattern_units[1].rules) == 1 \
                 and pick(pattern_units[1].rules) == BasePatternRule.DOT \
-                and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
+                and _last_dot_splitable(pattern_units[0], pattern_units[2:]):
             view_cls = LastDotSplitFuzzyView
 
     return view_cls
diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..440cfbe 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -156,8 +156,8 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
+    (LastDotSplitFuzzyView, MixedPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From a3ea68c23d395551d7c9069215303f36d228e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 02/10] fix: handle the backslash sign in piece length and
 pattern parsing

---
 src/os_urlpattern/parse_utils.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..667267c 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,10 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
                 elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
+                    idx += 1  # skip the escaped char
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
@@ -650,14 +649,13 @@ def parse_pattern_string(pattern_string):
                 last_rule = None
 
             idx_s = idx
-            while True:
-                idx = pattern_string.find(Symbols.BRACKETS_R, idx + 1)
-                if idx < 0:
-                    raise InvalidPatternException(
-                        "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
-                    continue
-                break
+            idx += 1
+            while idx < l and pattern_string[idx] != Symbols.BRACKETS_R:
+                # skip the escaped char
+                idx += 2 if pattern_string[idx] == Symbols.BACKSLASH else 1
+            if idx >= l:
+                raise InvalidPatternException(
+                    "Missing '%s'" % Symbols.BRACKETS_R)
             if idx + 1 < l:
                 if pattern_string[idx + 1] == Symbols.BRACES_L:
                     old_idx = idx + 2
-- 
2.43.0


From 43c479762ad852ba1801c83cbf9d39011163ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 03/10] fix: reject invalid chars in query keys

---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 667267c..d400a05 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -114,6 +114,8 @@ def normalize(raw_string, reserved_chars=None):
     frag = StringIO()
     last_c = None
     for c in raw_string:
+        if c not in CHAR_RULE_DICT:
+            raise InvalidCharException("Invalid char %r" % c)
         if c in ASCII_DIGIT_SET:
             if last_c and last_c not in ASCII_DIGIT_SET:
                 frag.seek(0)
-- 
2.43.0


From b4f787feec2b871757b3ba9028b49d81691632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 04/10] fix: reject empty and '#' only URL as irregular instead
 of IndexError

---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index d400a05..5b83806 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -168,11 +168,11 @@ def parse_url(url):
     """
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
-        if url[-1] != Symbols.NUMBER:
+        if url[-1:] != Symbols.NUMBER:
             fragment = None
-            if not query and url[-1] != Symbols.QUESTION:
+            if not query and url[-1:] != Symbols.QUESTION:
                 query = None
-        elif not query and url[-2] != Symbols.QUESTION:
+        elif not query and url[-2:-1] != Symbols.QUESTION:
             query = None
     elif not query:
         if url[len(url) - len(fragment) - 2] != Symbols.QUESTION:
-- 
2.43.0


From d4dafb2c252cef8d178f4d3b3534a911f7141b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 05/10] fix: keep all of the same length patterns when matching

---
 src/os_urlpattern/pattern_matcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 440cfbe..9703dac 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -92,7 +92,9 @@ class LengthPatternViewMatcher(ViewMatcher):
 
     def add_match_node(self, match_node):
         length = match_node.pattern.pattern_units[0].num
-        self._matchers[length] = [match_node]
+        if length not in self._matchers:
+            self._matchers[length] = []
+        self._matchers[length].append(match_node)
 
     def match(self, parsed_piece):
         return [] if parsed_piece.piece_length not in self._matchers \
-- 
2.43.0


From dd2222132b22136625d6c090b8666fac56c14736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 06/10] fix: reject URL pattern passed to PatternMatcher.match

---
 src/os_urlpattern/pattern_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 9703dac..98935dc 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -307,6 +307,8 @@ class PatternMatcher(object):
               Bound meta data can be accessed with node.meta.
         """
         url_meta, parsed_pieces = parse(url)
+        if isinstance(parsed_pieces[0], MatchPattern):
+            raise ValueError('Invalid URL')
         sid = fuzzy_digest(url_meta, parsed_pieces)
         if sid in self._matchers:
             return self._matchers[sid].match(parsed_pieces)
-- 
2.43.0


From f5945fc58d20a6645a7df973bd45b636b3690f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 07/10] fix: config file option works without
 ConfigParser.readfp

---
 src/os_urlpattern/cmdline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..aaf406c 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -91,7 +91,10 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            # readfp is not available since Python 3.12
+            read_config = getattr(self._config, 'read_file', None) \
+                or self._config.readfp
+            read_config(args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
-- 
2.43.0


From 032706ae932f33892c300bc9d1ce40088ccd2f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:09 +0000
Subject: [PATCH 08/10] fix: accept only ASCII digits as the number of a
 pattern unit
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'[a-z]{²}' raised ValueError and '[a-z]{٣}' was accepted although it is
not a number in the regular expression.
---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 5b83806..904c56e 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -8,7 +8,7 @@ from collections import namedtuple
 
 from .compat import ParseResult, StringIO, urlparse
 from .definition import (ASCII_DIGIT_SET, BLANK_TUPLE, CHAR_RULE_DICT,
-                         DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET,
+                         DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET, DIGIT_SET,
                          EMPTY_TUPLE, MIXED_RULE_SET,
                          QUERY_PART_RESERVED_CHARS, RULE_SET, SIGN_RULE_SET,
                          BasePatternRule, Symbols)
@@ -666,7 +666,7 @@ def parse_pattern_string(pattern_string):
                         raise InvalidPatternException(
                             "Missing '%s'" % Symbols.BRACES_R)
                     num_str = pattern_string[old_idx:idx]
-                    if not num_str.isdigit():
+                    if not num_str or set(num_str) - DIGIT_SET:
                         raise InvalidPatternException(
                             "Invalid num %r" % num_str)
 
@@ -722,7 +722,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not num_str or set(num_str) - DIGIT_SET:
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From 1233e93e3bf4bea67d15deae99b7600dc7f7e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:54 +0000
Subject: [PATCH 09/10] fix: Pattern.match accepted a newline after the end of
 the piece

'$' also matches before a trailing newline, so Pattern('abc').match('abc\n')
was true. Use \Z.
---
 src/os_urlpattern/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern.py b/src/os_urlpattern/pattern.py
index 060fbc6..b2f9a16 100644
--- a/src/os_urlpattern/pattern.py
+++ b/src/os_urlpattern/pattern.py
@@ -88,7 +88,7 @@ class Pattern(object):
     def match(self, piece):
         if not self._pattern_regex:
             self._pattern_regex = re.compile(
-                ''.join(('^', self.pattern_string, '$')))
+                ''.join(('^', self.pattern_string, '\\Z')))
         return True if re.match(self._pattern_regex, piece) else False
 
     @property
-- 
2.43.0


From d3078d1233b2cf40c3dd6d8d5f03562eab16c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:48 +0000
Subject: [PATCH 10/10] fix: empty query or fragment was lost in a URL with
 tabs or newlines

---
 src/os_urlpattern/parse_utils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 904c56e..12384f9 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -167,16 +167,13 @@ def parse_url(url):
         ParseResult: A 6-tuple, (scheme, netloc, path, params, query, fragment).
     """
     scheme, netloc, path, params, query, fragment = urlparse(url)
-    if not fragment:
-        if url[-1:] != Symbols.NUMBER:
-            fragment = None
-            if not query and url[-1:] != Symbols.QUESTION:
-                query = None
-        elif not query and url[-2:-1] != Symbols.QUESTION:
-            query = None
-    elif not query:
-        if url[len(url) - len(fragment) - 2] != Symbols.QUESTION:
-            query = None
+    # The length of the components is not reliable to find the delimiters,
+    # urlparse may remove tabs and newlines.
+    head, number, _ = url.partition(Symbols.NUMBER)
+    if not number:
+        fragment = None
+    if Symbols.QUESTION not in head:
+        query = None
     return ParseResult(scheme, netloc, path, params, query, fragment)
 
 
-- 
2.43.0

