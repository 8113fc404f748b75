From b5e6569c070fbcb35091c30fa80b4a190041feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 01/35] fix: slice subshapes follow Python slicing (empty,
 clamped and reversed slices)

---
 datashape/coretypes.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..82062fb 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -11,8 +11,6 @@ import sys
 import ctypes
 import operator
 
-from math import ceil
-
 import datashape
 
 import numpy as np
@@ -673,28 +671,16 @@ class DataShape(Mono):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-                n = int(self[0])
-                start = index.start or 0
-                stop = index.stop or n
-                if start < 0:
-                    start = n + start
-                if stop < 0:
-                    stop = n + stop
-                count = stop - start
+                count = len(range(*index.indices(int(self[0]))))
             else:
                 start = index.start or 0
                 stop = index.stop
-                if not stop:
-                    count = -start if start < 0 else var
-                if (stop is not None and start is not None and stop >= 0 and
-                        start >= 0):
-                    count = stop - start
+                step = 1 if index.step is None else index.step
+                if stop is not None and start >= 0 and stop >= 0 and step >= 0:
+                    count = len(range(start, stop, step))
                 else:
                     count = var
 
-            if count != var and index.step is not None:
-                count = int(ceil(count / index.step))
-
             return count * self.subarray(1)
         if isinstance(index, tuple):
             if not index:
-- 
2.43.0


From 41254913742148cbe086659aa17aeb7dd3399318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 02/35] fix: lexer splits names that start with True or False

---
 datashape/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index b3e1935..d88704d 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -21,7 +21,7 @@ def _str_val(s):
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-    ('BOOLEAN',    r'True|False', ast.literal_eval),
+    ('BOOLEAN',    r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
     ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),
-- 
2.43.0


From 891789aa9dd73a200b616eeeac129ae82fae4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 03/35] fix: field names 'True', 'False' and names ending in a
 newline are printed unquoted

---
 datashape/internal_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 701d2a9..8fe2de2 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -6,7 +6,6 @@ Do not import datashape modules into this module.  See util.py in that case
 
 from __future__ import print_function, division, absolute_import
 
-import keyword
 import re
 
 
@@ -119,5 +118,6 @@ def groupby(func, seq):
 
 
 def isidentifier(s):
-    return (keyword.iskeyword(s) or
-            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
+    # True and False are lexed as booleans
+    return (s not in ('True', 'False') and
+            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
-- 
2.43.0


From fd553c344bb89635d77d8c8af1fa67816efc4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 04/35] fix: the documented types bytes and char cannot be
 parsed

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 1032100..94bff68 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -72,6 +72,8 @@ no_constructor_types = [
     ('real', ct.float64),
     ('complex', ct.complex_float64),
     ('string', ct.string),
+    ('char', ct.char),
+    ('bytes', ct.bytes_),
     ('json', ct.json),
     ('date', ct.date_),
     ('time', ct.time_),
-- 
2.43.0


From cf07aa13c8916ddc6649449f353e0b56fa269cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 05/35] fix: validation does not look inside records and tuples

---
 datashape/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/validation.py b/datashape/validation.py
index 4339b40..f2cb4e8 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -23,6 +23,9 @@ def traverse(f, t):
     """
     if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
         return f(t, [traverse(f, p) for p in t.parameters])
+    if isinstance(t, tuple):
+        # the fields of a record, the elements of a tuple
+        return tuple([traverse(f, p) for p in t])
     return t
 
 
-- 
2.43.0


From 29497a03acae8e0a116f8319e1212fb07a70c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 06/35] fix: invalid string parameters raise UnboundLocalError
 or are accepted

---
 datashape/coretypes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 82062fb..262ba4d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -379,15 +379,20 @@ class String(Unit):
     __slots__ = 'fixlen', 'encoding'
 
     def __init__(self, *args):
+        if len(args) > 2:
+            raise TypeError('string datashape takes at most two parameters')
         if len(args) == 0:
             fixlen, encoding = None, None
-        if len(args) == 1:
+        elif len(args) == 1:
             if isinstance(args[0], _strtypes):
                 fixlen, encoding = None, args[0]
-            if isinstance(args[0], _inttypes):
+            else:
                 fixlen, encoding = args[0], None
-        if len(args) == 2:
+        else:
             fixlen, encoding = args
+        if fixlen is not None and not isinstance(fixlen, _inttypes):
+            raise TypeError('fixlen parameter to string datashape must be an '
+                            'integer')
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From e628eae366bc0e07dbff0f4479f2632b24c9b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 07/35] fix: normalize_time_unit raises IndexError and strips
 too many s

---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 262ba4d..1fcde05 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -297,8 +297,8 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s[-1] == 's' and len(s) > 2:
-        return normalize_time_unit(s.rstrip('s'))
+    if len(s) > 2 and s[-1] == 's':
+        return normalize_time_unit(s[:-1])
 
     raise ValueError("Do not understand time unit %s" % s)
 
-- 
2.43.0


From c7d521569f9f91cbf7f33510dd12bf82c44dc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 08/35] fix: discover raises OverflowError on text like '1e300
 days'

---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..4184155 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -180,7 +180,7 @@ def discover(s):
     for f in string_coercions:
         try:
             return discover(f(s))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, OverflowError):
             pass
 
     # don't let dateutil parse things like sunday, monday etc into dates
-- 
2.43.0


From 01fde573b17f9623e065d01831f7ecb79be5b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 09/35] fix: assert_dshape_equal accepts shapes of different
 rank

---
 datashape/util/testing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index f8fc5ea..d463d4a 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -74,6 +74,16 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
         path = ()
 
     if check_dim:
+        if len(ashape) != len(bshape):
+            raise AssertionError(
+                'numbers of dimensions do not match: %d != %d\n%s != %s\n%s' % (
+                    len(ashape),
+                    len(bshape),
+                    ' * '.join(map(str, ashape)),
+                    ' * '.join(map(str, bshape)),
+                    _fmt_path(path),
+                ),
+            )
         for n, (adim, bdim) in enumerate(zip(ashape, bshape)):
             if adim != bdim:
                 path += '.shape[%d]' % n,
-- 
2.43.0


From d2547ee0cbb14aa18c525431f36b96e780a53efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 10/35] fix: assert_dshape_equal raises AttributeError on units

---
 datashape/util/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index d463d4a..04e4430 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -164,8 +164,8 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
     )
 
-    path.append('.tp')
-    assert_dshape_equal(a.tp, b.tp, **kwargs)
+    path += '.tp',
+    assert_dshape_equal(a.tp, b.tp, path=path, **kwargs)
 
 
 @dispatch(String, String)
-- 
2.43.0


From 04756276699a035a2c5c9e8478469a3f64de0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 11/35] fix: assert_dshape_equal raises TypeError when only one
 string has a fixlen

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 04e4430..4235b96 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -185,7 +185,7 @@ def assert_dshape_equal(a,
 
     if check_str_fixlen:
         assert a.fixlen == b.fixlen, \
-            'string fixlens do not match: %d != %d\n%s' % (
+            'string fixlens do not match: %s != %s\n%s' % (
                 a.fixlen, b.fixlen, _fmt_path(path + ('.fixlen',)),
             )
 
-- 
2.43.0


From 2d9afd3a0b1c58e8928b121c3034d89edc5bbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 12/35] fix: collect fails on terms without subterms

---
 datashape/util/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9af40a8..37820f5 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -108,6 +108,7 @@ def collect(pred, expr):
         return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)
     if isinstance(expr, (list, tuple)):
         return chain.from_iterable(collect(pred, item) for item in expr)
+    return []
 
 
 def has_var_dim(ds):
-- 
2.43.0


From 16cfcce300c80f21f98a9cedfa09e0df2c7169f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 13/35] fix: isfixed overlooks ellipses and variable dimensions
 in tuples and options

---
 datashape/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8d99b04..a7887b6 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -100,10 +100,14 @@ def isfixed(ds):
     ds = dshape(ds)
     if isinstance(ds[0], TypeVar):
         return None  # don't know
-    if isinstance(ds[0], Var):
+    if isinstance(ds[0], (Var, Ellipsis)):
         return False
     if isinstance(ds[0], Record):
         return all(map(isfixed, ds[0].types))
+    if isinstance(ds[0], Tuple):
+        return all(map(isfixed, ds[0].dshapes))
+    if isinstance(ds[0], Option):
+        return isfixed(ds[0].ty)
     if len(ds) > 1:
         return isfixed(ds.subarray(1))
     return True
-- 
2.43.0


From 73da98edffddb0004b24c21558847ca9d6e27792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 14/35] fix: a sequence with too few or too many items
 validates against a record

---
 datashape/user.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/user.py b/datashape/user.py
index c6b42be..d93fff8 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -45,8 +45,9 @@ def validate(schema, d):
 
 @dispatch(Record, (tuple, list))
 def validate(schema, seq):
-    return all(validate(sch, item) for (k, sch), item
-                                    in zip(schema.parameters[0], seq))
+    return (len(seq) == len(schema.parameters[0]) and
+            all(validate(sch, item) for (k, sch), item
+                                    in zip(schema.parameters[0], seq)))
 
 
 @dispatch(str, object)
-- 
2.43.0


From 853390cf657e94d28d8cccf2e80bf5fce316bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 15/35] fix: discovering records with different fields loses
 fields

---
 datashape/discovery.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 4184155..6ea7070 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -294,10 +294,11 @@ def unite_base(dshapes):
         good_dshapes = bynull[False]
     except KeyError:
         return len(dshapes) * null
+    base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
         base = lowest_common_dshape(good_dshapes)
-    elif (all(isinstance(ds, Record) for ds in good_dshapes) and
-          ds.names == dshapes[0].names for ds in good_dshapes):
+    elif all(isinstance(ds, Record) and ds.names == good_dshapes[0].names
+             for ds in good_dshapes):
         names = good_dshapes[0].names
         base = Record([[name,
                         unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
-- 
2.43.0


From 87ceb698f67ea870e909807eac11f07b92c0744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 16/35] fix: a fixed dimension equals an integer but hashes
 differently

---
 datashape/coretypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 1fcde05..eb8e1d9 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -840,7 +840,8 @@ class Fixed(Unit):
         return (type(other) is Fixed and self.val == other.val or
                 isinstance(other, _inttypes) and self.val == other)
 
-    __hash__ = Mono.__hash__
+    def __hash__(self):
+        return hash(self.val)
 
     def __str__(self):
         return str(self.val)
-- 
2.43.0


From f54d6b7db54c159ba58c5916202ae88657723ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 17/35] fix: struct drops field names or types without a
 partner

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 94bff68..520ac76 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -27,6 +27,8 @@ def _complex(tp):
 
 def _struct(names, dshapes):
     """Simple temporary type constructor for struct"""
+    if len(names) != len(dshapes):
+        raise TypeError('struct needs as many field types as field names')
     return ct.Record(list(zip(names, dshapes)))
 
 
-- 
2.43.0


From 029524868a5133cef003e6a8992493f7d507b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 18/35] fix: printed names, time zones, units and categories
 contain escapes the lexer rejects

---
 datashape/coretypes.py      | 15 ++++++++-------
 datashape/internal_utils.py | 25 +++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index eb8e1d9..2763275 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -23,7 +23,7 @@ from .py2help import (
     unicode,
     with_metaclass,
 )
-from .internal_utils import IndexCallable, isidentifier
+from .internal_utils import IndexCallable, isidentifier, string_literal
 
 
 # Classes of unit types.
@@ -236,7 +236,7 @@ class Time(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, string_literal(str(self.tz)))
 
 
 class DateTime(Unit):
@@ -257,7 +257,7 @@ class DateTime(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, string_literal(str(self.tz)))
 
     def to_numpy_dtype(self):
         return np.dtype('datetime64[us]')
@@ -336,9 +336,9 @@ class Units(Unit):
 
     def __str__(self):
         if self.tp == DataShape(float64):
-            return 'units[%r]' % (self.unit)
+            return 'units[%s]' % string_literal(self.unit)
         else:
-            return 'units[%r, %s]' % (self.unit, self.tp)
+            return 'units[%s, %s]' % (string_literal(self.unit), self.tp)
 
 
 class Bytes(Unit):
@@ -1087,7 +1087,8 @@ R = Record  # Alias for record literals
 
 def _format_categories(cats, n=10):
     return '[%s%s]' % (
-        ', '.join(map(repr, cats[:n])),
+        ', '.join(string_literal(cat) if isinstance(cat, _strtypes) else
+                  repr(cat) for cat in cats[:n]),
         ', ...' if len(cats) > n else ''
     )
 
@@ -1413,7 +1414,7 @@ def pprint(ds, width=80):
 
     if isinstance(ds, Record):
         pairs = ['%s: %s' % (name if isidentifier(name) else
-                             repr(print_unicode_string(name)),
+                             string_literal(print_unicode_string(name)),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
         short = '{%s}' % ', '.join(pairs)
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 8fe2de2..252583a 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -117,6 +117,31 @@ def groupby(func, seq):
     return d
 
 
+def _lexable_escape(match):
+    code = match.group(1)
+    if code == '\\':
+        return '\\u005c'
+    elif code[0] == 'x':
+        return '\\u00' + code[1:]
+    elif code[0] == 'U':
+        return match.group().encode('ascii').decode('unicode_escape')
+    return match.group()
+
+
+def string_literal(s):
+    """ The string literal that the datashape lexer reads as ``s``
+
+    Python's repr uses escapes which the lexer does not accept.
+
+    >>> print(string_literal('field 0'))
+    'field 0'
+    >>> print(string_literal('C:' + chr(92)))
+    'C:\\u005c'
+    """
+    return re.sub(r'\\(x[0-9a-f]{2}|U[0-9a-f]{8}|.)', _lexable_escape,
+                  repr(s).lstrip('u'))
+
+
 def isidentifier(s):
     # True and False are lexed as booleans
     return (s not in ('True', 'False') and
-- 
2.43.0


From 4ab88f7078318203b3bd0d1c61263b2546d4def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 19/35] fix: an option of an option prints as text that cannot
 be parsed

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 2763275..f975c86 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -729,6 +729,9 @@ class Option(Mono):
         return self.ty.itemsize
 
     def __str__(self):
+        # the question mark cannot be repeated
+        if isinstance(self.ty, Option):
+            return 'option[%s]' % self.ty
         return '?%s' % self.ty
 
     def to_numpy_dtype(self):
-- 
2.43.0


From b4cf8da3dd231b8faf9c85e4a335d3e822810428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 20/35] fix: a dimension without an asterisk is silently
 dropped

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 2cd5080..488f66e 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -166,6 +166,8 @@ class DataShapeParser(object):
                     self.pos = saved_pos
                     self.raise_error('Expected a dim or a dtype')
                 return coretypes.DataShape(dim, *dshape.parameters)
+            # Otherwise it is not a dim, start over
+            self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
         if dtype:
-- 
2.43.0


From c7eed9dcd73789a7698fb2534bf5a757719a20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 21/35] fix: a question mark without a datashape is silently
 skipped

---
 datashape/parser.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/datashape/parser.py b/datashape/parser.py
index 488f66e..a2713eb 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -135,14 +135,17 @@ class DataShapeParser(object):
             self.advance_tok()
             saved_pos = self.pos
             ds = self.parse_datashape_nooption()
-            if ds is not None:
-                # Look in the dtype symbol table for the option type constructor
-                option = self.syntactic_sugar(self.sym.dtype_constr,
-                                              constructors[tok.id],
-                                              '%s dtype construction' %
-                                              constructors[tok.id],
-                                              saved_pos - 1)
-                return coretypes.DataShape(option(ds))
+            if ds is None:
+                # Without this the token would be skipped
+                self.pos = saved_pos
+                self.raise_error('Expected a datashape')
+            # Look in the dtype symbol table for the option type constructor
+            option = self.syntactic_sugar(self.sym.dtype_constr,
+                                          constructors[tok.id],
+                                          '%s dtype construction' %
+                                          constructors[tok.id],
+                                          saved_pos - 1)
+            return coretypes.DataShape(option(ds))
         else:
             return self.parse_datashape_nooption()
 
-- 
2.43.0


From 00106713db72cbf7bc99548194570ccb09b6ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 22/35] fix: an option of an array equals an array of that
 option

---
 datashape/coretypes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f975c86..c74305e 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -67,6 +67,9 @@ class Mono(with_metaclass(Type, object)):
 
     composite = False
 
+    # The dimensions in front of the measure
+    _dims = ()
+
     def __init__(self, *params):
         self._parameters = params
 
@@ -86,7 +89,7 @@ class Mono(with_metaclass(Type, object)):
 
     def __eq__(self, other):
         return (isinstance(other, Mono) and
-                self.shape == other.shape and
+                self._dims == other._dims and
                 self.measure.info() == other.measure.info())
 
     def __ne__(self, other):
@@ -96,7 +99,7 @@ class Mono(with_metaclass(Type, object)):
         try:
             h = self._hash
         except AttributeError:
-            h = self._hash = hash(self.shape) ^ hash(self.measure.info())
+            h = self._hash = hash(self._dims) ^ hash(self.measure.info())
         return h
 
     @property
@@ -588,6 +591,8 @@ class DataShape(Mono):
     def shape(self):
         return self.parameters[:-1]
 
+    _dims = shape
+
     @property
     def measure(self):
         return self.parameters[-1]
-- 
2.43.0


From 101e00e85ea2158ad27302becd90c2d848deccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 23/35] fix: maxtype and supertype raise KeyError on records

---
 datashape/typesets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..6f924a0 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -161,7 +161,7 @@ def supertype(measure):
     """
     if isinstance(measure, Option):
         measure = measure.ty
-    assert matches_typeset(measure, scalar), 'measure must be numeric'
+    assert measure in scalar, 'measure must be numeric'
     return supertype_map[measure]
 
 
@@ -195,7 +195,7 @@ def maxtype(measure):
     isoption = isinstance(measure, Option)
     if isoption:
         measure = measure.ty
-    if (not matches_typeset(measure, scalar) and
+    if (measure not in scalar and
         not isinstance(measure, (Decimal, TimeDelta))):
 
         raise TypeError('measure must be numeric')
-- 
2.43.0


From bc532ceb781a77d7dbab7d9a1a061a28d80bfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 24/35] fix: from_numpy fails on structured types with titles

---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index c74305e..f179d17 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1343,8 +1343,8 @@ def from_numpy(shape, dt):
         measure = String(dtype.itemsize // 4, 'U32')
     elif dtype.fields:
         fields = [(name, dtype.fields[name]) for name in dtype.names]
-        rec = [(name, from_numpy(t.shape, t.base))  # recurse into nested dtype
-               for name, (t, _) in fields]  # _ is the byte offset: ignore it
+        rec = [(name, from_numpy(f[0].shape, f[0].base))  # recurse into nested dtype
+               for name, f in fields]  # ignore the byte offset and the title
         measure = Record(rec)
     else:
         measure = CType.from_numpy_dtype(dtype)
-- 
2.43.0


From 98022d2b56a5af42aa3dc65f2d7466292984bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 25/35] fix: isdatelike is False for datetimes with a time zone

---
 datashape/predicates.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index a7887b6..7c75ff2 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -3,7 +3,7 @@ import numpy as np
 from .util import collect, dshape
 from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
-                        date_, datetime_, TypeVar, to_numpy_dtype, Map,
+                        Date, DateTime, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
 
@@ -208,6 +208,8 @@ def isdatelike(ds):
     True
     >>> isdatelike('?datetime')
     True
+    >>> isdatelike("datetime[tz='UTC']")
+    True
     """
     ds = launder(ds)
-    return ds == date_ or ds == datetime_
+    return isinstance(ds, (Date, DateTime))
-- 
2.43.0


From f07701d99cfd9a00da7762ce60c7eb5e2a43cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 26/35] fix: a repeated keyword argument of a type is silently
 dropped

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index a2713eb..fc0c5c5 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -354,6 +354,8 @@ class DataShapeParser(object):
                                            'Expected another keyword argument, ' +
                                            'positional arguments cannot follow ' +
                                            'keyword arguments')
+        if kwargs and len(dict(kwargs)) < len(kwargs):
+            self.raise_error('Repeated keyword argument')
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From 94a001ae5869d0686a3515305e72b874bb864fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 27/35] fix: assert_dshape_equal looks into maps and
 categoricals with its flags

---
 datashape/util/testing.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 4235b96..b488da1 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -2,9 +2,11 @@ from abc import ABCMeta
 
 from ..py2help import with_metaclass
 from ..coretypes import (
+    Categorical,
     DataShape,
     DateTime,
     Function,
+    Map,
     Option,
     Record,
     String,
@@ -198,6 +200,30 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
     return assert_dshape_equal(a.ty, b.ty, path=path, **kwargs)
 
 
+@dispatch(Map, Map)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if path is None:
+        path = ()
+    assert_dshape_equal(a.key, b.key, path=path + ('.key',), **kwargs)
+    assert_dshape_equal(a.value, b.value, path=path + ('.value',), **kwargs)
+
+
+@dispatch(Categorical, Categorical)
+def assert_dshape_equal(a, b, path=None, **kwargs):
+    if path is None:
+        path = ()
+    for slot in 'categories', 'ordered':
+        assert getattr(a, slot) == getattr(b, slot), \
+            '%s %s do not match: %r != %r\n%s' % (
+                type(a).__name__.lower(),
+                slot,
+                getattr(a, slot),
+                getattr(b, slot),
+                _fmt_path(path + ('.' + slot,)),
+            )
+    assert_dshape_equal(a.type, b.type, path=path + ('.type',), **kwargs)
+
+
 @dispatch(Record, Record)
 def assert_dshape_equal(a, b, check_record_order=True, path=None, **kwargs):
     afields = a.fields
-- 
2.43.0


From 1b0ef33c91830a49a07927c34f3f49ea23ae683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:17 +0000
Subject: [PATCH 28/35] fix: a slice of a variable dimension with step zero
 gives a datashape

---
 datashape/coretypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index f179d17..1932a98 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -686,6 +686,8 @@ class DataShape(Mono):
                 start = index.start or 0
                 stop = index.stop
                 step = 1 if index.step is None else index.step
+                if step == 0:
+                    raise ValueError('slice step cannot be zero')
                 if stop is not None and start >= 0 and stop >= 0 and step >= 0:
                     count = len(range(start, stop, step))
                 else:
-- 
2.43.0


From 63b939690d839f8283fc0409eabf1383ae089a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 29/35] fix: promoting an option and its own type changes the
 type

---
 datashape/promote.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datashape/promote.py b/datashape/promote.py
index 798aba7..807024a 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -42,9 +42,10 @@ def promote(lhs, rhs, promote_option=True):
     if lhs == rhs:
         return lhs
     left, right = getattr(lhs, 'ty', lhs), getattr(rhs, 'ty', rhs)
-    if left == right == datashape.string:
-        # Special case string promotion, since numpy promotes to `object`.
-        dtype = datashape.string
+    if left == right:
+        # Only one of them is an option.  Numpy does not have every type, e.g.
+        # it promotes strings to `object`.
+        dtype = left
     else:
         np_res_type = np.result_type(datashape.to_numpy_dtype(left),
                                      datashape.to_numpy_dtype(right))
-- 
2.43.0


From 7fa3fcbb5c386f138db9b203553fdb449da4bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:30 +0000
Subject: [PATCH 30/35] fix: the message about a time and a datetime lacks the
 path to them

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index b488da1..ad6fd7b 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -146,7 +146,7 @@ def _base_case(a, b, path=None, **kwargs):
 @dispatch((DateTime, Time), (DateTime, Time))
 def assert_dshape_equal(a, b, path=None, check_tz=True, **kwargs):
     if type(a) != type(b):
-        return _base_case(a, b)
+        return _base_case(a, b, path=path)
     if check_tz:
         _check_slots(a, b, path)
 
-- 
2.43.0


From 1ffcc820fa830fbb6f3a638d3006294c1699e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 31/35] fix: assert_dshape_equal with check_dim=False fails
 where only one component has dimensions

---
 datashape/util/testing.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index ad6fd7b..14e8aac 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -7,6 +7,7 @@ from ..coretypes import (
     DateTime,
     Function,
     Map,
+    Mono,
     Option,
     Record,
     String,
@@ -69,8 +70,8 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     AssertionError
         Raised when the two dshapes are not equal.
     """
-    ashape = a.shape
-    bshape = b.shape
+    ashape = a._dims
+    bshape = b._dims
 
     if path is None:
         path = ()
@@ -96,7 +97,7 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
                         ('\n%s != %s' % (
                             ' * '.join(map(str, ashape)),
                             ' * '.join(map(str, bshape)),
-                        )) if len(a.shape) > 1 else '',
+                        )) if len(ashape) > 1 else '',
                         _fmt_path(path),
                     ),
                 )
@@ -111,6 +112,15 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     )
 
 
+# The components of other types are measures where they have no dimensions.
+assert_dshape_equal.register(DataShape, Mono)(
+    assert_dshape_equal.dispatch(DataShape, DataShape)
+)
+assert_dshape_equal.register(Mono, DataShape)(
+    assert_dshape_equal.dispatch(DataShape, DataShape)
+)
+
+
 class Slotted(with_metaclass(ABCMeta)):
     @classmethod
     def __subclasshook__(cls, subcls):
-- 
2.43.0


From 0068637ca292f85e8c893fd4f989d716a902de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:52 +0000
Subject: [PATCH 32/35] fix: the print width applies inside of options, maps,
 functions, units and categoricals

---
 datashape/coretypes.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 1932a98..3818b30 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -124,6 +124,11 @@ class Mono(with_metaclass(Type, object)):
             ),
         )
 
+    def _format(self, fmt):
+        """The text of the type, given the function for the text of its parts
+        """
+        return str(self)
+
     # Monotypes are their own measure
     @property
     def measure(self):
@@ -338,10 +343,13 @@ class Units(Unit):
         self.tp = tp
 
     def __str__(self):
+        return self._format(str)
+
+    def _format(self, fmt):
         if self.tp == DataShape(float64):
             return 'units[%s]' % string_literal(self.unit)
         else:
-            return 'units[%s, %s]' % (string_literal(self.unit), self.tp)
+            return 'units[%s, %s]' % (string_literal(self.unit), fmt(self.tp))
 
 
 class Bytes(Unit):
@@ -736,10 +744,13 @@ class Option(Mono):
         return self.ty.itemsize
 
     def __str__(self):
+        return self._format(str)
+
+    def _format(self, fmt):
         # the question mark cannot be repeated
         if isinstance(self.ty, Option):
-            return 'option[%s]' % self.ty
-        return '?%s' % self.ty
+            return 'option[%s]' % fmt(self.ty)
+        return '?%s' % fmt(self.ty)
 
     def to_numpy_dtype(self):
         if type(self.ty) in numpy_provides_missing:
@@ -894,8 +905,11 @@ class Function(Mono):
         return self.parameters[:-1]
 
     def __str__(self):
+        return self._format(str)
+
+    def _format(self, fmt):
         return '(%s) -> %s' % (
-            ', '.join(map(str, self.argtypes)), self.restype
+            ', '.join(map(fmt, self.argtypes)), fmt(self.restype)
         )
 
 
@@ -907,9 +921,12 @@ class Map(Mono):
         self.value = _launder(value)
 
     def __str__(self):
+        return self._format(str)
+
+    def _format(self, fmt):
         return '%s[%s, %s]' % (type(self).__name__.lower(),
-                               self.key,
-                               self.value)
+                               fmt(self.key),
+                               fmt(self.value))
 
     def to_numpy_dtype(self):
         return to_numpy_dtype(self)
@@ -1116,10 +1133,13 @@ class Categorical(Mono):
         self.ordered = ordered
 
     def __str__(self):
+        return self._format(str)
+
+    def _format(self, fmt):
         return '%s[%s, type=%s, ordered=%s]' % (
             type(self).__name__.lower(),
             _format_categories(self.categories),
-            self.type,
+            fmt(self.type),
             self.ordered
         )
 
@@ -1444,6 +1464,8 @@ def pprint(ds, width=80):
         else:
             long = '(\n%s\n)' % ',\n'.join(typs)
             return result + long.replace('\n', '\n  ')
+    elif isinstance(ds, Mono):
+        result += ds._format(lambda typ: pprint(typ, width - len(result)))
     else:
         result += str(ds)
     return result
-- 
2.43.0


From a09f627b44e43833c3314ee44a541c10b15dcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 33/35] fix: refuse options, maps, functions, null and whole
 datashapes as dimensions

---
 datashape/coretypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 3818b30..a5c71ff 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -214,7 +214,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
-    pass
+    cls = MEASURE
 
 
 class Date(Unit):
@@ -551,6 +551,7 @@ class DataShape(Mono):
     --------
     datashape.dshape
     """
+    cls = MEASURE
     composite = False
 
     def __init__(self, *parameters, **kwds):
@@ -731,6 +732,7 @@ class Option(Mono):
     indication of how this is implemented in memory.
     """
     __slots__ = 'ty',
+    cls = MEASURE
 
     def __init__(self, ds):
         self.ty = _launder(ds)
@@ -896,6 +898,8 @@ class TypeVar(Unit):
 class Function(Mono):
     """Function signature type
     """
+    cls = MEASURE
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -915,6 +919,7 @@ class Function(Mono):
 
 class Map(Mono):
     __slots__ = 'key', 'value'
+    cls = MEASURE
 
     def __init__(self, key, value):
         self.key = _launder(key)
-- 
2.43.0


From a6c21aedb6bc00a92802c30be4fbf41997c84383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:10 +0000
Subject: [PATCH 34/35] fix: look inside units for shapes with two wildcards

---
 datashape/validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/validation.py b/datashape/validation.py
index f2cb4e8..616467e 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -21,7 +21,8 @@ def traverse(f, t):
     -------
     DataShape
     """
-    if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
+    if isinstance(t, T.Units) or (isinstance(t, T.Mono) and
+                                  not isinstance(t, T.Unit)):
         return f(t, [traverse(f, p) for p in t.parameters])
     if isinstance(t, tuple):
         # the fields of a record, the elements of a tuple
-- 
2.43.0


From eb034ab2e25357d695947619a159f89523ae757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:27 +0000
Subject: [PATCH 35/35] fix: slicing a dimension longer than a machine word
 raises OverflowError

---
 datashape/coretypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index a5c71ff..8e7814c 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -690,7 +690,7 @@ class DataShape(Mono):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-                count = len(range(*index.indices(int(self[0]))))
+                count = _range_length(*index.indices(int(self[0])))
             else:
                 start = index.start or 0
                 stop = index.stop
@@ -698,7 +698,7 @@ class DataShape(Mono):
                 if step == 0:
                     raise ValueError('slice step cannot be zero')
                 if stop is not None and start >= 0 and stop >= 0 and step >= 0:
-                    count = len(range(start, stop, step))
+                    count = _range_length(start, stop, step)
                 else:
                     count = var
 
@@ -722,6 +722,12 @@ class DataShape(Mono):
         self.name = None
 
 
+def _range_length(start, stop, step):
+    # len(range(...)) is limited to the size of a machine word
+    start, stop, step = map(operator.index, (start, stop, step))
+    return max(0, (stop - start + step - (1 if step > 0 else -1)) // step)
+
+
 numpy_provides_missing = frozenset((Date, DateTime, TimeDelta))
 
 
-- 
2.43.0

