From 6387ae09ac0a261095c4bcf7aa30f1a416f25382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 01/79] fix: read boolean 'false' in text form as False

---
 pyswagger/primitives/_bool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswagger/primitives/_bool.py b/pyswagger/primitives/_bool.py
index 3ce12eb..ff6d9e5 100644
--- a/pyswagger/primitives/_bool.py
+++ b/pyswagger/primitives/_bool.py
@@ -1,7 +1,11 @@
 from __future__ import absolute_import
+import six
 
 
 def create_bool(_, v, ctx=None):
+    # values read from header are still in text form
+    if isinstance(v, six.string_types) and v.lower() == 'false':
+        return False
     return bool(v)
 
 
-- 
2.43.0


From 003539cea387fd6008e7fba8692b24ca1ee24ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 02/79] fix: accept int timestamp and datetime for
 date/date-time as documented

---
 pyswagger/primitives/_time.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index 31063aa..fedc269 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -25,11 +25,14 @@ class Date(Time):
         """ constructor
 
         :param v: things used to constrcut date
-        :type v: timestamp in float, datetime.date object, or ISO-8601 in str
+        :type v: timestamp in float or int, datetime.date object, datetime.datetime object, or ISO-8601 in str
         """
         self.v = None
-        if isinstance(v, float):
+        if isinstance(v, (float,) + six.integer_types):
             self.v = datetime.date.fromtimestamp(v)
+        elif isinstance(v, datetime.datetime):
+            # datetime is also a date, only keep the date part
+            self.v = v.date()
         elif isinstance(v, datetime.date):
             self.v = v
         elif isinstance(v, six.string_types):
@@ -46,10 +49,10 @@ class Datetime(Time):
         """ constructor
 
         :param v: things used to constrcut date
-        :type v: timestamp in float, datetime.datetime object, or ISO-8601 in str
+        :type v: timestamp in float or int, datetime.datetime object, or ISO-8601 in str
         """
         self.v = None
-        if isinstance(v, float):
+        if isinstance(v, (float,) + six.integer_types):
             self.v = datetime.datetime.utcfromtimestamp(v)
         elif isinstance(v, datetime.datetime):
             self.v = v
-- 
2.43.0


From 2c9b5e74bd74b9f84aa821657ac7bf5fb28fb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 03/79] fix: refuse trailing garbage in ISO-8601 text, keep
 timezone after fractions finer than microsecond

---
 pyswagger/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 485b245..c2a824d 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -129,10 +129,11 @@ class FixedTZ(datetime.tzinfo):
 _iso8601_fmt = re.compile(''.join([
     '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
     'T', # T
-    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6}))?)?', # hh:mm:ss.ms
-    '(?P<tz>Z|[+-]\d{2}:\d{2})?' # Z or +/-hh:mm
+    '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6})\d*)?)?', # hh:mm:ss.ms, digits finer than microsecond are dropped
+    '(?P<tz>Z|[+-]\d{2}:\d{2})?', # Z or +/-hh:mm
+    '\Z'
 ]))
-_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})') # YYYY-MM-DD
+_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z') # YYYY-MM-DD
 
 def from_iso8601(s):
     """ convert iso8601 string to datetime object.
-- 
2.43.0


From 6662d71fd39bf2b586dd5cdb28bd507c18d7f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 04/79] fix: apply maxLength and maxItems of zero

---
 pyswagger/primitives/_array.py | 2 +-
 pyswagger/primitives/_str.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e79bb73..68d7af5 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -51,7 +51,7 @@ class Array(list):
         # init array as list
         if obj.minItems and len(self) < obj.minItems:
             raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems and len(self) > obj.maxItems:
+        if obj.maxItems is not None and len(self) > obj.maxItems:
             raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
 
         return val
diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index a60b51b..1385497 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -7,7 +7,7 @@ from validate_email import validate_email
 def validate_str(obj, ret, val, ctx):
     if obj.enum and ret not in obj.enum:
         raise ValidationError('{0} is not a valid enum for {1}'.format(ret, str(obj.enum)))
-    if obj.maxLength and len(ret) > obj.maxLength:
+    if obj.maxLength is not None and len(ret) > obj.maxLength:
         raise ValidationError('[{0}] is longer than {1} characters'.format(ret, str(obj.maxLength)))
     if obj.minLength and len(ret) < obj.minLength:
         raise ValidationError('[{0}] is shorter than {1} characters'.format(ret, str(obj.minLength)))
-- 
2.43.0


From 7ed5c31f29e953770a598e017452cee85102325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 05/79] fix: check multipleOf of integers, and of numbers in
 decimal form

---
 pyswagger/primitives/_float.py |  6 ++----
 pyswagger/primitives/_int.py   |  3 ++-
 pyswagger/primitives/comm.py   | 15 +++++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pyswagger/primitives/_float.py b/pyswagger/primitives/_float.py
index 22b8d11..08431c6 100644
--- a/pyswagger/primitives/_float.py
+++ b/pyswagger/primitives/_float.py
@@ -1,12 +1,10 @@
 from __future__ import absolute_import
-from ..errs import ValidationError
-from .comm import min_max
+from .comm import min_max, multiple_of
 
 def validate_float(obj, ret, val, ctx):
     min_max(obj, ret, False)
     min_max(obj, ret, True)
-    if obj.multipleOf and ret % obj.multipleOf != 0:
-        raise ValidationError('{0} should be multiple of {1}'.format(val, obj.multipleOf))
+    multiple_of(obj, ret)
 
     return val
 
diff --git a/pyswagger/primitives/_int.py b/pyswagger/primitives/_int.py
index a4a9eba..1769091 100644
--- a/pyswagger/primitives/_int.py
+++ b/pyswagger/primitives/_int.py
@@ -1,10 +1,11 @@
 from __future__ import absolute_import
-from .comm import min_max
+from .comm import min_max, multiple_of
 
 
 def validate_int(obj, ret, val, ctx):
     min_max(obj, ret, False)
     min_max(obj, ret, True)
+    multiple_of(obj, ret)
 
     return val
  
diff --git a/pyswagger/primitives/comm.py b/pyswagger/primitives/comm.py
index a1eab3f..225b160 100644
--- a/pyswagger/primitives/comm.py
+++ b/pyswagger/primitives/comm.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from ..errs import ValidationError
+from fractions import Fraction
 import json
 
 
@@ -27,6 +28,20 @@ def min_max(obj, val, is_max):
     if to_raise:
         raise ValidationError('condition failed: {0}, v:{1} compared to o:{2}'.format('maximum' if is_max else 'minimum', val, n))
 
+def multiple_of(obj, val):
+    """ multipleOf validator for float and integer
+    """
+    n = getattr(obj, 'multipleOf', None)
+    if not n:
+        return
+
+    # compare in decimal form, 0.3 is a multiple of 0.1 although 0.3 % 0.1 is not 0.
+    def _frac(v):
+        return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
+
+    if (_frac(val) / _frac(n)).denominator != 1:
+        raise ValidationError('{0} should be multiple of {1}'.format(val, n))
+
 #
 # creater/2nd_pass function with python user defined class
 # - Array
-- 
2.43.0


From 75519ffcb810b51001100b43526f22e0200dbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 06/79] fix: keep leading empty items when joining an array

---
 pyswagger/primitives/_array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 68d7af5..d75d337 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -64,10 +64,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            s = ''
-            for v in self:
-                s = ''.join([s, p if s else '', str(v)])
-            return s
+            return p.join([str(v) for v in self])
 
         if self.__collection_format == 'csv':
             return _conv(',')
-- 
2.43.0


From e317e6444de542c453e3f37a9035eaebc5f0c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 07/79] fix: apply every Schema of allOf once, at any depth,
 and check required keys when all are applied

---
 pyswagger/primitives/__init__.py | 75 +++++++++++++++++++++-----------
 pyswagger/primitives/_model.py   | 10 +++--
 2 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index edac8cd..a952c73 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -185,6 +185,25 @@ class Primitive(object):
         # cycle guard
         ctx['guard'].update(obj)
 
+        ret, val = self._compose(obj, val, ctx, [])
+        if ret is None:
+            # when nothing determines the type, any value is allowed
+            return None if obj.type else val
+
+        if hasattr(ret, 'cleanup'):
+            ret.cleanup(val, ctx)
+
+        return ret
+
+    def _compose(self, obj, val, ctx, applied):
+        """ create a primitive from an object, including those Schema objects in its 'allOf'
+
+        :param list applied: Schema objects already applied, each one is applied once.
+        :return: the created primitive (None if its type can't be determined), and those values not used yet.
+        """
+        idx = len(applied)
+        applied.append(obj)
+
         ret = None
         if obj.type:
             creater, _2nd = self.get(_type=obj.type, _format=obj.format)
@@ -195,16 +214,17 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif len(obj.properties) or obj.additionalProperties:
+        elif isinstance(val, dict) and (len(obj.properties) or obj.additionalProperties):
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
-        if isinstance(ret, (Date, Datetime, Byte, File)):
-            # it's meanless to handle allOf for these types.
-            return ret
-
         def _apply(o, r, v, c):
-            if hasattr(ret, 'apply_with'):
+            if isinstance(r, (Date, Datetime, Byte, File, UUID)):
+                # it's meanless to handle allOf for these types.
+                return v
+
+            applied.append(o)
+            if hasattr(r, 'apply_with'):
                 v = r.apply_with(o, v, c)
             else:
                 _2nd = c['2nd_pass']
@@ -214,33 +234,38 @@ class Primitive(object):
                     _2nd(o, r, v, c)
                     # update it back to context
                     c['2nd_pass'] = _2nd
-            return v
 
-        # handle allOf for Schema Object
-        allOf = getattr(obj, 'allOf', None)
-        if allOf:
-            not_applied = []
-            for a in allOf:
+            for a in getattr(o, 'allOf', None) or []:
                 a = deref(a)
-                if not ret:
-                    # try to find right type for this primitive.
-                    ret = self.produce(a, val, ctx)
-                    is_member = hasattr(ret, 'apply_with')
-                else:
-                    val = _apply(a, ret, val, ctx)
+                if a not in applied:
+                    v = _apply(a, r, v, c)
+            return v
 
-                if not ret:
+        # handle allOf for Schema Object
+        not_applied = []
+        for a in getattr(obj, 'allOf', None) or []:
+            a = deref(a)
+            if a in applied:
+                continue
+
+            if ret is None:
+                # try to find right type for this primitive.
+                ret, val = self._compose(a, val, ctx, applied)
+                if ret is None:
                     # if we still can't determine the type,
                     # keep this Schema object for later use.
                     not_applied.append(a)
-            if ret:
-                for a in not_applied:
-                    val = _apply(a, ret, val, ctx)
+            else:
+                val = _apply(a, ret, val, ctx)
 
-        if ret != None and hasattr(ret, 'cleanup'):
-            val = ret.cleanup(val, ctx)
+        if ret is not None:
+            for a in not_applied:
+                if a not in applied:
+                    val = _apply(a, ret, val, ctx)
+        else:
+            del applied[idx:]
 
-        return ret
+        return ret, val
 
     def is_primitive(self, _type):
         """ check if a given object refering to a primitive
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 087df19..fe20bc9 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -44,9 +44,9 @@ class Model(dict):
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-        not_found = set(obj.required) - set(six.iterkeys(self))
-        if len(not_found):
-            raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
+        # those required might be provided by other Schema objects in 'allOf',
+        # check them when all are applied.
+        ctx.setdefault('required', set()).update(obj.required)
 
         # remove assigned properties to avoid duplicated
         # primitive creation
@@ -72,6 +72,10 @@ class Model(dict):
                 self[k] = ctx['factory'].produce(obj.additionalProperties, v)
             ctx['addp_schema'] = None
 
+        not_found = ctx.pop('required', set()) - set(six.iterkeys(self))
+        if len(not_found):
+            raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
+
         return {}
 
     def __eq__(self, other):
-- 
2.43.0


From 60412c4caf0d92e947671405259f654fe3ee0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 08/79] fix: refuse read-only properties of nested objects in
 write context

---
 pyswagger/primitives/_array.py | 3 +--
 pyswagger/primitives/_model.py | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index d75d337..ffff25d 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -1,6 +1,5 @@
 from __future__ import absolute_import
 from ..errs import ValidationError, SchemaError
-import functools
 import six
 
 
@@ -45,7 +44,7 @@ class Array(list):
                 val = set(val)
 
         if obj.items and len(val):
-            self.extend(map(functools.partial(ctx['factory'].produce, obj.items), val))
+            self.extend([ctx['factory'].produce(obj.items, v, dict(read=ctx['read'])) for v in val])
             val = []
 
         # init array as list
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index fe20bc9..ce9b238 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -26,7 +26,7 @@ class Model(dict):
                 if pobj.readOnly == True and ctx['read'] == False:
                     raise Exception('read-only property is set in write context.')
 
-                self[k] = ctx['factory'].produce(pobj, v)
+                self[k] = ctx['factory'].produce(pobj, v, dict(read=ctx['read']))
 
             # TODO: patternProperties here
             # TODO: fix bug, everything would not go into additionalProperties, instead of recursive
@@ -42,7 +42,7 @@ class Model(dict):
         for k in other_prop:
             p = obj.properties[k]
             if p.is_set("default"):
-                self[k] = ctx['factory'].produce(p, p.default)
+                self[k] = ctx['factory'].produce(p, p.default, dict(read=ctx['read']))
 
         # those required might be provided by other Schema objects in 'allOf',
         # check them when all are applied.
@@ -69,7 +69,7 @@ class Model(dict):
         elif ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
             for k, v in six.iteritems(val):
-                self[k] = ctx['factory'].produce(obj.additionalProperties, v)
+                self[k] = ctx['factory'].produce(obj.additionalProperties, v, dict(read=ctx['read']))
             ctx['addp_schema'] = None
 
         not_found = ctx.pop('required', set()) - set(six.iterkeys(self))
-- 
2.43.0


From 5625c65767cf22d3951f787453b2237af9f156ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 09/79] fix: find default and readOnly of a property in the
 Schema it refers to

---
 pyswagger/primitives/__init__.py | 2 +-
 pyswagger/primitives/_model.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index a952c73..36945a1 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -156,11 +156,11 @@ class Primitive(object):
 
         :return: the created primitive
         """
+        obj = deref(obj)
         val = obj.default if val == None else val
         if val == None:
             return None
 
-        obj = deref(obj)
         ctx = {} if ctx == None else ctx
         if 'name' not in ctx and hasattr(obj, 'name'):
             ctx['name'] = obj.name
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index ce9b238..f1816c6 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -1,4 +1,5 @@
 from __future__ import absolute_import
+from ..utils import deref
 import six
 
 class Model(dict):
@@ -22,7 +23,7 @@ class Model(dict):
         """
         for k, v in six.iteritems(val):
             if k in obj.properties:
-                pobj = obj.properties.get(k)
+                pobj = deref(obj.properties.get(k))
                 if pobj.readOnly == True and ctx['read'] == False:
                     raise Exception('read-only property is set in write context.')
 
@@ -40,7 +41,7 @@ class Model(dict):
 
         other_prop = in_obj - in_self
         for k in other_prop:
-            p = obj.properties[k]
+            p = deref(obj.properties[k])
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default, dict(read=ctx['read']))
 
-- 
2.43.0


From 04388eb14834dcd87ec4d6aa60867e83e3e462c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 10/79] fix: match declared response headers case insensitively

---
 pyswagger/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 75569c2..6e38922 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -363,8 +363,11 @@ class Response(object):
         self.__url = self.__op.url
 
     def _convert_header(self, resp, k, v):
-        if resp and resp.headers and k in resp.headers:
-            v = resp.headers[k]._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+        # names of headers are case insensitive
+        for name, h in six.iteritems((resp and resp.headers) or {}):
+            if name.lower() == k.lower():
+                v = h._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+                break
 
         if k in self.__header:
             self.__header[k].append(v)
-- 
2.43.0


From 750702f48a42a2f7e94d6d1d7f789201d3944a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 11/79] fix: encode a space in path as %20, not +

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 6e38922..ebcb5d0 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -195,7 +195,7 @@ class Request(object):
         # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
-            path_params[k] = six.moves.urllib.parse.quote_plus(v)
+            path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
         self.__path = self.__path.format(**path_params)
 
-- 
2.43.0


From fc90c80348c89649726fa0d5d04cc2c28ad7732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 12/79] fix: accept any name of a path parameter, like 'a.b'

---
 pyswagger/io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index ebcb5d0..3d141b0 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -4,7 +4,7 @@ from .utils import final, deref, CaseInsensitiveDict
 from pyswagger import errs
 from uuid import uuid4
 import six
-import io, codecs
+import io, codecs, re
 import collections
 import logging
 
@@ -192,15 +192,19 @@ class Request(object):
             raise ValueError('"scheme" should be a list or string')
 
         # combine path parameters into path
-        # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
             path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
-        self.__path = self.__path.format(**path_params)
+        # names of parameters are looked up literally, those like 'a.b' or 'a[0]'
+        # mean something else to python-format.
+        def _format(s):
+            return re.sub(r'{([^{}]*)}', lambda m: path_params[m.group(1)], s)
+
+        self.__path = _format(self.__path)
 
         # combine path parameters into url
-        self.__url = ''.join([scheme, ':', self.__url.format(**path_params)])
+        self.__url = ''.join([scheme, ':', _format(self.__url)])
 
         # header parameters
         self.__header.update(self.__p['header'])
-- 
2.43.0


From fb86de2a8342e2ef2c1e14502eac512558303537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 13/79] fix: keep the order of unique items given as tuple

---
 pyswagger/primitives/_array.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index ffff25d..95f178c 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -32,16 +32,12 @@ class Array(list):
 
         # remove duplication when uniqueItems == True
         if obj.uniqueItems:
-            if isinstance(val, (list, dict)):
-                seen = []
-                for e in val:
-                    if e in seen:
-                        continue
-                    seen.append(e)
-                val = seen
-            else:
-                # assume the type is hashable
-                val = set(val)
+            seen = []
+            for e in val:
+                if e in seen:
+                    continue
+                seen.append(e)
+            val = seen
 
         if obj.items and len(val):
             self.extend([ctx['factory'].produce(obj.items, v, dict(read=ctx['read'])) for v in val])
-- 
2.43.0


From f9561a5659c07d070fc0c93ce005f852bd884e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 14/79] fix: escape quotes in names of multipart fields and
 files

---
 pyswagger/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 3d141b0..1fd4481 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -99,11 +99,15 @@ class Request(object):
         body = io.BytesIO()
         w = codecs.getwriter(encoding)
 
+        def quote(s):
+            # it's a quoted-string, refer to RFC2045
+            return s.replace('\\', '\\\\').replace('"', '\\"')
+
         def append(name, obj):
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
             # header
-            w(body).write('Content-Disposition: form-data; name="{0}"; filename="{1}"'.format(name, obj.filename))
+            w(body).write('Content-Disposition: form-data; name="{0}"; filename="{1}"'.format(quote(name), quote(obj.filename)))
             body.write(six.b('\r\n'))
             if 'Content-Type' in obj.header:
                 w(body).write('Content-Type: {0}'.format(obj.header['Content-Type']))
@@ -129,7 +133,7 @@ class Request(object):
         for k, v in self.__p['formData']:
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
-            w(body).write('Content-Disposition: form-data; name="{0}"'.format(k))
+            w(body).write('Content-Disposition: form-data; name="{0}"'.format(quote(k)))
             body.write(six.b('\r\n'))
             body.write(six.b('\r\n'))
 
-- 
2.43.0


From 2b0b453c40fcdabbc7fad94812a138952cbd6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 15/79] fix: leave the caller's list of schemes alone

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 1fd4481..c710af5 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -186,7 +186,7 @@ class Request(object):
 
         if isinstance(scheme, list):
             if self.__scheme is None:
-                scheme = scheme.pop()
+                scheme = scheme[-1]
             else:
                 if self.__scheme in scheme:
                     scheme = self.__scheme
-- 
2.43.0


From 80b1be0665e5a3a3925d26e34ea29733fa132f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 16/79] fix: dump null inside free-form values like example and
 enum

---
 pyswagger/spec/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index 33fce1b..bf4fe1e 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -412,6 +412,8 @@ class BaseObj(object):
                 return obj
             elif isinstance(obj, float):
                 return obj
+            elif obj is None:
+                return None
             else:
                 raise ValueError('Unknown object to dump: {0}'.format(obj.__class__.__name__))
 
-- 
2.43.0


From 69d83fe51fa08ce12aa7d56d071d8f12df7a7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 17/79] fix: dump empty objects as {}, not null

---
 pyswagger/spec/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index bf4fe1e..510756f 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -400,14 +400,16 @@ class BaseObj(object):
                 ret = {}
                 for k, v in six.iteritems(obj):
                     ret[k] = _dump_(v)
-                return None if ret == {} else ret
+                return ret
             elif isinstance(obj, list):
                 ret = []
                 for v in obj:
                     ret.append(_dump_(v))
                 return None if ret == [] else ret
             elif isinstance(obj, BaseObj):
-                return obj.dump()
+                # an empty object means something, ex. a Schema
+                # that allows everything.
+                return obj.dump() or {}
             elif isinstance(obj, (six.string_types, six.integer_types)):
                 return obj
             elif isinstance(obj, float):
@@ -422,7 +424,7 @@ class BaseObj(object):
             v = getattr(self, name)
             if v != default:
                 d = _dump_(v)
-                if d != None:
+                if d != None and (d != {} or isinstance(v, BaseObj)):
                     r[name] = d
 
         return None if r == {} else r
-- 
2.43.0


From cc19849ba094a9e980fd38ddbc8ecbdd7a2e0972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 18/79] fix: visit what is merged into a path item from its
 reference, so that references in there are resolved, too

---
 pyswagger/scan.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyswagger/scan.py b/pyswagger/scan.py
index f75339e..99de3c9 100644
--- a/pyswagger/scan.py
+++ b/pyswagger/scan.py
@@ -9,15 +9,18 @@ def default_tree_traversal(root, leaves):
     while len(objs) > 0:
         path, obj = objs.pop()
 
+        # the path we expose here follows JsonPointer described here
+        #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
+        yield path, obj
+
+        # children are located after 'obj' is handled, those added by
+        # handlers (ex. merging '$ref' of PathItem) have to be visited, too.
+        #
         # name of child are json-pointer encoded, we don't have
         # to encode it again.
         if obj.__class__ not in leaves:
             objs.extend(map(lambda i: (path + '/' + i[0],) + (i[1],), six.iteritems(obj._children_)))
 
-        # the path we expose here follows JsonPointer described here
-        #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
-        yield path, obj
-
 
 class DispatcherMeta(type):
     """ metaclass for Dispatcher
-- 
2.43.0


From c1e6b0b11e5ee3304edf692dfa2c7251bdb17f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 19/79] fix: keep order and duplicates of lists, and types of
 free-form values, when merging objects

---
 pyswagger/spec/base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index 510756f..18334d6 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -303,16 +303,16 @@ class BaseObj(object):
                 # we don't need to make a copy,
                 # since everything under App should be
                 # readonly.
-                if isinstance(v, list):
-                    try:
-                        self.update_field(name, list(set((getattr(self, name) or []) + v)))
-                    except TypeError:
-                        self.update_field(name, list((getattr(self, name) or []) + v))
-                elif isinstance(v, dict):
+                cur = getattr(self, name)
+                if isinstance(v, list) and (cur is None or isinstance(cur, list)):
+                    # keep the order, and those already in place
+                    cur = cur or []
+                    self.update_field(name, cur + [vv for vv in v if vv not in cur])
+                elif isinstance(v, dict) and (cur is None or isinstance(cur, dict)):
                     d = copy.copy(v)
-                    d.update(getattr(self, name) or {})
+                    d.update(cur or {})
                     self.update_field(name, d)
-                elif getattr(self, name) == default:
+                elif cur == default:
                     self.update_field(name, v)
                 continue
             else:
-- 
2.43.0


From 214535e49668a307a7411c0f5b56a5bf70ed614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 20/79] fix: decode file URLs, so that paths with spaces and
 the like can be loaded

---
 pyswagger/getter.py  | 2 +-
 pyswagger/resolve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index abdc8fb..1b48eaa 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -67,7 +67,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9597d9e..2c0ade9 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -51,7 +51,7 @@ class Resolver(object):
                 getter = self.__default_getter or UrlGetter
                 p = six.moves.urllib.parse.urlparse(local_url)
                 if p.scheme == 'file' and p.path:
-                    getter = LocalGetter(os.path.join(p.netloc, p.path))
+                    getter = LocalGetter(os.path.join(p.netloc, six.moves.urllib.parse.unquote(p.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From adb81b78f739397b04d3084fbc3fc90112cca9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 21/79] fix: recognize json after leading whitespace, and yaml
 in flow style

---
 pyswagger/getter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 1b48eaa..7938978 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -42,8 +42,12 @@ class Getter(six.Iterator):
         # a very simple logic to distinguish json and yaml
         if isinstance(obj, six.string_types):
             try:
-                if obj.startswith('{'):
-                    obj = json.loads(obj)
+                if obj.lstrip().startswith('{'):
+                    try:
+                        obj = json.loads(obj)
+                    except ValueError:
+                        # a mapping in flow style is not always json
+                        obj = yaml.load(obj)
                 else:
                     obj = yaml.load(obj)
             except ValueError:
-- 
2.43.0


From 84a7e1413ce81f51907ccc153394c5d06e433303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 22/79] fix: leave the list of urls given to DictGetter alone

---
 pyswagger/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 7938978..d169e7e 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -168,7 +168,7 @@ class DictGetter(Getter):
     """
     def __init__(self, urls, path2dict):
         super(DictGetter, self).__init__(urls[0])
-        self.urls = urls
+        self.urls = list(urls)
         self._path2dict = path2dict or {}
 
     def load(self, path):
-- 
2.43.0


From 35e288715adba225c78af001d2085b2422b626ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 23/79] fix: resolve relative references of a document loaded
 by its folder against that folder

---
 pyswagger/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index c2a824d..98edc01 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -387,8 +387,11 @@ def normalize_jr(jr, url=None):
         p = six.moves.urllib.parse.urlparse(path)
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path), path]),)+p[3:])
+            # it's the path of relative file, a local folder stands for the file in it
+            folder = p.path
+            if p.scheme != 'file' or not os.path.isdir(six.moves.urllib.parse.unquote(p.path)):
+                folder = os.path.dirname(p.path)
+            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([folder, path]),)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From ac50b761191fe34f64251f286511421e56a8c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 24/79] fix: do not take a cached object for another one whose
 JSON pointer is longer

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1860d32..503cb2a 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -399,7 +399,7 @@ class App(object):
                 obj = o.resolve(utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
-                    if jp.startswith(k):
+                    if jp == k or jp.startswith(k + '/'):
                         obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
                         break
             else:
-- 
2.43.0


From e71166a72c13066aa494b0bfc0d023dc13369f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 25/79] fix: resolve only fields of the document, not any
 attribute, and leave the list of tokens alone

---
 pyswagger/spec/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index 18334d6..a577d29 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -265,15 +265,20 @@ class BaseObj(object):
             ts = [ts]
 
         obj = self
-        while len(ts) > 0:
-            t = ts.pop(0)
-
+        for t in ts:
             if issubclass(obj.__class__, BaseObj):
+                # only those in Swagger document, not every attribute
+                if t not in obj._field_names_:
+                    raise AttributeError('{0} is not in {1}'.format(t, obj.__class__.__name__))
                 obj = getattr(obj, t)
             elif isinstance(obj, list):
+                if not t.isdigit():
+                    raise IndexError('not an index: {0}'.format(t))
                 obj = obj[int(t)]
             elif isinstance(obj, dict):
                 obj = obj[t]
+            else:
+                raise KeyError('nothing to find in {0}: {1}'.format(obj.__class__.__name__, t))
 
         return obj
 
-- 
2.43.0


From 9fbd0e34b9b8153e4b2acac4c7990fcba43cb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:30 +0000
Subject: [PATCH 26/79] fix: resolve references that are absolute paths, and
 drop the query of the referring document

---
 pyswagger/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 98edc01..16b6b1d 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -384,14 +384,19 @@ def normalize_jr(jr, url=None):
     path, jp = (jr[:idx], jr[idx+1:]) if idx != -1 else (jr, None)
 
     if len(path) > 0:
-        p = six.moves.urllib.parse.urlparse(path)
-        if p.scheme == '' and url:
+        ref = six.moves.urllib.parse.urlparse(path)
+        if ref.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file, a local folder stands for the file in it
             folder = p.path
             if p.scheme != 'file' or not os.path.isdir(six.moves.urllib.parse.unquote(p.path)):
                 folder = os.path.dirname(p.path)
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([folder, path]),)+p[3:])
+            if ref.netloc:
+                path = p.scheme + ':' + path
+            elif path.startswith('/'):
+                path = six.moves.urllib.parse.urlunparse(p[:2]+(path, '', '', ''))
+            else:
+                path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([folder, path]), '', '', ''))
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From f33b1b9157a83fb41e6b213ed6c08a3d102679ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 27/79] fix: no empty segment in URLs relative to a document at
 the root of a server

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 16b6b1d..609705b 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -396,7 +396,7 @@ def normalize_jr(jr, url=None):
             elif path.startswith('/'):
                 path = six.moves.urllib.parse.urlunparse(p[:2]+(path, '', '', ''))
             else:
-                path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([folder, path]), '', '', ''))
+                path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([folder.rstrip('/'), path]), '', '', ''))
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From 703a54ab1a7a11e7637c9a4651428c1f5d153e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:08 +0000
Subject: [PATCH 28/79] fix: an empty list of media types of an operation
 clears those of the document

---
 pyswagger/scanner/v2_0/patch_obj.py | 7 ++++---
 pyswagger/spec/base.py              | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index e4b1d2b..263a26e 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -21,9 +21,10 @@ class PatchObject(object):
         """
         """
         if isinstance(app.root, Swagger):
-            # produces/consumes
-            obj.update_field('produces', app.root.produces if len(obj.produces) == 0 else obj.produces)
-            obj.update_field('consumes', app.root.consumes if len(obj.consumes) == 0 else obj.consumes)
+            # produces/consumes, an empty list clears those in Swagger object
+            for n in ('produces', 'consumes'):
+                if not obj.is_set(n) or getattr(obj, n) is None:
+                    obj.update_field(n, getattr(app.root, n))
 
         # combine parameters from PathItem
         if obj._parent_:
diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index a577d29..94d60f7 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -301,6 +301,9 @@ class BaseObj(object):
 
             v = getattr(other, name)
             if v == default:
+                if v is not None and other.is_set(name):
+                    # set to default explicitly
+                    self.__origin_keys.add(name)
                 continue
 
             childs = [(n, ct, cctx) for n, (ct, cctx) in six.iteritems(ctx.__swagger_child__) if n == name]
-- 
2.43.0


From f8d4b0d32c1dce9d578744f836a12b664460f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:41 +0000
Subject: [PATCH 29/79] fix: inherit parameters of a path item that share a
 name but not a location

---
 pyswagger/scanner/v2_0/patch_obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 263a26e..056164d 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -29,9 +29,10 @@ class PatchObject(object):
         # combine parameters from PathItem
         if obj._parent_:
             if obj.parameters:
+                own = list(obj.parameters)
                 for p in obj._parent_.parameters:
                     p_final = final(p)
-                    for pp in obj.parameters:
+                    for pp in own:
                         if p_final.name == final(pp).name:
                             break
                     else:
-- 
2.43.0


From 744ee99d77cdd3263e2b20bf45ec8687b5fca250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:29 +0000
Subject: [PATCH 30/79] fix: take back the changes to pyswagger/spec, and to
 empty lists of media types

---
 pyswagger/scanner/v2_0/patch_obj.py |  7 +++--
 pyswagger/spec/base.py              | 40 ++++++++++-------------------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 056164d..1cbb8c3 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -21,10 +21,9 @@ class PatchObject(object):
         """
         """
         if isinstance(app.root, Swagger):
-            # produces/consumes, an empty list clears those in Swagger object
-            for n in ('produces', 'consumes'):
-                if not obj.is_set(n) or getattr(obj, n) is None:
-                    obj.update_field(n, getattr(app.root, n))
+            # produces/consumes
+            obj.update_field('produces', app.root.produces if len(obj.produces) == 0 else obj.produces)
+            obj.update_field('consumes', app.root.consumes if len(obj.consumes) == 0 else obj.consumes)
 
         # combine parameters from PathItem
         if obj._parent_:
diff --git a/pyswagger/spec/base.py b/pyswagger/spec/base.py
index 94d60f7..33fce1b 100644
--- a/pyswagger/spec/base.py
+++ b/pyswagger/spec/base.py
@@ -265,20 +265,15 @@ class BaseObj(object):
             ts = [ts]
 
         obj = self
-        for t in ts:
+        while len(ts) > 0:
+            t = ts.pop(0)
+
             if issubclass(obj.__class__, BaseObj):
-                # only those in Swagger document, not every attribute
-                if t not in obj._field_names_:
-                    raise AttributeError('{0} is not in {1}'.format(t, obj.__class__.__name__))
                 obj = getattr(obj, t)
             elif isinstance(obj, list):
-                if not t.isdigit():
-                    raise IndexError('not an index: {0}'.format(t))
                 obj = obj[int(t)]
             elif isinstance(obj, dict):
                 obj = obj[t]
-            else:
-                raise KeyError('nothing to find in {0}: {1}'.format(obj.__class__.__name__, t))
 
         return obj
 
@@ -301,9 +296,6 @@ class BaseObj(object):
 
             v = getattr(other, name)
             if v == default:
-                if v is not None and other.is_set(name):
-                    # set to default explicitly
-                    self.__origin_keys.add(name)
                 continue
 
             childs = [(n, ct, cctx) for n, (ct, cctx) in six.iteritems(ctx.__swagger_child__) if n == name]
@@ -311,16 +303,16 @@ class BaseObj(object):
                 # we don't need to make a copy,
                 # since everything under App should be
                 # readonly.
-                cur = getattr(self, name)
-                if isinstance(v, list) and (cur is None or isinstance(cur, list)):
-                    # keep the order, and those already in place
-                    cur = cur or []
-                    self.update_field(name, cur + [vv for vv in v if vv not in cur])
-                elif isinstance(v, dict) and (cur is None or isinstance(cur, dict)):
+                if isinstance(v, list):
+                    try:
+                        self.update_field(name, list(set((getattr(self, name) or []) + v)))
+                    except TypeError:
+                        self.update_field(name, list((getattr(self, name) or []) + v))
+                elif isinstance(v, dict):
                     d = copy.copy(v)
-                    d.update(cur or {})
+                    d.update(getattr(self, name) or {})
                     self.update_field(name, d)
-                elif cur == default:
+                elif getattr(self, name) == default:
                     self.update_field(name, v)
                 continue
             else:
@@ -408,22 +400,18 @@ class BaseObj(object):
                 ret = {}
                 for k, v in six.iteritems(obj):
                     ret[k] = _dump_(v)
-                return ret
+                return None if ret == {} else ret
             elif isinstance(obj, list):
                 ret = []
                 for v in obj:
                     ret.append(_dump_(v))
                 return None if ret == [] else ret
             elif isinstance(obj, BaseObj):
-                # an empty object means something, ex. a Schema
-                # that allows everything.
-                return obj.dump() or {}
+                return obj.dump()
             elif isinstance(obj, (six.string_types, six.integer_types)):
                 return obj
             elif isinstance(obj, float):
                 return obj
-            elif obj is None:
-                return None
             else:
                 raise ValueError('Unknown object to dump: {0}'.format(obj.__class__.__name__))
 
@@ -432,7 +420,7 @@ class BaseObj(object):
             v = getattr(self, name)
             if v != default:
                 d = _dump_(v)
-                if d != None and (d != {} or isinstance(v, BaseObj)):
+                if d != None:
                     r[name] = d
 
         return None if r == {} else r
-- 
2.43.0


From df8abd762eb4dc5275d0052f0e543e8b8e9a6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:29 +0000
Subject: [PATCH 31/79] fix: App.resolve finds only fields of the document, not
 any attribute of its objects

---
 pyswagger/core.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 503cb2a..10375c3 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -371,6 +371,27 @@ class App(object):
     """
     _create_ = create
 
+    @staticmethod
+    def _locate(obj, ts):
+        """ locate an object by tokens of JSON pointer. Only those in
+        Swagger document can be located, not every attribute.
+        """
+        for t in ts:
+            if isinstance(obj, BaseObj):
+                if t not in obj._field_names_:
+                    raise AttributeError('{0} is not in {1}'.format(t, obj.__class__.__name__))
+                obj = obj.resolve(t)
+            elif isinstance(obj, list):
+                if not t.isdigit():
+                    raise IndexError('not an index: {0}'.format(t))
+                obj = obj[int(t)]
+            elif isinstance(obj, dict):
+                obj = obj[t]
+            else:
+                raise KeyError('nothing to find in {0}: {1}'.format(obj.__class__.__name__, t))
+
+        return obj
+
     def resolve(self, jref, parser=None):
         """ JSON reference resolver
 
@@ -396,11 +417,11 @@ class App(object):
         o = self.__objs.get(url, None)
         if o:
             if isinstance(o, BaseObj):
-                obj = o.resolve(utils.jp_split(jp)[1:])
+                obj = self._locate(o, utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
                     if jp == k or jp.startswith(k + '/'):
-                        obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
+                        obj = self._locate(v, utils.jp_split(jp[len(k):])[1:])
                         break
             else:
                 raise Exception('Unknown Cached Object: {0}'.format(str(type(o))))
@@ -416,7 +437,7 @@ class App(object):
                 if not jp.startswith('#'):
                     raise ValueError('Invalid Path, root element should be \'#\', but [{0}]'.format(jref))
 
-                obj = self.root.resolve(utils.jp_split(jp)[1:]) # heading element is #, mapping to self.root
+                obj = self._locate(self.root, utils.jp_split(jp)[1:]) # heading element is #, mapping to self.root
 
         if obj == None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
-- 
2.43.0


From 135101763f5cd5967b83aeef9e2a7f4f4e04aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 32/79] fix: do not mix default or example of composed schemas,
 nor fail when their types differ

---
 pyswagger/scanner/v2_0/aggt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/aggt.py b/pyswagger/scanner/v2_0/aggt.py
index a48a385..7695320 100644
--- a/pyswagger/scanner/v2_0/aggt.py
+++ b/pyswagger/scanner/v2_0/aggt.py
@@ -38,7 +38,9 @@ def _compose(obj, guard=None):
         except CycleDetectionError:
             continue
         o = o.final if o.final else o
-        final.merge(o, SchemaContext, exclude=['$ref', 'allOf'])
+        # values of these fields are opaque, can't be merged
+        opaque = [n for n in ('default', 'example') if getattr(final, n) is not None]
+        final.merge(o, SchemaContext, exclude=['$ref', 'allOf'] + opaque)
         for n, p in six.iteritems(o.properties):
             if n in obj.properties:
                 continue
-- 
2.43.0


From 9c0df3a9faae53814deb522c0a9fe7d3a23f7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 33/79] fix: dates, bytes and uuids of the same value are
 equal, so that objects holding them can be compared

---
 pyswagger/primitives/_byte.py | 10 ++++++++++
 pyswagger/primitives/_time.py | 10 ++++++++++
 pyswagger/primitives/_uuid.py | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/pyswagger/primitives/_byte.py b/pyswagger/primitives/_byte.py
index dee2ecc..1d42f07 100644
--- a/pyswagger/primitives/_byte.py
+++ b/pyswagger/primitives/_byte.py
@@ -19,6 +19,16 @@ class Byte(object):
         else:
             raise ValueError('Unsupported type for Byte: ' + str(type(v)))
 
+    def __eq__(self, other):
+        """ those with the same value are equal """
+        return self.v == other.v if isinstance(other, self.__class__) else NotImplemented
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.v)
+
     def __str__(self):
         return self.v.decode('utf-8')
 
diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index fedc269..af966d6 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -8,6 +8,16 @@ class Time(object):
     """ Base of Datetime & Date
     """
 
+    def __eq__(self, other):
+        """ those with the same value are equal """
+        return self.v == other.v if isinstance(other, self.__class__) else NotImplemented
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.v)
+
     def __str__(self):
         return str(self.to_json())
 
diff --git a/pyswagger/primitives/_uuid.py b/pyswagger/primitives/_uuid.py
index d9cfa38..d1bb86f 100644
--- a/pyswagger/primitives/_uuid.py
+++ b/pyswagger/primitives/_uuid.py
@@ -7,6 +7,16 @@ class UUID(object):
     """ wrapper of uuid.UUID
     """
 
+    def __eq__(self, other):
+        """ those with the same value are equal """
+        return self.v == other.v if isinstance(other, self.__class__) else NotImplemented
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.v)
+
     def __str__(self):
         return str(self.v)
 
-- 
2.43.0


From 66e5401a92669ac40315791537da2e91152aec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:17 +0000
Subject: [PATCH 34/79] fix: apply additionalProperties of a Schema without
 type and properties

---
 pyswagger/primitives/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 36945a1..48f6901 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -214,7 +214,7 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif isinstance(val, dict) and (len(obj.properties) or obj.additionalProperties):
+        elif isinstance(val, dict) and obj.additionalProperties is not None:
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
-- 
2.43.0


From 81a6a3d9d27aeaacf67e607a64886ba9e90029a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:44 +0000
Subject: [PATCH 35/79] fix: the composing schema is prior to those it composes
 at every level, wherever it is

---
 pyswagger/scanner/v2_0/aggt.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyswagger/scanner/v2_0/aggt.py b/pyswagger/scanner/v2_0/aggt.py
index 7695320..c6de6c4 100644
--- a/pyswagger/scanner/v2_0/aggt.py
+++ b/pyswagger/scanner/v2_0/aggt.py
@@ -1,7 +1,7 @@
 from __future__ import absolute_import
 from ...scan import Dispatcher
 from ...errs import CycleDetectionError
-from ...spec.v2_0.objects import Schema
+from ...spec.v2_0.objects import Parameter, Response, Schema
 from ...spec.base import NullContext
 from ...spec.v2_0.parser import SchemaContext
 from ...utils import deref, CycleGuard
@@ -22,6 +22,8 @@ def _compose(obj, guard=None):
         _compose(obj.items, guard)
     for v in six.itervalues(obj.properties):
         _compose(v, guard)
+    if isinstance(obj.additionalProperties, Schema):
+        _compose(obj.additionalProperties, guard)
     for v in (obj.allOf or []):
         _compose(v, guard)
 
@@ -31,7 +33,7 @@ def _compose(obj, guard=None):
     # those 'allOf' are visited by the last CycleGuard,
     # we need use a new one
     guard = CycleGuard()
-    stk = list(obj.allOf)
+    stk = list(reversed(obj.allOf))
     while len(stk) > 0:
         try:
             o = deref(stk.pop(), guard=guard)
@@ -41,11 +43,11 @@ def _compose(obj, guard=None):
         # values of these fields are opaque, can't be merged
         opaque = [n for n in ('default', 'example') if getattr(final, n) is not None]
         final.merge(o, SchemaContext, exclude=['$ref', 'allOf'] + opaque)
+        # the one that is composing others is prior to those composed.
         for n, p in six.iteritems(o.properties):
-            if n in obj.properties:
-                continue
-            final.properties[n] = p
-        stk.extend(o.allOf or [])
+            if n not in final.properties:
+                final.properties[n] = p
+        stk.extend(reversed(o.allOf or []))
     obj.update_field('final', final)
 
 
@@ -61,3 +63,10 @@ class Aggregate(object):
     @Disp.register([Schema])
     def _schema(self, path, obj, _):
         _compose(obj)
+
+    @Disp.register([Parameter, Response])
+    def _holder(self, path, obj, _):
+        # Schema of the merged one is not a child
+        # of any object, and won't be visited.
+        if obj.final and obj.final.schema:
+            _compose(obj.final.schema)
-- 
2.43.0


From 501d8f297c777de3f9b3e77720a77b0befd6bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:20 +0000
Subject: [PATCH 36/79] fix: cycle detection takes no longer than needed, also
 when schemas share what they refer to

---
 pyswagger/core.py                   | 10 +++++++---
 pyswagger/scanner/cycle_detector.py | 20 ++++++++++++++------
 pyswagger/utils.py                  | 25 +++++++++++++++++++++----
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 10375c3..93af514 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -332,8 +332,7 @@ class App(object):
 
         # reducer for Operation
         tr = TypeReduce(self.__sep)
-        cy = CycleDetector()
-        s.scan(root=self.__root, route=[tr, cy])
+        s.scan(root=self.__root, route=[tr])
 
         # 'op' -- shortcut for Operation with tag and operaionId
         self.__op = utils.ScopeDict(tr.op)
@@ -347,7 +346,12 @@ class App(object):
         self.__op.sep = self.__sep
 
         # cycle detection
-        if len(cy.cycles['schema']) > 0 and strict:
+        if not strict:
+            return
+
+        cy = CycleDetector(first=True)
+        s.scan(root=self.__root, route=[cy])
+        if len(cy.cycles['schema']) > 0:
             raise errs.CycleDetectionError('Cycles detected in Schema Object: {0}'.format(cy.cycles['schema']))
 
     @classmethod
diff --git a/pyswagger/scanner/cycle_detector.py b/pyswagger/scanner/cycle_detector.py
index 893a687..3c3782f 100644
--- a/pyswagger/scanner/cycle_detector.py
+++ b/pyswagger/scanner/cycle_detector.py
@@ -48,11 +48,15 @@ def _schema_out(app, path):
 
 
 class CycleDetector(object):
-    """ circular detector """
+    """ circular detector
+
+    :param bool first: look for one cycle of each kind, not all of them.
+    """
 
     class Disp(Dispatcher): pass
 
-    def __init__(self):
+    def __init__(self, first=False):
+        self.__first = first
         self.cycles = {
             'schema':[],
             'parameter':[],
@@ -65,7 +69,8 @@ class CycleDetector(object):
         self.cycles['schema'] = walk(
             path,
             functools.partial(_schema_out, app),
-            self.cycles['schema']
+            self.cycles['schema'],
+            self.__first
         )
 
     @Disp.register([Parameter])
@@ -73,7 +78,8 @@ class CycleDetector(object):
          self.cycles['parameter'] = walk(
             path,
             functools.partial(_out, app, ParameterContext),
-            self.cycles['parameter']
+            self.cycles['parameter'],
+            self.__first
         )
 
     @Disp.register([Response])
@@ -81,7 +87,8 @@ class CycleDetector(object):
         self.cycles['response'] = walk(
             path,
             functools.partial(_out, app, ResponseContext),
-            self.cycles['response']
+            self.cycles['response'],
+            self.__first
         )
 
     @Disp.register([PathItem])
@@ -89,6 +96,7 @@ class CycleDetector(object):
         self.cycles['path_item'] = walk(
             path,
             functools.partial(_out, app, PathItemContext),
-            self.cycles['path_item']
+            self.cycles['path_item'],
+            self.__first
         )
 
diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 609705b..1bfefd0 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -445,27 +445,39 @@ def get_swagger_version(obj):
         # should be an instance of BaseObj
         return obj.swaggerVersion if hasattr(obj, 'swaggerVersion') else obj.swagger
 
-def walk(start, ofn, cyc=None):
+def walk(start, ofn, cyc=None, first=False):
     """ Non recursive DFS to detect cycles
 
     :param start: start vertex in graph
     :param ofn: function to get the list of outgoing edges of a vertex
     :param cyc: list of existing cycles, cycles are represented in a list started with minimum vertex.
+    :param bool first: return as soon as one cycle is known
     :return: cycles
     :rtype: list of lists
     """
     ctx, stk = {}, [start]
     cyc = [] if cyc == None else cyc
 
-    while len(stk):
+    # low: position of the first vertex in 'stk' that is reachable from each one in 'stk'.
+    # done: those that can't reach back to 'stk', all cycles reachable from them are known.
+    low, done = [0], set()
+
+    while len(stk) and not (first and cyc):
         top = stk[-1]
 
         if top not in ctx:
-            ctx.update({top:list(ofn(top))})
+            ctx.update({top:[]})
+            for n in ofn(top):
+                if n not in ctx[top]:
+                    ctx[top].append(n)
 
         if len(ctx[top]):
             n = ctx[top][0]
-            if n in stk:
+            if n in done:
+                ctx[top].pop(0)
+            elif n in stk:
+                low[-1] = min(low[-1], stk.index(n))
+
                 # cycles found,
                 # normalize the representation of cycles,
                 # start from the smallest vertex, ex.
@@ -480,10 +492,15 @@ def walk(start, ofn, cyc=None):
                 ctx[top].pop(0)
             else:
                 stk.append(n)
+                low.append(len(stk) - 1)
         else:
             ctx.pop(top)
             stk.pop()
+            l = low.pop()
+            if l == len(stk):
+                done.add(top)
             if len(stk):
+                low[-1] = min(low[-1], l)
                 ctx[stk[-1]].remove(top)
 
     return cyc
-- 
2.43.0


From e68f4ce1885671b2e90db80c7e2b0d1d2c3f27e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 37/79] fix: cycles in the schema of a referenced parameter or
 response of another document are detected

---
 pyswagger/scanner/cycle_detector.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyswagger/scanner/cycle_detector.py b/pyswagger/scanner/cycle_detector.py
index 3c3782f..d37b894 100644
--- a/pyswagger/scanner/cycle_detector.py
+++ b/pyswagger/scanner/cycle_detector.py
@@ -73,6 +73,21 @@ class CycleDetector(object):
             self.__first
         )
 
+    @Disp.register([Parameter, Response])
+    def _holder(self, path, obj, app):
+        # Schema of the merged one is not a child
+        # of any object, and won't be visited.
+        if not getattr(obj, '$ref') or not obj.final or not obj.final.schema:
+            return
+
+        start = path + '/schema'
+        self.cycles['schema'] = walk(
+            start,
+            lambda p: _schema_out_obj(obj.final.schema) if p == start else _schema_out(app, p),
+            self.cycles['schema'],
+            self.__first
+        )
+
     @Disp.register([Parameter])
     def _parameter(self, path, _, app):
          self.cycles['parameter'] = walk(
-- 
2.43.0


From 166b7326b152dec08e172d86bc414cc253892cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 38/79] fix: names in ScopeDict are matched as a whole, a piece
 of a name finds nothing

---
 pyswagger/utils.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 1bfefd0..f502b95 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -74,20 +74,13 @@ class ScopeDict(dict):
         except KeyError as e:
             ret = []
             for ik in self.keys():
-                if ik.endswith(k):
+                # scopes have to be matched as a whole, 'get' should not match
+                #  - b!##!something-get
+                if ik.endswith(self.__sep + k):
                     ret.append(ik)
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
             elif len(ret) > 1:
-                # special case for the last token:
-                #  - a!##!get
-                #  - b!##!something-get
-                #  and access with 'get'
-                last_k = k.rsplit(self.__sep, 1)[-1]
-                matched = [r for r in ret if r.rsplit(self.__sep, 1)[-1] == last_k]
-                if len(matched) == 1:
-                    return super(ScopeDict, self).__getitem__(matched[0])
-
                 raise ValueError('Multiple occurrence of key: {0}'.format(k))
 
             raise e
-- 
2.43.0


From 8ddc31fb17e289b8111d41e02a39d33a757731aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 39/79] fix: render numbers within their limits

Limits of 0, negative maximum, exclusive maximum, multipleOf and values of enum that are 0
were ignored or missed, and the boundaries of int32/int64 were wrong.
---
 pyswagger/primitives/comm.py   | 10 +++--
 pyswagger/primitives/render.py | 78 ++++++++++++++++++++++------------
 2 files changed, 56 insertions(+), 32 deletions(-)

diff --git a/pyswagger/primitives/comm.py b/pyswagger/primitives/comm.py
index 225b160..ba2c48f 100644
--- a/pyswagger/primitives/comm.py
+++ b/pyswagger/primitives/comm.py
@@ -28,6 +28,11 @@ def min_max(obj, val, is_max):
     if to_raise:
         raise ValidationError('condition failed: {0}, v:{1} compared to o:{2}'.format('maximum' if is_max else 'minimum', val, n))
 
+def fraction(val):
+    """ the number in decimal form, float('0.1') is exactly 1/10.
+    """
+    return Fraction(repr(val)) if isinstance(val, float) else Fraction(val)
+
 def multiple_of(obj, val):
     """ multipleOf validator for float and integer
     """
@@ -36,10 +41,7 @@ def multiple_of(obj, val):
         return
 
     # compare in decimal form, 0.3 is a multiple of 0.1 although 0.3 % 0.1 is not 0.
-    def _frac(v):
-        return Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
-
-    if (_frac(val) / _frac(n)).denominator != 1:
+    if (fraction(val) / fraction(n)).denominator != 1:
         raise ValidationError('{0} should be multiple of {1}'.format(val, n))
 
 #
diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d606ea7..291daac 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -1,7 +1,8 @@
 from __future__ import absolute_import
 from ..spec.v2_0.objects import Parameter, Operation, Schema
 from ..utils import deref, final, from_iso8601
-from decimal import Decimal
+from .comm import fraction
+import math
 import random
 import six
 import sys
@@ -17,42 +18,63 @@ import time
 # TODO: enum of object, array
 
 # min/max of integer
-maxInt32 = 1 << 31 - 1
-minInt32 = -maxInt32
-maxInt64 = 1 << 63 - 1
-minInt64 = -maxInt64
+maxInt32 = (1 << 31) - 1
+minInt32 = -maxInt32 - 1
+maxInt64 = (1 << 63) - 1
+minInt64 = -maxInt64 - 1
+
+def _multiple(step, min_, max_):
+    """ pick a multiple of 'step' between min_ and max_,
+    those near to 0 are preferred, they can be represented precisely.
+    """
+    lo, hi = -(-min_ // step), max_ // step
+    return step * random.randint(
+        max(lo, min(hi, 0) - maxInt32),
+        min(hi, max(lo, 0) + maxInt32)
+    )
 
 def _int_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
-    max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
-    max_ = obj.maximum if obj.maximum else max_
-    max_ = max_-1 if obj.exclusiveMaximum else max_
-
-    min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
-    min_ = obj.minimum if obj.minimum else min_
-    min_ = min_+1 if obj.exclusiveMinimum else min_
-
-    out = random.randint(min_, max_)
-    return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
+    fmt = getattr(obj, 'format')
+    limit = (minInt64, maxInt64) if fmt == 'int64' else (minInt32, maxInt32)
+    min_, max_ = limit
+    if obj.minimum is not None:
+        min_ = int(math.floor(obj.minimum)) + 1 if obj.exclusiveMinimum else int(math.ceil(obj.minimum))
+    if obj.maximum is not None:
+        max_ = int(math.ceil(obj.maximum)) - 1 if obj.exclusiveMaximum else int(math.floor(obj.maximum))
+
+    if fmt in ('int32', 'int64'):
+        min_, max_ = max(min_, limit[0]), min(max_, limit[1])
+    elif obj.maximum is None:
+        max_ = max(max_, min_ + maxInt32)
+    elif obj.minimum is None:
+        min_ = min(min_, max_ - maxInt32)
+
+    # an integer is a multiple of 1.5 when it's a multiple of 3
+    step = fraction(obj.multipleOf).numerator if obj.multipleOf else 1
+    return int(_multiple(step, min_, max_)) if step != 1 else random.randint(min_, max_)
 
 def _float_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
-    # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum else sys.float_info.max
-    min_ = obj.minimum if obj.minimum else sys.float_info.min
+    max_ = obj.maximum if obj.maximum is not None else sys.float_info.max
+    min_ = obj.minimum if obj.minimum is not None else -sys.float_info.max
 
-    out = None
-    while out == None:
-        out = min_ + (max_ - min_) * random.random()
-        if obj.multipleOf and obj.multipleOf != 0:
-            out = int(out / obj.multipleOf) * obj.multipleOf
-        if out <= min_ and obj.exclusiveMinimum:
-            out = None
-    return float(out)
+    while True:
+        if obj.multipleOf:
+            out = float(_multiple(fraction(obj.multipleOf), fraction(min_), fraction(max_)))
+        else:
+            # max_ - min_ might overflow
+            rate = random.random()
+            out = float(min(max(min_ * (1 - rate) + max_ * rate, min_), max_))
+        if out == min_ and obj.exclusiveMinimum:
+            continue
+        if out == max_ and obj.exclusiveMaximum:
+            continue
+        return out
 
 def _str_(obj, opt, val=None):
     if val:
-- 
2.43.0


From bcce0bab370054e4eae71e963e1a2e3a79e01c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 40/79] fix: render strings and emails of the declared length,
 and falsy values of enum

---
 pyswagger/primitives/render.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 291daac..bd296ff 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -77,17 +77,17 @@ def _float_(obj, _, val=None):
         return out
 
 def _str_(obj, opt, val=None):
-    if val:
+    if val is not None:
         return val
 
-    max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
     min_ = obj.minLength if obj.minLength else 0
+    max_ = obj.maxLength if obj.maxLength is not None else max(opt['max_str_length'], min_)
 
     # note: length is 0~100, characters are limited to ASCII
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
 
 def _bool_(obj, _, val=None):
-    return bool(val) if val else random.randint(0, 1) == 0
+    return bool(val) if val is not None else random.randint(0, 1) == 0
 
 def _uuid_(obj, _, val=None):
     return uuid.UUID(val) if val else uuid.uuid4()
@@ -99,21 +99,30 @@ def _email_name_():
     + random.choice(string.ascii_letters)
 
 def _email_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     host_length = random.randint(2, 100)
     region_length = random.randint(2, 30)
-    return '.'.join([_email_name_() for _ in six.moves.xrange(random.randint(1, 4))]) \
-        + '@' \
-        + random.choice(string.ascii_letters) \
-        + ''.join([random.choice(names) for _ in six.moves.xrange(host_length)]) \
-        + '.' \
-        + random.choice(string.ascii_letters) \
+    if obj.minLength:
+        host_length = max(host_length, obj.minLength)
+
+    name = '.'.join([_email_name_() for _ in six.moves.xrange(random.randint(1, 4))])
+    host = random.choice(string.ascii_letters) \
+        + ''.join([random.choice(names) for _ in six.moves.xrange(host_length)])
+    region = random.choice(string.ascii_letters) \
         + ''.join([random.choice(names) for _ in six.moves.xrange(region_length)])
 
+    if obj.maxLength is not None and len(name) + len(host) + len(region) + 2 > obj.maxLength:
+        room = obj.maxLength - 2
+        name = name[:max(room // 3, 1)].rstrip('.')
+        region = region[:max(room // 3, 1)]
+        host = host[:max(room - len(name) - len(region), 1)]
+
+    return name + '@' + host + '.' + region
+
 def _byte_(obj, opt, val=None):
-    return val if val else base64.b64encode(
+    return val if val is not None else base64.b64encode(
         six.b(''.join([random.choice(string.ascii_letters) for _ in range(random.randint(0, opt['max_byte_length']))]))
     )
 
-- 
2.43.0


From ce9aed8296b1b5f37a4434ad158f11ef9854f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 41/79] fix: render arrays and objects of the declared size

minItems larger than the default maximum, maxItems of 0, uniqueItems, minProperties, maxProperties,
additionalProperties without minProperties or colliding with declared properties, read-only properties
and schemas nested in themselves.
---
 pyswagger/primitives/render.py | 62 ++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index bd296ff..ee79889 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -201,48 +201,82 @@ class Renderer(object):
         r = self._map.get(_type, None)
         return None if r == None else r.get(_format, None)
 
-    def _generate(self, obj, opt):
+    def _generate(self, obj, opt, outer=(), nested=False):
+        """
+        :param tuple outer: those objects in generation and containing this one
+        :param bool nested: this one is part of an object nested in itself,
+            only generate required parts of it, or the generation might never end.
+        """
         obj = final(deref(obj))
         type_ = getattr(obj, 'type', None)
         template = opt['object_template']
+        nested = nested or any(o is obj for o in outer)
+        outer = outer + (obj,)
         out = None
         if type_ == 'object':
-            max_p = opt['max_property']
+            max_p = opt['max_property'] and not nested
+            minimal = (opt['minimal_property'] or nested) and not max_p
             out = {}
-            max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
-            min_ = obj.minProperties if obj.minProperties else None
-            count = 0
+            min_ = obj.minProperties if obj.minProperties else 0
+            max_ = obj.maxProperties
+            optional = []
             for name, prop in six.iteritems(obj.properties or {}):
                 if name in template:
                     out[name] = template[name]
+                elif deref(prop).readOnly and name not in obj.required:
+                    # would be refused in a request
                     continue
-                if not max_p and not name in obj.required:
-                    if random.randint(0, 1) == 0 or opt['minimal_property']:
+                elif name in obj.required:
+                    out[name] = self._generate(prop, opt, outer, nested)
+                else:
+                    optional.append(name)
+
+            random.shuffle(optional)
+            for idx, name in enumerate(optional):
+                if max_ is not None and len(out) >= max_:
+                    break
+                if not max_p:
+                    # some of them might be necessary for minProperties
+                    spare = not isinstance(obj.additionalProperties, Schema) and len(out) + len(optional) - idx <= min_
+                    if not spare and (minimal or random.randint(0, 1) == 0):
                         continue
-                out[name] = self._generate(prop, opt)
-                count = count + 1
+                out[name] = self._generate(obj.properties[name], opt, outer, nested)
 
             if isinstance(obj.additionalProperties, Schema):
                 # TODO: additionalProperties == True is not handled
 
+                if max_ is None:
+                    max_ = max(opt['max_prop_count'], min_)
+
                 # generate random properties
-                more = random.randint(min_, max_) - count
+                more = (min_ if minimal else random.randint(min_, max_)) - len(out)
                 if more > 0:
                     # generate a random string as property-name
                     for _ in six.moves.xrange(more):
                         while True:
                             length = random.randint(0, opt['max_name_length'])
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
-                            if name not in out:
-                                out[name] = self._generate(obj.additionalProperties, opt)
+                            if name not in out and name not in obj.properties:
+                                out[name] = self._generate(obj.additionalProperties, opt, outer, nested)
                                 break
 
         elif type_ == 'array':
             min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems else opt['max_array_length']
+            max_ = obj.maxItems if obj.maxItems is not None else max(opt['max_array_length'], min_)
+            if nested:
+                max_ = min_
             out = []
             for _ in six.moves.xrange(random.randint(min_, max_)):
-                out.append(self._generate(obj.items, opt))
+                v = self._generate(obj.items, opt, outer, nested)
+                if obj.uniqueItems:
+                    # there might not be that many different values
+                    for _ in six.moves.xrange(100):
+                        if v not in out:
+                            break
+                        v = self._generate(obj.items, opt, outer, nested)
+                    else:
+                        break
+                out.append(v)
 
         elif type_ != None:
             out = None
-- 
2.43.0


From 6c216452f6ca62d712281800aa7f50efb8570d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 42/79] fix: render parameters declared by reference

---
 pyswagger/primitives/render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index ee79889..91d61d9 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -341,6 +341,7 @@ class Renderer(object):
             raise ValueError('Not a dict: {0}'.format(opt))
 
         if isinstance(obj, Parameter):
+            obj = final(obj)
             if getattr(obj, 'in', None) == 'body':
                 return self._generate(obj.schema, opt)
             return self._generate(obj, opt=opt)
@@ -367,6 +368,7 @@ class Renderer(object):
         max_p = opt['max_parameter']
         out = {}
         for p in op.parameters:
+            p = final(p)
             if p.name in exclude:
                 continue
             if p.name in template:
-- 
2.43.0


From 2fd9bb0f2c88fba9b43588061843fbca0e57741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 43/79] fix: TornadoClient returns answers of every status, and
 sends requests with or without payload by any method

---
 pyswagger/contrib/client/tornado.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 4acac00..7fb0934 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -41,13 +41,21 @@ class TornadoClient(BaseClient):
 
         url = url_concat(req.url, req.query)
 
+        # tornado expects a payload exactly for these methods by default,
+        # but payload is declared per operation.
+        method, body = req.method.upper(), req.data
+        if body is None and method in ('POST', 'PUT', 'PATCH'):
+            body = ''
+
         rq = HTTPRequest(
             url=url,
-            method=req.method.upper(),
+            method=method,
             headers=tornado_headers,
-            body=req.data
+            body=body,
+            allow_nonstandard_methods=True
             )
-        rs = yield self.__client.fetch(rq)
+        # every status is an answer here, refer to Responses Object.
+        rs = yield self.__client.fetch(rq, raise_error=False)
 
         resp.apply_with(
             status=rs.code,
-- 
2.43.0


From 223fe078b3fe891e1732a89f5c571b43cdd443fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 44/79] fix: FlaskTestClient sends url-encoded forms, repeated
 fields beside files, and files from disk, of text or with a type

---
 pyswagger/contrib/client/flask.py | 32 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index 24cee92..b5adb62 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 from ...core import BaseClient
-from werkzeug.datastructures import FileStorage
+from werkzeug.datastructures import FileStorage, MultiDict
 import six
 
 
@@ -39,28 +39,26 @@ class FlaskTestClient(BaseClient):
 
         # prepare data, flask's data is composed of form and file
         if req.files:
-            data = {}
+            data = MultiDict()
             # form
-            data.update(req._p['formData'])
+            for k, v in req._p['formData']:
+                data.add(k, v)
             # file
             for k, v in six.iteritems(req.files):
-                if isinstance(v, list):
-                    data[k] = []
-                    for vv in v:
-                        data[k].append(FileStorage(
-                            name=k,
-                            filename=vv.filename,
-                            stream=vv.data
-                        ))
-                else:
-                    data[k] = FileStorage(
+                for vv in v if isinstance(v, list) else [v]:
+                    stream = vv.data or open(vv.filename, 'rb')
+                    if isinstance(stream.read(0), six.text_type):
+                        # streams of text are sent in utf-8
+                        stream = six.BytesIO(stream.read().encode('utf-8'))
+                    data.add(k, FileStorage(
                         name=k,
-                        filename=v.filename,
-                        stream=v.data
-                    )
+                        filename=vv.filename,
+                        stream=stream,
+                        content_type=vv.header.get('Content-Type', None)
+                    ))
 
         else:
-            data = req.data if req._p['body'] else req._p['formData']
+            data = req.data
 
         r = self.__client.open(
             path=req.url,
-- 
2.43.0


From 3b09c533bb2a037f65eb5a9c61879ca92b0f99b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 45/79] fix: repeated headers of a response are kept apart by
 the client of requests

---
 pyswagger/contrib/client/requests.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index a7bce1d..3813d4d 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -68,9 +68,13 @@ class Client(BaseClient):
         rq = self.__s.prepare_request(rq)
         rs = self.__s.send(rq, stream=True, **self.__send_opt)
 
+        # repeated headers are merged into one value by requests,
+        # they are still separated in the response of urllib3.
+        header = getattr(rs.raw, 'headers', None) or rs.headers
+
         resp.apply_with(
             status=rs.status_code,
-            header=rs.headers,
+            header=list(header.items()),
             raw=six.BytesIO(rs.content).getvalue()
         )
 
-- 
2.43.0


From 5f10de2dde950212e66632aa2737c6a441bf30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 46/79] fix: headers are joined whatever the case of their
 names

---
 pyswagger/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 93af514..42339b1 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -621,9 +621,10 @@ class BaseClient(object):
             raise Exception('unknown type as header: {}'.format(str(type(headers))))
 
         if join_headers:
-            joined = {}
+            joined, names = {}, {}
             for h in aggregated_headers:
-                key = h[0]
+                # names of headers are case insensitive
+                key = names.setdefault(h[0].lower(), h[0])
                 if key in joined:
                     joined[key] = ','.join([joined[key], h[1]])
                 else:
-- 
2.43.0


From 7fdc39c906528501fc8e0cf93544ca63775e6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:35 +0000
Subject: [PATCH 47/79] fix: options and headers given to a client are left as
 they were

---
 pyswagger/contrib/client/requests.py | 2 +-
 pyswagger/contrib/client/tornado.py  | 2 +-
 pyswagger/contrib/client/webapp2.py  | 2 +-
 pyswagger/core.py                    | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyswagger/contrib/client/requests.py b/pyswagger/contrib/client/requests.py
index 3813d4d..568e9a2 100644
--- a/pyswagger/contrib/client/requests.py
+++ b/pyswagger/contrib/client/requests.py
@@ -32,7 +32,7 @@ class Client(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(Client, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
diff --git a/pyswagger/contrib/client/tornado.py b/pyswagger/contrib/client/tornado.py
index 7fb0934..8afbe9c 100644
--- a/pyswagger/contrib/client/tornado.py
+++ b/pyswagger/contrib/client/tornado.py
@@ -28,7 +28,7 @@ class TornadoClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(TornadoClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
diff --git a/pyswagger/contrib/client/webapp2.py b/pyswagger/contrib/client/webapp2.py
index c733542..df691b9 100644
--- a/pyswagger/contrib/client/webapp2.py
+++ b/pyswagger/contrib/client/webapp2.py
@@ -40,7 +40,7 @@ class Webapp2TestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(Webapp2TestClient, self).request((req, resp), opt)
 
         req.prepare(scheme=self.prepare_schemes(req), handle_files=True)
diff --git a/pyswagger/core.py b/pyswagger/core.py
index 42339b1..8904f4e 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -602,10 +602,10 @@ class BaseClient(object):
             return list(req.header.items()) if not as_dict else req.header
 
         opt = opt or {}
-        join_headers = opt.pop(BaseClient.join_headers, None)
+        join_headers = opt.get(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers) if isinstance(headers, list) else headers
+            headers = dict(headers)
             headers.update(req.header)
             return headers
 
-- 
2.43.0


From 991b32de22da43a4c3fa42edbfe9aaa3461e1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:35 +0000
Subject: [PATCH 48/79] fix: files are sent as a whole when a request is sent
 again

---
 pyswagger/contrib/client/flask.py |  9 +++------
 pyswagger/io.py                   | 14 +++++---------
 pyswagger/primitives/_file.py     | 29 +++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/pyswagger/contrib/client/flask.py b/pyswagger/contrib/client/flask.py
index b5adb62..212c153 100644
--- a/pyswagger/contrib/client/flask.py
+++ b/pyswagger/contrib/client/flask.py
@@ -28,7 +28,7 @@ class FlaskTestClient(BaseClient):
         req.reset()
         resp.reset()
 
-        opt = opt or {}
+        opt = dict(opt or {})
         req, resp = super(FlaskTestClient, self).request((req, resp), opt)
 
         # apply request-related options before preparation.
@@ -46,14 +46,11 @@ class FlaskTestClient(BaseClient):
             # file
             for k, v in six.iteritems(req.files):
                 for vv in v if isinstance(v, list) else [v]:
-                    stream = vv.data or open(vv.filename, 'rb')
-                    if isinstance(stream.read(0), six.text_type):
-                        # streams of text are sent in utf-8
-                        stream = six.BytesIO(stream.read().encode('utf-8'))
                     data.add(k, FileStorage(
                         name=k,
                         filename=vv.filename,
-                        stream=stream,
+                        # the stream passed here would be closed by werkzeug
+                        stream=six.BytesIO(vv.read()),
                         content_type=vv.header.get('Content-Type', None)
                     ))
 
diff --git a/pyswagger/io.py b/pyswagger/io.py
index c710af5..b22d868 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -45,6 +45,10 @@ class Request(object):
         self.__header = CaseInsensitiveDict()
         self.__data = None
 
+        for f in six.itervalues(self.__p['file']):
+            for ff in f if isinstance(f, list) else [f]:
+                ff.reset()
+
     def consume(self, consume):
         self.__consume = consume
         return self
@@ -118,15 +122,7 @@ class Request(object):
             body.write(six.b('\r\n'))
 
             # body
-            if not obj.data:
-                with open(obj.filename, 'rb') as f:
-                    body.write(f.read())
-            else:
-                data = obj.data.read()
-                if isinstance(data, six.text_type):
-                    w(body).write(data)
-                else:
-                    body.write(data)
+            body.write(obj.read(encoding))
 
             body.write(six.b('\r\n'))
 
diff --git a/pyswagger/primitives/_file.py b/pyswagger/primitives/_file.py
index 99920e0..d2e1f28 100644
--- a/pyswagger/primitives/_file.py
+++ b/pyswagger/primitives/_file.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from ..errs import ValidationError
+import six
 
 
 class File(object):
@@ -30,3 +31,31 @@ class File(object):
             raise ValidationError('should have file name or file object, not: {0}, {1}'.format(
                 self.data, self.filename
             ))
+
+        # where to start over when this file is sent again
+        self.__start = None
+        if self.data and hasattr(self.data, 'tell'):
+            try:
+                self.__start = self.data.tell()
+            except (IOError, OSError):
+                # not seekable, ex. pipes
+                pass
+
+    def reset(self):
+        """ back to the beginning, to be sent again
+        """
+        if self.__start is not None:
+            self.data.seek(self.__start)
+
+    def read(self, encoding='utf-8'):
+        """ content of this file
+
+        :param str encoding: encoding for streams of text
+        :rtype: bytes
+        """
+        if not self.data:
+            with open(self.filename, 'rb') as f:
+                return f.read()
+
+        data = self.data.read()
+        return data.encode(encoding) if isinstance(data, six.text_type) else data
-- 
2.43.0


From 90fc8f2febf914ad947411d5ddd26178ca0daae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 49/79] fix: default values of a document are not shared with
 the values produced from it

---
 pyswagger/primitives/_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index f1816c6..55a4631 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 from ..utils import deref
+import copy
 import six
 
 class Model(dict):
@@ -43,7 +44,8 @@ class Model(dict):
         for k in other_prop:
             p = deref(obj.properties[k])
             if p.is_set("default"):
-                self[k] = ctx['factory'].produce(p, p.default, dict(read=ctx['read']))
+                # this model should not share its content with the default value
+                self[k] = ctx['factory'].produce(p, copy.deepcopy(p.default), dict(read=ctx['read']))
 
         # those required might be provided by other Schema objects in 'allOf',
         # check them when all are applied.
-- 
2.43.0


From f6fc3e6fee5420ec297b986f49b15921d22dfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:19 +0000
Subject: [PATCH 50/79] fix: convert a 1.2 resource listing without info

'info' is optional in the resource listing of Swagger 1.2, those without it
could not be loaded at all.
---
 pyswagger/scanner/v1_2/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f65a5f9..1167024 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -98,12 +98,12 @@ class Upgrade(object):
         info.update_field('description', get_or_none(obj, 'info', 'description'))
         info.update_field('termsOfService', get_or_none(obj, 'info', 'termsOfServiceUrl'))
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact = objects.Contact(NullContext())
             contact.update_field('email', get_or_none(obj, 'info', 'contact'))
             info.update_field('contact', contact)
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(obj, 'info', 'licenseUrl'):
             license = objects.License(NullContext())
             license.update_field('name', get_or_none(obj, 'info', 'license'))
             license.update_field('url', get_or_none(obj, 'info', 'licenseUrl'))
-- 
2.43.0


From bce6872f064a7bc214a24e65e45b115774dc40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:34 +0000
Subject: [PATCH 51/79] fix: keep a minimum/maximum of 0 when converting from
 1.2

A number 0 (not the string) was taken as missing.
---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 1167024..a115e24 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -30,7 +30,7 @@ def update_type_and_ref(dst, src, scope, sep, app):
 def convert_min_max(dst, src):
     def _from_str(name):
         v = getattr(src, name, None)
-        if v:
+        if v not in (None, ''):
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
                 # that's why we need to convert to float first
-- 
2.43.0


From 5ae74c044b3012ec228afeb78461eb0af4ab2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:00 +0000
Subject: [PATCH 52/79] fix: dump 1.2 operations without return value

Their response was dumped as null, such a dump could not be used.
---
 pyswagger/scanner/v1_2/upgrade.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index a115e24..b6bd7d1 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -172,6 +172,9 @@ class Upgrade(object):
         resp = objects.Response(NullContext())
         if obj.type != 'void':
             resp.update_field('schema', convert_schema_from_datatype(obj, scope, self.__sep, app))
+        else:
+            # an empty object can't be dumped, and this one is required in 2.0
+            resp.update_field('description', '')
         o.responses['default'] = resp
 
         path = obj._parent_.basePath + obj.path
-- 
2.43.0


From 16f6930815dc578bfebca8145182c33b03465c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 53/79] fix: refuse 1.2 documents with several hosts, accept
 those without common path

The common prefix of all paths was taken as the base: with different hosts, or
hosts and schemes that start alike, the result was a document with a wrong host
and broken paths instead of the documented exception, and without operations
it was an IndexError.
---
 pyswagger/scanner/v1_2/upgrade.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index b6bd7d1..14c33f3 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -13,7 +13,6 @@ from ...spec.v1_2.objects import (
     Model,
 )
 from ...spec.v2_0 import objects
-import os
 import six
 
 
@@ -291,24 +290,23 @@ class Upgrade(object):
     def swagger(self):
         """ some preparation before returning Swagger object
         """
-        # prepare Swagger.host & Swagger.basePath
+        # prepare Swagger.host & Swagger.paths
         if not self.__swagger:
             return None
 
-        common_path = os.path.commonprefix(list(self.__swagger.paths))
-        # remove tailing slash,
-        # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[-1] == '/' else common_path
+        base, new_path = None, {}
+        for k, v in six.iteritems(self.__swagger.paths):
+            p = six.moves.urllib.parse.urlparse(k)
+            if base is None:
+                base = p[:2]
+            elif base != p[:2]:
+                # there is only one host in 2.0
+                raise SchemaError('Can\'t have different schemes or hosts in basePath: {0}, {1}'.format(base, p[:2]))
 
-        if len(common_path) > 0:
-            p = six.moves.urllib.parse.urlparse(common_path)
-            self.__swagger.update_field('host', p.netloc)
+            new_path[k[len(six.moves.urllib.parse.urlunparse(p[:2] + ('', '', '', ''))):]] = v
 
-            new_common_path = six.moves.urllib.parse.urlunparse((
-                p.scheme, p.netloc, '', '', '', ''))
-            new_path = {}
-            for k in self.__swagger.paths.keys():
-                new_path[k[len(new_common_path):]] = self.__swagger.paths[k]
+        if base:
+            self.__swagger.update_field('host', base[1])
             self.__swagger.update_field('paths', new_path)
 
         return self.__swagger
-- 
2.43.0


From 22281a6b4c277775ea11542ddba5d70fbe179d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 54/79] fix: call a 1.2 API with a https basePath by https only

It was converted to a document that offers http as well, requests prepared
without choosing a scheme were sent unencrypted.
---
 pyswagger/scanner/v1_2/upgrade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 14c33f3..134bc10 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -307,6 +307,8 @@ class Upgrade(object):
 
         if base:
             self.__swagger.update_field('host', base[1])
+            if base[0] == 'https':
+                self.__swagger.update_field('schemes', ['https'])
             self.__swagger.update_field('paths', new_path)
 
         return self.__swagger
-- 
2.43.0


From ebecdc162fb7f55362314a10cbaedff82a045dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:41 +0000
Subject: [PATCH 55/79] fix: names with a slash or tilde when converting from
 1.2

The names of resources and authorizations were taken from a JSON pointer
without decoding, those of models were used in one without encoding.
---
 pyswagger/scanner/v1_2/upgrade.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 134bc10..0efcb03 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...spec.base import NullContext
 from ...scan import Dispatcher
 from ...errs import SchemaError
-from ...utils import scope_compose, get_or_none
+from ...utils import scope_compose, get_or_none, jp_compose, jp_split
 from ...consts import private
 from ...spec.v1_2.objects import (
     ResourceList,
@@ -16,15 +16,24 @@ from ...spec.v2_0 import objects
 import six
 
 
+def name_of(obj, path):
+    """ name of Resource/Authorization, those in path are
+    encoded as tokens of JSON pointer
+    """
+    return jp_split(obj.get_name(path))[0]
+
+def definition_ref(scope, name, sep):
+    return '#/' + jp_compose(['definitions', scope_compose(scope, name, sep=sep)])
+
 def update_type_and_ref(dst, src, scope, sep, app):
     ref = getattr(src, '$ref')
     if ref:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, ref, sep=sep))
+        dst.update_field('$ref', definition_ref(scope, ref, sep))
 
     if app.prim_factory.is_primitive(getattr(src, 'type', None)):
         dst.update_field('type', src.type.lower())
     elif src.type:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, src.type, sep=sep))
+        dst.update_field('$ref', definition_ref(scope, src.type, sep))
 
 def convert_min_max(dst, src):
     def _from_str(name):
@@ -131,7 +140,7 @@ class Upgrade(object):
 
     @Disp.register([Resource])
     def _resource(self, path, obj, app):
-        name = obj.get_name(path)
+        name = name_of(obj, path)
         for t in self.__swagger.tags:
             if t.name == name:
                 break
@@ -143,7 +152,7 @@ class Upgrade(object):
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         o = objects.Operation(NullContext())
-        scope = obj._parent_.get_name(path)
+        scope = name_of(obj._parent_, path)
 
         o.update_field('tags', [scope])
         o.update_field('operationId', obj.nickname)
@@ -206,12 +215,12 @@ class Upgrade(object):
             o.update_field('name', obj.keyname)
             o.update_field('in', obj.passAs)
 
-        self.__swagger.securityDefinitions[obj.get_name(path)] = o
+        self.__swagger.securityDefinitions[name_of(obj, path)] = o
 
     @Disp.register([Parameter])
     def _parameter(self, path, obj, app):
         o = objects.Parameter(NullContext())
-        scope = obj._parent_._parent_.get_name(path)
+        scope = name_of(obj._parent_._parent_, path)
 
         o.update_field('name', obj.name)
         o.update_field('required', obj.required)
@@ -256,7 +265,7 @@ class Upgrade(object):
 
     @Disp.register([Model])
     def _model(self, path, obj, app):
-        scope = obj._parent_.get_name(path)
+        scope = name_of(obj._parent_, path)
 
         s = scope_compose(scope, obj.get_name(path), sep=self.__sep)
         o = self.__swagger.definitions.get(s, None)
@@ -283,7 +292,7 @@ class Upgrade(object):
                 self.__swagger.definitions[sub_s] = sub_o
 
             new_ref = objects.Schema(NullContext())
-            new_ref.update_field('$ref', '#/definitions/' + s)
+            new_ref.update_field('$ref', definition_ref(scope, obj.get_name(path), self.__sep))
             sub_o.allOf.append(new_ref)
 
     @property
-- 
2.43.0


From e1e157f3799a0af9f9f7e0c30b09bbcbb45a46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 56/79] fix: keep the range of parameters with allowMultiple
 when converting from 1.2

---
 pyswagger/scanner/v1_2/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 0efcb03..f403c64 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -245,6 +245,7 @@ class Upgrade(object):
                 if obj.is_set("defaultValue"):
                     o.update_field('default', [obj.defaultValue])
                 o.items.update_field('enum', obj.enum)
+                convert_min_max(o.items, obj)
             else:
                 o.update_field('type', obj.type.lower())
                 o.update_field('format', obj.format)
-- 
2.43.0


From 5e4d66e7f10c9aa3388f784fb4f13c5849d21d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:39 +0000
Subject: [PATCH 57/79] fix: scopes in the authorizations of a 1.2 resource

The authorizations of a resource are not parsed into objects, those with scopes
failed with an AttributeError.
---
 pyswagger/scanner/v1_2/upgrade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f403c64..a3c6bff 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -173,7 +173,8 @@ class Upgrade(object):
         _auth = obj.authorizations if obj.authorizations and len(obj.authorizations) > 0 else obj._parent_.authorizations
         if _auth:
             for name, scopes in six.iteritems(_auth):
-                o.security.append({name: [v.scope for v in scopes]})
+                # those of a resource object are not parsed
+                o.security.append({name: [v['scope'] if isinstance(v, dict) else v.scope for v in scopes]})
 
         # Operation return value
         o.update_field('responses', {})
-- 
2.43.0


From 2e147ac78a6e631b147d564953d4ff549fc830ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:56 +0000
Subject: [PATCH 58/79] fix: dump the scopes of 1.2 that have no description

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index a3c6bff..7330f12 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -203,7 +203,7 @@ class Upgrade(object):
             o.update_field('type', obj.type)
         o.update_field('scopes', {})
         for s in obj.scopes or []:
-            o.scopes[s.scope] = s.description
+            o.scopes[s.scope] = s.description or ''
 
         if o.type == 'oauth2':
             o.update_field('authorizationUrl', get_or_none(obj, 'grantTypes', 'implicit', 'loginEndpoint', 'url'))
-- 
2.43.0


From be7ebe67f99efa43763202151cd477d0eaf2afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 59/79] fix: discriminators of 1.2 models with a custom scope
 separator

Names of models were found by splitting at the default separator: with
App.load(sep=...) a discriminator was sent with the name of the resource
in front.
---
 pyswagger/scanner/v1_2/upgrade.py   | 2 ++
 pyswagger/scanner/v2_0/patch_obj.py | 7 +++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 7330f12..e1a3741 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -274,6 +274,7 @@ class Upgrade(object):
         if not o:
             o = objects.Schema(NullContext())
             self.__swagger.definitions[s] = o
+        o.update_field('name', obj.get_name(path))
 
         props = {}
         for name, prop in six.iteritems(obj.properties):
@@ -291,6 +292,7 @@ class Upgrade(object):
             sub_o = self.__swagger.definitions.get(sub_s, None)
             if not sub_o:
                 sub_o = objects.Schema(NullContext())
+                sub_o.update_field('name', t)
                 self.__swagger.definitions[sub_s] = sub_o
 
             new_ref = objects.Schema(NullContext())
diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 1cbb8c3..5b41b32 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...scan import Dispatcher
 from ...spec.v2_0.objects import PathItem, Operation, Schema, Swagger
 from ...spec.v2_0.parser import PathItemContext
-from ...utils import jp_split, scope_split, final
+from ...utils import jp_split, final
 import six
 import copy
 
@@ -90,8 +90,7 @@ class PatchObject(object):
         """
         if path.startswith('#/definitions'):
             last_token = jp_split(path)[-1]
-            if app.version == '1.2':
-                obj.update_field('name', scope_split(last_token)[-1])
-            else:
+            # models of Swagger 1.2 are named when converted
+            if app.version != '1.2' or not obj.name:
                 obj.update_field('name', last_token)
 
-- 
2.43.0


From fc39509e0644b798148b75a0c14f5aceeaf036e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:41 +0000
Subject: [PATCH 60/79] fix: validate before converting or resolving a document

Strict preparation of an invalid 1.2 document failed with whatever the
conversion ran into, the ValidationError was never raised. Response codes given
as numbers (yaml) are fixed when loaded, validation of them failed as well.
---
 pyswagger/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 8904f4e..ec29fe9 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -286,6 +286,11 @@ class App(object):
         if app.__version not in ['1.2', '2.0']:
             raise NotImplementedError('Unsupported Version: {0}'.format(self.__version))
 
+        if app.__version == '2.0':
+            # fix for yaml that treat response code as number,
+            # those can't be validated
+            Scanner(app).scan(root=app.__raw, route=[YamlFixer()], leaves=[Operation])
+
         # update scheme if any
         p = six.moves.urllib.parse.urlparse(url)
         if p.scheme:
@@ -315,8 +320,9 @@ class App(object):
         :param bool strict: when in strict mode, exception would be raised if not valid.
         """
 
-        self.__root = self.prepare_obj(self.raw, self.__url)
+        # those not valid might not be able to be prepared
         self.validate(strict=strict)
+        self.__root = self.prepare_obj(self.raw, self.__url)
 
         if hasattr(self.__root, 'schemes') and self.__root.schemes:
             if len(self.__root.schemes) > 0:
-- 
2.43.0


From 6ad25a55d5942d0bc93c0b74d255eb0e0542e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:41 +0000
Subject: [PATCH 61/79] fix: validate File parameters of 1.2 operations without
 'consumes'

It is inherited from the resource then, validation failed with a TypeError.
---
 pyswagger/scanner/v1_2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ea1d80a..b4af5b6 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -66,7 +66,7 @@ class Validate(object):
         if obj.type == 'File':
             if obj.paramType != 'form':
                 errs.append('File parameter should be form type: {0}'.format(obj.name))
-            if 'multipart/form-data' not in obj._parent_.consumes:
+            if 'multipart/form-data' not in (obj._parent_.consumes or obj._parent_._parent_.consumes or []):
                 errs.append('File parameter should consume multipart/form-data: {0}'.format(obj.name))
 
         if obj.type == 'void':
-- 
2.43.0


From dfcb81dd61d449ed0ccca621d26d453bafc5ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:41 +0000
Subject: [PATCH 62/79] fix: report unknown authorizations of 1.2 operations

Validation failed with a KeyError instead.
---
 pyswagger/scanner/v1_2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index b4af5b6..5cfc680 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -132,7 +132,7 @@ class Validate(object):
             if k not in app.raw.authorizations:
                 errs.append('auth {0} not found in resource list'.format(k))
 
-            if app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
+            elif app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
                 errs.append('auth {0} should be an empty list'.format(k))
 
         return path, obj.__class__.__name__, errs
-- 
2.43.0


From 981af247af2cded9633d12e3f20fcf219d82f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:09 +0000
Subject: [PATCH 63/79] fix: do not keep objects whose resolution failed

---
 pyswagger/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index ec29fe9..bdff0d6 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -439,9 +439,16 @@ class App(object):
         # this object is not found in cache
         if obj == None:
             if url:
-                obj, _ = self.load_obj(jref, parser=parser)
-                if obj:
-                    obj = self.prepare_obj(obj, jref)
+                cached = dict((u, dict(o) if isinstance(o, dict) else o) for u, o in six.iteritems(self.__objs))
+                try:
+                    obj, _ = self.load_obj(jref, parser=parser)
+                    if obj:
+                        obj = self.prepare_obj(obj, jref)
+                except BaseException:
+                    # objects cached in the meantime might not be
+                    # completely resolved, never return them later.
+                    self.__objs = cached
+                    raise
             else:
                 # a local reference, 'jref' is just a json-pointer
                 if not jp.startswith('#'):
-- 
2.43.0


From fd1e6a6034f19e00977458258709a35167eb14c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:41 +0000
Subject: [PATCH 64/79] fix: keep lists given as 'default' as they are when
 merging

---
 pyswagger/scanner/v2_0/aggt.py  |  8 +++-----
 pyswagger/scanner/v2_0/merge.py |  8 ++++----
 pyswagger/utils.py              | 34 +++++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/pyswagger/scanner/v2_0/aggt.py b/pyswagger/scanner/v2_0/aggt.py
index c6de6c4..7017a9d 100644
--- a/pyswagger/scanner/v2_0/aggt.py
+++ b/pyswagger/scanner/v2_0/aggt.py
@@ -4,7 +4,7 @@ from ...errs import CycleDetectionError
 from ...spec.v2_0.objects import Parameter, Response, Schema
 from ...spec.base import NullContext
 from ...spec.v2_0.parser import SchemaContext
-from ...utils import deref, CycleGuard
+from ...utils import deref, merge, CycleGuard
 import six
 
 def _compose(obj, guard=None):
@@ -28,7 +28,7 @@ def _compose(obj, guard=None):
         _compose(v, guard)
 
     final = Schema(NullContext())
-    final.merge(obj, SchemaContext)
+    merge(final, obj, SchemaContext)
 
     # those 'allOf' are visited by the last CycleGuard,
     # we need use a new one
@@ -40,9 +40,7 @@ def _compose(obj, guard=None):
         except CycleDetectionError:
             continue
         o = o.final if o.final else o
-        # values of these fields are opaque, can't be merged
-        opaque = [n for n in ('default', 'example') if getattr(final, n) is not None]
-        final.merge(o, SchemaContext, exclude=['$ref', 'allOf'] + opaque)
+        merge(final, o, SchemaContext, exclude=['$ref', 'allOf'])
         # the one that is composing others is prior to those composed.
         for n, p in six.iteritems(o.properties):
             if n not in final.properties:
diff --git a/pyswagger/scanner/v2_0/merge.py b/pyswagger/scanner/v2_0/merge.py
index 107153f..a97873a 100644
--- a/pyswagger/scanner/v2_0/merge.py
+++ b/pyswagger/scanner/v2_0/merge.py
@@ -12,7 +12,7 @@ from ...spec.v2_0.objects import (
     PathItem,
     )
 from ...spec.base import NullContext
-from ...utils import CycleGuard
+from ...utils import CycleGuard, merge
 
 
 def _merge(obj, app, creator, parser):
@@ -20,7 +20,7 @@ def _merge(obj, app, creator, parser):
     This operation should be carried in a cascade manner.
     """
     result = creator(NullContext())
-    result.merge(obj, parser)
+    merge(result, obj, parser)
 
     guard = CycleGuard()
     guard.update(obj)
@@ -37,7 +37,7 @@ def _merge(obj, app, creator, parser):
             # cycle detection has a dedicated scanner.
             break
 
-        result.merge(ro, parser)
+        merge(result, ro, parser)
         r = getattr(ro, '$ref')
     return result
 
@@ -56,5 +56,5 @@ class Merge(object):
 
     @Disp.register([PathItem])
     def _path_item(self, _, obj, app):
-        obj.merge(_merge(obj, app, PathItem, PathItemContext), PathItemContext)
+        merge(obj, _merge(obj, app, PathItem, PathItemContext), PathItemContext)
 
diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index f502b95..05d1ef9 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -269,6 +269,40 @@ def deref(obj, guard=None):
 def final(obj):
     return obj.final if getattr(obj, 'final', None) else obj
 
+def merge(dst, src, ctx, exclude=[]):
+    """ BaseObj.merge for Swagger 2.0, besides: values of 'default' and
+    'example' can be anything, they are taken as they are. Lists among them
+    are neither a set, nor to be extended by another one.
+
+    :param BaseObj dst: the object to be updated
+    :param BaseObj src: the source object to be merged from
+    :param Context ctx: the parsing context
+    """
+    opaque = ('default', 'example')
+
+    def _restore(d, s):
+        for n in opaque:
+            if isinstance(getattr(s, n, None), list):
+                d.update_field(n, getattr(s, n))
+        for n, c in six.iteritems(s._children_):
+            if n in d._children_ and d._children_[n] is not c:
+                _restore(d._children_[n], c)
+
+    absent = [n for n in opaque if getattr(dst, n, None) is None]
+    children = dst._children_
+
+    dst.merge(src, ctx, exclude=list(exclude) + [n for n in opaque if n not in absent])
+
+    for n in absent:
+        if isinstance(getattr(src, n, None), list):
+            dst.update_field(n, getattr(src, n))
+
+    after = dst._children_
+    for n, c in six.iteritems(src._children_):
+        # those not in place before are copied from src
+        if n in after and n not in children and after[n] is not c:
+            _restore(after[n], c)
+
 def get_dict_as_tuple(d):
     """ get the first item in dict,
     and return it as tuple.
-- 
2.43.0


From bb9b4c6555750c913572da6d60595156c686ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:22 +0000
Subject: [PATCH 65/79] fix: send plain text bodies in text form

---
 pyswagger/primitives/codec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/codec.py b/pyswagger/primitives/codec.py
index 1fa261f..2b255ae 100644
--- a/pyswagger/primitives/codec.py
+++ b/pyswagger/primitives/codec.py
@@ -37,7 +37,10 @@ class MimeCodec:
 
 class PlainCodec:
     def marshal(self, value, **kwargs):
-        return value
+        if value is None or isinstance(value, six.string_types + (six.binary_type, dict, list)):
+            return value
+        # other primitives are sent in their text form, as parameters are
+        return str(value)
 
     def unmarshal(self, data, **kwargs):
         return data
-- 
2.43.0


From 555e41b84460db0c6e5178e4d791067224296ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:04 +0000
Subject: [PATCH 66/79] fix: read plain text bodies delivered as bytes as text

The body of a response is bytes with every client, a text/plain one of a
string was converted to "b'...'", and refused for dates and the like.
---
 pyswagger/primitives/codec.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyswagger/primitives/codec.py b/pyswagger/primitives/codec.py
index 2b255ae..06cbc0c 100644
--- a/pyswagger/primitives/codec.py
+++ b/pyswagger/primitives/codec.py
@@ -43,6 +43,12 @@ class PlainCodec:
         return str(value)
 
     def unmarshal(self, data, **kwargs):
+        if isinstance(data, six.binary_type):
+            try:
+                return data.decode('utf-8')
+            except UnicodeDecodeError:
+                # not text, leave it to the primitive
+                pass
         return data
 
 
-- 
2.43.0


From 55af4b57f7dea1cb75bf8259164051ac57156e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:04 +0000
Subject: [PATCH 67/79] fix: read local files as UTF-8 whatever the locale is

Files were decoded by the locale of the process, documents loaded from url
are always decoded as UTF-8.
---
 pyswagger/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index d169e7e..20549db 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -114,7 +114,8 @@ class LocalGetter(Getter):
         logger.info('final path to load: [{0}]'.format(path))
 
         ret = None
-        with open(path, 'r') as f:
+        # decoded as those from url are, not by the locale
+        with open(path, 'rb') as f:
             ret = f.read()
         return ret
 
-- 
2.43.0


From 5c9f7a07d335ba3cf412d9f790745d7b7a0ad3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:43 +0000
Subject: [PATCH 68/79] fix: check limits of an array when all composed schemas
 are applied

minItems, maxItems and uniqueItems given beside an 'allOf' with the 'items'
(or vice versa) were checked against an incomplete array, or not at all, and
items that are equal once converted were kept in spite of uniqueItems.
---
 pyswagger/primitives/_array.py | 37 +++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 95f178c..2bdf34d 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -12,6 +12,8 @@ class Array(list):
         """
         super(Array, self).__init__()
         self.__collection_format = 'csv'
+        self.__unique = False
+        self.__limits = []
 
     def apply_with(self, obj, val, ctx):
         """
@@ -30,27 +32,34 @@ class Array(list):
             else:
                 raise SchemaError("Unsupported collection format '{0}' when converting array: {1}".format(self.__collection_format, val))
 
-        # remove duplication when uniqueItems == True
-        if obj.uniqueItems:
-            seen = []
-            for e in val:
-                if e in seen:
-                    continue
-                seen.append(e)
-            val = seen
-
         if obj.items and len(val):
             self.extend([ctx['factory'].produce(obj.items, v, dict(read=ctx['read'])) for v in val])
             val = []
 
-        # init array as list
-        if obj.minItems and len(self) < obj.minItems:
-            raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems is not None and len(self) > obj.maxItems:
-            raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
+        # those might be separated from 'items' by 'allOf',
+        # check them when all Schema objects are applied.
+        self.__unique = self.__unique or bool(obj.uniqueItems)
+        self.__limits.append((obj.minItems, obj.maxItems))
 
         return val
 
+    def cleanup(self, val, ctx):
+        """ check the whole array
+        """
+        # remove duplication when uniqueItems == True
+        if self.__unique:
+            seen = []
+            for e in self:
+                if e not in seen:
+                    seen.append(e)
+            self[:] = seen
+
+        for min_items, max_items in self.__limits:
+            if min_items and len(self) < min_items:
+                raise ValidationError('Array should be more than {0}, not {1}'.format(min_items, len(self)))
+            if max_items is not None and len(self) > max_items:
+                raise ValidationError('Array should be less than {0}, not {1}'.format(max_items, len(self)))
+
     def __str__(self):
         """ array primitives should be for 'path', 'header', 'query'.
         Therefore, this kind of convertion is reasonable.
-- 
2.43.0


From 6195d5e54a0c4140a2595b667cc97630b31d8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:28 +0000
Subject: [PATCH 69/79] fix: keep items of an array without 'items'

---
 pyswagger/primitives/_array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 2bdf34d..215cfef 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -46,6 +46,9 @@ class Array(list):
     def cleanup(self, val, ctx):
         """ check the whole array
         """
+        # nothing is said about those items without 'items'
+        self.extend(val)
+
         # remove duplication when uniqueItems == True
         if self.__unique:
             seen = []
-- 
2.43.0


From e65263b2eca71071ec7fabefbf7b44f884c91659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:17 +0000
Subject: [PATCH 70/79] fix: apply limits of a schema whose type comes from
 'allOf'

---
 pyswagger/primitives/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 48f6901..0153b8c 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -242,7 +242,7 @@ class Primitive(object):
             return v
 
         # handle allOf for Schema Object
-        not_applied = []
+        not_applied, composed = [], ret is None
         for a in getattr(obj, 'allOf', None) or []:
             a = deref(a)
             if a in applied:
@@ -259,6 +259,9 @@ class Primitive(object):
                 val = _apply(a, ret, val, ctx)
 
         if ret is not None:
+            if composed:
+                # the type is determined by those in 'allOf'
+                val = _apply(obj, ret, val, ctx)
             for a in not_applied:
                 if a not in applied:
                     val = _apply(a, ret, val, ctx)
-- 
2.43.0


From b16fcce77702743000f8ac3013b1370eeccd18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:04 +0000
Subject: [PATCH 71/79] fix: apply a schema of additionalProperties in an open
 composition

---
 pyswagger/primitives/_model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 55a4631..6d54113 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -65,15 +65,16 @@ class Model(dict):
     def cleanup(self, val, ctx):
         """
         """
-        if ctx['addp'] == True:
-            for k, v in six.iteritems(val):
-                self[k] = v
-            ctx['addp'] = False
-        elif ctx['addp_schema'] != None:
+        # a Schema of additionalProperties still applies when
+        # another one of the composition allows anything.
+        if ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
             for k, v in six.iteritems(val):
                 self[k] = ctx['factory'].produce(obj.additionalProperties, v, dict(read=ctx['read']))
-            ctx['addp_schema'] = None
+        elif ctx['addp'] == True:
+            for k, v in six.iteritems(val):
+                self[k] = v
+        ctx['addp'], ctx['addp_schema'] = False, None
 
         not_found = ctx.pop('required', set()) - set(six.iterkeys(self))
         if len(not_found):
-- 
2.43.0


From 7aed028ccbbcf229698f1de09480d2b6cfbbfde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:50 +0000
Subject: [PATCH 72/79] fix: check limits of emails declared in allOf

Only the form of an email was checked for those Schema objects
applied by 'allOf'.
---
 pyswagger/primitives/_str.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index 1385497..63ba9b8 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -24,6 +24,7 @@ def create_str(obj, v, ctx=None):
     return r
 
 def validate_email_(obj, ret, val, ctx):
+    validate_str(obj, ret, val, ctx)
     if not validate_email(ret):
         raise ValidationError('{0} is not a valid email for {1}'.format(ret, obj))
 
-- 
2.43.0


From 53abdd6b25d376334acf3ab607c3f925fb69b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:10 +0000
Subject: [PATCH 73/79] fix: refuse tokens of JSON pointers that are no index
 of the array

'-1' was taken as the last one when looking into other documents.
---
 pyswagger/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 2c0ade9..1a4475c 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -67,6 +67,8 @@ class Resolver(object):
             while len(ts) > 0:
                 t = ts.pop(0)
                 if isinstance(obj, list):
+                    if not t.isdigit():
+                        raise IndexError('not an index: {0}'.format(t))
                     obj = obj[int(t)]
                 elif isinstance(obj, dict):
                     obj = obj[t]
-- 
2.43.0


From 19ba412f0e3b99f277b8701c523f3194e476d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:43 +0000
Subject: [PATCH 74/79] fix: refuse files sent by a client when
 multipart/form-data isn't declared

---
 pyswagger/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index b22d868..084ae6d 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -218,6 +218,8 @@ class Request(object):
                 # client that can encode multipart/form-data, should
                 # access form-data via data property and file from file
                 # property.
+                if self.__op.consumes and 'multipart/form-data' not in self.__op.consumes:
+                    raise errs.SchemaError('content type multipart/form-data does not present in {0}'.format(self.__op.consumes))
 
                 # only form data can be carried along with files,
                 self.__data = self.__p['formData']
-- 
2.43.0


From a9db3298e8099a74bd17a95e3415bf1598ed91b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:59 +0000
Subject: [PATCH 75/79] fix: accept names that are numbers in YAML

Status codes already were, but definitions, properties, parameters, etc.
named by numbers weren't text after yaml.load, and failed with 'TypeError'.
---
 pyswagger/getter.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pyswagger/getter.py b/pyswagger/getter.py
index 20549db..acd7270 100644
--- a/pyswagger/getter.py
+++ b/pyswagger/getter.py
@@ -12,6 +12,29 @@ import re
 logger = logging.getLogger(__name__)
 
 
+def _name_as_text(obj, done=None):
+    """ names in JSON are always text, those in YAML might be numbers
+    (ex. status codes)
+    """
+    done = {} if done is None else done
+    if id(obj) in done:
+        return
+
+    if isinstance(obj, dict):
+        # aliases are shared
+        done[id(obj)] = obj
+        for k in list(six.iterkeys(obj)):
+            v = obj.pop(k)
+            _name_as_text(v, done)
+            if isinstance(k, six.integer_types + (float,)) and not isinstance(k, bool):
+                k = str(k)
+            obj[k] = v
+    elif isinstance(obj, list):
+        done[id(obj)] = obj
+        for v in obj:
+            _name_as_text(v, done)
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -50,6 +73,7 @@ class Getter(six.Iterator):
                         obj = yaml.load(obj)
                 else:
                     obj = yaml.load(obj)
+                _name_as_text(obj)
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(obj[:10]))
 
-- 
2.43.0


From d77cf911130e2d53041c91afd94deca28d78c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:29 +0000
Subject: [PATCH 76/79] fix: attach the api key in query only once

Those values given by the caller for a parameter with the same name were
each replaced by the api key.
---
 pyswagger/utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 05d1ef9..88ed932 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -312,15 +312,15 @@ def get_dict_as_tuple(d):
     return None
 
 def nv_tuple_list_replace(l, v):
-    """ replace a tuple in a tuple list
+    """ replace a tuple in a tuple list,
+    no other tuple with the same name is left.
     """
-    _found = False
-    for i, x in enumerate(l):
-        if x[0] == v[0]:
-            l[i] = v
-            _found = True
-
-    if not _found:
+    found = [i for i, x in enumerate(l) if x[0] == v[0]]
+    if found:
+        l[found[0]] = v
+        for i in reversed(found[1:]):
+            del l[i]
+    else:
         l.append(v)
 
 def path2url(p):
-- 
2.43.0


From 7a4a8c3a0d781f2911d5ce7bbd0b2a3e9d81b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:09 +0000
Subject: [PATCH 77/79] fix: a resource listing in '.yml' is a file, too

Its resource objects were looked for under that file.
---
 pyswagger/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 88ed932..d5bdc00 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -358,10 +358,10 @@ def normalize_url(url):
     return url
 
 def url_dirname(url):
-    """ Return the folder containing the '.json' file
+    """ Return the folder containing the '.json' ('.yaml', '.yml') file
     """
     p = six.moves.urllib.parse.urlparse(url)
-    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML]:
+    for e in private.VALID_FILE_EXT:
         if p.path.endswith(e):
             return six.moves.urllib.parse.urlunparse(
                 p[:2]+
-- 
2.43.0


From 03f28bf5898a4365442992d6e7d7092e599888c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:36 +0000
Subject: [PATCH 78/79] fix: keep those documents an operation refers to

They were only kept by App, 'ReferenceError' was raised when an operation
was used after App was gone, ex. App.create(url).op['x'](...)
---
 pyswagger/scanner/v2_0/patch_obj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index 5b41b32..9c051ea 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -52,6 +52,9 @@ class PatchObject(object):
         # mime_codec
         setattr(obj, '_mime_codec', app.mime_codec)
 
+        # what it refers to in other documents is only kept by App
+        setattr(obj, '_app', app)
+
     @Disp.register([PathItem])
     def _path_item(self, path, obj, app):
         """
-- 
2.43.0


From ff2a83100df766e19ce65ff034207e878073d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:15 +0000
Subject: [PATCH 79/79] fix: compare a model with what is no object, and allow
 copies of it

---
 pyswagger/primitives/_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 6d54113..f3dfdc9 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -8,9 +8,15 @@ class Model(dict):
     """
 
     # access dict like object
-    __getattr__ = dict.__getitem__
     __setattr__ = dict.__setitem__
 
+    def __getattr__(self, name):
+        if name.startswith('__') and name not in self:
+            # those looking for special methods (ex. copy, pickle)
+            # are not ready for KeyError.
+            raise AttributeError(name)
+        return self[name]
+
     def __init__(self):
         """ constructor
         """
@@ -89,7 +95,7 @@ class Model(dict):
         :param other: another model
         :type other: primitives.Model or dict
         """
-        if other == None:
+        if not isinstance(other, dict):
             return False
 
         for k, v in six.iteritems(self):
-- 
2.43.0

