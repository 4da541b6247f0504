From 0d7f901d65228f812281b21c193cdc82567c91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:00 +0000
Subject: [PATCH 01/84] fix: JsonSource does not pass the encoding argument
 json.loads no longer takes

---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..7bf0d55 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if encoding is not None and isinstance(text, bytes):
+            text = text.decode(encoding)
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From dbd922138be730c44bfdb800deaf5fc39eb483ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:02 +0000
Subject: [PATCH 02/84] fix: JsonSource finds keys that contain dots

---
 pilo/source/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index 7bf0d55..7c1f624 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -23,8 +23,11 @@ class JsonPath(Path):
 
     def resolve(self, container, part):
         try:
+            return container[part.key]
+        except (IndexError, KeyError, TypeError):
             if not isinstance(part.key, six.string_types) or '.' not in part.key:
-                return container[part.key]
+                return NONE
+        try:
             value = container
             for atom in part.key.split('.'):
                 value = value[atom]
-- 
2.43.0


From 4637661628906c615261b4e8e06e81f82da05443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 03/84] fix: ConfigSource accepts configuration text on Python
 3

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..93c9ff9 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -132,7 +132,7 @@ class ConfigSource(Source, ParserMixin):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
                 config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+            parser.readfp(six.moves.StringIO(config))
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From 1411775fb29ab5424c91b4952be12dc3340d050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 04/84] fix: ConfigSource preserve_case applies to the parser

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 93c9ff9..7fe1afc 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -131,7 +131,7 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
+                parser.optionxform = lambda x: x
             parser.readfp(six.moves.StringIO(config))
             config = parser
         self.config = config
-- 
2.43.0


From 8bf1d29f8fa93756db7531b185c995830b182fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 05/84] fix: configuration sections can be iterated on Python 3

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 7fe1afc..e99c95e 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k, v in six.iteritems(self.sub_mappings):
             yield k
         for k, v in self.config.items(self.section):
             yield k
-- 
2.43.0


From 998b200d2a9c8fc006c4652ff845336c24c34b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:13 +0000
Subject: [PATCH 06/84] fix: ConfigSource without section and defaults can look
 up sections

---
 pilo/source/configparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index e99c95e..b2a6399 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -60,7 +60,7 @@ class SectionMapping(collections.Mapping):
         self.config = config
         self.section = section
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
-        self.defaults = defaults
+        self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
             m = re.match(pattern, option)
@@ -96,7 +96,8 @@ class Mapping(collections.Mapping):
     def __getitem__(self, key):
         if not self.config.has_section(key):
             raise KeyError(key)
-        return SectionMapping(self.config, key, self.defaults.get(key, None))
+        defaults = self.defaults.get(key, None) if self.defaults else None
+        return SectionMapping(self.config, key, defaults)
 
     def __iter__(self):
         for section in self.config.sections():
-- 
2.43.0


From 422c06e97794e91285adb778a15617e634690e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:15 +0000
Subject: [PATCH 07/84] fix: MountSource works on Python 3

---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..0ccf5b7 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -10,7 +10,7 @@ class MountPath(collections.MutableSequence):
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
     @property
-- 
2.43.0


From 77e5fc279f4799a4ee0ed0a09d40411f0442d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:18 +0000
Subject: [PATCH 08/84] fix: rewinding to the innermost frame does not drop the
 whole context

---
 pilo/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..f77d4b7 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -136,11 +136,12 @@ class Context(threading.local):
         """
         for i, frame in enumerate(reversed(self.stack)):
             if stop(frame):
-                frames = self.stack[-i:]
+                keep = len(self.stack) - i
+                frames = self.stack[keep:]
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        del self.stack[keep:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From 2d8258efaec57be3c6bd3052512f402c3f7c94a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 09/84] fix: a date matching none of its formats is invalid,
 not null

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..92a4de4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -918,7 +918,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -926,7 +926,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From 3d0c6ad5f7ab569ceef21a6ac84d10400e9cfb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 10/84] fix: malformed decimals are reported as invalid

---
 pilo/fields.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 92a4de4..34ad769 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -852,12 +852,17 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        if isinstance(path.value, decimal.Decimal):
-            return path.value
-        if isinstance(path.value, numbers.Number):
-            return decimal.Decimal(path.value)
-        value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+        value = path.value
+        if not isinstance(value, numbers.Number):
+            value = path.primitive(six.string_types[0])
+        try:
+            parsed = decimal.Decimal(value)
+        except (decimal.InvalidOperation, TypeError):
+            parsed = None
+        if parsed is None or parsed.is_snan():
+            self.ctx.errors.invalid('"{0}" is not a decimal'.format(value))
+            return ERROR
+        return parsed
 
 
 class Boolean(Field):
-- 
2.43.0


From 9e8228d0ebd66d6f18000427fdbe1846ac6c806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 11/84] fix: integers too large for a float are reported as
 invalid

---
 pilo/source/__init__.py | 5 ++++-
 pilo/source/json.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..0630f7d 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -238,7 +238,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is not a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 7c1f624..e8a8fe6 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -72,7 +72,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is not a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From 0deed345b6c59513d8dcbad1173af3bcccb5eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:02 +0000
Subject: [PATCH 12/84] fix: not-a-number does not satisfy numeric bounds

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 34ad769..1e21842 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -793,12 +793,12 @@ class Number(Field):
         if not super(Number, self)._validate(value):
             return False
         if value is not None:
-            if self.min_value is not None and value < self.min_value:
+            if self.min_value is not None and (value != value or value < self.min_value):
                 self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                     value, self.min_value
                 ))
                 return False
-            if self.max_value is not None and value > self.max_value:
+            if self.max_value is not None and (value != value or value > self.max_value):
                 self.ctx.errors.invalid('"{0}" must be <= {1}'.format(
                     value, self.max_value
                 ))
-- 
2.43.0


From e1e8df2c4d828df2d6c6c9ef08c1b8197dbaef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 13/84] fix: moments that cannot be compared with their bounds
 are reported as invalid

---
 pilo/fields.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1e21842..47e0d8c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -887,6 +887,16 @@ class RangeMixin(object):
     def between(self, l, r):
         return self.after(l).before(r)
 
+    def _is_comparable(self, value):
+        try:
+            for bound in (self.after_value, self.before_value):
+                if bound is not None:
+                    value < bound
+        except TypeError as ex:
+            self.ctx.errors.invalid(str(ex))
+            return False
+        return True
+
 
 class Date(Field, RangeMixin):
 
@@ -939,6 +949,8 @@ class Date(Field, RangeMixin):
         if not super(Date, self)._validate(value):
             return False
         if value is not None:
+            if not self._is_comparable(value):
+                return False
             if self.after_value is not None and value < self.after_value:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
@@ -978,6 +990,8 @@ class Time(Field, RangeMixin):
         if not super(Time, self)._validate(value):
             return False
         if value is not None:
+            if not self._is_comparable(value):
+                return False
             if self.after_value is not None and value < self.after_value:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
@@ -1022,6 +1036,8 @@ class Datetime(Field, RangeMixin):
         if not super(Datetime, self)._validate(value):
             return False
         if value is not None:
+            if not self._is_comparable(value):
+                return False
             if self.after_value is not None and value < self.after_value:
                 self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                 return False
-- 
2.43.0


From 6087324ca1ba9ad456bd3621189cfcf220879147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 14/84] fix: a float pattern converts to a float

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 47e0d8c..7f528ef 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -841,7 +841,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From a8dbf5a6c0b8f3ccacba73b028b63fe66d2b014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 15/84] fix: code blocks define their names in the module they
 are compiled to

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 7f528ef..110b926 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1241,7 +1241,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        six.exec_(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From 0ed2ded0ec787a9a36b3491cbfaed66c7f443b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 16/84] fix: code references into dotted modules resolve

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 110b926..b85d66b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -47,6 +47,7 @@ import sys
 import datetime
 import decimal
 import imp
+import importlib
 import inspect
 import numbers
 import re
@@ -1228,7 +1229,7 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        module = importlib.import_module(name)
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
-- 
2.43.0


From 8f10a8507ad9915bb6bee0ccb7b476360ceb2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:17 +0000
Subject: [PATCH 17/84] fix: text that merely starts like a code reference is
 invalid

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index b85d66b..3cb9229 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1214,7 +1214,7 @@ class Dict(Field):
 
 class Code(Field):
 
-    pattern = re.compile(r'(?:(?P<module>[\w\.]+):)?(?P<attr>[\w\.]+)')
+    pattern = re.compile(r'(?:(?P<module>[\w\.]+):)?(?P<attr>[\w\.]+)$')
 
     @classmethod
     def inline_match(cls, value):
-- 
2.43.0


From 6664ebd25985a3490bf7e8d3dbd7a879981903bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:20 +0000
Subject: [PATCH 18/84] fix: fields taken from the context work without
 contextlib.nested

---
 pilo/fields.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3cb9229..14ff456 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,7 +41,6 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
-import contextlib
 import copy
 import sys
 import datetime
@@ -432,10 +431,14 @@ class Field(CreatedCountMixin, ContextMixin):
     def from_context(self):
 
         def resolve(self):
-            return contextlib.nested(
-                self.ctx(src=DefaultSource(self.ctx)),
-                self.ctx(src=self.src),
-            )
+            outer = self.ctx(src=DefaultSource(self.ctx))
+            inner = self.ctx(src=self.src)
+
+            def close():
+                inner.func()
+                outer.func()
+
+            return Close(close)
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From 32b45296f24452320cbbdc59ebeb08bb7a71d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 19/84] fix: mapping does not swap the process-wide warning
 filters

---
 pilo/fields.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 14ff456..78473f0 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -53,7 +53,6 @@ import re
 import six
 import time
 import uuid
-import warnings
 import weakref
 
 try:
@@ -1654,24 +1653,20 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                'ignore', 'With-statements now directly support multiple context managers'
-            )
-            if src is None:
-                src = self._map_source({})
-            elif isinstance(src, dict):
-                src = self._map_source(src)
-            elif isinstance(src, (list, tuple)):
-                src = self._seq_source(src)
-            elif isinstance(src, Source):
-                pass
-            else:
-                raise ValueError('Invalid src, expected None, dict or Source')
-            errors = (CollectErrors if error == 'collect' else RaiseErrors)()
-            with self.ctx(src=src, errors=errors):
-                self._map(tags, unmapped)
-                errors = self.ctx.errors
+        if src is None:
+            src = self._map_source({})
+        elif isinstance(src, dict):
+            src = self._map_source(src)
+        elif isinstance(src, (list, tuple)):
+            src = self._seq_source(src)
+        elif isinstance(src, Source):
+            pass
+        else:
+            raise ValueError('Invalid src, expected None, dict or Source')
+        errors = (CollectErrors if error == 'collect' else RaiseErrors)()
+        with self.ctx(src=src, errors=errors):
+            self._map(tags, unmapped)
+            errors = self.ctx.errors
         return errors
 
     def _nested_map(self, tags, unmapped, error):
-- 
2.43.0


From b6fb1f38b6e7a5739f7cf9c40f381edfab840fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:28 +0000
Subject: [PATCH 20/84] fix: asking for a field by name looks at the field, not
 at its value

---
 pilo/fields.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 78473f0..ff1b265 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1698,14 +1698,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            return field.__get__(self, type(self)) is not None
+        except (AttributeError, LookupError, FormError):
             return False
 
     def flatten(self):
-- 
2.43.0


From 4ab75761286c6f21a3cf1676b90fe982a566bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:31 +0000
Subject: [PATCH 21/84] fix: primitives of derived types use the parser of
 their base type

---
 pilo/source/__init__.py | 2 +-
 pilo/source/json.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 0630f7d..9dedeac 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -285,7 +285,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
diff --git a/pilo/source/json.py b/pilo/source/json.py
index e8a8fe6..fb53f4a 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -113,7 +113,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From 17b156f1517cd72ad4eecad1b05c16168895d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:34 +0000
Subject: [PATCH 22/84] fix: keys that are neither text nor integers can be
 mapped

---
 pilo/source/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 9dedeac..0b6a2c2 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -83,6 +83,8 @@ class Path(collections.MutableSequence):
             for part in self[1:]:
                 if isinstance(part.key, six.integer_types):
                     part = '[{0}]'.format(part.key)
+                elif not isinstance(part.key, six.string_types):
+                    part = '.{0}'.format(part)
                 else:
                     part = '.' + part.key
                 parts.append(part)
@@ -149,7 +151,7 @@ class Path(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts[index] = value
 
@@ -157,7 +159,7 @@ class Path(collections.MutableSequence):
         del self.parts[index]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts.insert(index, value)
 
-- 
2.43.0


From 3fc4944b1d4fc850e8ed29f2a4f3d31073d44313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:37 +0000
Subject: [PATCH 23/84] fix: nothing exists below an absent location

---
 pilo/source/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 0b6a2c2..bcd7e2e 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -103,9 +103,9 @@ class Path(collections.MutableSequence):
             i, value = 0, self.root
 
         for part in self.parts[i:]:
-            value = part.value = self.resolve(value, part)
             if value is NONE:
                 break
+            value = part.value = self.resolve(value, part)
 
         return value
 
-- 
2.43.0


From 1ea51af6439ebab96578362aeee8804a0b4e1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:41 +0000
Subject: [PATCH 24/84] fix: keys from the data never call what they name

---
 pilo/source/default.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..2d7469d 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -52,6 +52,9 @@ class DefaultPath(Path):
 
     def resolve(self, container, part):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+            value = self._as_item(container, part.key)
+            if value is not NONE:
+                return value
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part)
-- 
2.43.0


From 2c4a48b8e5236a88d212852125ad0fc8e4297992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:44 +0000
Subject: [PATCH 25/84] fix: text is not a sequence of items in native sources

---
 pilo/source/default.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 2d7469d..389cdb5 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -96,7 +96,10 @@ class DefaultSource(Source, ParserMixin):
         return DefaultPath(self, self.location)
 
     def sequence(self, path):
-        if isinstance(path.value, (collections.Sequence, list, tuple)):
+        if (
+            isinstance(path.value, (collections.Sequence, list, tuple)) and
+            not isinstance(path.value, (six.string_types, six.binary_type))
+        ):
             return len(path.value)
         raise self.error(path, 'is not a sequence')
 
-- 
2.43.0


From 237236bceb501d3b59d1d0fa96464fc30a2c54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:47 +0000
Subject: [PATCH 26/84] fix: positional input respects the source keys of
 fields

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ff1b265..52e0f65 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1606,7 +1606,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return DefaultSource(
             obj,
             aliases=dict(
-                (field.name, i) for i, field in enumerate(self.fields)
+                (field.src or field.name, i) for i, field in enumerate(self.fields)
             )
         )
 
-- 
2.43.0


From 52f7ae0d75beba9c5106014589e4a9746810b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 27/84] fix: fields can be declared concurrently without losing
 their order

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 52e0f65..6cfd43e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -48,6 +48,7 @@ import decimal
 import imp
 import importlib
 import inspect
+import itertools
 import numbers
 import re
 import six
@@ -168,11 +169,10 @@ class CreatedCountMixin(object):
     instances in creation order.
     """
 
-    _created_count = 0
+    _created_count = itertools.count(1)
 
     def __init__(self):
-        CreatedCountMixin._created_count += 1
-        self._count = CreatedCountMixin._created_count
+        self._count = next(CreatedCountMixin._created_count)
 
 
 class Hook(object):
-- 
2.43.0


From f7ba1d3936ad778596d270dc0099cff84262e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:40 +0000
Subject: [PATCH 28/84] fix: methods of native containers are not values of the
 data they hold

---
 pilo/source/default.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 389cdb5..7c936f5 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import inspect
 import six
 
 from . import Source, Path, ParserMixin, NONE
@@ -7,7 +8,7 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom):
+    def _resolve(self, container, atom, call=False):
         if self.src.ignore(self):
             return NONE
         value = self._as_item(container, atom)
@@ -16,8 +17,17 @@ class DefaultPath(Path):
         value = self._as_alias(container, atom)
         if value is not NONE:
             return value
+        if not call and self._is_method(container, atom):
+            return NONE
         return self._as_attr(container, atom)
 
+    def _is_method(self, container, atom):
+        return (
+            isinstance(container, (collections.Mapping, collections.Sequence)) and
+            isinstance(atom, six.string_types) and
+            inspect.isroutine(getattr(type(container), atom, None))
+        )
+
     def _as_item(self, container, atom):
         try:
             return container[atom]
@@ -50,24 +60,24 @@ class DefaultPath(Path):
         parts.append(super(DefaultPath, self).__str__())
         return ':'.join(parts)
 
-    def resolve(self, container, part):
+    def resolve(self, container, part, call=False):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
             value = self._as_item(container, part.key)
             if value is not NONE:
                 return value
             part = copy.copy(part)
             part.key = part.key[:-2]
-            value = self.resolve(container, part)
+            value = self.resolve(container, part, call=True)
             if value is NONE:
                 return NONE
             return value()
 
         if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, part.key, call)
             if value is NONE:
                 value = container
                 for atom in part.key.split('.'):
-                    value = self._resolve(value, atom)
+                    value = self._resolve(value, atom, call)
                     if value is NONE:
                         break
         else:
-- 
2.43.0


From 8884c19e016150ac193a1c325bea8a288adf42c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:43 +0000
Subject: [PATCH 29/84] fix: names that are not mounted are absent from a mount
 source

---
 pilo/source/mount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 0ccf5b7..2eefe8b 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -8,7 +8,7 @@ class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
         self.part = None
-        self.dne = DefaultSource({}).path()
+        self.dne = DefaultSource(NONE).path()
         self.paths = dict(
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
@@ -61,12 +61,12 @@ class MountPath(collections.MutableSequence):
     def primitive(self, *types):
         if self.part is None:
             raise self.error(self, 'not a primitive')
-        return self.paths[self.part.key].primitive(*types)
+        return self.path.primitive(*types)
 
     def sequence(self):
         if self.part is None:
             raise self.error(self, 'not a sequence')
-        return self.paths[self.part.key].sequence()
+        return self.path.sequence()
 
     def mapping(self):
         if self.part is None:
-- 
2.43.0


From 2cb04d2cd5554298b6e1a20e6367d0b48a3275b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 30/84] fix: mount paths report errors through their source

---
 pilo/source/mount.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 2eefe8b..369f241 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -7,12 +7,17 @@ from . import PathPart, Source, NONE, DefaultSource
 class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
+        self.mount = src
         self.part = None
         self.dne = DefaultSource(NONE).path()
         self.paths = dict(
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
+    @property
+    def src(self):
+        return self.mount if self.path is None else self.path.src
+
     @property
     def path(self):
         return self.paths.get(self.part.key, self.dne) if self.part else None
@@ -60,12 +65,12 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
+            raise self.src.error(self, 'not a primitive')
         return self.path.primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
+            raise self.src.error(self, 'not a sequence')
         return self.path.sequence()
 
     def mapping(self):
-- 
2.43.0


From 4dff2a94020dc72ce3d8c8b1e7ec09182b289455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:49 +0000
Subject: [PATCH 31/84] fix: a union does not modify the list of sources it is
 given

---
 pilo/source/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..55d02e2 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -75,6 +75,7 @@ class UnionSource(Source):
         merge_depth=None,
     ):
         super(UnionSource, self).__init__()
+        srcs = list(srcs)
         for i, src in enumerate(srcs):
             if isinstance(src, Source):
                 continue
-- 
2.43.0


From 8417d35d22e01ebc5f2f078b23961cf6426f8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 32/84] fix: single values of a union convert each time they
 are asked for

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 55d02e2..9495641 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -113,7 +113,7 @@ class UnionSource(Source):
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
-            path.value = path.value.primitive(*types)
+            return path.value.primitive(*types)
         return path.value
 
 
-- 
2.43.0


From 3d6b2c74e9c5c5db9da13d20686cb5f19e155f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 33/84] fix: native decimals, dates and times map from unions

---
 pilo/fields.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6cfd43e..d304584 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -855,7 +855,7 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive()
         if not isinstance(value, numbers.Number):
             value = path.primitive(six.string_types[0])
         try:
@@ -920,8 +920,9 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.date):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.date):
+            return value
         value = path.primitive(six.string_types[0])
         if not self._format:
             self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
@@ -978,7 +979,7 @@ class Time(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive()
         if isinstance(value, (time.struct_time, datetime.time)):
             return value
         value = path.primitive(six.string_types[0])
@@ -1019,8 +1020,9 @@ class Datetime(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.datetime):
+            return value
         value = path.primitive(six.string_types[0])
         if self._format == 'iso8601':
             try:
-- 
2.43.0


From 43ee0cc04c6b00f4675292017698f167adce3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 34/84] fix: null in a union is null

---
 pilo/source/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 9495641..f46f129 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -30,6 +30,8 @@ class UnionPath(Path):
     def is_null(self):
         if super(UnionPath, self).is_null:
             return True
+        if isinstance(self.value, Join):
+            return all(path.is_null for path in self.value.paths)
         if isinstance(self.value, Mapping):
             return len(self.value.mappings) == 0
         if isinstance(self.value, Sequence):
-- 
2.43.0


From d59312c78f4c50d813911c11653152cf089aaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 35/84] fix: the merge depth of a union counts levels, not
 sources

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index f46f129..3be0613 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -150,7 +150,7 @@ class Mapping(collections.Mapping):
         mappings = []
         if merge is None:
             merge = src.mapping_merge
-            if src.merge_depth is not None and src.merge_depth <= len(paths):
+            if src.merge_depth is not None and paths and src.merge_depth <= len(paths[0]):
                 merge = 'first'
         if merge not in ('first', 'last', 'combine'):
             raise ValueError('merge="{0}" invalid'.format(merge))
-- 
2.43.0


From 41680ce107f4e0a6c3b8968d49dfcaff388c077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:04 +0000
Subject: [PATCH 36/84] fix: an invalid sequence merge is refused with its name

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 3be0613..5d53907 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -217,7 +217,7 @@ class Sequence(collections.Sequence):
             elif merge == 'last':
                 sequences[0] = (path, length)
             else:
-                raise ValueError('merge="{1}" invalid'.format(merge))
+                raise ValueError('merge="{0}" invalid'.format(merge))
         self.src = src
         self.sequences = sequences
 
-- 
2.43.0


From 93dd4b3a8a3976da4e1b309513bee9b6d927d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 37/84] fix: items of a union inside a union keep their index

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 5d53907..ae6aaab 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -231,7 +231,7 @@ class Sequence(collections.Sequence):
             offset += length
         else:
             raise IndexError(key)
-        path[-1].key -= offset
+        path[-1] = path[-1].key - offset
         return Join(self.src, [path])
 
     def __len__(self):
-- 
2.43.0


From 21b9a4bacbaa03cb29d1acb9eb8c22734f8b1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 38/84] fix: rewinding restores the source location exactly

---
 pilo/context.py      | 9 +++++----
 pilo/source/union.py | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index f77d4b7..dba67a6 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -142,13 +142,14 @@ class Context(threading.local):
         else:
             raise RewindDidNotStop()
         del self.stack[keep:]
+        parts = []
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
                     break
                 if 'src' in frame:
-                    self.src_path.pop()
-        return Close(functools.partial(self.restore, frames))
+                    parts.append(self.src_path.pop())
+        return Close(functools.partial(self.restore, frames, parts))
 
     def push(self, **kwargs):
         """
@@ -164,7 +165,7 @@ class Context(threading.local):
     #: Alias for `push`.
     __call__ = push
 
-    def restore(self, frames=None):
+    def restore(self, frames=None, parts=None):
         """
         """
         if frames is None:
@@ -177,7 +178,7 @@ class Context(threading.local):
                     if 'src_path' in frame:
                         break
                     if 'src' in frame:
-                        self.src_path.append(frame.src)
+                        self.src_path.append(parts.pop() if parts else frame.src)
             self.stack.extend(frames)
 
 
diff --git a/pilo/source/union.py b/pilo/source/union.py
index ae6aaab..8588bc2 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -54,16 +54,18 @@ class UnionPath(Path):
             path[index] = value
 
     def __delitem__(self, index):
+        self[index].parts = [path[index] for path in self.paths]
         super(UnionPath, self).__delitem__(index)
         for path in self.paths:
             del path[index]
 
     def insert(self, index, value):
         super(UnionPath, self).insert(index, value)
+        parts = [value] * len(self.paths)
         if isinstance(value, PathPart):
-            value = value.key
-        for path in self.paths:
-            path.insert(index, value)
+            parts = getattr(value, 'parts', [value.key] * len(self.paths))
+        for path, part in zip(self.paths, parts):
+            path.insert(index, part)
 
 
 class UnionSource(Source):
-- 
2.43.0


From df50c73c1a1142486dccea317106808b7d093fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:12 +0000
Subject: [PATCH 39/84] fix: changing a clone does not change the field it was
 cloned from

---
 pilo/fields.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index d304584..d8bcf62 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -203,6 +203,13 @@ class Hook(object):
         self.target = target
         return self
 
+    def clone(self, parent):
+        other = copy.copy(self)
+        if other.target is other.parent:
+            other.target = parent
+        other.parent = parent
+        return other
+
     def __bool__(self):
         return self.func is not None
 
@@ -425,6 +432,12 @@ class Field(CreatedCountMixin, ContextMixin):
     def clone(self):
         other = copy.copy(self)
         other.parent = None
+        other.ignores = list(self.ignores)
+        other.translations = dict(self.translations)
+        other.tags = dict(self.tags)
+        for name, value in list(vars(other).items()):
+            if isinstance(value, Hook) and value.parent is self:
+                setattr(other, name, value.clone(other))
         return other
 
     def from_context(self):
-- 
2.43.0


From 30468e9e1f6ace872cf31533555e976b4c14adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 40/84] fix: errors keep the location they were created at

---
 pilo/fields.py          | 2 +-
 pilo/source/__init__.py | 6 ++++++
 pilo/source/mount.py    | 7 +++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index d8bcf62..f5f786e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -115,7 +115,7 @@ class FieldError(ValueError):
     def __init__(self, message, field):
         super(FieldError, self).__init__(message)
         self.field = field
-        self.path = field.ctx.src_path
+        self.path = copy.copy(field.ctx.src_path)
 
 
 class Missing(FieldError):
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index bcd7e2e..e419de7 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -90,6 +90,12 @@ class Path(collections.MutableSequence):
                 parts.append(part)
         return ''.join(parts)
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.parts = list(self.parts)
+        return other
+
     @property
     def value(self):
         if self.parts and self.parts[-1].value is not NOT_SET:
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 369f241..c2895db 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import six
 
 from . import PathPart, Source, NONE, DefaultSource
@@ -14,6 +15,12 @@ class MountPath(collections.MutableSequence):
             (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.paths = dict((key, copy.copy(path)) for key, path in six.iteritems(self.paths))
+        return other
+
     @property
     def src(self):
         return self.mount if self.path is None else self.path.src
-- 
2.43.0


From 908616219f2afa8c78c856403aa6d8329cdd81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 41/84] fix: bare fields in a group map the value of the key
 they match

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f5f786e..746b994 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1431,7 +1431,8 @@ class Group(Field):
                 raise ValueError(
                     'field{0}.src is not set'.format(_path(*path))
                 )
-            self.fields.append((obj.src, obj))
+            src, obj.src = obj.src, None
+            self.fields.append((src, obj))
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
-- 
2.43.0


From 4bd9b45c39f89f5e2047a6845c4cf732f7703828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:22 +0000
Subject: [PATCH 42/84] fix: default hooks obey the context flag that turns
 defaults off

---
 pilo/fields.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 746b994..487b1cc 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -585,8 +585,6 @@ class Field(CreatedCountMixin, ContextMixin):
                 else:
                     value = self._compute()
                 if value is NONE:
-                    if isinstance(self.default, Hook) and self.default:
-                        return self.default()
                     return self._default()
                 if value in IGNORE:
                     return value
-- 
2.43.0


From d292d23b165b20b46d9c11639b89e79fe9589673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 43/84] fix: null passes a capture pattern

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 487b1cc..ac13dda 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -726,6 +726,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return value
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From fbab78189e38be2d554293590a9de303cce397b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:28 +0000
Subject: [PATCH 44/84] fix: values that cannot be looked up have no
 translation

---
 pilo/fields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ac13dda..df74868 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -538,8 +538,11 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Possibly munges a value.
         """
-        if self.translations and value in self.translations:
-            value = self.translations[value]
+        try:
+            if self.translations and value in self.translations:
+                value = self.translations[value]
+        except TypeError:
+            pass
         return value
 
     def _default(self):
-- 
2.43.0


From fc058cc8f8791eece49675d1d102fd8b414541da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:31 +0000
Subject: [PATCH 45/84] fix: required keys can be given as a list

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index df74868..940d431 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1218,7 +1218,7 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
                         ', '.join(missing_keys)
-- 
2.43.0


From 74e2275e17f9c6d6983cb5446a4b9a6003451eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 46/84] fix: zero is a length and a key count

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 940d431..089aa01 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -684,7 +684,7 @@ class String(Field):
 
     def __init__(self, *args, **kwargs):
         length = kwargs.pop('length', None)
-        if length:
+        if length is not None:
             if isinstance(length, (list, tuple)):
                 self.min_length, self.max_length = length
             else:
@@ -1224,7 +1224,7 @@ class Dict(Field):
                         ', '.join(missing_keys)
                     ))
                     return False
-            if self.max_keys and len(value) > self.max_keys:
+            if self.max_keys is not None and len(value) > self.max_keys:
                 self.ctx.errors.invalid('Cannot have more than {0} key(s)'.format(
                     self.max_keys
                 ))
-- 
2.43.0


From 79f5a869b12cc5e65fb13f83d3c4c07733afb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:38 +0000
Subject: [PATCH 47/84] fix: forms with fields named like dict methods can be
 copied and capture

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 089aa01..a2e36c2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1649,7 +1649,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                     self[field.name] = value
         unmapped = self._unmapped(unmapped)
         if unmapped is not None:
-            self.update(unmapped)
+            dict.update(self, unmapped)
 
     def _unmapped(self, directive):
         if not directive:
@@ -1785,6 +1785,6 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
 
     def copy(self):
         dst = type(self)()
-        for k, v in six.iteritems(self):
+        for k, v in dict.items(self):
             dst[k] = v
         return dst
-- 
2.43.0


From 3c598478010dacb765b78526b21f77220aadd471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:41 +0000
Subject: [PATCH 48/84] fix: a type field without identity in the data has none

---
 pilo/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..7272e00 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -95,7 +95,7 @@ class Types(dict):
         probe = self.type_form()
         errors = probe.map(src)
         if not errors:
-            return self.type_field.__get__(probe)
+            return dict.get(probe, self.type_field.name)
         if default in IGNORE:
             raise errors[0]
         return default
-- 
2.43.0


From 81681960acda2ddce37b13a5869ba7876a528b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 49/84] fix: any native mapping can be mapped

---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index a2e36c2..9859694 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,6 +41,7 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
+import collections
 import copy
 import sys
 import datetime
@@ -1674,7 +1675,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
     def _root_map(self, src, tags, unmapped, error):
         if src is None:
             src = self._map_source({})
-        elif isinstance(src, dict):
+        elif isinstance(src, collections.Mapping):
             src = self._map_source(src)
         elif isinstance(src, (list, tuple)):
             src = self._seq_source(src)
-- 
2.43.0


From 6e9d8f831e9d1e37e7ac2ac54560a766fe00aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:48 +0000
Subject: [PATCH 50/84] fix: fields are evaluated once per mapping and read
 early without markers

---
 pilo/fields.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 9859694..deddbef 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -656,7 +656,15 @@ class Field(CreatedCountMixin, ContextMixin):
                     return getattr(frame, 'parent', None) is form
                 try:
                     with self.ctx.rewind(is_form):
-                        return self.map()
+                        mapped = self.ctx.stack[-1].get('mapped')
+                        if mapped is None:
+                            value = self.map()
+                        elif self.name in mapped:
+                            value = mapped[self.name]
+                        else:
+                            value = mapped[self.name] = self.map()
+                        if mapped is not None and value not in IGNORE:
+                            return value
                 except self.ctx.RewindDidNotStop:
                     with self.ctx(form=form, parent=form, src=DefaultSource({})):
                         value = self.map()
@@ -1641,11 +1649,14 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
 
     def _map(self, tags, unmapped):
         self.ctx.src_path.mapping()
-        with self.ctx(form=self, parent=self):
+        mapped = {}
+        with self.ctx(form=self, parent=self, mapped=mapped):
             for field in type(self).fields:
                 if tags and not tags & set(field.tags.keys()):
                     continue
-                value = field.map()
+                if field.name not in mapped:
+                    mapped[field.name] = field.map()
+                value = mapped[field.name]
                 if value not in IGNORE:
                     self[field.name] = value
         unmapped = self._unmapped(unmapped)
-- 
2.43.0


From c1f97b90a37c878cba375da65338c5e207a7655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:19 +0000
Subject: [PATCH 51/84] fix: numbers that cannot be compared with a bound are
 invalid

---
 pilo/fields.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index deddbef..272c7d6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -821,6 +821,13 @@ class Number(Field):
         if not super(Number, self)._validate(value):
             return False
         if value is not None:
+            try:
+                for bound in (self.min_value, self.max_value):
+                    if bound is not None and value == value:
+                        value < bound
+            except TypeError as ex:
+                self.ctx.errors.invalid(str(ex))
+                return False
             if self.min_value is not None and (value != value or value < self.min_value):
                 self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                     value, self.min_value
-- 
2.43.0


From d78ca3bda0547ed5558e8c17622f1f78e6bc61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 52/84] fix: keys that are not text are invalid for a
 constrained text field

---
 pilo/fields.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 272c7d6..6199d2e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -740,7 +740,10 @@ class String(Field):
         def munge(self, value):
             if value is None:
                 return value
-            match = pattern.match(value)
+            try:
+                match = pattern.match(value)
+            except TypeError:
+                match = None
             if not match:
                 return NONE
             for group in [name or self.name, 1]:
@@ -760,6 +763,13 @@ class String(Field):
             return False
         if value is None:
             return True
+        try:
+            return self._validate_text(value)
+        except TypeError as ex:
+            self.ctx.errors.invalid(str(ex))
+            return False
+
+    def _validate_text(self, value):
         if self.alphabet:
             invalid = list(set(c for c in value if c not in self.alphabet))
             if invalid:
-- 
2.43.0


From 20d26f745c4d7b8960b93476b4de78b2a7a30ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 53/84] fix: required keys that are not text can be reported

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 6199d2e..e6a1b30 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1247,7 +1247,7 @@ class Dict(Field):
                 missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(map(str, missing_keys))
                     ))
                     return False
             if self.max_keys is not None and len(value) > self.max_keys:
-- 
2.43.0


From 6e2cb90b143060d09c5a2c23fe8caf9a802488fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 54/84] fix: groups do not match their patterns against keys
 that are not text

---
 pilo/fields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e6a1b30..13bacf6 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1506,8 +1506,11 @@ class Group(Field):
             if isinstance(src, six.string_types):
                 if src == key:
                     return field, None
-            else:
-                m = src.match(key)
+            elif isinstance(key, (six.string_types, six.binary_type)):
+                try:
+                    m = src.match(key)
+                except TypeError:
+                    continue
                 if m is not None:
                     return field, m
 
-- 
2.43.0


From 5ae7ddaf68d3491f5ba319e894bcfdf3c0308c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 55/84] fix: groups declared optional are left out

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 13bacf6..3ec1e50 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1489,7 +1489,7 @@ class Group(Field):
         self.fields = []
         if fields:
             _add_list(fields)
-        if 'default' not in kwargs:
+        if 'default' not in kwargs and not kwargs.get('optional'):
             kwargs['default'] = list
         super(Group, self).__init__(**kwargs)
 
-- 
2.43.0


From e0bc1976e54bf98c3ab125f5789a575515f29699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 56/84] fix: forms nested under a null key are mapped from
 there

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3ec1e50..d296769 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1734,7 +1734,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             tags = set(tags)
         if reset:
             self._reset(tags)
-        if src is None and self.ctx.src is not None:
+        if src is None and self.ctx.src_path is not None:
             errors = self._nested_map(tags, unmapped, error)
         else:
             errors = self._root_map(src, tags, unmapped, error)
-- 
2.43.0


From be48f4ea648e3eac128015a85091aacbac8992ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:17 +0000
Subject: [PATCH 57/84] fix: captured input does not overwrite mapped fields
 under a mapped key

---
 pilo/fields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index d296769..e019e7d 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1680,8 +1680,9 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                 if value not in IGNORE:
                     self[field.name] = value
         unmapped = self._unmapped(unmapped)
-        if unmapped is not None:
-            dict.update(self, unmapped)
+        for key, value in six.iteritems(unmapped or {}):
+            if key not in self:
+                dict.__setitem__(self, key, value)
 
     def _unmapped(self, directive):
         if not directive:
-- 
2.43.0


From 91949258ddc449f0d8f310d846d936b40abac9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:42 +0000
Subject: [PATCH 58/84] fix: iso8601 dates and datetimes format as iso8601 text

---
 pilo/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index e019e7d..f891ee4 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -957,6 +957,8 @@ class Date(Field, RangeMixin):
                 format = self._format[0]
             else:
                 format = self._format
+            if format == 'iso8601':
+                return value.isoformat()
             return value.strftime(format)
         self._format = value
         return self
@@ -1057,6 +1059,8 @@ class Datetime(Field, RangeMixin):
 
     def format(self, value):
         if isinstance(value, datetime.date):
+            if self._format == 'iso8601':
+                return value.isoformat()
             return value.strftime(self._format)
         self._format = value
         return self
-- 
2.43.0


From effcdd6e7fc28f7874c5df51ebff0cfc7bebbb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 59/84] fix: native times format as text

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index f891ee4..e2a6027 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1019,6 +1019,8 @@ class Time(Field, RangeMixin):
     def format(self, value):
         if isinstance(value, time.struct_time):
             return time.strftime(self._format, value)
+        if isinstance(value, datetime.time):
+            return value.strftime(self._format)
         self._format = value
         return self
 
-- 
2.43.0


From 7dd4ff08831a7b04cf68fd69d6bd62d3fe08b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:21 +0000
Subject: [PATCH 60/84] fix: null in a mounted union is null

---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index c2895db..34aa7a7 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -68,7 +68,7 @@ class MountPath(collections.MutableSequence):
     def is_null(self):
         if self.part is None:
             return False
-        return self.value is None
+        return self.path.is_null
 
     def primitive(self, *types):
         if self.part is None:
-- 
2.43.0


From 2ed331a76436c507543edcb5509905bb6dc8fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 61/84] fix: a location ending in () that names nothing
 callable is absent

---
 pilo/source/default.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 7c936f5..c548488 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -62,13 +62,17 @@ class DefaultPath(Path):
 
     def resolve(self, container, part, call=False):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+            if self.src.ignore(self):
+                return NONE
             value = self._as_item(container, part.key)
+            if value is NONE:
+                value = self._as_alias(container, part.key)
             if value is not NONE:
                 return value
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part, call=True)
-            if value is NONE:
+            if not callable(value):
                 return NONE
             return value()
 
-- 
2.43.0


From e72b906960be668d5731b296b98a781b831ad1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:08 +0000
Subject: [PATCH 62/84] fix: a configuration without the chosen section is
 refused as not a mapping

---
 pilo/source/configparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index b2a6399..6559e91 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -13,7 +13,10 @@ class ConfigPath(Path):
 
     def __init__(self, src):
         if src.section:
-            root = SectionMapping(src.config, src.section, src.defaults)
+            try:
+                root = SectionMapping(src.config, src.section, src.defaults)
+            except six.moves.configparser.NoSectionError:
+                root = NONE
         else:
             root = Mapping(src.config, src.defaults)
         super(ConfigPath, self).__init__(src, root, src.location)
-- 
2.43.0


From 7a87c573c256994df4c8b0515ce6ce18cb2d3df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:54 +0000
Subject: [PATCH 63/84] fix: munging and filtering a form keeps tuples tuples

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e2a6027..423c8ad 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1801,13 +1801,13 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
                 continue
             if isinstance(value, Form):
                 value = value.munge(func)
-            elif isinstance(value, (list, tuple)):
+            elif isinstance(value, list) or type(value) is tuple:
                 items = []
                 for item in value:
                     if isinstance(item, Form):
                         item = item.munge(func)
                     items.append(item)
-                value = items
+                value = tuple(items) if isinstance(value, tuple) else items
             form[field.name] = value
         return form
 
-- 
2.43.0


From e697cb101838a53584da862103d571d310e50f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:30 +0000
Subject: [PATCH 64/84] fix: ignored locations are absent however they are
 reached

---
 pilo/source/default.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index c548488..8f745bb 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -102,7 +102,8 @@ class DefaultSource(Source, ParserMixin):
     def ignore(self, path):
         if not self.ignores:
             return False
-        return [part.key for part in path] in self.ignores
+        atoms = [atom for part in path for atom in str(part).split('.')]
+        return any(atoms[:len(ignore)] == ignore for ignore in self.ignores)
 
     # Source
 
-- 
2.43.0


From 7c07b6445a484112bc89e03df575b0b9c736b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 65/84] fix: ignored locations are not among the keys of a
 mapping

---
 pilo/source/default.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 8f745bb..40dc2db 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -122,6 +122,8 @@ class DefaultSource(Source, ParserMixin):
         if isinstance(path.value, (collections.Mapping, dict)):
             if self.aliases and len(path) == 0:
                 return self.aliases.keys()
+            if self.ignores:
+                return [key for key in path.value.keys() if not self.ignore(list(path) + [key])]
             return path.value.keys()
         if isinstance(path.value, (collections.Sequence, list, tuple)) and self.aliases and len(path) == 0:
             return self.aliases.keys()
-- 
2.43.0


From 307d3e9ee387c9022a944de34ba1671e7413d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:03 +0000
Subject: [PATCH 66/84] fix: what a native location shows does not depend on
 when it is looked at

---
 pilo/source/default.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 40dc2db..1d88197 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -1,5 +1,4 @@
 import collections
-import copy
 import inspect
 import six
 
@@ -8,13 +7,11 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom, call=False):
-        if self.src.ignore(self):
-            return NONE
+    def _resolve(self, container, atom, root, call=False):
         value = self._as_item(container, atom)
         if value is not NONE:
             return value
-        value = self._as_alias(container, atom)
+        value = self._as_alias(container, atom, root)
         if value is not NONE:
             return value
         if not call and self._is_method(container, atom):
@@ -34,8 +31,8 @@ class DefaultPath(Path):
         except (IndexError, KeyError, TypeError):
             return NONE
 
-    def _as_alias(self, container, atom):
-        if self.src.aliases and atom in self.src.aliases and len(self) == 1:
+    def _as_alias(self, container, atom, root):
+        if self.src.aliases and atom in self.src.aliases and root:
             alias = self.src.aliases[atom]
             return self._as_item(container, alias)
         return NONE
@@ -60,32 +57,34 @@ class DefaultPath(Path):
         parts.append(super(DefaultPath, self).__str__())
         return ':'.join(parts)
 
-    def resolve(self, container, part, call=False):
-        if isinstance(part.key, six.string_types) and part.key.endswith('()'):
-            if self.src.ignore(self):
-                return NONE
-            value = self._as_item(container, part.key)
+    def resolve(self, container, part):
+        depth = self.parts.index(part) + 1
+        if self.src.ignore(self.parts[:depth]):
+            return NONE
+        return self._resolve_key(container, part.key, root=depth == 1)
+
+    def _resolve_key(self, container, key, root, call=False):
+        if isinstance(key, six.string_types) and key.endswith('()'):
+            value = self._as_item(container, key)
             if value is NONE:
-                value = self._as_alias(container, part.key)
+                value = self._as_alias(container, key, root)
             if value is not NONE:
                 return value
-            part = copy.copy(part)
-            part.key = part.key[:-2]
-            value = self.resolve(container, part, call=True)
+            value = self._resolve_key(container, key[:-2], root, call=True)
             if not callable(value):
                 return NONE
             return value()
 
-        if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key, call)
+        if isinstance(key, six.string_types):
+            value = self._resolve(container, key, root, call)
             if value is NONE:
                 value = container
-                for atom in part.key.split('.'):
-                    value = self._resolve(value, atom, call)
+                for i, atom in enumerate(key.split('.')):
+                    value = self._resolve(value, atom, root and i == 0, call)
                     if value is NONE:
                         break
         else:
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, key, root)
         return value
 
 
-- 
2.43.0


From 1bed481262c91d4479e6dd32015150b69e017ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 67/84] fix: a form with a field named keys can be mapped from

---
 pilo/source/default.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 1d88197..72877d1 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -122,8 +122,8 @@ class DefaultSource(Source, ParserMixin):
             if self.aliases and len(path) == 0:
                 return self.aliases.keys()
             if self.ignores:
-                return [key for key in path.value.keys() if not self.ignore(list(path) + [key])]
-            return path.value.keys()
+                return [key for key in path.value if not self.ignore(list(path) + [key])]
+            return list(path.value)
         if isinstance(path.value, (collections.Sequence, list, tuple)) and self.aliases and len(path) == 0:
             return self.aliases.keys()
         raise self.error(path, 'is not a mapping')
-- 
2.43.0


From 36be4db90cdd344a784252847794a0fab24ff543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 68/84] fix: an option is part of a mapping only when nothing
 follows its bracketed key

---
 pilo/source/configparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 6559e91..8fecfd3 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -62,7 +62,7 @@ class SectionMapping(collections.Mapping):
     def __init__(self, config, section, defaults):
         self.config = config
         self.section = section
-        pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
+        pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]$'
         self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
-- 
2.43.0


From 8a7a036f6743f3964dba430b97e45095a2301f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:31 +0000
Subject: [PATCH 69/84] fix: white-space is preserved for the option that is
 read

---
 pilo/source/configparser.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 8fecfd3..7241bc6 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -144,22 +144,33 @@ class ConfigSource(Source, ParserMixin):
         self.defaults = defaults
         self.preserve_whitespace = preserve_whitespace
 
-    def as_raw(self, path):
-        option = str(path[-1])
+    def as_raw(self, path, value):
+        keys = [part.key for part in path]
+        section = self.section or keys.pop(0)
+        option = '{0}[{1}]'.format(*keys) if len(keys) == 2 else keys[0]
+        optionxform = self.config.optionxform
         lines = []
         with open(self.location, 'r') as fo:
-            section_header = '[{0}]'.format(self.section)
+            section_header = '[{0}]'.format(section)
             for line in fo:
-                if line.strip() == section_header:
+                if line.rstrip() == section_header:
                     break
             for line in fo:
-                if line.strip().startswith(option):
+                if line.startswith('['):
+                    return value
+                name, _, first = re.match(r'([^=:]*)([=:]?)(.*)', line).groups()
+                if not line[0].isspace() and optionxform(name.strip()) == optionxform(option):
                     break
+            else:
+                return value
             for line in fo:
                 if line and not line[0].isspace():
                     break
                 lines.append(line)
-        return textwrap.dedent(''.join(lines))
+        raw = textwrap.dedent(''.join(lines))
+        if first.strip():
+            raw = first.strip() + '\n' + raw
+        return raw
 
     # Source
 
@@ -184,6 +195,6 @@ class ConfigSource(Source, ParserMixin):
 
         # preserve white-space for mulit-line strings
         if self.preserve_whitespace and isinstance(value, six.string_types) and value.count('\n') > 0:
-            value = self.as_raw(path)
+            value = self.as_raw(path, value)
 
         return value
-- 
2.43.0


From 8623a7aceabe06216d6d7909aed913efe04c5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 70/84] fix: attaching a parent passes over null

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 423c8ad..5030eab 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -627,7 +627,7 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
+        if self.attach_parent and value is not None and value not in IGNORE:
             if hasattr(self.ctx, 'parent'):
                 value.parent = weakref.proxy(self.ctx.parent)
             else:
-- 
2.43.0


From efbd367b2e3d4b98c8ff65f23185f315a19f6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 71/84] fix: the names pilo.fields announces exist

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 5030eab..be07362 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -73,7 +73,7 @@ else:
 
 
 __all__ = [
-    'Field'
+    'Field',
     'String',
     'Integer',
     'Int',
@@ -81,8 +81,8 @@ __all__ = [
     'Decimal',
     'Boolean',
     'Bool',
-    'List'
-    'Dict'
+    'List',
+    'Dict',
     'SubForm',
     'Form',
 ]
-- 
2.43.0


From f60e44e4702eca81a7d169b5661693cd36e43301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 72/84] fix: an abstract type field has no value

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index be07362..bde435e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1364,7 +1364,7 @@ class Type(String):
 
     @property
     def value(self):
-        if self.default in IGNORE:
+        if isinstance(self.default, Hook) or self.default in IGNORE:
             if not self.choices:
                 raise TypeError('{0} is abstract'.format(self))
             raise TypeError('{0} is polymorphic'.format(self))
-- 
2.43.0


From f804cf6e97d6707c628bc5c0b08ce5741b086af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 73/84] fix: options filled by defaults are among the keys of
 their section

---
 pilo/source/configparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 7241bc6..057850b 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -85,9 +85,12 @@ class SectionMapping(collections.Mapping):
             yield k
         for k, v in self.config.items(self.section):
             yield k
+        for k in self.defaults:
+            if k not in self.sub_mappings and not self.config.has_option(self.section, k):
+                yield k
 
     def __len__(self):
-        return len(self.sub_mappings) + len(self.config.options(self.section))
+        return sum(1 for _ in self)
 
 
 class Mapping(collections.Mapping):
-- 
2.43.0


From 6a44c4098680d4a918eaaf7fdfc6d280e14bc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 74/84] fix: configuration that cannot be interpolated is
 invalid

---
 pilo/fields.py              | 10 +++++-----
 pilo/source/configparser.py | 28 ++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index bde435e..56d12b8 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -488,11 +488,11 @@ class Field(CreatedCountMixin, ContextMixin):
         Processes this fields `src` from `ctx.src`.
         """
         src_path = self.ctx.src_path
-        if not src_path.exists:
-            return NONE
-        if src_path.is_null:
-            return None
         try:
+            if not src_path.exists:
+                return NONE
+            if src_path.is_null:
+                return None
             if self.parse:
                 value = self.parse(src_path)
             else:
@@ -835,7 +835,7 @@ class Number(Field):
                 for bound in (self.min_value, self.max_value):
                     if bound is not None and value == value:
                         value < bound
-            except TypeError as ex:
+            except (TypeError, SourceError) as ex:
                 self.ctx.errors.invalid(str(ex))
                 return False
             if self.min_value is not None and (value != value or value < self.min_value):
diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 057850b..8850ecc 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -4,7 +4,7 @@ import shlex
 import six
 import textwrap
 
-from . import Source, Path, ParserMixin, NONE
+from . import Source, SourceError, Path, ParserMixin, NONE
 
 
 class ConfigPath(Path):
@@ -65,25 +65,41 @@ class SectionMapping(collections.Mapping):
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]$'
         self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
-        for option, value in self.config.items(section):
+        for option in self.config.options(section):
             m = re.match(pattern, option)
             if not m:
                 continue
-            self.sub_mappings[m.group('name')][m.group('key')] = value
+            self.sub_mappings[m.group('name')][m.group('key')] = option
+
+    def _get(self, option):
+        try:
+            return self.config.get(self.section, option)
+        except six.moves.configparser.InterpolationError as ex:
+            raise SourceError(None, str(ex))
 
     def __getitem__(self, key):
         if key in self.sub_mappings:
-            return self.sub_mappings[key]
+            return dict(
+                (sub_key, self._get(option))
+                for sub_key, option in six.iteritems(self.sub_mappings[key])
+            )
         if self.config.has_option(self.section, key):
-            return self.config.get(self.section, key)
+            return self._get(key)
         if key in self.defaults:
             return self.defaults[key]
         raise KeyError(key)
 
+    def __contains__(self, key):
+        return (
+            key in self.sub_mappings or
+            self.config.has_option(self.section, key) or
+            key in self.defaults
+        )
+
     def __iter__(self):
         for k, v in six.iteritems(self.sub_mappings):
             yield k
-        for k, v in self.config.items(self.section):
+        for k in self.config.options(self.section):
             yield k
         for k in self.defaults:
             if k not in self.sub_mappings and not self.config.has_option(self.section, k):
-- 
2.43.0


From 36146f6c1c12d83f2c0ed7c8b1c692fbfff5c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 75/84] fix: a copied location of a mount is its own where
 nothing is mounted

---
 pilo/source/mount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 34aa7a7..c14ec3a 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -18,6 +18,7 @@ class MountPath(collections.MutableSequence):
     def __copy__(self):
         other = type(self).__new__(type(self))
         other.__dict__.update(self.__dict__)
+        other.dne = copy.copy(self.dne)
         other.paths = dict((key, copy.copy(path)) for key, path in six.iteritems(self.paths))
         return other
 
-- 
2.43.0


From 0f510baa44cac9dc45fdffdeab378dd2657563ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:59 +0000
Subject: [PATCH 76/84] fix: a copied location of a union is its own

---
 pilo/source/union.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8588bc2..b5bd50f 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 
 from . import Path, PathPart, Source, NONE, DefaultSource
 
@@ -24,6 +25,24 @@ class UnionPath(Path):
             prefix = list(prefix)[0]
             self.parts.extend([PathPart(key=key) for key in prefix])
 
+    def __copy__(self):
+        other = super(UnionPath, self).__copy__()
+        copies = dict((id(path), copy.copy(path)) for path in self.paths)
+        other.paths = [copies[id(path)] for path in self.paths]
+
+        def copied(value):
+            if isinstance(value, (Join, Mapping, Sequence)):
+                return value.copied(copies)
+            return value
+
+        other.root = copied(self.root)
+        other.parts = []
+        for part in self.parts:
+            part = copy.copy(part)
+            part.value = copied(part.value)
+            other.parts.append(part)
+        return other
+
     # Path
 
     @property
@@ -127,6 +146,11 @@ class Join(Source):
         self.src = src
         self.paths = paths
 
+    def copied(self, copies):
+        other = copy.copy(self)
+        other.paths = [copies.get(id(path), path) for path in self.paths]
+        return other
+
     def mapping(self):
         return Mapping(self.src, self.paths)
 
@@ -177,6 +201,11 @@ class Mapping(collections.Mapping):
         self.src = src
         self.mappings = mappings
 
+    def copied(self, copies):
+        other = copy.copy(self)
+        other.mappings = [(copies.get(id(path), path), keys) for path, keys in self.mappings]
+        return other
+
     # collections.Mapping
 
     def __getitem__(self, key):
@@ -223,6 +252,11 @@ class Sequence(collections.Sequence):
         self.src = src
         self.sequences = sequences
 
+    def copied(self, copies):
+        other = copy.copy(self)
+        other.sequences = [(copies.get(id(path), path), length) for path, length in self.sequences]
+        return other
+
     # collections.Sequence
 
     def __getitem__(self, key):
-- 
2.43.0


From 62f36b91e1505baaf0c187ed1abe040ba9d84674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 77/84] fix: what was found below a changed part of a location
 is not kept

---
 pilo/source/__init__.py | 14 +++++++++++++-
 pilo/source/union.py    |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index e419de7..03ae40d 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -21,6 +21,7 @@ specializations for *computing* values from serializations:
 There's also `UnionSource` which unions a collection of `Source`s.
 """
 import collections
+import copy
 import inspect
 import six
 
@@ -93,7 +94,7 @@ class Path(collections.MutableSequence):
     def __copy__(self):
         other = type(self).__new__(type(self))
         other.__dict__.update(self.__dict__)
-        other.parts = list(self.parts)
+        other.parts = [copy.copy(part) for part in self.parts]
         return other
 
     @property
@@ -160,14 +161,25 @@ class Path(collections.MutableSequence):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts[index] = value
+        self._forget(self.parts.index(value) + 1)
 
     def __delitem__(self, index):
+        before = list(self.parts)
         del self.parts[index]
+        same = 0
+        while same < len(self.parts) and self.parts[same] is before[same]:
+            same += 1
+        self._forget(same)
 
     def insert(self, index, value):
         if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts.insert(index, value)
+        self._forget(self.parts.index(value) + 1)
+
+    def _forget(self, index):
+        for part in self.parts[index:]:
+            part.value = NOT_SET
 
 
 class Source(object):
diff --git a/pilo/source/union.py b/pilo/source/union.py
index b5bd50f..55fea1e 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -86,6 +86,9 @@ class UnionPath(Path):
         for path, part in zip(self.paths, parts):
             path.insert(index, part)
 
+    def _forget(self, index):
+        pass  # a key of a union is only found by entering what holds it
+
 
 class UnionSource(Source):
 
-- 
2.43.0


From 63229ba98908c81fe79588e7d5a2c17eb68ac5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:14 +0000
Subject: [PATCH 78/84] fix: several tags can be given as the tags option

---
 pilo/fields.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 56d12b8..d36a15f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -400,7 +400,12 @@ class Field(CreatedCountMixin, ContextMixin):
             self.attach_parent = attach_parent
 
         if tags is not NOT_SET:
-            self.tag(tags)
+            if isinstance(tags, collections.Mapping):
+                self.tags.update(tags)
+            elif isinstance(tags, (list, tuple, set, frozenset)):
+                self.tag(*tags)
+            else:
+                self.tag(tags)
 
         return self
 
-- 
2.43.0


From 5fef22f7e0c0f8a7acd2a4d943de825d6f9b4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:05 +0000
Subject: [PATCH 79/84] fix: a value that a format cannot take is invalid

---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index d36a15f..e73ef93 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -730,7 +730,11 @@ class String(Field):
             except AttributeError as ex:
                 self.ctx.errors.invalid(str(ex))
                 return ERROR
-            return fmt.format(**values)
+            try:
+                return fmt.format(**values)
+            except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError) as ex:
+                self.ctx.errors.invalid(str(ex))
+                return ERROR
 
         return self.compute.attach(self)(compute)
 
-- 
2.43.0


From 56ec402736e5ee81e72ebb366aa80468aeec9ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 80/84] fix: a field that reads the empty key is mapped from
 positional data too

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e73ef93..728d9c2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1669,7 +1669,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return DefaultSource(
             obj,
             aliases=dict(
-                (field.src or field.name, i) for i, field in enumerate(self.fields)
+                (field.name if field.src is None else field.src, i) for i, field in enumerate(self.fields)
             )
         )
 
-- 
2.43.0


From ffe59ff7ba1f50d6963c31b8e839ed05521a93ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 81/84] fix: a comment inside an option does not end its
 preserved text

---
 pilo/source/configparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 8850ecc..323b385 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -183,7 +183,9 @@ class ConfigSource(Source, ParserMixin):
             else:
                 return value
             for line in fo:
-                if line and not line[0].isspace():
+                if line[0] in '#;':
+                    continue
+                if not line[0].isspace():
                     break
                 lines.append(line)
         raw = textwrap.dedent(''.join(lines))
-- 
2.43.0


From 9a3f54d38baf97cd05d3f5ae5030561111e41327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 82/84] fix: a form that declares a field named src can be read
 outside of mapping

---
 pilo/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 728d9c2..69d7484 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -648,10 +648,14 @@ class Field(CreatedCountMixin, ContextMixin):
         if self.name in form:
             return form[self.name]
         if getattr(self.ctx, 'form', None) is None:
+            if isinstance(getattr(type(form), 'src', None), Field):
+                src = DefaultSource({})
+            else:
+                src = getattr(form, 'src', DefaultSource({}))
             with self.ctx(
                      form=form,
                      parent=form,
-                     src=getattr(form, 'src', DefaultSource({})),
+                     src=src,
                      errors=RaiseErrors()
                  ):
                 value = self.map()
-- 
2.43.0


From 75ba9c43b4d123058acade2de76eded37ad5b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:12 +0000
Subject: [PATCH 83/84] fix: choices may be given as a tuple or a set

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 69d7484..77a30c2 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -805,10 +805,10 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
-                    value, self.choices[0],
+                    value, list(self.choices)[0],
                 ))
             else:
                 self.ctx.errors.invalid('"{0}" is not one of {1}'.format(
-- 
2.43.0


From 0dc66be2fd8c25b828fa9e0642a6ff1c1290e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:14 +0000
Subject: [PATCH 84/84] fix: tags may be given as a tuple

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 77a30c2..3313492 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1750,7 +1750,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
 
     def map(self, src=None, tags=None, reset=False, unmapped='ignore', error='collect'):
         tags = tags if tags else getattr(self.ctx, 'tags', None)
-        if isinstance(tags, list):
+        if isinstance(tags, (list, tuple)):
             tags = set(tags)
         if reset:
             self._reset(tags)
-- 
2.43.0

