From 992f161877b5afbb14122c753ffa2ce04b013e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:54 +0000
Subject: [PATCH 01/69] fix: rewinding to the innermost frame discarded the
 whole context

With i == 0 the slices [-0:] cover the whole stack, so ctx.rewind() with a
predicate satisfied by the top frame (as in its own docstring) emptied the
stack and left the thread's context unusable.
---
 pilo/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index 103b1e1..ff8fb47 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -136,11 +136,12 @@ class Context(threading.local):
         """
         for i, frame in enumerate(reversed(self.stack)):
             if stop(frame):
-                frames = self.stack[-i:]
+                keep = len(self.stack) - i
                 break
         else:
             raise RewindDidNotStop()
-        del self.stack[-i:]
+        frames = self.stack[keep:]
+        del self.stack[keep:]
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
-- 
2.43.0


From 915dd972ab03672f4fd4ebf9dabc50406bf15f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:28 +0000
Subject: [PATCH 02/69] fix: FieldError.path lost the location of the error

It aliased the thread's live source path, which is unwound while mapping
goes on, so by the time the caller sees the error its path was empty (or
wherever the parse had got to). Keep a snapshot instead.
---
 pilo/fields.py          | 2 +-
 pilo/source/__init__.py | 6 ++++++
 pilo/source/mount.py    | 9 +++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index ea6d191..2f48e5c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -115,7 +115,7 @@ class FieldError(ValueError):
     def __init__(self, message, field):
         super(FieldError, self).__init__(message)
         self.field = field
-        self.path = field.ctx.src_path
+        self.path = copy.copy(field.ctx.src_path)
 
 
 class Missing(FieldError):
diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index ed5ece5..0a0ed28 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -76,6 +76,12 @@ class Path(collections.MutableSequence):
         self.location = location
         self.parts = []
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.parts = list(self.parts)
+        return other
+
     def __str__(self):
         parts = []
         if self:
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 251965d..32e3614 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import six
 
 from . import PathPart, Source, NONE, DefaultSource
@@ -13,6 +14,14 @@ class MountPath(collections.MutableSequence):
             (key, src.path()) for key, src in src.srcs.iteritems()
         )
 
+    def __copy__(self):
+        other = type(self).__new__(type(self))
+        other.__dict__.update(self.__dict__)
+        other.paths = dict(
+            (key, copy.copy(path)) for key, path in six.iteritems(self.paths)
+        )
+        return other
+
     @property
     def path(self):
         return self.paths.get(self.part.key, self.dne) if self.part else None
-- 
2.43.0


From e4ee1683463079b7599e67b80680bcca49eac973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:31 +0000
Subject: [PATCH 03/69] fix: a Date matching none of its formats was silently
 read as null

The last format is at len(formats) - 1, so the error was never reported and
the parse fell through to None, which a nullable field accepts.
---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2f48e5c..238c84f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -918,7 +918,7 @@ class Date(Field, RangeMixin):
                 try:
                     return iso8601.parse_date(value).date()
                 except iso8601.ParseError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
@@ -926,7 +926,7 @@ class Date(Field, RangeMixin):
                 try:
                     return datetime.datetime.strptime(value, spec).date()
                 except ValueError as ex:
-                    if i == len(formats):
+                    if i == len(formats) - 1:
                         self.ctx.errors.invalid(str(ex))
                         return ERROR
 
-- 
2.43.0


From b675d05c11ad73ccb2ab0ced8f0c4f28688148e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 04/69] fix: a malformed decimal escaped as
 decimal.InvalidOperation

It is an ArithmeticError, not a ValueError, so it was not turned into an
Invalid error for the field but blew out of the form.
---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 238c84f..56e6551 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -857,7 +857,10 @@ class Decimal(Number):
         if isinstance(path.value, numbers.Number):
             return decimal.Decimal(path.value)
         value = path.primitive(six.string_types[0])
-        return decimal.Decimal(value)
+        try:
+            return decimal.Decimal(value)
+        except decimal.InvalidOperation:
+            raise ValueError('"{0}" is not a decimal'.format(value))
 
 
 class Boolean(Field):
-- 
2.43.0


From 0c18f7acc0fb336f3a5946e6dc498139c9cfa4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:37 +0000
Subject: [PATCH 05/69] fix: NaN passed the bounds of a Float and crashed those
 of a Decimal

NaN is neither below min nor above max, so Float().min(0).max(1) accepted
it, while comparing a decimal NaN raises decimal.InvalidOperation.
---
 pilo/fields.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 56e6551..17be685 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -789,10 +789,19 @@ class Number(Field):
     def range(self, l, r):
         return self.min(l).max(r)
 
+    def _is_nan(self, value):
+        if isinstance(value, decimal.Decimal):
+            return value.is_nan()
+        return isinstance(value, float) and value != value
+
     def _validate(self, value):
         if not super(Number, self)._validate(value):
             return False
         if value is not None:
+            bounds = [b for b in (self.min_value, self.max_value) if b is not None]
+            if bounds and self._is_nan(value):
+                self.ctx.errors.invalid('"{0}" is not a number'.format(value))
+                return False
             if self.min_value is not None and value < self.min_value:
                 self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                     value, self.min_value
-- 
2.43.0


From 6c4bae8c0dfbf12bd71cbfec274c1672c9b1b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 06/69] fix: an integer too large for a float escaped as
 OverflowError

Reading it as a Float is now an Invalid error for that field.
---
 pilo/source/__init__.py | 5 ++++-
 pilo/source/json.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 0a0ed28..cbe424f 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -244,7 +244,10 @@ class ParserMixin(object):
         if isinstance(value, (float)):
             pass
         elif isinstance(value, six.integer_types):
-            value = float(value)
+            try:
+                value = float(value)
+            except OverflowError:
+                raise self.error(path, '"{0}" is not a float'.format(value))
         elif isinstance(value, six.string_types):
             try:
                 value = float(value)
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 118bf5a..a0d115a 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -67,7 +67,10 @@ class JsonSource(Source):
         if isinstance(value, (float)):
             return value
         if isinstance(value, six.integer_types):
-            return float(value)
+            try:
+                return float(value)
+            except OverflowError:
+                raise self.error(field, '{0} is not a float'.format(value))
         if not self.strict:
             if isinstance(value, six.string_types):
                 try:
-- 
2.43.0


From eded7e52ea97a6355493b858d1e45ab25a8f8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:43 +0000
Subject: [PATCH 07/69] fix: Float.pattern parsed the matched text as an
 integer

So '1.5' was rejected and '1' came back as an int.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 17be685..4e52c1a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -850,7 +850,7 @@ class Float(Number):
                 raise ValueError('{0} does not match pattern "{1}"'.format(
                     value, pattern_re.pattern
                 ))
-            return int(m.group(0))
+            return float(m.group(0))
 
         return self.parse(parse)
 
-- 
2.43.0


From 4fb289c1d60b24f5fe7d376b8141ac4473f25950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:47 +0000
Subject: [PATCH 08/69] fix: changing a cloned field changed the field it was
 cloned from

The clone shared the hooks, ignores, translations and tags of the original,
so e.g. Base.kind.clone().ignore('x') or .translate({...}) leaked back.
---
 pilo/fields.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 4e52c1a..27814d7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -204,6 +204,13 @@ class Hook(object):
         self.target = target
         return self
 
+    def clone(self, parent, other):
+        hook = copy.copy(self)
+        hook.parent = other
+        if hook.target is parent:
+            hook.target = other
+        return hook
+
     def __bool__(self):
         return self.func is not None
 
@@ -426,6 +433,12 @@ class Field(CreatedCountMixin, ContextMixin):
     def clone(self):
         other = copy.copy(self)
         other.parent = None
+        other.ignores = list(self.ignores)
+        other.translations = dict(self.translations)
+        other.tags = dict(self.tags)
+        for name, value in list(vars(self).items()):
+            if isinstance(value, Hook):
+                setattr(other, name, value.clone(self, other))
         return other
 
     def from_context(self):
-- 
2.43.0


From c50cf1d9c7e4594e133caac5c565feee3ba89323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:44 +0000
Subject: [PATCH 09/69] fix: Form.has(name) raised instead of answering

For a name not yet in the form it used the field's value where it needed the
field, and the errors that mean "no value" were not caught.
---
 pilo/fields.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 27814d7..0b8a72c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1703,15 +1703,16 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             name = field
             if name in self:
                 return True
-            field = getattr(self, name, None)
-            if field is None:
+            field = getattr(type(self), name, None)
+            if not isinstance(field, Field):
                 return False
         elif not isinstance(field, Field):
             raise TypeError('{0!r} is not string for Field'.format(field))
         try:
-            return field.__get__(self) is not None
-        except LookupError:
+            value = field.__get__(self, type(self))
+        except (AttributeError, LookupError, FormError):
             return False
+        return value is not None and value not in IGNORE
 
     def flatten(self):
 
-- 
2.43.0


From 531b2861c32c4f93d18f806a70fa5028f4db1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:47 +0000
Subject: [PATCH 10/69] fix: in-line Code was executed outside of the module it
 returns

exec(code) in d is Python 2 syntax for exec_(code, d); on Python 3 it runs
the code in the local scope and the module comes back empty.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0b8a72c..4b248e7 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1245,7 +1245,7 @@ class Code(Field):
     def compile(cls, name, code, **code_globals):
         module = imp.new_module('<{0}>'.format(name))
         module.__dict__.update(code_globals)
-        exec(code) in module.__dict__
+        six.exec_(code, module.__dict__)
         return module
 
     def _parse(self, path):
-- 
2.43.0


From d1017b1c5dbc2647e3a88599488d1aaf4c1bed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:50 +0000
Subject: [PATCH 11/69] fix: Code could not import from a module inside a
 package

__import__('a.b') returns a, so 'a.b:attr' was looked up in a.
---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 4b248e7..2e5ce22 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1232,7 +1232,8 @@ class Code(Field):
 
     @classmethod
     def load(cls, name, attr):
-        module = __import__(name)
+        __import__(name)
+        module = sys.modules[name]
         try:
             obj = six.moves.reduce(getattr, attr.split('.'), module)
         except AttributeError:
-- 
2.43.0


From 6b4141a66eea0fcfe688f056e784a3ac86c9275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:53 +0000
Subject: [PATCH 12/69] fix: Dict(required_keys=[...]) raised AttributeError

The default is a list, but only a set worked.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2e5ce22..eb81637 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1201,7 +1201,7 @@ class Dict(Field):
             return False
         if value is not None:
             if self.required_keys:
-                missing_keys = self.required_keys.difference(value.keys())
+                missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
                         ', '.join(missing_keys)
-- 
2.43.0


From 875a4ec608f9f982f87063cfcb1268eed30a428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 13/69] fix: a field with its own src was missing from a
 positional source

Fields look themselves up by src, the positions were aliased by name.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index eb81637..8822743 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1608,7 +1608,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return DefaultSource(
             obj,
             aliases=dict(
-                (field.name, i) for i, field in enumerate(self.fields)
+                (field.src, i) for i, field in enumerate(self.fields)
             )
         )
 
-- 
2.43.0


From 67a7d2e1aa820654f039af5e2d0631721593b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 14/69] fix: ctx.ignore_default did not apply to default hooks

They ran for an absent value before the flag was looked at; Field._default
already invokes the hook where it should.
---
 pilo/fields.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 8822743..02abae9 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -582,8 +582,6 @@ class Field(CreatedCountMixin, ContextMixin):
                 else:
                     value = self._compute()
                 if value is NONE:
-                    if isinstance(self.default, Hook) and self.default:
-                        return self.default()
                     return self._default()
                 if value in IGNORE:
                     return value
-- 
2.43.0


From 1a90df984a821c71232f7d9e912b3f1b408ed7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:01 +0000
Subject: [PATCH 15/69] fix: String.format rendered the markers of fields
 without a value

A formatted field that depends on a missing or invalid field came out as
e.g. '/my/_Constant("NONE")' instead of being an error.
---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 02abae9..24fe8ed 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -706,7 +706,10 @@ class String(Field):
             values = {}
             try:
                 for name, field in six.iteritems(kwargs):
-                    values[name] = six.moves.reduce(getattr, field.split('.'), self.ctx.form)
+                    value = six.moves.reduce(getattr, field.split('.'), self.ctx.form)
+                    if value in IGNORE:
+                        raise AttributeError('"{0}" has no value'.format(field))
+                    values[name] = value
             except AttributeError as ex:
                 self.ctx.errors.invalid(str(ex))
                 return ERROR
-- 
2.43.0


From 342d3df7c07a15eefd22fa320377c850ad3c3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 16/69] fix: String.capture raised TypeError for a null value

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 24fe8ed..373c6bd 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -726,6 +726,8 @@ class String(Field):
             pattern = re.compile(pattern)
 
         def munge(self, value):
+            if value is None:
+                return None
             match = pattern.match(value)
             if not match:
                 return NONE
-- 
2.43.0


From f3ce9691d2bd17047acf6cf23eae1661c94a3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 17/69] fix: attach_parent raised AttributeError for a null
 value

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 373c6bd..1f7235a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -620,7 +620,7 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         with self.ctx(field=self, parent=self):
             value = self._map(value)
-        if self.attach_parent and value not in IGNORE:
+        if self.attach_parent and value is not None and value not in IGNORE:
             if hasattr(self.ctx, 'parent'):
                 value.parent = weakref.proxy(self.ctx.parent)
             else:
-- 
2.43.0


From f29c36d98820897bcb5ce1e98dc771415f6a1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 18/69] fix: Field.from_context needed contextlib.nested

Which Python 3 does not have, so mapping such a field always failed.
---
 pilo/fields.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 1f7235a..2681e53 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -443,11 +443,14 @@ class Field(CreatedCountMixin, ContextMixin):
 
     def from_context(self):
 
+        @contextlib.contextmanager
+        def nested(field):
+            with field.ctx(src=DefaultSource(field.ctx)):
+                with field.ctx(src=field.src):
+                    yield
+
         def resolve(self):
-            return contextlib.nested(
-                self.ctx(src=DefaultSource(self.ctx)),
-                self.ctx(src=self.src),
-            )
+            return nested(self)
 
         self.resolve.attach(self)(resolve)
         return self
-- 
2.43.0


From b333ed05ed398f731eff9418b36594869c45848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:20 +0000
Subject: [PATCH 19/69] fix: concurrent mapping could change the process'
 warning filters

warnings.catch_warnings saves and restores the filters of the whole process,
so two threads mapping at once could leave its filter behind for good or drop
one set meanwhile. It was only there for contextlib.nested, now unused.
---
 pilo/fields.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 2681e53..f1873c3 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -53,7 +53,6 @@ import re
 import six
 import time
 import uuid
-import warnings
 import weakref
 
 try:
@@ -1661,24 +1660,20 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return dict_field.map()
 
     def _root_map(self, src, tags, unmapped, error):
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                'ignore', 'With-statements now directly support multiple context managers'
-            )
-            if src is None:
-                src = self._map_source({})
-            elif isinstance(src, dict):
-                src = self._map_source(src)
-            elif isinstance(src, (list, tuple)):
-                src = self._seq_source(src)
-            elif isinstance(src, Source):
-                pass
-            else:
-                raise ValueError('Invalid src, expected None, dict or Source')
-            errors = (CollectErrors if error == 'collect' else RaiseErrors)()
-            with self.ctx(src=src, errors=errors):
-                self._map(tags, unmapped)
-                errors = self.ctx.errors
+        if src is None:
+            src = self._map_source({})
+        elif isinstance(src, dict):
+            src = self._map_source(src)
+        elif isinstance(src, (list, tuple)):
+            src = self._seq_source(src)
+        elif isinstance(src, Source):
+            pass
+        else:
+            raise ValueError('Invalid src, expected None, dict or Source')
+        errors = (CollectErrors if error == 'collect' else RaiseErrors)()
+        with self.ctx(src=src, errors=errors):
+            self._map(tags, unmapped)
+            errors = self.ctx.errors
         return errors
 
     def _nested_map(self, tags, unmapped, error):
-- 
2.43.0


From 3b663dd9d464b276ab28c974973bb8bd4c6c76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:24 +0000
Subject: [PATCH 20/69] fix: Form.munge and filter missed forms in a Dict and
 broke tuples

So filter() left everything in the values of a Dict or in a nested list, and
a Tuple or Time value came back as a list.
---
 pilo/fields.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f1873c3..fccaa15 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1740,6 +1740,16 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
         return _flatten(self)
 
     def munge(self, func):
+
+        def _munge(value):
+            if isinstance(value, Form):
+                return value.munge(func)
+            if type(value) in (list, tuple):
+                return type(value)(_munge(item) for item in value)
+            if type(value) is dict:
+                return dict((k, _munge(v)) for k, v in six.iteritems(value))
+            return value
+
         form = type(self)()
         for field in type(self).fields:
             if field.name not in self:
@@ -1749,16 +1759,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
             value = func(form, field, value)
             if value is NONE:
                 continue
-            if isinstance(value, Form):
-                value = value.munge(func)
-            elif isinstance(value, (list, tuple)):
-                items = []
-                for item in value:
-                    if isinstance(item, Form):
-                        item = item.munge(func)
-                    items.append(item)
-                value = items
-            form[field.name] = value
+            form[field.name] = _munge(value)
         return form
 
     def filter(self, *tags, **kwargs):
-- 
2.43.0


From 60d33486f423b74e5852e575dbc07dac5f5a6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:27 +0000
Subject: [PATCH 21/69] fix: probing a type that is absent but optional raised
 AttributeError

So a form with a polymorphic sub-form blew up, instead of reporting an error
for it, on a document without the type.
---
 pilo/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pilo/__init__.py b/pilo/__init__.py
index 1dddad3..903061b 100644
--- a/pilo/__init__.py
+++ b/pilo/__init__.py
@@ -94,10 +94,12 @@ class Types(dict):
     def probe(self, src, default=NONE):
         probe = self.type_form()
         errors = probe.map(src)
-        if not errors:
-            return self.type_field.__get__(probe)
+        if not errors and self.type_field.name in probe:
+            return probe[self.type_field.name]
         if default in IGNORE:
-            raise errors[0]
+            if errors:
+                raise errors[0]
+            raise ValueError('{0} has no value'.format(self.type_field))
         return default
 
 
-- 
2.43.0


From ff83eb4d5f79a5e8cefa8bc0823a9093f72adbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:30 +0000
Subject: [PATCH 22/69] fix: forms defined after the first cast were unknown to
 their type

The identities were mapped once, on first use, so whether a sub-form could
be cast to depended on what had been parsed before it was defined.
---
 pilo/fields.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index fccaa15..fcbd83f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1329,10 +1329,16 @@ class Type(String):
 
     def cast(self, value):
         identity = self.probe(value)
-        if identity not in self.types:
+        if not self.has_type(identity):
             raise ValueError('{0} value {1} invalid'.format(self, identity))
         return self.types[identity]
 
+    def has_type(self, identity):
+        if identity not in self.types:
+            # forms may have been defined since the types were mapped
+            self.types = Types.map(self)
+        return identity in self.types
+
     def probe(self, value):
         if not self.types:
             self.types = Types.map(self)
@@ -1395,7 +1401,7 @@ class PolymorphicSubForm(Field):
             return ERROR
         if identity is None:
             return NONE
-        if identity not in self.type_field.types:
+        if not self.type_field.has_type(identity):
             self.ctx.errors.invalid('invalid identity {0}'.format(identity))
             return ERROR
         return self.type_field.types[identity]
-- 
2.43.0


From 2b67bf5aca5bb4a61e243ecf04cfbe1449de7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 23/69] fix: a document key ending in () called a method of the
 document

Dict fields look up every key of their source, so {'clear()': 1} resolved to
a call of dict.clear. A key that is there is now used as is.
---
 pilo/source/default.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 4620093..fbea468 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -52,6 +52,10 @@ class DefaultPath(Path):
 
     def resolve(self, container, part):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
+            if not self.src.ignore(self):
+                value = self._as_item(container, part.key)
+                if value is not NONE:
+                    return value
             part = copy.copy(part)
             part.key = part.key[:-2]
             value = self.resolve(container, part)
-- 
2.43.0


From e2c790fcfa317961774e53b819b5f3ebb68ef3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 24/69] fix: JsonSource passed json.loads an argument Python
 3.9 removed

---
 pilo/source/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index a0d115a..b4b219f 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -40,7 +40,9 @@ class JsonSource(Source):
         self.strict = strict
         self.location = location
         self.text = text
-        self.data = json.loads(text, encoding=encoding)
+        if encoding is not None and isinstance(text, six.binary_type):
+            text = text.decode(encoding)
+        self.data = json.loads(text)
 
     def as_string(self, field, value):
         if isinstance(value, six.string_types):
-- 
2.43.0


From f6bdfa971fdcae87690bd59d8a942b664a85527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:39 +0000
Subject: [PATCH 25/69] fix: JsonSource could not read a key that contains a
 dot

It only took it as a path, so e.g. a Dict over {"a.b": 1} reported its own
key as missing. As in DefaultSource a literal key now comes first.
---
 pilo/source/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/json.py b/pilo/source/json.py
index b4b219f..81e4b0e 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -23,8 +23,11 @@ class JsonPath(Path):
 
     def resolve(self, container, part):
         try:
+            return container[part.key]
+        except (IndexError, KeyError, TypeError):
             if not isinstance(part.key, six.string_types) or '.' not in part.key:
-                return container[part.key]
+                return NONE
+        try:
             value = container
             for atom in part.key.split('.'):
                 value = value[atom]
-- 
2.43.0


From 1e6dd158c3400d901eb8d4fb52ca0edf4d52800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 26/69] fix: reading a primitive as a sub-class of a known type
 failed

The parser of the base class was looked up in an attribute that is not there.
---
 pilo/source/__init__.py | 2 +-
 pilo/source/json.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index cbe424f..a1f9c8c 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -291,7 +291,7 @@ class ParserMixin(object):
 
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
diff --git a/pilo/source/json.py b/pilo/source/json.py
index 81e4b0e..816cbc4 100644
--- a/pilo/source/json.py
+++ b/pilo/source/json.py
@@ -113,7 +113,7 @@ class JsonSource(Source):
                 return self.parsers[t]
             for mro_t in inspect.getmro(t):
                 if mro_t in self.parsers:
-                    self.parsers[t] = self.types[mro_t]
+                    self.parsers[t] = self.parsers[mro_t]
                     return self.parsers[t]
         if default is not NONE:
             return default
-- 
2.43.0


From ef5a197e06a89bff0a0a5d99878dcf665b92f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 27/69] fix: MountSource did not work on Python 3 nor report
 errors

dict.iteritems is Python 2 only, and its paths had neither the error nor the
src attribute that they and the fields use to report errors.
---
 pilo/source/mount.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 32e3614..559cf1c 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -8,10 +8,11 @@ from . import PathPart, Source, NONE, DefaultSource
 class MountPath(collections.MutableSequence):
 
     def __init__(self, src):
+        self.src = src
         self.part = None
         self.dne = DefaultSource({}).path()
         self.paths = dict(
-            (key, src.path()) for key, src in src.srcs.iteritems()
+            (key, src.path()) for key, src in six.iteritems(src.srcs)
         )
 
     def __copy__(self):
@@ -69,12 +70,12 @@ class MountPath(collections.MutableSequence):
 
     def primitive(self, *types):
         if self.part is None:
-            raise self.error(self, 'not a primitive')
+            raise self.src.error(self, 'not a primitive')
         return self.paths[self.part.key].primitive(*types)
 
     def sequence(self):
         if self.part is None:
-            raise self.error(self, 'not a sequence')
+            raise self.src.error(self, 'not a sequence')
         return self.paths[self.part.key].sequence()
 
     def mapping(self):
-- 
2.43.0


From 346319a27e342215bfca67c9ddf1d8b73851d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 28/69] fix: a name that is not mounted resolved to an empty
 mapping

So a field for it raised KeyError or was mapped from nothing instead of being
missing and using its default.
---
 pilo/source/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 559cf1c..914d7c6 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -44,7 +44,7 @@ class MountPath(collections.MutableSequence):
 
     @property
     def value(self):
-        if self.path is None:
+        if self.part is None or self.part.key not in self.paths:
             return NONE
         return self.path.value
 
-- 
2.43.0


From 0ceba96fe37a5746b5d8afedcdb53c6706269bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:50 +0000
Subject: [PATCH 29/69] fix: ConfigSource could not be created from text

---
 pilo/source/configparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 84a5538..e22eb3d 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -131,8 +131,8 @@ class ConfigSource(Source, ParserMixin):
         if isinstance(config, six.string_types):
             parser = six.moves.configparser.ConfigParser()
             if preserve_case:
-                config.optionxform = lambda x: x
-            parser.readfp(six.moves.StringIO.StringIO(config))
+                parser.optionxform = lambda x: x
+            parser.readfp(six.StringIO(config))
             config = parser
         self.config = config
         self.section = section
-- 
2.43.0


From ce99a851e650114bcf9fdbf0b0db70f6fc5b771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 30/69] fix: ConfigSource failed on a section unless defaults
 were given

And iterating a section used dict.iteritems, which is Python 2 only.
---
 pilo/source/configparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index e22eb3d..70e0b16 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -60,7 +60,7 @@ class SectionMapping(collections.Mapping):
         self.config = config
         self.section = section
         pattern = r'(?P<name>[\w\_]+)\[(?P<key>[\w\_\-\.]+)\]'
-        self.defaults = defaults
+        self.defaults = defaults or {}
         self.sub_mappings = collections.defaultdict(dict)
         for option, value in self.config.items(section):
             m = re.match(pattern, option)
@@ -78,7 +78,7 @@ class SectionMapping(collections.Mapping):
         raise KeyError(key)
 
     def __iter__(self):
-        for k, v in self.sub_mappings.iteritems():
+        for k, v in six.iteritems(self.sub_mappings):
             yield k
         for k, v in self.config.items(self.section):
             yield k
@@ -96,7 +96,7 @@ class Mapping(collections.Mapping):
     def __getitem__(self, key):
         if not self.config.has_section(key):
             raise KeyError(key)
-        return SectionMapping(self.config, key, self.defaults.get(key, None))
+        return SectionMapping(self.config, key, (self.defaults or {}).get(key, None))
 
     def __iter__(self):
         for section in self.config.sections():
-- 
2.43.0


From c14aa3e3671fdbdb8ada857689aa546bf0774e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 31/69] fix: a null in a UnionSource was not null

A field that is null in every source that has it was parsed, and rejected,
as if it were the text None.
---
 pilo/source/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 8bba843..fec0927 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -30,6 +30,8 @@ class UnionPath(Path):
     def is_null(self):
         if super(UnionPath, self).is_null:
             return True
+        if isinstance(self.value, Join):
+            return all(path.is_null for path in self.value.paths)
         if isinstance(self.value, Mapping):
             return len(self.value.mappings) == 0
         if isinstance(self.value, Sequence):
-- 
2.43.0


From 2ab4b8ed95215aa82df428ae8809f5486c70fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:58 +0000
Subject: [PATCH 32/69] fix: merge_depth compared the number of sources for
 mappings

Sequences compare the depth of the path, as its name says.
---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index fec0927..66cea38 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -149,7 +149,7 @@ class Mapping(collections.Mapping):
         mappings = []
         if merge is None:
             merge = src.mapping_merge
-            if src.merge_depth is not None and src.merge_depth <= len(paths):
+            if src.merge_depth is not None and src.merge_depth <= len(paths[0]):
                 merge = 'first'
         if merge not in ('first', 'last', 'combine'):
             raise ValueError('merge="{0}" invalid'.format(merge))
-- 
2.43.0


From 162d096a836282e1322948b010852e2366f4b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:09 +0000
Subject: [PATCH 33/69] fix: text was read as a list of its characters

Text is a Sequence, so DefaultSource gave a List or Tuple field the characters
of a string (also with allow_field, which is for a single value), where
JsonSource reports that the same document has no sequence there.
---
 pilo/source/default.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index fbea468..6b4de03 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -97,7 +97,10 @@ class DefaultSource(Source, ParserMixin):
         return DefaultPath(self, self.location)
 
     def sequence(self, path):
-        if isinstance(path.value, (collections.Sequence, list, tuple)):
+        if (
+            isinstance(path.value, (collections.Sequence, list, tuple)) and
+            not isinstance(path.value, (six.string_types, six.binary_type))
+        ):
             return len(path.value)
         raise self.error(path, 'is not a sequence')
 
-- 
2.43.0


From b235a37ba01eaa7a81b1812b426a5b6ccfdcf5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:16 +0000
Subject: [PATCH 34/69] fix: translating a value that is not hashable raised
 TypeError

A field with translations that is not limited to scalars (Field, List, Dict)
raised TypeError out of Form.map for a document that holds a list or a
mapping there. Such a value has no translation.
---
 pilo/fields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index fcbd83f..7518825 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -537,8 +537,11 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Possibly munges a value.
         """
-        if self.translations and value in self.translations:
-            value = self.translations[value]
+        if self.translations:
+            try:
+                value = self.translations.get(value, value)
+            except TypeError:
+                pass  # not hashable, so it has no translation
         return value
 
     def _default(self):
-- 
2.43.0


From 6a6a6f8e176330b4aad35f2ee7fa380debaf6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 35/69] fix: a mapping key that is not text or an integer broke
 its path

Mapping a Dict out of a native mapping that has a key such as None or 1.5
raised AttributeError out of Form.map: the key was put in the path bare.
---
 pilo/source/__init__.py | 6 +++---
 pilo/source/mount.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index a1f9c8c..c4b6825 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -90,7 +90,7 @@ class Path(collections.MutableSequence):
                 if isinstance(part.key, six.integer_types):
                     part = '[{0}]'.format(part.key)
                 else:
-                    part = '.' + part.key
+                    part = '.{0}'.format(part.key)
                 parts.append(part)
         return ''.join(parts)
 
@@ -155,7 +155,7 @@ class Path(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts[index] = value
 
@@ -163,7 +163,7 @@ class Path(collections.MutableSequence):
         del self.parts[index]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         self.parts.insert(index, value)
 
diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 914d7c6..65f7743 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -94,7 +94,7 @@ class MountPath(collections.MutableSequence):
     # collections.MutableSequence
 
     def __setitem__(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         if index < 0:
             index = len(self) + index
@@ -118,7 +118,7 @@ class MountPath(collections.MutableSequence):
         del self.path[index - 1]
 
     def insert(self, index, value):
-        if isinstance(value, (six.integer_types, six.string_types)):
+        if not isinstance(value, PathPart):
             value = PathPart(key=value)
         if index < 0:
             index = len(self) + index
-- 
2.43.0


From 8e96dc0f4dbfff54ee92cb77b50c35c69754eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:15 +0000
Subject: [PATCH 36/69] fix: an absent key named like a dict method resolved to
 the method

A field called items, keys, values, copy, count, index, ... that is absent
from a native document was resolved to the method of that name of the dict
(or list) it is looked for in: it was reported as invalid, not as missing,
its default was ignored, and an untyped field was given the bound method.
Only an explicit call, e.g. 'items()', now reaches the methods of plain data.
---
 pilo/source/default.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 6b4de03..6f3255b 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -7,7 +7,12 @@ from . import Source, Path, ParserMixin, NONE
 
 class DefaultPath(Path):
 
-    def _resolve(self, container, atom):
+    #: Types of plain data, whose own attributes (e.g. dict.items) are not data.
+    plain = (
+        (dict, list, tuple, six.text_type, six.binary_type, float) + six.integer_types
+    )
+
+    def _resolve(self, container, atom, call=False):
         if self.src.ignore(self):
             return NONE
         value = self._as_item(container, atom)
@@ -16,8 +21,19 @@ class DefaultPath(Path):
         value = self._as_alias(container, atom)
         if value is not NONE:
             return value
+        if not call and self._is_plain_attr(container, atom):
+            return NONE
         return self._as_attr(container, atom)
 
+    def _is_plain_attr(self, container, atom):
+        if not isinstance(atom, six.string_types):
+            return False
+        attr = getattr(type(container), atom, NONE)
+        return attr is not NONE and any(
+            isinstance(container, t) and attr == getattr(t, atom, NONE)
+            for t in self.plain
+        )
+
     def _as_item(self, container, atom):
         try:
             return container[atom]
@@ -50,7 +66,7 @@ class DefaultPath(Path):
         parts.append(super(DefaultPath, self).__str__())
         return ':'.join(parts)
 
-    def resolve(self, container, part):
+    def resolve(self, container, part, call=False):
         if isinstance(part.key, six.string_types) and part.key.endswith('()'):
             if not self.src.ignore(self):
                 value = self._as_item(container, part.key)
@@ -58,17 +74,17 @@ class DefaultPath(Path):
                     return value
             part = copy.copy(part)
             part.key = part.key[:-2]
-            value = self.resolve(container, part)
+            value = self.resolve(container, part, call=True)
             if value is NONE:
                 return NONE
             return value()
 
         if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key)
+            value = self._resolve(container, part.key, call)
             if value is NONE:
                 value = container
                 for atom in part.key.split('.'):
-                    value = self._resolve(value, atom)
+                    value = self._resolve(value, atom, call)
                     if value is NONE:
                         break
         else:
-- 
2.43.0


From 6b3d8b6eea9ae06d10df95f3e77c86cf53d91638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:11 +0000
Subject: [PATCH 37/69] fix: a path with keys pushed before it was read ignored
 the wrong place

DefaultPath compared the whole of the current path, not the part that was
being resolved, with the ignored places and the top level that aliases apply
to. So reading `a.b`, ignored, made `a` absent too when it had not been read
before, and an alias did not apply.
---
 pilo/source/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index c4b6825..2c03411 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -21,6 +21,7 @@ specializations for *computing* values from serializations:
 There's also `UnionSource` which unions a collection of `Source`s.
 """
 import collections
+import copy
 import inspect
 import six
 
@@ -106,8 +107,13 @@ class Path(collections.MutableSequence):
         else:
             i, value = 0, self.root
 
-        for part in self.parts[i:]:
-            value = part.value = self.resolve(value, part)
+        for i, part in enumerate(self.parts[i:], i + 1):
+            path = self
+            if i < len(self.parts):
+                # as if it had been read before the keys after it were added
+                path = copy.copy(self)
+                del path.parts[i:]
+            value = part.value = path.resolve(value, part)
             if value is NONE:
                 break
 
-- 
2.43.0


From d1524e7305966cd0878ce61bb34c760992c132c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:13 +0000
Subject: [PATCH 38/69] fix: copies of a path to a name that is not mounted
 shared their keys

---
 pilo/source/mount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/mount.py b/pilo/source/mount.py
index 65f7743..56919a6 100644
--- a/pilo/source/mount.py
+++ b/pilo/source/mount.py
@@ -18,6 +18,7 @@ class MountPath(collections.MutableSequence):
     def __copy__(self):
         other = type(self).__new__(type(self))
         other.__dict__.update(self.__dict__)
+        other.dne = copy.copy(self.dne)
         other.paths = dict(
             (key, copy.copy(path)) for key, path in six.iteritems(self.paths)
         )
-- 
2.43.0


From 43d8049ee1c5125e21e907c4b2745cc0e9cb2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:01 +0000
Subject: [PATCH 39/69] fix: a union within a union read the wrong items of a
 combined sequence

The index was shifted in the path of the inner union but not in the paths
of its sources.
---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 66cea38..2ec43ee 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -230,7 +230,7 @@ class Sequence(collections.Sequence):
             offset += length
         else:
             raise IndexError(key)
-        path[-1].key -= offset
+        path[-1] = path[-1].key - offset
         return Join(self.src, [path])
 
     def __len__(self):
-- 
2.43.0


From a1eb1022bac86a93722e07d330d2f64403062156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 40/69] fix: a polymorphic form could not be read from a
 mapping but dict

So neither from a section of a ConfigSource, every one was reported as an
invalid source.
---
 pilo/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 7518825..f2d9e04 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -41,6 +41,7 @@ This defines `Form` and the `Field`s use to build them. Use it like:
         print form.payload.sfield
 
 """
+import collections
 import contextlib
 import copy
 import sys
@@ -1671,7 +1672,7 @@ class Form(six.with_metaclass(FormMeta, dict, CreatedCountMixin, ContextMixin)):
     def _root_map(self, src, tags, unmapped, error):
         if src is None:
             src = self._map_source({})
-        elif isinstance(src, dict):
+        elif isinstance(src, (collections.Mapping, dict)):
             src = self._map_source(src)
         elif isinstance(src, (list, tuple)):
             src = self._seq_source(src)
-- 
2.43.0


From 2a9c6dba1cfc174475c4a7dcc9253ce0dd5bf23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:16 +0000
Subject: [PATCH 41/69] fix: the value of an abstract type was its default hook

instead of the TypeError that says it is abstract.
---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index f2d9e04..852f87f 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1325,7 +1325,7 @@ class Type(String):
 
     @property
     def value(self):
-        if self.default in IGNORE:
+        if self.default in IGNORE or isinstance(self.default, Hook):
             if not self.choices:
                 raise TypeError('{0} is abstract'.format(self))
             raise TypeError('{0} is polymorphic'.format(self))
-- 
2.43.0


From d6738ba9b100dd2a4e51ef795929fc5a7d9242f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:49 +0000
Subject: [PATCH 42/69] fix: a Group never found the value of a field given
 without a key

Group(Integer('a')) looked for the key a within the value at a.
---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 852f87f..0371136 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1433,7 +1433,10 @@ class Group(Field):
                 raise ValueError(
                     'field{0}.src is not set'.format(_path(*path))
                 )
-            self.fields.append((obj.src, obj))
+            # the group resolves the key, the field is not to do so once more
+            field = obj.clone()
+            field.src = None
+            self.fields.append((obj.src, field))
 
         def _add_tuple(obj, *path):
             if len(obj) != 2:
-- 
2.43.0


From 9f934cf622df6a8b6808f3c13a74ec137e603381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:48 +0000
Subject: [PATCH 43/69] fix: a UnionSource gave what was read first whatever
 type was asked for

A value that is no text for an UUID field escaped as AttributeError.
---
 pilo/source/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 2ec43ee..e20397b 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -114,7 +114,8 @@ class UnionSource(Source):
 
     def primitive(self, path, *types):
         if isinstance(path.value, Join):
-            path.value = path.value.primitive(*types)
+            # not kept, it may be read as another type next
+            return path.value.primitive(*types)
         return path.value
 
 
-- 
2.43.0


From 81228cd9c700c2bc1fc71e53596d6b3618e5a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:50 +0000
Subject: [PATCH 44/69] fix: numbers, dates and times of a UnionSource were
 read as text only

Decimal, Date, Time and Datetime looked at the place, which for a union is
not the value, instead of asking for the value.
---
 pilo/fields.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 0371136..792afea 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -883,10 +883,11 @@ class Float(Number):
 class Decimal(Number):
 
     def _parse(self, path):
-        if isinstance(path.value, decimal.Decimal):
-            return path.value
-        if isinstance(path.value, numbers.Number):
-            return decimal.Decimal(path.value)
+        value = path.primitive()
+        if isinstance(value, decimal.Decimal):
+            return value
+        if isinstance(value, numbers.Number):
+            return decimal.Decimal(value)
         value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
@@ -936,8 +937,9 @@ class Date(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.date):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.date):
+            return value
         value = path.primitive(six.string_types[0])
         if not self._format:
             self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
@@ -992,7 +994,7 @@ class Time(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        value = path.value
+        value = path.primitive()
         if isinstance(value, (time.struct_time, datetime.time)):
             return value
         value = path.primitive(six.string_types[0])
@@ -1031,8 +1033,9 @@ class Datetime(Field, RangeMixin):
         return self
 
     def _parse(self, path):
-        if isinstance(path.value, datetime.datetime):
-            return path.value
+        value = path.primitive()
+        if isinstance(value, datetime.datetime):
+            return value
         value = path.primitive(six.string_types[0])
         if self._format == 'iso8601':
             try:
-- 
2.43.0


From 0d7d75e3dac30053ed824fd111364687b8d80074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 45/69] fix: a key below one that is missing was looked up in
 the marker for nothing

---
 pilo/source/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pilo/source/__init__.py b/pilo/source/__init__.py
index 2c03411..630dd51 100644
--- a/pilo/source/__init__.py
+++ b/pilo/source/__init__.py
@@ -107,6 +107,9 @@ class Path(collections.MutableSequence):
         else:
             i, value = 0, self.root
 
+        if value is NONE:
+            return value
+
         for i, part in enumerate(self.parts[i:], i + 1):
             path = self
             if i < len(self.parts):
-- 
2.43.0


From 332fedcca7c9b11977e7352972ab78c5f367bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 46/69] fix: importing everything from pilo.fields raised
 AttributeError

---
 pilo/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 792afea..d5c17c3 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -72,7 +72,7 @@ else:
 
 
 __all__ = [
-    'Field'
+    'Field',
     'String',
     'Integer',
     'Int',
@@ -80,8 +80,8 @@ __all__ = [
     'Decimal',
     'Boolean',
     'Bool',
-    'List'
-    'Dict'
+    'List',
+    'Dict',
     'SubForm',
     'Form',
 ]
-- 
2.43.0


From aececdad267ea8a1eac0407dd2dde63369960533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 47/69] fix: a form as a document mapped its absent fields and
 gave its methods as values

---
 pilo/source/default.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 6f3255b..751898f 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -29,7 +29,13 @@ class DefaultPath(Path):
         if not isinstance(atom, six.string_types):
             return False
         attr = getattr(type(container), atom, NONE)
-        return attr is not NONE and any(
+        if attr is NONE:
+            return False
+        from ..fields import Field, Form
+        if isinstance(attr, Field) or isinstance(container, Form) and hasattr(Form, atom):
+            # a form holds its items, reading its fields would map them again
+            return True
+        return any(
             isinstance(container, t) and attr == getattr(t, atom, NONE)
             for t in self.plain
         )
-- 
2.43.0


From 78eabd6aec86367a2279396ceecd9ed8a8c23ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 48/69] fix: the items of a copied field were those of the
 field it was copied from

---
 pilo/fields.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index d5c17c3..e19e107 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1087,6 +1087,11 @@ class Tuple(Field):
         self.fields = fields
         super(Tuple, self).__init__(*args, **kwargs)
 
+    def clone(self):
+        other = super(Tuple, self).clone()
+        other.fields = [field.clone() for field in self.fields]
+        return other
+
     def _parse(self, path):
         length = path.sequence()
         if length != len(self.fields):
@@ -1129,6 +1134,11 @@ class List(Field):
         self.allow_field = kwargs.pop('allow_field', False)
         super(List, self).__init__(*args, **kwargs)
 
+    def clone(self):
+        other = super(List, self).clone()
+        other.field = self.field.clone().attach(other, None)
+        return other
+
     def min(self, value):
         self.min_length = value
         return self
@@ -1186,6 +1196,12 @@ class Dict(Field):
         self.max_keys = kwargs.pop('max_keys', None)
         super(Dict, self).__init__(*args, **kwargs)
 
+    def clone(self):
+        other = super(Dict, self).clone()
+        other.key_field = self.key_field.clone().attach(other)
+        other.value_field = self.value_field.clone().attach(other)
+        return other
+
     def _key_filter(self, key):
         return True
 
@@ -1471,6 +1487,11 @@ class Group(Field):
             kwargs['default'] = list
         super(Group, self).__init__(**kwargs)
 
+    def clone(self):
+        other = super(Group, self).clone()
+        other.fields = [(src, field.clone()) for src, field in self.fields]
+        return other
+
     def attach(self, parent, name=None):
         if isinstance(parent, (Form, SubForm)):
             raise TypeError(
-- 
2.43.0


From a096069f6142b51218baabf8984254fa1e8352c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 49/69] fix: a hook on a field of a form gave the form instead
 of the field

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e19e107..116bfa9 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -226,7 +226,7 @@ class Hook(object):
                 ))
             self.func = func
             parent = self.parent
-            while isinstance(parent, Field) and parent.parent:
+            while isinstance(parent.parent, Field):
                 parent = parent.parent
             return parent
 
-- 
2.43.0


From 118632a6b7f6c935a37153a1d47803fddb444580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 50/69] fix: a union lost what was left of it when a field
 around was read while it was mapped

---
 pilo/context.py      | 10 ++++++----
 pilo/source/union.py | 36 ++++++++++++------------------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/pilo/context.py b/pilo/context.py
index ff8fb47..d3bb3bc 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -142,13 +142,14 @@ class Context(threading.local):
             raise RewindDidNotStop()
         frames = self.stack[keep:]
         del self.stack[keep:]
+        parts = []
         if self.src_path is not None:
             for frame in frames:
                 if 'src_path' in frame:
                     break
                 if 'src' in frame:
-                    self.src_path.pop()
-        return Close(functools.partial(self.restore, frames))
+                    parts.insert(0, self.src_path.pop())
+        return Close(functools.partial(self.restore, frames, parts))
 
     def push(self, **kwargs):
         """
@@ -164,7 +165,7 @@ class Context(threading.local):
     #: Alias for `push`.
     __call__ = push
 
-    def restore(self, frames=None):
+    def restore(self, frames=None, parts=None):
         """
         """
         if frames is None:
@@ -177,7 +178,8 @@ class Context(threading.local):
                     if 'src_path' in frame:
                         break
                     if 'src' in frame:
-                        self.src_path.append(frame.src)
+                        # as it was, with what it has been resolved to
+                        self.src_path.append(parts.pop(0) if parts else frame.src)
             self.stack.extend(frames)
 
 
diff --git a/pilo/source/union.py b/pilo/source/union.py
index e20397b..b4b22d3 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 
 from . import Path, PathPart, Source, NONE, DefaultSource
 
@@ -44,27 +45,6 @@ class UnionPath(Path):
         except (IndexError, KeyError, TypeError):
             return NONE
 
-    # collections.MutableSequence
-
-    def __setitem__(self, index, value):
-        super(UnionPath, self).__setitem__(index, value)
-        if isinstance(value, PathPart):
-            value = value.key
-        for path in self.paths:
-            path[index] = value
-
-    def __delitem__(self, index):
-        super(UnionPath, self).__delitem__(index)
-        for path in self.paths:
-            del path[index]
-
-    def insert(self, index, value):
-        super(UnionPath, self).insert(index, value)
-        if isinstance(value, PathPart):
-            value = value.key
-        for path in self.paths:
-            path.insert(index, value)
-
 
 class UnionSource(Source):
 
@@ -119,6 +99,15 @@ class UnionSource(Source):
         return path.value
 
 
+def _item(path, key):
+    """
+    Path to an item of what is at `path`, which itself is left where it is.
+    """
+    item = copy.copy(path)
+    item.append(key)
+    return item
+
+
 class Join(Source):
 
     def __init__(self, src, paths):
@@ -181,7 +170,7 @@ class Mapping(collections.Mapping):
         paths = []
         for path, keys in self.mappings:
             if key in keys:
-                paths.append(path)
+                paths.append(_item(path, key))
         if not paths:
             raise KeyError(key)
         return Join(self.src, paths)
@@ -231,8 +220,7 @@ class Sequence(collections.Sequence):
             offset += length
         else:
             raise IndexError(key)
-        path[-1] = path[-1].key - offset
-        return Join(self.src, [path])
+        return Join(self.src, [_item(path, key - offset)])
 
     def __len__(self):
         return sum(length for _, length in self.sequences)
-- 
2.43.0


From 9ded0ca7f5acf0790c0820ff41fb5260190e415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 51/69] fix: a union replaced the documents in the list it was
 given

---
 pilo/source/union.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index b4b22d3..85f72f0 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -57,6 +57,7 @@ class UnionSource(Source):
         merge_depth=None,
     ):
         super(UnionSource, self).__init__()
+        srcs = list(srcs)
         for i, src in enumerate(srcs):
             if isinstance(src, Source):
                 continue
-- 
2.43.0


From 4d9728f957a73fad4d76a1402188b5e1a5791a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 52/69] fix: an invalid merge of sequences raised IndexError

---
 pilo/source/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index 85f72f0..e7ad657 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -207,7 +207,7 @@ class Sequence(collections.Sequence):
             elif merge == 'last':
                 sequences[0] = (path, length)
             else:
-                raise ValueError('merge="{1}" invalid'.format(merge))
+                raise ValueError('merge="{0}" invalid'.format(merge))
         self.src = src
         self.sequences = sequences
 
-- 
2.43.0


From b6f312e720d45abcfa9aaf58b9c99276488e859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:14 +0000
Subject: [PATCH 53/69] fix: a tuple of something that is not a field raised
 ValueError

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 116bfa9..e0cdf2c 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1076,7 +1076,7 @@ class Tuple(Field):
             raise TypeError('{0!r} is not a field sequence'.format(fields))
         for field in fields:
             if not isinstance(field, Field):
-                raise TypeError('{0:r} is not a field'.format(field))
+                raise TypeError('{0!r} is not a field'.format(field))
         self.allow_field = kwargs.pop('allow_field', False)
         if self.allow_field and len(fields) > 1:
             for field in fields[1:]:
-- 
2.43.0


From 1ea820de7b126ce94367cb081bd0c59dd768a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 54/69] fix: an alias of the root renamed keys below it that a
 dotted key led to

---
 pilo/source/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 751898f..14ced90 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -47,7 +47,7 @@ class DefaultPath(Path):
             return NONE
 
     def _as_alias(self, container, atom):
-        if self.src.aliases and atom in self.src.aliases and len(self) == 1:
+        if self.src.aliases and atom in self.src.aliases and len(self) == 1 and container is self.root:
             alias = self.src.aliases[atom]
             return self._as_item(container, alias)
         return NONE
-- 
2.43.0


From 63cfce528c029abeb3ef2b129a24fa3bb0265967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:32 +0000
Subject: [PATCH 55/69] fix: an ignored place was found by a dotted key

---
 pilo/source/default.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 14ced90..7c2bae8 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -89,8 +89,12 @@ class DefaultPath(Path):
             value = self._resolve(container, part.key, call)
             if value is NONE:
                 value = container
-                for atom in part.key.split('.'):
-                    value = self._resolve(value, atom, call)
+                atoms = part.key.split('.')
+                for i, atom in enumerate(atoms, 1):
+                    if i < len(atoms) and self.src.ignore(self, atoms[:i]):
+                        value = NONE
+                    else:
+                        value = self._resolve(value, atom, call)
                     if value is NONE:
                         break
         else:
@@ -108,10 +112,16 @@ class DefaultSource(Source, ParserMixin):
             self.ignores = [ignore.split('.') for ignore in ignores]
         self.location = location
 
-    def ignore(self, path):
+    def ignore(self, path, atoms=None):
         if not self.ignores:
             return False
-        return [part.key for part in path] in self.ignores
+        keys = []
+        for part in path:
+            keys.extend(part.key.split('.') if isinstance(part.key, six.string_types) else [part.key])
+        if atoms is not None:
+            # only that far into the last key
+            keys[-len(path[-1].key.split('.')):] = atoms
+        return keys in self.ignores
 
     # Source
 
-- 
2.43.0


From 49af7bed5b6d1a9dace0f122549d25595f6d214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:02 +0000
Subject: [PATCH 56/69] fix: a dotted key found nothing in a union

---
 pilo/source/union.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pilo/source/union.py b/pilo/source/union.py
index e7ad657..6e670e2 100644
--- a/pilo/source/union.py
+++ b/pilo/source/union.py
@@ -1,7 +1,9 @@
 import collections
 import copy
 
-from . import Path, PathPart, Source, NONE, DefaultSource
+import six
+
+from . import Path, PathPart, Source, SourceError, NONE, DefaultSource
 
 
 class UnionPath(Path):
@@ -43,6 +45,16 @@ class UnionPath(Path):
         try:
             return container[part.key]
         except (IndexError, KeyError, TypeError):
+            if not isinstance(part.key, six.string_types) or '.' not in part.key:
+                return NONE
+        try:
+            value = container
+            for atom in part.key.split('.'):
+                if isinstance(value, Join):
+                    value = value.mapping()
+                value = value[atom]
+            return value
+        except (IndexError, KeyError, TypeError, SourceError):
             return NONE
 
 
-- 
2.43.0


From 4a52bd071daa29f1f3fb0e1867c9ccf2fded53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 57/69] fix: a mapping that was asked for whole still had its
 ignored keys

---
 pilo/source/default.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 7c2bae8..3dc08f2 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -139,11 +139,23 @@ class DefaultSource(Source, ParserMixin):
     def mapping(self, path):
         if isinstance(path.value, (collections.Mapping, dict)):
             if self.aliases and len(path) == 0:
-                return self.aliases.keys()
-            return path.value.keys()
+                return self._keys(path, self.aliases.keys())
+            return self._keys(path, path.value.keys())
         if isinstance(path.value, (collections.Sequence, list, tuple)) and self.aliases and len(path) == 0:
-            return self.aliases.keys()
+            return self._keys(path, self.aliases.keys())
         raise self.error(path, 'is not a mapping')
 
+    def _keys(self, path, keys):
+        if not self.ignores:
+            return keys
+        item = copy.copy(path)
+        item.append(None)
+        kept = []
+        for key in keys:
+            item[-1] = key
+            if not self.ignore(item):
+                kept.append(key)
+        return kept
+
     def primitive(self, path, *types):
         return self.parser(types)(self, path, path.value)
-- 
2.43.0


From ceafdbaf1b42f4ac9dbb0f924eb7ea758c6926f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:23 +0000
Subject: [PATCH 58/69] fix: a dotted key did not find an item whose name ends
 in ()

---
 pilo/source/default.py | 44 +++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/pilo/source/default.py b/pilo/source/default.py
index 3dc08f2..37e12d2 100644
--- a/pilo/source/default.py
+++ b/pilo/source/default.py
@@ -12,7 +12,7 @@ class DefaultPath(Path):
         (dict, list, tuple, six.text_type, six.binary_type, float) + six.integer_types
     )
 
-    def _resolve(self, container, atom, call=False):
+    def _resolve(self, container, atom, call=False, calls=True):
         if self.src.ignore(self):
             return NONE
         value = self._as_item(container, atom)
@@ -21,6 +21,9 @@ class DefaultPath(Path):
         value = self._as_alias(container, atom)
         if value is not NONE:
             return value
+        if calls and isinstance(atom, six.string_types) and atom.endswith('()'):
+            value = self._resolve(container, atom[:-2], call=True)
+            return NONE if value is NONE else value()
         if not call and self._is_plain_attr(container, atom):
             return NONE
         return self._as_attr(container, atom)
@@ -72,33 +75,18 @@ class DefaultPath(Path):
         parts.append(super(DefaultPath, self).__str__())
         return ':'.join(parts)
 
-    def resolve(self, container, part, call=False):
-        if isinstance(part.key, six.string_types) and part.key.endswith('()'):
-            if not self.src.ignore(self):
-                value = self._as_item(container, part.key)
-                if value is not NONE:
-                    return value
-            part = copy.copy(part)
-            part.key = part.key[:-2]
-            value = self.resolve(container, part, call=True)
-            if value is NONE:
-                return NONE
-            return value()
-
-        if isinstance(part.key, six.string_types):
-            value = self._resolve(container, part.key, call)
-            if value is NONE:
-                value = container
-                atoms = part.key.split('.')
-                for i, atom in enumerate(atoms, 1):
-                    if i < len(atoms) and self.src.ignore(self, atoms[:i]):
-                        value = NONE
-                    else:
-                        value = self._resolve(value, atom, call)
-                    if value is NONE:
-                        break
-        else:
-            value = self._resolve(container, part.key)
+    def resolve(self, container, part):
+        value = self._resolve(container, part.key)
+        if value is NONE and isinstance(part.key, six.string_types):
+            value = container
+            atoms = part.key.split('.')
+            for i, atom in enumerate(atoms, 1):
+                if i < len(atoms) and self.src.ignore(self, atoms[:i]):
+                    value = NONE
+                else:
+                    value = self._resolve(value, atom, calls=i == len(atoms))
+                if value is NONE:
+                    break
         return value
 
 
-- 
2.43.0


From 53f145f0bda92586fdea289f54ae4e79c972ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 59/69] fix: text kept as it is in a configuration was that of
 another option, or nothing

---
 pilo/source/configparser.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pilo/source/configparser.py b/pilo/source/configparser.py
index 70e0b16..56e47e8 100644
--- a/pilo/source/configparser.py
+++ b/pilo/source/configparser.py
@@ -140,17 +140,27 @@ class ConfigSource(Source, ParserMixin):
         self.defaults = defaults
         self.preserve_whitespace = preserve_whitespace
 
-    def as_raw(self, path):
-        option = str(path[-1])
+    def as_raw(self, path, value):
+        keys = [part.key for part in path]
+        section = self.section or keys.pop(0)
+        option = keys[0] + ''.join('[{0}]'.format(key) for key in keys[1:])
+        xform = self.config.optionxform
         lines = []
         with open(self.location, 'r') as fo:
-            section_header = '[{0}]'.format(self.section)
+            section_header = '[{0}]'.format(section)
             for line in fo:
-                if line.strip() == section_header:
+                if line.rstrip() == section_header:
                     break
             for line in fo:
-                if line.strip().startswith(option):
+                if line.startswith('['):
+                    return value
+                name, rest = re.match(r'([^=:]*)[=:]?(.*)', line, re.DOTALL).groups()
+                if not line[0].isspace() and xform(name.rstrip()) == xform(option):
+                    if rest.strip():
+                        lines.append(rest.lstrip())
                     break
+            else:
+                return value
             for line in fo:
                 if line and not line[0].isspace():
                     break
@@ -180,6 +190,6 @@ class ConfigSource(Source, ParserMixin):
 
         # preserve white-space for mulit-line strings
         if self.preserve_whitespace and isinstance(value, six.string_types) and value.count('\n') > 0:
-            value = self.as_raw(path)
+            value = self.as_raw(path, value)
 
         return value
-- 
2.43.0


From 66a57b5394c5be45a8c8628c8e58ed850d74b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 60/69] fix: a signalling NaN raised where values are ignored

---
 pilo/fields.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index e0cdf2c..cc44920 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -520,9 +520,10 @@ class Field(CreatedCountMixin, ContextMixin):
         """
         Predicate used to exclude, False, or include, True, a computed value.
         """
-        if self.ignores and value in self.ignores:
-            return False
-        return True
+        try:
+            return not self.ignores or value not in self.ignores
+        except ArithmeticError:
+            return True  # a signalling NaN, which is equal to nothing
 
     def _validate(self, value):
         """
-- 
2.43.0


From 80e53f15fdfb58bf891341135f6380ffa9cb5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 61/69] fix: a number that is no decimal raised

---
 pilo/fields.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index cc44920..3fb91e0 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -888,7 +888,10 @@ class Decimal(Number):
         if isinstance(value, decimal.Decimal):
             return value
         if isinstance(value, numbers.Number):
-            return decimal.Decimal(value)
+            try:
+                return decimal.Decimal(value)
+            except TypeError as ex:
+                raise ValueError(str(ex))
         value = path.primitive(six.string_types[0])
         try:
             return decimal.Decimal(value)
-- 
2.43.0


From e9b2ce15e9bd4172df23a19ba107163edb9d322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 62/69] fix: choices that are not in a list raised

---
 pilo/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 3fb91e0..5bacf7a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -777,10 +777,10 @@ class String(Field):
                 value, self.pattern_re.pattern
             ))
             return False
-        if self.choices and value not in self.choices + list(self.translations.values()):
+        if self.choices and value not in list(self.choices) + list(self.translations.values()):
             if len(self.choices) == 1:
                 self.ctx.errors.invalid('"{0}" is not "{1}"'.format(
-                    value, self.choices[0],
+                    value, list(self.choices)[0],
                 ))
             else:
                 self.ctx.errors.invalid('"{0}" is not one of {1}'.format(
-- 
2.43.0


From 32bdcc7ca65a9308f1e28bfe5e04ca6025acdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 63/69] fix: a date, time or timestamp that cannot be compared
 with the bounds raised

---
 pilo/fields.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 5bacf7a..5677b2a 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -921,6 +921,16 @@ class RangeMixin(object):
     def between(self, l, r):
         return self.after(l).before(r)
 
+    def _range_violation(self, value):
+        try:
+            if self.after_value is not None and value < self.after_value:
+                return 'Must be after {0}'.format(self.after_value)
+            if self.before_value is not None and value > self.before_value:
+                return 'Must be before {0}'.format(self.before_value)
+        except TypeError as ex:
+            # e.g. one has a timezone, the other has none
+            return str(ex)
+
 
 class Date(Field, RangeMixin):
 
@@ -974,11 +984,9 @@ class Date(Field, RangeMixin):
         if not super(Date, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
-                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
-                return False
-            if self.before_value is not None and value > self.before_value:
-                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+            violation = self._range_violation(value)
+            if violation is not None:
+                self.ctx.errors.invalid(violation)
                 return False
         return True
 
@@ -1013,11 +1021,9 @@ class Time(Field, RangeMixin):
         if not super(Time, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
-                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
-                return False
-            if self.before_value is not None and value > self.before_value:
-                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+            violation = self._range_violation(value)
+            if violation is not None:
+                self.ctx.errors.invalid(violation)
                 return False
         return True
 
@@ -1058,11 +1064,9 @@ class Datetime(Field, RangeMixin):
         if not super(Datetime, self)._validate(value):
             return False
         if value is not None:
-            if self.after_value is not None and value < self.after_value:
-                self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
-                return False
-            if self.before_value is not None and value > self.before_value:
-                self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
+            violation = self._range_violation(value)
+            if violation is not None:
+                self.ctx.errors.invalid(violation)
                 return False
         return True
 
-- 
2.43.0


From 3d8cb293abbe22ead1c71fb581666c779bd11cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:32 +0000
Subject: [PATCH 64/69] fix: formatting a value of an ISO 8601 field gave the
 name of the format

---
 pilo/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index 5677b2a..a50a9e5 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -946,6 +946,8 @@ class Date(Field, RangeMixin):
                 format = self._format[0]
             else:
                 format = self._format
+            if format == 'iso8601':
+                return value.isoformat()
             return value.strftime(format)
         self._format = value
         return self
@@ -1038,6 +1040,8 @@ class Datetime(Field, RangeMixin):
 
     def format(self, value):
         if isinstance(value, datetime.date):
+            if self._format == 'iso8601':
+                return value.isoformat()
             return value.strftime(self._format)
         self._format = value
         return self
-- 
2.43.0


From 3660b17707b02cbaa9c6de78520f970ebdb9aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:32 +0000
Subject: [PATCH 65/69] fix: formatting a time of day set it as the format of
 the field

---
 pilo/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pilo/fields.py b/pilo/fields.py
index a50a9e5..cd3de2e 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1004,6 +1004,8 @@ class Time(Field, RangeMixin):
     def format(self, value):
         if isinstance(value, time.struct_time):
             return time.strftime(self._format, value)
+        if isinstance(value, datetime.time):
+            return value.strftime(self._format)
         self._format = value
         return self
 
-- 
2.43.0


From a65c3b8d5f599d5af769c7675c1254566d2d8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:21 +0000
Subject: [PATCH 66/69] fix: values_for a variable named like a dict method
 gave the methods

---
 pilo/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/context.py b/pilo/context.py
index d3bb3bc..1156c51 100644
--- a/pilo/context.py
+++ b/pilo/context.py
@@ -112,7 +112,7 @@ class Context(threading.local):
         """
         Each value with name `k`.
         """
-        return [getattr(frame, k) for frame in self.stack if hasattr(frame, k)]
+        return [frame[k] for frame in self.stack if k in frame]
 
     def reset(self):
         """
-- 
2.43.0


From 8144b59cb3e37a06ef6cd9d83ba85baa575ebfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:19 +0000
Subject: [PATCH 67/69] fix: a mapping limited to no keys was not limited

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index cd3de2e..847a7c5 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1249,7 +1249,7 @@ class Dict(Field):
                         ', '.join(missing_keys)
                     ))
                     return False
-            if self.max_keys and len(value) > self.max_keys:
+            if self.max_keys is not None and len(value) > self.max_keys:
                 self.ctx.errors.invalid('Cannot have more than {0} key(s)'.format(
                     self.max_keys
                 ))
-- 
2.43.0


From b4c2388da43e2e59fda46ad1f2776c93daa6c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:19 +0000
Subject: [PATCH 68/69] fix: a string of length 0 could have any length

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 847a7c5..868ebf5 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -685,7 +685,7 @@ class String(Field):
 
     def __init__(self, *args, **kwargs):
         length = kwargs.pop('length', None)
-        if length:
+        if length is not None:
             if isinstance(length, (list, tuple)):
                 self.min_length, self.max_length = length
             else:
-- 
2.43.0


From 01d46995f5a1cf4bbc44199b40146630aa4702e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:47 +0000
Subject: [PATCH 69/69] fix: missing required keys that are not text raised

---
 pilo/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pilo/fields.py b/pilo/fields.py
index 868ebf5..854c67b 100644
--- a/pilo/fields.py
+++ b/pilo/fields.py
@@ -1246,7 +1246,7 @@ class Dict(Field):
                 missing_keys = set(self.required_keys).difference(value.keys())
                 if missing_keys:
                     self.ctx.errors.invalid('Missing required keys {0}'.format(
-                        ', '.join(missing_keys)
+                        ', '.join(str(key) for key in missing_keys)
                     ))
                     return False
             if self.max_keys is not None and len(value) > self.max_keys:
-- 
2.43.0

