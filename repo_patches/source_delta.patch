From 52624b110e6156b11c3105f8e97be55caa154a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 01/59] fix: temporal formats accept a trailing newline when
 stripping is off

---
 flatland/schema/scalars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..74494bc 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -521,7 +521,7 @@ class DateTime(Temporal):
     type_ = datetime.datetime
     regex = re.compile(
         u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2}) '
-        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = (u'%(year)04i-%(month)02i-%(day)02i '
               u'%(hour)02i:%(minute)02i:%(second)02i')
     used = (u'year', u'month', u'day', u'hour', u'minute', u'second')
@@ -536,7 +536,7 @@ class Date(Temporal):
 
     type_ = datetime.date
     regex = re.compile(
-        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})$')
+        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})\\Z')
     format = u'%(year)04i-%(month)02i-%(day)02i'
     used = (u'year', u'month', u'day')
 
@@ -550,7 +550,7 @@ class Time(Temporal):
 
     type_ = datetime.time
     regex = re.compile(
-        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = u'%(hour)02i:%(minute)02i:%(second)02i'
     used = (u'hour', u'minute', u'second')
 
-- 
2.43.0


From 918951ba323d0da0a91716011f26f76a324f29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 02/59] fix: set_flat vivifies sparse fields whose name is a
 prefix of another key

---
 flatland/schema/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..1251031 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -854,9 +854,10 @@ class Mapping(Container, dict):
 
         for schema in self.field_schema:
             field = schema.name
+            prefix = field + sep
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key == field or key.startswith(prefix):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From 8b5f1e2c3db2eb75dcabbf0eb1208c1b3a5bda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 03/59] fix: flatten exports the members of a nested
 JoinedString

---
 flatland/schema/base.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..d4608df 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -688,14 +688,17 @@ class Element(_BaseElement):
           [(u'contact_name', u'')]
 
         """
-        if self.flattenable:
-            pairs = [(self.flattened_name(sep), value(self))]
-        else:
-            pairs = []
-        if self.children_flattenable:
-            pairs.extend((e.flattened_name(sep), value(e))
-                         for e in self.all_children
-                         if e.flattenable)
+        pairs = []
+        seen, queue = set(), collections.deque([self])
+        while queue:
+            element = queue.popleft()
+            if id(element) in seen:
+                continue
+            seen.add(id(element))
+            if element.flattenable:
+                pairs.append((element.flattened_name(sep), value(element)))
+            if element.children_flattenable:
+                queue.extend(element.children)
         return pairs
 
     def set(self, value):
-- 
2.43.0


From ca04609cc60df56db88a1edf31ee30b84df73c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 04/59] fix: set_flat crashes on a bare list index when list
 members are containers

---
 flatland/schema/containers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 1251031..6e94e25 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -564,7 +564,7 @@ class List(Sequence):
         for key, value in pairs:
             if value == u'' and prune:
                 continue
-            m = regex.match(key)
+            m = regex.match(key or u'')
             if not m:
                 continue
             try:
@@ -669,7 +669,7 @@ class Array(Sequence):
             regex = re.compile(u'^(%s(?:%s|$))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
-                m = regex.match(key)
+                m = regex.match(key or u'')
                 if not m:
                     continue
                 remainder = key[m.end():] or None
@@ -835,6 +835,8 @@ class Mapping(Container, dict):
         return converted
 
     def _set_flat(self, pairs, sep):
+        # a None key (e.g. a bare List index) addresses no mapping member.
+        pairs = [(key, value) for key, value in pairs if key is not None]
         if self.name is None:
             possibles = pairs  # accept all
         else:
-- 
2.43.0


From 9082df1220aa438c1bdd6b667c5d0209b62c07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 05/59] fix: Array.set_flat adds a blank member for a key of no
 member

---
 flatland/schema/containers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 6e94e25..6107cb3 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -673,11 +673,9 @@ class Array(Sequence):
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
+                if remainder != (child_name or None):
                     continue
-                elif remainder and not child_name:
-                    continue
-                elif prune and value == u'' and remainder == child_name:
+                elif prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(remainder, value)])
                 self.append(member)
-- 
2.43.0


From 407aa3610554727c9779d81a04f2e2ab5ce68bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 06/59] fix: anonymous Array.set_flat adds blank members for
 foreign keys

---
 flatland/schema/containers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 6107cb3..9c9720d 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -655,13 +655,11 @@ class Array(Sequence):
                "Flattened Arrays are only supported for scalar child types."
 
         if not self.name:
-            child_prefix = child_name or u''
             for key, value in pairs:
-                if prune and value == u'' and key == child_prefix:
+                key = key or None
+                if key != (child_name or None):
                     continue
-                if key == u'':
-                    key = None
-                if child_name and key != child_name:
+                elif prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
-- 
2.43.0


From 674477c1c0dd687c61fcc6efd47c655fe3a211d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 07/59] fix: List.pop returns the hidden slot instead of the
 member

---
 flatland/schema/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9c9720d..9bc2095 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -515,10 +515,10 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        element = list.pop(self, index).element
         self._renumber()
-        value.parent = None
-        return value
+        element.parent = None
+        return element
 
     def insert(self, index, value):
         list.insert(self, index, self._new_slot(value))
-- 
2.43.0


From b7c9dc548569d9bfda29a00bf2c3d4039b09cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 08/59] fix: assigning an Element to a sequence index loses its
 value or parent

---
 flatland/schema/containers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9bc2095..ce03d6f 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -332,7 +332,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
@@ -494,9 +494,12 @@ class List(Sequence):
             value = [self._new_slot(item) for item in value]
             list.__setitem__(self, index, value)
             self._renumber()
+        elif isinstance(value, Element):
+            slot = list.__getitem__(self, index)
+            slot.element = value
+            value.parent = slot
         else:
-            slot = self[index]
-            slot.set(value)
+            self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
-- 
2.43.0


From 03502509f1f0d6ef58383075a399507a18161880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 09/59] fix: += on a sequence inserts raw values

---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index ce03d6f..9224492 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -308,6 +308,10 @@ class Sequence(Container, list):
         for value in iterable:
             self.append(value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From bcbe23c9953d6c8c7644cc1ab2a884bf1d0d81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 10/59] fix: List.sort passes hidden slots to the key function

---
 flatland/schema/containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9224492..135c6b5 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -537,6 +537,9 @@ class List(Sequence):
 
     def sort(self, cmp=None, key=None, reverse=False):
         assert cmp is None  # no cmp for list.sort in py3
+        if key is not None:
+            element_key = key
+            key = lambda slot: element_key(slot.element)
         list.sort(self, key=key, reverse=reverse)
         self._renumber()
 
-- 
2.43.0


From bb4615b23c5178ca8d0a839ba057756aef324c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 11/59] fix: reversed(), + and * on a List expose its hidden
 slots

---
 flatland/schema/containers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 135c6b5..ed6abfd 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -512,6 +512,17 @@ class List(Sequence):
         for i in list.__iter__(self):
             yield i.element
 
+    def __reversed__(self):
+        return iter(self[::-1])
+
+    def __add__(self, other):
+        return self[:] + other
+
+    def __mul__(self, count):
+        return self[:] * count
+
+    __rmul__ = __mul__
+
     def __delitem__(self, index):
         # Optimizing __delitem__ or pop when removing only the last item
         # doesn't seem worth it.
-- 
2.43.0


From 28c6431297499b5ef94b1c8f2f8b1e9537530c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 12/59] fix: out of range negative slice bounds wrap around on
 sequences

---
 flatland/schema/containers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index ed6abfd..8719731 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -340,7 +340,7 @@ class Sequence(Container, list):
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-        self.__setitem__(slice(i, j), value)
+        self.__setitem__(slice(max(i, 0), max(j, 0)), value)
 
     def remove(self, value):
         """Remove member with value *value*.
@@ -491,7 +491,7 @@ class List(Sequence):
         return list.__getitem__(self, index).element
 
     def __getslice__(self, i, j):
-        return self.__getitem__(slice(i, j))
+        return self.__getitem__(slice(max(i, 0), max(j, 0)))
 
     def __setitem__(self, index, value):
         if isinstance(index, slice):
@@ -506,7 +506,7 @@ class List(Sequence):
             self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
-        return self.__setitem__(slice(i, j), sequence)
+        return self.__setitem__(slice(max(i, 0), max(j, 0)), sequence)
 
     def __iter__(self):
         for i in list.__iter__(self):
@@ -530,7 +530,7 @@ class List(Sequence):
         self._renumber()
 
     def __delslice__(self, i, j):
-        return self.__delitem__(slice(i, j))
+        return self.__delitem__(slice(max(i, 0), max(j, 0)))
 
     def pop(self, index=-1):
         element = list.pop(self, index).element
-- 
2.43.0


From 90dfc5a84dc02e04cb39c21f9d5d7b1bccd2fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 13/59] fix: set_by_object drops omitted attributes that are
 renamed

---
 flatland/schema/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 8719731..f5c0fca 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1098,7 +1098,8 @@ class Dict(Mapping, dict):
                                   if value in attributes)
         if omit:
             omit = list(omit)
-            attributes.difference_update(omit)
+            renamed = set(key for key, value in rename or ())
+            attributes.difference_update(set(omit) - renamed)
 
         possible = ((attr, getattr(obj, attr))
                     for attr in attributes
-- 
2.43.0


From 6239e4779255b98f89c54e881d667a20b8e04a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 14/59] fix: set_by_object ignores fields absent from a
 SparseDict

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index f5c0fca..8d56eca 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1090,7 +1090,7 @@ class Dict(Mapping, dict):
           >>> new_user = User(**user_keywords)
 
         """
-        fields = set(six.iterkeys(self))
+        fields = set(six.iterkeys(self.field_schema_mapping))
         attributes = fields.copy()
         if rename:
             rename = list(to_pairs(rename))
-- 
2.43.0


From 75f0f47c501daa0ac09b3b7d604623b97c749d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 15/59] fix: find() fails once the path expression cache is
 full

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From 0f8c603a90e83bbcbcb921fbae4e7ba86408e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 16/59] fix: a zero stop in a path slice is read as no stop

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..68d5cef 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -184,7 +184,7 @@ def _parse_slice(pattern):
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-- 
2.43.0


From 907b29c02f866e4ca1b401930051a749bfbff831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 17/59] fix: '..' stays on a child whose parent is false and
 stops at hidden list slots

---
 flatland/schema/paths.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 68d5cef..6cc3e67 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -55,6 +55,7 @@ class PathExpression(object):
         self.ops = tokenize(expr)
 
     def __call__(self, element, strict=False):
+        from .base import Slot
         found = []
         contexts = [(self.ops, element)]
 
@@ -64,8 +65,10 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
+                    if el.parent is not None:
                         el = el.parent
+                        if isinstance(el, Slot):
+                            el = el.parent
                 elif op is HERE:
                     pass
                 elif op is NAME:
-- 
2.43.0


From 703f0171828ac785d65ba3fd80b24f3d84429c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:56 +0000
Subject: [PATCH 18/59] fix: malformed slices in a path raise ValueError

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 6cc3e67..bbeb2f1 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -21,7 +21,7 @@ _tokenize_re = re.compile(r"""
     | # /
       (?<!\\)/
     | # [1:2:3]
-      (?<!\\)\[(-?\d*:?-?\d*\:?-?\d*)(?<!\\)\](?=$|/|\[)
+      (?<!\\)\[(-?\d+|(?:-?\d+)?:(?:-?\d+)?(?::(?:-?\d+)?)?)\](?=$|/|\[)
     | # [bogus]
       (?<!\\)\[[^\]]*(?<!\\)\](?=$|/|\[)
     | # . or .. at start
-- 
2.43.0


From d7c5079df689532efa4be1efb8a88205f231e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 19/59] fix: looking up a child of a scalar raises
 NotImplementedError

---
 flatland/schema/scalars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 74494bc..ef56f04 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -126,6 +126,10 @@ class Scalar(Element):
                 self.set(value)
                 break
 
+    def _index(self, name):
+        # scalars have no children
+        raise LookupError(name)
+
     def set_default(self):
         default = self.default_value
         if default is not Unspecified:
-- 
2.43.0


From 041bb56beb69b47584959445f8251970aae9baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 20/59] fix: fq_name of array members uses their index

---
 flatland/schema/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index d4608df..d4ee99d 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -475,6 +475,13 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
+            elif isinstance(element.parent, list):
+                # members of slotless sequences are indexed by position
+                for idx, sibling in enumerate(element.parent):
+                    if sibling is element:
+                        parts.append(six.text_type(idx))
+                        break
+                continue
             parts.append(element.name)
         return sep + sep.join(parts)
 
-- 
2.43.0


From 961dd9f0e3dac236857add4fdf1182a24f4f2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 21/59] fix: member counts of MultiValue and JoinedString are
 not the size of their value

---
 flatland/validation/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..59ea22e 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -152,7 +152,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if len(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +201,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if len(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,7 +279,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
+        length = len(element)
         if self.minimum <= length <= self.maximum:
             return True
 
-- 
2.43.0


From f0bb65f5168a240c03131aab4f0b8a2523ddeac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 22/59] fix: MapEqual without a transform compares the elements

---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From 5f5727615d08d84c5b5f00690db8e00759f82999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 23/59] fix: MapEqual reports a mismatch of anonymous elements

---
 flatland/validation/scalars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index a85162b..20bfa9f 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -1,6 +1,7 @@
 from operator import attrgetter
 
 from flatland.util import Unspecified
+import six
 from .base import N_, Validator
 
 
@@ -567,7 +568,7 @@ class MapEqual(Validator):
         sample = fn(elements[0])
         if all(fn(el) == sample for el in elements[1:]):
             return True
-        labels = ', '.join(el.label for el in elements[:-1])
+        labels = ', '.join(six.text_type(el.label) for el in elements[:-1])
         last_label = elements[-1].label
         return self.note_error(element, state, 'unequal',
                                labels=labels, last_label=last_label)
-- 
2.43.0


From dc7d055ccf7b8e78b6de237ea7b515fd6bc0daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 24/59] fix: a string or list as validation state breaks error
 messages

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From 53c170c304f1d86dcd9c5ee50c02fdf5914f68c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 25/59] fix: pluralizing a message by a non-numeric value
 raises ValueError

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 32b5b59..5e12dac 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -243,7 +243,7 @@ class Validator(object):
                 n = format_map[n_key]
                 try:
                     n = int(n)
-                except TypeError:
+                except (TypeError, ValueError):
                     pass
             except KeyError:
                 n = n_key
-- 
2.43.0


From 33024a708ee4e0998b82ccf89e33f303d8e5c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 26/59] fix: the Luhn checksum of a negative number never ends

---
 flatland/util/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..6cc71a4 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -221,6 +221,8 @@ def re_uescape(pattern):
 def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
+    if number < 0:
+        return False
     sum = 0
     while number:
         r = number % 100
-- 
2.43.0


From 357cb1ba7c3c6781660fa3a634da1f3a17a079d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 27/59] fix: rejecting a card of an unaccepted type raises
 TypeError

---
 flatland/ext/creditcard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 485665d..f8cab8d 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -58,7 +58,7 @@ class CreditCardNumber(Long):
         def _formatter(element, state):
             accepted = element.accepted
             if len(accepted) > 2:
-                types = (', '.join(label for label, in accepted) +
+                types = (', '.join(label for label, in accepted[:-1]) +
                        ', and ' + accepted[-1][0])
             elif len(accepted) == 2:
                 types = ' and '.join(label for label, in accepted)
@@ -67,7 +67,7 @@ class CreditCardNumber(Long):
 
             return u'We accept %s' % types
 
-        not_accepted = _formatter
+        not_accepted = staticmethod(_formatter)
 
         def validate(self, element, state):
             type_ = _card_type(element.value)
-- 
2.43.0


From 13d8b8876375c1d1ad75226b54f5d8b9a68d065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 28/59] fix: a card number without digits raises ValueError

---
 flatland/ext/creditcard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index f8cab8d..04239a2 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -111,7 +111,8 @@ def _from_string(number):
     if not _re_filler.match(number):
         return None
 
-    return int(_re_strip.sub(u'', six.text_type(number)))
+    digits = _re_strip.sub(u'', six.text_type(number))
+    return int(digits) if digits else None
 
 def _pretty_print(number):
     if number is None:
-- 
2.43.0


From cf6fefc12115684e2af85e4724bcdfe081cf0916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 29/59] fix: 13 digit Visa numbers are never accepted

---
 flatland/ext/creditcard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 04239a2..6434cdd 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -76,7 +76,7 @@ class CreditCardNumber(Long):
 
             return self.note_error(element, state, 'not_accepted')
 
-_re_visa = re.compile(r'^4\d{12}\d{3}?$')
+_re_visa = re.compile(r'^4\d{12}(\d{3})?$')
 _re_mc   = re.compile(r'^5[1-5]\d{14}$')
 _re_amex = re.compile(r'^3[47]\d{13}$')
 _re_disc = re.compile(r'^6011\d{12}$')
@@ -98,7 +98,7 @@ def _card_type(number):
         return None
 
 _re_strip = re.compile(r'[^0-9]')
-_re_filler = re.compile(r'^[0-9\s-]{15,}$')
+_re_filler = re.compile(r'^[0-9\s-]{13,}$')
 
 def _from_string(number):
     if number is None:
-- 
2.43.0


From 7b43668413332f83e0ff6774f3c150ed1803eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 30/59] fix: a phone number with an extension raises TypeError

---
 flatland/validation/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..b77bdcf 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,8 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]), int(value[3:6]),
+                                    int(value[6:10]), int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From 605cfb1931668e0b23bb0a0f48e66ff76b91a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 31/59] fix: NANPnpa_nxx cannot be customized and always raises
 AttributeError

---
 flatland/validation/number.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/number.py b/flatland/validation/number.py
index dc6081b..34b74c0 100644
--- a/flatland/validation/number.py
+++ b/flatland/validation/number.py
@@ -36,10 +36,11 @@ class NANPnpa_nxx(Validator):
         assert isinstance(nxx_element, six.string_types)
         assert isinstance(errors_to, (six.string_types, type(None)))
 
-        Validator.__init__(self, *kw)
+        Validator.__init__(self, **kw)
 
         self.npa = npa_element
         self.nxx = nxx_element
+        self.errors_to = errors_to
         self.lookup = lookup
         self.method = method
 
@@ -48,7 +49,7 @@ class NANPnpa_nxx(Validator):
         nxx = element.find(self.nxx, single=True).value
 
         if self.errors_to:
-            err = element.find(self.errors_to)
+            err = element.find(self.errors_to, single=True)
         else:
             err = element
 
-- 
2.43.0


From 23aecf3e923b3e856fa919ee4b5d45f5c3b7dc62 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 32/59] fix: an email address ending in a newline is accepted

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..3302f1d 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From 67a11c9aa98ef6f6fdd3a0d50e39c89e58ba9797 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 33/59] fix: HTTPURLValidator does not require http or https by
 default

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 3302f1d..7942ce2 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
-- 
2.43.0


From 5472688f4a5ccdbcb10dca3401fe501b8ea9a85c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 34/59] fix: HTTPURLValidator raises ValueError on an
 unparseable URL

---
 flatland/validation/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 7942ce2..95e7a17 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except ValueError:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
-- 
2.43.0


From c03ba45acedaad06bd6eb3fb5b894d808855d7c8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 35/59] fix: a required URL part may be empty

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 95e7a17..f7cc6d8 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -272,7 +272,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if not value:
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From c11c11e339e0a6eaa87024d2ccfc2b003b788031 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:25:30 +0000
Subject: [PATCH 36/59] fix: setdefault on class properties ignores inherited
 and deleted keys

---
 flatland/schema/properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..85c7b02 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,11 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From 847c1964f33228227ad52814ccddd811d97e239c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:25:30 +0000
Subject: [PATCH 37/59] fix: pop on element properties deletes from the class

---
 flatland/schema/properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 85c7b02..e1a5091 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -205,9 +205,13 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise KeyError(key)
+            return default[0]
+        self.local[key] = Deleted
+        return current
 
     def setdefault(self, key, default):
         try:
-- 
2.43.0


From d35ace667ddd8799542de6b0e9116c1df91300c9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:25:30 +0000
Subject: [PATCH 38/59] fix: setdefault on element properties returns a
 deletion marker

---
 flatland/schema/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index e1a5091..23932f4 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -217,7 +217,8 @@ class _InstanceLookup(DictLike):
         try:
             return self[key]
         except KeyError:
-            return self.local.setdefault(key, default)
+            self.local[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From c9f85e04805b8ea438a5f01933dd35506b9bb3ed Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:31:38 +0000
Subject: [PATCH 39/59] fix: Generator.tag('input') differs from
 Generator.input

---
 flatland/out/markup.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2a18721..3445af5 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -6,6 +6,8 @@ import six
 
 
 _default_settings = {u'ordered_attributes': True}
+_empty_in_html = (u'input',)
+_always_paired = (u'form', u'textarea', u'select', u'option')
 _static_attribute_order = [u'type', u'name', u'value']
 
 
@@ -197,10 +199,12 @@ class Generator(Context):
         if isinstance(tagname, str):  # pragma: nocover
             tagname = six.text_type(tagname)
         tagname = tagname.lower()
+        tag = self._tag(tagname, tagname in _empty_in_html,
+                        tagname in _always_paired)
         if bind is None and not attributes:
-            return self._tag(tagname)
+            return tag
         else:
-            return self._tag(tagname)(bind, **attributes)
+            return tag(bind, **attributes)
 
     def _tag(self, tagname, empty_in_html=False, always_paired=False):
         if self._tags[tagname]:
-- 
2.43.0


From 7209d4a258707467b2809a93b13103ed579c3c40 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 40/59] fix: radio buttons and check boxes without a value can
 be checked

---
 flatland/out/generic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 422e6f8..cc256aa 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -130,12 +130,12 @@ def transform_value(tagname, attributes, contents, context, bind):
     if tagname == u'input':
         subtype = attributes.get(u'type', u'')
         if subtype in (u'radio', u'checkbox'):
-            if subtype == u'checkbox':
-                current = attributes.get(u'value')
-                if current is None and isinstance(bind, Boolean):
-                    attributes[u'value'] = current = bind.true
-            else:
-                current = attributes.get(u'value', u'')
+            current = attributes.get(u'value')
+            if (current is None and subtype == u'checkbox' and
+                isinstance(bind, Boolean)):
+                attributes[u'value'] = current = bind.true
+            if current is None:
+                return contents
 
             if isinstance(bind, Array):
                 toggle = current in bind
-- 
2.43.0


From dfa25a728f4f6046900dfb161701cd76e9387807 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 41/59] fix: boxes and options bound to an array are not
 compared with its texts

---
 flatland/out/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index cc256aa..d716ea5 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -138,7 +138,7 @@ def transform_value(tagname, attributes, contents, context, bind):
                 return contents
 
             if isinstance(bind, Array):
-                toggle = current in bind
+                toggle = any(current == child.u for child in bind)
             else:
                 toggle = current == bind.u
             if toggle:
@@ -163,7 +163,7 @@ def transform_value(tagname, attributes, contents, context, bind):
         else:
             value = contents
         if isinstance(bind, Array):
-            toggle = value in bind
+            toggle = any(value == child.u for child in bind)
         else:
             toggle = bind.u == value
         if toggle:
-- 
2.43.0


From ca5f1bf4ba0ba3f19c6671de960c51ded8bac14e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 42/59] fix: Generator.set with an unknown setting changes
 other settings

---
 flatland/out/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 3445af5..26f82f0 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -69,10 +69,11 @@ class Generator(Context):
 
         """
 
-        for key, value in settings.items():
+        for key in settings:
             if key not in self:
                 raise TypeError(
                     "%r is not a valid argument." % key)
+        for key, value in settings.items():
             if key.startswith('auto_'):
                 value = parse_trool(value)
             self[key] = value
-- 
2.43.0


From adb2319fae2d99c57d444b16c8e545f2c60528c1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 43/59] fix: setting a DateYYYYMMDD to None keeps the old date
 and junk is reported as adapted

---
 flatland/schema/compound.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..9319202 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -233,15 +233,16 @@ class DateYYYYMMDD(Compound, Date):
             return u'', None
 
     def explode(self, value):
+        adapted = True
         try:
             value = Date.adapt(self, value)
-
-            for attrib, child_schema in zip(self.used, self.field_schema):
-                self[child_schema.name].set(
-                    getattr(value, attrib))
         except (AdaptationError, TypeError):
-            for child_schema in self.field_schema:
-                self[child_schema.name].set(None)
+            value, adapted = None, False
+
+        for attrib, child_schema in zip(self.used, self.field_schema):
+            part = None if value is None else getattr(value, attrib)
+            adapted &= self[child_schema.name].set(part)
+        return adapted
 
 
 class JoinedString(Array, String):
-- 
2.43.0


From 7160df1b84d21aee8c72269e4dc80f6904469c0c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 44/59] fix: parts of an optional DateYYYYMMDD are required if
 its base class was used before

---
 flatland/schema/compound.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 9319202..11ce4a9 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -195,13 +195,23 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
 
 class DateYYYYMMDD(Compound, Date):
 
+    # the fields supplied by __compound_init__
+    _supplied_fields = ()
+
     @classmethod
     def __compound_init__(cls):
-        assert len(cls.field_schema) < 4
-        if len(cls.field_schema) == 3:
+        fields = list(cls.field_schema)
+        if 'field_schema' not in cls.__dict__:
+            # do not inherit fields that were supplied for a base class: they
+            # are configured like the base class.
+            fields = [field for field in fields
+                      if field not in cls._supplied_fields]
+
+        assert len(fields) < 4
+        if len(fields) == 3:
             return
 
-        fields = list(cls.field_schema)
+        declared = len(fields)
         optional = cls.optional
 
         if len(fields) == 0:
@@ -215,6 +225,7 @@ class DateYYYYMMDD(Compound, Date):
                                                       optional=optional))
 
         cls.field_schema = fields
+        cls._supplied_fields = tuple(fields[declared:])
 
     #if any(not field.name for field in fields):
     #    raise TypeError("Child fields of %s %r must be named." %
-- 
2.43.0


From f37a11bfff0ea00e9ff27c417a0ff6c5f42a9841 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 45/59] fix: setting a JoinedString to None or a number raises
 TypeError

---
 flatland/schema/compound.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 11ce4a9..0153e39 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -309,7 +309,11 @@ class JoinedString(Array, String):
         if isinstance(value, (list, tuple)):
             values = value
         elif not isinstance(value, six.string_types):
-            values = list(value)
+            try:
+                values = list(value)
+            except TypeError:
+                del self[:]
+                return False
         elif self.separator_regex:
             # a basestring, regexp separator
             values = self.separator_regex.split(value)
-- 
2.43.0


From 4c64bdc97eb929565b49b991e5fcbccbe1213512 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 46/59] fix: JoinedString drops zeros

---
 flatland/schema/compound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 0153e39..7f5bb25 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -325,7 +325,7 @@ class JoinedString(Array, String):
         prune = self.prune_empty
         success = []
         for value in values:
-            if prune and not value:
+            if prune and (value is None or value == u''):
                 continue
             child = self.member_schema()
             success.append(child.set(value))
-- 
2.43.0


From 1864a182863e3491fbe0c6fe98f9703286b805ff Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 47/59] fix: the raw input of compound elements is not kept

---
 flatland/schema/compound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 7f5bb25..4fd117c 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -165,6 +165,7 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
     del set_value
 
     def set(self, value):
+        self.raw = value
         try:
             # TODO: historically explode() did not need to have a return value
             # but it would be nice to return it form set() as below.
@@ -306,6 +307,7 @@ class JoinedString(Array, String):
     children_flattenable = False
 
     def set(self, value):
+        self.raw = value
         if isinstance(value, (list, tuple)):
             values = value
         elif not isinstance(value, six.string_types):
-- 
2.43.0


From 3386a523b2d8e7bd696552a8e741000d2da82349 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:02:43 +0000
Subject: [PATCH 48/59] fix: the default of a JoinedString is not split

---
 flatland/schema/compound.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 4fd117c..ff03b6d 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -337,6 +337,11 @@ class JoinedString(Array, String):
     def _set_flat(self, pairs, sep):
         return Scalar._set_flat(self, pairs, sep)
 
+    def set_default(self):
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     @property
     def value(self):
         """A read-only :attr:`separator`-joined string of child values."""
-- 
2.43.0


From b2eb37917b6aaf6f842b67bc4160dec9df04aae9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:04:39 +0000
Subject: [PATCH 49/59] fix: the defaults of a mapping are erased or refused by
 its references

---
 flatland/schema/scalars.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index ef56f04..bc12a03 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -584,6 +584,11 @@ class Ref(Scalar):
     def serialize(self, value):
         return self.target.serialize(value)
 
+    def set_default(self):
+        # without a default of its own, the target's stands.
+        if self.default_value is not None:
+            Scalar.set_default(self)
+
     #######################################################################
 
     @lazy_property
-- 
2.43.0


From ec8e9f1683ef8763ae0a6a9f1ec719695c1007ab Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:05:11 +0000
Subject: [PATCH 50/59] fix: a Ref keeps showing an element that was removed
 from the tree

---
 flatland/schema/scalars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index bc12a03..4d8d6be 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -10,7 +10,6 @@ from flatland.util import (
     as_mapping,
     autodocument_from_superclasses,
     class_cloner,
-    lazy_property,
     )
 from .base import Element
 import six
@@ -591,8 +590,9 @@ class Ref(Scalar):
 
     #######################################################################
 
-    @lazy_property
+    @property
     def target(self):
+        # not cached: the element at the path may be replaced
         return self.root.el(self.target_path)
 
     def _get_u(self):
-- 
2.43.0


From c08778da24d4a03f3f41505689e58cca950f83dc Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 51/59] fix: a form inherits a field that another of its bases
 overrides

---
 flatland/schema/forms.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/forms.py b/flatland/schema/forms.py
index b608530..0b6a7e4 100644
--- a/flatland/schema/forms.py
+++ b/flatland/schema/forms.py
@@ -28,12 +28,7 @@ class _MetaForm(type):
     def __new__(self, class_name, bases, members):
         fields = _ElementCollection()
 
-        # collect existing fields from super classes in __mro__ order
-        for base in bases:
-            fields.add_unseen(getattr(base, 'field_schema', ()))
-
-        # add / replace fields supplied in a field_schema on this class
-        fields.add_and_overwrite(members.get('field_schema', ()))
+        cls_field_schema = members.pop('field_schema', ())
 
         # add / replace fields declared as attributes on this class
         declared_fields = []
@@ -44,11 +39,29 @@ class _MetaForm(type):
                     value = value.named(name)
                 declared_fields.append(value)
                 del members[name]
+
+        cls = type.__new__(self, class_name, bases, members)
+
+        # collect existing fields from super classes in __mro__ order
+        inherited = set(field.name for field in _fields_of(bases))
+        for base in cls.__mro__[1:]:
+            known = _fields_of(base.__bases__)
+            fields.add_unseen(field for field in _fields_of([base])
+                              if field.name in inherited
+                              and field not in known)
+
+        # add / replace fields supplied in a field_schema on this class
+        fields.add_and_overwrite(cls_field_schema)
         fields.add_and_overwrite(declared_fields)
 
         # the new type's field_schema is the final result of all this
-        members['field_schema'] = fields.elements
-        return type.__new__(self, class_name, bases, members)
+        cls.field_schema = fields.elements
+        return cls
+
+
+def _fields_of(classes):
+    return [field for cls in classes
+            for field in getattr(cls, 'field_schema', ())]
 
 
 class _ElementCollection(object):
-- 
2.43.0


From 1896a868c9e735b5525d42ccb0cb60bbb1590fc4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 52/59] fix: Genshi contents that evaluate to None become the
 text "None"

---
 flatland/out/genshi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..0257de5 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -375,6 +375,9 @@ def _simplify_stream(stream, ctxt, vars):
                     stream[idx:idx + 1] = value
                 else:
                     stream[idx] = (TEXT, value, pos)
+            elif value is None:
+                # Genshi renders nothing for None
+                value = u''
             elif not isinstance(value, six.text_type):
                 value = six.text_type(value)
             parts.append(value)
-- 
2.43.0


From 81f452d56c0ee4b3621244bd800d4fed8a49874c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 53/59] fix: an option with a control attribute in a bound
 select crashes in Genshi

---
 flatland/out/genshi.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 0257de5..e344599 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -332,7 +332,18 @@ def _bind_unbound_tags(stream, qname, bind):
                 if isinstance(d, Binding):
                     break
             else:
-                substream = list(_bind_unbound_tags(substream, qname, bind))
+                head = substream[0]
+                if (head[0] is START and head[1][0] == qname and
+                    any(isinstance(d, ControlAttribute) for d in directives)):
+                    # the controls and the binding apply to the tag together
+                    directives = [Binding(u'', bind=bind)] + list(directives)
+                    substream = ([head] +
+                                 list(_bind_unbound_tags(substream[1:-1],
+                                                         qname, bind)) +
+                                 [substream[-1]])
+                else:
+                    substream = list(
+                        _bind_unbound_tags(substream, qname, bind))
             yield kind, (directives, substream), pos
         elif kind is START:
             if data[0] != qname or qname in data[1]:
-- 
2.43.0


From 38e7a0bf9b8376bc841c7e59f028044c51224b23 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 54/59] fix: filters given to form:set are not evaluated

---
 flatland/out/genshi.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index e344599..7e52f9c 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -202,6 +202,16 @@ class RenderContextManipulator(TagOnly):
                          lineno, offset)
 
 
+    def evaluated(self, ctxt, vars):
+        """The attributes, with filters evaluated."""
+        if 'filters' not in self.attributes:
+            return self.attributes
+        attrs = self.attributes.copy()
+        attrs['filters'] = _eval_expr(Expression(attrs['filters']),
+                                      ctxt, vars)
+        return attrs
+
+
 class With(RenderContextManipulator):
     _name = 'with'
     __slots__ = ()
@@ -212,13 +222,7 @@ class With(RenderContextManipulator):
         except KeyError:
             ctxt['flatland_render_context'] = render_context = Context()
 
-        if 'filters' not in self.attributes:
-            attrs = self.attributes
-        else:
-            attrs = self.attributes.copy()
-            attrs['filters'] = _eval_expr(Expression(attrs['filters']),
-                                          ctxt, vars)
-
+        attrs = self.evaluated(ctxt, vars)
         render_context.push()
         render_context.update(attrs)
         assert not directives
@@ -236,7 +240,7 @@ class Set(RenderContextManipulator):
             render_context = ctxt['flatland_render_context']
         except KeyError:
             ctxt['flatland_render_context'] = render_context = Context()
-        render_context.update(self.attributes)
+        render_context.update(self.evaluated(ctxt, vars))
         assert not directives
         return stream
 
-- 
2.43.0


From 78fe4064ca354b0e0c240953e1ffaa8f4c09ae8e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 55/59] fix: settings made in a scope of a Genshi template are
 forgotten with it

---
 flatland/out/genshi.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 7e52f9c..d1a2b87 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -217,10 +217,7 @@ class With(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _render_context(ctxt)
 
         attrs = self.evaluated(ctxt, vars)
         render_context.push()
@@ -236,10 +233,7 @@ class Set(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _render_context(ctxt)
         render_context.update(self.evaluated(ctxt, vars))
         assert not directives
         return stream
@@ -262,6 +256,16 @@ class FlatlandElements(DirectiveFactory):
     ]
 
 
+def _render_context(ctxt):
+    try:
+        return ctxt['flatland_render_context']
+    except KeyError:
+        # stored in the outermost frame, to outlive the current scope.
+        render_context = Context()
+        ctxt.frames[-1]['flatland_render_context'] = render_context
+        return render_context
+
+
 def _rewrite_stream(stream, directives, ctxt, vars, bind):
     stream = list(stream)
     mutable_attrs = {}
@@ -284,10 +288,7 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
 
-    try:
-        render_context = ctxt['flatland_render_context']
-    except KeyError:
-        ctxt['flatland_render_context'] = render_context = Context()
+    render_context = _render_context(ctxt)
 
     new_contents = transform(tagname.localname, mutable_attrs, contents,
                              render_context, bind)
-- 
2.43.0


From 8edfefa2e565352168b5b3b5d3004cb9175eda47 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 56/59] fix: mappings with the same fields are unequal if they
 were set in another order

---
 flatland/schema/containers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 8d56eca..d791e55 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -899,11 +899,13 @@ class Mapping(Container, dict):
     @property
     def u(self):
         """A string repr of the element."""
-        pairs = ((key, value.u if isinstance(value, Container)
-                               else decode_repr(value.u))
-                  for key, value in six.iteritems(self))
+        # sorted: equal mappings have the same text, whatever was set first
+        pairs = sorted((decode_repr(key),
+                        value.u if isinstance(value, Container)
+                                else decode_repr(value.u))
+                       for key, value in six.iteritems(self))
         return u'{%s}' % u', '.join(
-            u"%s: %s" % (decode_repr(k), v)
+            u"%s: %s" % (k, v)
             for k, v in pairs)
 
     @property
-- 
2.43.0


From 484d7fde56d8400aeafd6ae8c99d44982d98a1b6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:13:34 +0000
Subject: [PATCH 57/59] fix: setting a String to bytes that are not ASCII text
 raises UnicodeDecodeError

---
 flatland/schema/scalars.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 4d8d6be..8525423 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -183,10 +183,11 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
-        else:
-            return six.text_type(value)
+        try:
+            value = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        return value.strip() if self.strip else value
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From b1093ab92f9be2e37b63947fa6b0015a0307fb45 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 05:37:15 +0000
Subject: [PATCH 58/59] fix: URLCanonicalizer rewrites the text of the element,
 not only its value

---
 flatland/validation/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index f7cc6d8..02ad31d 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -337,5 +337,6 @@ class URLCanonicalizer(Validator):
             current = url[idx]
             url[idx] = '' if current is not None else None
 
-        element.value = self.urlparse.urlunparse(url)
+        # the text of the element, too
+        element.set(self.urlparse.urlunparse(url))
         return True
-- 
2.43.0


From 793943b48ee8b370349490eb9b1b627020e2ae05 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 07:10:40 +0000
Subject: [PATCH 59/59] fix: the default factory of a Ref is called once

---
 flatland/schema/scalars.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 8525423..1e02f25 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -586,8 +586,9 @@ class Ref(Scalar):
 
     def set_default(self):
         # without a default of its own, the target's stands.
-        if self.default_value is not None:
-            Scalar.set_default(self)
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
 
     #######################################################################
 
-- 
2.43.0

