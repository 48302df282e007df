From 52d1fb0738ad03afa489e4f09e7fdc94d6730874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:07 +0000
Subject: [PATCH 01/71] fix: restore the type of a corpus when loading XML or
 JSON

---
 xigt/codecs/xigtjson.py | 1 +
 xigt/codecs/xigtxml.py  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..8344ea9 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -61,6 +61,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..4f4b6d0 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
-- 
2.43.0


From 6bc570d0ebee890a0355e5f127718545edd518ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 02/71] fix: keep id and type attributes of MetaChild elements
 when loading XML

---
 xigt/codecs/xigtxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4f4b6d0..28e18d1 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -341,7 +341,8 @@ def default_decode_metachild(elem):
     text = elem.text or ''
     mc = MetaChild(
         tag,
-        attributes=get_attributes(elem, ignore=('id', 'type')),
+        # MetaChild has no id and type arguments, so keep any as attributes
+        attributes=get_attributes(elem),
         text=text if text.strip() else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
-- 
2.43.0


From 4329adee64d09773d9400b92b98f10ce7c931255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 03/71] fix: write default namespaces of MetaChild elements as
 valid XML

---
 xigt/codecs/xigtxml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 28e18d1..e034be1 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -359,7 +359,9 @@ def default_decode_metachild(elem):
 # thanks: http://effbot.org/zone/element-namespaces.htm
 def _build_elem(tag, obj, nscontext):
     ns = getattr(obj, 'namespace', None)
-    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
+    # a default namespace (with an empty prefix) needs no prefix on the tag
+    # and does not apply to attributes
+    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items() if k)
     if revmap.get(ns) is not None:
         tag = '{}:{}'.format(revmap[ns], tag)
     e = Element(tag)
@@ -367,7 +369,8 @@ def _build_elem(tag, obj, nscontext):
     if hasattr(obj, 'nsmap'):
         for pre, uri in obj.nsmap.items():
             if nscontext.get(pre) != uri:
-                e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
+                xmlns = 'xmlns:%s' % pre if pre else 'xmlns'
+                e.set(_QName(xmlns, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
     if getattr(obj, 'type') is not None:
-- 
2.43.0


From 138983ad27fcb6ce3dc1e4d5fd72b03a6b21de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 04/71] fix: load MetaChild elements whose names are also Xigt
 element names

---
 xigt/codecs/xigtxml.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index e034be1..cb82ada 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -201,9 +201,13 @@ def ns_iterparse(fh, events=('start', 'end')):
 def iter_elements(tag, events, root, break_on=None):
     if break_on is None:
         break_on = []
+    # the first element was already started; elements with the same tag
+    # further down (e.g., inside of a <meta>) are not considered
+    depth = 1
     event, elem = next(events)
-    while (event, elem.tag) not in break_on:
-        if event == 'end' and elem.tag == tag:
+    while depth > 0 or (event, elem.tag) not in break_on:
+        depth += 1 if event == 'start' else -1
+        if depth == 0 and event == 'end' and elem.tag == tag:
             yield elem
             root.clear()  # free memory after we're done with an element
         event, elem = next(events)
@@ -213,7 +217,10 @@ def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
-    while (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]:
+    depth = 0  # only look at children of the root (not inside of <meta>)
+    while (depth != 1 or (event, elem.tag) not in [('start', 'igt'),
+                                                   ('end', 'xigt-corpus')]):
+        depth += 1 if event == 'start' else -1
         event, elem = next(events)
     igts = None
     if event == 'start' and elem.tag == 'igt':
-- 
2.43.0


From 96a5c99debcd9fa9be33e8ac7dd7d7f1b434620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:10 +0000
Subject: [PATCH 05/71] fix: keep empty item texts and types when writing JSON

---
 xigt/codecs/xigtjson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 8344ea9..35c0c29 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -190,7 +190,7 @@ def _make_obj(x, nscontext=None):
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
-    if x.type: obj['type'] = x.type
+    if x.type is not None: obj['type'] = x.type
     # might need to re-add prefixes to namespaced attribute keys
     if x.attributes:
         attrs = {}
@@ -254,6 +254,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From ae203786278ed51512104c92d304bb7193b8e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 06/71] fix: expand the prefixes of namespaced attributes when
 loading JSON

---
 xigt/codecs/xigtjson.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 35c0c29..87a8da0 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,7 +62,7 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
@@ -77,7 +77,7 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
@@ -93,7 +93,7 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
@@ -109,7 +109,7 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
         nsmap=obj.get('namespaces')
@@ -122,7 +122,7 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
@@ -139,7 +139,7 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -161,7 +161,7 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -171,6 +171,18 @@ def decode_metachild(obj, nsmap=None):
     return mc
 
 
+def decode_attributes(obj, nsmap):
+    # expand the prefixes of namespaced attribute keys (see _make_obj())
+    attrs = {}
+    for k, v in obj.get('attributes', {}).items():
+        if not k.startswith('{'):
+            prefix, name = ns_split(k)
+            if prefix in nsmap:
+                k = '{%s}%s' % (nsmap[prefix], name)
+        attrs[k] = v
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
-- 
2.43.0


From 1fc510a1d70c221131e66c023d7fb0ccccc3bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 07/71] fix: keep outer namespaces in scope for JSON objects
 declaring more

---
 xigt/codecs/xigtjson.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 87a8da0..5bd925f 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -69,7 +69,7 @@ def decode(obj, mode='full', nsmap=None):
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -83,7 +83,7 @@ def decode_igt(obj, nsmap=None):
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return igt
 
@@ -99,7 +99,7 @@ def decode_tier(obj, nsmap=None):
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return tier
 
@@ -112,7 +112,7 @@ def decode_item(obj, nsmap=None):
         attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return item
 
@@ -126,7 +126,7 @@ def decode_metadata(obj, nsmap=None):
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return metadata
 
@@ -144,7 +144,7 @@ def decode_meta(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return meta
 
@@ -166,7 +166,7 @@ def decode_metachild(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return mc
 
-- 
2.43.0


From 181a54d39d584e80298e67dd435205a09630129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:13 +0000
Subject: [PATCH 08/71] fix: restore the id and type of MetaChild objects when
 loading JSON

---
 xigt/codecs/xigtjson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 5bd925f..7689b69 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -168,6 +168,8 @@ def decode_metachild(obj, nsmap=None):
         namespace=namespace,
         nsmap=nsmap if 'namespaces' in obj else None
     )
+    mc.id = obj.get('id')
+    mc.type = obj.get('type')
     return mc
 
 
-- 
2.43.0


From 6817607b2af558ff27823cf3cc78468a53138355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 09/71] fix: start from the first igt when iterating an
 incremental corpus again

---
 xigt/model.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..f8a5bee 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -78,7 +78,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if mode == FULL:
             self.extend(igts or [])
         else:
-            self._generator = igts
+            self._generator = iter(igts or [])
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -96,13 +96,24 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if self.mode == FULL:
             for igt in XigtContainerMixin.__iter__(self):
                 yield igt
+        elif self.mode == INCREMENTAL:
+            # igts loaded by earlier (e.g. interrupted) iterations come first
+            i = 0
+            while True:
+                if i < len(self):
+                    igt = self[i]
+                else:
+                    igt = next(self._generator, None)
+                    if igt is None:
+                        break
+                    self.append(igt)
+                yield igt
+                i += 1
+            self.mode = FULL
         else:
             for igt in self._generator:
-                if self.mode == INCREMENTAL:
-                    self.add(igt)
-                else:
-                    # don't add, but set the parent
-                    igt._parent = self
+                # don't add, but set the parent
+                igt._parent = self
                 yield igt
             self.mode = FULL
 
-- 
2.43.0


From 568043e191f746db860c75bf9bc1c030311dcba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 10/71] fix: make != the negation of == for containers

---
 xigt/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..d947f2e 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -47,6 +47,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # otherwise list.__ne__ is used, which only compares the children
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
-- 
2.43.0


From ee69831872214d28f85a6af5c7d91f1a084cda36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 11/71] fix: leave objects unchanged when a container rejects
 them

---
 xigt/mixins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index d947f2e..45f29a7 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -1,4 +1,5 @@
 
+from operator import index
 import warnings
 
 from xigt.consts import (
@@ -106,14 +107,15 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.append(self, obj)
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
+        i = index(i)  # fail on a bad position before changing anything
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.insert(self, i, obj)
 
     def extend(self, objs):
-- 
2.43.0


From 454da05df042e679b23104804e6caa05a7a57341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 12/71] fix: set the parent and keep the index when replacing
 an object

---
 xigt/mixins.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 45f29a7..67cca4f 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -73,9 +73,13 @@ class XigtContainerMixin(list):
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
-        if cur_obj.id is not None:
-            del self._dict[cur_obj.id]
-        self._create_id_mapping(obj)
+        if obj.id is None or obj.id != cur_obj.id:
+            self._create_id_mapping(obj)  # fails if the id is taken
+            if cur_obj.id is not None:
+                del self._dict[cur_obj.id]
+        else:
+            self._dict[obj.id] = obj
+        obj._parent = self._container
         list.__setitem__(self, idx, obj)
 
     def __delitem__(self, obj_id):
-- 
2.43.0


From 85f28f25eccc9d5a6df5a06c755f98b82c31c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 13/71] fix: keep contents and index in agreement when removing
 objects

---
 xigt/mixins.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 67cca4f..8fb5618 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -85,7 +85,13 @@ class XigtContainerMixin(list):
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
         obj = self[obj_id]
-        self.remove(obj)
+        if isinstance(obj_id, slice):
+            for idx in sorted(range(len(self))[obj_id], reverse=True):
+                self.pop(idx)
+        elif obj_id in self._dict:
+            self.remove(obj)
+        else:
+            self.pop(int(obj_id))
 
     def get(self, obj_id, default=None):
         try:
@@ -128,9 +134,19 @@ class XigtContainerMixin(list):
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
-        if obj.id is not None:
+        # prefer the object itself over others with the same content
+        for idx, cur_obj in enumerate(list.__iter__(self)):
+            if cur_obj is obj:
+                break
+        else:
+            idx = list.index(self, obj)
+        self.pop(idx)
+
+    def pop(self, idx=-1):
+        obj = list.pop(self, idx)
+        if self._dict.get(obj.id) is obj:
             del self._dict[obj.id]
-        list.remove(self, obj)
+        return obj
 
     def clear(self):
         self._dict.clear()
-- 
2.43.0


From 1f4c47de86aa992d07dd1f7898ac4f2e58c7e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 14/71] fix: index and own the objects added with +=

---
 xigt/mixins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 8fb5618..000d199 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -129,9 +129,13 @@ class XigtContainerMixin(list):
         list.insert(self, i, obj)
 
     def extend(self, objs):
-        for obj in objs:
+        for obj in list(objs):  # objs may depend on what is contained
             self.append(obj)
 
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
+
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
         # prefer the object itself over others with the same content
-- 
2.43.0


From 5c0308b3c5460d1abd3e2ff24e93f05206ebb687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:02 +0000
Subject: [PATCH 15/71] fix: assign a new set of children without losing any on
 the way

---
 xigt/metadata.py | 12 ++++--------
 xigt/mixins.py   | 15 +++++++++++++++
 xigt/model.py    |  9 +++------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..f4e5341 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,8 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
-        self._md.clear()
-        self._md.extend(value)
+        self._md._replace(value)
 
     # possibly pending deprecation
 
@@ -113,8 +112,7 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace(value or [])
 
     # deprecated properties
 
@@ -161,8 +159,7 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace(value or [])
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -202,5 +199,4 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace(value or [])
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 000d199..df09f0b 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -158,6 +158,21 @@ class XigtContainerMixin(list):
         # list.clear(self)
         listclear(self)
 
+    def _replace(self, objs):
+        # check everything first so that nothing is lost if objs depend on
+        # what is contained or if any of them is not acceptable
+        objs = list(objs)
+        ids = set()
+        for obj in objs:
+            self._assert_type(obj)
+            if obj.id is not None and obj.id in ids:
+                raise XigtError(
+                    'Id "{}" occurs more than once.'.format(obj.id)
+                )
+            ids.add(obj.id)
+        self.clear()
+        self.extend(objs)
+
     def _create_id_mapping(self, obj):
         if obj.id is not None:
             if obj.id in self._dict:
diff --git a/xigt/model.py b/xigt/model.py
index f8a5bee..acbc359 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -122,8 +122,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace(value or [])
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -208,8 +207,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace(value or [])
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -309,8 +307,7 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace(value or [])
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From b80038b38489eb033590b58056c67369f0972bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 16/71] fix: forget the ids of removed items when refreshing
 indices

---
 xigt/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index acbc359..361768f 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -165,9 +165,12 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
         xs = [i for t in self.tiers for i in t.items]
         if items:
-            idict = self._itemdict
+            # start anew so that items no longer in the Igt are forgotten
+            self._itemdict = idict = {}
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
-- 
2.43.0


From bc7c213b406a51f7a44d0005d66e4a148657f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 17/71] fix: list cached referrers only once

---
 xigt/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 361768f..a56ea78 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -198,7 +198,11 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
                 for obj_id, ra_map in ids_map.items():
                     for refattr, ref_ids in ra_map.items():
                         for ref_id in ref_ids:
-                            inv_ids_map[ref_id][refattr].append(obj_id)
+                            obj_ids = inv_ids_map[ref_id][refattr]
+                            # list a referrer once even if it has several
+                            # selections on the same referent
+                            if not obj_ids or obj_ids[-1] != obj_id:
+                                obj_ids.append(obj_id)
                 self._referrer_cache = inv_ids_map
 
     @property
-- 
2.43.0


From eb77506ee47bd9b1325de826ce0860cdd39ba90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 18/71] fix: inherit attributes when looking them up with a
 namespace

---
 xigt/mixins.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index df09f0b..bf4586b 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -246,9 +246,8 @@ class XigtAttributeMixin(object):
             return self.attributes[key]
         except KeyError:
             if inherit and _has_parent(self):
-                return self._parent.get_attribute(
-                    key, default, inherit, namespace=namespace
-                )
+                # the key is already qualified by the namespace
+                return self._parent.get_attribute(key, default, inherit)
             else:
                 return default
 
-- 
2.43.0


From 86a74f80284129edba2ea97f0488b8519ebdb04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 19/71] fix: sort tiers with dangling or cyclic references or
 without ids

---
 xigt/model.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index a56ea78..e9f0f0f 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -235,25 +235,30 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
             return ref.referrers(self, id, refattrs=refattrs)
 
     def sort_tiers(self, refattrs=(SEGMENTATION, ALIGNMENT, CONTENT)):
-        idx = {t.id: i+1 for i, t in enumerate(self)}  # initial index
+        # initial index
+        idx = {t.id: i+1 for i, t in enumerate(self) if t.id is not None}
         pr = {}  # prioritized referent
-        for t in self:
+        for i, t in enumerate(self):
             ra_i = next(
-                ((ra, i) for i, ra in enumerate(refattrs)
+                ((ra, j) for j, ra in enumerate(refattrs)
                  if ra in t.attributes),
                 None
             )
             if ra_i is not None:
-                pr[t.id] = (t.get_attribute(ra_i[0]), ra_i[1])
+                pr[i+1] = (t.get_attribute(ra_i[0]), ra_i[1])
         dfi = {}  # depth-first index
-        for t in self:
-            key = [(idx[t.id],0)]  # default value
-            tmp = pr.get(t.id)
-            while tmp:  # iterative depth first
-                key.append((idx[tmp[0]], tmp[1]))
-                tmp = pr.get(tmp[0])
-            dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-        self.sort(key=lambda t: dfi[t.id])
+        for i, t in enumerate(self):
+            key = [(i+1, 0)]  # default value
+            visited = set([i+1])
+            tmp = pr.get(i+1)
+            # iterative depth first; ignore dangling and cyclic references
+            while tmp and idx.get(tmp[0], i+1) not in visited:
+                j = idx[tmp[0]]
+                visited.add(j)
+                key.append((j, tmp[1]))
+                tmp = pr.get(j)
+            dfi[id(t)] = tuple(reversed(key))  # highest ancestor first
+        self.sort(key=lambda t: dfi[id(t)])
 
 
 class Tier(XigtContainerMixin, XigtAttributeMixin,
-- 
2.43.0


From 807295608225ac2c20d23e1ced61183e8f6dbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 20/71] fix: stop ancestor queries at tiers visited before, not
 at others

---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From 51f8f19b37d9703de1faec7dba74dc11e5140a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 21/71] fix: import the names used by deprecated functions

---
 xigt/ref.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index a3e8b2a..99d321c 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -1,8 +1,13 @@
 
 import re
+import warnings
 from collections import namedtuple
 
-from xigt.errors import (XigtLookupError, XigtStructureError)
+from xigt.errors import (
+    XigtAttributeError,
+    XigtLookupError,
+    XigtStructureError
+)
 
 ### Alignment Expressions ####################################################
 
@@ -298,7 +303,7 @@ def get_aligned_tier(tier, algnattr):
     if tgt_tier_id is None:
         raise XigtAttributeError(
             'Tier {} does not specify an alignment "{}".'
-            .format(tgt_tier_id, algnattr)
+            .format(tier.id, algnattr)
         )
     tgt_tier = tier.igt.get(tgt_tier_id)
     return tgt_tier
-- 
2.43.0


From 66743ff62e1e39dc805dd5ca29ce84b6847c3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:23 +0000
Subject: [PATCH 22/71] fix: select metadata by namespace

---
 xigt/mixins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index bf4586b..223e472 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -102,8 +102,11 @@ class XigtContainerMixin(list):
 
     def select(self, **kwargs):
         # handle namespace separately so we can lookup the nsmap
-        if 'namespace' in kwargs and kwargs['namespace'] in self.nsmap:
-            kwargs['namespace'] = self.nsmap[kwargs['namespace']]
+        if 'namespace' in kwargs:
+            nsmap = self._container.nsmap
+            kwargs['namespace'] = nsmap.get(
+                kwargs['namespace'], kwargs['namespace']
+            )
         def match(x):
             return all(getattr(x, k, None) == v for k, v in kwargs.items())
         return filter(match, self)
-- 
2.43.0


From cadf63bf3a5f3a3f896b0b0685c9202c46e44731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 23/71] fix: tokenize XigtPaths with whitespace, arguments and
 any names

---
 xigt/xigtpath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..5310401 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -40,12 +40,13 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
-    r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
+    r',|'  # function arguments
+    r'(?:text|value|referent|referrer)(?=\s*\()|'
+    r'\*|[^\s"@,.\/\[\]!=|()][^\s"@,\/\[\]!=|()]*'  # *, igt, tier, item, etc.
 )
 
 def tokenize(path):
-    return [t.strip() for t in xp_tokenizer_re.findall(path) if t.strip()]
+    return xp_tokenizer_re.findall(path)
 
 def find(obj, path):
     return next(iterfind(obj, path), None)
@@ -125,7 +126,8 @@ def _step(objs, steps):
             results = objs
         # elif steps and steps[0] == '::':
 
-        elif step in ('text', 'value', 'referent', 'referrer'):
+        elif (step in ('text', 'value', 'referent', 'referrer')
+              and steps and steps[0] == '('):
             steps.popleft()  # (
             args = []
             while steps and steps[0] != ')':
-- 
2.43.0


From 002f6ce333f5e83f9112978a746580fa213e69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:30 +0000
Subject: [PATCH 24/71] fix: unescape quoted literals in XigtPath predicates

---
 xigt/xigtpath.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 5310401..fb70949 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -31,7 +31,7 @@ from xigt.errors import XigtError
 class XigtPathError(XigtError): pass
 
 xp_tokenizer_re = re.compile(
-    r'"(?:\\.|[^\\"])*"|'  # double-quoted strings (allow escaped quotes \")
+    r'"(?:\\[\s\S]|[^\\"])*"|'  # double-quoted strings (allow escaped quotes \")
     r'//?|'  # // descendant-or-self or / descendant
     r'\.\.?|'  # .. parent or . self axes
     #r'::|'  # axis separator
@@ -258,7 +258,7 @@ def _make_predicate_test(steps):
         predtest = lambda obj: any(bool(findall(obj, subpath)))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
-        val = steps.popleft().strip('"')
+        val = _unquote(steps.popleft())
         if cmp == '=':
             predtest = lambda obj: any(v==val for v in findall(obj, subpath))
         elif cmp == '!=':
@@ -266,6 +266,11 @@ def _make_predicate_test(steps):
     steps.popleft()  # ']'
     return predtest
 
+def _unquote(val):
+    if val.startswith('"'):
+        val = re.sub(r'\\(.)', r'\1', val[1:-1], flags=re.DOTALL)
+    return val
+
 def _get_corpus(obj):
     while not isinstance(obj, XigtCorpus):
         obj = obj._parent
-- 
2.43.0


From 2b59dd65c3c6b68624e1dfd02fd832c6ff2f9412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 25/71] fix: keep only nodes that have what a XigtPath
 predicate asks for

---
 xigt/xigtpath.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index fb70949..1ce6458 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -150,9 +150,11 @@ def _step(objs, steps):
 def _function(obj, func, args):
     # function children
     if func == 'text':
-        results = [obj.text]  # ignore args?
+        # ignore args?
+        results = [getattr(obj, 'text', None)]
     elif func == 'value':
-        results = [obj.value()]  # ignore args?
+        # ignore args?
+        results = [obj.value()] if hasattr(obj, 'value') else []
     elif func in ('referent', 'referrer'):
         find_refs = _find_referent if func == 'referent' else _find_referrer
         refattrs = None
@@ -160,7 +162,8 @@ def _function(obj, func, args):
             refattrs = [ra.strip('"') for ra in args if ra != ',']
         results = find_refs(obj, refattrs)
     for result in results:
-        yield result
+        if result is not None:
+            yield result
 
 def _find_child(obj, name):
     results = []
@@ -213,7 +216,8 @@ def _find_attr(obj, attr):
         else:
             vals.append(obj.get_attribute(attr, namespace=namespace))
     for val in vals:
-        yield val
+        if val is not None:
+            yield val
 
 def _find_descendant_or_self(obj, name):
     namespace = None
@@ -255,7 +259,7 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        predtest = lambda obj: find(obj, subpath) is not None
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = _unquote(steps.popleft())
-- 
2.43.0


From a8a2db450b89a2f36de548e2a399be39c2549feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 26/71] fix: allow predicates inside of XigtPath predicates

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 1ce6458..4f05c7a 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -255,7 +255,9 @@ def _make_predicate_test(steps):
     steps.popleft()  # '['
     # parse expr here?
     subpath = deque()
-    while steps[0] not in (']', '=', '!='):
+    depth = 0  # of nested predicates
+    while depth or steps[0] not in (']', '=', '!='):
+        depth += {'[': 1, ']': -1}.get(steps[0], 0)
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-- 
2.43.0


From 6852825cbb4fc6879da1151b688466d6fdf344f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:33 +0000
Subject: [PATCH 27/71] fix: continue XigtPaths after a group and skip groups
 without context

---
 xigt/xigtpath.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 4f05c7a..9303be6 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -71,10 +71,7 @@ def iterfind(obj, path):
         yield result
 
 def _expr(objs, steps):
-    if steps[0] == '(':
-        steps.popleft()
-        results = _disjunction(objs, steps)
-    elif steps[0] in ('/', '//'):
+    if steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
         results = _step([_get_corpus(objs[0])], steps)
@@ -88,6 +85,9 @@ def _disjunction(objs, steps):
     # NOTE: on the first pass, steps is the original deque, so it is
     #       modified in-place. Afterwards, the copy is reused.
     orig_steps = deque(steps)
+    objs = list(objs)
+    if not objs:
+        _skip_group(steps)
     for obj in objs:
         while True:
             results.extend(r for r in _expr([obj], steps))
@@ -104,6 +104,11 @@ def _disjunction(objs, steps):
     # don't yield here; lazy eval screws up the steps deque
     return results
 
+def _skip_group(steps):
+    depth = 1
+    while depth:
+        depth += {'(': 1, ')': -1}.get(steps.popleft(), 0)
+
 def _step(objs, steps):
     if not steps:
         for obj in objs:
-- 
2.43.0


From d76b6305a3efbd5f3c7b64f0fb98c45090f7fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 28/71] fix: resolve namespace prefixes in XigtPath descendants
 and wildcards

---
 xigt/xigtpath.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 9303be6..0ab21cc 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -179,7 +179,9 @@ def _find_child(obj, name):
         kwargs['namespace'] = namespace
     # simple case
     if name == '*' and hasattr(obj, '__iter__'):
-        results = list(getattr(obj, 'metadata', []))
+        results = []
+        if hasattr(obj, 'metadata'):
+            results.extend(obj.metadata.select(**kwargs))
         results.extend(obj.select(**kwargs))
     elif (name == 'igt' and hasattr(obj, 'igts') or
           name == 'tier' and hasattr(obj, 'tiers') or
@@ -188,15 +190,7 @@ def _find_child(obj, name):
         # select should just work on the containers as normal
         results = obj.select(**kwargs)
     elif name == 'metadata' and hasattr(obj, 'metadata'):
-        # for metadata we need to filter by namespace ourselves (but
-        # we don't really expect for <metadata> elements to have a
-        # namespace, so maybe this is unnecessary?)
-        results = iter(obj.metadata)
-        if 'namespace' in kwargs:
-            results = filter(
-                lambda x: getattr(x, 'namespace', None) == namespace,
-                results
-            )
+        results = obj.metadata.select(**kwargs)
     elif isinstance(obj, (Meta, MetaChild)):
         # for MetaChild objects, we need to give the name as well
         kwargs['name'] = name
@@ -224,18 +218,20 @@ def _find_attr(obj, attr):
         if val is not None:
             yield val
 
-def _find_descendant_or_self(obj, name):
-    namespace = None
+def _find_descendant_or_self(obj, path):
+    namespace, name = None, path
     if ':' in name:
         namespace, name = name.split(':', 1)
     if isinstance(obj, MetaChild):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if ((namespace is None
+         or obj.namespace == obj.nsmap.get(namespace, namespace))
+            and objname == name):
         yield obj
     for child in _find_child(obj, '*'):
-        for desc in _find_descendant_or_self(child, name):
+        for desc in _find_descendant_or_self(child, path):
             yield desc
 
 def _find_referent(obj, refattrs):
-- 
2.43.0


From 11257d17ff54ea0ad3b34261ab14019d4213b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 29/71] fix: find no parent of the root in XigtPaths

---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 0ab21cc..a7a4ea2 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -126,7 +126,8 @@ def _step(objs, steps):
             attr = steps.popleft()
             results = (res for obj in objs for res in _find_attr(obj, attr))
         elif step == '..':
-            results = (obj._parent for obj in objs)
+            results = (obj._parent for obj in objs
+                       if getattr(obj, '_parent', None) is not None)
         elif step == '.':
             results = objs
         # elif steps and steps[0] == '::':
-- 
2.43.0


From 0b3b10fed4a699ac953fab8ddb9cc83254ade205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 30/71] fix: find all and only the attributes a XigtPath names

---
 xigt/xigtpath.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index a7a4ea2..cefed65 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -204,6 +204,8 @@ def _find_attr(obj, attr):
     # pseudo-attributes (members in the model, attrs in the xml and path)
     if attr in ('type', 'id', 'name'):
         val = getattr(obj, attr, None)
+        if val is None:
+            val = obj.attributes.get(attr)
         if val is not None:
             vals.append(val)
     else:
@@ -211,8 +213,11 @@ def _find_attr(obj, attr):
         if ':' in attr:
             namespace, attr = attr.split(':', 1)
         if attr == '*':
-            vals.extend(obj.get_attribute(attrkey, namespace=namespace)
-                        for attrkey in obj.attributes)
+            prefix = ''
+            if namespace is not None:
+                prefix = '{%s}' % obj.nsmap.get(namespace, namespace)
+            vals.extend(val for key, val in obj.attributes.items()
+                        if key.startswith(prefix))
         else:
             vals.append(obj.get_attribute(attr, namespace=namespace))
     for val in vals:
-- 
2.43.0


From 3aa300b4a3bede6f0c72d45199ea8b25b3a5024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 31/71] fix: allow objects without ids in XigtPath referents
 and referrers

---
 xigt/xigtpath.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index cefed65..a46a0c7 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -243,7 +243,10 @@ def _find_descendant_or_self(obj, path):
 def _find_referent(obj, refattrs):
     refs = []
     igt = obj.igt if hasattr(obj, 'igt') else obj
-    refd = ref.referents(igt, obj.id, refattrs=refattrs)
+    if refattrs is None:
+        refattrs = obj.allowed_reference_attributes()
+    # obj may have no id to look it up with
+    refd = {ra: ref.ids(obj.attributes.get(ra, '')) for ra in refattrs}
     # sort for now because ref.referents doesn't return document order
     for ra, ids in sorted(refd.items()):
         refs.extend(igt.get_any(_id) for _id in ids)
@@ -252,6 +255,8 @@ def _find_referent(obj, refattrs):
 def _find_referrer(obj, refattrs):
     refs = []
     igt = obj.igt if hasattr(obj, 'igt') else obj
+    if obj.id is None:
+        return refs  # nothing can refer to it
     refd = ref.referrers(igt, obj.id, refattrs=refattrs)
     # sort for now because ref.referents doesn't return document order
     for ra, ids in sorted(refd.items()):
-- 
2.43.0


From 579c69c6103991bbc3c7ceeb4fd3cf96fa53f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 32/71] fix: fail the validation of files that cannot be loaded

---
 xigt/scripts/xigt_validate.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..4583e51 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -9,7 +9,7 @@ warnings.simplefilter('ignore')
 
 from xigt.codecs import xigtxml
 from xigt.ref import (ids, spans, selection_re, span_re)
-from xigt.errors import XigtAttributeError
+from xigt.errors import XigtError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
@@ -391,19 +391,21 @@ def run(args):
     from xml.etree import ElementTree as ET
     ids = Counter()
     for i, f in enumerate(args.files):
-        with open(f, 'r') as fh:
+        with open(f, 'rb') as fh:
             try:
                 xc = xigtxml.load(fh, mode='transient')
-            except ET.ParseError:
+                context = make_context(
+                    xc, i, '<xigt-corpus>', 'collection', ids=ids
+                )
+                # Igts are loaded during validation
+                report = validate_corpus(xc, context)
+            except (ET.ParseError, XigtError, ValueError):
+                passed.append(False)
                 print('Corpus {} ({}) failed to load. First verify '
                       'that the XML file is valid by doing a schema '
                       'validation.'
                       .format(i, f))
             else:
-                context = make_context(
-                    xc, i, '<xigt-corpus>', 'collection', ids=ids
-                )
-                report = validate_corpus(xc, context)
                 report = filter_empty_reports(
                     report, minlevel=logging.getLogger().getEffectiveLevel()
                 )
-- 
2.43.0


From e18296863a49873ab29ee2201ccc9e1cc33a70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 33/71] fix: validate references to empty tiers and tiers with
 numeric names

---
 xigt/scripts/xigt_validate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4583e51..c82bd48 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -189,7 +189,11 @@ def get_referred_tier(item, refattr):
     tierref = item.tier.attributes.get(refattr)
     if not tierref:
         return None
-    return item.igt.get(tierref)
+    return get_by_id(item.igt, tierref)
+
+def get_by_id(container, _id):
+    # unlike container.get(), don't take numbers for positions
+    return next((obj for obj in container if obj.id == _id), None)
 
 
 # TEST FUNCTIONS
@@ -221,7 +225,7 @@ def has_type(obj):
 
 def reference_id_in_igt(tier, refattr):
     refid = tier.attributes.get(refattr)
-    if refid and tier.igt.get(refid) is None:
+    if refid and get_by_id(tier.igt, refid) is None:
         return ('The reference attribute "{}" {{modal}} select an '
                 'available <tier> id.'.format(refattr))
 
@@ -239,7 +243,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
@@ -256,7 +260,7 @@ def algnexpr_ids_in_referred_tier(item, refattr):
 def algnexpr_spans_in_aligned_item(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     error_spans = []
     for span in spans(itemref):
@@ -285,7 +289,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
 def algnexpr_spans_do_not_overlap(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
     for span in spans(itemref):
-- 
2.43.0


From 47d7edbe57d2110ba9592532dfad814b2a134950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 34/71] fix: detect overlapping spans and validate all
 alignment expressions

---
 xigt/scripts/xigt_validate.py | 63 ++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index c82bd48..319a476 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -196,6 +196,29 @@ def get_by_id(container, _id):
     return next((obj for obj in container if obj.id == _id), None)
 
 
+def parse_spans(expression):
+    # start and end are None if the span is all of the item
+    result = []
+    # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(expression, keep_delimiters=False):
+        _, item_id, _range = selection_re.match(span).groups()
+        start = end = None
+        if _range:
+            try:
+                start, end = map(int, span_re.match(_range).groups()[1:])
+            except ValueError:
+                continue
+        result.append((span, item_id, start, end))
+    return result
+
+def get_length(item):
+    # None if the value depends on references that cannot be resolved
+    try:
+        return len(item.value() or '')
+    except (XigtError, KeyError, ValueError, RuntimeError):
+        return None
+
+
 # TEST FUNCTIONS
 
 ## Each function should return a result if the test failed. The result
@@ -263,20 +286,15 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     if not itemref or reftier is None:
         return
     error_spans = []
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
-        sel_delim, item_id, _range = selection_re.match(span).groups()
-        if _range:
-            _, start, end = span_re.match(_range).groups()
-            start = int(start)
-            end = int(end)
-        else:
-            continue
+    for span, item_id, start, end in parse_spans(itemref):
+        if start is None:
+            continue  # all of the item
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
+        item_len = get_length(tgt_item)
+        if item_len is None:
+            continue  # a problem of the referred item
         if start > item_len or end > item_len:
             error_spans.append(span)
     if error_spans:
@@ -292,21 +310,14 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
-            if tgt_item is None:
-                continue  # this should be caught by algnexpr_ids_in_referred_tier
-            val = tgt_item.value()
-            if val is None:
-                continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
-            spans_by_id[span].update(range(0, item_len))
-        else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+    for span, item_id, start, end in parse_spans(itemref):
+        tgt_item = reftier.get(item_id)
+        if tgt_item is None:
+            continue  # this should be caught by algnexpr_ids_in_referred_tier
+        item_len = get_length(tgt_item)
+        if item_len is None:
+            continue  # a problem of the referred item
+        spans_by_id[item_id].update(range(0, item_len)[start:end])
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From 6cf030fdf54367f786bf5a8fc6fcc8de73b7d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 35/71] fix: sort by several keys one after the other

---
 xigt/scripts/xigt_sort.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..c8e168f 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,11 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # keep the parts of each key together so that parts of different keys
+    # are never compared
+    key = lambda x: [list(map(safe_int,
+                              re.split(r'(\d+)', xp.find(x, sk) or '')))
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From e92cfb9028d17030b5d6bda133adbeba5fcc8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 36/71] fix: never write igts of different keys to the same
 partition

---
 xigt/scripts/xigt_partition.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..796034c 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -17,13 +17,19 @@ def run(args):
     keypath = args.key_path
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
-        index(fn, keypath, idx)
+        index(fn, keypath, args.default_key, idx)
+    names = set()
     for key, fn_idx in idx.items():
         logging.info('Writing {} (grouped from {} files)'
                      .format(key, len(fn_idx)))
-        if key is None:
-            key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
+        name = normalize_key(key)
+        if name in names:  # keep keys apart that only differ in punctuation
+            i = 2
+            while '{}-{}'.format(name, i) in names:
+                i += 1
+            name = '{}-{}'.format(name, i)
+        names.add(name)
+        out_fn = os.path.join(args.outdir, name + '.xml')
         write(out_fn, fn_idx)
 
 def create_outdir(outdir):
@@ -36,14 +42,16 @@ def create_outdir(outdir):
         logging.error('Output directory could not be created.')
         sys.exit(1)
 
-def index(fn, by, idx):
+def index(fn, by, default_key, idx):
     xc = xigtxml.load(fn, mode='transient')
     for i, igt in enumerate(xc):
         idx_key = xp.find(igt, by)
+        if idx_key is None:
+            idx_key = default_key
         idx[idx_key][fn].add(i)
 
 def normalize_key(key):
-    return key.replace(':', '-')
+    return key.replace(':', '-').replace('/', '-')
 
 def write(out_fn, fn_idx):
     xc = XigtCorpus()
-- 
2.43.0


From 81cb8658d209af40103185237edbf2e628e5847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 37/71] fix: count distinct objects in queries

---
 xigt/scripts/xigt_query.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 8235ebb..4611869 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -3,7 +3,7 @@
 from __future__ import print_function
 from os.path import basename
 import argparse
-from collections import Counter, defaultdict
+from collections import defaultdict
 import string
 import logging
 
@@ -110,24 +110,44 @@ def process_agenda(xc, agenda):
     return results
 
 
+# like Counter(), but also for Xigt objects, which are not hashable
+def count_distinct(objs):
+    hashed = {}
+    counts = []
+    for obj in objs:
+        try:
+            count = hashed.get(obj)
+        except TypeError:
+            count = next((c for c in counts if c[0] == obj), None)
+        if count is None:
+            count = [obj, 0]
+            counts.append(count)
+            try:
+                hashed[obj] = count
+            except TypeError:
+                pass
+        count[1] += 1
+    return counts
+
+
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
         print(' ', agendum['description'].format(match=match))
 
 
 def tally_pattern(xc, agendum):
-    counts = Counter()
-    for match in xp.findall(xc, agendum['query']):
-        group = CSTuple(xp.findall(match, agendum['subquery']))
-        counts[group] += 1
+    counts = count_distinct(
+        CSTuple(xp.findall(match, agendum['subquery']))
+        for match in xp.findall(xc, agendum['query'])
+    )
     return [
         (count, agendum['description'].format(match=match))
-        for match, count in counts.most_common()
+        for match, count in sorted(counts, key=lambda c: c[1], reverse=True)
     ]
 
 
 def unique_pattern(xc, agendum):
-    counts = Counter(xp.findall(xc, agendum['query']))
+    counts = count_distinct(xp.findall(xc, agendum['query']))
     return (len(counts), agendum['description'].format(match=''))
 
 
-- 
2.43.0


From 6ffff193591cca29f9db4f4fb619afe7d190a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 38/71] fix: fill in query descriptions once and leave other
 braces alone

---
 xigt/scripts/xigt_query.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 4611869..dfc5def 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -31,8 +31,9 @@ class SafeFormatter(string.Formatter):
                 fp = name.split('[')[0].split('.')[0]
                 # treat as normal if fp is empty (an implicit
                 # positional arg), a digit (an explicit positional
-                # arg) or if it is in kwargs
-                if not fp or fp.isdigit() or fp in kwargs:
+                # arg) with such an arg, or if it is in kwargs
+                if (fp in kwargs or args_len and not fp
+                        or fp.isdigit() and int(fp) < args_len):
                     tokens.extend([lit, '{', name, conv, spec, '}'])
                 # otherwise escape the braces
                 else:
@@ -73,9 +74,7 @@ def make_job(args):
     for action, vals in args.agenda:
         if action == 'description' and agenda:
             agendum = agenda[-1]
-            agendum['description'] = safe_format(
-                vals, query=agendum['query'], subquery=agendum.get('subquery')
-            )
+            agendum['description'] = vals
         else:
             if action in ('find', 'unique', 'count'):
                 query, subquery = vals[0], ''
@@ -87,9 +86,7 @@ def make_job(args):
                 'action': action,
                 'query': query,
                 'subquery': subquery,
-                'description': safe_format(
-                    description, query=query, subquery=subquery
-                )
+                'description': description
             })
     return job
 
@@ -110,6 +107,14 @@ def process_agenda(xc, agenda):
     return results
 
 
+def describe(agendum, match):
+    # fill in everything at once, as queries may contain braces
+    return safe_format(
+        agendum['description'], query=agendum['query'],
+        subquery=agendum['subquery'], match=match
+    )
+
+
 # like Counter(), but also for Xigt objects, which are not hashable
 def count_distinct(objs):
     hashed = {}
@@ -132,7 +137,7 @@ def count_distinct(objs):
 
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
-        print(' ', agendum['description'].format(match=match))
+        print(' ', describe(agendum, match=match))
 
 
 def tally_pattern(xc, agendum):
@@ -141,19 +146,19 @@ def tally_pattern(xc, agendum):
         for match in xp.findall(xc, agendum['query'])
     )
     return [
-        (count, agendum['description'].format(match=match))
+        (count, describe(agendum, match=match))
         for match, count in sorted(counts, key=lambda c: c[1], reverse=True)
     ]
 
 
 def unique_pattern(xc, agendum):
     counts = count_distinct(xp.findall(xc, agendum['query']))
-    return (len(counts), agendum['description'].format(match=''))
+    return (len(counts), describe(agendum, match=''))
 
 
 def count_pattern(xc, agendum):
     count = len(xp.findall(xc, agendum['query']))
-    return (count, agendum['description'].format(match=''))
+    return (count, describe(agendum, match=''))
 
 
 def print_results(results):
-- 
2.43.0


From 78b279831be9c6f21392f7c3fa1245246f0807ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 39/71] fix: escape LaTeX characters so that they are typeset
 as they are

---
 xigt/exporters/latex.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..6f3e4b7 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -12,9 +12,8 @@ from xigt import ref
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -22,9 +21,11 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
+_escape_map = dict(LATEX_CHARMAP)
+_escape_re = re.compile('[{}]'.format(re.escape(''.join(_escape_map))))
 
 header = '''
 \\documentclass{article}
@@ -54,14 +55,9 @@ def prepare_config(config):
     return config
 
 def escape(s):
-    # consider a re sub with a function. e.g.
-    # _character_unescapes = {'\\s': _field_delimiter, '\\n': '\n', '\\\\': '\\'}
-    # _unescape_func = lambda m: _character_unescapes[m.group(0)]
-    # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
-    # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    # replace everything in one pass, since replacements contain characters
+    # that are themselves replaced
+    return _escape_re.sub(lambda m: _escape_map[m.group(0)], s)
 
 def export_corpus(xc, config):
     for igt in xc:
-- 
2.43.0


From 9e0e276cfa489bbfefb694fd4284ee6581272bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 40/71] fix: export empty items to LaTeX as nothing instead of
 braces

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 6f3e4b7..a146cb5 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -91,7 +91,7 @@ def export_igt(igt, config):
             items = col[i]
             toks.append('{{{}}}'.format(
                 ' '.join(
-                    sub(escape(item.get_content() or '{}'),
+                    sub(escape(item.get_content() or '') or '{}',
                         tier_type,
                         item_subs)
                     for item in items
@@ -102,7 +102,7 @@ def export_igt(igt, config):
     for tier in igt.tiers:
         if tier.type == 'translations' and len(tier) > 0:
             lines.append('\\trans {}'.format(
-                sub(escape(tier[0].get_content() or '{}'),
+                sub(escape(tier[0].get_content() or '') or '{}',
                     tier.type,
                     tier_subs)
             ))
-- 
2.43.0


From 8256667c95ac22b73f41ae8ff7a9a64bbc447ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 41/71] fix: keep line breaks in texts from breaking LaTeX
 paragraphs

---
 xigt/exporters/latex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index a146cb5..bfb2f69 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -57,7 +57,9 @@ def prepare_config(config):
 def escape(s):
     # replace everything in one pass, since replacements contain characters
     # that are themselves replaced
-    return _escape_re.sub(lambda m: _escape_map[m.group(0)], s)
+    s = _escape_re.sub(lambda m: _escape_map[m.group(0)], s)
+    # line breaks are spaces, but empty lines would end the paragraph
+    return re.sub(r'\s*[\r\n]\s*', ' ', s)
 
 def export_corpus(xc, config):
     for igt in xc:
-- 
2.43.0


From 97823f658e78e141f663a08e945722993fa504ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 42/71] fix: export IGTs with empty tiers or without ids to
 LaTeX

---
 xigt/exporters/latex.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index bfb2f69..53d6602 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -78,15 +78,14 @@ def export_igt(igt, config):
             tiers.append(tier)
     if len(tiers) < 2:
         return '%\n% cannot export IGT {}\n%'.format(igt.id)
-    logging.debug('Aligning tiers: {}'.format(', '.join(t.id for t in tiers)))
+    logging.debug('Aligning tiers: {}'.format(', '.join(str(t.id) for t in tiers)))
     lines = []
     all_groups = group_alignments(tiers)
     for col in all_groups:
         logging.debug('Col {}'.format([[i.id for i in r] for r in col]))
     lines.append('\\begin{exe}\\small')
     lines.append('\\ex\\g{}'.format('l' * len(tiers)))
-    depth = len(all_groups[0])
-    for i in range(depth):
+    for i in range(len(tiers)):
         toks = []
         tier_type = tiers[i].type
         for col in all_groups:
@@ -121,13 +120,12 @@ def group_alignments(tiers):
     #    or as a list
     # [columns [rows [tokens]]]
     trellis = [[[item]] for item in tiers[0].items]
-    for tier in tiers[1:]:
-        trellis = align_tier(trellis, tier)
+    for depth, tier in enumerate(tiers[1:], 1):
+        trellis = align_tier(trellis, tier, depth)
     return trellis
 
 
-def align_tier(trellis, tier):
-    depth = len(trellis[0])
+def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
@@ -170,14 +168,14 @@ def align_tier(trellis, tier):
         trellis[idx][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
                       .format(idx, depth, items))
-    # when agendum is done, just append any remaining delayed items
-    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     # if the agenda was shorter than the prev tier, fill in empty values
     idx += 1
     while idx < len(trellis):
         logging.debug('Filling in empty slot at idx {}'.format(idx))
         trellis[idx].append([])
         idx += 1
+    # when agendum is done, just append any remaining delayed items
+    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     logging.debug('Agenda done.')
     for col in trellis:
         logging.debug('Col {}'.format(col))
@@ -223,7 +221,7 @@ def merge_columns(trellis, start, end):
 def debug_display_trellis(trellis):
     strs = []
     for col in trellis:
-        toks = [' '.join(i.id for i in row) if row else '[]' for row in col]
+        toks = [' '.join(str(i.id) for i in row) if row else '[]' for row in col]
         maxlen = max(len(t) for t in toks)
         toks = [t.ljust(maxlen) for t in toks]
         strs.append(toks)
-- 
2.43.0


From 03279a6cbb8a0f2a30f3ea5220d9e3de4fc0b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 43/71] fix: keep order and columns of all alignments to
 earlier tiers in LaTeX

---
 xigt/exporters/latex.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 53d6602..9bd7184 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -129,19 +129,23 @@ def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
-    idxmap = build_idxmap(trellis, depth - 1) # regen when trellis size changes
+    idxmap = build_idxmap(trellis, depth)  # regen when trellis size changes
     for agendum in agenda:
         ids, items = agendum
         logging.debug('Agendum: {} -> {}'.format([i.id for i in items], ids))
         debug_display_trellis(trellis)
-        # no alignment
-        if not ids:
+        # no alignment (at least not to any earlier tier)
+        cols = [idxmap[_id] for _id in ids if _id in idxmap]
+        if not cols:
             logging.debug('Delay')
             delay.append(agendum)
             continue
-        # assumes ids are ordered
-        start = idxmap[ids[0]]
-        end = idxmap[ids[-1]]
+        start = min(cols)
+        # do not go back to an earlier column, but extend it up to here
+        end = max(max(cols), idx)
+        # delayed items cannot get a column of their own inside of this one
+        while delay and idx >= start:
+            items = delay.pop()[1] + items
         logging.debug('idx: {}\tstart: {}\tend: {}\tdepth: {}'
                       .format(idx, start, end, depth))
         # if the next aligned thing is ahead of idx, move ahead
@@ -156,12 +160,13 @@ def align_tier(trellis, tier, depth):
             idx += num
             start += num
             end += num
-            idxmap = build_idxmap(trellis, depth - 1)
+            idxmap = build_idxmap(trellis, depth)
         # now add new item, merging if necessary
         if start != end:
             # end + 1 so the slice gets the last column
             trellis = merge_columns(trellis, start, end + 1)
-            idxmap = build_idxmap(trellis, depth - 1)
+            idx = start
+            idxmap = build_idxmap(trellis, depth)
             debug_display_trellis(trellis)
         #trellis[idx]
         #trellis[idx][depth]
@@ -190,7 +195,8 @@ def get_agenda(tier):
     return agenda
 
 def build_idxmap(trellis, depth):
-    idxmap = {it.id:i for i, col in enumerate(trellis) for it in col[depth]}
+    idxmap = {it.id: i for i, col in enumerate(trellis)
+              for row in col[:depth] for it in row}
     logging.debug('Built idxmap for depth {}:\n  {}'.format(depth, idxmap))
     return idxmap
 
-- 
2.43.0


From c2f6ff02eb5f55562c711072ed2701576ba94703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 44/71] fix: evaluate the expression of each cell in test-suite
 exports

---
 xigt/exporters/itsdb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 38258e7..bfab32e 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -32,8 +32,7 @@ def xigt_export(xc, outpath, config=None):
     )
 
 def prepare_config(config):
-    if config is None:
-        config = {}
+    config = dict(config or {})  # the given config stays as it is
     config.setdefault('i-id_start', 0)
     config.setdefault('i-id_skip', 10)
     # attempt to find default Relations file
@@ -48,10 +47,14 @@ def prepare_config(config):
             config['relations'] = rel_path
     # evaluate lambda expressions now, since they won't change
     config.setdefault('cells', DEFAULT_CELLS)
-    config['cells'] = [(key, lambda igt: eval(mapper))
+    config['cells'] = [(key, make_mapper(mapper))
                        for key, mapper in config['cells']]
     return config
 
+def make_mapper(expression):
+    # a function so that each mapper keeps its own expression
+    return lambda igt: eval(expression)
+
 def export_corpus(xc, config):
     id_start = config['i-id_start']
     id_skip = config['i-id_skip']
-- 
2.43.0


From 79d0a96046b8a4c7a9e75916f6b37e189a0c8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 45/71] fix: export the input text instead of the item to test
 suites

---
 xigt/exporters/itsdb.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index bfab32e..583b969 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -14,12 +14,16 @@ except ImportError:
 DEFAULT_CELLS = [
     # i-input is a string of either the first phrase (preferred) or all words
     ('i-input',
-     'next(igt.select(type="phrases"), [""])[0] or '
-     '" ".join(item.get_content() '
-     '         for item in next(igt.select(type="words"),[]))'),
+     'default_input(igt)'),
     #('i-wf', '0 if igt.get_meta("judgment") else 1'),
 ]
 
+def default_input(igt):
+    phrases = next(igt.select(type='phrases'), [])
+    words = next(igt.select(type='words'), [])
+    return ((phrases[0].value() if len(phrases) else None)
+            or ' '.join(item.value() or '' for item in words))
+
 def xigt_export(xc, outpath, config=None):
     config = prepare_config(config)
     if not config.get('relations') or not isfile(config['relations']):
-- 
2.43.0


From 2ba5a36eaf36df410e371d8feb6e4d424d1629c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 46/71] fix: keep characters outside of the BMP when importing
 ODIN

---
 xigt/importers/odin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..066815d 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -222,7 +222,7 @@ def make_igt_raw_tier(block, options):
 #  \U000DFFFE, \U000DFFFF, \U000EFFFE, \U000EFFFF, \U000FFFFE, \U000FFFFF,
 #  \U0010FFFE, \U0010FFFF
 invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
-                             #'\U00010000-\U0010FFFF]'
+                             '\U00010000-\U0010FFFF'
                              ']'
                              , re.UNICODE)
 
-- 
2.43.0


From 5ef751c314237943599b660a5fdd2a471cc25069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 47/71] fix: replace invalid XML characters in all data
 imported from ODIN

---
 xigt/importers/odin.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 066815d..3120791 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -107,6 +107,7 @@ def odin_igts(in_fh, options):
 
 
 def make_igt(block, options):
+    block = replace_all_invalid_xml_chars(block, options['replacement_char'])
     igt_id = block.get('igt_id', None)
 
     attributes = make_igt_attributes(block, options)
@@ -185,12 +186,9 @@ def make_igt_metadata(block, options):
 def make_igt_raw_tier(block, options):
     items = []
     for j, linedata in enumerate(block.get('lines', [])):
-        text = replace_invalid_xml_chars(
-            linedata.get('content', ''),
-            options['replacement_char']
-        )
+        text = linedata.get('content', '')
         attrs = linedata.copy()
-        del attrs['content']
+        attrs.pop('content', None)
         items.append(Item(id='r{}'.format(j+1), attributes=attrs, text=text))
     tier = Tier(
         id='r',
@@ -230,3 +228,16 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
     return invalid_char_re.sub(replacement_char, input)
+
+
+def replace_all_invalid_xml_chars(data, replacement_char):
+    # for block data, which are nested lists and dictionaries of strings
+    if isinstance(data, dict):
+        return {key: replace_all_invalid_xml_chars(val, replacement_char)
+                for key, val in data.items()}
+    elif isinstance(data, (list, tuple)):
+        return [replace_all_invalid_xml_chars(val, replacement_char)
+                for val in data]
+    elif isinstance(data, str):
+        return replace_invalid_xml_chars(data, replacement_char)
+    return data
-- 
2.43.0


From c495b8523a0b13c7aaa6a2eb4dd3224e0ea1b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 48/71] fix: take ODIN input directories and suffixes literally

---
 xigt/importers/odin.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 3120791..87969d9 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -66,9 +66,11 @@ def xigt_import(inpath, outpath, options=None):
         suffix = options['input_file_suffix']
         if not os.path.exists(outpath):
             prepare_outdir(outpath)
-        filepattern = '*{}'.format(suffix)
-        for infile in glob.glob(os.path.join(inpath, filepattern)):
-            outfile = re.sub(suffix + r'$', '.xml', os.path.basename(infile))
+        filepattern = '*{}'.format(glob.escape(suffix))
+        for infile in glob.glob(
+                os.path.join(glob.escape(inpath), filepattern)):
+            basename = os.path.basename(infile)
+            outfile = basename[:len(basename)-len(suffix)] + '.xml'
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
         raise XigtImportError(
-- 
2.43.0


From b9fe04e4bbe05f98e5ba0d0dcd9d3a5be897f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 49/71] fix: import Toolbox records whose keys start with
 non-ASCII letters

---
 xigt/importers/toolbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index f8d4290..07dbc87 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -52,6 +52,7 @@ except ImportError:
 from xigt import (XigtCorpus, Igt, Tier, Item, Metadata, Meta)
 from xigt.codecs import xigtxml
 from xigt.errors import XigtImportError
+from xigt.ref import id_re
 
 try:
     import toolbox
@@ -160,7 +161,7 @@ def toolbox_igts(tb, options):
 def make_igt(key, data, context, options):
     # IDs must start with a letter
     assert key
-    if not key[0].isalpha():
+    if not id_re.match(key):
         key = 'igt{}'.format(key)
     if context is None:
         context = {}
-- 
2.43.0


From 4bc174c539097e38f5caa3c2c441e879ed0ded4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 50/71] fix: let the only morpheme of a word span the word

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 07dbc87..c958d05 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -309,7 +309,7 @@ def align_word(tier_type, s, src_data):
         end = beg + len(src_toks[s])
     elif tier_type == 'morphemes':
         if len(src_toks) == 1:  # when there is only one morpheme, assume it is correct
-            return 0, len(src_toks[s]), 0
+            return 0, len(tgt_tok), 0
         else:  # attempt some common morpheme separations
             def_val = -1  # default is NO MATCH FOUND
             if s == 0:  # this is the FIRST token in line
-- 
2.43.0


From f693f1c582b9b39ec1fca808bbcdd0584b28b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 51/71] fix: look for hyphens right after the previous
 morphemes

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index c958d05..c12b47d 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -328,7 +328,7 @@ def align_word(tier_type, s, src_data):
                         try_tgt = try_tgt[len(m1.group()):]  # truncate the hyphen
                     if tgt_tok.startswith(prev_toks + src_toks[j].strip(default_bounds)):
                         prev_toks += src_toks[j].strip(default_bounds)  # add the previous morphemes to amalgam
-                        try_tgt = try_tgt[len(prev_toks):]
+                        try_tgt = tgt_tok[len(prev_toks):]
                     else:  # when we encounter a non-matching morpheme, assume the rest of the word
                         return len(prev_toks), len(tgt_tok), -1
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
-- 
2.43.0


From e05c9723a912e6a293875e1c3fce8bfd755307f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 52/71] fix: ignore case on both sides when aligning morphemes
 to words

---
 xigt/importers/toolbox.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index c12b47d..3727f3f 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -301,7 +301,9 @@ def align_word(tier_type, s, src_data):
     beg = 0
     end = 0
     tgt_tok, src_toks = src_data
-    tgt_tok = tgt_tok.lower()  # This may cause problems with diacriticals!
+    # ignore case, but keep the length so that positions stay the same
+    tgt_tok = _lower(tgt_tok)
+    src_toks = [_lower(tok) for tok in src_toks]
     if tier_type == 'words':
         for i in range(s):
             beg += len(src_toks[i])
@@ -343,6 +345,10 @@ def align_word(tier_type, s, src_data):
 
 
 
+def _lower(s):
+    return ''.join(c.lower() if len(c.lower()) == 1 else c for c in s)
+
+
 def _respace_decode(line, encoding):
     toks = []
     line = line.rstrip(b'\n')
-- 
2.43.0


From 34f352ba34779456e019899174b887af3ccd11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 53/71] fix: write the namespaces of JSON objects in a stable
 order

---
 xigt/codecs/xigtjson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 7689b69..fdbc23e 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -201,7 +201,8 @@ def _make_obj(x, nscontext=None):
     active_nsmap.update(x.nsmap)
     inv_nsmap.clear()
     inv_nsmap.update((uri, pre) for pre, uri in active_nsmap.items())
-    nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
+    nsmap = dict(ns for ns in active_nsmap.items()
+                 if ns not in nscontext.items())
     obj = {}
     if x.id: obj['id'] = x.id
     if x.type is not None: obj['type'] = x.type
-- 
2.43.0


From 0ade3d1026f06beb82833b4e59ef5b6779011299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 54/71] fix: never compare items, metas and meta children as
 equal

---
 xigt/metadata.py | 6 ++++--
 xigt/model.py    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index f4e5341..e6fe7b0 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -147,7 +147,8 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Meta)
+                and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
             )
@@ -186,7 +187,8 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.name == other.name
+                isinstance(other, MetaChild)
+                and self.name == other.name
                 and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
diff --git a/xigt/model.py b/xigt/model.py
index e9f0f0f..0a71564 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -366,7 +366,8 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Item)
+                and self.text == other.text
                 and XigtAttributeMixin.__eq__(self, other)
             )
         except AttributeError:
-- 
2.43.0


From 8723c46716ae6bb7cb37fb6a14f16102a1268f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 55/71] fix: reject names of meta children that end with a
 newline

---
 xigt/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index e6fe7b0..b396135 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -13,7 +13,7 @@ from xigt.errors import XigtError
 # This also excludes colons in the name (because of potential trouble
 # with xml processors treating them as namespace delimiters)
 # http://www.w3.org/TR/2000/WD-xml-2e-20000814#NT-Name
-name_re = re.compile(r'^[^\W\d][-.\w]*$')
+name_re = re.compile(r'^[^\W\d][-.\w]*\Z')
 
 class XigtMetadataMixin(object):
     """
-- 
2.43.0


From 95b49aa0dad30b6aa6c9aa510e93763264b0085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 56/71] fix: export tiers with unaligned items to LaTeX

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 9bd7184..053f14e 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -187,7 +187,7 @@ def align_tier(trellis, tier, depth):
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''), item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
-- 
2.43.0


From 0ab60b2299219870504d40571a0ff7c991086e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 57/71] fix: keep the order of unaligned items in LaTeX

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 053f14e..0108de4 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -206,7 +206,7 @@ def add_delayed(trellis, delay, pos, depth):
         _, delayed_items = delay.popleft()
         col = [[]] * (depth)
         col.append(delayed_items)
-        trellis.insert(pos, col)
+        trellis.insert(pos + num, col)
         logging.debug('Added delayed items at {}: {}'
                       .format(pos, delayed_items))
         num += 1
-- 
2.43.0


From a7f5d35cbc9d443ba51ea8a11f582dd2532a84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 58/71] fix: keep the spacing of unaligned Toolbox lines with
 multi-byte characters

---
 xigt/importers/toolbox.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 3727f3f..066b6c3 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -124,7 +124,7 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     options['tb_alignments'] = _make_tb_alignments(options) 
 
     with open(infile, 'rb') as in_fh, open(outfile, 'w') as out_fh:
-        in_lines = (_respace_decode(line, encoding) for line in in_fh)
+        in_lines = _decode_lines(in_fh, encoding, options['tb_alignments'])
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
         xc = XigtCorpus(igts=igts, mode='transient')
@@ -349,6 +349,20 @@ def _lower(s):
     return ''.join(c.lower() if len(c.lower()) == 1 else c for c in s)
 
 
+def _decode_lines(lines, encoding, tb_alignments):
+    # only the columns of aligned lines matter; leave other lines as they are
+    aligned = set(tb_alignments.keys()).union(tb_alignments.values())
+    mkr = None
+    for line in lines:
+        match = re.match(b'\\\\\\S+', line)
+        if match:
+            mkr = match.group().decode(encoding)
+        if mkr in aligned:
+            yield _respace_decode(line, encoding)
+        else:
+            yield line.rstrip(b'\n').decode(encoding)
+
+
 def _respace_decode(line, encoding):
     toks = []
     line = line.rstrip(b'\n')
-- 
2.43.0


From 57aafc2dff7250d8609ab915b06d4ab3de086f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 59/71] fix: let imprecise Toolbox segments end at the end of
 the word

---
 xigt/importers/toolbox.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 066b6c3..c9ddfd5 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -336,8 +336,7 @@ def align_word(tier_type, s, src_data):
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
                     if s == len(src_toks) - 1:  # if we are looking at the LAST token in a series, don't need to compare
                         return len(prev_toks), len(tgt_tok), 0  # end of segment = end of word
-                    tgt_tok = tgt_tok[len(prev_toks):]  # truncate prev tokens from target
-                    if tgt_tok.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
+                    if tgt_tok.startswith(new_tok, len(prev_toks)):  # left hand side of tgt_tok is the same as new_tok
                         return len(prev_toks), len(new_tok) + len(prev_toks),0  # end of segment = length of current tok
                 def_val = len(prev_toks)  # when no match is found, assume the rest of the word is the token
             return def_val, len(tgt_tok), -1
-- 
2.43.0


From 0eeb9ef76a09e73d49f24350016a1c96f4036922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 60/71] fix: take the replacement character for ODIN imports
 literally

---
 xigt/importers/odin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 87969d9..2ad8a84 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -229,7 +229,7 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
-    return invalid_char_re.sub(replacement_char, input)
+    return invalid_char_re.sub(lambda m: replacement_char, input)
 
 
 def replace_all_invalid_xml_chars(data, replacement_char):
-- 
2.43.0


From c4c3c9717babd4a858a99a5dc0a0e06c33d5251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 61/71] fix: resolve items without values as nothing in
 deprecated functions

---
 xigt/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index 99d321c..2a7c473 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -348,10 +348,10 @@ def resolve_alignment(tier, item_id, selection, plus=delim1, comma=delim2):
         return ''
     else:
         if selection == '':
-            return item.get_content()
+            return item.get_content() or ''
         spans = sel_re.findall(selection)
         parts = [plus if match == '+' else
                  comma if match == ',' else
-                 item.span(*map(int, match.split(':')))
+                 item.span(*map(int, match.split(':'))) or ''
                  for match in spans]
         return ''.join(parts)
-- 
2.43.0


From 48461abb1be65a25a902a604d759cea9a7352b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:16 +0000
Subject: [PATCH 62/71] fix: keep line breaks between references when splitting
 them

---
 xigt/ref.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index 2a7c473..5c14019 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -20,8 +20,9 @@ reflist_re = re.compile(r'^\s*([a-zA-Z][-.\w]*)(\s+[a-zA-Z][-.\w]*)*\s*$')
 
 robust_ref_re = re.compile(
     r'(^|.+?)'  # anything not an id (maybe space, maybe a delimiter)
-    r'($|[a-zA-Z][\-.\w]*)'  # id
-    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?'  # range
+    r'(\Z|[a-zA-Z][\-.\w]*)'  # id
+    r'(?:\Z|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?',  # range
+    re.DOTALL  # line breaks may separate ids, too
 )
 selection_re = re.compile(
     r'(^|[^-a-zA-Z:.])'  # start of string or delimiter
-- 
2.43.0


From 453146a1ce0ad36fb92b32e0458c2d2b183b8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:43 +0000
Subject: [PATCH 63/71] fix: split malformed references in linear time

---
 xigt/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index 5c14019..a048b33 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -21,7 +21,8 @@ reflist_re = re.compile(r'^\s*([a-zA-Z][-.\w]*)(\s+[a-zA-Z][-.\w]*)*\s*$')
 robust_ref_re = re.compile(
     r'(^|.+?)'  # anything not an id (maybe space, maybe a delimiter)
     r'(\Z|[a-zA-Z][\-.\w]*)'  # id
-    r'(?:\Z|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?',  # range
+    r'(?:\Z|\[([^-.:\d]?-?[.\d]+:-?[.\d]+'  # range
+    r'(?:(?:[^-.:\d]-?|-)[.\d]+:-?[.\d]+)*)\])?',
     re.DOTALL  # line breaks may separate ids, too
 )
 selection_re = re.compile(
-- 
2.43.0


From 103fa806812f45ec46c19d2f6039b3804885d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 64/71] fix: export corpora in any encoding

---
 xigt/scripts/xigt_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_export.py b/xigt/scripts/xigt_export.py
index d782433..eb22723 100755
--- a/xigt/scripts/xigt_export.py
+++ b/xigt/scripts/xigt_export.py
@@ -14,7 +14,7 @@ def run(infile, outpath, out_format, config=None):
     elif out_format == 'itsdb':
         import xigt.exporters.itsdb as exporter
     # elif ...
-    with open(infile, 'r') as in_fh:
+    with open(infile, 'rb') as in_fh:
         xc = xigtxml.load(in_fh, mode='transient')
         exporter.xigt_export(xc, outpath, config=cfg)
 
-- 
2.43.0


From 23dea383ffcea48393c87a31fd221128750b72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:12 +0000
Subject: [PATCH 65/71] fix: read and write UTF-8 files whatever the locale

---
 xigt/codecs/xigtjson.py     | 4 ++--
 xigt/exporters/latex.py     | 2 +-
 xigt/importers/odin.py      | 3 ++-
 xigt/importers/toolbox.py   | 3 ++-
 xigt/scripts/xigt_export.py | 2 +-
 xigt/scripts/xigt_import.py | 2 +-
 6 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index fdbc23e..9ef438b 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -13,7 +13,7 @@ def load(fh, mode='full'):
     if hasattr(fh, 'read'):
         return decode(json.load(fh), mode=mode)
     else:
-        with open(fh, 'r') as fh_:
+        with open(fh, 'r', encoding='utf-8') as fh_:
             return decode(json.load(fh_), mode=mode)
 
 
@@ -30,7 +30,7 @@ def dump(f, xc, encoding='utf-8', indent=2):
     if hasattr(f, 'write'):
         json.dump(data, f, indent=indent)
     else:
-        with open(f, 'w') as fh:
+        with open(f, 'w', encoding='utf-8') as fh:
             json.dump(data, fh, indent=indent)
 
 def dumps(xc, encoding='unicode', indent=2):
diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 0108de4..bdaede8 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -39,7 +39,7 @@ footer = '''
 
 def xigt_export(xc, outpath, config=None):
     config = prepare_config(config)
-    with open(outpath, 'w') as out_fh:
+    with open(outpath, 'w', encoding='utf-8') as out_fh:
         print(header, file=out_fh)
         for s in export_corpus(xc, config):
             print(s, file=out_fh)
diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 2ad8a84..7661dbf 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -79,7 +79,8 @@ def xigt_import(inpath, outpath, options=None):
 
 
 def _xigt_import(infile, outfile, options):
-    with open(infile, 'r') as in_fh, open(outfile, 'w') as out_fh:
+    with open(infile, 'r', encoding='utf-8') as in_fh, \
+            open(outfile, 'w', encoding='utf-8') as out_fh:
         igts = odin_igts(in_fh, options)
         xc = XigtCorpus(
             igts=igts,
diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index c9ddfd5..d71df5d 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -123,7 +123,8 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     # just use existing info to create marker-based alignment info
     options['tb_alignments'] = _make_tb_alignments(options) 
 
-    with open(infile, 'rb') as in_fh, open(outfile, 'w') as out_fh:
+    with open(infile, 'rb') as in_fh, \
+            open(outfile, 'w', encoding='utf-8') as out_fh:
         in_lines = _decode_lines(in_fh, encoding, options['tb_alignments'])
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
diff --git a/xigt/scripts/xigt_export.py b/xigt/scripts/xigt_export.py
index eb22723..dd40f1f 100755
--- a/xigt/scripts/xigt_export.py
+++ b/xigt/scripts/xigt_export.py
@@ -8,7 +8,7 @@ def run(infile, outpath, out_format, config=None):
     cfg = None
     if config:
         import json
-        cfg = json.load(open(config,'r'))
+        cfg = json.load(open(config, 'r', encoding='utf-8'))
     if out_format == 'latex':
         import xigt.exporters.latex as exporter
     elif out_format == 'itsdb':
diff --git a/xigt/scripts/xigt_import.py b/xigt/scripts/xigt_import.py
index a2fca18..1616381 100755
--- a/xigt/scripts/xigt_import.py
+++ b/xigt/scripts/xigt_import.py
@@ -15,7 +15,7 @@ def run(args):
         import xigt.importers.odin as importer
     # elif ...
     if config is not None:
-        config = json.load(open(config, 'r'))
+        config = json.load(open(config, 'r', encoding='utf-8'))
     importer.xigt_import(infile, outfile, config)
 
 def main(arglist=None):
-- 
2.43.0


From 36d1b5d682f41f51ac78c0cddc33041bf0bbd31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 66/71] fix: load bytes in the encoding they declare

---
 xigt/codecs/xigtxml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index cb82ada..a19fd9d 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -1,5 +1,5 @@
 
-from io import StringIO
+from io import BytesIO, StringIO
 from xml.etree.ElementTree import (
     tostring,
     iterparse,
@@ -56,8 +56,8 @@ def load(fh, mode='full'):
 
 
 def loads(s):
-    if hasattr(s, 'decode'): s = s.decode('utf-8')
-    return load(StringIO(s))
+    # the parser finds out the encoding of bytes
+    return load(BytesIO(s) if hasattr(s, 'decode') else StringIO(s))
 
 
 def dump(f, xc, encoding='utf-8', indent=2):
-- 
2.43.0


From ca6727162ef3b4f10156792d11fe530836a768df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:53 +0000
Subject: [PATCH 67/71] fix: encode JSON in several threads at once

---
 xigt/codecs/xigtjson.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 9ef438b..03cb195 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -193,14 +193,14 @@ def active_namespaces(obj, nsmap):
 
 # Encoding #############################################################
 
-inv_nsmap = {}
+def _inv_nsmap(nsmap):
+    return dict((uri, pre) for pre, uri in nsmap.items())
 
 def _make_obj(x, nscontext=None):
     if nscontext is None: nscontext = {}
     active_nsmap = dict(nscontext)
     active_nsmap.update(x.nsmap)
-    inv_nsmap.clear()
-    inv_nsmap.update((uri, pre) for pre, uri in active_nsmap.items())
+    inv_nsmap = _inv_nsmap(active_nsmap)
     nsmap = dict(ns for ns in active_nsmap.items()
                  if ns not in nscontext.items())
     obj = {}
@@ -243,6 +243,7 @@ def encode_meta(m, nscontext=None):
 
 def encode_metachild(mc, nscontext=None):
     obj, ns = _make_obj(mc, nscontext)
+    inv_nsmap = _inv_nsmap(ns)
     if obj.get('namespace') in inv_nsmap:
         obj['name'] = '{}:{}'.format(inv_nsmap[obj['namespace']], mc.name)
         del obj['namespace']
-- 
2.43.0


From 44ed9292b45dd1daca8b221e653d6f35d0a1e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 68/71] fix: an item whose reference cannot be resolved can be
 shown

repr(item) evaluates the item's references and raised an error if one of
them is dangling, undeclared, cyclic or malformed (or if the item is
detached), e.g. when debugging, or in 'xigt query --find //item'.
---
 xigt/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 0a71564..0134624 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -359,8 +359,12 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
         self.text = text
 
     def __repr__(self):
+        try:
+            value = self.value()
+        except Exception:  # e.g., its reference cannot be resolved
+            value = None
         return '<Item object (id: {}) with value "{}" at {}>'.format(
-            str(self.id or '--'), self.value(), str(id(self))
+            str(self.id or '--'), value, str(id(self))
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 4fbbe9f18db3f457b1c6e1c412f3794f06b9ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:18 +0000
Subject: [PATCH 69/71] fix: dumping XML to a text handle came before what was
 written earlier

---
 xigt/codecs/xigtxml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index a19fd9d..7690d03 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -66,6 +66,7 @@ def dump(f, xc, encoding='utf-8', indent=2):
             'Second argument of dump() must be an instance of XigtCorpus.'
         )
     if hasattr(f, 'buffer') and encoding != 'unicode':
+        f.flush()  # what was written before comes first
         f = f.buffer
     root = _build_corpus(xc)
     _indent(root, indent=indent)
-- 
2.43.0


From e9e3e934f6dc35e23c038227451302565ea713b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:33 +0000
Subject: [PATCH 70/71] fix: carriage returns in texts became line feeds when
 saved as XML

---
 xigt/codecs/xigtxml.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 7690d03..9b48841 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -4,7 +4,6 @@ from xml.etree.ElementTree import (
     tostring,
     iterparse,
     Element,
-    ElementTree,
     QName
 )
 # this is not part of the public API, so be careful about importing it
@@ -23,14 +22,26 @@ except ImportError:
 # (inefficiently, but oh well)
 try:
     tostring(Element('tag'), encoding='unicode')
-    _tostring = tostring
+    _tostring_raw = tostring
 except LookupError:
-    def _tostring(elem, encoding='unicode', **kwargs):
+    def _tostring_raw(elem, encoding='unicode', **kwargs):
         if encoding == 'unicode':
             return tostring(elem, encoding='utf-8', **kwargs).decode('utf-8')
         else:
             return tostring(elem, encoding=encoding, **kwargs)
 
+
+def _tostring(elem, encoding='unicode'):
+    # carriage returns in texts need to be escaped, as parsers would
+    # otherwise take them for line feeds
+    s = _tostring_raw(elem, encoding='unicode').replace('\r', '&#13;')
+    if encoding == 'unicode':
+        return s
+    if encoding.lower() not in ('utf-8', 'us-ascii'):
+        s = "<?xml version='1.0' encoding='{}'?>\n{}".format(encoding, s)
+    return s.encode(encoding, 'xmlcharrefreplace')
+
+
 # a little bit of mitigation for Python2/3 problems
 # try:
 #     basestring
@@ -70,7 +81,15 @@ def dump(f, xc, encoding='utf-8', indent=2):
         f = f.buffer
     root = _build_corpus(xc)
     _indent(root, indent=indent)
-    ElementTree(root).write(f, encoding=encoding)
+    data = _tostring(root, encoding=encoding)
+    if hasattr(f, 'write'):
+        f.write(data)
+    elif encoding == 'unicode':
+        with open(f, 'w', encoding='utf-8') as fh:
+            fh.write(data)
+    else:
+        with open(f, 'wb') as fh:
+            fh.write(data)
 
 
 def dumps(xc, encoding='unicode', indent=2):
-- 
2.43.0


From 59619ef1844991d34fdd74635a07a0bca1331d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:33 +0000
Subject: [PATCH 71/71] fix: replacing an object whose id had been changed

---
 xigt/mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 223e472..555e72f 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -73,9 +73,10 @@ class XigtContainerMixin(list):
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
-        if obj.id is None or obj.id != cur_obj.id:
+        indexed = self._dict.get(cur_obj.id) is cur_obj  # not if renamed
+        if obj.id is None or obj.id != cur_obj.id or not indexed:
             self._create_id_mapping(obj)  # fails if the id is taken
-            if cur_obj.id is not None:
+            if indexed:
                 del self._dict[cur_obj.id]
         else:
             self._dict[obj.id] = obj
-- 
2.43.0

