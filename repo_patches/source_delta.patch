From f3d5018f697f7c62916d454c77ef71186224ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 01/51] fix: resolve relative references of documents at the
 root of a host

normalize_jr produced 'http://host//ext.json' for a reference relative to
'http://host/swagger.json'.
---
 pyopenapi/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 64ecc2c..8bccc55 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -266,8 +266,9 @@ def normalize_jr(json_ref, url=None):
             # it's the path of relative file
             url_part = six.moves.urllib.parse.urlunparse(
                 url_parsed[:2] +
-                ('/'.join([os.path.dirname(url_parsed.path), url_part]),
-                 ) + url_parsed[3:])
+                ('/'.join([
+                    os.path.dirname(url_parsed.path).rstrip('/'), url_part
+                ]), ) + url_parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From 891f36ec2c64d8675023b709f935aa0ad3def1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 02/51] fix: compare JSON pointers token by token in
 SpecObjStore

'#/definitions/User' is not a prefix of '#/definitions/UserGroup': the
lookup of cached objects, the collection of objects under a pointer and the
relocation of pointers compared plain strings.
---
 pyopenapi/migration/store.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6884020..345db1c 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -14,6 +14,11 @@ from .spec import _Base
 logger = logging.getLogger(__name__)
 
 
+def _is_prefix(prefix, jp):
+    """ check if 'prefix' is made up of the leading tokens of 'jp' """
+    return not prefix or jp == prefix or jp.startswith(prefix + '/')
+
+
 class SpecObjStore(object):
     """ cache of spec objects
     """
@@ -51,7 +56,7 @@ class SpecObjStore(object):
 
         # try to find a 'jp' with common prefix with input under 'url'
         for path, cache in six.iteritems(url_cache):
-            if jp.startswith(path) and spec_version in cache:
+            if _is_prefix(path, jp) and spec_version in cache:
                 return cache[spec_version].resolve(
                     utils.jp_split(jp[len(path):])[1:])
 
@@ -72,7 +77,7 @@ class SpecObjStore(object):
 
         ret = {}
         for path, cache in six.iteritems(url_cache):
-            if path.startswith(jp) and spec_version in cache:
+            if _is_prefix(jp, path) and spec_version in cache:
                 ret[path[len(jp) + 1:]] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
@@ -134,7 +139,7 @@ class SpecObjStore(object):
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
                 # find the longest prefix in from_
-                if not remain_jp.startswith(from_):
+                if not _is_prefix(from_, remain_jp):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From f13c0f3efc46e52d9714315ed57be1e1f1857b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 03/51] fix: keep the remainder of an override pointer encoded

Decoding it at every level lost objects whose name contains '/' or '~', for
example every path: an object resolved before its document was loaded was
duplicated instead of being reused.
---
 pyopenapi/migration/spec/obj.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index bd81c0a..655aba4 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -139,11 +139,13 @@ class _Base(object):
 
         # setup override
         for k, val in six.iteritems(override or {}):
-            tokens = jp_split(k, 1)
+            # the reminder stays encoded, it would be
+            # split again by the child it's passed to.
+            head, _, reminder = k.partition('/')
+            tokens = jp_split(head)
             if tokens:
                 self.override.setdefault(tokens[0], {}).update({
-                    tokens[1] if len(tokens) > 1 else '':
-                    val
+                    reminder: val
                 })
             else:
                 raise Exception(
-- 
2.43.0


From 9f0f4770734482931a0b5b376a75e2307a2cbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 04/51] fix: 'examples' of a Media Type Object is a map

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 503552a..482363e 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -311,7 +311,7 @@ class MediaType(Base2_v3_0_0):
 
     __children__ = {
         'schema': dict(child_builder=SchemaOrReference),
-        'examples': dict(child_builder=ExampleOrReference),
+        'examples': dict(child_builder=map_(ExampleOrReference)),
         'encoding': dict(child_builder=map_(Encoding)),
     }
 
-- 
2.43.0


From e61dea5e14fbbbde0dfcc17747a4e50f020a4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 05/51] fix: integer keys of yaml documents are strings

Response codes written as integers in a yaml document crashed the migration
and could not be reached by JSON pointers.
---
 pyopenapi/migration/getter.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5763156..c2a0b5d 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -15,6 +15,32 @@ from ..utils import patch_path
 logger = logging.getLogger(__name__)
 
 
+def _stringify_keys(root):
+    """ integer keys, ex. response codes, are legal in yaml but not in json,
+    and a JSON pointer would never find them. Note that objects in yaml might
+    be shared (or even be recursive) by alias.
+    """
+    objs, visited = [root], set()
+    while objs:
+        obj = objs.pop()
+        if id(obj) in visited:
+            continue
+        visited.add(id(obj))
+
+        if isinstance(obj, dict):
+            items = list(six.iteritems(obj))
+            obj.clear()
+            for k, val in items:
+                is_int = isinstance(
+                    k, six.integer_types) and not isinstance(k, bool)
+                obj[str(k) if is_int else k] = val
+                objs.append(val)
+        elif isinstance(obj, list):
+            objs.extend(obj)
+
+    return root
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -48,7 +74,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = _stringify_keys(yaml.load(obj))
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
-- 
2.43.0


From f46b855c6beb52407135214f906ee519a9dd1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 06/51] fix: load and migrate the global 'security' of Swagger
 2.0

It is a list of Security Requirement Objects, not a list of lists.
---
 pyopenapi/migration/versions/v2_0/objects.py                 | 2 +-
 .../migration/versions/v2_0/scanner/upgrade/converters.py    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 9605d74..a27dccf 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -384,7 +384,7 @@ class Swagger(BaseObj_v2_0):
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
         'securityDefinitions': dict(child_builder=map_(SecurityScheme)),
-        'security': dict(child_builder=list_(list_(is_str))),
+        'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9729b35..9aa88ed 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -624,7 +624,7 @@ def to_openapi(obj, path):
 
     # security
     if obj.security:
-        ret['security'] = obj.security
+        ret['security'] = obj.security.dump()
 
     # tag
     if obj.tags:
@@ -666,7 +666,8 @@ def to_openapi(obj, path):
                         request_bodies = components.setdefault(
                             'requestBodies', {})
                     request_bodies[k] = param
-                    param_reloc[k] = '#/components/requestBodies/{}'.format(k)
+                    param_reloc[jp_compose(k)] = jp_compose(
+                        k, base='#/components/requestBodies')
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-- 
2.43.0


From 0d64cacb87deab5e8033ba2f6e172b40d44f481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 07/51] fix: resolve a Reference Object which is loaded on its
 own

The target of a reference in an external document might be a reference
again. It was cached without its target, and the chain was broken there.
---
 pyopenapi/migration/versions/v2_0/objects.py           |  6 +++++-
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   |  7 +++++++
 pyopenapi/migration/versions/v3_0_0/objects.py         | 10 ++++++++--
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py |  7 +++++++
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index a27dccf..14f036f 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -18,7 +18,9 @@ def is_str(spec, path, override):
 def if_not_ref_else(class_builder):
     def _f(spec, path, override):
         if '$ref' in spec:
-            return Reference(spec, path=path, override=override)
+            ret = Reference(spec, path=path, override=override)
+            ret.expected = _f
+            return ret
         return class_builder(spec, path=path, override=override)
 
     _f.__name__ = 'if_not_ref_else_' + class_builder.__name__
@@ -49,6 +51,8 @@ class Reference(BaseObj_v2_0):
 
     __internal__ = {
         'ref': dict(key='$ref', builder=rename),
+        # builder of the object to be referenced
+        'expected': dict(),
     }
 
 
diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 2a66fe1..b2d3d0d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -59,6 +59,13 @@ class Resolve(object):
     def __init__(self, app):
         self.app = app
 
+    @Disp.register([Reference])
+    def _reference(self, path, obj):
+        # a Reference Object loaded on its own, ex. a reference to another
+        # reference in an external document, is not owned by any object below.
+        if path == '#' and obj.expected:
+            _resolve(obj, obj.expected, ReferenceAttributeGroup, self.app, path)
+
     @Disp.register([Schema])
     def _schema(self, path, obj):
         _resolve(obj, Schema, SchemaAttributeGroup, self.app, path)
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 482363e..10e1056 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -16,13 +16,19 @@ class Reference(Base2_v3_0_0):
         '$ref': dict(required=True, readonly=False),
     }
 
-    __internal__ = {'ref': dict(key='$ref', builder=rename)}
+    __internal__ = {
+        'ref': dict(key='$ref', builder=rename),
+        # builder of the object to be referenced
+        'expected': dict(),
+    }
 
 
 def if_not_ref_else(class_builder):
     def _f(spec, path, override):
         if '$ref' in spec:
-            return Reference(spec, path=path, override=override)
+            ret = Reference(spec, path=path, override=override)
+            ret.expected = _f
+            return ret
         return class_builder(spec, path=path, override=override)
 
     _f.__name__ = 'if_not_ref_else_' + class_builder.__name__
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 77e7170..b0d3132 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -79,6 +79,13 @@ class Resolve(object):
     def __init__(self, app):
         self.app = app
 
+    @Disp.register([Reference])
+    def _reference(self, path, obj):
+        # a Reference Object loaded on its own, ex. a reference to another
+        # reference in an external document, is not owned by any object below.
+        if path == '#' and obj.expected:
+            _resolve(obj, obj.expected, self.app, path)
+
     @Disp.register([PathItem])
     def _path_item(self, path, obj):
         _resolve(obj, PathItem, self.app, path)
-- 
2.43.0


From 0c8f8df032cecb9c7d515ce32904d08cc1c4f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 08/51] fix: 'content' is also a child of Header Object

It was attached to Parameter after Header had been derived from it, thus
references below the content of a header were never resolved.
---
 pyopenapi/migration/versions/v3_0_0/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 10e1056..b635a0e 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -322,7 +322,9 @@ class MediaType(Base2_v3_0_0):
     }
 
 
-Parameter.attach_field('content', builder=child, child_builder=map_(MediaType))
+# children attached to a class won't be inherited by existing subclasses
+for _cls in (Parameter, Header):
+    _cls.attach_field('content', builder=child, child_builder=map_(MediaType))
 
 
 class RequestBody(Base2_v3_0_0):
-- 
2.43.0


From 0a83435171a182a00dc2b6fc8bdde74c90c63c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 09/51] fix: migrate a Schema Object with $ref to a Reference
 Object

When a reference in an external 2.0 document targets another reference, the
migrated object was an empty Schema without any target.
---
 pyopenapi/migration/versions/v3_0_0/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 597c4e1..c4356b9 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -34,7 +34,7 @@ def upgrade(obj, app, jref):
             ret = objects.Info(
                 converters.to_info(ret, jp), path=jp, override=override)
         elif isinstance(ret, Schema):
-            ret = objects.Schema(
+            ret = objects.SchemaOrReference(
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
-- 
2.43.0


From df434d87f9bf20dae9f3ef6ff3bd69db62348e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 10/51] fix: a failed load consumes nothing from the queue of a
 Getter

---
 pyopenapi/migration/getter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index c2a0b5d..ac13bf9 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -58,7 +58,7 @@ class Getter(six.Iterator):
         if not self.urls:
             raise StopIteration
 
-        obj = self.load(self.urls.pop(0))
+        obj = self.load(self.urls[0])
 
         # make sure data is string type
         if isinstance(obj, dict):
@@ -79,6 +79,9 @@ class Getter(six.Iterator):
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
 
+        # it's delivered, a failed one should be able to be loaded again.
+        self.urls.pop(0)
+
         return obj
 
     def load(self, path):
-- 
2.43.0


From 5d53301520ee6bc5554d12a99629ac8fb9cf68fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 11/51] fix: LocalGetter reads files as utf-8, whatever the
 locale is

All other getters already decode as utf-8.
---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index ac13bf9..551d9e0 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import io
 import json
 import os
 import logging
@@ -147,7 +148,7 @@ class LocalGetter(Getter):
         logger.info('final path to load: [%s]', path)
 
         ret = None
-        with open(path, 'r') as file_handle:
+        with io.open(path, 'r', encoding='utf-8') as file_handle:
             ret = file_handle.read()
         return ret
 
-- 
2.43.0


From b13ab133ee6829c13166f698df43f680b5ae5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 12/51] fix: Resolver refuses to cache something which is not a
 document

Plain text, ex. the error page of a proxy, is a legal scalar in yaml. It was
cached and the url was unusable from then on.
---
 pyopenapi/migration/resolve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index bc04f24..859955c 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -64,6 +64,9 @@ class Resolver(object):
                 getter = getter(local_url)
 
             obj = six.advance_iterator(getter)
+            if obj and not isinstance(obj, (dict, list)):
+                # ex. an error page is a legal (scalar) yaml document
+                raise ValueError('not a json/yaml document: {0}'.format(jref))
             self.__cache[url] = obj if obj else None
 
         if obj:
-- 
2.43.0


From efc743766b44299795b65adf6f173a5715e8caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 13/51] fix: do not edit the documents kept by Resolver

Spec objects are built on top of the loaded documents, and migration patches
the $ref in them. A Resolver shared by two App, or a dict provided by a
getter, was changed by that.
---
 pyopenapi/migration/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3718738..6b02b31 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -3,6 +3,7 @@
 from __future__ import absolute_import
 
 import abc
+import copy
 import logging
 import pkgutil
 import weakref
@@ -123,7 +124,9 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
     def load_obj(self, jref, getter=None, parser=None, remove_dummy=False):
         """ load a object(those in spec._version_.objects) from a JSON reference.
         """
-        src_spec = self.__resolver.resolve(jref, getter)
+        # documents are shared via resolver, but spec objects would be edited
+        # (ex. $ref are patched when migrating), so never work on the original.
+        src_spec = copy.deepcopy(self.__resolver.resolve(jref, getter))
 
         # get root document to check its swagger version.
         obj = None
@@ -155,7 +158,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
             cached_apis = {}
             for url, name in urls:
-                resource_spec = self.resolver.resolve(url, getter)
+                resource_spec = copy.deepcopy(
+                    self.resolver.resolve(url, getter))
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-- 
2.43.0


From 28584bdf9cc3d3830ca7f0311ca72a1d43d340aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 14/51] fix: a failed operation leaves no incomplete object in
 cache

When a document referenced by the loaded one could not be fetched, the half
resolved objects stayed in the cache: trying again returned objects whose
references have no target, or failed with unrelated errors.
---
 pyopenapi/migration/base.py                   | 40 +++++++++++++++++++
 pyopenapi/migration/store.py                  | 14 +++++++
 .../versions/v2_0/scanner/resolve.py          |  3 --
 3 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 6b02b31..1a5244a 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 
 import abc
 import copy
+import functools
 import logging
 import pkgutil
 import weakref
@@ -21,6 +22,30 @@ from .versions.v3_0_0.objects import OpenApi
 logger = logging.getLogger(__name__)
 
 
+def _atomic(func):
+    """ An operation loads and migrates lots of objects recursively. When it
+    fails halfway, those objects are incomplete and should not be found by
+    later operations, so the state before the outermost operation is restored.
+    """
+
+    @functools.wraps(func)
+    def _wrapped(self, *args, **kwargs):
+        if self._ongoing:
+            return func(self, *args, **kwargs)
+
+        state = self._save_state()
+        try:
+            self._ongoing = True
+            return func(self, *args, **kwargs)
+        except BaseException:
+            self._restore_state(state)
+            raise
+        finally:
+            self._ongoing = False
+
+    return _wrapped
+
+
 class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
     """
     """
@@ -69,6 +94,18 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         # allow init App-wised SCOPE_SEPARATOR
         self.__sep = sep
 
+        # if we are inside an operation
+        self._ongoing = False
+
+    def _save_state(self):
+        return (self.__store.snapshot(), self.__original_spec_version,
+                self.__current_spec_version)
+
+    def _restore_state(self, state):
+        (snapshot, self.__original_spec_version,
+         self.__current_spec_version) = state
+        self.__store.restore(snapshot)
+
     @property
     def sep(self):
         """ separator used by pyswager.utils.ScopeDict
@@ -121,6 +158,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         """
         return self.__store
 
+    @_atomic
     def load_obj(self, jref, getter=None, parser=None, remove_dummy=False):
         """ load a object(those in spec._version_.objects) from a JSON reference.
         """
@@ -204,6 +242,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         return obj
 
+    @_atomic
     def migrate_obj(self, obj, jref, spec_version):
         """ migrate an object(those in spec._version_.objects)
         """
@@ -266,6 +305,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         return obj
 
+    @_atomic
     def resolve_obj(self,
                     jref,
                     from_spec_version,
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 345db1c..6df8582 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
 import logging
 import os
 from collections import OrderedDict
@@ -30,6 +31,19 @@ class SpecObjStore(object):
             or migratable_spec_versions \
             or utils.get_supported_versions(os.path.join('migration', 'versions'), is_pkg=True)
 
+    def snapshot(self):
+        """ take a snapshot, objects in cache are not duplicated
+        """
+        return (dict((url, dict((jp, dict(cache))
+                                for jp, cache in six.iteritems(url_cache)))
+                     for url, url_cache in six.iteritems(self.__spec_objs)),
+                copy.deepcopy(self.__routes))
+
+    def restore(self, snapshot):
+        """ restore to the state when that snapshot was taken
+        """
+        self.__spec_objs, self.__routes = snapshot
+
     #
     # spec object cache
     #
diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index b2d3d0d..e4b3517 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -30,9 +30,6 @@ def _resolve(obj, expected, attr_group_cls, app, path):
             str(type(obj)), path))
 
     attrs = obj.get_attrs('migration', attr_group_cls)
-    if attrs.ref_obj:
-        return
-
     if not attrs.normalized_ref:
         raise JsonReferenceError('empty normalized_ref for {} in {}'.format(
             obj.ref, path))
-- 
2.43.0


From dfa10768af2a58964bf8b77d4f49661cbdfcd58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 15/51] fix: migrating an object twice returns the object
 migrated before

Migrating a Swagger object to 3.0.0 again raised 'invalid token found for
"override"', and other objects replaced those already handed out.
---
 pyopenapi/migration/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 1a5244a..f2e68a9 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -280,6 +280,17 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 raise Exception('unable to load {} for migration'.format(
                     migration_module_path))
 
+            # this object might be migrated already, then it's that
+            # object which is handed out, and it can't be replaced.
+            if version != from_spec_version:
+                migrated_jp = self.spec_obj_store.relocate(
+                    url, relocated_jp, from_spec_version, version)
+                migrated = self.spec_obj_store.get(url, migrated_jp, version)
+                if migrated is not None:
+                    obj, relocated_jp = migrated, migrated_jp
+                    from_spec_version = version
+                    continue
+
             # preform migration
             obj, reloc = migration_module.upgrade(obj, self, jref)
 
-- 
2.43.0


From 2f172024907dbaf910430e275b889f3048f5ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 16/51] fix: path-level parameters when migrating to 3.0.0

- form parameters of one operation showed up in the request bodies of its
  sibling operations, all of them shared the body of the path item.
- a pointer to a parameter behind a body parameter was not relocated, and
  found another parameter.
---
 .../versions/v2_0/scanner/upgrade/converters.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9aa88ed..6470871 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
 import six
 
 from ......utils import jp_compose, deref
@@ -552,6 +553,11 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
                     parameters = ret.setdefault('parameters', [])
                 parameters.append(new_p)
 
+                # those after a body parameter are moved forward
+                if len(parameters) - 1 != index:
+                    reloc['parameters/{}'.format(
+                        index)] = 'parameters/{}'.format(len(parameters) - 1)
+
     # operations
     for method in (
             'get',
@@ -564,9 +570,10 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
     ):
         operation = getattr(obj, method, None)
         if operation:
+            # each operation would add its own parameters to the body
             ret[method] = to_operation(
                 operation,
-                body,
+                copy.deepcopy(body),
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From 953afa955cfbfa85cea8d23107529f025e3487e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 17/51] fix: get_children always lists current children

Each object kept a copy of the children found inside its maps and lists, and
these copies were outdated once an entry of those containers was assigned or
appended, or a child was assigned. An interrupted listing was kept, too.
---
 pyopenapi/migration/spec/obj.py | 39 +++------------------------------
 1 file changed, 3 insertions(+), 36 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 655aba4..988c762 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -135,8 +135,6 @@ class _Base(object):
         # inside 'override':
         #   (first token of jp_split) => (reminder of jp_split, value)
 
-        self.children_cache = {}
-
         # setup override
         for k, val in six.iteritems(override or {}):
             # the reminder stays encoded, it would be
@@ -160,15 +158,6 @@ class _Base(object):
         """
         return k in self.spec
 
-    def get_children_cache(self):
-        return self.children_cache
-
-    def invalidate_children_cache(self):
-        self.children_cache = {}
-
-    def update_children_cache(self, cache):
-        self.children_cache = cache
-
     def get_parent(self):
         """ get parent object
         :return: the parent object.
@@ -286,10 +275,7 @@ class _List(_Base):
         return []
 
     def get_children(self):
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
+        ret = {}
         for idx, obj in enumerate(self.__elm):
             if isinstance(obj, Base2Obj):
                 ret[str(idx)] = obj
@@ -301,7 +287,6 @@ class _List(_Base):
                 for name in children:
                     ret[jp_compose([str(idx), name])] = children[name]
 
-        self.update_children_cache(ret)
         return ret
 
     def __iter__(self):
@@ -318,13 +303,9 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
-        self.invalidate_children_cache()
-
         return self.__elm.append(obj)
 
     def extend(self, other):
-        self.invalidate_children_cache()
-
         return self.__elm.extend(other)
 
 
@@ -438,10 +419,7 @@ class _Map(_Base):
         return self.__elm.keys()
 
     def get_children(self):
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
+        ret = {}
         for name, obj in six.iteritems(self.__elm):
             if isinstance(obj, Base2Obj):
                 ret[name] = obj
@@ -453,15 +431,12 @@ class _Map(_Base):
                 for key in children:
                     ret[jp_compose([name, key])] = children[key]
 
-        self.update_children_cache(ret)
         return ret
 
     def __getitem__(self, key):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
-        self.invalidate_children_cache()
-
         self.__elm[key] = obj
 
     def __contains__(self, elm):
@@ -585,8 +560,6 @@ class Base2Obj(_Base):
                 if obj:
                     setattr(self, name, obj)
 
-        self.invalidate_children_cache()
-
     def compare(self, other, base=None):
         """ comparison, will return the first difference, mainly used for testing """
 
@@ -676,8 +649,6 @@ class Base2Obj(_Base):
         if hasattr(obj, 'set_parent'):
             obj.set_parent(self)
 
-        self.invalidate_children_cache()
-
     @classmethod
     def attach_field(cls, name, **field_descriptor):
         desc = copy.copy(field_descriptor)
@@ -701,10 +672,7 @@ class Base2Obj(_Base):
         """ get children objects
         :rtype: a dict of children {child_name: child_object}
         """
-        ret = self.get_children_cache()
-        if ret:
-            return ret
-
+        ret = {}
         for name in self.__children__:
             obj = getattr(self, name)
             if not obj:
@@ -719,7 +687,6 @@ class Base2Obj(_Base):
                 for child_name in children:
                     ret[jp_compose([name, child_name])] = children[child_name]
 
-        self.update_children_cache(ret)
         return ret
 
     def get_attrs(self, namespace, group_cls=None):
-- 
2.43.0


From 256c7a42ada93604ea430b933f6a9b429fd1213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 18/51] fix: names from get_children are JSON pointers encoded
 exactly once

The name of a child in nested containers, ex. Callback Object, was encoded
once for every level, including the separator.
---
 pyopenapi/migration/spec/obj.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 988c762..f4a4a9f 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -285,7 +285,8 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    ret[jp_compose([str(idx), name])] = children[name]
+                    # 'name' is already encoded
+                    ret['/'.join([str(idx), name])] = children[name]
 
         return ret
 
@@ -421,6 +422,7 @@ class _Map(_Base):
     def get_children(self):
         ret = {}
         for name, obj in six.iteritems(self.__elm):
+            name = jp_compose(name)
             if isinstance(obj, Base2Obj):
                 ret[name] = obj
             elif isinstance(obj, (
@@ -429,7 +431,8 @@ class _Map(_Base):
             )):
                 children = obj.get_children()
                 for key in children:
-                    ret[jp_compose([name, key])] = children[key]
+                    # 'key' is already encoded
+                    ret['/'.join([name, key])] = children[key]
 
         return ret
 
@@ -685,7 +688,8 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    ret[jp_compose([name, child_name])] = children[child_name]
+                    # 'child_name' is already encoded
+                    ret['/'.join([name, child_name])] = children[child_name]
 
         return ret
 
-- 
2.43.0


From 840305defbf075f1491981ddcde09a4462084b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 19/51] fix: follow $ref of path items in documents not
 migrated yet

When merging path items, an item in a document which is loaded but not
migrated has no normalized reference, and members behind it were lost.
---
 pyopenapi/migration/versions/comm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/comm.py b/pyopenapi/migration/versions/comm.py
index 5f761a5..c70c08a 100644
--- a/pyopenapi/migration/versions/comm.py
+++ b/pyopenapi/migration/versions/comm.py
@@ -2,7 +2,7 @@
 
 from __future__ import absolute_import
 from ...errs import CycleDetectionError
-from ...utils import CycleGuard
+from ...utils import CycleGuard, jr_split, normalize_jr
 
 
 def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
@@ -38,6 +38,10 @@ def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
         final.merge_children(resolved)
 
         attrs = resolved.get_attrs('migration', attr_group_cls)
-        cur_ref = attrs.normalized_ref
+        next_ref = attrs.normalized_ref
+        if not next_ref and resolved.ref:
+            # it belongs to a document which is loaded but not migrated yet
+            next_ref = normalize_jr(resolved.ref, jr_split(cur_ref)[0])
+        cur_ref = next_ref
 
     return final
-- 
2.43.0


From 90dd12dbd3f49feaaebf5cea0dec51535bdd7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 20/51] fix: parts loaded earlier are adopted by a piece loaded
 later

Only complete documents adopted the objects loaded earlier, a piece of a
document (ex. a definition, loaded via a reference) duplicated them. And
objects not adopted were removed from cache with 'remove_dummy', references
to them were dead.
---
 pyopenapi/migration/base.py  | 12 ++++++++++--
 pyopenapi/migration/store.py | 15 +++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index f2e68a9..f2b9b8e 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -180,8 +180,12 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         if obj:
             return obj
 
+        # parts of this object might be loaded (and handed out) already. When
+        # there is no version, this object is part of a document, too.
+        override_version = version or self.__original_spec_version
         override = self.spec_obj_store.get_under(
-            url, jp, version, remove=remove_dummy)
+            url, jp, override_version, remove=False)
+        override_url, override_jp = url, jp
         if version == '1.2':
             obj = ResourceListing(src_spec, jref, {})
 
@@ -220,7 +224,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             obj = OpenApi(src_spec, jref, override)
 
         elif version is None and parser:
-            obj = parser(src_spec, jref, {})
+            obj = parser(src_spec, jref, override)
             version = obj.__swagger_version__ if hasattr(
                 obj, '__swagger_version__') else version
         else:
@@ -231,6 +235,10 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         if not obj:
             raise Exception('Unable to parse object from {0}'.format(jref))
 
+        if remove_dummy:
+            self.spec_obj_store.remove_adopted(
+                obj, override_url, override_jp, override_version)
+
         logger.info('version: %s', version)
 
         # cache obj before migration, or we may load an object multiple times when resolve
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6df8582..cebbf7a 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -98,6 +98,21 @@ class SpecObjStore(object):
 
         return ret
 
+    def remove_adopted(self, obj, url, jp, spec_version):
+        """ remove those objects under 'jp' which became part of 'obj', others
+        (ex. those under vendor extensions) are only kept alive by this cache.
+        """
+        for path, cache in six.iteritems(self.__spec_objs.get(url, {})):
+            if not _is_prefix(jp, path) or spec_version not in cache:
+                continue
+
+            try:
+                child = obj.resolve(utils.jp_split(path[len(jp):])[1:])
+            except (AttributeError, KeyError, IndexError, ValueError):
+                continue
+            if child is cache[spec_version]:
+                del cache[spec_version]
+
     def get_until(self, url, jp, spec_version, until=None):
         """ get migrated version of one object until 'some' version
         """
-- 
2.43.0


From df6bc60ebf0be84a44a62e2e14de623abd331689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 21/51] fix: an empty route does not hide routes of its
 container

A part of a 2.0 document migrated before the whole document had a route
without relocations, and JSON pointers under it were never relocated.
---
 pyopenapi/migration/store.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index cebbf7a..9461c84 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -167,6 +167,10 @@ class SpecObjStore(object):
         while True:
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
+                # nothing under it is relocated by itself, ex. a definition
+                # migrated alone, but might be by those above it.
+                if not to_:
+                    continue
                 # find the longest prefix in from_
                 if not _is_prefix(from_, remain_jp):
                     continue
-- 
2.43.0


From f1d0763a6884f4e37c58c4a56ca2b47f2f21aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 22/51] fix: encode override pointers once per level

Every object decodes the reminder of an override pointer before passing it on.
Names which contain '/' or '~', for example every path, were lost: an object
resolved before its document was loaded was duplicated instead of being reused.

This replaces earlier changes of pyopenapi/migration/spec, which is left as it was.
---
 pyopenapi/migration/spec/obj.py | 57 ++++++++++++++++++++++++---------
 pyopenapi/migration/store.py    |  7 +++-
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index f4a4a9f..bd81c0a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -135,15 +135,15 @@ class _Base(object):
         # inside 'override':
         #   (first token of jp_split) => (reminder of jp_split, value)
 
+        self.children_cache = {}
+
         # setup override
         for k, val in six.iteritems(override or {}):
-            # the reminder stays encoded, it would be
-            # split again by the child it's passed to.
-            head, _, reminder = k.partition('/')
-            tokens = jp_split(head)
+            tokens = jp_split(k, 1)
             if tokens:
                 self.override.setdefault(tokens[0], {}).update({
-                    reminder: val
+                    tokens[1] if len(tokens) > 1 else '':
+                    val
                 })
             else:
                 raise Exception(
@@ -158,6 +158,15 @@ class _Base(object):
         """
         return k in self.spec
 
+    def get_children_cache(self):
+        return self.children_cache
+
+    def invalidate_children_cache(self):
+        self.children_cache = {}
+
+    def update_children_cache(self, cache):
+        self.children_cache = cache
+
     def get_parent(self):
         """ get parent object
         :return: the parent object.
@@ -275,7 +284,10 @@ class _List(_Base):
         return []
 
     def get_children(self):
-        ret = {}
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
         for idx, obj in enumerate(self.__elm):
             if isinstance(obj, Base2Obj):
                 ret[str(idx)] = obj
@@ -285,9 +297,9 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    # 'name' is already encoded
-                    ret['/'.join([str(idx), name])] = children[name]
+                    ret[jp_compose([str(idx), name])] = children[name]
 
+        self.update_children_cache(ret)
         return ret
 
     def __iter__(self):
@@ -304,9 +316,13 @@ class _List(_Base):
         return self.__elm == other
 
     def append(self, obj):
+        self.invalidate_children_cache()
+
         return self.__elm.append(obj)
 
     def extend(self, other):
+        self.invalidate_children_cache()
+
         return self.__elm.extend(other)
 
 
@@ -420,9 +436,11 @@ class _Map(_Base):
         return self.__elm.keys()
 
     def get_children(self):
-        ret = {}
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
         for name, obj in six.iteritems(self.__elm):
-            name = jp_compose(name)
             if isinstance(obj, Base2Obj):
                 ret[name] = obj
             elif isinstance(obj, (
@@ -431,15 +449,17 @@ class _Map(_Base):
             )):
                 children = obj.get_children()
                 for key in children:
-                    # 'key' is already encoded
-                    ret['/'.join([name, key])] = children[key]
+                    ret[jp_compose([name, key])] = children[key]
 
+        self.update_children_cache(ret)
         return ret
 
     def __getitem__(self, key):
         return self.__elm[key]
 
     def __setitem__(self, key, obj):
+        self.invalidate_children_cache()
+
         self.__elm[key] = obj
 
     def __contains__(self, elm):
@@ -563,6 +583,8 @@ class Base2Obj(_Base):
                 if obj:
                     setattr(self, name, obj)
 
+        self.invalidate_children_cache()
+
     def compare(self, other, base=None):
         """ comparison, will return the first difference, mainly used for testing """
 
@@ -652,6 +674,8 @@ class Base2Obj(_Base):
         if hasattr(obj, 'set_parent'):
             obj.set_parent(self)
 
+        self.invalidate_children_cache()
+
     @classmethod
     def attach_field(cls, name, **field_descriptor):
         desc = copy.copy(field_descriptor)
@@ -675,7 +699,10 @@ class Base2Obj(_Base):
         """ get children objects
         :rtype: a dict of children {child_name: child_object}
         """
-        ret = {}
+        ret = self.get_children_cache()
+        if ret:
+            return ret
+
         for name in self.__children__:
             obj = getattr(self, name)
             if not obj:
@@ -688,9 +715,9 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    # 'child_name' is already encoded
-                    ret['/'.join([name, child_name])] = children[child_name]
+                    ret[jp_compose([name, child_name])] = children[child_name]
 
+        self.update_children_cache(ret)
         return ret
 
     def get_attrs(self, namespace, group_cls=None):
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 9461c84..90bee5c 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -92,7 +92,12 @@ class SpecObjStore(object):
         ret = {}
         for path, cache in six.iteritems(url_cache):
             if _is_prefix(jp, path) and spec_version in cache:
-                ret[path[len(jp) + 1:]] = cache[spec_version]
+                # every object on the way decodes the reminder before passing
+                # it to its child, tokens should be encoded once per level.
+                tokens = path[len(jp) + 1:].split('/')
+                for level, token in enumerate(tokens):
+                    tokens[level] = token.replace('~', '~' + '0' * level)
+                ret['/'.join(tokens)] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
 
-- 
2.43.0


From 5d354dfd8b12be5b8194b619511e9e3c8e86f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 23/51] fix: traverse current children of an object

The listing kept by each object was outdated once one of its containers was
edited, and incomplete when it was interrupted (ex. KeyboardInterrupt): later
operations on a loaded object skipped references without any error. Names of
children inside nested containers were encoded more than once, too.
---
 pyopenapi/migration/scan.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/scan.py b/pyopenapi/migration/scan.py
index 2f3e19a..bba7249 100644
--- a/pyopenapi/migration/scan.py
+++ b/pyopenapi/migration/scan.py
@@ -3,7 +3,29 @@
 from __future__ import absolute_import
 import six
 
-from .spec import Base2Obj
+from ..utils import jp_compose
+from .spec import Base2Obj, _Map, _List
+
+
+def _iter_children(obj):
+    """ iterate current children of one object. 'get_children' keeps those
+    found when called at the first time: they are not updated when a container
+    is edited, and some of them are missing when that call was interrupted.
+    """
+    if isinstance(obj, _Map):
+        elms = list(six.iteritems(obj))
+    elif isinstance(obj, _List):
+        elms = list(enumerate(obj))
+    else:
+        elms = [(name, getattr(obj, name)) for name in obj.__children__]
+
+    for name, child in elms:
+        name = jp_compose(six.text_type(name))
+        if isinstance(child, Base2Obj):
+            yield name, child
+        elif isinstance(child, (_Map, _List)):
+            for child_name, grandchild in _iter_children(child):
+                yield '/'.join([name, child_name]), grandchild
 
 
 def default_tree_traversal(root, leaves):
@@ -17,7 +39,7 @@ def default_tree_traversal(root, leaves):
         if obj.__class__ not in leaves:
             objs.extend(
                 map(lambda i: ('/'.join([path, i[0]]), i[1]),
-                    six.iteritems(obj.get_children())))
+                    _iter_children(obj)))
 
         # the path we expose here follows JsonPointer described here
         #   http://tools.ietf.org/html/draft-ietf-appsawg-json-pointer-07
-- 
2.43.0


From e44f0b65c5bcfa9f2debc1728dd4000a8aad428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 24/51] fix: a path item migrated alone inherits from its
 document

'produces', 'consumes' and the server of the document were ignored when a path
item was migrated through a reference, and the document migrated later reused
that result: its content depended on what was resolved before.
---
 pyopenapi/migration/scan.py                 |  4 ++--
 pyopenapi/migration/versions/v3_0_0/main.py | 22 +++++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/scan.py b/pyopenapi/migration/scan.py
index bba7249..df1fcb9 100644
--- a/pyopenapi/migration/scan.py
+++ b/pyopenapi/migration/scan.py
@@ -20,10 +20,10 @@ def _iter_children(obj):
         elms = [(name, getattr(obj, name)) for name in obj.__children__]
 
     for name, child in elms:
-        name = jp_compose(six.text_type(name))
         if isinstance(child, Base2Obj):
-            yield name, child
+            yield jp_compose(six.text_type(name)), child
         elif isinstance(child, (_Map, _List)):
+            name = jp_compose(six.text_type(name))
             for child_name, grandchild in _iter_children(child):
                 yield '/'.join([name, child_name]), grandchild
 
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index c4356b9..c21245c 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from ....utils import jr_split
+from ....utils import jr_split, get_swagger_version
 from ...scan import scan
 from ..v2_0.scanner.upgrade import converters
 from ..v2_0.objects import (
@@ -14,6 +14,22 @@ from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
 
 
+def _inherited_by_path_item(app, url):
+    """ a Path Item Object inherits something from the document it belongs to,
+    no matter if that document is migrated as a whole or not.
+    """
+    spec = app.resolver.resolve(url)
+    if get_swagger_version(spec) != '2.0':
+        return url, None, None
+
+    root = Swagger(
+        dict((k, spec[k])
+             for k in ('swagger', 'host', 'basePath', 'schemes', 'consumes',
+                       'produces') if k in spec))
+    server = converters.from_swagger_to_server(root, '#')
+    return server['url'], root.consumes, root.produces
+
+
 def upgrade(obj, app, jref):
     ret = obj
     reloc = {}
@@ -37,7 +53,9 @@ def upgrade(obj, app, jref):
             ret = objects.SchemaOrReference(
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
-            migrated, reloc = converters.to_path_item(ret, url, jp)
+            root_url, consumes, produces = _inherited_by_path_item(app, url)
+            migrated, reloc = converters.to_path_item(
+                ret, root_url, jp, consumes=consumes, produces=produces)
             ret = objects.PathItem(migrated, path=jp, override=override)
         else:
             raise Exception(
-- 
2.43.0


From 399408a757be13d9ff1a4fc5a156636f965e28e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 25/51] fix: import migration modules instead of executing them
 for each migration

---
 pyopenapi/migration/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index f2b9b8e..b308601 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -5,6 +5,7 @@ from __future__ import absolute_import
 import abc
 import copy
 import functools
+import importlib
 import logging
 import pkgutil
 import weakref
@@ -283,7 +284,9 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 raise Exception('unable to find module loader for {}'.format(
                     migration_module_path))
 
-            migration_module = loader.load_module(migration_module_path)
+            # not loader.load_module: it executes that module again, and races
+            # with other threads doing the same.
+            migration_module = importlib.import_module(migration_module_path)
             if not migration_module:
                 raise Exception('unable to load {} for migration'.format(
                     migration_module_path))
-- 
2.43.0


From 6cec35ace09f13916210746de90328bf2b53f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 26/51] fix: cache a resource listing under its own url

---
 pyopenapi/migration/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index b308601..34b638b 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -200,16 +200,16 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 map(lambda u: u[1:], resources))
 
             cached_apis = {}
-            for url, name in urls:
+            for resource_url, name in urls:
                 resource_spec = copy.deepcopy(
-                    self.resolver.resolve(url, getter))
+                    self.resolver.resolve(resource_url, getter))
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-                            url, jref))
-                cached_apis[name] = ApiDeclaration(resource_spec,
-                                                   utils.jp_compose(
-                                                       name, base=url), {})
+                            resource_url, jref))
+                cached_apis[name] = ApiDeclaration(
+                    resource_spec, utils.jp_compose(name, base=resource_url),
+                    {})
 
             obj.cached_apis = cached_apis
 
-- 
2.43.0


From a3dff03fbdb9456e2c7fb123757a9b2ef550f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 27/51] fix: encode names of models and authorizations of
 Swagger 1.2 in JSON pointers

---
 .../migration/versions/v1_2/scanner/upgrade.py     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 1dbb506..c06a47d 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none
+from .....utils import scope_compose, get_or_none, jp_compose, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -16,7 +16,11 @@ from ...v2_0.objects import Swagger
 
 
 def _get_name(path):
-    return path.split('/', 3)[2]
+    return jp_split(path)[2]
+
+
+def _get_definition_ref(scope, name, sep):
+    return '#/definitions/' + jp_compose(scope_compose(scope, name, sep=sep))
 
 
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
@@ -29,12 +33,12 @@ def _is_primitive(type_):
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, ref, sep=sep)
+        dst['$ref'] = _get_definition_ref(scope, ref, sep)
 
     if _is_primitive(getattr(src, 'type', None)):
         dst['type'] = src.type.lower()
     elif src.type:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, src.type, sep=sep)
+        dst['$ref'] = _get_definition_ref(scope, src.type, sep)
 
 
 def convert_min_max(dst, src):
@@ -222,7 +226,7 @@ def convert_model(model, api_decl, swagger, sep):
         sub_o_spec = swagger['definitions'].setdefault(sub_s, {})
 
         new_ref = {}
-        new_ref['$ref'] = '#/definitions/' + new_scope
+        new_ref['$ref'] = _get_definition_ref(scope, model.id, sep)
         sub_o_spec.setdefault('allOf', []).append(new_ref)
 
 
-- 
2.43.0


From 0e652b77bd370d14de48d48c822e1d32dfd97c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 28/51] fix: load Swagger 1.2 documents without optional
 members

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index c06a47d..02a9f26 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -272,14 +272,15 @@ class Upgrade(object):
             info_spec['termsOfService'] = terms_of_service
 
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact_spec = {}
             email = get_or_none(obj, 'info', 'contact')
             if email:
                 contact_spec['email'] = email
             info_spec['contact'] = contact_spec
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(
+                obj, 'info', 'licenseUrl'):
             license_spec = {}
             name = get_or_none(obj, 'info', 'license')
             if name:
@@ -308,7 +309,7 @@ class Upgrade(object):
             for operation in api.operations:
                 convert_operation(operation, api, obj, self.__swagger,
                                   self.__sep)
-        for _, model in obj.models.iteritems():
+        for _, model in (obj.models.iteritems() if obj.models else []):
             convert_model(model, obj, self.__swagger, self.__sep)
 
     @Disp.register([Authorization])
@@ -352,8 +353,8 @@ class Upgrade(object):
         common_path = os.path.commonprefix(list(self.__swagger['paths'].keys()))
         # remove tailing slash,
         # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[
-            -1] == '/' else common_path
+        common_path = common_path[:-1] if common_path.endswith(
+            '/') else common_path
 
         if common_path:
             parsed = six.moves.urllib.parse.urlparse(common_path)
-- 
2.43.0


From 8e4360a3f784bab5fa50806e80f8bb5499e93b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 29/51] fix: a Getter refuses to deliver something which is not
 a document

---
 pyopenapi/migration/getter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 551d9e0..3c28950 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -80,6 +80,11 @@ class Getter(six.Iterator):
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
 
+            # ex. an error page is a legal (scalar) yaml document
+            if not isinstance(obj, (dict, list)):
+                raise ValueError('not a json/yaml document: {0}'.format(
+                    self.urls[0]))
+
         # it's delivered, a failed one should be able to be loaded again.
         self.urls.pop(0)
 
-- 
2.43.0


From d75cc62c2c1eae92214836f30c852d92fc0fcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 30/51] fix: DictGetter does not consume the list of its caller

---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 3c28950..b497a79 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -211,7 +211,8 @@ class DictGetter(Getter):
 
     def __init__(self, urls, path2dict):
         super(DictGetter, self).__init__(urls[0])
-        self.urls = urls
+        # not to consume the list of caller
+        self.urls = list(urls)
         self._path2dict = path2dict or {}
 
     def load(self, path):
-- 
2.43.0


From e2eafab0386054150eb98c14ca7bd35429258fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 31/51] fix: join absolute-path, network-path and query
 references to the base document

---
 pyopenapi/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 8bccc55..4ee52a1 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -263,12 +263,16 @@ def normalize_jr(json_ref, url=None):
         parsed = six.moves.urllib.parse.urlparse(url_part)
         if parsed.scheme == '' and url:
             url_parsed = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
+            # it's relative to the document it is written in: the query of
+            # that document is not inherited.
+            path = parsed.path
+            if not parsed.netloc and not path.startswith('/'):
+                path = '/'.join([
+                    os.path.dirname(url_parsed.path).rstrip('/'), path
+                ]) if path else url_parsed.path
             url_part = six.moves.urllib.parse.urlunparse(
-                url_parsed[:2] +
-                ('/'.join([
-                    os.path.dirname(url_parsed.path).rstrip('/'), url_part
-                ]), ) + url_parsed[3:])
+                (url_parsed.scheme, parsed.netloc or url_parsed.netloc,
+                 path) + parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From 24ceefcaa0dfe2e78c68712aa5eb637cecf5bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 32/51] fix: describe a scope of Swagger 1.2 without
 description as empty text

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 02a9f26..9c16df4 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -321,7 +321,7 @@ class Upgrade(object):
             ss_spec['type'] = obj.type
         ss_spec['scopes'] = {}
         for scope in obj.scopes or []:
-            ss_spec['scopes'][scope.scope] = scope.description
+            ss_spec['scopes'][scope.scope] = scope.description or ''
 
         if ss_spec['type'] == 'oauth2':
             authorization_url = get_or_none(obj, 'grantTypes', 'implicit',
-- 
2.43.0


From 5c2b9f0597ca84e1428b4edc4b435524517f2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 33/51] fix: load JSON led by a byte order mark or white space
 as JSON

---
 pyopenapi/migration/getter.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index b497a79..d7d43c8 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -42,6 +42,23 @@ def _stringify_keys(root):
     return root
 
 
+def _loads(text):
+    """ a very simple logic to distinguish json and yaml.
+
+    Note that yaml is not a superset of json: tabs, floats like 1e+3 and
+    surrogate pairs differ, so json led by BOM or white spaces is json, too.
+    """
+    stripped = text.lstrip(u'\ufeff \t\r\n')
+    if stripped.startswith(('{', '[')):
+        try:
+            return json.loads(stripped)
+        except ValueError:
+            if text.startswith('{'):
+                raise
+
+    return _stringify_keys(yaml.load(text))
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -69,13 +86,9 @@ class Getter(six.Iterator):
         elif not isinstance(obj, six.string_types):
             raise ValueError('Unknown types: [{0}]'.format(str(type(obj))))
 
-        # a very simple logic to distinguish json and yaml
         if isinstance(obj, six.string_types):
             try:
-                if obj.startswith('{'):
-                    obj = json.loads(obj)
-                else:
-                    obj = _stringify_keys(yaml.load(obj))
+                obj = _loads(obj)
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
-- 
2.43.0


From 993f67d1c215a935f835e0908e3bf2b98d960338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 34/51] fix: OAuthFlows.client_credentials names
 clientCredentials

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index b635a0e..6f60890 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -406,7 +406,7 @@ class OAuthFlows(Base2_v3_0_0):
     }
 
     __internal__ = {
-        'client_credentials': dict(key='clientCredential', builder=rename),
+        'client_credentials': dict(key='clientCredentials', builder=rename),
         'authorization_code': dict(key='authorizationCode', builder=rename),
     }
 
-- 
2.43.0


From d7ca1dd0446c56794d632344ec49f5849f6b7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 35/51] fix: Schema.deprecated and Encoding.style of 3.0 were
 misspelt and could not be read

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 6f60890..d1c3d4c 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -193,7 +193,7 @@ class Schema(Base2_v3_0_0):
         'readOnly': dict(),
         'writeOnly': dict(),
         'example': dict(),
-        'depreated': dict(),
+        'deprecated': dict(),
     }
 
     __children__ = {
@@ -295,7 +295,7 @@ HeaderOrReference = if_not_ref_else(Header)
 class Encoding(Base2_v3_0_0):
     __fields__ = {
         'contentType': dict(),
-        'stype': dict(),
+        'style': dict(),
         'explode': dict(),
         'allowReserved': dict(),
     }
-- 
2.43.0


From 3d05c68ff05312f898948b1f591ad3b0380993f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 36/51] fix: references to what is under vendor extensions of a
 loaded document

---
 pyopenapi/migration/store.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 90bee5c..34359c7 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -70,9 +70,15 @@ class SpecObjStore(object):
 
         # try to find a 'jp' with common prefix with input under 'url'
         for path, cache in six.iteritems(url_cache):
-            if _is_prefix(path, jp) and spec_version in cache:
+            if not _is_prefix(path, jp) or spec_version not in cache:
+                continue
+
+            try:
                 return cache[spec_version].resolve(
                     utils.jp_split(jp[len(path):])[1:])
+            except (AttributeError, KeyError, IndexError, ValueError):
+                # not a part of that object, ex. under vendor extensions
+                continue
 
         return None
 
-- 
2.43.0


From 655fe1edae00f762db032fd9b610887758ff5209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 37/51] fix: extension fields (^x-) of Paths, Responses and
 Callbacks are not elements of them

---
 pyopenapi/migration/versions/comm.py          | 21 +++++++++++++++++++
 pyopenapi/migration/versions/v2_0/objects.py  |  5 +++--
 .../v2_0/scanner/upgrade/converters.py        |  4 ----
 .../migration/versions/v3_0_0/objects.py      |  8 ++++---
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/pyopenapi/migration/versions/comm.py b/pyopenapi/migration/versions/comm.py
index c70c08a..dacb11c 100644
--- a/pyopenapi/migration/versions/comm.py
+++ b/pyopenapi/migration/versions/comm.py
@@ -1,10 +1,31 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import six
+
 from ...errs import CycleDetectionError
 from ...utils import CycleGuard, jr_split, normalize_jr
 
 
+def without_extension(map_cls):
+    """ for a map whose keys might be mixed with extension fields (^x-), those
+    fields could be anything, and are not elements of that map.
+    """
+
+    # pylint: disable=too-few-public-methods
+    class _Map(map_cls):
+        def __init__(self, spec, path=None, override=None):
+            if isinstance(spec, dict):
+                spec = type(spec)(
+                    (k, spec[k]) for k in spec
+                    if not (isinstance(k, six.string_types) and
+                            k.startswith('x-')))
+            super(_Map, self).__init__(spec, path, override)
+
+    _Map.__name__ = map_cls.__name__
+    return _Map
+
+
 def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
                      attr_group_cls):
     """ resolve 'normalized_ref, and inject/merge referenced object to self.
diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 14f036f..1249872 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 import six
 
 from ...spec import Base2, rename, child, list_, map_
+from ..comm import without_extension
 
 
 def is_str(spec, path, override):
@@ -286,7 +287,7 @@ class Response(BaseObj_v2_0):
 
 
 ResponseOrReference = if_not_ref_else(Response)
-MapOfResponseOrReference = map_(ResponseOrReference)
+MapOfResponseOrReference = without_extension(map_(ResponseOrReference))
 
 
 class Operation(BaseObj_v2_0):
@@ -383,7 +384,7 @@ class Swagger(BaseObj_v2_0):
         'schemes': dict(child_builder=list_(is_str)),
         'consumes': dict(child_builder=list_(is_str)),
         'produces': dict(child_builder=list_(is_str)),
-        'paths': dict(child_builder=map_(PathItem)),
+        'paths': dict(child_builder=without_extension(map_(PathItem))),
         'definitions': dict(child_builder=map_(Schema)),
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 6470871..fcc6dbb 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -615,10 +615,6 @@ def to_openapi(obj, path):
     if obj.paths:
         paths = ret.setdefault('paths', {})
         for k, path_ in six.iteritems(obj.paths):
-            if k.startswith('x-'):
-                raise SchemaError(
-                    'No more extension field in Paths object: {}'.format(path))
-
             paths[k], tmp_reloc = to_path_item(
                 path_,
                 server['url'],
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index d1c3d4c..6f41677 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -4,6 +4,7 @@ from __future__ import absolute_import
 import six
 
 from ...spec import Base2, rename, child, list_, map_
+from ..comm import without_extension
 
 
 # pylint: disable=invalid-name
@@ -450,7 +451,8 @@ class Operation(Base2_v3_0_0):
         'tags': dict(child_builder=list_(is_str)),
         'parameters': dict(child_builder=list_(ParameterOrReference)),
         'requestBody': dict(child_builder=RequestBodyOrReference),
-        'responses': dict(child_builder=map_(ResponseOrReference)),
+        'responses':
+        dict(child_builder=without_extension(map_(ResponseOrReference))),
         'security': dict(child_builder=list_(map_(list_(is_str)))),
         'servers': dict(child_builder=list_(Server)),
     }
@@ -494,7 +496,7 @@ class PathItem(Base2_v3_0_0):
     }
 
 
-class Callback(map_(PathItem)):
+class Callback(without_extension(map_(PathItem))):
     __swagger_version__ = '3.0.0'
 
 
@@ -545,7 +547,7 @@ class OpenApi(Base2_v3_0_0):
     __children__ = {
         'info': dict(child_builder=Info),
         'servers': dict(child_builder=list_(Server)),
-        'paths': dict(child_builder=map_(PathItem)),
+        'paths': dict(child_builder=without_extension(map_(PathItem))),
         'components': dict(child_builder=Components),
         'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
-- 
2.43.0


From 272ed961af8645f776cf6da7cd5f51a86f218267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 38/51] fix: parameters of a Link Object could be any value

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 6f41677..df7a4ff 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -64,6 +64,12 @@ def is_str_or_int(spec, path, override):
         str(type(spec)), path))
 
 
+def is_any(spec, path, override):
+    if override:
+        raise Exception('attemp to override a value in {}'.format(path))
+    return spec
+
+
 class Contact(Base2_v3_0_0):
     __fields__ = {
         'name': dict(),
@@ -352,7 +358,7 @@ class Link(Base2_v3_0_0):
 
     __children__ = {
         'server': dict(child_builder=Server),
-        'parameters': dict(child_builder=map_(is_str)),
+        'parameters': dict(child_builder=map_(is_any)),
     }
 
     __internal__ = {
-- 
2.43.0


From 73ae55c6c6b1269082fccd4dd39528480d2e266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 39/51] fix: local files whose path needs percent-encoding in
 url can't be loaded

---
 pyopenapi/migration/getter.py  | 3 ++-
 pyopenapi/migration/resolve.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index d7d43c8..944d737 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -121,7 +121,8 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            # ex. space in path is percent-encoded in url
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index 859955c..25ffd77 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -54,8 +54,9 @@ class Resolver(object):
                 getter = self.__default_getter or UrlGetter
                 parsed = six.moves.urllib.parse.urlparse(local_url)
                 if parsed.scheme == 'file' and parsed.path:
-                    getter = LocalGetter(
-                        os.path.join(parsed.netloc, parsed.path))
+                    # ex. space in path is percent-encoded in url
+                    path = six.moves.urllib.parse.unquote(parsed.path)
+                    getter = LocalGetter(os.path.join(parsed.netloc, path))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From 86f081dc3cd4a28d80774956d9f865d1f6454b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 40/51] fix: extension of a local file was guessed from its
 directory

---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 944d737..5a8f152 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -163,7 +163,8 @@ class LocalGetter(Getter):
     def load(self, path):
         logger.info('to load: [%s]', path)
 
-        path = patch_path(self.base_path, path)
+        # it's already located, do not guess its extension from the directory
+        path = patch_path('', path)
         logger.info('final path to load: [%s]', path)
 
         ret = None
-- 
2.43.0


From 3205f2e1fb3109d2be30a56b8c780333135e3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 41/51] fix: an empty Callback Object can be referred to

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index df7a4ff..848b7bf 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -505,6 +505,12 @@ class PathItem(Base2_v3_0_0):
 class Callback(without_extension(map_(PathItem))):
     __swagger_version__ = '3.0.0'
 
+    def __bool__(self):
+        # it is an object to be referred to, also when it is empty
+        return True
+
+    __nonzero__ = __bool__
+
 
 CallbackOrReference = if_not_ref_else(Callback)
 Operation.attach_field(
-- 
2.43.0


From 8c497666d860e41bcabd161c94f6abe1beaf18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:48 +0000
Subject: [PATCH 42/51] fix: $ref of what is written out elsewhere stay
 relative to their document

---
 .../v2_0/scanner/upgrade/converters.py        | 58 ++++++++++++++-----
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index fcc6dbb..1dbe444 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -4,7 +4,7 @@ from __future__ import absolute_import
 import copy
 import six
 
-from ......utils import jp_compose, deref
+from ......utils import jp_compose, jr_split, normalize_jr, deref
 from ......errs import SchemaError
 from .constants import BASE_SCHEMA_FIELDS, SCHEMA_FIELDS
 from .parameter_context import ParameterContext
@@ -98,16 +98,31 @@ def from_items(obj, path):
     return ret
 
 
-def to_schema(obj, path, items_converter=None):
+def _inlined_from(obj):
+    """ 'obj' is going to be replaced by what it refers to, get the url of the
+    document those '$ref' inside are relative to, None for the same document.
+    """
+    url, cur = None, obj
+    while getattr(cur, 'ref', None):
+        attrs = cur.get_attrs('migration')
+        if not attrs or attrs.ref_obj is None:
+            break
+
+        if not cur.ref.startswith('#'):
+            url, _ = jr_split(attrs.normalized_ref)
+        cur = attrs.ref_obj
+
+    return url
+
+
+def to_schema(obj, path, items_converter=None, base_url=None):
     ref = getattr(obj, '$ref', None)
     if ref:
-        return {'$ref': ref}
+        return {'$ref': normalize_jr(ref, base_url) if base_url else ref}
 
     if getattr(obj, 'type', None) == 'file':
         return {'type': 'string', 'format': 'binary'}
 
-    items_converter = items_converter or to_schema
-
     ret = {}
     ret.update(_generate_fields(obj, SCHEMA_FIELDS))
 
@@ -120,11 +135,17 @@ def to_schema(obj, path, items_converter=None):
         target = ret.setdefault('allOf', [])
         for index, schema in enumerate(all_of):
             target.append(
-                to_schema(schema, jp_compose(['allOf', str(index)], base=path)))
+                to_schema(
+                    schema,
+                    jp_compose(['allOf', str(index)], base=path),
+                    base_url=base_url))
 
     items = getattr(obj, 'items', None)
     if items:
-        ret['items'] = items_converter(items, jp_compose('items', base=path))
+        items_path = jp_compose('items', base=path)
+        ret['items'] = items_converter(
+            items, items_path) if items_converter else to_schema(
+                items, items_path, base_url=base_url)
 
     properties = getattr(obj, 'properties', None)
     if properties:
@@ -133,17 +154,18 @@ def to_schema(obj, path, items_converter=None):
             target[name] = to_schema(
                 prop,
                 jp_compose(['properties', name], base=path),
-                items_converter=items_converter)
+                items_converter=items_converter,
+                base_url=base_url)
 
     additional_properties = getattr(obj, 'additionalProperties', None)
     if isinstance(additional_properties, bool):
         if additional_properties is False:
             ret['additionalProperties'] = additional_properties
     elif additional_properties is not None:
-        ret['additionalProperties'] = to_schema(additional_properties,
-                                                jp_compose(
-                                                    'additionalProperties',
-                                                    base=path))
+        ret['additionalProperties'] = to_schema(
+            additional_properties,
+            jp_compose('additionalProperties', base=path),
+            base_url=base_url)
 
     discriminator = getattr(obj, 'discriminator', None)
     if discriminator:
@@ -318,8 +340,10 @@ def to_request_body(obj, existing_body, ctx, path):
 
         for type_ in content_types:
             media_type = content.setdefault(type_, {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                base_url=_inlined_from(obj))
     else:
         raise SchemaError(
             'invalid parameter context: {},{},{} for request body: {}'.format(
@@ -422,8 +446,10 @@ def to_response(obj, produces, path):
             for type_ in produces:
                 content[type_] = {
                     'schema':
-                    to_schema(resolved_obj.schema,
-                              jp_compose('schema', base=path))
+                    to_schema(
+                        resolved_obj.schema,
+                        jp_compose('schema', base=path),
+                        base_url=_inlined_from(obj))
                 }
 
     # header
-- 
2.43.0


From e7e63b111f5725a3fd5881826adf4b803f6a6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 43/51] fix: an operation without security keeps it

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 1dbe444..a6a745b 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -475,7 +475,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.tags:
         ret['tags'] = obj.tags.dump()
 
-    if obj.security:
+    # an empty one removes the security of the whole document
+    if obj.security is not None:
         ret['security'] = obj.security.dump()
 
     # parameters
-- 
2.43.0


From d1d6586e2d4e69f5a646432e214d2dae0c40a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 44/51] fix: relocate parameters of operations

---
 .../v2_0/scanner/upgrade/converters.py        | 34 ++++++++++++++++---
 pyopenapi/migration/versions/v3_0_0/main.py   |  9 ++++-
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index a6a745b..3665d45 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -462,7 +462,14 @@ def to_response(obj, produces, path):
     return ret
 
 
-def to_operation(obj, body, root_url, path, produces=None, consumes=None):
+def to_operation(obj,
+                 body,
+                 root_url,
+                 path,
+                 produces=None,
+                 consumes=None,
+                 reloc=None):
+    reloc = {} if reloc is None else reloc
     ret = {}
     ret.update(
         _generate_fields(obj, [
@@ -488,11 +495,17 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
                                          new_path)
             if pctx.is_body:
                 body = new_p
+                reloc['parameters/{}'.format(index)] = 'requestBody'
             else:
                 if not parameters:
                     parameters = ret.setdefault('parameters', [])
                 parameters.append(new_p)
 
+                # those after a body parameter are moved forward
+                if len(parameters) - 1 != index:
+                    reloc['parameters/{}'.format(
+                        index)] = 'parameters/{}'.format(len(parameters) - 1)
+
     if body:
         ret['requestBody'] = body
 
@@ -556,8 +569,14 @@ def to_info(obj, path):
     return ret
 
 
-def to_path_item(obj, root_url, path, consumes=None, produces=None):
+def to_path_item(obj,
+                 root_url,
+                 path,
+                 consumes=None,
+                 produces=None,
+                 op_relocs=None):
     ret, reloc = {}, {}
+    op_relocs = {} if op_relocs is None else op_relocs
     if obj.ref:
         ret['$ref'] = obj.get_attrs('migration').normalized_ref
 
@@ -597,6 +616,7 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
     ):
         operation = getattr(obj, method, None)
         if operation:
+            op_reloc = {}
             # each operation would add its own parameters to the body
             ret[method] = to_operation(
                 operation,
@@ -604,7 +624,10 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-                consumes=consumes)
+                consumes=consumes,
+                reloc=op_reloc)
+            if op_reloc:
+                op_relocs[method] = op_reloc
 
     if body:
         # Valid $ref for Parameter in Swagger 2.0 should only point
@@ -642,12 +665,15 @@ def to_openapi(obj, path):
     if obj.paths:
         paths = ret.setdefault('paths', {})
         for k, path_ in six.iteritems(obj.paths):
+            op_relocs = {}
             paths[k], tmp_reloc = to_path_item(
                 path_,
                 server['url'],
                 jp_compose(k, base=path),
                 consumes=obj.consumes,
-                produces=obj.produces)
+                produces=obj.produces,
+                op_relocs=op_relocs)
+            tmp_reloc.update(op_relocs)
             if tmp_reloc:
                 reloc.setdefault('paths', {})[k.replace('~', '~0').replace(
                     '/', '~1')] = tmp_reloc
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index c21245c..20276d5 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -54,8 +54,15 @@ def upgrade(obj, app, jref):
                 converters.to_schema(ret, jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             root_url, consumes, produces = _inherited_by_path_item(app, url)
+            op_relocs = {}
             migrated, reloc = converters.to_path_item(
-                ret, root_url, jp, consumes=consumes, produces=produces)
+                ret,
+                root_url,
+                jp,
+                consumes=consumes,
+                produces=produces,
+                op_relocs=op_relocs)
+            reloc.update(op_relocs)
             ret = objects.PathItem(migrated, path=jp, override=override)
         else:
             raise Exception(
-- 
2.43.0


From 697ca6dfd87c29868dedce0138c34a66b84eada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 45/51] fix: parts cached under a pointer which is relocated

---
 pyopenapi/migration/store.py                |  8 ++++++--
 pyopenapi/migration/versions/v3_0_0/main.py | 11 ++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 34359c7..dc1850a 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -82,9 +82,10 @@ class SpecObjStore(object):
 
         return None
 
-    def get_under(self, url, jp, spec_version, remove=True):
+    def get_under(self, url, jp, spec_version, remove=True, routes=None):
         """ get all children under 'jp', and remove them
-        from cache if needed
+        from cache if needed. Those relocated by 'routes' are not at the same
+        place anymore and are skipped.
         """
         if remove and not jp:
             raise Exception(
@@ -98,6 +99,9 @@ class SpecObjStore(object):
         ret = {}
         for path, cache in six.iteritems(url_cache):
             if _is_prefix(jp, path) and spec_version in cache:
+                if routes and self._patch_jp(path, {jp: routes}) != path:
+                    continue
+
                 # every object on the way decodes the reminder before passing
                 # it to its child, tokens should be encoded once per level.
                 tokens = path[len(jp) + 1:].split('/')
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 20276d5..79e397f 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -34,14 +34,19 @@ def upgrade(obj, app, jref):
     ret = obj
     reloc = {}
     url, jp = jr_split(jref)
+    # the document it belongs to might be migrated already
+    relocated_jp = jp
     if ret.__swagger_version__ == '2.0':
+        relocated_jp = app.spec_obj_store.relocate(url, jp, '2.0', '3.0.0')
         override = None
-        if isinstance(ret, (Swagger, License, Info, Schema)):
+        if isinstance(ret, (License, Info, Schema)):
             override = app.spec_obj_store.get_under(
-                url, jp, '3.0.0', remove=False)
+                url, relocated_jp, '3.0.0', remove=False)
 
         if isinstance(ret, Swagger):
             migrated, reloc = converters.to_openapi(ret, jp)
+            override = app.spec_obj_store.get_under(
+                url, jp, '3.0.0', remove=False, routes=reloc)
             ret = objects.OpenApi(migrated, path=jp, override=override)
         elif isinstance(ret, License):
             ret = objects.License(
@@ -76,7 +81,7 @@ def upgrade(obj, app, jref):
         # phase 2: update cache for resolving $ref to current object
         # - because the external document might reference back,
         #   we have to cache ourselves here, just in case.
-        app.spec_obj_store.set(ret, url, jp, spec_version='3.0.0')
+        app.spec_obj_store.set(ret, url, relocated_jp, spec_version='3.0.0')
         app.spec_obj_store.update_routes(url, '3.0.0', {jp: reloc})
 
         # phase 3: resolve $ref
-- 
2.43.0


From 77e3d6924c9e4a9991b48d3c32f864ec35490b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:56 +0000
Subject: [PATCH 46/51] fix: empty segments in the path of a document are kept

A relative reference in http://h/a//b.json was joined to http://h/a/.
---
 pyopenapi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 4ee52a1..09b4098 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -268,7 +268,7 @@ def normalize_jr(json_ref, url=None):
             path = parsed.path
             if not parsed.netloc and not path.startswith('/'):
                 path = '/'.join([
-                    os.path.dirname(url_parsed.path).rstrip('/'), path
+                    url_parsed.path.rpartition('/')[0], path
                 ]) if path else url_parsed.path
             url_part = six.moves.urllib.parse.urlunparse(
                 (url_parsed.scheme, parsed.netloc or url_parsed.netloc,
-- 
2.43.0


From 67960715755846667d75a57ddb04f19a40b47bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:25 +0000
Subject: [PATCH 47/51] fix: routes are kept when a migrated object is migrated
 again

---
 pyopenapi/migration/store.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index dc1850a..826a827 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -171,7 +171,12 @@ class SpecObjStore(object):
                 'unsupported spec version for $ref-relocation: {}'.format(
                     to_spec))
 
-        self.__routes[url][to_spec].update(routes)
+        url_routes = self.__routes[url][to_spec]
+        for from_, to_ in six.iteritems(routes):
+            # an object already migrated, and migrated again, has nothing to
+            # relocate, but those found in its first migration are still valid.
+            if to_ or not url_routes.get(from_):
+                url_routes[from_] = to_
 
     @staticmethod
     def _patch_jp(jp, routes):
-- 
2.43.0


From 5691b73b2e43232f9b70a17527646334e94dd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:59 +0000
Subject: [PATCH 48/51] fix: references already relocated are not relocated
 again

---
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index b0d3132..9dd1e6e 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -49,10 +49,15 @@ def _resolve(obj, expected, app, path):
                 obj.ref, path))
         return
 
+    from_spec_version = '3.0.0' if app.original_spec_version == '3.0.0' else '2.0'
+    if from_spec_version != '3.0.0' and attrs.ref_obj is not None:
+        # this object is migrated already, and its $ref is relocated, it would
+        # point to something else when it's relocated twice.
+        return
+
     resolved, new_ref = app.resolve_obj(
         attrs.normalized_ref,
-        from_spec_version=app.original_spec_version
-        if app.original_spec_version == '3.0.0' else '2.0',
+        from_spec_version=from_spec_version,
         parser=expected,
         to_spec_version='3.0.0',
         remove_dummy=True,
-- 
2.43.0


From ae663378f44359253577f4cb00a9a56c3c4aa92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:56 +0000
Subject: [PATCH 49/51] fix: load a part which is there already

---
 pyopenapi/migration/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 34b638b..f913e30 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -177,13 +177,16 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         # be different from the one passed into App.resolve.
         #
         # Therefore, we need to check the cache here again.
-        obj = self.spec_obj_store.get(url, jp, version)
+        #
+        # When there is no version, this object is part of a document.
+        override_version = version or getattr(
+            parser, '__swagger_version__',
+            None) or self.__original_spec_version
+        obj = self.spec_obj_store.get(url, jp, override_version)
         if obj:
             return obj
 
-        # parts of this object might be loaded (and handed out) already. When
-        # there is no version, this object is part of a document, too.
-        override_version = version or self.__original_spec_version
+        # parts of this object might be loaded (and handed out) already.
         override = self.spec_obj_store.get_under(
             url, jp, override_version, remove=False)
         override_url, override_jp = url, jp
-- 
2.43.0


From 847cb96374af60c6449c61ec49c106ffa83d9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:12 +0000
Subject: [PATCH 50/51] fix: references ending in . or .. name a directory

---
 pyopenapi/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 09b4098..2d3144c 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -307,6 +307,9 @@ def derelativise_url(url):
             newpath = newpath[:-1]
             continue
         newpath += [chunk]
+    if parsed.path.endswith(('/.', '/..')):
+        # these name a directory, its URL ends with a slash
+        newpath += ['']
     return six.moves.urllib.parse.urlunparse(
         parsed[:2] + ('/' + ('/'.join(newpath)), ) + parsed[3:])
 
-- 
2.43.0


From 60e979df1fb4a0c56e4007aaa47b6fbf32457f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:48 +0000
Subject: [PATCH 51/51] fix: resolve a JSON pointer which names a float

---
 pyopenapi/migration/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index f913e30..bc1a5e6 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -399,7 +399,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         if obj is None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
 
-        if isinstance(obj, (six.string_types, six.integer_types, list, dict)):
+        if isinstance(obj,
+                      (six.string_types, six.integer_types, float, list, dict)):
             return obj, relocated_jp
 
         return weakref.proxy(obj), url + relocated_jp
-- 
2.43.0

