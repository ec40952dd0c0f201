From 4688b5fca7766427e55e987c9fa1f8e51fba09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 01/67] fix: match JSON pointers token by token in SpecObjStore

A plain string prefix made '#/definitions/PetStore' hit the cache entry (or
the relocation route) of '#/definitions/Pet'.
---
 pyopenapi/migration/store.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6884020..08b50b8 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -14,6 +14,14 @@ from .spec import _Base
 logger = logging.getLogger(__name__)
 
 
+def _is_prefix(prefix, jp):
+    """ check if one JSON pointer is the prefix of another one,
+    they should be compared token by token, '#/definitions/Pet' is
+    not a prefix of '#/definitions/PetStore'
+    """
+    return not prefix or jp == prefix or jp.startswith(prefix + '/')
+
+
 class SpecObjStore(object):
     """ cache of spec objects
     """
@@ -51,7 +59,7 @@ class SpecObjStore(object):
 
         # try to find a 'jp' with common prefix with input under 'url'
         for path, cache in six.iteritems(url_cache):
-            if jp.startswith(path) and spec_version in cache:
+            if _is_prefix(path, jp) and spec_version in cache:
                 return cache[spec_version].resolve(
                     utils.jp_split(jp[len(path):])[1:])
 
@@ -72,7 +80,7 @@ class SpecObjStore(object):
 
         ret = {}
         for path, cache in six.iteritems(url_cache):
-            if path.startswith(jp) and spec_version in cache:
+            if _is_prefix(jp, path) and spec_version in cache:
                 ret[path[len(jp) + 1:]] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
@@ -134,7 +142,7 @@ class SpecObjStore(object):
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
                 # find the longest prefix in from_
-                if not remain_jp.startswith(from_):
+                if not _is_prefix(from_, remain_jp):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From f7fa2fe8ffafa8f868faa3485b69af3032bb3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 02/67] fix: encode parameter names in the 2.0 -> 3.0
 relocation map

The map is keyed by JSON pointer tokens, names containing '/' or '~' were
inserted without encoding and never matched.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9729b35..ea5efdf 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -666,7 +666,8 @@ def to_openapi(obj, path):
                         request_bodies = components.setdefault(
                             'requestBodies', {})
                     request_bodies[k] = param
-                    param_reloc[k] = '#/components/requestBodies/{}'.format(k)
+                    param_reloc[jp_compose(k)] = jp_compose(
+                        k, base='#/components/requestBodies')
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-- 
2.43.0


From d8535c9eb3b215844cb7f5e9e9a96f3df0b12015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 03/67] fix: don't decode the reminder of JSON pointers in
 overrides twice

An override located under a key containing '/' or '~' was lost because the
reminder was decoded before being splitted again.
---
 pyopenapi/migration/spec/obj.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index bd81c0a..2cef05a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -139,11 +139,13 @@ class _Base(object):
 
         # setup override
         for k, val in six.iteritems(override or {}):
-            tokens = jp_split(k, 1)
+            # only decode the first token, the reminder would be
+            # splitted (and decoded) by children
+            first, _, reminder = k.partition('/')
+            tokens = jp_split(first)
             if tokens:
                 self.override.setdefault(tokens[0], {}).update({
-                    tokens[1] if len(tokens) > 1 else '':
-                    val
+                    reminder: val
                 })
             else:
                 raise Exception(
-- 
2.43.0


From 012cafcb7e6e96db25cad51177fd53a9330e9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 04/67] fix: dump boolean children

'additionalProperties: true' made dump() raise, and 'additionalProperties:
false' was dropped silently.
---
 pyopenapi/migration/spec/obj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 2cef05a..5df5e51 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -649,7 +649,11 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if child_:
+            if isinstance(child_, bool):
+                # ex. 'additionalProperties'
+                ret[name] = child_
+                fields.discard(name)
+            elif child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From 5b8dfcd9b3f959c7e0df3ad9201c467c3a3d669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 05/67] fix: keep empty required children in dump

Dropping an empty 'scopes' or 'content' makes an object that can't be loaded
again.
---
 pyopenapi/migration/spec/obj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 5df5e51..e0698c5 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -653,7 +653,9 @@ class Base2Obj(_Base):
                 # ex. 'additionalProperties'
                 ret[name] = child_
                 fields.discard(name)
-            elif child_:
+            elif child_ or (child_ is not None and
+                            self.__children__[name].get('required')):
+                # the dump is not loadable without required children
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From 16ddcf3003eaf97f6562b44e9783e6d147d139c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 06/67] fix: keep an empty 'security' of operations

An empty list (an empty object in 1.2) removes the requirement declared for
the whole API, dropping it when dumping or migrating turns a public operation
into a protected one.
---
 pyopenapi/migration/spec/obj.py                             | 6 +++++-
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py        | 4 ++--
 pyopenapi/migration/versions/v2_0/objects.py                | 3 +++
 .../migration/versions/v2_0/scanner/upgrade/converters.py   | 2 +-
 pyopenapi/migration/versions/v3_0_0/objects.py              | 3 +++
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index e0698c5..7398a65 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -534,6 +534,9 @@ class Base2Obj(_Base):
     __fields__ = {}
     __internal__ = {}
 
+    # children that an empty value is different from an absent one
+    __keep_empty__ = ()
+
     def __init__(self, spec, path=None, override=None):
         """ constructor
         Args:
@@ -654,7 +657,8 @@ class Base2Obj(_Base):
                 ret[name] = child_
                 fields.discard(name)
             elif child_ or (child_ is not None and
-                            self.__children__[name].get('required')):
+                            (self.__children__[name].get('required')
+                             or name in self.__keep_empty__)):
                 # the dump is not loadable without required children
                 ret[name] = child_.dump()
                 fields.discard(name)
diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 1dbb506..4b4873b 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -170,8 +170,8 @@ def convert_operation(obj, api, api_decl, swagger, sep):
 
     # if there is not authorizations in this operation,
     # looking for it in api-declaration object.
-    _auth = obj.authorizations if obj.authorizations else api_decl.authorizations
-    if _auth:
+    _auth = obj.authorizations if obj.authorizations is not None else api_decl.authorizations
+    if _auth is not None:
         op_spec['security'] = []
         for name, scopes in six.iteritems(_auth):
             op_spec['security'].append({name: [v.scope for v in scopes]})
diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 9605d74..74b47ba 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -306,6 +306,9 @@ class Operation(BaseObj_v2_0):
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
 
+    # an empty list removes the requirement declared globally
+    __keep_empty__ = ('security', )
+
     __internal__ = {
         'method': dict(),
         'url': dict(),
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index ea5efdf..6dd98ca 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -448,7 +448,7 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.tags:
         ret['tags'] = obj.tags.dump()
 
-    if obj.security:
+    if obj.security is not None:
         ret['security'] = obj.security.dump()
 
     # parameters
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 503552a..ca56b28 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -447,6 +447,9 @@ class Operation(Base2_v3_0_0):
         'servers': dict(child_builder=list_(Server)),
     }
 
+    # an empty list removes the requirement declared globally
+    __keep_empty__ = ('security', )
+
     __internal__ = {
         'external_docs': dict(key='externalDocs', builder=rename),
         'operation_id': dict(key='operationId', builder=rename),
-- 
2.43.0


From e2beb1a1e69c80f7d5bb2eee78e0b52f603ae869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 07/67] fix: typos in field names of 3.0 objects

Encoding.style, Schema.deprecated were dropped, and
OAuthFlows.client_credentials raised.
---
 pyopenapi/migration/versions/v3_0_0/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index ca56b28..c2874bb 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -187,7 +187,7 @@ class Schema(Base2_v3_0_0):
         'readOnly': dict(),
         'writeOnly': dict(),
         'example': dict(),
-        'depreated': dict(),
+        'deprecated': dict(),
     }
 
     __children__ = {
@@ -289,7 +289,7 @@ HeaderOrReference = if_not_ref_else(Header)
 class Encoding(Base2_v3_0_0):
     __fields__ = {
         'contentType': dict(),
-        'stype': dict(),
+        'style': dict(),
         'explode': dict(),
         'allowReserved': dict(),
     }
@@ -398,7 +398,7 @@ class OAuthFlows(Base2_v3_0_0):
     }
 
     __internal__ = {
-        'client_credentials': dict(key='clientCredential', builder=rename),
+        'client_credentials': dict(key='clientCredentials', builder=rename),
         'authorization_code': dict(key='authorizationCode', builder=rename),
     }
 
-- 
2.43.0


From 656e65fa005e5a6a7ebafe171c9d1f0baf6c72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 08/67] fix: MediaType.examples is a map of examples

It was built as one single Example object, specs using it failed to load.
---
 pyopenapi/migration/versions/v3_0_0/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index c2874bb..ba585e8 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -311,7 +311,7 @@ class MediaType(Base2_v3_0_0):
 
     __children__ = {
         'schema': dict(child_builder=SchemaOrReference),
-        'examples': dict(child_builder=ExampleOrReference),
+        'examples': dict(child_builder=map_(ExampleOrReference)),
         'encoding': dict(child_builder=map_(Encoding)),
     }
 
-- 
2.43.0


From 499e6d98d0cba21f3e29490faa67237ef9119817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/67] fix: Header.content in 3.0

'content' is attached to Parameter after Header copied its children, it's
never scanned or dumped for Header.
---
 pyopenapi/migration/versions/v3_0_0/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index ba585e8..71e1913 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -317,6 +317,7 @@ class MediaType(Base2_v3_0_0):
 
 
 Parameter.attach_field('content', builder=child, child_builder=map_(MediaType))
+Header.attach_field('content', builder=child, child_builder=map_(MediaType))
 
 
 class RequestBody(Base2_v3_0_0):
-- 
2.43.0


From 0a2082f0c78c063f5e829aacd250de384e3e67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 10/67] fix: global 'security' of 2.0

It's a list of maps, every spec declaring it failed to load, and failed to be
migrated to 3.0.
---
 pyopenapi/migration/versions/v2_0/objects.py                    | 2 +-
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 74b47ba..e93933d 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -387,7 +387,7 @@ class Swagger(BaseObj_v2_0):
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
         'securityDefinitions': dict(child_builder=map_(SecurityScheme)),
-        'security': dict(child_builder=list_(list_(is_str))),
+        'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 6dd98ca..368ce08 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -624,7 +624,7 @@ def to_openapi(obj, path):
 
     # security
     if obj.security:
-        ret['security'] = obj.security
+        ret['security'] = obj.security.dump()
 
     # tag
     if obj.tags:
-- 
2.43.0


From 6d1d648277fd720c1662e860653ad1ef4f1b4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 11/67] fix: compare() all elements of containers

The comparison of lists/maps of primitives stopped at the first element, and
the length of lists in fields was not compared.
---
 pyopenapi/migration/spec/obj.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 7398a65..db813a0 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -260,7 +260,9 @@ class _List(_Base):
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
             if isinstance(self_, six.string_types + six.integer_types):
-                return self_ == other_, new_base
+                if self_ != other_:
+                    return False, new_base
+                continue
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -412,7 +414,9 @@ class _Map(_Base):
             new_base = jp_compose(name, base=base)
             if isinstance(self.__elm[name],
                           six.string_types + six.integer_types):
-                return self.__elm[name] == other[name], new_base
+                if self.__elm[name] != other[name]:
+                    return False, new_base
+                continue
 
             same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
@@ -607,6 +611,8 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
+                if len(self_) != len(other_):
+                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
-- 
2.43.0


From 8f85010232aeebb7a9503a0fb237bed73a0e6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 12/67] fix: snake-case aliases of 2.0 objects

They were declared under '__renamed__', which is not recognized, and some of
them pointed to misspelled fields.
---
 pyopenapi/migration/versions/v2_0/objects.py | 30 ++++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index e93933d..238f1cc 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -86,8 +86,8 @@ class Tag(BaseObj_v2_0):
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
 
-    __renamed__ = {
-        'external_docs': dict(key='externalDocs'),
+    __internal__ = {
+        'external_docs': dict(key='externalDocs', builder=rename),
     }
 
 
@@ -113,17 +113,17 @@ class BaseSchema(BaseObj_v2_0):
         'uniqueItems': dict(),
     }
 
-    __renamed__ = {
-        'type_': dict(key='type'),
-        'format_': dict(key='format'),
-        'exclusive_maximum': dict(key='exclusiveMaximum'),
-        'exclusive_minimum': dict(key='exclusiveMinimim'),
-        'max_length': dict(key='max_length'),
-        'min_length': dict(key='min_length'),
-        'max_items': dict(key='max_items'),
-        'min_items': dict(key='min_items'),
-        'multiple_of': dict(key='multipleOf'),
-        'unique_items': dict(key='uniqueItems'),
+    __internal__ = {
+        'type_': dict(key='type', builder=rename),
+        'format_': dict(key='format', builder=rename),
+        'exclusive_maximum': dict(key='exclusiveMaximum', builder=rename),
+        'exclusive_minimum': dict(key='exclusiveMinimum', builder=rename),
+        'max_length': dict(key='maxLength', builder=rename),
+        'min_length': dict(key='minLength', builder=rename),
+        'max_items': dict(key='maxItems', builder=rename),
+        'min_items': dict(key='minItems', builder=rename),
+        'multiple_of': dict(key='multipleOf', builder=rename),
+        'unique_items': dict(key='uniqueItems', builder=rename),
     }
 
 
@@ -135,8 +135,8 @@ class Items(BaseSchema):
         'collectionFormat': dict(default='csv'),
     }
 
-    __renamed__ = {
-        'collection_format': dict(key='collectionFormat'),
+    __internal__ = {
+        'collection_format': dict(key='collectionFormat', builder=rename),
     }
 
 
-- 
2.43.0


From 131c25c12b38d80ba747efbc01638d3c1378f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 13/67] fix: normalize_jr for absolute paths and documents in
 the root folder

'User.json' in 'http://test.com/swagger.json' became
'http://test.com//User.json', and '/User.json' was taken as a path relative
to the folder of the document.
---
 pyopenapi/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 64ecc2c..a88d67d 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -263,11 +263,12 @@ def normalize_jr(json_ref, url=None):
         parsed = six.moves.urllib.parse.urlparse(url_part)
         if parsed.scheme == '' and url:
             url_parsed = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
+            # it's the path of relative file, unless it starts from the root
+            if not url_part.startswith('/'):
+                url_part = '/'.join(
+                    [os.path.dirname(url_parsed.path).rstrip('/'), url_part])
             url_part = six.moves.urllib.parse.urlunparse(
-                url_parsed[:2] +
-                ('/'.join([os.path.dirname(url_parsed.path), url_part]),
-                 ) + url_parsed[3:])
+                url_parsed[:2] + (url_part, ) + url_parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From f2b2846531558db1d87aa106f143a777ab60c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 14/67] fix: url_dirname for '.yml'

'.yml' is supported everywhere else, and the folder should not be trimmed when
its name ends with 'json' without being an extension.
---
 pyopenapi/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index a88d67d..737ec96 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -208,10 +208,10 @@ def normalize_url(url):
 
 
 def url_dirname(url):
-    """ Return the folder containing the '.json' file
+    """ Return the folder containing the '.json', '.yaml' or '.yml' file
     """
     parsed = six.moves.urllib.parse.urlparse(url)
-    for ext in [consts.FILE_EXT_JSON, consts.FILE_EXT_YAML]:
+    for ext in consts.VALID_FILE_EXT:
         if parsed.path.endswith(ext):
             return six.moves.urllib.parse.urlunparse(
                 parsed[:2] + (os.path.dirname(parsed.path), ) + parsed[3:])
-- 
2.43.0


From fd57ba966b563541e1a03e90f4b48bc8380ac85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 15/67] fix: integer keys in YAML documents

'200:' in responses is loaded as integer by YAML, and every such document
failed to be migrated because the key can't be part of a JSON pointer.
---
 pyopenapi/migration/getter.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5763156..e5aa33f 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -15,6 +15,21 @@ from ..utils import patch_path
 logger = logging.getLogger(__name__)
 
 
+def _int_key_to_str(obj):
+    """ yaml would load keys like status code as integer, but
+    keys of a JSON object are always string.
+    """
+    if isinstance(obj, dict):
+        return {
+            str(k) if isinstance(k, six.integer_types) and
+            not isinstance(k, bool) else k: _int_key_to_str(v)
+            for k, v in six.iteritems(obj)
+        }
+    if isinstance(obj, list):
+        return [_int_key_to_str(v) for v in obj]
+    return obj
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -48,7 +63,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = _int_key_to_str(yaml.load(obj))
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
-- 
2.43.0


From d55b2faeae8ded05c0d549c99ef2750d591b8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 16/67] fix: load JSON documents with leading white spaces

They were passed to YAML, which doesn't accept tabs as indentation.
---
 pyopenapi/migration/getter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index e5aa33f..66ef371 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -60,7 +60,7 @@ class Getter(six.Iterator):
         # a very simple logic to distinguish json and yaml
         if isinstance(obj, six.string_types):
             try:
-                if obj.startswith('{'):
+                if obj.lstrip().startswith('{'):
                     obj = json.loads(obj)
                 else:
                     obj = _int_key_to_str(yaml.load(obj))
-- 
2.43.0


From bb853d170549387f37ca7010bbe2fb5f812bc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 17/67] fix: unquote the path of file:// urls

normalize_url() quotes the path, documents under a folder with spaces (or
any other character to be quoted) couldn't be loaded.
---
 pyopenapi/migration/getter.py  | 2 +-
 pyopenapi/migration/resolve.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 66ef371..615f5df 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -88,7 +88,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index bc04f24..19a131d 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -55,7 +55,9 @@ class Resolver(object):
                 parsed = six.moves.urllib.parse.urlparse(local_url)
                 if parsed.scheme == 'file' and parsed.path:
                     getter = LocalGetter(
-                        os.path.join(parsed.netloc, parsed.path))
+                        os.path.join(
+                            parsed.netloc,
+                            six.moves.urllib.parse.unquote(parsed.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From 58cdac4c96dde57bb4681e1d9e03b7eddafc52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 18/67] fix: ambiguous match of scoped keys in ScopeDict

Only the last token was compared, 'f!##!g' could not be distinguished between
'a!##!f!##!g' and 'e!##!xf!##!g'.
---
 pyopenapi/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 737ec96..60c1e8d 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -83,14 +83,11 @@ class ScopeDict(dict):
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
             elif len(ret) > 1:
-                # special case for the last token:
+                # special case for the first token of key:
                 #  - a!##!get
                 #  - b!##!something-get
                 #  and access with 'get'
-                last_k = k.rsplit(self.__sep, 1)[-1]
-                matched = [
-                    r for r in ret if r.rsplit(self.__sep, 1)[-1] == last_k
-                ]
+                matched = [r for r in ret if r.endswith(self.__sep + k)]
                 if len(matched) == 1:
                     return super(ScopeDict, self).__getitem__(matched[0])
 
-- 
2.43.0


From 60a8895f94df4b4e8109f23cb39a20d3adf7b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 19/67] fix: optional fields of 1.2 when upgrading to 2.0

'info', 'models', 'resourcePath' are all optional in 1.2, but a spec without
them failed to be upgraded.
---
 .../versions/v1_2/scanner/upgrade.py          | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 4b4873b..e66d265 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -145,7 +145,7 @@ def convert_parameter(param, scope, sep):
 def convert_operation(obj, api, api_decl, swagger, sep):
     op_spec = {}
 
-    scope = api_decl.resourcePath[1:]
+    scope = (api_decl.resourcePath or '')[1:]
     if scope:
         op_spec['tags'] = [scope]
     if obj.is_set('nickname'):
@@ -194,7 +194,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
 
 
 def convert_model(model, api_decl, swagger, sep):
-    scope = api_decl.resourcePath[1:]
+    scope = (api_decl.resourcePath or '')[1:]
 
     # Ex. a 'Status' model under 'Pet' resource
     # => new model-id would be 'Pet##Status'
@@ -268,14 +268,15 @@ class Upgrade(object):
             info_spec['termsOfService'] = terms_of_service
 
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact_spec = {}
             email = get_or_none(obj, 'info', 'contact')
             if email:
                 contact_spec['email'] = email
             info_spec['contact'] = contact_spec
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(
+                obj, 'info', 'licenseUrl'):
             license_spec = {}
             name = get_or_none(obj, 'info', 'license')
             if name:
@@ -291,11 +292,10 @@ class Upgrade(object):
 
     @Disp.register([ApiDeclaration])
     def _api_declaration(self, _, obj):
-        name = obj.resource_path[1:]
-        for tag in self.__swagger['tags']:
-            if tag['name'] == name:
-                break
-        else:
+        name = (obj.resource_path or '')[1:]
+        if name and name not in [
+                tag['name'] for tag in self.__swagger['tags']
+        ]:
             tag_spec = {}
             tag_spec['name'] = name
             self.__swagger['tags'].append(tag_spec)
@@ -304,7 +304,7 @@ class Upgrade(object):
             for operation in api.operations:
                 convert_operation(operation, api, obj, self.__swagger,
                                   self.__sep)
-        for _, model in obj.models.iteritems():
+        for _, model in six.iteritems(obj.models or {}):
             convert_model(model, obj, self.__swagger, self.__sep)
 
     @Disp.register([Authorization])
-- 
2.43.0


From bdbc1a2761fd7bb897c087f5ca684f2c64c8cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 20/67] fix: scopes without description when upgrading from 1.2

'description' is optional in 1.2, and None is not accepted in 2.0.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index e66d265..9b37749 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -316,7 +316,7 @@ class Upgrade(object):
             ss_spec['type'] = obj.type
         ss_spec['scopes'] = {}
         for scope in obj.scopes or []:
-            ss_spec['scopes'][scope.scope] = scope.description
+            ss_spec['scopes'][scope.scope] = scope.description or ''
 
         if ss_spec['type'] == 'oauth2':
             authorization_url = get_or_none(obj, 'grantTypes', 'implicit',
-- 
2.43.0


From 1ac5535173cafa3d69c2018ad1173b2b8fed371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 21/67] fix: basePath on different hosts when upgrading from
 1.2

The longest common prefix of 'http://a.com' and 'http://ab.com' was taken as
host, it should be refused as described in the document. A spec without any
operation raised IndexError.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 9b37749..0d3657b 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -345,11 +345,18 @@ class Upgrade(object):
         if not self.__swagger:
             return None
 
+        roots = set(
+            six.moves.urllib.parse.urlparse(path)[:2]
+            for path in self.__swagger['paths'])
+        if len(roots) > 1:
+            raise SchemaError(
+                'unable to convert multiple basePath to 2.0: {}'.format(roots))
+
         common_path = os.path.commonprefix(list(self.__swagger['paths'].keys()))
         # remove tailing slash,
         # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[
-            -1] == '/' else common_path
+        common_path = common_path[:-1] if common_path.endswith(
+            '/') else common_path
 
         if common_path:
             parsed = six.moves.urllib.parse.urlparse(common_path)
-- 
2.43.0


From f100eab210c61c7f934d88330567e358615020cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 22/67] fix: minimum/maximum when upgrading from 1.2

A bound of 0 was dropped, and the bounds of int64 were rounded because of the
conversion through float.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 0d3657b..b57a88d 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -40,11 +40,14 @@ def update_type_and_ref(dst, src, scope, sep):
 def convert_min_max(dst, src):
     def _from_str(name):
         val = getattr(src, name, None)
-        if val:
+        if val is not None and val != '':
             if src.type == 'integer':
-                # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst[name] = int(float(val))
+                try:
+                    dst[name] = int(val)
+                except ValueError:
+                    # we need to handle 1.0 when converting to int
+                    # that's why we need to convert to float first
+                    dst[name] = int(float(val))
             elif src.type == 'number':
                 dst[name] = float(val)
             else:
-- 
2.43.0


From d35fdca9ed4d8a84c571bf8ffd72709656ad081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 23/67] fix: minimum/maximum of parameters with allowMultiple

They were lost when upgrading from 1.2.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index b57a88d..d9120e8 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -124,6 +124,7 @@ def convert_parameter(param, scope, sep):
         if param.is_set('uniqueItems'):
             p_spec['uniqueItems'] = param.uniqueItems
         p_spec['items'] = convert_items(param)
+        convert_min_max(p_spec['items'], param)
         if param.is_set("defaultValue"):
             p_spec['default'] = [param.defaultValue]
         p_spec['items']['enum'] = param.enum
-- 
2.43.0


From d41e41c97d675fe79c83bd7812f2576804f05ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 24/67] fix: decode the name of authorizations when upgrading
 from 1.2

The name is extracted from a JSON pointer, '/' and '~' were left encoded.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index d9120e8..470c936 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none
+from .....utils import scope_compose, get_or_none, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -16,7 +16,7 @@ from ...v2_0.objects import Swagger
 
 
 def _get_name(path):
-    return path.split('/', 3)[2]
+    return jp_split(path)[2]
 
 
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
-- 
2.43.0


From f936225ba202e12c40e3e262658be43b297bcc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 25/67] fix: encode model names in $ref when upgrading from 1.2

A resourcePath with more than one segment ends up with '/' in the name of
models, which should be encoded in JSON pointers.
---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 470c936..b005806 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -5,7 +5,7 @@ import os
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none, jp_split
+from .....utils import scope_compose, get_or_none, jp_compose, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -29,12 +29,14 @@ def _is_primitive(type_):
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, ref, sep=sep)
+        dst['$ref'] = jp_compose(
+            scope_compose(scope, ref, sep=sep), base='#/definitions')
 
     if _is_primitive(getattr(src, 'type', None)):
         dst['type'] = src.type.lower()
     elif src.type:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, src.type, sep=sep)
+        dst['$ref'] = jp_compose(
+            scope_compose(scope, src.type, sep=sep), base='#/definitions')
 
 
 def convert_min_max(dst, src):
@@ -226,7 +228,7 @@ def convert_model(model, api_decl, swagger, sep):
         sub_o_spec = swagger['definitions'].setdefault(sub_s, {})
 
         new_ref = {}
-        new_ref['$ref'] = '#/definitions/' + new_scope
+        new_ref['$ref'] = jp_compose(new_scope, base='#/definitions')
         sub_o_spec.setdefault('allOf', []).append(new_ref)
 
 
-- 
2.43.0


From 982a029554745d6a5a57b687b1b673d815583a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 26/67] fix: JSON pointers of objects under nested containers

Names were encoded once per level of container, the path received by scanners
for path items under 'callbacks' was 'callbacks/name~1url'.
---
 pyopenapi/migration/spec/obj.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index db813a0..8fa3476 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -301,7 +301,8 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    ret[jp_compose([str(idx), name])] = children[name]
+                    # 'name' is already encoded
+                    ret['/'.join([str(idx), name])] = children[name]
 
         self.update_children_cache(ret)
         return ret
@@ -448,14 +449,15 @@ class _Map(_Base):
 
         for name, obj in six.iteritems(self.__elm):
             if isinstance(obj, Base2Obj):
-                ret[name] = obj
+                ret[jp_compose(name)] = obj
             elif isinstance(obj, (
                     _Map,
                     _List,
             )):
                 children = obj.get_children()
                 for key in children:
-                    ret[jp_compose([name, key])] = children[key]
+                    # 'key' is already encoded
+                    ret['/'.join([jp_compose(name), key])] = children[key]
 
         self.update_children_cache(ret)
         return ret
@@ -733,7 +735,9 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    ret[jp_compose([name, child_name])] = children[child_name]
+                    # 'child_name' is already encoded
+                    ret['/'.join([jp_compose(name),
+                                  child_name])] = children[child_name]
 
         self.update_children_cache(ret)
         return ret
-- 
2.43.0


From 068de6bdb43c889c2fb82ca08db0ff2d3c54d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 27/67] fix: resolve primitives by JSON pointers

Primitives in list/map and floats raised errors unrelated to the pointer, and
a pointer to somewhere under a primitive was resolved to that primitive.
---
 pyopenapi/migration/base.py     |  3 ++-
 pyopenapi/migration/spec/obj.py | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3718738..da6c90c 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -330,7 +330,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         if obj is None:
             raise ValueError('Unable to resolve path, [{0}]'.format(jref))
 
-        if isinstance(obj, (six.string_types, six.integer_types, list, dict)):
+        if isinstance(
+                obj, (six.string_types, six.integer_types, float, list, dict)):
             return obj, relocated_jp
 
         return weakref.proxy(obj), url + relocated_jp
diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 8fa3476..5b7daf9 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -242,8 +242,9 @@ class _List(_Base):
 
         obj = self
         if parts:
-            idx = parts.pop(0)
-            return self.__elm[int(idx)].resolve(parts)
+            obj = self.__elm[int(parts.pop(0))]
+            if parts:
+                return obj.resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -392,8 +393,9 @@ class _Map(_Base):
 
         obj = self
         if parts:
-            key = parts.pop(0)
-            return self.__elm[key].resolve(parts)
+            obj = self.__elm[parts.pop(0)]
+            if parts:
+                return obj.resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -579,6 +581,9 @@ class Base2Obj(_Base):
                 obj = obj[int(name)]
             elif isinstance(obj, dict):
                 obj = obj[name]
+            else:
+                raise Exception('unable to resolve {} from {}, {}'.format(
+                    name, str(type(obj)), self.get_path()))
 
             if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
                 return obj.resolve(parts)
-- 
2.43.0


From ed21d7325238ea8f4ecd6a2987a621a8954dab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 28/67] fix: migrate the same object to 3.0 more than once

The previously migrated object was passed as an override of itself, and
rejected as an invalid token.
---
 pyopenapi/migration/versions/v3_0_0/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 597c4e1..b1a0fd0 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -22,7 +22,9 @@ def upgrade(obj, app, jref):
         override = None
         if isinstance(ret, (Swagger, License, Info, Schema)):
             override = app.spec_obj_store.get_under(
-                url, jp, '3.0.0', remove=False)
+                url, jp, '3.0.0', remove=False) or {}
+            # the one migrated previously, it would be replaced
+            override.pop('', None)
 
         if isinstance(ret, Swagger):
             migrated, reloc = converters.to_openapi(ret, jp)
-- 
2.43.0


From 180ba4a9214b0b0a1d34ad670015ef929d695cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 29/67] fix: oauth2 flows when migrating to 3.0

'accessCode' and 'application' are renamed in 3.0, those flows were lost, and
a flow without scopes couldn't be migrated.
---
 .../versions/v2_0/scanner/upgrade/converters.py    | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 368ce08..85c8412 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -161,19 +161,27 @@ def to_schema(obj, path, items_converter=None):
     return ret
 
 
+# flows are renamed in 3.0, 'access_code' is generated when upgrading from 1.2
+_FLOW_NAMES = {
+    'accessCode': 'authorizationCode',
+    'access_code': 'authorizationCode',
+    'application': 'clientCredentials',
+}
+
+
 def to_flows(obj, path):
     if not obj.flow:
         raise SchemaError('no flow type for oauth2, {}'.format(path))
 
     ret = {}
-    flow = ret.setdefault(obj.flow, {})
+    flow = ret.setdefault(_FLOW_NAMES.get(obj.flow, obj.flow), {})
     flow.update(_generate_fields(obj, [
         'authorizationUrl',
         'tokenUrl',
     ]))
 
-    if obj.scopes:
-        flow['scopes'] = obj.scopes.dump()
+    # required in 3.0
+    flow['scopes'] = obj.scopes.dump() if obj.scopes else {}
 
     return ret
 
-- 
2.43.0


From d8dcbad5d36a596f26d041f2a5023152ab403cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 30/67] fix: basic authentication when migrating to 3.0

'basic' is not a valid type in 3.0, it's the 'http' type with 'basic' scheme.
---
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 85c8412..e3cd96f 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -191,6 +191,7 @@ def to_security_scheme(obj, path):
     type_ = getattr(obj, 'type', None)
     ret['type'] = type_
     if type_ == 'basic':
+        ret['type'] = 'http'
         ret['scheme'] = 'basic'
     elif type_ == 'oauth2':
         ret['flows'] = to_flows(obj, path)
-- 
2.43.0


From 0008cf8ec359ddab038aced8498179e15fb046de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 31/67] fix: schema of file responses when migrating to 3.0

'type' and 'format' are not fields of Media Type Object, they were lost.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index e3cd96f..1452b6e 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -424,8 +424,8 @@ def to_response(obj, produces, path):
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
             media_type = content.setdefault('application/octet-stream', {})
-            media_type['type'] = 'string'
-            media_type['format'] = 'binary'
+            media_type['schema'] = to_schema(resolved_obj.schema,
+                                             jp_compose('schema', base=path))
         else:
             for type_ in produces:
                 content[type_] = {
-- 
2.43.0


From 418241e4bca8465b9e9e37fe5bf377c4549b94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 32/67] fix: default serialization of array parameters when
 migrating to 3.0

Arrays in 2.0 are comma separated by default, while arrays in query of 3.0 are
sent as repeated parameters by default.
---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 1452b6e..0bc8c56 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -357,7 +357,8 @@ def to_parameter(obj, path):
         ret.setdefault('schema', {})['items'] = from_items(
             obj.items, jp_compose('items', base=path))
 
-    if obj.is_set('collectionFormat'):
+    # the default of arrays is 'csv' in 2.0, and is not the default in 3.0
+    if obj.is_set('collectionFormat') or type_ == 'array':
         style, explode = to_style_and_explode(obj.collectionFormat, in_, type_,
                                               jp_compose(
                                                   'collectionFormat',
-- 
2.43.0


From ff6d3905b1a9f14f9965e37b9cd3c1dbadc5aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 33/67] fix: serialization of array in forms when migrating to
 3.0

collectionFormat of formData parameters was either lost or refused, 3.0 is able
to describe it via Encoding Object.
---
 .../versions/v2_0/scanner/upgrade/converters.py      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 0bc8c56..6489f6f 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -23,23 +23,23 @@ def to_style_and_explode(collection_format, in_, type_, path):
     style = None
     explode = None
     if collection_format == 'csv':
-        if in_ == 'query':
+        if in_ in ('query', 'formData'):
             style = 'form'
             explode = False
         elif in_ in ('path', 'header'):
             style = 'simple'
     elif collection_format == 'ssv':
-        if in_ != 'query' or type_ != 'array':
+        if in_ not in ('query', 'formData') or type_ != 'array':
             raise SchemaError('Unsupported style: ssv for {},{} {}'.format(
                 in_, type_, path))
         style = 'spaceDelimited'
     elif collection_format == 'pipes':
-        if in_ != 'query' or type_ != 'array':
+        if in_ not in ('query', 'formData') or type_ != 'array':
             raise SchemaError('Unsupported style: pipes for {},{} {}'.format(
                 in_, type_, path))
         style = 'pipeDelimited'
     elif collection_format == 'multi':
-        if in_ == 'query':
+        if in_ in ('query', 'formData'):
             style = 'form'
             explode = True
 
@@ -256,7 +256,9 @@ def to_encoding(obj, content_type, path):
             'application/x-www-form-urlencoded', 'multipart/form-data'
     ]:
         ret['contentType'] = _decide_encoding_content_type(obj, path)
-        if obj.is_set('collectionFormat'):
+        if obj.is_set('collectionFormat') or (
+                getattr(obj, 'in', None) == 'formData'
+                and getattr(obj, 'type', None) == 'array'):
             style, explode = to_style_and_explode(obj.collectionFormat,
                                                   getattr(obj, 'in', None),
                                                   getattr(obj, 'type', None),
-- 
2.43.0


From ff7b730ebbb7ae0e5dc9c5b0e30fc0aa07ab5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 34/67] fix: url of servers when migrating to 3.0

The scheme was lost without basePath, and an invalid url ('https:///v1') was
generated without host.
---
 .../versions/v2_0/scanner/upgrade/converters.py    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 6489f6f..de20000 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -494,10 +494,12 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
                                                    'externalDocs', base=path))
 
     # schemes
-    if obj.schemes:
+    # note: a relative url is served from the host of the document, it's not
+    # possible to specify scheme for it.
+    parts = six.moves.urllib.parse.urlsplit(root_url)
+    if obj.schemes and parts.netloc:
         servers = ret.setdefault('servers', [])
         for scheme in obj.schemes:
-            parts = six.moves.urllib.parse.urlsplit(root_url)
             servers.append({
                 'url':
                 six.moves.urllib.parse.urlunsplit((scheme, ) + parts[1:])
@@ -596,9 +598,11 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
 
 
 def from_swagger_to_server(obj, _):
-    url = obj.host if not obj.basePath else six.moves.urllib.parse.urlunsplit(
-        (obj.schemes[0]
-         if obj.schemes else 'https', obj.host, obj.basePath, None, None))
+    url = obj.basePath or ''
+    if obj.host:
+        url = six.moves.urllib.parse.urlunsplit(
+            (obj.schemes[0]
+             if obj.schemes else 'https', obj.host, url, None, None))
     url = url or '/'
 
     return {'url': url}
-- 
2.43.0


From a47160161c5001e6f014887bba3a6e0e565747e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 35/67] fix: body parameters of path items when migrating to
 3.0

One request body was shared, and modified, by all operations of a path item:
form parameters leaked from one operation to another, overriding one of them
was refused as duplicated, and 'consumes' of operations was ignored.
---
 .../v2_0/scanner/upgrade/converters.py        | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index de20000..d902bcc 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -542,13 +542,34 @@ def to_info(obj, path):
     return ret
 
 
+def _inherit_body(params, operation, consumes, path):
+    """ prepare the request body from those parameters under PathItem for one
+    operation. They can be overridden by the operation, and the content types
+    also depend on it.
+    """
+    overriding = [deref(p) for p in operation.parameters or []]
+    body = None
+    for param in params:
+        resolved = deref(param)
+        in_ = getattr(resolved, 'in', None)
+        for other in overriding:
+            if getattr(other, 'in', None) == in_ and (
+                    in_ == 'body' or other.name == resolved.name):
+                break
+        else:
+            body, _ = from_parameter(param, body, operation.consumes
+                                     or consumes, path)
+
+    return body
+
+
 def to_path_item(obj, root_url, path, consumes=None, produces=None):
     ret, reloc = {}, {}
     if obj.ref:
         ret['$ref'] = obj.get_attrs('migration').normalized_ref
 
     # parameters
-    body = None
+    body, body_params = None, []
     if obj.parameters:
         consumes, parameters = consumes or [], None
         for index, param in enumerate(obj.parameters):
@@ -559,6 +580,7 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
                 path=jp_compose(['parameters', str(index)], base=path))
             if pctx.is_file or pctx.is_body:
                 body = new_p
+                body_params.append(param)
                 reloc['parameters/{}'.format(
                     index)] = 'x-pyopenapi_internal_request_body'
             else:
@@ -580,7 +602,7 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         if operation:
             ret[method] = to_operation(
                 operation,
-                body,
+                _inherit_body(body_params, operation, consumes, path),
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From 4ca043b12db0973cc24383fdb433bc0075334144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 36/67] fix: $ref in responses/bodies inlined from external
 documents

They are relative to the external document, not the one they are inlined to
when migrating to 3.0.
---
 .../v2_0/scanner/upgrade/converters.py        | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index d902bcc..14c6a5a 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import functools
 import six
 
 from ......utils import jp_compose, deref
@@ -97,15 +98,25 @@ def from_items(obj, path):
     return ret
 
 
-def to_schema(obj, path, items_converter=None):
+def _is_external(ref):
+    return bool(ref) and not ref.startswith('#')
+
+
+def to_schema(obj, path, items_converter=None, is_external=False):
     ref = getattr(obj, '$ref', None)
     if ref:
-        return {'$ref': ref}
+        # when inlining something from another document, '$ref' is relative
+        # to that document
+        return {
+            '$ref':
+            obj.get_attrs('migration').normalized_ref if is_external else ref
+        }
 
     if getattr(obj, 'type', None) == 'file':
         return {'type': 'string', 'format': 'binary'}
 
-    items_converter = items_converter or to_schema
+    items_converter = items_converter or functools.partial(
+        to_schema, is_external=is_external)
 
     ret = {}
     ret.update(_generate_fields(obj, SCHEMA_FIELDS))
@@ -119,7 +130,10 @@ def to_schema(obj, path, items_converter=None):
         target = ret.setdefault('allOf', [])
         for index, schema in enumerate(all_of):
             target.append(
-                to_schema(schema, jp_compose(['allOf', str(index)], base=path)))
+                to_schema(
+                    schema,
+                    jp_compose(['allOf', str(index)], base=path),
+                    is_external=is_external))
 
     items = getattr(obj, 'items', None)
     if items:
@@ -132,17 +146,18 @@ def to_schema(obj, path, items_converter=None):
             target[name] = to_schema(
                 prop,
                 jp_compose(['properties', name], base=path),
-                items_converter=items_converter)
+                items_converter=items_converter,
+                is_external=is_external)
 
     additional_properties = getattr(obj, 'additionalProperties', None)
     if isinstance(additional_properties, bool):
         if additional_properties is False:
             ret['additionalProperties'] = additional_properties
     elif additional_properties is not None:
-        ret['additionalProperties'] = to_schema(additional_properties,
-                                                jp_compose(
-                                                    'additionalProperties',
-                                                    base=path))
+        ret['additionalProperties'] = to_schema(
+            additional_properties,
+            jp_compose('additionalProperties', base=path),
+            is_external=is_external)
 
     discriminator = getattr(obj, 'discriminator', None)
     if discriminator:
@@ -328,8 +343,10 @@ def to_request_body(obj, existing_body, ctx, path):
 
         for type_ in content_types:
             media_type = content.setdefault(type_, {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                is_external=_is_external(getattr(obj, '$ref', None)))
     else:
         raise SchemaError(
             'invalid parameter context: {},{},{} for request body: {}'.format(
@@ -433,8 +450,10 @@ def to_response(obj, produces, path):
             for type_ in produces:
                 content[type_] = {
                     'schema':
-                    to_schema(resolved_obj.schema,
-                              jp_compose('schema', base=path))
+                    to_schema(
+                        resolved_obj.schema,
+                        jp_compose('schema', base=path),
+                        is_external=_is_external(ref))
                 }
 
     # header
-- 
2.43.0


From 195c79aa82bc7f65ff7882f46f798440c957cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 37/67] fix: migrate external parameters and responses to 3.0

Every spec with a $ref to parameters/responses in another document failed to
be migrated from 2.0 to 3.0.
---
 pyopenapi/migration/versions/v3_0_0/main.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index b1a0fd0..c9141f9 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -9,6 +9,9 @@ from ..v2_0.objects import (
     License,
     Schema,
     PathItem,
+    Parameter,
+    Response,
+    Reference,
 )
 from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
@@ -41,6 +44,15 @@ def upgrade(obj, app, jref):
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
             ret = objects.PathItem(migrated, path=jp, override=override)
+        elif isinstance(ret, Parameter):
+            migrated, pctx = converters.from_parameter(ret, None, None, jp)
+            cls = objects.RequestBody if pctx.is_body else objects.Parameter
+            ret = cls(migrated, path=jp)
+        elif isinstance(ret, Response):
+            ret = objects.Response(
+                converters.to_response(ret, None, jp), path=jp)
+        elif isinstance(ret, Reference):
+            ret = objects.Reference({'$ref': ret.ref}, path=jp)
         else:
             raise Exception(
                 'unable to upgrade from 2.0: {} for type: {}'.format(
-- 
2.43.0


From 2a4cec7dbe7d789d5cd6a6bf828717b03e96922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 38/67] fix: resolve a chain of references across documents

When the root of an external document is a reference, it was left unresolved.
---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 5 +++++
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 2a66fe1..db9b25d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -49,6 +49,11 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     attrs.ref_obj = resolved
 
+    # a root object of another document might also be a Reference, which is
+    # never visited as the child of other objects.
+    if isinstance(resolved, Reference):
+        _resolve(resolved, expected, attr_group_cls, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 77e7170..d1b7b1b 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -69,6 +69,12 @@ def _resolve(obj, expected, app, path):
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
+    # a root object of another document might also be a Reference, which is
+    # never visited as the child of other objects.
+    if isinstance(resolved, Reference) and not resolved.get_attrs(
+            'migration', ReferenceAttributeGroup).ref_obj:
+        _resolve(resolved, expected, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
-- 
2.43.0


From ee9473bcae03cb94bf5eac6c02d6ec98e8bbd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 39/67] fix: pointers beside the root object of an external
 document

---
 pyopenapi/migration/store.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 08b50b8..fefb77f 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -9,6 +9,7 @@ from distutils.version import StrictVersion  # pylint: disable=no-name-in-module
 import six
 
 from .. import utils, consts
+from ..errs import FieldNotExist
 from .spec import _Base
 
 logger = logging.getLogger(__name__)
@@ -60,8 +61,13 @@ class SpecObjStore(object):
         # try to find a 'jp' with common prefix with input under 'url'
         for path, cache in six.iteritems(url_cache):
             if _is_prefix(path, jp) and spec_version in cache:
-                return cache[spec_version].resolve(
-                    utils.jp_split(jp[len(path):])[1:])
+                try:
+                    return cache[spec_version].resolve(
+                        utils.jp_split(jp[len(path):])[1:])
+                except (AttributeError, FieldNotExist):
+                    # not part of that object, ex. 'definitions' beside a
+                    # Schema Object in an external document
+                    continue
 
         return None
 
-- 
2.43.0


From 5882631b8abee416c6a9e0fdd88d0d1ad1d67b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 40/67] fix: refresh cached children of parents when a
 container is changed

---
 pyopenapi/migration/spec/obj.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 5b7daf9..9e416c0 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -166,6 +166,11 @@ class _Base(object):
     def invalidate_children_cache(self):
         self.children_cache = {}
 
+        # children under a container are also cached by its parents
+        parent = self.get_parent()
+        if parent is not None:
+            parent.invalidate_children_cache()
+
     def update_children_cache(self, cache):
         self.children_cache = cache
 
-- 
2.43.0


From eacd0e4a6b5606f4b2712227b40443af26ccb317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 41/67] fix: empty containers also have a parent

---
 pyopenapi/migration/spec/obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 9e416c0..f80f051 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -566,7 +566,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if chd and hasattr(chd, 'set_parent'):
+            if hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
-- 
2.43.0


From af31b03382ab444694a3a4891cdb836a6b24d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 42/67] revert: leave pyopenapi/migration/spec as it was

Those defects are recorded as known findings instead.
---
 pyopenapi/migration/spec/obj.py | 62 ++++++++-------------------------
 1 file changed, 15 insertions(+), 47 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index f80f051..bd81c0a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -139,13 +139,11 @@ class _Base(object):
 
         # setup override
         for k, val in six.iteritems(override or {}):
-            # only decode the first token, the reminder would be
-            # splitted (and decoded) by children
-            first, _, reminder = k.partition('/')
-            tokens = jp_split(first)
+            tokens = jp_split(k, 1)
             if tokens:
                 self.override.setdefault(tokens[0], {}).update({
-                    reminder: val
+                    tokens[1] if len(tokens) > 1 else '':
+                    val
                 })
             else:
                 raise Exception(
@@ -166,11 +164,6 @@ class _Base(object):
     def invalidate_children_cache(self):
         self.children_cache = {}
 
-        # children under a container are also cached by its parents
-        parent = self.get_parent()
-        if parent is not None:
-            parent.invalidate_children_cache()
-
     def update_children_cache(self, cache):
         self.children_cache = cache
 
@@ -247,9 +240,8 @@ class _List(_Base):
 
         obj = self
         if parts:
-            obj = self.__elm[int(parts.pop(0))]
-            if parts:
-                return obj.resolve(parts)
+            idx = parts.pop(0)
+            return self.__elm[int(idx)].resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -266,9 +258,7 @@ class _List(_Base):
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
             if isinstance(self_, six.string_types + six.integer_types):
-                if self_ != other_:
-                    return False, new_base
-                continue
+                return self_ == other_, new_base
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -307,8 +297,7 @@ class _List(_Base):
             )):
                 children = obj.get_children()
                 for name in children:
-                    # 'name' is already encoded
-                    ret['/'.join([str(idx), name])] = children[name]
+                    ret[jp_compose([str(idx), name])] = children[name]
 
         self.update_children_cache(ret)
         return ret
@@ -398,9 +387,8 @@ class _Map(_Base):
 
         obj = self
         if parts:
-            obj = self.__elm[parts.pop(0)]
-            if parts:
-                return obj.resolve(parts)
+            key = parts.pop(0)
+            return self.__elm[key].resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -422,9 +410,7 @@ class _Map(_Base):
             new_base = jp_compose(name, base=base)
             if isinstance(self.__elm[name],
                           six.string_types + six.integer_types):
-                if self.__elm[name] != other[name]:
-                    return False, new_base
-                continue
+                return self.__elm[name] == other[name], new_base
 
             same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
@@ -456,15 +442,14 @@ class _Map(_Base):
 
         for name, obj in six.iteritems(self.__elm):
             if isinstance(obj, Base2Obj):
-                ret[jp_compose(name)] = obj
+                ret[name] = obj
             elif isinstance(obj, (
                     _Map,
                     _List,
             )):
                 children = obj.get_children()
                 for key in children:
-                    # 'key' is already encoded
-                    ret['/'.join([jp_compose(name), key])] = children[key]
+                    ret[jp_compose([name, key])] = children[key]
 
         self.update_children_cache(ret)
         return ret
@@ -547,9 +532,6 @@ class Base2Obj(_Base):
     __fields__ = {}
     __internal__ = {}
 
-    # children that an empty value is different from an absent one
-    __keep_empty__ = ()
-
     def __init__(self, spec, path=None, override=None):
         """ constructor
         Args:
@@ -566,7 +548,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if hasattr(chd, 'set_parent'):
+            if chd and hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
@@ -586,9 +568,6 @@ class Base2Obj(_Base):
                 obj = obj[int(name)]
             elif isinstance(obj, dict):
                 obj = obj[name]
-            else:
-                raise Exception('unable to resolve {} from {}, {}'.format(
-                    name, str(type(obj)), self.get_path()))
 
             if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
                 return obj.resolve(parts)
@@ -623,8 +602,6 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
-                if len(self_) != len(other_):
-                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
@@ -670,14 +647,7 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if isinstance(child_, bool):
-                # ex. 'additionalProperties'
-                ret[name] = child_
-                fields.discard(name)
-            elif child_ or (child_ is not None and
-                            (self.__children__[name].get('required')
-                             or name in self.__keep_empty__)):
-                # the dump is not loadable without required children
+            if child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
@@ -745,9 +715,7 @@ class Base2Obj(_Base):
             )):
                 children = obj.get_children()
                 for child_name in children:
-                    # 'child_name' is already encoded
-                    ret['/'.join([jp_compose(name),
-                                  child_name])] = children[child_name]
+                    ret[jp_compose([name, child_name])] = children[child_name]
 
         self.update_children_cache(ret)
         return ret
-- 
2.43.0


From 2a87b0e2b5c3cdc59bbeb8935cf42ea2787f443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 43/67] fix: dump boolean children and empty children that are
 not optional

'additionalProperties: false' and required (or meaningful) empty containers
were lost, 'additionalProperties: true' could not be dumped at all.
---
 pyopenapi/migration/versions/comm.py          | 33 +++++++++++++++++++
 pyopenapi/migration/versions/v1_2/objects.py  |  5 +--
 pyopenapi/migration/versions/v2_0/objects.py  |  5 +--
 .../migration/versions/v3_0_0/objects.py      |  5 +--
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/comm.py b/pyopenapi/migration/versions/comm.py
index 5f761a5..58f4238 100644
--- a/pyopenapi/migration/versions/comm.py
+++ b/pyopenapi/migration/versions/comm.py
@@ -3,6 +3,39 @@
 from __future__ import absolute_import
 from ...errs import CycleDetectionError
 from ...utils import CycleGuard
+from ..spec import Base2
+
+
+class VersionedObj(Base2):
+    """ base of objects in every version of OpenApi spec
+    """
+
+    # children that an empty value is different from an absent one
+    __keep_empty__ = ()
+
+    def dump(self):
+        """ dump to dict, including those children that are boolean, or
+        are empty but not optional: the dump is not loadable without them
+        """
+        ret = {}
+
+        for name, descriptor in self.__children__.items():
+            child_ = getattr(self, name)
+            if isinstance(child_, bool):
+                # ex. 'additionalProperties'
+                ret[name] = child_
+            elif child_ or (child_ is not None and
+                            (descriptor.get('required')
+                             or name in self.__keep_empty__)):
+                ret[name] = child_.dump()
+
+        for name in self.__fields__:
+            if self.is_set(name):
+                val = getattr(self, name)
+                if val is not None:
+                    ret[name] = val
+
+        return ret
 
 
 def _merge_path_item(obj, path, from_spec_version, to_spec_version, app, parser,
diff --git a/pyopenapi/migration/versions/v1_2/objects.py b/pyopenapi/migration/versions/v1_2/objects.py
index 68fb345..f04de76 100644
--- a/pyopenapi/migration/versions/v1_2/objects.py
+++ b/pyopenapi/migration/versions/v1_2/objects.py
@@ -1,11 +1,12 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
-from ...spec import Base2, rename, list_, map_
+from ...spec import rename, list_, map_
+from ..comm import VersionedObj
 
 
 # pylint: disable=invalid-name
-class BaseObj_v1_2(Base2):
+class BaseObj_v1_2(VersionedObj):
     __swagger_version__ = '1.2'
 
 
diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 238f1cc..0febe6c 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -3,7 +3,8 @@
 from __future__ import absolute_import
 import six
 
-from ...spec import Base2, rename, child, list_, map_
+from ...spec import rename, child, list_, map_
+from ..comm import VersionedObj
 
 
 def is_str(spec, path, override):
@@ -36,7 +37,7 @@ def if_not_bool_else(class_builder):
 
 
 # pylint: disable=invalid-name
-class BaseObj_v2_0(Base2):
+class BaseObj_v2_0(VersionedObj):
     __swagger_version__ = '2.0'
 
 
diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 71e1913..c4e8788 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -3,11 +3,12 @@
 from __future__ import absolute_import
 import six
 
-from ...spec import Base2, rename, child, list_, map_
+from ...spec import rename, child, list_, map_
+from ..comm import VersionedObj
 
 
 # pylint: disable=invalid-name
-class Base2_v3_0_0(Base2):
+class Base2_v3_0_0(VersionedObj):
     __swagger_version__ = '3.0.0'
 
 
-- 
2.43.0


From efeba5d68a586d52beb6de36b741b78cd46937da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 44/67] fix: empty consumes/produces of an operation clear
 those of the document

---
 pyopenapi/migration/versions/v2_0/objects.py     |  2 +-
 .../versions/v2_0/scanner/upgrade/converters.py  | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 0febe6c..c8edb2d 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -308,7 +308,7 @@ class Operation(BaseObj_v2_0):
     }
 
     # an empty list removes the requirement declared globally
-    __keep_empty__ = ('security', )
+    __keep_empty__ = ('security', 'consumes', 'produces')
 
     __internal__ = {
         'method': dict(),
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 14c6a5a..fade291 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -466,6 +466,11 @@ def to_response(obj, produces, path):
     return ret
 
 
+def _effective(mime_types, inherited):
+    """ an empty list in an operation clears the one of the document """
+    return mime_types if mime_types is not None else inherited
+
+
 def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     ret = {}
     ret.update(
@@ -487,8 +492,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
         parameters = None
         for index, param in enumerate(obj.parameters):
             new_path = jp_compose(['parameters', str(index)], base=path)
-            new_p, pctx = from_parameter(param, body, obj.consumes or consumes,
-                                         new_path)
+            new_p, pctx = from_parameter(
+                param, body, _effective(obj.consumes, consumes), new_path)
             if pctx.is_body:
                 body = new_p
             else:
@@ -503,7 +508,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.responses:
         responses = ret.setdefault('responses', {})
         for k, resp in six.iteritems(obj.responses):
-            responses[k] = to_response(resp, obj.produces or produces,
+            responses[k] = to_response(resp,
+                                       _effective(obj.produces, produces),
                                        jp_compose(['responses', k], base=path))
 
     # externalDocs
@@ -576,8 +582,8 @@ def _inherit_body(params, operation, consumes, path):
                     in_ == 'body' or other.name == resolved.name):
                 break
         else:
-            body, _ = from_parameter(param, body, operation.consumes
-                                     or consumes, path)
+            body, _ = from_parameter(
+                param, body, _effective(operation.consumes, consumes), path)
 
     return body
 
-- 
2.43.0


From 888ea6cb3d0336c81e2b8f8a9bda7574044eff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 45/67] fix: schema in a body/response reached through several
 documents refers to its own document

---
 .../versions/v2_0/scanner/upgrade/converters.py     | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index fade291..1738fb1 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -98,8 +98,13 @@ def from_items(obj, path):
     return ret
 
 
-def _is_external(ref):
-    return bool(ref) and not ref.startswith('#')
+def _is_external(obj):
+    """ check if dereferencing this object leads to another document """
+    while getattr(obj, '$ref', None):
+        if not getattr(obj, '$ref').startswith('#'):
+            return True
+        obj = obj.get_attrs('migration').ref_obj
+    return False
 
 
 def to_schema(obj, path, items_converter=None, is_external=False):
@@ -346,7 +351,7 @@ def to_request_body(obj, existing_body, ctx, path):
             media_type['schema'] = to_schema(
                 resolved_obj.schema,
                 jp_compose('schema', base=path),
-                is_external=_is_external(getattr(obj, '$ref', None)))
+                is_external=_is_external(obj))
     else:
         raise SchemaError(
             'invalid parameter context: {},{},{} for request body: {}'.format(
@@ -453,7 +458,7 @@ def to_response(obj, produces, path):
                     to_schema(
                         resolved_obj.schema,
                         jp_compose('schema', base=path),
-                        is_external=_is_external(ref))
+                        is_external=_is_external(obj))
                 }
 
     # header
-- 
2.43.0


From dbcc7a64a89faf855260b3505865f3de2b5e27ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 46/67] fix: keep the description of files

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 1738fb1..88ef272 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -118,7 +118,9 @@ def to_schema(obj, path, items_converter=None, is_external=False):
         }
 
     if getattr(obj, 'type', None) == 'file':
-        return {'type': 'string', 'format': 'binary'}
+        ret = {'type': 'string', 'format': 'binary'}
+        ret.update(_generate_fields(obj, ['description']))
+        return ret
 
     items_converter = items_converter or functools.partial(
         to_schema, is_external=is_external)
-- 
2.43.0


From c40f02a4f2ff3b006ab1b77d80810abf33c27d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 47/67] fix: a schema of another document that is a reference
 stays a reference in 3.0

---
 pyopenapi/migration/versions/v3_0_0/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index c9141f9..86c49d4 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -39,8 +39,9 @@ def upgrade(obj, app, jref):
             ret = objects.Info(
                 converters.to_info(ret, jp), path=jp, override=override)
         elif isinstance(ret, Schema):
-            ret = objects.Schema(
-                converters.to_schema(ret, jp), path=jp, override=override)
+            migrated = converters.to_schema(ret, jp)
+            cls = objects.Reference if '$ref' in migrated else objects.Schema
+            ret = cls(migrated, path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
             ret = objects.PathItem(migrated, path=jp, override=override)
-- 
2.43.0


From 96ce7a7662c6ae3bda2cb0ebb576db36c12704a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 48/67] fix: keep relocation when an object of 3.0 is migrated
 again

---
 pyopenapi/migration/base.py                 | 5 +++--
 pyopenapi/migration/versions/v3_0_0/main.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index da6c90c..b3ca2f6 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -241,8 +241,9 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             obj, reloc = migration_module.upgrade(obj, self, jref)
 
             # update route for object relocation
-            self.spec_obj_store.update_routes(url, version,
-                                              {relocated_jp: reloc})
+            if reloc:
+                self.spec_obj_store.update_routes(url, version,
+                                                  {relocated_jp: reloc})
 
             # update JSON pointer for next round
             relocated_jp = self.spec_obj_store.relocate(
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 86c49d4..0ee071e 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -67,7 +67,10 @@ def upgrade(obj, app, jref):
         # - because the external document might reference back,
         #   we have to cache ourselves here, just in case.
         app.spec_obj_store.set(ret, url, jp, spec_version='3.0.0')
-        app.spec_obj_store.update_routes(url, '3.0.0', {jp: reloc})
+        # - nothing is relocated when it's already in 3.0.0, don't drop the
+        #   routes of the migration from 2.0
+        if reloc:
+            app.spec_obj_store.update_routes(url, '3.0.0', {jp: reloc})
 
         # phase 3: resolve $ref
         scan(root=ret, route=[Resolve(app)])
-- 
2.43.0


From 4b6d8bcf852d3104e24b094a90395aea08ec7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 49/67] fix: don't change the raw document when $ref of 3.0 is
 normalized

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index c4e8788..3b4ad9c 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
+
 import six
 
 from ...spec import rename, child, list_, map_
@@ -19,6 +21,10 @@ class Reference(Base2_v3_0_0):
 
     __internal__ = {'ref': dict(key='$ref', builder=rename)}
 
+    def __init__(self, spec, path=None, override=None):
+        # '$ref' is writable, and the spec belongs to someone else
+        super(Reference, self).__init__(copy.copy(spec), path, override)
+
 
 def if_not_ref_else(class_builder):
     def _f(spec, path, override):
@@ -473,6 +479,10 @@ class PathItem(Base2_v3_0_0):
         dict(key='x-pyopenapi_internal_request_body', builder=rename),
     }
 
+    def __init__(self, spec, path=None, override=None):
+        # '$ref' is writable, and the spec belongs to someone else
+        super(PathItem, self).__init__(copy.copy(spec), path, override)
+
     __children__ = {
         'get': dict(child_builder=Operation),
         'put': dict(child_builder=Operation),
-- 
2.43.0


From 7eaf824cf47dd650276916b2c363ecddd64adcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 50/67] fix: refuse an empty $ref in 2.0, instead of dropping
 it silently

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index db9b25d..a7e7a1d 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -22,7 +22,11 @@ from ..attrs import (
 
 
 def _resolve(obj, expected, attr_group_cls, app, path):
-    if not obj or not getattr(obj, 'ref', None):
+    if not obj or getattr(obj, 'ref', None) is None:
+        return
+
+    # '$ref' is optional in a Path Item, an empty one means nothing there
+    if not obj.ref and isinstance(obj, PathItem):
         return
 
     if not isinstance(obj, (Reference, PathItem, Schema)):
-- 
2.43.0


From 80e0b3e629ac359db514287e0e67f75d8864898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 51/67] fix: refuse body and formData parameters in one
 operation, in whatever order

---
 .../versions/v2_0/scanner/upgrade/converters.py     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 88ef272..91c90b1 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -595,6 +595,16 @@ def _inherit_body(params, operation, consumes, path):
     return body
 
 
+def _refuse_mixed_body(params, path):
+    """ body and formData parameters can't exist together for the same
+    operation: they are different ways to describe one request body
+    """
+    kinds = set(getattr(deref(p), 'in', None) for p in params)
+    if 'body' in kinds and 'formData' in kinds:
+        raise SchemaError(
+            'both body and formData parameters found: {}'.format(path))
+
+
 def to_path_item(obj, root_url, path, consumes=None, produces=None):
     ret, reloc = {}, {}
     if obj.ref:
@@ -632,6 +642,9 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
     ):
         operation = getattr(obj, method, None)
         if operation:
+            _refuse_mixed_body(
+                body_params + list(operation.parameters or []),
+                jp_compose(method, base=path))
             ret[method] = to_operation(
                 operation,
                 _inherit_body(body_params, operation, consumes, path),
-- 
2.43.0


From 80223678078fa4c3221a649009d0b4558103cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 52/67] fix: refuse to migrate objects back to older versions

---
 pyopenapi/migration/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index b3ca2f6..ac5b74a 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -210,6 +210,10 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             raise ValueError(
                 'unsupported spec version: {}'.format(spec_version))
 
+        if StrictVersion(obj.__swagger_version__) > StrictVersion(spec_version):
+            raise ValueError('unable to migrate from {} back to {}'.format(
+                obj.__swagger_version__, spec_version))
+
         # only keep required version strings for this migration
         supported_versions = supported_versions[:(
             supported_versions.index(spec_version) + 1)]
-- 
2.43.0


From 19570c69f62687529595113b8958eb85ab9221e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 53/67] fix: prepare a resolved object once, what is cached
 should be what is returned

---
 pyopenapi/migration/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index ac5b74a..6064818 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -327,7 +327,6 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 jref = url + j
 
             obj = obj and self.migrate_obj(obj, jref, to_spec_version)
-            obj = obj and self.prepare_obj(obj, jref)
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
-- 
2.43.0


From 1afcc2d17d7df85ff2b75327b72c93e3f81c28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 54/67] fix: a $ref to a text or a number, or below one, was
 accepted

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 6 ++++--
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index a7e7a1d..657a53b 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -47,9 +47,11 @@ def _resolve(obj, expected, attr_group_cls, app, path):
         parser=expected,
         remove_dummy=True,
     )
-    if not resolved:
+    # only objects could be referred, not a text or a number
+    if not resolved or isinstance(
+            resolved, six.string_types + six.integer_types + (float, )):
         raise JsonReferenceError('Unable to resolve: {} in {}'.format(
-            obj.normalized_ref, path))
+            attrs.normalized_ref, path))
 
     attrs.ref_obj = resolved
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index d1b7b1b..16a2b28 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -57,9 +57,11 @@ def _resolve(obj, expected, app, path):
         to_spec_version='3.0.0',
         remove_dummy=True,
     )
-    if not resolved:
+    # only objects could be referred, not a text or a number
+    if not resolved or isinstance(
+            resolved, six.string_types + six.integer_types + (float, )):
         raise JsonReferenceError('Unable to resolve: {}'.format(
-            obj.normalized_ref))
+            attrs.normalized_ref))
 
     if obj.ref.startswith('#'):
         _, obj.ref = jr_split(new_ref)
-- 
2.43.0


From 85791625bd8c1172f419fdbda69a120e09c766d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 55/67] fix: a 1.2 resource listing was cached under the url of
 its last api declaration

---
 pyopenapi/migration/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 6064818..c498b13 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -154,15 +154,15 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 map(lambda u: u[1:], resources))
 
             cached_apis = {}
-            for url, name in urls:
-                resource_spec = self.resolver.resolve(url, getter)
+            for api_url, name in urls:
+                resource_spec = self.resolver.resolve(api_url, getter)
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-                            url, jref))
+                            api_url, jref))
                 cached_apis[name] = ApiDeclaration(resource_spec,
                                                    utils.jp_compose(
-                                                       name, base=url), {})
+                                                       name, base=api_url), {})
 
             obj.cached_apis = cached_apis
 
-- 
2.43.0


From 91fc5a62a4f80ce39c6c329c5dc10f00ef8e567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 56/67] fix: local references were not found when the root
 document is given as a file path

---
 pyopenapi/migration/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index c498b13..c84ca47 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -298,7 +298,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         url, jp = utils.jr_split(jref)
         if not url:
             # assume it targets the root document
-            url = self.url
+            url, _ = utils.jr_split(self.url or '')
             jref = url + jp
 
         relocated_jp = jp
-- 
2.43.0


From 97e06af9d116f8658e49a6c453f72aa7e5b89af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 57/67] fix: operations of external path items were served from
 that document, and ignored consumes/produces of the root

---
 pyopenapi/migration/versions/v3_0_0/main.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 0ee071e..4e6b118 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -43,7 +43,19 @@ def upgrade(obj, app, jref):
             cls = objects.Reference if '$ref' in migrated else objects.Schema
             ret = cls(migrated, path=jp, override=override)
         elif isinstance(ret, PathItem):
-            migrated, reloc = converters.to_path_item(ret, url, jp)
+            # operations are served, consume and produce as the root document
+            # says, it's the one that uses this path item.
+            root = app.url and app.spec_obj_store.get(
+                jr_split(app.url)[0], '#', '2.0')
+            if isinstance(root, Swagger):
+                migrated, reloc = converters.to_path_item(
+                    ret,
+                    converters.from_swagger_to_server(root, '#')['url'],
+                    jp,
+                    consumes=root.consumes,
+                    produces=root.produces)
+            else:
+                migrated, reloc = converters.to_path_item(ret, url, jp)
             ret = objects.PathItem(migrated, path=jp, override=override)
         elif isinstance(ret, Parameter):
             migrated, pctx = converters.from_parameter(ret, None, None, jp)
-- 
2.43.0


From 7141b043404e9611417ba82d0c0200c37c3e7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 58/67] fix: path items could not be looked up in 3.0 before
 their document is migrated

---
 pyopenapi/migration/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index c84ca47..3ea951f 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -12,9 +12,11 @@ from distutils.version import StrictVersion  # pylint: disable=no-name-in-module
 import six
 from .. import utils, consts
 from .resolve import Resolver
+from .scan import scan
 from .store import SpecObjStore
 from .versions.v1_2.objects import ResourceListing, ApiDeclaration
 from .versions.v2_0.objects import Swagger
+from .versions.v2_0.scanner import NormalizeRef
 from .versions.v3_0_0.objects import OpenApi
 
 logger = logging.getLogger(__name__)
@@ -172,6 +174,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         elif version == '2.0':
             # swagger 2.0
             obj = Swagger(src_spec, jref, override)
+            # parts of it might be referred before it is migrated
+            scan(root=obj, route=[NormalizeRef(url)])
 
         elif version == '3.0.0':
             # openapi 3.0.0
-- 
2.43.0


From 7f17e9afaeafefdfafff25404e1c7a6b971762f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 59/67] fix: parts of 3.0 documents that refer to references of
 the root could not be looked up before it is migrated

---
 pyopenapi/migration/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3ea951f..e999ad7 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -16,8 +16,9 @@ from .scan import scan
 from .store import SpecObjStore
 from .versions.v1_2.objects import ResourceListing, ApiDeclaration
 from .versions.v2_0.objects import Swagger
-from .versions.v2_0.scanner import NormalizeRef
+from .versions.v2_0 import scanner as v2_0_scanner
 from .versions.v3_0_0.objects import OpenApi
+from .versions.v3_0_0 import scanner as v3_0_0_scanner
 
 logger = logging.getLogger(__name__)
 
@@ -175,11 +176,13 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             # swagger 2.0
             obj = Swagger(src_spec, jref, override)
             # parts of it might be referred before it is migrated
-            scan(root=obj, route=[NormalizeRef(url)])
+            scan(root=obj, route=[v2_0_scanner.NormalizeRef(url)])
 
         elif version == '3.0.0':
             # openapi 3.0.0
             obj = OpenApi(src_spec, jref, override)
+            # parts of it might be referred before it is migrated
+            scan(root=obj, route=[v3_0_0_scanner.NormalizeRef(url)])
 
         elif version is None and parser:
             obj = parser(src_spec, jref, {})
-- 
2.43.0


From cf07552778ad06795edf6964372673e2c38dd7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 60/67] fix: local files in a folder whose name has an
 extension can't be loaded

---
 pyopenapi/migration/getter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 615f5df..48735bc 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -129,7 +129,9 @@ class LocalGetter(Getter):
     def load(self, path):
         logger.info('to load: [%s]', path)
 
-        path = patch_path(self.base_path, path)
+        # the extension of the folder says nothing about an existing file
+        if not os.path.isfile(path):
+            path = patch_path(self.base_path, path)
         logger.info('final path to load: [%s]', path)
 
         ret = None
-- 
2.43.0


From 9f2c544c8778e4631c481959381d669aa628c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 61/67] fix: migrating a document again leaves dangling
 references to its previous object

---
 pyopenapi/migration/store.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index fefb77f..1eaca95 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -29,6 +29,7 @@ class SpecObjStore(object):
 
     def __init__(self, migratable_spec_versions=None):
         self.__spec_objs = {}
+        self.__replaced = []
         self.__routes = {}
         self.__migratable_spec_versions = False \
             or migratable_spec_versions \
@@ -46,10 +47,11 @@ class SpecObjStore(object):
                 'attemp to cache invalid object for {},{} with type: {}'.format(
                     url, jp, str(type(obj))))
 
-        self.__spec_objs.setdefault(url, {}).setdefault(jp, {}).update({
-            spec_version:
-            obj
-        })
+        versions = self.__spec_objs.setdefault(url, {}).setdefault(jp, {})
+        if versions.get(spec_version, obj) is not obj:
+            # other objects only have weak references to it
+            self.__replaced.append(versions[spec_version])
+        versions[spec_version] = obj
 
     def get(self, url, jp, spec_version):
         """ get spec object from cache
-- 
2.43.0


From 9e44935336aad8c7d462f89a6e8b1ca68edd5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 62/67] fix: a failed load or migration leaves half-done
 objects in the cache

---
 pyopenapi/migration/base.py                   | 20 ++++++++++++++++
 pyopenapi/migration/store.py                  | 23 +++++++++++++++++++
 .../versions/v2_0/scanner/resolve.py          |  6 ++---
 3 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index e999ad7..12685c7 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -3,6 +3,7 @@
 from __future__ import absolute_import
 
 import abc
+import functools
 import logging
 import pkgutil
 import weakref
@@ -23,6 +24,23 @@ from .versions.v3_0_0 import scanner as v3_0_0_scanner
 logger = logging.getLogger(__name__)
 
 
+def _keep_nothing_when_failed(func):
+    """ a failure leaves half-done objects in the cache, don't keep them, or
+    they would be taken as complete ones when trying again.
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        backup = self.spec_obj_store.backup()
+        try:
+            return func(self, *args, **kwargs)
+        except BaseException:
+            self.spec_obj_store.restore(backup)
+            raise
+
+    return wrapper
+
+
 class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
     """
     """
@@ -123,6 +141,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         """
         return self.__store
 
+    @_keep_nothing_when_failed
     def load_obj(self, jref, getter=None, parser=None, remove_dummy=False):
         """ load a object(those in spec._version_.objects) from a JSON reference.
         """
@@ -207,6 +226,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
 
         return obj
 
+    @_keep_nothing_when_failed
     def migrate_obj(self, obj, jref, spec_version):
         """ migrate an object(those in spec._version_.objects)
         """
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 1eaca95..061864f 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -53,6 +53,29 @@ class SpecObjStore(object):
             self.__replaced.append(versions[spec_version])
         versions[spec_version] = obj
 
+    def backup(self):
+        """ what is in this store now, could be put back by 'restore'
+        """
+        return (
+            {
+                url: OrderedDict((jp, dict(versions))
+                                 for jp, versions in six.iteritems(cache))
+                for url, cache in six.iteritems(self.__spec_objs)
+            },
+            {
+                url: OrderedDict((version, dict(routes))
+                                 for version, routes in six.iteritems(cache))
+                for url, cache in six.iteritems(self.__routes)
+            },
+        )
+
+    def restore(self, backup):
+        """ put back what was in this store when 'backup' was made
+        """
+        # other objects only have weak references to those dropped here
+        self.__replaced.append(self.__spec_objs)
+        self.__spec_objs, self.__routes = backup
+
     def get(self, url, jp, spec_version):
         """ get spec object from cache
         """
diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 657a53b..b5008eb 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -34,9 +34,6 @@ def _resolve(obj, expected, attr_group_cls, app, path):
             str(type(obj)), path))
 
     attrs = obj.get_attrs('migration', attr_group_cls)
-    if attrs.ref_obj:
-        return
-
     if not attrs.normalized_ref:
         raise JsonReferenceError('empty normalized_ref for {} in {}'.format(
             obj.ref, path))
@@ -57,7 +54,8 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     # a root object of another document might also be a Reference, which is
     # never visited as the child of other objects.
-    if isinstance(resolved, Reference):
+    if isinstance(resolved, Reference) and not resolved.get_attrs(
+            'migration', attr_group_cls).ref_obj:
         _resolve(resolved, expected, attr_group_cls, app, path)
 
 
-- 
2.43.0


From b09e209cf7df266c7e9d64d3415ccf0c7569399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 63/67] fix: comparing lists of lists or of nulls raised
 TypeError or ignored their order

---
 pyopenapi/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 60c1e8d..1902b19 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -417,10 +417,10 @@ def compare_container(src,
                 ))
                 return
 
-            if type_src != dict:
+            if type_src not in (dict, list, type(None)):
                 sorted_src, sorted_dst = sorted(src), sorted(dst)
             else:
-                # process dict without sorting
+                # process those not sortable, ex. dict, without sorting
                 # TODO: find a way to sort list of dict, (ooch)
                 sorted_src, sorted_dst = src, dst
 
-- 
2.43.0


From 21614b669fc5d6f782a2e3275ad0099a2b8e353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:23 +0000
Subject: [PATCH 64/67] fix: an empty description of externalDocs was lost when
 upgrading to 3.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 91c90b1..f5a97cf 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -77,8 +77,7 @@ def to_xml(obj, _):
 def to_external_docs(obj, _):
     ret = {}
     ret['url'] = obj.url
-    if obj.description:
-        ret['description'] = obj.description
+    ret.update(_generate_fields(obj, ['description']))
 
     return ret
 
-- 
2.43.0


From aedbb7468ab8b27e75d4e35cab26163eaa3f130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:32 +0000
Subject: [PATCH 65/67] fix: pointers ending with an empty name were relocated
 to what is around it

---
 pyopenapi/migration/store.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 061864f..e28d6c0 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -209,11 +209,12 @@ class SpecObjStore(object):
             # a qualified JSON pointer
             new_jp = fixed_prefix + '/' + patch_to
 
-        remain = jp[len(fixed_prefix + patch_from) + 1:]  # +1 for '/'
-        if remain:
-            new_jp += ('' if new_jp.endswith('/') or remain.startswith('/') else
-                       '/') + remain
-        return new_jp
+        # it begins with '/', names might be empty
+        remain = jp[len(fixed_prefix + patch_from) +
+                    (1 if fixed_prefix and patch_from else 0):]
+        if new_jp.endswith('/'):
+            remain = remain[1:]
+        return new_jp + remain
 
     def relocate(self, url, jp, from_spec, to_spec=None):
         """ $ref relocation
-- 
2.43.0


From f7c4a4ee1032f35012d5d03a6306827358f9ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:37 +0000
Subject: [PATCH 66/67] fix: local files were read with the encoding of the
 locale instead of UTF-8

---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 48735bc..930a985 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import io
 import json
 import os
 import logging
@@ -135,7 +136,7 @@ class LocalGetter(Getter):
         logger.info('final path to load: [%s]', path)
 
         ret = None
-        with open(path, 'r') as file_handle:
+        with io.open(path, 'r', encoding='utf-8') as file_handle:
             ret = file_handle.read()
         return ret
 
-- 
2.43.0


From a64b866167d45b9643b25d3cd640608d0ef901ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:46 +0000
Subject: [PATCH 67/67] fix: ';' in the last segment of a URL belongs to its
 path

---
 pyopenapi/migration/getter.py  |  2 +-
 pyopenapi/migration/resolve.py |  2 +-
 pyopenapi/utils.py             | 24 ++++++++++++------------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 930a985..7aff368 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -88,7 +88,7 @@ class LocalGetter(Getter):
         super(LocalGetter, self).__init__(path)
 
         if path.startswith('file://'):
-            parsed = six.moves.urllib.parse.urlparse(path)
+            parsed = six.moves.urllib.parse.urlsplit(path)
             path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index 19a131d..382f313 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -52,7 +52,7 @@ class Resolver(object):
             # load that object
             if not getter:
                 getter = self.__default_getter or UrlGetter
-                parsed = six.moves.urllib.parse.urlparse(local_url)
+                parsed = six.moves.urllib.parse.urlsplit(local_url)
                 if parsed.scheme == 'file' and parsed.path:
                     getter = LocalGetter(
                         os.path.join(
diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 1902b19..d1ffc8f 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -139,9 +139,9 @@ def jp_split(jp, max_split=-1):
 def jr_split(json_ref):
     """ split a json-reference into (url, json-pointer)
     """
-    parsed = six.moves.urllib.parse.urlparse(json_ref)
+    parsed = six.moves.urllib.parse.urlsplit(json_ref)
     return (normalize_url(
-        six.moves.urllib.parse.urlunparse(parsed[:5] + ('', ))),
+        six.moves.urllib.parse.urlunsplit(parsed[:4] + ('', ))),
             '#' + parsed.fragment if parsed.fragment else '#')
 
 
@@ -193,7 +193,7 @@ def normalize_url(url):
     if matched:
         return path2url(url)
 
-    parsed = six.moves.urllib.parse.urlparse(url)
+    parsed = six.moves.urllib.parse.urlsplit(url)
     if parsed.scheme == '':
         if parsed.netloc == '' and parsed.path != '':
             # it should be a file path
@@ -207,10 +207,10 @@ def normalize_url(url):
 def url_dirname(url):
     """ Return the folder containing the '.json', '.yaml' or '.yml' file
     """
-    parsed = six.moves.urllib.parse.urlparse(url)
+    parsed = six.moves.urllib.parse.urlsplit(url)
     for ext in consts.VALID_FILE_EXT:
         if parsed.path.endswith(ext):
-            return six.moves.urllib.parse.urlunparse(
+            return six.moves.urllib.parse.urlunsplit(
                 parsed[:2] + (os.path.dirname(parsed.path), ) + parsed[3:])
     return url
 
@@ -218,7 +218,7 @@ def url_dirname(url):
 def url_join(url, base_name):
     """ url version of os.path.join
     """
-    parsed = six.moves.urllib.parse.urlparse(url)
+    parsed = six.moves.urllib.parse.urlsplit(url)
 
     new_path = None
     if parsed.path and parsed.path[-1] == '/':
@@ -229,7 +229,7 @@ def url_join(url, base_name):
         new_path = ('' if base_name and base_name[0] == '/' else
                     '/').join([parsed.path, base_name])
 
-    return six.moves.urllib.parse.urlunparse(parsed[:2] + (
+    return six.moves.urllib.parse.urlunsplit(parsed[:2] + (
         new_path, ) +  # os.sep is different on windows, don't use it here.
                                              parsed[3:])
 
@@ -257,14 +257,14 @@ def normalize_jr(json_ref, url=None):
                     json_ref[idx + 1:]) if idx != -1 else (json_ref, None)
 
     if url_part:
-        parsed = six.moves.urllib.parse.urlparse(url_part)
+        parsed = six.moves.urllib.parse.urlsplit(url_part)
         if parsed.scheme == '' and url:
-            url_parsed = six.moves.urllib.parse.urlparse(url)
+            url_parsed = six.moves.urllib.parse.urlsplit(url)
             # it's the path of relative file, unless it starts from the root
             if not url_part.startswith('/'):
                 url_part = '/'.join(
                     [os.path.dirname(url_parsed.path).rstrip('/'), url_part])
-            url_part = six.moves.urllib.parse.urlunparse(
+            url_part = six.moves.urllib.parse.urlunsplit(
                 url_parsed[:2] + (url_part, ) + url_parsed[3:])
             url_part = derelativise_url(url_part)
     else:
@@ -286,7 +286,7 @@ def derelativise_url(url):
     '''
     Normalizes URLs, gets rid of .. and .
     '''
-    parsed = six.moves.urllib.parse.urlparse(url)
+    parsed = six.moves.urllib.parse.urlsplit(url)
     newpath = []
     for chunk in parsed.path[1:].split('/'):
         if chunk == '.':
@@ -300,7 +300,7 @@ def derelativise_url(url):
             newpath = newpath[:-1]
             continue
         newpath += [chunk]
-    return six.moves.urllib.parse.urlunparse(
+    return six.moves.urllib.parse.urlunsplit(
         parsed[:2] + ('/' + ('/'.join(newpath)), ) + parsed[3:])
 
 
-- 
2.43.0

