From ea75efaab40bf76cbd54c4e8b1cc3ca633cdab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 001/134] fix: serialize plain Binary fields and elements as
 base64url text

---
 distribution/src/jadn/codec/__init__.py | 9 ++++-----
 distribution/src/jadn/codec/codec.py    | 4 ++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 629db22..88b64fd 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -17,7 +17,7 @@ from .format_validate import format_validators, get_format_validate_function
 from ..utils import ftopts_s2d, get_config, object_types, raise_error, topts_s2d
 from ..definitions import (
     # Field Indexes
-    BaseType, FieldID, FieldName,
+    FieldID, FieldName,
     # Const values
     PRIMITIVE_TYPES, CORE_TYPES,
     # Dataclass
@@ -149,10 +149,9 @@ class Codec:
                 Decode=enctab[t].Dec,
                 EncType=enctab[t].eType,
                 TypeOpts={},
-                # TODO: check if t[BaseType] should just be t
-                FormatValidate=get_format_validate_function(self.format_validate, t[BaseType], ''),
-                FormatEncode=get_format_encode_function(self.format_codec, t[BaseType], ''),
-                FormatDecode=get_format_decode_function(self.format_codec, t[BaseType], '')
+                FormatValidate=get_format_validate_function(self.format_validate, t, ''),
+                FormatEncode=get_format_encode_function(self.format_codec, t, ''),
+                FormatDecode=get_format_decode_function(self.format_codec, t, '')
             )
 
 
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..60cda0f 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -406,6 +406,8 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
                 choice_type = aval[int(fopts['tagid']) - 1]
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
+            elif f.FieldType == 'Binary' and 'format' in ts.TypeOpts:
+                sv = av                         # Array format function serializes its plain binary components
             else:
                 sv = codec.encode(f.FieldType, av)
             sval.append(sv)
@@ -435,6 +437,8 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
                 choice_type = val[int(fopts['tagid']) - 1]
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
+            elif f.FieldType == 'Binary' and 'format' in ts.TypeOpts:
+                av = sv                         # Array format function has already converted it
             else:
                 av = codec.decode(f.FieldType, sv)
             aval.append(av)
-- 
2.43.0


From 1fd04fb6b57896636daef98d78e3deb5d778bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 002/134] fix: unfold MapOf with a built-in or external key
 type

---
 distribution/src/jadn/transform/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..af52de8 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -170,7 +170,8 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+        kx = typex.get(to['ktype']) if tdef.BaseType == 'MapOf' else None   # None if built-in or external key type
+        if kx is not None and schema['types'][kx][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From 76fc434507995385cfa7f47c791bcf3830fb599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 003/134] fix: validate and convert the keys of MapOf when
 decoding

---
 distribution/src/jadn/codec/codec.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 60cda0f..0b78449 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -476,10 +476,21 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
     return {codec.encode(to['ktype'], k): codec.encode(to['vtype'], v) for k, v in aval.items()}
 
 
+def _decode_key(ktype: str, key, codec: 'Codec'):
+    ks = codec.symtab.get(ktype)
+    if ks and ks.TypeDef.BaseType == 'Integer' and ks.TypeOpts.get('format') != 'datetime-ms' and isinstance(key, str):
+        key = int(key)              # Member names in JSON text are always strings
+    return codec.decode(ktype, key)
+
+
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+    aval = {_decode_key(to['ktype'], k, codec): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    if len(aval) != len(sval):      # Different spellings of the same key
+        _bad_value(ts, sval)
+    return aval
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From d2790a8d9629680649ac2e0d0a11d1528b376148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 004/134] fix: check minimum and maximum of Number when
 decoding

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 0b78449..cad274e 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From a1a3e15d38a151516cadcc8757f6f3244bbf3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 005/134] fix: reject a message that fits no alternative of an
 anyOf union when decoding

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index cad274e..efa6b14 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and cf >= n:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From e600ca4d99d121730b9f603ea050d4564a722e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 006/134] fix: count an alternative of a union that raises
 TypeError as not matching

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index efa6b14..1b0c865 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (ValueError, TypeError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From 58a55a1c430672a48c41856e7d3b524939ac6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 007/134] fix: count array elements, not characters of the text
 form, when decoding formatted arrays

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 1b0c865..67383b1 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -425,10 +425,10 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
     aval = list()
     if len(val) > len(ts.Fld):
-        _extra_value(ts, val, set(aval[len(ts.Fld):]))
+        _extra_value(ts, val, set(val[len(ts.Fld):]))
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn[FieldID]].Def  # Use symtab field definition
         fx = f[FieldID] - 1
-- 
2.43.0


From 2b01f9d72607b7db301ad29183f46a1a901d1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:39 +0000
Subject: [PATCH 008/134] fix: do not count empty positions of concise records
 when decoding

---
 distribution/src/jadn/codec/codec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 67383b1..dc13d79 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -357,9 +357,11 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_size(ts, sval)   # TODO: _check_count() for concise records
     val = sval
-    if ts.EncType == dict:
+    if ts.EncType == list:
+        _check_count(ts, sval)
+    else:
+        _check_size(ts, sval)
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
     fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
-- 
2.43.0


From afd1730a19a4361477d9123db3dacb8686c2f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 009/134] fix: encode and decode maps identified by number in
 verbose mode

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index dc13d79..e9d0144 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -327,7 +327,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_size(ts, aval)
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifier strings
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -364,7 +364,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         _check_size(ts, sval)
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifier strings
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From 2b1748ff1e43be2d7f4d3d4f5cc4c8c3f43e9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 010/134] fix: reject values of empty types and boolean item
 numbers with a value error

---
 distribution/src/jadn/codec/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index e9d0144..7691fbb 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -111,7 +111,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
+        return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
     except ValueError:
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
@@ -232,7 +232,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap), None)), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -240,7 +240,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap), None)), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 6d21c3c50618f30f2c646ed9658dee0934dd5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 011/134] fix: lists with the same elements in different order
 are not duplicates

---
 distribution/src/jadn/codec/codec.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 7691fbb..27eeaca 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -55,13 +55,14 @@ class CodecTableField(BasicDataclass):
     eType: type = None
 
 
-def fset(x):
+def freeze(x):      # Hashable value that is equal only for equal values
     if isinstance(x, dict):
-        return frozendict({k: fset(v) for k, v in x.items()})
-    try:
-        return frozenset(x) if isinstance(x, (tuple, list, set)) else x
-    except TypeError as e:
-        return frozenset((fset(v) for v in x))
+        return frozendict({k: freeze(v) for k, v in x.items()})
+    return tuple(freeze(v) for v in x) if isinstance(x, (tuple, list)) else x
+
+
+def fset(x):
+    return frozenset(freeze(v) for v in x)
 
 
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
-- 
2.43.0


From 76189707ec7a91862a057af0a71b06fdd736a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 012/134] fix: check uniqueness of decoded values, not of their
 text

---
 distribution/src/jadn/codec/codec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 27eeaca..72fa54b 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -468,10 +468,11 @@ def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
 def _decode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
-    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len(fset(val)):
+    aval = [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:     # Different texts may denote the same value
+        if len(aval) != len(fset(aval)):
             _bad_value(ts, val)
-    return [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    return aval
 
 
 def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From be981cb8c6148be14918f382cf1f0f67f5df7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 013/134] fix: find the tag of a tagged field in every mode,
 and reject a message without it

---
 distribution/src/jadn/codec/__init__.py |  7 +++----
 distribution/src/jadn/codec/codec.py    | 21 +++++++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 88b64fd..600660e 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -71,7 +71,7 @@ class Codec:
 
     def set_mode(self, verbose_rec=False, verbose_str=False):
         # Build symbol table field entries
-        def symf(fld: GenFieldDefinition, fa: int, fnames: dict) -> SymbolTableFieldDefinition:
+        def symf(fld: GenFieldDefinition) -> SymbolTableFieldDefinition:
             fo, to = ftopts_s2d(fld.FieldOptions)
             if to:
                 raise_error(f'Validation Error: {fld.FieldName}: internal error: unexpected type options: {to}')
@@ -79,7 +79,7 @@ class Codec:
             assert fopts['minc'] in (0, 1) and fopts['maxc'] == 1     # Other cardinalities have been simplified
             ctag: Optional[int] = None
             if 'tagid' in fopts:
-                ctag = fopts['tagid'] if fa == FieldID else fnames[fopts['tagid']]
+                ctag = fopts['tagid']
             return SymbolTableFieldDefinition(
                 fld,        # SF_DEF: JADN field definition
                 fopts,      # SF_OPT: Field options (dict)
@@ -116,11 +116,10 @@ class Codec:
                 try:
                     symval.dMap = {f[fx]: f[fa] for f in t.Fields}
                     symval.eMap = {f[fa]: f[fx] for f in t.Fields}
-                    fnames = {f[FieldID]: f[FieldName] for f in t.Fields}
                 except IndexError as e:
                     raise IndexError(f'symval index error: {e}')
                 if t.BaseType != 'Enumerated':
-                    symval.Fld = {f[fx]: symf(f, fa, fnames) for f in t.Fields}
+                    symval.Fld = {f[fx]: symf(f) for f in t.Fields}
             if t.BaseType in ('Binary', 'String', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record'):
                 minv = symval.TypeOpts.get('minv', 0)
                 maxv = symval.TypeOpts.get('maxv', 0)
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 72fa54b..bb7403a 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -323,6 +323,16 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
     return {k: codec.decode(f.FieldType, v)}
 
 
+def _tag_value(ts: SymbolTableField, val: Union[dict, list], ctag: int, fx: int) -> Any:
+    # Value of the field that specifies the type of another field
+    f = next(f for f in ts.TypeDef.Fields if f[FieldID] == ctag)
+    k = f[fx] if isinstance(val, dict) else ctag - 1
+    tag = val.get(k) if isinstance(val, dict) else val[k] if len(val) > k else None
+    if tag is None:
+        _bad_value(ts, val, f)
+    return tag
+
+
 def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_type(ts, aval, dict)
     _check_size(ts, aval)
@@ -336,8 +346,8 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
         ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
-            e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
+        if ctag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            e = codec.encode(fd.FieldType, {_tag_value(ts, aval, ctag, FieldName): aval[fname]})
             sv = next(iter(e.values()))
         else:
             sv = codec.encode(fd.FieldType, aval[fname]) if fname in aval else None
@@ -380,8 +390,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         if sv is not None:
             ctag = fs.cTag
             if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
+                av = codec.decode(fd.FieldType, {_tag_value(ts, val, ctag, fx): sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
@@ -408,7 +417,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
-                choice_type = aval[int(fopts['tagid']) - 1]
+                choice_type = _tag_value(ts, aval, fopts['tagid'], FieldID)
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
             elif f.FieldType == 'Binary' and 'format' in ts.TypeOpts:
@@ -439,7 +448,7 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
-                choice_type = val[int(fopts['tagid']) - 1]
+                choice_type = _tag_value(ts, val, fopts['tagid'], FieldID)
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
             elif f.FieldType == 'Binary' and 'format' in ts.TypeOpts:
-- 
2.43.0


From 2b9d378ac77d7f000ed88bbffd844f7d7f8ed43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:26 +0000
Subject: [PATCH 014/134] fix: convert datetime-ms exactly in both directions
 and reject what is not a date-time

---
 distribution/src/jadn/codec/format_serialize_json.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..37239e0 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -3,7 +3,7 @@ import binascii
 import re
 import string
 
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 from ipaddress import IPv4Address, IPv6Address
 from typing import Any, Callable, Dict, Tuple
 from ..definitions import FORMAT_SERIALIZE
@@ -164,15 +164,20 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 
 
 def int2datems(dt: int) -> str:
-    y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+    try:
+        y = datetime.isoformat(datetime.fromtimestamp(0, timezone.utc) + timedelta(milliseconds=dt))
+    except OverflowError as e:
+        raise ValueError(f'{dt}: {e}')
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
         y = m.group(1) + m.group(2) + m.group(4)
     return y
 
 
 def datems2int(dts: str) -> int:
+    if not isinstance(dts, str):
+        raise TypeError(f'{dts} is not a date-time string')
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    return round(1000 * datetime.timestamp(x))
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From 8793c43c52538d1db5ed43fd734bcf2d93a57f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 015/134] fix: match the whole of e-mail addresses and host
 names

---
 distribution/src/jadn/codec/format_validate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..e1453cc 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.match(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE):
         return sval
     raise ValueError
 
@@ -46,12 +46,12 @@ def s_hostname(sval: str) -> str:
     if not isinstance(sval, type('')):
         raise TypeError
     hostname = sval[:]      # Copy since we're modifying input
-    if hostname[-1] == ".":
+    if hostname.endswith("."):
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
-    if all(allowed.match(x) for x in hostname.split(".")):
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)", re.IGNORECASE)
+    if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
 
-- 
2.43.0


From 91a4adaac3940181c17ef06c37781cb4a1e2ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 016/134] fix: formatted arrays convert their binary components
 themselves and only from text

---
 distribution/src/jadn/codec/codec.py                 |  8 +++++---
 distribution/src/jadn/codec/format_serialize_json.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index bb7403a..a856f0b 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -420,8 +420,8 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
                 choice_type = _tag_value(ts, aval, fopts['tagid'], FieldID)
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
-            elif f.FieldType == 'Binary' and 'format' in ts.TypeOpts:
-                sv = av                         # Array format function serializes its plain binary components
+            elif isinstance(av, bytes) and 'format' in ts.TypeOpts:
+                sv = av                         # Array format function serializes its binary components
             else:
                 sv = codec.encode(f.FieldType, av)
             sval.append(sv)
@@ -435,6 +435,8 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 
 
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
+    if 'format' in ts.TypeOpts:
+        _check_type(ts, sval, str)
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
     _check_count(ts, val)
@@ -451,7 +453,7 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
                 choice_type = _tag_value(ts, val, fopts['tagid'], FieldID)
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
-            elif f.FieldType == 'Binary' and 'format' in ts.TypeOpts:
+            elif isinstance(sv, bytes) and 'format' in ts.TypeOpts:
                 av = sv                         # Array format function has already converted it
             else:
                 av = codec.decode(f.FieldType, sv)
diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 37239e0..a2b217d 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -147,13 +147,14 @@ def s2a_ipv6_net(sval: str) -> [str, int]:
     return [sa, prefix_len]
 
 
-def a2s_tag_uuid(aval: [str, str]) -> str:
-    return aval[0] + '-' + aval[1]
+def a2s_tag_uuid(aval: [str, bytes]) -> str:
+    return aval[0] + '-' + b2s_uuid(aval[1])
 
 
-def s2a_tag_uuid(sval: str) -> [str, str]:
-    t, u = sval.split('-', maxsplit=1)
-    return [t, u]
+def s2a_tag_uuid(sval: str) -> [str, bytes]:
+    if len(sval) < 37 or sval[-37] != '-':      # A UUID has 36 characters, the tag may contain '-'
+        raise ValueError
+    return [sval[:-37], s2b_uuid(sval[-36:])]
 
 
 FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
-- 
2.43.0


From 7e69cfffb5d126d8112e404b6a0f01fe3b7172da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 017/134] fix: decode Binary only from text

---
 distribution/src/jadn/codec/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index a856f0b..ad94a8f 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -178,6 +178,7 @@ def _encode_binary(ts: SymbolTableField, aval, codec: 'Codec'):    # Encode byte
 
 
 def _decode_binary(ts: SymbolTableField, sval, codec: 'Codec'):    # Decode ASCII string to bytes
+    _check_type(ts, sval, str)
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, bytes)        # assert format decode returns correct type
     return _check_size(ts, aval)
-- 
2.43.0


From 5df5e187671282b636fd93cb55c33fe9c00de767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 018/134] fix: name of a derived enumeration does not depend on
 the position of its id option

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index af52de8..8f266b5 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -65,7 +65,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
-- 
2.43.0


From b5513699d92268c4392eb9525f26cdeeb23be4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 019/134] fix: repeated fields with inline type options
 constrain the elements, not the list

---
 distribution/src/jadn/transform/transform.py | 27 ++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 8f266b5..720a56a 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -68,6 +68,17 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
+# Move type options of a field to a new explicit type, return its name
+def new_type(schema: dict, fdef: GenFieldDefinition, fto: List[str], newname: str, sys: str) -> str:
+    newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
+    newname = epname(newopts, sys) or newname       # If enum/pointer option, use derived enum typename
+    if newname not in [t.TypeName for t in schema['types']]:
+        newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
+        assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
+        schema['types'].append(TypeDefinition(newname, newtype, newopts, fdef.FieldDesc))
+    return newname
+
+
 # Replace field multiplicity with explicit ArrayOf type definitions
 def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
     for tdef in list(schema['types']):
@@ -76,8 +87,11 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'maxc' in fo and fo['maxc'] != 1:
                     minc = fo.get('minc', 1)
+                    etype = fdef.FieldType
+                    if eopts := [o for o in fto if o != 'unique']:    # Elements keep their own constraints
+                        etype = new_type(schema, fdef, eopts, f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Value', sys)
                     newopts = {
-                        'vtype': fdef.FieldType,
+                        'vtype': etype,
                         'minv': max(minc, 1),  # Don't allow empty ArrayOf
                         **({'maxv': fo['maxc']} if fo['maxc'] > 1 else {}),  # maxv defaults to 0
                         **({'unique': True} if 'unique' in fto else {})  # Move unique option to ArrayOf
@@ -99,15 +113,8 @@ def unfold_anonymous_types(schema: dict, sys: str) -> NoReturn:
             for fdef in tdef.Fields:
                 # If FieldOptions contains a type option, create an explicit type
                 if fto := ftopts_s2d(fdef.FieldOptions)[1]:
-                    # Move all type options to new type
-                    newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
-                    name = epname(newopts, sys)              # If enum/pointer option, use derived enum typename
-                    newname = name if name else f'{tdef.TypeName}{sys}{fdef.FieldName}'
-                    if newname not in [t.TypeName for t in schema['types']]:
-                        newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
-                        assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
-                        schema['types'].append(TypeDefinition(newname, newtype, newopts, fdef.FieldDesc))
-                    fdef.FieldType = newname           # Redirect field to explicit type definition
+                    # Redirect field to explicit type definition
+                    fdef.FieldType = new_type(schema, fdef, fto, f'{tdef.TypeName}{sys}{fdef.FieldName}', sys)
 
 
 # Generate Enumerated list of fields or JSON Pointers
-- 
2.43.0


From 174d954336cd4b2db325c1467af244903d4d3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 020/134] fix: create one derived enumeration type for all
 references to it

---
 distribution/src/jadn/transform/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 720a56a..0183b5d 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -130,6 +130,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
+                    enums[name] = name
                     schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
 
     def enum_items(rtype: str) -> list:
-- 
2.43.0


From bdd00e5f103ac76e4fa851de715382aef2c9bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 021/134] fix: pointers name the full path of nested fields,
 and recursion ends

---
 distribution/src/jadn/transform/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 0183b5d..318a4ce 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -141,13 +141,13 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
         return [[f.FieldID, f.FieldName, f.FieldDesc] for f in fields]
 
     def pointer_items(rtype: str) -> list:
-        def pathnames(rtype: str, base='') -> Generator[list, None, None]:  # Walk subfields of referenced type
+        def pathnames(rtype: str, base='', parents=(rtype,)) -> Generator[list, None, None]:  # Walk subfields of referenced type
             tdef = schema['types'][typex[rtype]]  # TODO: proper error handling for built-in or non-existing reference
             if has_fields(tdef.BaseType):
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
-                        if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                        if f.FieldType in typex and f.FieldType not in parents:
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/', parents + (f.FieldType,))
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
-- 
2.43.0


From ea39dadd8c5e7483da449c3f10e40b2e204fb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 022/134] fix: enumerations derived from derived enumerations
 do not depend on the order of types

---
 distribution/src/jadn/transform/transform.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 318a4ce..3d87a5b 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -136,6 +136,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
     def enum_items(rtype: str) -> list:
         tdef = schema['types'][typex[rtype]]
         if tdef.BaseType == 'Enumerated':
+            derive(tdef)            # Referenced type may itself be derived
             return [[f.ItemID, f.ItemValue, f.ItemDesc] for f in tdef.Fields]
         fields = tdef.Fields if has_fields(tdef.BaseType) else []
         return [[f.FieldID, f.FieldName, f.FieldDesc] for f in fields]
@@ -152,17 +153,18 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
 
+    def derive(tdef: TypeDefinition) -> NoReturn:
+        to = tdef.TypeOptions
+        if rname := epname(to, sys):
+            opt = to.pop(epx(to))
+            items = enum_items if opt[:1] == OPTION_ID['enum'] else pointer_items
+            tdef.Fields = [EnumFieldDefinition(*f) for f in items(opt[1:])]
+            enums.update({rname: tdef.TypeName})
+
     enums = {}
     for tdef in list(schema['types']):  # Replace enum/pointer options in Enumerated types with explicit items
         if tdef.BaseType == 'Enumerated':
-            to = tdef.TypeOptions
-            if rname := epname(to, sys):
-                optx = get_optx(to, 'enum')
-                optx = optx if optx is not None else get_optx(to, 'pointer')
-                items = enum_items if to[optx][:1] == OPTION_ID['enum'] else pointer_items
-                tdef.Fields = items(to[optx][1:])
-                del to[optx]
-                enums.update({rname: tdef.TypeName})
+            derive(tdef)
 
     # Create new Enumerated enum/pointer types if they don't already exist
     for tdef in list(schema['types']):
-- 
2.43.0


From 5f8e4aad4fe48860d0e392bd1334daf50b21ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 023/134] fix: unfolding MapOf with enumerated keys keeps its
 size options and derived value type

---
 distribution/src/jadn/transform/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3d87a5b..e47cfdd 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -182,8 +182,10 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
         to = topts_s2d(tdef.TypeOptions)
         kx = typex.get(to['ktype']) if tdef.BaseType == 'MapOf' else None   # None if built-in or external key type
         if kx is not None and schema['types'][kx][BaseType] == 'Enumerated':
-            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
-            schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
+            vtype, vopts = ('Enumerated', [to['vtype']]) if epx([to['vtype']]) is not None else (to['vtype'], [])
+            mopts = opts_d2s({k: v for k, v in to.items() if k not in ('ktype', 'vtype')})
+            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], vtype, list(vopts), f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
+            schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', mopts, tdef.TypeDesc, newfields)
 
 
 def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Remove schema extensions
-- 
2.43.0


From 2f979485d87698c5142bf5a89382235de6f0fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 024/134] fix: do not count null members of maps and records
 when decoding

---
 distribution/src/jadn/codec/codec.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index ad94a8f..21d0261 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -370,10 +370,8 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
     val = sval
-    if ts.EncType == list:
-        _check_count(ts, sval)
-    else:
-        _check_size(ts, sval)
+    _check_count(ts, sval if isinstance(sval, list) else sval.values())
+    if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
     fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifier strings
-- 
2.43.0


From 784b5b92d108227f0d5ba968722b6c1c45a0e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:34 +0000
Subject: [PATCH 025/134] fix: reject tag-uuid values that are not lists with a
 type error

---
 distribution/src/jadn/codec/format_validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index e1453cc..f100b40 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -73,7 +73,8 @@ def b_uuid(bval: bytes) -> bytes:           # UUID is 128 bits
 
 
 def a_tag_uuid(aval: [str, bytes]) -> [str, bytes]:
-    if (    len(aval) == 2 and
+    if (    isinstance(aval, list) and
+            len(aval) == 2 and
             isinstance(aval[0], str) and
             isinstance(aval[1], bytes) and
             len(aval[1]) == 16):
-- 
2.43.0


From 5df8ffd4bb2d504d683c5ac8bca30e6a889d86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 026/134] fix: datetime-ms text must be a complete RFC 3339
 date-time

---
 distribution/src/jadn/codec/format_serialize_json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index a2b217d..b96924f 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -8,6 +8,7 @@ from ipaddress import IPv4Address, IPv6Address
 from typing import Any, Callable, Dict, Tuple
 from ..definitions import FORMAT_SERIALIZE
 
+RFC3339 = r'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)'
 UUID = r'(?i)^[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89AB][0-9a-f]{3}-[0-9a-f]{12}$'
 
 FormatFunction = Callable[[Any], Any]
@@ -177,6 +178,8 @@ def int2datems(dt: int) -> str:
 def datems2int(dts: str) -> int:
     if not isinstance(dts, str):
         raise TypeError(f'{dts} is not a date-time string')
+    if not re.fullmatch(RFC3339, dts, re.ASCII | re.IGNORECASE):
+        raise ValueError(f'{dts} is not a date-time with time zone')
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
     return round(1000 * datetime.timestamp(x))
 
-- 
2.43.0


From 7db765b75b5bc4b695529455db941da9de795786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 027/134] fix: reject base64url text with misplaced padding

---
 distribution/src/jadn/codec/format_serialize_json.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index b96924f..a641744 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -1,7 +1,6 @@
 import base64
 import binascii
 import re
-import string
 
 from datetime import datetime, timedelta, timezone
 from ipaddress import IPv4Address, IPv6Address
@@ -66,11 +65,11 @@ def b2s_base64url(bval: bytes) -> str:      # Convert from binary to base64url s
 
 
 def s2b_base64url(sval: str) -> bytes:      # Convert from base64url string to binary
+    if not re.fullmatch(r'[-_A-Za-z0-9]*={0,2}', sval) or ('=' in sval and len(sval) % 4):
+        raise TypeError('base64decode: bad character or padding')
     v = sval
     if mod := len(sval) % 4:  # Pad b64 string out to a multiple of 4 characters
         v = f"{sval}{'=' * (4-mod)}"
-    if set(v) - set(string.ascii_letters + string.digits + '-_='):  # Python 2 doesn't support Validate
-        raise TypeError('base64decode: bad character')
     return base64.b64decode(str(v), altchars=b'-_')
 
 
-- 
2.43.0


From 79aad5ad6a32229fe65470ca154b14e08905fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 028/134] fix: reject IP network text with malformed prefix
 length or scope

---
 distribution/src/jadn/codec/format_serialize_json.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index a641744..ca36c99 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -86,6 +86,8 @@ def s2b_ipv4_addr(sval: str) -> bytes:    # Convert IPv4 addr from string to bin
 
 
 def s2b_ipv6_addr(sval: str) -> bytes:    # Convert IPv6 address from string to binary
+    if '%' in sval:                     # A scope (zone) is not part of the address
+        raise ValueError
     return IPv6Address(sval).packed
 
 
@@ -129,10 +131,16 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
+def s2i_prefix_len(sval: str) -> int:
+    if not re.fullmatch(r'[0-9]{1,3}', sval):
+        raise ValueError
+    return int(sval)
+
+
 def s2a_ipv4_net(sval: str) -> [str, int]:
     sv = sval.split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 32
+    prefix_len = s2i_prefix_len(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
         raise ValueError
     return [sa, prefix_len]
@@ -141,7 +149,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
 def s2a_ipv6_net(sval: str) -> [str, int]:
     sv = sval.split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 128
+    prefix_len = s2i_prefix_len(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
         raise ValueError
     return [sa, prefix_len]
-- 
2.43.0


From ddb3765df05905570b031a3c56a84c216bd3b188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 029/134] fix: host names and e-mail addresses contain only
 ASCII characters

---
 distribution/src/jadn/codec/format_validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index f100b40..b7721d2 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE):
+    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE | re.ASCII):
         return sval
     raise ValueError
 
@@ -50,7 +50,7 @@ def s_hostname(sval: str) -> str:
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)", re.IGNORECASE)
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)", re.IGNORECASE | re.ASCII)
     if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
-- 
2.43.0


From 41a9881131233d77997fd89a26bb22bb69e149c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 030/134] fix: values of string formats do not end with a
 newline

---
 distribution/src/jadn/codec/format_validate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index b7721d2..c2c8e7f 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -175,6 +175,8 @@ def format_validators() -> FormatTable:  # Generate validation function table
                 )
             except jsonschema.exceptions.ValidationError as e:
                 raise ValueError(e.message)
+            if format_kw != 'regex' and val.endswith('\n'):     # rfc3987 ignores a final newline
+                raise ValueError(f'{val!r} ends with a newline')
             return val
         return validate
 
-- 
2.43.0


From 7a0432c4282ac16558e3e35460b41d5c5450d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 031/134] fix: time zone offsets have at most 59 minutes

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index ca36c99..ac0daa4 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -7,7 +7,7 @@ from ipaddress import IPv4Address, IPv6Address
 from typing import Any, Callable, Dict, Tuple
 from ..definitions import FORMAT_SERIALIZE
 
-RFC3339 = r'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)'
+RFC3339 = r'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:[0-5]\d)'
 UUID = r'(?i)^[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89AB][0-9a-f]{3}-[0-9a-f]{12}$'
 
 FormatFunction = Callable[[Any], Any]
-- 
2.43.0


From 9a7c1988b052d6a66b2edbc12022ddd62e79bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 032/134] fix: only patterns refer to configuration variables,
 type names may begin with $

---
 distribution/src/jadn/codec/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 600660e..72566fa 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -19,6 +19,7 @@ from ..definitions import (
     # Field Indexes
     FieldID, FieldName,
     # Const values
+    OPTION_ID,
     PRIMITIVE_TYPES, CORE_TYPES,
     # Dataclass
     TypeDefinition, GenFieldDefinition
@@ -94,7 +95,7 @@ class Codec:
 
         # Set configurable option values
         def config_opts(opts: List[str]) -> dict:
-            op = [(v[0] + self.config[v[1:]]) if len(v) > 1 and v[1] == '$' else v for v in opts]
+            op = [(v[0] + self.config[v[1:]]) if v[0] == OPTION_ID['pattern'] and v[1:] in self.config else v for v in opts]
             return topts_s2d(op)
 
         def sym(t: TypeDefinition) -> SymbolTableField:  # Build symbol table based on encoding modes
-- 
2.43.0


From a77ae0396d0c52ad5e2571f9725f8bc95ddce32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 033/134] fix: type reference pattern for name rules that are
 alternatives

---
 distribution/src/jadn/codec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 72566fa..b5fbb6e 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -91,7 +91,7 @@ class Codec:
         def make_typeref_pattern(nsid: str, typename: str) -> dict:
             ns = nsid.lstrip('^').rstrip('$')
             tn = typename.lstrip('^').rstrip('$')
-            return {'pattern': fr'^({ns}:)?{tn}$'}
+            return {'pattern': fr'^(?:(?:{ns}):)?(?:{tn})$'}
 
         # Set configurable option values
         def config_opts(opts: List[str]) -> dict:
-- 
2.43.0


From 0e09c4ce98f16844895b0914f27e4ea768457a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 034/134] fix: a type named TypeRef keeps its own definition

---
 distribution/src/jadn/codec/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index b5fbb6e..594c58b 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -140,7 +140,8 @@ class Codec:
         self.verbose_rec = verbose_rec
         self.verbose_str = verbose_str
         self.symtab = {t.TypeName: sym(t) for t in object_types(self.schema['types'])}
-        if 'TypeRef' in self.types:
+        tr = self.types.get('TypeRef')
+        if tr and tr.BaseType == 'String' and not tr.TypeOptions:    # Placeholder, not just any type of this name
             self.symtab['TypeRef'].TypeOpts = make_typeref_pattern(self.config['$NSID'], self.config['$TypeName'])
         for t in PRIMITIVE_TYPES:
             self.symtab[t] = SymbolTableField(
-- 
2.43.0


From 807d48dfbbb402f8be876cc42bb47364f84b4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 035/134] fix: the description of an enumerated item is not a
 field type

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..09b7255 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -94,7 +94,7 @@ def check(schema: dict) -> dict:
             raise_error(f'{type_def.TypeName}({type_def.BaseType}) should not have defined fields with the option enum/pointer')
         # Invalid anonymous field types
         for fd in fields:
-            if has_fields(fd[FieldType]):
+            if type_def.BaseType != 'Enumerated' and has_fields(fd[FieldType]):
                 raise_error(f'{type_def[TypeName]}/{fd[FieldName]}({fd[FieldID]}): Invalid type "{fd[FieldType]}"')
 
 
-- 
2.43.0


From f4ba4bb9e231a73551696c33b0c748ec5ce9ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 036/134] fix: repeated fields of a built-in type may be unique

---
 distribution/src/jadn/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 09b7255..fcd8cc0 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -137,6 +137,8 @@ def check(schema: dict) -> dict:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
+                    if maxc != 1 and field.FieldType != 'ArrayOf':
+                        fto.pop('unique', None)     # will be moved to generated ArrayOf
                     check_typeopts(f'{type_def.TypeName}/{field.FieldName}', field.FieldType, fto)
                 elif fto:
                     # unique option will be moved to generated ArrayOf
-- 
2.43.0


From 01349da0c1489507287dc72228776ce186599ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 037/134] fix: reject an empty format keyword

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index fcd8cc0..ad964a9 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -43,7 +43,7 @@ def check_typeopts(type_name: str, base_type: str, topts: dict) -> None:
         raise_error(f'String cannot have both pattern and size constraints: {type_name}')  # disable for debugging
 
     # TODO: if format defines array, add minv/maxv (prevents adding default max)
-    if fmt := topts.get('format'):
+    if (fmt := topts.get('format')) is not None:
         if fmt not in VALID_FORMATS or base_type != VALID_FORMATS[fmt]:
             raise_error(f'Unsupported format {fmt} in {type_name} {base_type}')
     if 'enum' in topts and 'pointer' in topts:
-- 
2.43.0


From 43c39b9d4c79847064b2021cc261c892c1b00ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 038/134] fix: converted type options keep the order in which
 they are written

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..0e43875 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -150,8 +150,8 @@ def topts_s2d(olist: Union[list[OPTION_TYPES], tuple[OPTION_TYPES, ...]], frange
     Convert list of type definition option strings to options dictionary
     """
     assert isinstance(olist, (list, tuple)), f'{olist} is not a list'
-    topts = {o for o in olist if ord(o[0]) in TYPE_OPTIONS}
-    if uopts := {*olist} - topts:
+    topts = [o for o in olist if ord(o[0]) in TYPE_OPTIONS]
+    if uopts := [o for o in olist if ord(o[0]) not in TYPE_OPTIONS]:
         raise_error(f"Unknown type options: {','.join(uopts)}")
     opts = {}
     for o in topts:
-- 
2.43.0


From 4e3a3896ca7572667b1f9c44c8db1f64b06c0dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 039/134] fix: type strings show the extend option

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 0e43875..c8e96d8 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -259,7 +259,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
     p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence)'    # 6 multiplicity
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 6 multiplicity
     pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
@@ -366,6 +366,9 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
+
+    if opts.pop('extend', None):
+        extra += ' extend'
     return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
-- 
2.43.0


From 11da2adcc4709c5afd5cf0b3223758cd30a6f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 040/134] fix: a tag field may be identified by number zero

---
 distribution/src/jadn/core.py  | 2 +-
 distribution/src/jadn/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index ad964a9..c9101c9 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index c8e96d8..96f8011 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -398,7 +398,7 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
         fname += '/' if 'dir' in fo else ''
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-- 
2.43.0


From 2d755bfceb333ac8ca13ea798ee78a51b23db56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 041/134] fix: text of a pattern is not parsed as other options
 of the type

---
 distribution/src/jadn/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 96f8011..e0f98c1 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -257,11 +257,12 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_name = r'\s*=?\s*([-$:\w]+)'                  # 1 type name
     p_id = r'(\.ID)?'                               # 2 'id'
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
-    p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
+    p_pattern = r'\{pattern=\"(.+)\"\}([^\"]*)$'       # 4 'pattern': up to the last quote, may contain anything
+    p_range = r'\{([^{}]*)\}'                       # 4 'minv', 'maxv'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
     p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 6 multiplicity
     pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
-    m = re.match(pattern, typestring)
+    m = re.match(pattern, typestring, re.DOTALL)
     if m is None:
         raise_error(f'TypeString2JADN: "{typestring}" does not match pattern {pattern}')
     tname = m.group(1)
@@ -279,10 +280,11 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             topts.update(topts_s2d([opts[0]]) if ord(opts[0][0]) in TYPE_OPTIONS else {})
             fo += [opts[0]] if ord(opts[0][0]) in FIELD_OPTIONS else []         # TagId option
     if rest := m.group(4):
-        for opt in re.findall(p_rangepat, rest):
-            if m := re.match('pattern=\"(.+)\"', opt):
-                topts.update({'pattern': m.group(1)})
-            elif len(x := opt.split('..', maxsplit=1)) == 2:
+        if m := re.search(p_pattern, rest, re.DOTALL):
+            topts.update({'pattern': m.group(1)})
+            rest = f'{rest[:m.start()]} {m.group(2)}'   # Don't look for other options inside the pattern
+        for opt in re.findall(p_range, rest):
+            if len(x := opt.split('..', maxsplit=1)) == 2:
                 a, b = x
                 if tname == 'Number':
                     topts.update({} if a == '*' else {'minf': float(a)})
-- 
2.43.0


From c6dde08c9f36146bcc94bb9ab7a30703e565c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 042/134] fix: field definitions keep descriptions with slashes
 and line breaks, and directory fields known by number

---
 distribution/src/jadn/utils.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index e0f98c1..02aa5f7 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -389,16 +389,18 @@ def id_type(td: list) -> bool:    # True if FieldName is a label in description
 
 def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
     idtype = id_type(tdef)
-    fname = '' if idtype else fdef[FieldName]
-    fdesc = f'{fdef[FieldName]}:: ' if idtype else ''
     is_enum = tdef[BaseType] == 'Enumerated'
+    name = fdef[FieldName]
+    if not is_enum and 'dir' in ftopts_s2d(fdef[FieldOptions])[0]:
+        name += '/'
+    fname = '' if idtype else name
+    fdesc = f'{name}:: ' if idtype else ''
     fdesc += fdef[ItemDesc if is_enum else FieldDesc]
     ftyperef = ''
     fmult = ''
 
     if not is_enum:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
-        fname += '/' if 'dir' in fo else ''
         tf = ''
         if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
@@ -412,6 +414,13 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
 def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> list:
     ftyperef = ''
     fo = {}
+    if fdesc:
+        fdesc = fdesc.strip()
+        if not fname:                   # Field name is a label in the description
+            if m := (re.match(r'^(.*?)::(?:\s+(.*))?$', fdesc, re.DOTALL)
+                     or re.match(r'^([^:]+)::\s*(.*)$', fdesc, re.DOTALL)):
+                fname = m.group(1)
+                fdesc = m.group(2) or ''
     if fstr:
         if m := re.match(r'^(Link|Key)\((.*)\)$', fstr):
             fo = {m.group(1).lower(): True}
@@ -436,13 +445,6 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         if fopts:
             assert len(fopts) == 1 and fopts[0][0] == OPTION_ID['tagid']    # Update if additional field options defined
             fo.update({'tagid': fopts[0][1:]})      # if field name, MUST update to id after all fields have been read
-    if fdesc:
-        m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', fdesc)
-        fdesc = m.group(1)
-        if not fname:
-            if m := re.match(r'^([^:]+)::\s*(.*)$', fdesc):
-                fname = m.group(1)
-                fdesc = m.group(2)
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
 
 
-- 
2.43.0


From d7d483032a3fe3707d8c5f86829eff71352325c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 043/134] fix: show a field that is both a key and a link

---
 distribution/src/jadn/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 02aa5f7..8b847df 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -406,7 +406,8 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-        ftyperef = f'Key({ft})' if 'key' in fo else f'Link({ft})' if 'link' in fo else ft
+        ftyperef = f'Link({ft})' if 'link' in fo else ft
+        ftyperef = f'Key({ftyperef})' if 'key' in fo else ftyperef
         fmult = multiplicity_str(fo)
     return fname, ftyperef, fmult, fdesc
 
@@ -422,8 +423,8 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
                 fname = m.group(1)
                 fdesc = m.group(2) or ''
     if fstr:
-        if m := re.match(r'^(Link|Key)\((.*)\)$', fstr):
-            fo = {m.group(1).lower(): True}
+        while m := re.match(r'^(Link|Key)\((.*)\)$', fstr, re.DOTALL):
+            fo.update({m.group(1).lower(): True})
             fstr = m.group(2)
         ftyperef, topts, fopts = typestr2jadn(fstr)
         # Field is one of: enum.id, enum, field.id, field
-- 
2.43.0


From 510cbebaee191f7f63253f1d480254d7d0ae9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 044/134] fix: JIDL enumerated items may begin with an equals
 sign

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..5af7451 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -12,7 +12,7 @@ from ..utils import (fielddef2jadn, jadn2fielddef, jadn2typestr, typestr2jadn,
 from ..core import check
 
 # JIDL -> JADN Type regexes
-p_tname = r'\s*(\S+)'                   # Type Name
+p_tname = r'\s*([^\s\d=]\S*)'                   # Type Name
 p_assign = r'\s*='                      # Type assignment operator
 p_tstr = r'\s*(.*?)\s*\{?'              # Type definition
 
-- 
2.43.0


From 2b1dba9e55818768aecb84479ee55dbfe71ab9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 045/134] fix: JIDL type names may end with the word optional

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 5af7451..bdd6f9e 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -20,7 +20,7 @@ p_tstr = r'\s*(.*?)\s*\{?'              # Type definition
 p_id = r'\s*(\d+)'  # Field ID
 p_fname = r'\s+(\S+)' # Field Name
 p_fstr = r'\s*(.*?)'  # Field definition or Enum value
-p_range = r'\s*(?:\[([.*\w]+)\]|(optional))?'  # Multiplicity
+p_range = r'(?:\s+\[([.*\w]+)\]|\s+(optional))?'  # Multiplicity
 
 
 def jidl_style() -> dict:
-- 
2.43.0


From 13b51b77f1aabc9b2a9dcc616328804b7f8f0409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 046/134] fix: find the description of a JIDL definition that
 contains quotes

---
 distribution/src/jadn/convert/jidl.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index bdd6f9e..681a9b8 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -16,6 +16,9 @@ p_tname = r'\s*([^\s\d=]\S*)'                   # Type Name
 p_assign = r'\s*='                      # Type assignment operator
 p_tstr = r'\s*(.*?)\s*\{?'              # Type definition
 
+# JIDL line: definition, optional description - " //" may also occur in the pattern of a String
+p_line = r'^((?:(?! //|\{pattern=").)*(?:\{pattern=".+?"\}[^"]*?)?)(?: //(.*))?$'
+
 # JIDL -> JADN Field regexes
 p_id = r'\s*(\d+)'  # Field ID
 p_fname = r'\s+(\S+)' # Field Name
@@ -91,12 +94,9 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
 
-        q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
-        s = q.end() if q else 0
         desc = ''
-        if d := re.search(r' //', line[s:]):
-            desc = line[s + d.end():].strip()
-            line = line[:s + d.start()].strip()
+        if m := re.match(p_line, line):
+            line, desc = m.group(1).strip(), (m.group(2) or '').strip()
 
         p_type = fr'^{p_tname}{p_assign}{p_tstr}$'
         if m := re.match(p_type, line):
-- 
2.43.0


From 6f79f70d7bd5b103f24df69ccfe0b05cb0e08818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 047/134] fix: JIDL shows descriptions with line breaks in one
 line

---
 distribution/src/jadn/convert/jidl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 681a9b8..551ef25 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -60,11 +60,12 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
     for td in schema['types']:
         tdef = f'{td[TypeName]} = {jadn2typestr(td[BaseType], td[TypeOptions])}'
-        tdesc = ' // ' + td[TypeDesc] if td[TypeDesc] else ''
+        tdesc = ' // ' + ' '.join(td[TypeDesc].splitlines()) if td[TypeDesc] else ''
         text += f'\n{tdef:<{wt}}{tdesc}'[:w['page']].rstrip() + '\n'
         idt = id_type(td)
         for fd in td[Fields] if len(td) > Fields else []:       # TODO: constant-length types
             fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
+            fdesc = ' '.join(fdesc.splitlines())
             if td[BaseType] == 'Enumerated':
                 fdesc = ' // ' + fdesc if fdesc else ''
                 fs = f'{fd[ItemID]:>{w["id"]}} {fname}'
-- 
2.43.0


From 2379c573c9717a5780d0e2beaa0a9a2a69d96fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 048/134] fix: replace names of tag fields in the last type of
 JIDL and HTML documents

---
 distribution/src/jadn/convert/html.py | 1 +
 distribution/src/jadn/convert/jidl.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 6079f49..4c43e19 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -171,6 +171,7 @@ def html_loads(hdoc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    cleanup_tagid(fields or [])
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 551ef25..b26c7e4 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -140,6 +140,7 @@ def jidl_loads(doc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    cleanup_tagid(fields or [])
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From 678adc8a70343cf5db7552d02fa5729e83a850c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 049/134] fix: load JIDL files that have a header

---
 distribution/src/jadn/convert/jidl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index b26c7e4..24c20e8 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -124,6 +124,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
 
 
 def jidl_loads(doc: str) -> dict:
+    doc = re.sub(r'^\s*/\*.*?\*/', '', doc, count=1, flags=re.DOTALL)     # Skip 'Generated from' header
     info = {}
     types = []
     fields = None
-- 
2.43.0


From 87ab8b5e2fbca05617c8bb8dffd7d50cc4d092e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 050/134] fix: information items are shown in a fixed order

---
 distribution/src/jadn/convert/html.py     | 2 +-
 distribution/src/jadn/convert/jas_w.py    | 2 +-
 distribution/src/jadn/convert/jidl.py     | 2 +-
 distribution/src/jadn/convert/markdown.py | 2 +-
 distribution/src/jadn/convert/proto.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 4c43e19..76acac7 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -66,7 +66,7 @@ def html_dumps(schema: dict) -> str:
         if info := schema.get('info', None):
             with tag('div', klass='tBody'):
                 mlist = [k for k in INFO_ORDER if k in info]
-                for k in mlist + list({*info} - {*mlist}):
+                for k in mlist + [k for k in info if k not in mlist]:
                     with tag('div', klass='tRow'):
                         tag('div', f'{k}:', klass='tCell jKey')
                         tag('div', json.dumps(info[k]), klass='tCell jVal')
diff --git a/distribution/src/jadn/convert/jas_w.py b/distribution/src/jadn/convert/jas_w.py
index 61f8006..ea29a06 100644
--- a/distribution/src/jadn/convert/jas_w.py
+++ b/distribution/src/jadn/convert/jas_w.py
@@ -48,7 +48,7 @@ def jas_dumps(schema: dict) -> str:
     if info := schema.get('info'):
         jas += '/*\n'
         mlist = [k for k in INFO_ORDER if k in info]
-        for h in mlist + list(set(info) - set(mlist)):
+        for h in mlist + [k for k in info if k not in mlist]:
             if h == 'description':
                 jas += fill(info[h], width=80, initial_indent='{0:14} '.format(h+':'), subsequent_indent=15*' ') + '\n'
             elif h == 'imports':
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 24c20e8..8e788bb 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -54,7 +54,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         text += f'{k:>{w["info"]}}: {json.dumps(info[k])}\n'    # TODO: wrap to page width, continuation-line parser
 
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 4958bd1..9ad743a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -46,7 +46,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):      # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:      # Display info elements in fixed order
         text += f'{k:>14}: {json.dumps(info[k])}\n'     # TODO: wrap to width, continuation-line parser
 
     for td in schema['types']:
diff --git a/distribution/src/jadn/convert/proto.py b/distribution/src/jadn/convert/proto.py
index 6f13385..181f501 100644
--- a/distribution/src/jadn/convert/proto.py
+++ b/distribution/src/jadn/convert/proto.py
@@ -60,7 +60,7 @@ def proto_dumps(schema: dict, style: dict = None) -> str:
     text = 'syntax = "proto3";\n'
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         if k == 'package':
             text += f'package {uri_to_revid(info[k])};\n'
         else:
-- 
2.43.0


From 2b9d9915288df7ee0fe5d6a61103cf033da5a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 051/134] fix: HTML keeps descriptions of types with slashes
 and line breaks

---
 distribution/src/jadn/convert/html.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 76acac7..7e9b863 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -1,4 +1,3 @@
-import re
 import json
 
 from datetime import datetime
@@ -126,10 +125,7 @@ def line2jadn(lt: dict, tdef) -> Tuple[str, list]:
         btype, topts, fo = typestr2jadn(lt['jTstr'])
         assert fo == []                     # field options MUST not be included in typedefs
         tdesc = default(lt.get('jTdesc', ''), '')
-        if tdesc:
-            m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', tdesc)
-            tdesc = m.group(1)
-        return 'T', [lt['jTname'], btype, topts, tdesc, []]
+        return 'T', [lt['jTname'], btype, topts, tdesc.strip(), []]
     if 'jFid' in lt:
         fname = default(lt.get('jFname', ''), '')
         fstr = default(lt.get('jFstr', ''), '')
-- 
2.43.0


From cea4311418aca86b740f2b4378b9108cf0d1fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 052/134] fix: load HTML files by file object as the other
 loaders do

---
 distribution/src/jadn/convert/html.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 7e9b863..84e8091 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -1,7 +1,7 @@
 import json
 
 from datetime import datetime
-from typing import Generator, Tuple, Union
+from typing import Generator, TextIO, Tuple, Union
 from lxml import html
 from .utils import DocHTML
 from ..definitions import Fields, ItemID, ItemDesc, FieldID, INFO_ORDER, TypeDefinition
@@ -171,8 +171,10 @@ def html_loads(hdoc: str) -> dict:
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
-def html_load(fname: Union[bytes, str, int]) -> dict:
-    with open(fname, 'r') as f:
+def html_load(fp: Union[TextIO, bytes, str, int]) -> dict:
+    if hasattr(fp, 'read'):
+        return html_loads(fp.read())
+    with open(fp, 'r', encoding='utf8') as f:
         return html_loads(f.read())
 
 
-- 
2.43.0


From 37d77f43f68c341087b17c3b755d2ba9b1e0d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 053/134] fix: load_any does not require file objects to have a
 buffer

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index c9101c9..2d271a7 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -174,7 +174,7 @@ def load(fp: TextIO) -> dict:
 
 
 def load_any(fp: TextIO) -> dict:
-    name = getattr(fp, 'name', getattr(getattr(fp, 'buffer'), 'url', ''))
+    name = getattr(fp, 'name', '') or getattr(getattr(fp, 'buffer', None), 'url', '')
     fn, ext = os.path.splitext(name)
     try:
         loader = {
-- 
2.43.0


From f40a60b3f31defb57d2dac245fd49f077900ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 054/134] fix: JADN text is valid JSON for any keys and values

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 2d271a7..4aa1e2a 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -196,7 +196,7 @@ def dumps_rec(val: Any, level: int = 0, indent: int = 2, strip: bool = False) ->
     sep2 = ',\n' if strip else ',\n\n'
     if isinstance(val, dict):
         sep = ',\n' if level > 0 else sep2
-        lines = sep.join(f'{sp2}"{k}": {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
+        lines = sep.join(f'{sp2}{json.dumps(k, ensure_ascii=False)}: {dumps_rec(val[k], level + 1, indent, strip)}' for k in val)
         return f'{{\n{lines}\n{sp}}}'
     if isinstance(val, list):
         sep = ',\n' if level > 1 else sep2
@@ -207,7 +207,7 @@ def dumps_rec(val: Any, level: int = 0, indent: int = 2, strip: bool = False) ->
             return f"[\n{sep.join(vals)}\n{spn}]"
         vals = [f"{dumps_rec(v, level + 1, indent, strip)}" for v in val]
         return f"[{', '.join(vals)}]"
-    return '???'
+    return json.dumps(val, ensure_ascii=False)
 
 
 def dumps(schema: dict, strip: bool = False) -> str:
-- 
2.43.0


From 1df6e1d17798e124071e95799827127d7098732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 055/134] fix: load JADN files that have a header

---
 distribution/src/jadn/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 4aa1e2a..b287af3 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -5,6 +5,7 @@ import json
 import jsonschema
 import numbers
 import os
+import re
 import jadn
 
 from datetime import datetime
@@ -166,11 +167,12 @@ def analyze(schema: dict) -> dict:
 
 
 def loads(jadn_str: str) -> dict:
-    return check(json.loads(jadn_str))
+    doc = re.sub(r'\A\s*"Generated from .*"\s*\n', '', jadn_str)   # Skip header written by dump
+    return check(json.loads(doc))
 
 
 def load(fp: TextIO) -> dict:
-    return check(json.load(fp))
+    return loads(fp.read())
 
 
 def load_any(fp: TextIO) -> dict:
-- 
2.43.0


From cc7b6560c4df6fc6a488541d87cb5fc02cc53825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 056/134] fix: canonical form of Number limits

---
 distribution/src/jadn/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 8b847df..734c648 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -211,13 +211,10 @@ def canonicalize(schema: dict) -> dict:
             del_opt(olist, 'minc')
         if 'maxc' in fo and fo['maxc'] == 1:
             del_opt(olist, 'maxc')
-        if basetype == 'Number':           # TODO: fix corner case input = 2.000
-            minf = get_optx(olist, 'minf')
-            if minf is not None and '.' not in olist[minf]:
-                olist[minf] += '.0'
-            maxf = get_optx(olist, 'maxf')
-            if maxf is not None and '.' not in olist[maxf]:
-                olist[maxf] += '.0'
+        if basetype == 'Number':
+            for k in ('minf', 'maxf'):
+                if (x := get_optx(olist, k)) is not None:
+                    olist[x] = f'{olist[x][0]}{to[k]}'
 
     cschema = copy.deepcopy(schema)     # don't modify original
     for td in cschema['types']:
-- 
2.43.0


From 84c95b074d2ff806092a09bf72b2abfe520168de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 057/134] fix: sorted types are listed after all types that
 depend on them

---
 distribution/src/jadn/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 734c648..ab0709e 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -121,14 +121,16 @@ def topo_sort(deps: dict[str, list[str]], roots: list[str]) -> list[str]:
     Returns the sorted list of items.
     """
     out: list[str] = []
+    seen: set[str] = set()
 
     def walk_tree(it: str) -> None:
-        if it not in out:
-            out.append(it)
-            for i in deps.get(it, []):
+        if it not in seen:
+            seen.add(it)
+            for i in reversed(deps.get(it, [])):
                 walk_tree(i)
+            out.insert(0, it)       # All types that depend on it will be inserted before it
 
-    for item in roots:
+    for item in reversed(roots):
         walk_tree(item)
     out = out if out else list(deps)     # if cycle detected, don't sort
     return out
-- 
2.43.0


From 9daf40ef903d41da4bd9ac8ce536b842feab54f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 058/134] fix: dependency on the type enumerated by element or
 key types

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index ab0709e..b575762 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -98,7 +98,7 @@ def build_deps(schema: dict[str, list]) -> dict[str, list[str]]:
         oids = [OPTION_ID['ktype'], OPTION_ID['vtype']]
         # Options that enumerate fields: keep option id
         oids2 = [OPTION_ID['enum'], OPTION_ID['pointer']]
-        refs = [to[1:] for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
+        refs = [to[1:].lstrip(''.join(oids2)) for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
         refs += ([to[1:] for to in tdef[TypeOptions] if to[0] in oids2])
         if has_fields(tdef[BaseType]):  # Ignore Enumerated
             for f in tdef[Fields]:
-- 
2.43.0


From f3c44d1ee7fda2308e4e221157e8ec7492d0cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 059/134] fix: unreferenced and undefined types are reported in
 a fixed order

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index b287af3..4bb175f 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -160,8 +160,8 @@ def analyze(schema: dict) -> dict:
     dep_refs = {v for d in items for v in items[d]}
     refs = set(dep_refs) | set(roots)
     return {
-        'unreferenced': list(defs - refs),
-        'undefined': list(refs - defs),
+        'unreferenced': sorted(defs - refs),
+        'undefined': sorted(refs - defs),
         'cycles': [],
     }
 
-- 
2.43.0


From 88ff3478e3fc0fc473cdfeaccb734e124c80fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 060/134] fix: accept type definitions without optional
 trailing elements

---
 distribution/src/jadn/convert/diagram_w.py      |  4 ++--
 distribution/src/jadn/convert/jas_w.py          |  4 ++--
 distribution/src/jadn/convert/jidl.py           |  4 ++--
 distribution/src/jadn/convert/markdown.py       |  4 ++--
 distribution/src/jadn/convert/proto.py          |  4 ++--
 distribution/src/jadn/transform/transform.py    |  3 ++-
 distribution/src/jadn/translate/jsonschema_w.py |  4 ++--
 distribution/src/jadn/utils.py                  | 10 +++++++++-
 8 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9ba2b80..ac1b727 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -9,7 +9,7 @@ import re
 from datetime import datetime
 from ..definitions import (TypeName, BaseType, TypeOptions, PRIMITIVE_TYPES,
                            Fields, FieldID, FieldName, FieldType, FieldOptions)
-from ..utils import topts_s2d, ftopts_s2d, multiplicity_str, jadn2typestr, jadn2fielddef
+from ..utils import topts_s2d, ftopts_s2d, multiplicity_str, jadn2typestr, jadn2fielddef, full_types
 
 
 def diagram_style() -> dict:
@@ -165,7 +165,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')
     nodes = {tdef[TypeName]: k for k, tdef in enumerate(schema['types']) if tdef[BaseType] not in hide_types}
     edges = ''
-    for td in schema['types']:
+    for td in full_types(schema['types']):
         if (td[TypeName]) in nodes:
             bt = f' : {jadn2typestr(td[BaseType], td[TypeOptions])}' if s['detail'] == 'information' else ''
             if td[BaseType] in PRIMITIVE_TYPES:
diff --git a/distribution/src/jadn/convert/jas_w.py b/distribution/src/jadn/convert/jas_w.py
index ea29a06..8c7fccf 100644
--- a/distribution/src/jadn/convert/jas_w.py
+++ b/distribution/src/jadn/convert/jas_w.py
@@ -9,7 +9,7 @@ from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemDesc, FieldID, FieldName, FieldType, FieldOptions, FieldDesc,
     CORE_TYPES, INFO_ORDER, TYPE_OPTIONS, FIELD_OPTIONS
 )
-from ..utils import ftopts_s2d, topts_s2d
+from ..utils import ftopts_s2d, full_types, topts_s2d
 
 stype_map = {                   # Map JADN built-in types to JAS type names (Equivalent ASN.1 types in comments)
     'Binary': 'BINARY',         # OCTET STRING
@@ -69,7 +69,7 @@ def jas_dumps(schema: dict) -> str:
     assert {x[0] for x in FIELD_OPTIONS.values()} == folist               # Ensure field options list is up to date
 
     # Convert Types
-    for td in schema['types']:  # 0:type name, 1:base type, 2:type opts, 3:type desc, 4:fields
+    for td in full_types(schema['types']):  # 0:type name, 1:base type, 2:type opts, 3:type desc, 4:fields
         topts = topts_s2d(td[TypeOptions])
         tostr = ''
         v_range = ''
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 8e788bb..5ab8a76 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -8,7 +8,7 @@ from datetime import datetime
 from typing import TextIO, Union
 from ..definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
 from ..utils import (fielddef2jadn, jadn2fielddef, jadn2typestr, typestr2jadn,
-                     cleanup_tagid, raise_error, id_type, etrunc)
+                     cleanup_tagid, raise_error, id_type, etrunc, full_types)
 from ..core import check
 
 # JIDL -> JADN Type regexes
@@ -58,7 +58,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
         text += f'{k:>{w["info"]}}: {json.dumps(info[k])}\n'    # TODO: wrap to page width, continuation-line parser
 
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
-    for td in schema['types']:
+    for td in full_types(schema['types']):
         tdef = f'{td[TypeName]} = {jadn2typestr(td[BaseType], td[TypeOptions])}'
         tdesc = ' // ' + ' '.join(td[TypeDesc].splitlines()) if td[TypeDesc] else ''
         text += f'\n{tdef:<{wt}}{tdesc}'[:w['page']].rstrip() + '\n'
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 9ad743a..8b06ec6 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -7,7 +7,7 @@ import re
 from datetime import datetime
 from typing import Tuple, Union
 from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
-from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
+from jadn.utils import cleanup_tagid, full_types, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 
 # MARKDOWN -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -49,7 +49,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     for k in mlist + [k for k in info if k not in mlist]:      # Display info elements in fixed order
         text += f'{k:>14}: {json.dumps(info[k])}\n'     # TODO: wrap to width, continuation-line parser
 
-    for td in schema['types']:
+    for td in full_types(schema['types']):
         if len(td) > Fields and td[Fields]:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
             tdesc = f'\n{td[TypeDesc]}\n' if td[TypeDesc] else ''
diff --git a/distribution/src/jadn/convert/proto.py b/distribution/src/jadn/convert/proto.py
index 181f501..d85df41 100644
--- a/distribution/src/jadn/convert/proto.py
+++ b/distribution/src/jadn/convert/proto.py
@@ -9,7 +9,7 @@ from typing import NoReturn, Tuple, Union
 from urllib.parse import urlparse
 from ..definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, INFO_ORDER,\
                           ItemID, FieldID, FieldName, FieldOptions, FieldDesc
-from ..utils import cleanup_tagid, get_optx, fielddef2jadn, raise_error, typestr2jadn, topts_s2d, ftopts_s2d
+from ..utils import cleanup_tagid, full_types, get_optx, fielddef2jadn, raise_error, typestr2jadn, topts_s2d, ftopts_s2d
 
 # PROTO -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -66,7 +66,7 @@ def proto_dumps(schema: dict, style: dict = None) -> str:
         else:
             text += f'// {k:>{w["info"]}}: {json.dumps(info[k])}\n'  # TODO: wrap to page width, parse continuation
 
-    for td in schema['types']:
+    for td in full_types(schema['types']):
         topts = topts_s2d(td[TypeOptions])
         if td[TypeDesc]:
             text += f'// {td[TypeDesc]}\n'
diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index e47cfdd..ddb7ffd 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -11,7 +11,8 @@ from ..utils import (
 def strip_comments(schema: dict, width=0) -> dict:  # Strip or truncate comments from schema
     sc = copy.deepcopy(schema)
     for tdef in sc['types']:
-        tdef[TypeDesc] = etrunc(tdef[TypeDesc], width)
+        if len(tdef) > TypeDesc:
+            tdef[TypeDesc] = etrunc(tdef[TypeDesc], width)
         if len(tdef) > Fields:
             fd = ItemDesc if tdef[BaseType] == 'Enumerated' else FieldDesc
             for fdef in tdef[Fields]:
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..98b2369 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -11,7 +11,7 @@ from ..definitions import (
     FieldOptions, FieldDesc, OPTION_ID, is_builtin
 )
 from ..transform.transform import get_enum_items
-from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
+from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config, full_types
 
 
 # Consts
@@ -397,7 +397,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
     #  ref: generate $ref keywords that must be resolved before the JSON Schema can validate referenced types
 
     info = schema.get('info', {})
-    td = {t[TypeName]: t for t in schema['types']}    # Build index of type definitions
+    td = {t[TypeName]: t for t in full_types(schema['types'])}    # Build index of type definitions
     exports = [e for e in info.get('exports', []) if e in td]
     if isinstance(ns := info.get('namespaces', {}), dict):
         imported_types = {k: {} for k in ns}
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index b575762..29393b8 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -109,7 +109,7 @@ def build_deps(schema: dict[str, list]) -> dict[str, list[str]]:
                 refs += get_refs(['', f[FieldType], f[FieldOptions], ''])
         return refs
 
-    deps = {t[TypeName]: get_refs(t) for t in schema['types']}
+    deps = {t[TypeName]: get_refs(t) for t in full_types(schema['types'])}
     return deps
 
 
@@ -219,6 +219,7 @@ def canonicalize(schema: dict) -> dict:
                     olist[x] = f'{olist[x][0]}{to[k]}'
 
     cschema = copy.deepcopy(schema)     # don't modify original
+    cschema['types'] = full_types(cschema['types'])
     for td in cschema['types']:
         can_opts(td[TypeOptions], td[BaseType])
         for fd in td[Fields]:
@@ -474,6 +475,13 @@ def object_type_schema(schema: dict) -> dict:
     return sc
 
 
+def full_types(types: list[list]) -> list[list]:
+    """
+    Type definitions including optional trailing elements
+    """
+    return [list(TypeDefinition(*t)) for t in types]
+
+
 def list_types(types: list[TypeDefinition]) -> list[list]:
     return [[*t[:-1], [list(f) for f in t.Fields]] for t in types]
 
-- 
2.43.0


From 412609018f21cd9f0350a7cd878b69a59c618134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 061/134] fix: tagged fields of types named Key or Link

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 29393b8..d63a77b 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -423,7 +423,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
                 fname = m.group(1)
                 fdesc = m.group(2) or ''
     if fstr:
-        while m := re.match(r'^(Link|Key)\((.*)\)$', fstr, re.DOTALL):
+        while m := re.match(r'^(Link|Key)\((?!TagId\[)(.*)\)$', fstr, re.DOTALL):
             fo.update({m.group(1).lower(): True})
             fstr = m.group(2)
         ftyperef, topts, fopts = typestr2jadn(fstr)
-- 
2.43.0


From a598c256f1546921df8288f29a6175b2bca34744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 062/134] fix: types generated by unfold_extensions have valid,
 unused names

---
 distribution/src/jadn/transform/transform.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index ddb7ffd..dc77d21 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -1,4 +1,5 @@
 import copy
+import re
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
@@ -22,6 +23,17 @@ def strip_comments(schema: dict, width=0) -> dict:  # Strip or truncate comments
 
 # Remove extensions from schema
 
+# Return a valid name for a generated type that is not already in use
+def unused_name(schema: dict, name: str, sys: str) -> str:
+    name = re.sub(r'[^-$A-Za-z0-9]', '-', name)     # Characters in field names that aren't allowed in type names
+    names = {t.TypeName for t in schema['types']}
+    newname, n = name[:64], 1
+    while newname in names:
+        n += 1
+        newname = f"{name[:64 - len(f'{sys}{n}')]}{sys}{n}"
+    return newname
+
+
 # Replace Key and Link options with explicit types
 def unfold_link(schema: dict, sys: str) -> NoReturn:
     ltypes = []     # Types that have links
@@ -36,7 +48,7 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'key' in fo:
                     if (newname := fdef.FieldType) not in typex:
-                        newname = f'{tdef.TypeName}{sys}{fdef.FieldName}'
+                        newname = unused_name(schema, f'{tdef.TypeName}{sys}{fdef.FieldName}', sys)
                         newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
                         schema['types'].append(TypeDefinition(newname, fdef.FieldType, newopts, fdef.FieldDesc))
                         fdef.FieldType = newname           # Redirect field to explicit type definition
@@ -72,7 +84,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
 # Move type options of a field to a new explicit type, return its name
 def new_type(schema: dict, fdef: GenFieldDefinition, fto: List[str], newname: str, sys: str) -> str:
     newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
-    newname = epname(newopts, sys) or newname       # If enum/pointer option, use derived enum typename
+    newname = epname(newopts, sys) or unused_name(schema, newname, sys)     # If enum/pointer option, use derived enum typename
     if newname not in [t.TypeName for t in schema['types']]:
         newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
         assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
@@ -98,7 +110,7 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                         **({'unique': True} if 'unique' in fto else {})  # Move unique option to ArrayOf
                     }
                     # Point existing field to new ArrayOf
-                    fdef.FieldType = f'{tdef.TypeName}{sys}{fdef.FieldName}'
+                    fdef.FieldType = unused_name(schema, f'{tdef.TypeName}{sys}{fdef.FieldName}', sys)
                     schema['types'].append(TypeDefinition(fdef.FieldType, 'ArrayOf', opts_d2s(newopts), fdef.FieldDesc))
                     # Remove unused FieldOptions
                     del_opt(fdef.FieldOptions, 'maxc')
-- 
2.43.0


From c91f546635d75d78101e17fdbea8ec7c32b250ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 063/134] fix: primary keys that are links or references to
 other packages are unfolded

---
 distribution/src/jadn/transform/transform.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index dc77d21..fc5a87e 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -38,7 +38,7 @@ def unused_name(schema: dict, name: str, sys: str) -> str:
 def unfold_link(schema: dict, sys: str) -> NoReturn:
     ltypes = []     # Types that have links
     keys = {}       # Key names for types that have keys
-    typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
+    linked = {}     # Types linked to by a primary key
     for tdef in list(schema['types']):
         if tdef.BaseType == 'MapOf':
             to = topts_s2d(tdef.TypeOptions)
@@ -47,22 +47,29 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
             for fdef in tdef.Fields:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'key' in fo:
-                    if (newname := fdef.FieldType) not in typex:
+                    if 'link' in fo:
+                        linked.update({tdef.TypeName: fdef.FieldType})
+                    elif is_builtin(newname := fdef.FieldType):
                         newname = unused_name(schema, f'{tdef.TypeName}{sys}{fdef.FieldName}', sys)
                         newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
                         schema['types'].append(TypeDefinition(newname, fdef.FieldType, newopts, fdef.FieldDesc))
                         fdef.FieldType = newname           # Redirect field to explicit type definition
-                    keys.update({tdef.TypeName: newname})
+                    if 'link' not in fo:
+                        keys.update({tdef.TypeName: newname})
                     del_opt(fdef.FieldOptions, 'key')
-                elif 'link' in fo and tdef not in ltypes:
+                if 'link' in fo and tdef not in ltypes:
                     ltypes.append(tdef)
     for tdef in ltypes:
         for fdef in tdef.Fields:
             fo, fto = ftopts_s2d(fdef.FieldOptions)
             if 'link' in fo:
                 del_opt(fdef.FieldOptions, 'link')
+                target, path = fdef.FieldType, set()
+                while target in linked and target not in path:     # Primary key of target is itself a link
+                    path.add(target)
+                    target = linked[target]
                 try:
-                    fdef.FieldType = keys[fdef.FieldType]
+                    fdef.FieldType = keys[target]
                 except KeyError:
                     raise_error(f'{tdef.TypeName}/{fdef.FieldName}: "{fdef.FieldType}" has no primary key')
 
-- 
2.43.0


From 6e14dc78a90c0c8a208d6076d464784d5a3bf4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 064/134] fix: links to maps with derived enumerated keys are
 unfolded

---
 distribution/src/jadn/transform/transform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index fc5a87e..66de9f9 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -68,10 +68,13 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                 while target in linked and target not in path:     # Primary key of target is itself a link
                     path.add(target)
                     target = linked[target]
-                try:
-                    fdef.FieldType = keys[target]
-                except KeyError:
+                if (key := keys.get(target)) is None:
                     raise_error(f'{tdef.TypeName}/{fdef.FieldName}: "{fdef.FieldType}" has no primary key')
+                if key[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):     # MapOf(derived enumeration, ..)
+                    fdef.FieldType = 'Enumerated'
+                    fdef.FieldOptions.append(key)
+                else:
+                    fdef.FieldType = key
 
 
 # Return option array index of enum or pointer option
-- 
2.43.0


From dbd4c7d8dcbbc17d757b12f202d07d61a08f5627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 065/134] fix: removing MapOfEnum lists the items of derived
 enumerated keys

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 66de9f9..046c908 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -233,7 +233,7 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
         unfold_multiplicity(sc, sys)
     if 'AnonymousType' in extensions:           # Expand inline definitions into named type definitions
         unfold_anonymous_types(sc, sys)
-    if 'DerivedEnum' in extensions:             # Generate Enumerated list of fields or JSON Pointers
+    if 'DerivedEnum' in extensions or 'MapOfEnum' in extensions:    # Generate Enumerated list of fields or JSON Pointers
         unfold_derived_enum(sc, sys)
     if 'MapOfEnum' in extensions:               # Generate explicit Map from MapOf
         unfold_map_of_enum(sc)
-- 
2.43.0


From c52028bbce056d58a15eb14ee71027ab04759986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:46 +0000
Subject: [PATCH 066/134] fix: removing Multiplicity keeps the target of
 repeated links

---
 distribution/src/jadn/transform/transform.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 046c908..973a126 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -77,6 +77,12 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                     fdef.FieldType = key
 
 
+# Multi-value links, which can't be expanded into ArrayOf definitions while they are links
+def multiple_links(schema: dict) -> bool:
+    fopts = [ftopts_s2d(f.FieldOptions)[0] for t in schema['types'] if has_fields(t.BaseType) for f in t.Fields]
+    return any('link' in fo and fo.get('maxc', 1) != 1 for fo in fopts)
+
+
 # Return option array index of enum or pointer option
 def epx(topts: List[OPTION_TYPES]) -> Union[int, float, str, None]:
     ex = get_optx(topts, 'enum')
@@ -227,9 +233,10 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
     sys = '$'  # Character reserved for tool-generated TypeNames
     sc = object_type_schema(copy.deepcopy(schema))  # Don't modify original schema
 
-    if 'Link' in extensions:                    # Replace Key and Link options with explicit types
+    multiple = 'Multiplicity' in extensions or 'AnonymousType' in extensions
+    if 'Link' in extensions or (multiple and multiple_links(sc)):       # Replace Key and Link options with explicit types
         unfold_link(sc, sys)
-    if 'Multiplicity' in extensions or 'AnonymousType' in extensions:   # Expand repeated types into ArrayOf defintions
+    if multiple:                                # Expand repeated types into ArrayOf defintions
         unfold_multiplicity(sc, sys)
     if 'AnonymousType' in extensions:           # Expand inline definitions into named type definitions
         unfold_anonymous_types(sc, sys)
-- 
2.43.0


From 27b758875b8e656dd00eb4f10c2df1a61ffcd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 067/134] fix: unfolding in steps does not define derived
 enumerations twice

---
 distribution/src/jadn/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 973a126..4865811 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -154,8 +154,8 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
         n = get_optx(opts, optname)
         if n is not None:
             if name := epname([opts[n][1:]], sys):
-                if name in enums:       # Reference existing Enumerated type
-                    opts[n] = f'{opts[n][:1]}{enums[name]}'
+                if name in enums or name in typex:      # Reference existing Enumerated type
+                    opts[n] = f'{opts[n][:1]}{enums.get(name, name)}'
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
-- 
2.43.0


From 9493be62796f018edfd2c52a0366f6e8a941bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 068/134] fix: removing MapOfEnum keeps the key type of links
 to maps

---
 distribution/src/jadn/transform/transform.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 4865811..3975cc7 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -77,10 +77,12 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                     fdef.FieldType = key
 
 
-# Multi-value links, which can't be expanded into ArrayOf definitions while they are links
-def multiple_links(schema: dict) -> bool:
-    fopts = [ftopts_s2d(f.FieldOptions)[0] for t in schema['types'] if has_fields(t.BaseType) for f in t.Fields]
-    return any('link' in fo and fo.get('maxc', 1) != 1 for fo in fopts)
+# True if there are links that can't be left in place: multi-value fields being expanded, keys of MapOf being replaced
+def links_used(schema: dict, multiple: bool, mapof: bool) -> bool:
+    btype = {t.TypeName: t.BaseType for t in schema['types']}
+    links = [(f, fo) for t in schema['types'] if has_fields(t.BaseType) for f in t.Fields
+             if 'link' in (fo := ftopts_s2d(f.FieldOptions)[0])]
+    return any(multiple and fo.get('maxc', 1) != 1 or mapof and btype.get(f.FieldType) == 'MapOf' for f, fo in links)
 
 
 # Return option array index of enum or pointer option
@@ -234,7 +236,7 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
     sc = object_type_schema(copy.deepcopy(schema))  # Don't modify original schema
 
     multiple = 'Multiplicity' in extensions or 'AnonymousType' in extensions
-    if 'Link' in extensions or (multiple and multiple_links(sc)):       # Replace Key and Link options with explicit types
+    if 'Link' in extensions or links_used(sc, multiple, 'MapOfEnum' in extensions):      # Replace Key and Link options with explicit types
         unfold_link(sc, sys)
     if multiple:                                # Expand repeated types into ArrayOf defintions
         unfold_multiplicity(sc, sys)
-- 
2.43.0


From 243bdaf2632e6d7584e3fe2e671d7a40e758470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 069/134] fix: schemas with links to types of other packages
 can be unfolded

---
 distribution/src/jadn/transform/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3975cc7..0bc33b8 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -39,6 +39,7 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
     ltypes = []     # Types that have links
     keys = {}       # Key names for types that have keys
     linked = {}     # Types linked to by a primary key
+    defined = {t.TypeName for t in schema['types']}
     for tdef in list(schema['types']):
         if tdef.BaseType == 'MapOf':
             to = topts_s2d(tdef.TypeOptions)
@@ -68,6 +69,8 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
                 while target in linked and target not in path:     # Primary key of target is itself a link
                     path.add(target)
                     target = linked[target]
+                if target not in defined:       # Key of an imported, undefined or built-in type is not known
+                    continue
                 if (key := keys.get(target)) is None:
                     raise_error(f'{tdef.TypeName}/{fdef.FieldName}: "{fdef.FieldType}" has no primary key')
                 if key[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):     # MapOf(derived enumeration, ..)
-- 
2.43.0


From f4c3b14a506ccfb17a083ee3840b3ea2168ab2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 070/134] fix: JSON Schema is generated from core definitions
 (links, pointers, derived enumerations, maps with enumerated keys)

---
 distribution/src/jadn/translate/jsonschema_w.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 98b2369..dfdb329 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -10,7 +10,7 @@ from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldID, FieldName, FieldType,
     FieldOptions, FieldDesc, OPTION_ID, is_builtin
 )
-from ..transform.transform import get_enum_items
+from ..transform.transform import get_enum_items, unfold_extensions
 from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config, full_types
 
 
@@ -397,7 +397,8 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
     #  ref: generate $ref keywords that must be resolved before the JSON Schema can validate referenced types
 
     info = schema.get('info', {})
-    td = {t[TypeName]: t for t in full_types(schema['types'])}    # Build index of type definitions
+    schema = unfold_extensions({'types': full_types(schema['types'])})  # Links, derived enums, maps with enumerated keys
+    td = {t[TypeName]: t for t in schema['types']}      # Build index of type definitions
     exports = [e for e in info.get('exports', []) if e in td]
     if isinstance(ns := info.get('namespaces', {}), dict):
         imported_types = {k: {} for k in ns}
-- 
2.43.0


From 86b237b4a5cb27d4d4f5bf062978696f61f7525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:06 +0000
Subject: [PATCH 071/134] fix: JSON Schema elements, keys and values of Binary
 or imported types have definitions

---
 distribution/src/jadn/translate/jsonschema_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index dfdb329..d377069 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -109,7 +109,9 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
         fields = get_enum_items(tdef, topts, ctx['type_defs'])
         idopt = 'id' in topts
         return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
-    return {'$ref': f'#/definitions/{stype}'}
+    if is_builtin(stype):
+        return w_type(['', stype, [], '', []], {}, ctx)
+    return w_ref(stype, ctx)
 
 
 def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
-- 
2.43.0


From b54510de91dce9fd5458e2dc63fcbe6ecd05cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 072/134] fix: JSON Schema for MapOf describes an object with
 any number of keys

---
 .../src/jadn/translate/jsonschema_w.py        | 60 ++++---------------
 1 file changed, 10 insertions(+), 50 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index d377069..5bb89d1 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -300,56 +300,16 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
-    items = get_items(topts['ktype'], ctx)
-    vtype = w_kvtype(topts['vtype'], ctx)
-    ktype = w_kvtype(topts['ktype'], ctx)
-    
-    opts = tdef[TypeOptions]
-    k_opt = opts[0]
-    k_name = k_opt[1:]
-    
-    v_opt = opts[1]
-    v_name = v_opt[1:]
-    
-    key_array = ctx.get('type_defs', {}).get(k_name)
-    key_type = key_array[1]
-    
-    merged = {}
-    if key_type == 'String':
-        merged = dmerge(
-            w_td('object', tdef[TypeDesc]),
-            {'additionalProperties': False},
-            {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-            {'patternProperties': {pattern(items): vtype}} if items and ctx['enum_style'] == 'regex' else {}
-        )
-        
-        properties = {
-            k_name : ktype,
-            v_name : vtype
-        }        
-        
-        merged['properties'] = properties
-    else:
-        merged = dmerge(
-            w_td('array', tdef[TypeDesc]),
-            {'additionalItems': False},
-            {'uniqueItems': True},
-            {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        )
-        
-        _items = {
-            "type" : "object",
-            "properties": {
-                k_name : ktype,
-                v_name : vtype
-            }
-        }
-        
-        merged['items'] = _items   
-    
-    return merged
+    ktype = topts['ktype']
+    btype = ktype if is_builtin(ktype) else ctx['type_defs'].get(ktype, [ktype, ''])[BaseType]
+    return dmerge(
+        w_td('object', tdef[TypeDesc]),
+        {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
+        {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
+        {'propertyNames': w_kvtype(ktype, ctx)} if btype in ('String', 'Binary') else {},     # JSON names are strings
+        {'propertyNames': {'pattern': '^-?[0-9]+$'}} if btype == 'Integer' else {},
+        {'additionalProperties': w_kvtype(topts['vtype'], ctx)}
+    )
 
 
 # Type Map Util
-- 
2.43.0


From e216a7d4d531b161788ab217ff70e65b3eef82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 073/134] fix: JSON Schema for Array and concise Record has the
 codec's required and omitted elements

---
 distribution/src/jadn/translate/jsonschema_w.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 5bb89d1..7169b4a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -264,12 +264,15 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
     fmt = w_format(topts['format']) if 'format' in topts else {}
     if fmt:
         return dmerge(w_td('string', tdef[TypeDesc]), fmt)
-    return dmerge(
+    optional = [ftopts_s2d(f[FieldOptions])[0].get('minc', 1) == 0 for f in tdef[Fields]]
+    minv = max([topts.get('minv', 0)] + [n for n, opt in enumerate(optional, 1) if not opt])
+    items = [w_fdef(f, ctx) for f in tdef[Fields]]
+    return dmerge(      # Omitted elements are null
         w_td('array', tdef[TypeDesc]),
         {'additionalItems': False},
-        {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-        {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        {'items': [w_fdef(f, ctx) for f in tdef[Fields]]}
+        {'minItems': minv} if minv != 0 else {},
+        {'maxItems': len(items)},
+        {'items': [{'anyOf': [i, {'type': 'null'}]} if opt else i for i, opt in zip(items, optional)]} if items else {}
     )
 
 
-- 
2.43.0


From d831ed1216d251f0441f487e41e3833525e19251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 074/134] fix: JSON Schema pattern for ipv6-addr does not
 require a scope id

---
 distribution/src/jadn/translate/jsonschema_w.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 7169b4a..e4d95a5 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -20,9 +20,9 @@ JADN_FMT = {
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
     'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
-    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)$'},
+    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
-    'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?s*(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
+    'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
     'i16': {'minimum': -32768, 'maximum': 32767},
     'i32': {'minimum': -2147483648, 'maximum': 2147483647}
-- 
2.43.0


From 6805665b230486c3f6a02de44d2b0166553705d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:15 +0000
Subject: [PATCH 075/134] fix: JSON Schema integers have the limits and text
 form of their format

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index e4d95a5..1692455 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -25,7 +25,8 @@ JADN_FMT = {
     'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
     'i16': {'minimum': -32768, 'maximum': 32767},
-    'i32': {'minimum': -2147483648, 'maximum': 2147483647}
+    'i32': {'minimum': -2147483648, 'maximum': 2147483647},
+    'i64': {'minimum': -9223372036854775808, 'maximum': 9223372036854775807}
 }
 
 CONFIG_MAX = {
@@ -205,10 +206,16 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
+    fmt = topts.get('format')
+    if fmt == 'datetime-ms':        # Serialized as text
+        return dmerge(w_td('string', tdef[TypeDesc]), {'format': 'date-time'})
+    lim = JADN_FMT.get(fmt, {})
+    minv = [v for v in (topts.get('minv'), lim.get('minimum')) if v is not None]
+    maxv = [v for v in (topts.get('maxv'), lim.get('maximum')) if v is not None]
     return dmerge(
         w_td('integer', tdef[TypeDesc]),
-        {'minimum': topts['minv']} if 'minv' in topts else {},
-        {'maximum': topts['maxv']} if 'maxv' in topts else {}
+        {'minimum': max(minv)} if minv else {},
+        {'maximum': min(maxv)} if maxv else {}
     )
 
 
-- 
2.43.0


From 085ba36a23b4c5daca0feba5485fb2bb5c198946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 076/134] fix: JSON Schema properties of types with field ids
 are ids

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 1692455..2e250d9 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -177,6 +177,13 @@ def w_fdef(f: list, ctx: dict) -> dict:
     )
 
 
+def w_key(f: list, topts: dict) -> str:
+    """
+    Make property name: field name, or field id if type has the id option
+    """
+    return str(f[FieldID]) if 'id' in topts else f[FieldName]
+
+
 def w_format(fmt: str) -> dict:
     """
     Make semantic validation keywords
@@ -262,7 +269,7 @@ def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
             'additionalProperties': False,
             'minProperties': 1,
             'maxProperties': 1,
-            'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}
+            'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}
         }
     )
 
@@ -298,14 +305,14 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
         fo = ftopts_s2d(f[FieldOptions])[0]
         return fo['minc'] >= 1 if 'minc' in fo else True
 
-    required = [f[FieldName] for f in tdef[Fields] if req(f)]
+    required = [w_key(f, topts) for f in tdef[Fields] if req(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
         {'required': required} if required else {},
         {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-        {'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}}
+        {'properties': {w_key(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}}
     )
 
 
-- 
2.43.0


From fc8be20e6b1602795ba5d9fb024475dfef7af4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 077/134] fix: JSON Schema regex for enumerated items escapes
 their text and ids stay integers

---
 distribution/src/jadn/translate/jsonschema_w.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 2e250d9..a8c36df 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -76,7 +76,7 @@ def pattern(vals: list) -> str:
     Return a regex string from a list of values
     """
 
-    return f"^({'|'.join(map(str, vals))})$"
+    return f"^({'|'.join(re.sub(r'([][^$.*+?(){}|/\\])', r'\\\1', v) for v in map(str, vals))})$"
 
 
 # === Return JSON Schema keywords
@@ -125,7 +125,7 @@ def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     values = [f[vcol] for f in fields]
     es = ctx['enum_style']
     assert es in ['enum', 'const', 'regex']
-    if es == 'regex':
+    if es == 'regex' and not idopt:     # ids are not strings
         return {'type': 'string', 'pattern': pattern(values)}
     if es == 'const':
         return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[dcol], idopt)} for f in fields]}
@@ -251,7 +251,7 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
     item, tname = (ItemID, 'integer') if 'id' in topts else (ItemValue, 'string')
     fields = get_enum_items(tdef, topts, ctx['type_defs'])
-    dcol = FieldDesc if 'enum' in topts or 'pointer' in topts else ItemDesc
+    dcol = ItemDesc
     return dmerge(
         w_td(tname, tdef[TypeDesc]),
         w_enum(fields, item, dcol, 'id' in topts, ctx)
-- 
2.43.0


From bbedece3537480e992a682ebba4da07e7e3e9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 078/134] fix: JSON Schema union alternatives have their own
 options and description

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index a8c36df..a0a3385 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -261,7 +261,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [TYPE_WRITERS[f[FieldType]](tdef, topts, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 7470ad4f857e157986ce7010568f81b72410b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:30 +0000
Subject: [PATCH 079/134] fix: JSON Schema for externally tagged choices
 describes the selected value

---
 distribution/src/jadn/translate/jsonschema_w.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index a0a3385..c6c555d 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -155,6 +155,14 @@ def w_ref(tname: str, ctx: dict) -> dict:
     return {'$ref': f'#/definitions/{tn}'}
 
 
+def choice_fields(tname: str, ctx: dict) -> list:
+    """
+    Return fields of a tagged choice
+    """
+    tdef = ctx['type_defs'].get(tname, [tname, '', [], '', []])
+    return tdef[Fields] if tdef[BaseType] == 'Choice' and 'combine' not in topts_s2d(tdef[TypeOptions]) else []
+
+
 def w_fdef(f: list, ctx: dict) -> dict:
     """
     Make field definition
@@ -162,6 +170,8 @@ def w_fdef(f: list, ctx: dict) -> dict:
     fopts, topts = ftopts_s2d(f[FieldOptions])
     if is_builtin(f[FieldType]):
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
+    elif 'tagid' in fopts and (fields := choice_fields(f[FieldType], ctx)):     # Value of the selected choice
+        t = {'description': f[FieldDesc], 'anyOf': [w_fdef(c, ctx) for c in fields]}
     else:
         t = dmerge(w_ref(f[FieldType], ctx), {'description': f[FieldDesc]})
 
-- 
2.43.0


From 4fe0115bccd5da9db51b7de0ca0f7bfa362bafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 080/134] fix: JSON Schema top level admits the roots of the
 schema

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index c6c555d..becf36b 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -388,7 +388,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
     info = schema.get('info', {})
     schema = unfold_extensions({'types': full_types(schema['types'])})  # Links, derived enums, maps with enumerated keys
     td = {t[TypeName]: t for t in schema['types']}      # Build index of type definitions
-    exports = [e for e in info.get('exports', []) if e in td]
+    exports = [e for e in info.get('roots', info.get('exports', [])) if e in td]     # Exports is deprecated
     if isinstance(ns := info.get('namespaces', {}), dict):
         imported_types = {k: {} for k in ns}
     elif isinstance(ns, list):
-- 
2.43.0


From ee5bb2dfda7002c9e6356bf23f687e3caeec76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 081/134] fix: JSON Schema refers to the namespaces of imported
 types

---
 distribution/src/jadn/translate/jsonschema_w.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index becf36b..9fb7f13 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -149,8 +149,8 @@ def w_ref(tname: str, ctx: dict) -> dict:
     nsid, tn = tname.split(':', maxsplit=1) if ':' in tname else [None, tname]
     assert not is_builtin(tn)
     if nsid:
-        imp = {'$ref': f"{ctx['info_imps'][nsid]}/definitions/{tn}"} if ctx['import_style'] == 'ref' and ctx['info_imps'] is not None else {}
-        ctx['imported_types'][nsid].update({tn: imp})
+        imp = {'$ref': f"{ctx['info_imps'][nsid]}#/definitions/{tn}"} if ctx['import_style'] == 'ref' and nsid in ctx['info_imps'] else {}
+        ctx['imported_types'].setdefault(nsid, {}).update({tn: imp})
         return {'$ref': f'#/imports/{nsid}/{tn}'}
     return {'$ref': f'#/definitions/{tn}'}
 
@@ -392,7 +392,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
     if isinstance(ns := info.get('namespaces', {}), dict):
         imported_types = {k: {} for k in ns}
     elif isinstance(ns, list):
-        imported_types = {k[0]: {} for k in ns}
+        imported_types = {k[0]: {} for k in ns}     # List of [namespace id, namespace]
     ctx = {  # Translation context
         'config': get_config(info),
         'type_defs': td,
@@ -400,7 +400,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
         'enum_style': enum_style,
         'imported_types': imported_types,
         'import_style': import_style,
-        'info_imps': info['imports'] if 'imports' in info else None
+        'info_imps': dict(info.get('namespaces', {}))
     }
 
     def tt(tdef: list, ctx: dict):  # Return type definition with title
-- 
2.43.0


From 47febdda9e285e214ff1b84b49383e7a2e71aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 082/134] fix: JSON Schema includes the schema comment

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 9fb7f13..ef1142a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -415,7 +415,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
         {'title': info['title']} if 'title' in info else {},    # TODO: use items from INFO_ORDER
         {'version': info['version']} if 'version' in info else {},
         {'description': info['description']} if 'description' in info else {},
-        {'comments': info['comments']} if 'comments' in info else {},
+        {'$comment': info['comment']} if 'comment' in info else {},
         {'copyright': info['copyright']} if 'copyright' in info else {},
         {'license': info['license']} if 'license' in info else {},
         w_export(exports, ctx),
-- 
2.43.0


From e7503990fe1f8b11a66d4e6dd1992ced31352e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 083/134] fix: JSON Schema file with a source header is valid
 JSON

---
 distribution/src/jadn/translate/jsonschema_w.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index ef1142a..0a939ff 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -425,7 +425,9 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
+    doc = json_schema_dumps(jadn, verbose, enum_style, import_style)
+    if source:      # JSON does not have comments
+        header = {'$comment': f'Generated from {source}, {datetime.ctime(datetime.now())}'}
+        doc = json.dumps(dmerge(header, json.loads(doc)), indent=2)
     with open(fname, 'w') as f:
-        if source:
-            f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
-        f.write(json_schema_dumps(jadn, verbose, enum_style, import_style))
+        f.write(doc)
-- 
2.43.0


From 20706754c4f1b5bf6d37b1d6979f6123229f22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 084/134] fix: JSON Schema pattern for eui accepts addresses
 without separators

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 0a939ff..50341b0 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -18,7 +18,7 @@ from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config, full_types
 JADN_FMT = {
     'x': {'contentEncoding': 'base16'},
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
-    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
+    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]?){5}[0-9A-Fa-f]{2}(([:-]?[0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
     'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
-- 
2.43.0


From 210d7c6b5bac323584c5aa0c4a989d73b8bda5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 085/134] fix: JSON Schema for sets requires unique items

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 50341b0..a318aad 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -303,7 +303,7 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
         w_td('array', tdef[TypeDesc]),
-        {'uniqueItems': True} if 'unique' in topts else {},
+        {'uniqueItems': True} if 'unique' in topts or 'set' in topts else {},
         {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxItems': topts['maxv']} if 'maxv' in topts else {},
         {'items': w_kvtype(topts['vtype'], ctx)}
-- 
2.43.0


From cde24939f577d82ee5d27cb9f9957c98f6fd1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:30 +0000
Subject: [PATCH 086/134] fix: Markdown table cells may contain delimiters and
 line breaks

---
 distribution/src/jadn/convert/markdown.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 8b06ec6..ca25c1f 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -52,7 +52,8 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     for td in full_types(schema['types']):
         if len(td) > Fields and td[Fields]:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
-            tdesc = f'\n{td[TypeDesc]}\n' if td[TypeDesc] else ''
+            tdesc = one_line(td[TypeDesc])
+            tdesc = f'\n{tdesc}\n' if tdesc else ''
             text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
             idt = td[BaseType] == 'Array' or get_optx(td[TypeOptions], 'id') is not None
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
@@ -83,11 +84,21 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     return text
 
 
+def one_line(text: str) -> str:
+    return re.sub(r'\s*[\r\n]\s*', ' ', text).strip()
+
+
+def table_cell(text: str) -> str:
+    # A cell is on a single line, and a delimiter within it is escaped unless it already is
+    return re.sub(r'(?<!\\)((?:\\\\)*)\|', r'\1\\|', one_line(text))
+
+
 def format_table(rows: list) -> str:
-    cwidth = [len(data.strip()) for data in rows[0]]
+    rows = [[table_cell(c) for c in r] for r in rows]
+    cwidth = [len(data) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-            cwidth[c] = max(cwidth[c], len(row[c].strip()))
+            cwidth[c] = max(cwidth[c], len(row[c]))
     hbar = f'|{"|".join(["-" * (c + 2) for c in cwidth])}|'
     cf = f'| {" | ".join(["{:" + str(c) + "}" for c in cwidth])} |'
     return '\n'.join([cf.format(*rows[0])] + [hbar] + [cf.format(*r) for r in rows[1:]])
-- 
2.43.0


From 049fc7a71389df22a76e1fdb9eda0197ebbccc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 087/134] fix: Markdown tables of union types have no empty
 name column

---
 distribution/src/jadn/convert/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index ca25c1f..e390087 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -7,7 +7,7 @@ import re
 from datetime import datetime
 from typing import Tuple, Union
 from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
-from jadn.utils import cleanup_tagid, full_types, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
+from jadn.utils import cleanup_tagid, full_types, get_optx, id_type, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 
 # MARKDOWN -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -55,7 +55,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
             tdesc = one_line(td[TypeDesc])
             tdesc = f'\n{tdesc}\n' if tdesc else ''
             text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
-            idt = td[BaseType] == 'Array' or get_optx(td[TypeOptions], 'id') is not None
+            idt = id_type(td)
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
             table = [
                 [['ID', 'Description']],
-- 
2.43.0


From 792b036a423cc7da0bb780690d812f206aaef285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 088/134] fix: Markdown shows labels and descriptions
 containing "::" as they are

---
 distribution/src/jadn/convert/markdown.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index e390087..44d40ea 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -6,7 +6,7 @@ import re
 
 from datetime import datetime
 from typing import Tuple, Union
-from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
+from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemDesc, FieldID, FieldDesc, INFO_ORDER
 from jadn.utils import cleanup_tagid, full_types, get_optx, id_type, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 
 # MARKDOWN -> JADN Type regexes
@@ -67,8 +67,9 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
                 fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
                 fdef = fdef.replace('*', '\*')
                 fmult = fmult.replace('*', '\*')
-                dsc = fdesc.split('::', maxsplit=2)
-                fdesc = f'**{dsc[0]}** - {dsc[1].strip()}' if len(dsc) == 2 else fdesc
+                if idt:     # Field name is a label in the description
+                    desc = fd[ItemDesc if td[BaseType] == 'Enumerated' else FieldDesc]
+                    fdesc = f"**{fdesc[:len(fdesc) - len(':: ' + desc)]}** - {desc}"
                 if table_type == 0:
                     table.append([str(fd[ItemID]), fdesc])
                 elif table_type == 1:
-- 
2.43.0


From b00bd693b41439da78a39a7f5e7184873b04efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 089/134] fix: Markdown shows names, patterns and ranges as
 they are

---
 distribution/src/jadn/convert/markdown.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 44d40ea..46ef928 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -54,22 +54,23 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
             tdesc = one_line(td[TypeDesc])
             tdesc = f'\n{tdesc}\n' if tdesc else ''
-            text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
+            text += f'{tdesc}\n**Type: {escape(tdef)}**\n'
             idt = id_type(td)
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
             table = [
                 [['ID', 'Description']],
                 [['ID', 'Item', 'Description']],
-                [['ID', 'Type', '\#', 'Description']],
-                [['ID', 'Name', 'Type', '\#', 'Description']]
+                [['ID', 'Type', '\\#', 'Description']],
+                [['ID', 'Name', 'Type', '\\#', 'Description']]
             ][table_type]
             for fd in td[Fields]:
                 fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
-                fdef = fdef.replace('*', '\*')
-                fmult = fmult.replace('*', '\*')
+                fname = escape(fname)
+                fdef = escape(fdef)
+                fmult = escape(fmult)
                 if idt:     # Field name is a label in the description
                     desc = fd[ItemDesc if td[BaseType] == 'Enumerated' else FieldDesc]
-                    fdesc = f"**{fdesc[:len(fdesc) - len(':: ' + desc)]}** - {desc}"
+                    fdesc = f"**{escape(fdesc[:len(fdesc) - len(':: ' + desc)])}** - {desc}"
                 if table_type == 0:
                     table.append([str(fd[ItemID]), fdesc])
                 elif table_type == 1:
@@ -80,11 +81,16 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
                     table.append([str(fd[FieldID]), f'**{fname}**', fdef, fmult, fdesc])
         else:
             table = [['Type Name', 'Type Definition', 'Description'],
-                     [f'**{td[TypeName]}**', jadn2typestr(td[BaseType], td[TypeOptions]), td[TypeDesc]]]
+                     [f'**{escape(td[TypeName])}**', escape(jadn2typestr(td[BaseType], td[TypeOptions])), td[TypeDesc]]]
         text += f'\n{format_table(table)}\n\n**********\n'
     return text
 
 
+def escape(text: str) -> str:
+    # Names and type strings are shown as they are
+    return re.sub(r'([\\`*<~]|_(?![^\W_])|(?<![^\W_])_|](?=\()|&(?=#?\w+;))', r'\\\1', text)
+
+
 def one_line(text: str) -> str:
     return re.sub(r'\s*[\r\n]\s*', ' ', text).strip()
 
-- 
2.43.0


From 58a4349033aea2018eeca6cfe26606a8195efd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 090/134] fix: diagrams show the key types of MapOf fields

---
 distribution/src/jadn/convert/diagram_w.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index ac1b727..7d10996 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -121,22 +121,26 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         if td[BaseType] == 'Enumerated':
             return ''
         fopts, ftopts = ftopts_s2d(fd[FieldOptions])
-        fieldtype = ftopts['vtype'] if fd[FieldType] in {'ArrayOf', 'MapOf'} else fd[FieldType]
-        if fieldtype in nodes:
+        if fd[FieldType] in {'ArrayOf', 'MapOf'}:
+            ftypes = [ftopts[k] for k in ('ktype', 'vtype') if k in ftopts]
+        else:
+            ftypes = [fd[FieldType]]
+        edges = ''
+        for fieldtype in [t for t in ftypes if t in nodes]:
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
             if s['format'] == 'plantuml':
                 rel = ('.' if 'link_horizontal' in s else '..') if 'link' in fopts else '--'
                 elabel = ' : ' + fd[FieldName] if s['edge_label'] else ''
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
-                return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
+                edges += f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
             elif s['format'] == 'graphviz':
                 edge = [f'label={ename(fd[FieldName])}'] if s['edge_label'] else []
                 edge += ['style="dashed"'] if 'link' in fopts else []
                 edge += [f'headlabel="{mult_f}", taillabel="{mult_r}"'] if s['edge_mult'] else []
                 edge_label = f' [{", ".join(edge)}]' if edge else ''
-                return f'  n{nodes[td[TypeName]]} -> n{nodes[fieldtype]}{edge_label}\n'
-        return ''
+                edges += f'  n{nodes[td[TypeName]]} -> n{nodes[fieldtype]}{edge_label}\n'
+        return edges
 
     s = diagram_style()
     s.update(style)
-- 
2.43.0


From 310d672cf2698a772508b8a272dd22ce6c0ac09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 091/134] fix: GraphViz edge labels may be any field name

---
 distribution/src/jadn/convert/diagram_w.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 7d10996..c94d94b 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -113,10 +113,6 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         """
         Return graph edges from fields in selected diagram format
         """
-        # Normalize edge label for diagram format
-        def ename(edge_label: str) -> str:
-            return edge_label.replace('-', '_')
-
         # nodes and s are available in caller scope
         if td[BaseType] == 'Enumerated':
             return ''
@@ -135,7 +131,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 edges += f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
             elif s['format'] == 'graphviz':
-                edge = [f'label={ename(fd[FieldName])}'] if s['edge_label'] else []
+                edge = [f'label="{fd[FieldName]}"'] if s['edge_label'] else []
                 edge += ['style="dashed"'] if 'link' in fopts else []
                 edge += [f'headlabel="{mult_f}", taillabel="{mult_r}"'] if s['edge_mult'] else []
                 edge_label = f' [{", ".join(edge)}]' if edge else ''
-- 
2.43.0


From 7ae479b06b7cab19d5c98430c3996b940fbabbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:58 +0000
Subject: [PATCH 092/134] fix: diagram style options for links are effective

---
 distribution/src/jadn/convert/diagram_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index c94d94b..5cfab7c 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -117,6 +117,8 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         if td[BaseType] == 'Enumerated':
             return ''
         fopts, ftopts = ftopts_s2d(fd[FieldOptions])
+        if 'link' in fopts and not s['links']:
+            return ''
         if fd[FieldType] in {'ArrayOf', 'MapOf'}:
             ftypes = [ftopts[k] for k in ('ktype', 'vtype') if k in ftopts]
         else:
@@ -126,7 +128,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
             if s['format'] == 'plantuml':
-                rel = ('.' if 'link_horizontal' in s else '..') if 'link' in fopts else '--'
+                rel = ('.' if s['link_horizontal'] else '..') if 'link' in fopts else '--'
                 elabel = ' : ' + fd[FieldName] if s['edge_label'] else ''
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 edges += f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
-- 
2.43.0


From 2c25f20b550f969b24b60d1174ef0b7ff261b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 093/134] fix: diagrams show patterns and items containing
 markup characters

---
 distribution/src/jadn/convert/diagram_w.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 5cfab7c..2fd020c 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -5,6 +5,7 @@ style[format] =
     plantuml: PlantUml format
 """
 
+import html
 import re
 from datetime import datetime
 from ..definitions import (TypeName, BaseType, TypeOptions, PRIMITIVE_TYPES,
@@ -44,12 +45,20 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     """
     Convert JADN schema to Entity Relationship Diagram source file
     """
+    def show(text: str) -> str:
+        """
+        Return text on one line, without characters that delimit text in selected diagram format
+        """
+        text = re.sub(r'\s*[\r\n]\s*', ' ', text)
+        return html.escape(text) if s['format'] == 'graphviz' else text.replace('"', '<U+0022>')
+
     def node_leaf(td, bt) -> str:
         """
         Return Leaf Type Definition in selected diagram format
         """
         # nodes and s are available in caller scope
         tn = td[TypeName]
+        bt = show(bt)
         return {
             'graphviz': f'n{nodes[tn]} [label=<<b>{tn}{bt}</b>>, '
                         f'shape=ellipse, style=filled, fillcolor={s["attr_color"]}]\n\n',
@@ -62,6 +71,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         """
         # nodes and s are available in caller scope
         tn = td[TypeName]
+        bt = show(bt)
         color = f'fillcolor={s["attr_color"]}, ' if td[BaseType] == 'Enumerated' else ''
         hr = '<hr/>' if s['detail'] in {'logical', 'information'} and td[Fields] else ''
         return {
@@ -78,12 +88,12 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         if s['detail'] == 'conceptual':
             return ''
         elif s['detail'] == 'logical':
-            fval = fd[FieldName]
+            fval = show(fd[FieldName])
         elif s['detail'] == 'information':
             fl = '{field} ' if s['format'] == 'plantuml' else ''    # override PlantUML parsing parens as methods
             fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
             fdef += '' if fmult == '1' else ' [' + fmult + ']'
-            fval = f'{fd[FieldID]} {fname}' + ('' if td[BaseType] == 'Enumerated' else f' : {fl}{fdef}')
+            fval = f'{fd[FieldID]} {show(fname)}' + ('' if td[BaseType] == 'Enumerated' else f' : {fl}{show(fdef)}')
         return {
             'plantuml': f'  n{nodes[td[TypeName]]} : {fval}\n',
             'graphviz': f'  <tr><td align="left">  {fval}  </td></tr>\n'
-- 
2.43.0


From 334c9a9ff2ee1ade6f48be12289bbab3222b58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 094/134] fix: information items in diagrams are on a single
 line

---
 distribution/src/jadn/convert/diagram_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 2fd020c..9a93b72 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -171,7 +171,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
     text = ''
     for k, v in schema.get('info', {}).items():
-        text += f"{fmt['comment']} {k}: {v}\n"
+        text += f"{fmt['comment']} {k}: {' '.join(str(v).split())}\n"
     text += f"\n{fmt['start']}\n  " + '\n  '.join(fmt['header']) + '\n\n'
 
     hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')
-- 
2.43.0


From e8ef3a8b5ab4a5411246fbd6e669251e819229a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 095/134] fix: source header of a GraphViz file is a comment

---
 distribution/src/jadn/convert/diagram_w.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9a93b72..639faa8 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -193,9 +193,10 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
-            f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
+            comment = '#' if style.get('format') == 'graphviz' else "'"
+            f.write(f'{comment} Generated from {source}, {datetime.ctime(datetime.now())}\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
 
 
-- 
2.43.0


From 371ca6919c4849c2393d38f769bcd5c195defa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:38 +0000
Subject: [PATCH 096/134] fix: imports can be resolved (references to other
 packages are collected, type options are merged)

---
 distribution/src/jadn/transform/resolve.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..265a6bd 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -17,7 +17,7 @@ class SchemaPackage:
     namespaces: dict                      # Copy of meta['namespaces'] or empty {}
     tx: dict[str, list]                   # Type index: {type name: type definition in schema}
     deps: dict[str, list[str]]             # Internal dependencies: {type1: {t2, t3}, type2: {t3, t4, t5}}
-    refs: dict[str, dict[str, list[str]]]  # External references {namespace1: {type1: {t2, t3}, ...}}
+    refs: dict[str, dict[str, set[str]]]  # External references {namespace1: {type1: {t2, t3}, ...}}
     used: set[str]                        # Types from this package that have been referenced {t2, t3}
 
     def __init__(self, source: Union[dict, TextIO]):     # Read schema data, get package name
@@ -42,16 +42,15 @@ class SchemaPackage:
         check(self.schema)
         self.tx = {t[TypeName]: t for t in self.schema['types']}
         self.deps = build_deps(self.schema)
-        self.refs = defaultdict(lambda: defaultdict(list))
+        self.refs = defaultdict(lambda: defaultdict(set))
         for tn in self.deps:
             for dn in list(self.deps[tn]):     # Iterate over copy so original can be modified safely
                 if ':' in dn:
                     self.deps[tn].remove(dn)
                     nsid, typename = dn.split(':', maxsplit=1)
-                    try:
-                        self.refs[self.namespaces[nsid]][tn].add(typename)
-                    except KeyError as e:
-                        raise_error(f'Resolve: no namespace defined for {e}')
+                    if nsid not in self.namespaces:
+                        raise_error(f'Resolve: no namespace defined for {nsid}')
+                    self.refs[self.namespaces[nsid]][tn].add(typename)
 
     def clear(self) -> None:
         self.used = set()
@@ -78,7 +77,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
-- 
2.43.0


From 424d1a5e08480d1a0105424100159155308ab846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 097/134] fix: resolve imports of packages that list their
 namespaces

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 265a6bd..4cf36d2 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -33,7 +33,7 @@ class SchemaPackage:
         except KeyError:
             raise_error(f'Schema package {self.source} must have a package ID')
 
-        self.namespaces = self.schema['info']['namespaces'] if 'namespaces' in self.schema['info'] else {}
+        self.namespaces = dict(self.schema['info'].get('namespaces', {}))     # v1.0 map or v1.1 list of pairs
         self.clear()
 
     def load(self) -> None:     # Validate schema, build type dependencies and external references
-- 
2.43.0


From 97bb73d1a8c6939abe6836fec50b5c8494ff95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:43 +0000
Subject: [PATCH 098/134] fix: resolve imported types that enumerate the fields
 of other types

---
 distribution/src/jadn/transform/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 4cf36d2..ae07c0e 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -70,6 +70,8 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
+    if tref[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):    # Element or key type derived from a type
+        return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, sys)
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
     ns_id = nsids[namespaces[nsid] if nsid else package][0]
     return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
-- 
2.43.0


From f8e32bfc8494051e0da2e2bcb9277fbd291d7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 099/134] fix: resolving imports does not modify the schema

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index ae07c0e..0ca7961 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -22,7 +22,7 @@ class SchemaPackage:
 
     def __init__(self, source: Union[dict, TextIO]):     # Read schema data, get package name
         if isinstance(source, dict):      # If schema is provided, save data
-            self.schema = source
+            self.schema = copy.deepcopy(source)     # don't modify original
             self.source = ''
         else:
             self.schema = load_any(source)
-- 
2.43.0


From ca31b51babcbc7cfd426513dcf2547486fbd3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 100/134] fix: resolve imports of the roots of a schema

---
 distribution/src/jadn/transform/resolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 0ca7961..d1890a7 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -156,7 +156,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
-    resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
+    info = root.schema['info']
+    resolve(root, info.get('roots', info.get('exports', set())), packages)      # Exports is deprecated
 
     for t in root.used.copy():
         if t[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-- 
2.43.0


From 62eba5bed4f42dc8c5ed36df2a996602a42e0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 101/134] fix: resolved type names do not depend on the order
 of files, on other files, or collide

---
 distribution/src/jadn/transform/resolve.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index d1890a7..1ad82bb 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -145,7 +145,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     packages = {root.package: root}
     nsids = defaultdict(list)
 
-    for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
+    for fn in (os.path.join(dirname, f) for f in sorted(os.listdir(dirname)) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
             sm = SchemaPackage(fp)
         if sm.package not in packages:            # Add new package to list
@@ -154,8 +154,6 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             packages[sm.package].source = fn
         elif packages[sm.package].source != fn:                   # Flag multiple files with same package name
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
-        for i, m in sm.namespaces.items():
-            nsids[m].append('' if i in no_nsid else i)
     info = root.schema['info']
     resolve(root, info.get('roots', info.get('exports', set())), packages)      # Exports is deprecated
 
@@ -165,9 +163,20 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
                 raise_error(f'Resolve: no base type for {t}')
             root.used.remove(t)     # Don't need explicit type if base type is present
 
-    # Copy all needed types from other packages into root
+    # Assign a unique namespace id to each referenced package
+    used = [root] + [m for m in packages.values() if m.package != root.package and m.used]
     nsids[root.package] = ['']
+    for sm in used:
+        for i, m in sm.namespaces.items():
+            nsids[m].append('' if i in no_nsid else i)
+    assigned = set()
+    for m, ids in nsids.items():
+        ids += [f'{ids[0]}{n}' for n in range(2, len(nsids) + 2)]
+        ids[0] = next(i for i in ids if not i or i not in assigned) if ids[0] else ''
+        assigned.add(ids[0])
+
+    # Copy all needed types from other packages into root
     sc = {'info': {k: v for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
-    for sm in [root] + [m for m in packages.values() if m.package != root.package]:
+    for sm in used:
         sc['types'] += [merge_typedef(t, sm.package, sm.namespaces, nsids, sys) for t in sm.schema['types'] if t[TypeName] in sm.used]
     return sc
-- 
2.43.0


From 8cc38fba1f1c3e69f7b0c390e727d2be2f5e0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 102/134] fix: resolved schemas keep references to packages
 that are not found

---
 distribution/src/jadn/transform/resolve.py | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 1ad82bb..812ea32 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -60,32 +60,37 @@ class SchemaPackage:
 
 
 # Resolve util functions
-def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> str:
+def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict, packages: dict, sys: str = '$') -> str:
     """
     Convert reference to an imported type (nsid:TypeName) to a local type. Return unchanged if local.
+    A reference to a package that was not found remains a reference to that package.
     :param tref: Type name to be merged into the base package
     :param package: Namespace (unique name) of base package
     :param namespaces: dict that maps base package's namespace ids to namespaces
     :param nsids: dict that maps each namespace to a namespace id. If blank, do not append $nsid qualifier
+    :param packages: dict that maps each namespace to a package, if found
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
     if tref[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):    # Element or key type derived from a type
-        return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, sys)
+        return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, packages, sys)
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
-    ns_id = nsids[namespaces[nsid] if nsid else package][0]
+    namespace = namespaces[nsid] if nsid else package
+    ns_id = nsids[namespace][0]
+    if namespace not in packages:
+        return f'{ns_id}:{tname}'
     return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
 
 
-def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
+def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, packages: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
     oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
-        return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
+        return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, packages, sys)}' if x[0] in oids else x for x in opts]
 
     td = [
-        merge_tname(tdef[TypeName], package, namespaces, nsids, sys),
+        merge_tname(tdef[TypeName], package, namespaces, nsids, packages, sys),
         tdef[BaseType],
         update_opts(tdef[TypeOptions]),
         tdef[TypeDesc]
@@ -95,7 +100,7 @@ def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: d
         if td[BaseType] != 'Enumerated':
             for f in new_fields:
                 f[FieldOptions] = update_opts(f[FieldOptions])
-                f[FieldType] = merge_tname(f[FieldType], package, namespaces, nsids, sys)
+                f[FieldType] = merge_tname(f[FieldType], package, namespaces, nsids, packages, sys)
         td.append(new_fields)
     return td
 
@@ -168,7 +173,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     nsids[root.package] = ['']
     for sm in used:
         for i, m in sm.namespaces.items():
-            nsids[m].append('' if i in no_nsid else i)
+            nsids[m].append('' if i in no_nsid and m in packages else i)
     assigned = set()
     for m, ids in nsids.items():
         ids += [f'{ids[0]}{n}' for n in range(2, len(nsids) + 2)]
@@ -177,6 +182,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
 
     # Copy all needed types from other packages into root
     sc = {'info': {k: v for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
+    if missing := {m: nsids[m][0] for sm in used for m in sm.refs if m not in packages and sm.used & set(sm.refs[m])}:
+        sc['info']['namespaces'] = {i: m for m, i in missing.items()}
     for sm in used:
-        sc['types'] += [merge_typedef(t, sm.package, sm.namespaces, nsids, sys) for t in sm.schema['types'] if t[TypeName] in sm.used]
+        sc['types'] += [merge_typedef(t, sm.package, sm.namespaces, nsids, packages, sys) for t in sm.schema['types'] if t[TypeName] in sm.used]
     return sc
-- 
2.43.0


From 8374483fc2a12a8682da1c9ffccc657a2aaac509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 103/134] fix: namespace ids of resolved type names do not
 collide with names of derived enumerations

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 812ea32..59eeb92 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -174,7 +174,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     for sm in used:
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid and m in packages else i)
-    assigned = set()
+    assigned = {'Enum', 'Pointer'}      # Used in names of derived enumerations
     for m, ids in nsids.items():
         ids += [f'{ids[0]}{n}' for n in range(2, len(nsids) + 2)]
         ids[0] = next(i for i in ids if not i or i not in assigned) if ids[0] else ''
-- 
2.43.0


From d30cb2ce1f6a485cf9339fe03306124aad2889e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 104/134] fix: restoring flattened data keeps all entries, and
 flattening uses the separator it is given

---
 distribution/src/jadn/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index d63a77b..452088b 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -48,7 +48,12 @@ def fluff(src: dict, sep: str = '.') -> dict:
     :param sep: separator character for keys
     :return: nested dict - e.g., {'a': {'b': {'c': 1, 'd': 2}}}
     """
-    return reduce(dmerge, [hdict(k, v, sep) for k, v in src.items()], {})
+    def merge(d1: Any, d2: Any) -> Any:     # Merge nested dicts at every level
+        if isinstance(d1, dict) and isinstance(d2, dict):
+            return {**d1, **{k: merge(d1[k], v) if k in d1 else v for k, v in d2.items()}}
+        return d2
+
+    return reduce(merge, [hdict(k, v, sep) for k, v in src.items()], {})
 
 
 def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
@@ -61,10 +66,10 @@ def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
     if isinstance(cmd, dict):
         for k, v in cmd.items():
             k = k.split(':')[1] if ':' in k else k
-            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd)
+            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd, sep)
     elif isinstance(cmd, list):
         for n, v in enumerate(cmd):
-            fcmd.update(flatten(v, sep.join([path, str(n)])))
+            fcmd.update(flatten(v, sep.join([path, str(n)]) if path else str(n), sep=sep))
     else:
         fcmd[path] = cmd
     return fcmd
-- 
2.43.0


From c6ae730f1d8e92a386c39c688ef3fdc505a263ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 105/134] fix: JSON Schema admits all exported types when their
 names differ only by case or dash

---
 distribution/src/jadn/translate/jsonschema_w.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index a318aad..a7b662a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -138,10 +138,13 @@ def w_export(exp: list, ctx: dict) -> dict:
     """
     if len(exp) == 1:
         return {'$ref': f'#/definitions/{exp[0]}'}
+    names = [ctx['type_defs'][t][TypeName] for t in exp]
+    fnames = [fieldname(n) for n in names]
+    props = [f if fnames.count(f) == 1 else n for n, f in zip(names, fnames)]
     return {
         'type': 'object',
         'additionalProperties': False,
-        'properties': {fieldname(ctx['type_defs'][t][TypeName]): {'$ref': f'#/definitions/{t}'} for t in exp}
+        'properties': {p: {'$ref': f'#/definitions/{t}'} for p, t in zip(props, exp)}
     }
 
 
-- 
2.43.0


From cc0b01be5246cea59863918e8b6da63c5040c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 106/134] fix: check rejects negative size limits, which no
 codec accepts

---
 distribution/src/jadn/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 4bb175f..bcd1049 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -38,6 +38,8 @@ def check_typeopts(type_name: str, base_type: str, topts: dict) -> None:
         raise_error(f'Unsupported type option {type_name} ({base_type}): {uo}')
     if 'maxv' in topts and 'minv' in topts and topts['maxv'] < topts['minv']:
         raise_error(f'Bad value range {type_name} ({base_type}): [{topts["minv"]}..{topts["maxv"]}]')
+    if base_type != 'Integer' and min(topts.get('minv', 0), topts.get('maxv', 0)) < 0:
+        raise_error(f'Bad size {type_name} ({base_type}): [{topts.get("minv", 0)}..{topts.get("maxv", 0)}]')
     if 'maxf' in topts and 'minf' in topts and topts['maxf'] < topts['minf']:
         raise_error(f'Bad value range {type_name} ({base_type}): [{topts["minf"]}..{topts["maxf"]}]')
     if ('minv' in topts or 'maxv' in topts) and 'pattern' in topts:
-- 
2.43.0


From a170da4cd1d1d84cb7d777fd8f713f954c6a5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 107/134] fix: JSON Schema takes a maximum size of 0 as the
 default limit, as the codec does

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index a7b662a..6738b5a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -370,7 +370,7 @@ def w_type(tdef: list, topts: dict, ctx: dict) -> dict:
     """
     Write a JADN type definition in JSON Schema format
     """
-    if 'maxv' not in topts and tdef[BaseType] in CONFIG_MAX:
+    if topts.get('maxv', 0) == 0 and tdef[BaseType] in CONFIG_MAX:
         topts['maxv'] = ctx['config'][CONFIG_MAX[tdef[BaseType]]]
     sc = get_writer(tdef[BaseType], ctx['verbose'])(tdef, topts, ctx)
     return sc
-- 
2.43.0


From 4604cecb22ce220d88c6bfc21f2305b005f41bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 108/134] fix: names of types derived from types with long
 names are not too long

---
 distribution/src/jadn/transform/transform.py | 7 ++++---
 distribution/src/jadn/utils.py               | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 0bc33b8..2fce6e8 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -6,7 +6,7 @@ from ..definitions import (
     TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
     EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
-    del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
+    del_opt, derived_name, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
 
 
 def strip_comments(schema: dict, width=0) -> dict:  # Strip or truncate comments from schema
@@ -99,7 +99,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
+    return derived_name(topts[x][1:], f"{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}")
 
 
 # Move type options of a field to a new explicit type, return its name
@@ -163,9 +163,10 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                     opts[n] = f'{opts[n][:1]}{enums.get(name, name)}'
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
+                    rtype = opts[n][2:]
                     opts[n] = f'{opts[n][:1]}{name}'
                     enums[name] = name
-                    schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
+                    schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(rtype)]))
 
     def enum_items(rtype: str) -> list:
         tdef = schema['types'][typex[rtype]]
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 452088b..ea8968b 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -5,6 +5,7 @@ Support functions for JADN codec
 """
 import copy
 import re
+import zlib
 
 from functools import reduce
 from typing import Any, NoReturn, Union
@@ -20,6 +21,13 @@ def raise_error(*s) -> NoReturn:
     raise ValueError(*s)
 
 
+# Name of a type generated from another type. Shorten names that would be too long, keep them different
+def derived_name(name: str, suffix: str, maxlen: int = 64) -> str:
+    if len(name) + len(suffix) > maxlen:
+        suffix = f'-{zlib.crc32(name.encode()):08x}{suffix}'
+    return name[:maxlen - len(suffix)] + suffix
+
+
 # Truncate a string to "n" characters, replacing end with ".." if truncated
 def etrunc(s: str, n: int) -> str:
     return s if n is None else s[:n-2] + (s[n-2:], '..')[len(s) > n] if n > 1 else s[:n]
-- 
2.43.0


From 72ddc9f6a50bf324a069d424f594e58d8ed71709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 109/134] fix: names of imported types with long names are not
 too long

---
 distribution/src/jadn/transform/resolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 59eeb92..0eda3a4 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -7,7 +7,7 @@ from ..core import check, load_any
 from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, FieldType, FieldOptions, OPTION_ID, is_builtin
 )
-from ..utils import build_deps, raise_error
+from ..utils import build_deps, derived_name, raise_error
 
 
 class SchemaPackage:
@@ -79,7 +79,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     ns_id = nsids[namespace][0]
     if namespace not in packages:
         return f'{ns_id}:{tname}'
-    return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
+    return derived_name(tname, f'{sys}{ns_id}') if ns_id and not is_builtin(tname) else tname
 
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, packages: dict, sys: str = '$') -> list:
-- 
2.43.0


From 4878ef611ecbf1664b82db0a12dbb885fd34bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 110/134] fix: jidl_loads rejects lines it cannot read instead
 of dropping them, and repeated information

---
 distribution/src/jadn/convert/jidl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 5ab8a76..fa3db91 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -119,6 +119,8 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
                     return 'F', fielddef2jadn(int(m.group(1)), m.group(2), m.group(3), m_range if m_range else '', desc)
         else:
             raise_error(f'JIDL Load - field with no type: {repr(line)}')
+        if line != '}':     # End of the fields of "Name = Type {"
+            raise_error(f'JIDL Load - cannot parse line: {repr(line)}')
 
     return '', []
 
@@ -137,6 +139,8 @@ def jidl_loads(doc: str) -> dict:
                 cleanup_tagid(fields)
                 fields = None
             if t == 'I':
+                if v[0] in info:
+                    raise_error(f'JIDL Load - repeated information: {repr(line)}')
                 info.update({v[0]: json.loads(v[1])})
             elif t == 'T':
                 types.append(v)
-- 
2.43.0


From fdf8db80cd24abfebd7b2266727d44a947517154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 111/134] fix: typestr2jadn and fielddef2jadn reject text they
 cannot read instead of ignoring it

---
 distribution/src/jadn/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index ea8968b..a7ed19b 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -312,6 +312,10 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             topts.update({'format': opt})
         for opt in re.findall(p_kw, rest):
             topts.update({opt: True})
+        for p, n in ((p_range, 1), (p_format, 1), (p_kw, 0)):
+            rest = re.sub(p, '', rest, count=n)
+        if rest.strip():
+            raise_error(f'TypeString2JADN: cannot parse "{rest.strip()}" in "{typestring}"')
     return tname, opts_d2s(topts), fo
 
 
@@ -455,7 +459,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
             fo.update({'minc': minc} if minc != 1 else {})
             fo.update({'maxc': maxc} if maxc != 1 else {})
         elif fmult:
-            fo.update({'minc': -1, 'maxc': -1})
+            raise_error(f'cannot parse multiplicity [{fmult}]')
         if fopts:
             assert len(fopts) == 1 and fopts[0][0] == OPTION_ID['tagid']    # Update if additional field options defined
             fo.update({'tagid': fopts[0][1:]})      # if field name, MUST update to id after all fields have been read
-- 
2.43.0


From 5e7dee0bf895a6724e8bd308a266d051b89f04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 112/134] fix: jidl_loads reads documents with comment lines
 between fields

---
 distribution/src/jadn/convert/jidl.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index fa3db91..b90cac7 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -135,14 +135,12 @@ def jidl_loads(doc: str) -> dict:
             t, v = line2jadn(line, types[-1] if types else None)    # Parse a JIDL line
             if t == 'F':
                 fields.append(v)
-            elif fields:
-                cleanup_tagid(fields)
-                fields = None
-            if t == 'I':
+            elif t == 'I':
                 if v[0] in info:
                     raise_error(f'JIDL Load - repeated information: {repr(line)}')
                 info.update({v[0]: json.loads(v[1])})
             elif t == 'T':
+                cleanup_tagid(fields or [])
                 types.append(v)
                 fields = types[-1][Fields]
     cleanup_tagid(fields or [])
-- 
2.43.0


From 1ea83903bbc871206729c637907bad6d9b78e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 113/134] fix: reading type strings rejects unknown functions
 and tags cleanly instead of ignoring or failing on them

---
 distribution/src/jadn/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index a7ed19b..0724dae 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -254,6 +254,8 @@ def cleanup_tagid(fields: list[list]) -> list[list]:
                     int(to[1:])                 # Check if already a Field Id
                 except ValueError:              # Look up Id corresponding to Field Name
                     fx = {x[FieldName]: x[FieldID] for x in fields}
+                    if to[1:] not in fx:
+                        raise_error(f'TagId[{to[1:]}] is not a field of the type')
                     f[FieldOptions][tx] = to[0] + str(fx[to[1:]])
     return fields
 
@@ -263,6 +265,8 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
         m1 = re.match(r'^\s*([-$:\w]+)(?:\[([^]]+)])?$', optstr)   # Typeref: nsid:Name$qualifier
         if m1 is None:
             raise_error(f'TypeString2JADN: unexpected function: {optstr}')
+        if m1.group(2) and m1.group(1).lower() not in OPTION_ID:
+            raise_error(f'TypeString2JADN: unknown function: {optstr}')
         return OPTION_ID[m1.group(1).lower()] + m1.group(2) if m1.group(2) else m1.group(1)
 
     topts = {}
@@ -288,10 +292,15 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
         elif tname == 'ArrayOf':
             topts.update({'vtype': opts[0]})
         elif tname == 'Choice':
+            if opts[0] not in ('anyOf', 'allOf', 'oneOf'):
+                raise_error(f'TypeString2JADN: unknown combination: {opts[0]}')
             topts.update({'combine': {'anyOf': 'O', 'allOf': 'A', 'oneOf': 'X'}[opts[0]]})
+        elif opts[0][0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
+            topts.update(topts_s2d([opts[0]]))
+        elif opts[0][0] == OPTION_ID['tagid']:
+            fo += [opts[0]]
         else:
-            topts.update(topts_s2d([opts[0]]) if ord(opts[0][0]) in TYPE_OPTIONS else {})
-            fo += [opts[0]] if ord(opts[0][0]) in FIELD_OPTIONS else []         # TagId option
+            raise_error(f'TypeString2JADN: unexpected function: {m.group(3)}')
     if rest := m.group(4):
         if m := re.search(p_pattern, rest, re.DOTALL):
             topts.update({'pattern': m.group(1)})
-- 
2.43.0


From 901507be275b4c1937f7fbe5f783b2f9b8cfdcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 114/134] fix: typestr2jadn rejects options inside other
 options

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 0724dae..7e3ab0b 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -322,7 +322,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
         for opt in re.findall(p_kw, rest):
             topts.update({opt: True})
         for p, n in ((p_range, 1), (p_format, 1), (p_kw, 0)):
-            rest = re.sub(p, '', rest, count=n)
+            rest = re.sub(p, ' ', rest, count=n)
         if rest.strip():
             raise_error(f'TypeString2JADN: cannot parse "{rest.strip()}" in "{typestring}"')
     return tname, opts_d2s(topts), fo
-- 
2.43.0


From 1a166c473f9ff8d2340b7fe9c710ed87728b1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 115/134] fix: typestr2jadn reads options that follow a range
 without a space instead of ignoring them

---
 distribution/src/jadn/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 7e3ab0b..d8207ae 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -317,12 +317,13 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
                     topts.update({} if b == '*' else {'maxv': int(b)})
             else:
                 raise_error(f'unrecognized arg "{opt}", expected pattern or range')
+        rest = re.sub(p_range, ' ', rest, count=1)
         for opt in re.findall(p_format, rest):
             topts.update({'format': opt})
+        rest = re.sub(p_format, ' ', rest, count=1)
         for opt in re.findall(p_kw, rest):
             topts.update({opt: True})
-        for p, n in ((p_range, 1), (p_format, 1), (p_kw, 0)):
-            rest = re.sub(p, ' ', rest, count=n)
+        rest = re.sub(p_kw, ' ', rest)
         if rest.strip():
             raise_error(f'TypeString2JADN: cannot parse "{rest.strip()}" in "{typestring}"')
     return tname, opts_d2s(topts), fo
-- 
2.43.0


From f45a1152de3d4b35c926a7366122660d682760f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 116/134] fix: fielddef2jadn rejects a maximum multiplicity of
 0 instead of reading it as unlimited

---
 distribution/src/jadn/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index d8207ae..fdd8bb3 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -461,6 +461,8 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
             fname = fname.rstrip('/')
         if m := re.match(r'^(\d+)(?:\.\.(\d+|\*))?$', fmult) if fmult else None:
             groups = m.groups()
+            if not (groups[1] or groups[0]).strip('0'):
+                raise_error(f'maximum multiplicity 0 in [{fmult}]')
             if maxc := groups[1]:
                 minc = int(groups[0])
                 maxc = 0 if maxc == '*' else int(maxc)
-- 
2.43.0


From 886c649709804db989f24b47d795e8a2c32b5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 117/134] fix: typestr2jadn rejects functions other than Enum,
 Pointer and TagId

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index fdd8bb3..5c890c2 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -265,7 +265,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
         m1 = re.match(r'^\s*([-$:\w]+)(?:\[([^]]+)])?$', optstr)   # Typeref: nsid:Name$qualifier
         if m1 is None:
             raise_error(f'TypeString2JADN: unexpected function: {optstr}')
-        if m1.group(2) and m1.group(1).lower() not in OPTION_ID:
+        if m1.group(2) and m1.group(1).lower() not in ('enum', 'pointer', 'tagid'):
             raise_error(f'TypeString2JADN: unknown function: {optstr}')
         return OPTION_ID[m1.group(1).lower()] + m1.group(2) if m1.group(2) else m1.group(1)
 
-- 
2.43.0


From 0bff68e80a32da26ba4b4a0ca3a0c1cc844ccdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 118/134] fix: fielddef2jadn does not drop more than the one
 slash that marks a directory

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 5c890c2..41cdeb8 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -458,7 +458,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         fo.update(topts_s2d(topts))                   # Copy type options (if any) into field options (JADN extension)
         if fname.endswith('/'):
             fo.update({'dir': True})
-            fname = fname.rstrip('/')
+            fname = fname[:-1]
         if m := re.match(r'^(\d+)(?:\.\.(\d+|\*))?$', fmult) if fmult else None:
             groups = m.groups()
             if not (groups[1] or groups[0]).strip('0'):
-- 
2.43.0


From aedec321c10ab70e232ec327a70ad00baa7a4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 119/134] fix: html_loads reads the whole text of cells, and
 rejects documents with repeated, missing or misplaced cells instead of losing
 them

---
 distribution/src/jadn/convert/html.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 84e8091..773301f 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -5,7 +5,7 @@ from typing import Generator, TextIO, Tuple, Union
 from lxml import html
 from .utils import DocHTML
 from ..definitions import Fields, ItemID, ItemDesc, FieldID, INFO_ORDER, TypeDefinition
-from ..utils import cleanup_tagid, fielddef2jadn, jadn2fielddef, jadn2typestr, typestr2jadn
+from ..utils import cleanup_tagid, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 from ..core import check
 """
 Convert JADN schema to and from HTML format
@@ -119,6 +119,9 @@ def line2jadn(lt: dict, tdef) -> Tuple[str, list]:
     def default(x: str, d: str) -> str:
         return x if x else d
 
+    for a, b in (('jKey', 'jVal'), ('jTname', 'jTstr')):
+        if a in lt and b not in lt:
+            raise_error(f'HTML Load - {a} without {b}: {lt}')
     if 'jKey' in lt:
         return 'M', [lt['jKey'].rstrip(':'), lt['jVal']]
     if 'jTname' in lt:
@@ -132,6 +135,7 @@ def line2jadn(lt: dict, tdef) -> Tuple[str, list]:
         fdesc = default(lt.get('jFdesc', ''), '')
         fmult = lt.get('jFmult', '')
         return 'F', fielddef2jadn(int(lt['jFid']), fname, fstr, fmult, fdesc)
+    raise_error(f'HTML Load - cells without a key, type name or field id: {lt}')
 
 
 def html_loads(hdoc: str) -> dict:
@@ -148,7 +152,9 @@ def html_loads(hdoc: str) -> dict:
                     if line:
                         yield line
                         line = {}
-                line.update({cl[0]: element.text})
+                if cl[0] in line:
+                    raise_error(f'HTML Load - repeated {cl[0]}: {element.text_content()}')
+                line.update({cl[0]: element.text_content()})
         yield line
 
     meta = {}
@@ -158,13 +164,15 @@ def html_loads(hdoc: str) -> dict:
         if line:
             t, v = line2jadn(line, types[-1] if types else None)
             if t == 'F':
+                if fields is None:
+                    raise_error(f'HTML Load - field with no type: {v}')
                 fields.append(v)
-            elif fields:
-                cleanup_tagid(fields)
-                fields = None
-            if t == 'M':
+            elif t == 'M':
+                if v[0] in meta:
+                    raise_error(f'HTML Load - repeated information: {v[0]}')
                 meta.update({v[0]: json.loads(v[1])})
             elif t == 'T':
+                cleanup_tagid(fields or [])
                 types.append(v)
                 fields = types[-1][Fields]
     cleanup_tagid(fields or [])
-- 
2.43.0


From ad1ee13ea2884ec3952e58fa01d85633137f1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 120/134] fix: html_loads rejects cells that do not belong to
 their row

---
 distribution/src/jadn/convert/html.py | 6 +++---
 distribution/src/jadn/utils.py        | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 773301f..77f33e7 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -119,9 +119,9 @@ def line2jadn(lt: dict, tdef) -> Tuple[str, list]:
     def default(x: str, d: str) -> str:
         return x if x else d
 
-    for a, b in (('jKey', 'jVal'), ('jTname', 'jTstr')):
-        if a in lt and b not in lt:
-            raise_error(f'HTML Load - {a} without {b}: {lt}')
+    for a, b, other in (('jKey', 'jVal', ()), ('jTname', 'jTstr', ('jTdesc',)), ('jFid', 'jFid', ('jFname', 'jFstr', 'jFmult', 'jFdesc'))):
+        if a in lt and (b not in lt or set(lt) - {a, b, *other}):
+            raise_error(f'HTML Load - missing or misplaced cells: {lt}')
     if 'jKey' in lt:
         return 'M', [lt['jKey'].rstrip(':'), lt['jVal']]
     if 'jTname' in lt:
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 41cdeb8..a338d32 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -475,6 +475,8 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         if fopts:
             assert len(fopts) == 1 and fopts[0][0] == OPTION_ID['tagid']    # Update if additional field options defined
             fo.update({'tagid': fopts[0][1:]})      # if field name, MUST update to id after all fields have been read
+    elif fmult:
+        raise_error(f'multiplicity [{fmult}] of an item')
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
 
 
-- 
2.43.0


From 070573035489ac286823fafc457133d48fcb1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 121/134] fix: html_loads reads documents with comments

---
 distribution/src/jadn/convert/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 77f33e7..c960ad6 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -145,7 +145,7 @@ def html_loads(hdoc: str) -> dict:
     def get_line(hdoc: str) -> Generator[dict, None, None]:
         line = {}
         for element in html.fromstring(hdoc).iter():
-            cl = [c for c in element.get('class', '').split() if c in tclass]  # Get element's token class
+            cl = [c for c in (element.get('class') or '').split() if c in tclass]  # Get element's token class
             if cl:
                 assert len(cl) == 1  # TODO: Can't be more than one - replace assertions with proper errors
                 if cl[0] in ('jKey', 'jTname', 'jFid'):
-- 
2.43.0


From d544807aaa52df78335842a6b4952bccc0eec4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 122/134] fix: JSON Schema writes the configured expression of
 patterns that name a configuration variable

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 6738b5a..560426d 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -257,7 +257,7 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
         w_format(topts['format']) if 'format' in topts else {},
         {'minLength': topts['minv']} if 'minv' in topts and topts['minv'] != 0 else {},
         {'maxLength': topts['maxv']} if 'maxv' in topts else {},
-        {'pattern': topts['pattern']} if 'pattern' in topts else {}
+        {'pattern': ctx['config'].get(topts['pattern'], topts['pattern'])} if 'pattern' in topts else {}
     )
 
 
-- 
2.43.0


From e5f66eabc5e03b65fe5352b3560fa9530f245682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 123/134] fix: type strings show unrecognized options by name

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index a338d32..5bfcc77 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -398,7 +398,7 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('extend', None):
         extra += ' extend'
-    return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
+    return f"{tname}{extra}{f' ?{str(list(opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
 def multiplicity_str(opts: dict) -> str:
-- 
2.43.0


From e096cdf533db605704743bb1692b95238e29a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 124/134] fix: JSON Schema includes the description of union
 types

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 560426d..c794a09 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -274,7 +274,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
+        return dmerge({'description': tdef[TypeDesc]} if tdef[TypeDesc] else {}, {c: [w_fdef(f, ctx) for f in tdef[Fields]]})
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From d538226f37f9e0d13b08a25ced08fe1924f9032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 125/134] fix: objects and text are not lists of type
 definitions

---
 distribution/src/jadn/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index bcd1049..04f67dc 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -63,8 +63,8 @@ def check(schema: dict) -> dict:
     Perform additional checks on type definitions
     """
     # Add empty Fields if not present
-    schema_types = [TypeDefinition(*t) for t in schema['types']]
-    schema['types'] = [list(t) for t in schema_types]
+    if isinstance(schema['types'], list):
+        schema['types'] = [list(TypeDefinition(*t)) if isinstance(t, (list, tuple)) else t for t in schema['types']]
 
     data_path = data_dir()
     with open(os.path.join(data_path, 'jadn_v1.1_schema.json')) as f:     # Check using JSON Schema for JADN
@@ -75,6 +75,7 @@ def check(schema: dict) -> dict:
         assert meta_schema.encode('Schema', schema) == schema
 
     # Additional checks not included in schema
+    schema_types = [TypeDefinition(*t) for t in schema['types']]
     types = {}
     for type_def in schema_types:
         collisions = []
-- 
2.43.0


From 05ce86df678eafa07b5b24d53aae24737e260740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 126/134] fix: JSON Schema states the encoding of Binary
 formats b and X

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index c794a09..7e8bc70 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -16,7 +16,9 @@ from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config, full_types
 
 # Consts
 JADN_FMT = {
+    'b': {'contentEncoding': 'base64url'},
     'x': {'contentEncoding': 'base16'},
+    'X': {'contentEncoding': 'base16'},
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
     'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]?){5}[0-9A-Fa-f]{2}(([:-]?[0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
-- 
2.43.0


From 3cc6557e77f615ce6fbfaef9cd7fb20e2a89396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 127/134] fix: JSON Schema of a map with date-time keys accepts
 the date-time texts

---
 distribution/src/jadn/translate/jsonschema_w.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 7e8bc70..afdd910 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -333,7 +333,10 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
     ktype = topts['ktype']
-    btype = ktype if is_builtin(ktype) else ctx['type_defs'].get(ktype, [ktype, ''])[BaseType]
+    kdef = [ktype, ktype, []] if is_builtin(ktype) else ctx['type_defs'].get(ktype, [ktype, '', []])
+    btype = kdef[BaseType]
+    if btype == 'Integer' and topts_s2d(kdef[TypeOptions]).get('format') == 'datetime-ms':
+        btype = 'String'        # written as text
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
-- 
2.43.0


From ec2b5e904c1a18e06f03f113ca6013387a569844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 128/134] fix: texts that overflow the check of the regex
 format are rejected as other bad values are

---
 distribution/src/jadn/codec/format_validate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index c2c8e7f..005e64d 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -175,6 +175,8 @@ def format_validators() -> FormatTable:  # Generate validation function table
                 )
             except jsonschema.exceptions.ValidationError as e:
                 raise ValueError(e.message)
+            except (OverflowError, RecursionError) as e:    # Not caught by the regex checker of jsonschema
+                raise ValueError(f'{format_kw}: {e}')
             if format_kw != 'regex' and val.endswith('\n'):     # rfc3987 ignores a final newline
                 raise ValueError(f'{val!r} ends with a newline')
             return val
-- 
2.43.0


From 7314b6c3c22e58ff0947e5b4d96fd954496e894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 129/134] fix: a pattern that is not a regular expression is a
 validation error

---
 distribution/src/jadn/codec/codec.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 21d0261..40b70c7 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -119,8 +119,12 @@ def _check_key(ts: SymbolTableField, val):
 
 def _check_pattern(ts: SymbolTableField, val):
     op = ts.TypeOpts
-    if 'pattern' in op and not re.match(op['pattern'], val):
-        tn = ts.TypeDef.TypeName
+    tn = ts.TypeDef.TypeName
+    try:
+        matches = 'pattern' not in op or re.match(op['pattern'], val)
+    except (re.error, OverflowError, RecursionError) as e:
+        raise_error(f'{tn}: pattern {op["pattern"]} is not a regular expression: {e}')
+    if not matches:
         raise_error(f'{tn}: string "{val}" does not match {op["pattern"]}')
     return val
 
-- 
2.43.0


From e9dace152b996d5bec5de4b005a7c728d09ca0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 130/134] fix: a schema without types fails validation instead
 of raising KeyError

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 04f67dc..16036d8 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -63,7 +63,7 @@ def check(schema: dict) -> dict:
     Perform additional checks on type definitions
     """
     # Add empty Fields if not present
-    if isinstance(schema['types'], list):
+    if isinstance(schema, dict) and isinstance(schema.get('types'), list):
         schema['types'] = [list(TypeDefinition(*t)) if isinstance(t, (list, tuple)) else t for t in schema['types']]
 
     data_path = data_dir()
-- 
2.43.0


From 08f2724846d479d290e6c1031a8ec5052a974e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 131/134] fix: check rejects repeated options

---
 distribution/src/jadn/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 16036d8..7a66df7 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -25,6 +25,12 @@ def data_dir() -> str:
     return os.path.join(os.path.abspath(os.path.dirname(__file__)), 'data')
 
 
+# Check that options occur once
+def check_options(name: str, opts: list) -> None:
+    if len({o[0] for o in opts}) != len(opts):
+        raise_error(f'Repeated option {name}: {opts}')
+
+
 # Check schema is valid
 def check_typeopts(type_name: str, base_type: str, topts: dict) -> None:
     """
@@ -88,6 +94,7 @@ def check(schema: dict) -> dict:
             raise_error(f'Reserved type name {type_def.TypeName}')
         if not is_builtin(type_def.BaseType):
             raise_error(f'Invalid base type {type_def.TypeName}: {type_def.BaseType}')
+        check_options(type_def.TypeName, type_def.TypeOptions)
         type_opts = jadn.topts_s2d(type_def.TypeOptions)
         check_typeopts(type_def.TypeName, type_def.BaseType, type_opts)
 
@@ -131,6 +138,7 @@ def check(schema: dict) -> dict:
         # Full Fields -> Array, Choice, Map, Record
         if flen > FieldDesc:  # Full field, not an Enumerated item
             for field in [f if isinstance(f, GenFieldDefinition) else GenFieldDefinition(*f) for f in fields]:
+                check_options(f'{type_def.TypeName}/{field.FieldName}', field.FieldOptions)
                 fo, fto = jadn.ftopts_s2d(field.FieldOptions)
                 minc = fo.get('minc', 1)
                 maxc = fo.get('maxc', 1)
-- 
2.43.0


From 064ff3d7bc39f34a4c2f396e6f759a82531f730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 132/134] fix: check rejects unknown combinations and values of
 options without a value

---
 distribution/src/jadn/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 7a66df7..54cef82 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -25,10 +25,16 @@ def data_dir() -> str:
     return os.path.join(os.path.abspath(os.path.dirname(__file__)), 'data')
 
 
-# Check that options occur once
+# Check that options occur once and have a value of their kind
 def check_options(name: str, opts: list) -> None:
     if len({o[0] for o in opts}) != len(opts):
         raise_error(f'Repeated option {name}: {opts}')
+    flags = [OPTION_ID[k] for k in ('id', 'unique', 'set', 'unordered', 'sequence', 'extend', 'dir', 'key', 'link')]
+    for opt, val in [(o[0], o[1:]) for o in opts]:
+        if opt in flags and val:
+            raise_error(f'Option has no value {name}: {opt}{val}')
+        if opt == OPTION_ID['combine'] and val not in ('A', 'O', 'X'):
+            raise_error(f'Unknown combination {name}: {opt}{val}')
 
 
 # Check schema is valid
-- 
2.43.0


From 1fc9485e16eef1b39c8cef428fcc869f678914ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 133/134] fix: check rejects limits of numbers that are not
 finite

---
 distribution/src/jadn/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 54cef82..1a23f19 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -3,6 +3,7 @@ Load, validate, prettyprint, and dump JSON Abstract Encoding Notation (JADN) sch
 """
 import json
 import jsonschema
+import math
 import numbers
 import os
 import re
@@ -52,6 +53,8 @@ def check_typeopts(type_name: str, base_type: str, topts: dict) -> None:
         raise_error(f'Bad value range {type_name} ({base_type}): [{topts["minv"]}..{topts["maxv"]}]')
     if base_type != 'Integer' and min(topts.get('minv', 0), topts.get('maxv', 0)) < 0:
         raise_error(f'Bad size {type_name} ({base_type}): [{topts.get("minv", 0)}..{topts.get("maxv", 0)}]')
+    if not all(math.isfinite(topts.get(k, 0)) for k in ('minf', 'maxf')):
+        raise_error(f'Bad value range {type_name} ({base_type}): [{topts.get("minf", "*")}..{topts.get("maxf", "*")}]')
     if 'maxf' in topts and 'minf' in topts and topts['maxf'] < topts['minf']:
         raise_error(f'Bad value range {type_name} ({base_type}): [{topts["minf"]}..{topts["maxf"]}]')
     if ('minv' in topts or 'maxv' in topts) and 'pattern' in topts:
-- 
2.43.0


From 712bc244a7fd7a7d4695f2c8e16ec46b219798c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 134/134] fix: check rejects empty type references in options
 and enumerations derived from built-in types

---
 distribution/src/jadn/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 1a23f19..eb96b4a 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -36,6 +36,11 @@ def check_options(name: str, opts: list) -> None:
             raise_error(f'Option has no value {name}: {opt}{val}')
         if opt == OPTION_ID['combine'] and val not in ('A', 'O', 'X'):
             raise_error(f'Unknown combination {name}: {opt}{val}')
+        if opt in [OPTION_ID[k] for k in ('ktype', 'vtype', 'enum', 'pointer')]:    # Type, or enumeration derived from one
+            derived = opt in (enum := (OPTION_ID['enum'], OPTION_ID['pointer'])) or val[:1] in enum
+            tref = val[1:] if val[:1] in enum else val
+            if not tref or derived and is_builtin(tref):
+                raise_error(f'Bad type reference {name}: {opt}{val}')
 
 
 # Check schema is valid
-- 
2.43.0

