From 41012742ba44a023cddfd055dc1b92ae871b67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:44 +0000
Subject: [PATCH 001/136] fix: delimiters inside strings and comments do not
 end the enclosing container

---
 pdfsyntax/objects.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..dbdaef0 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -67,7 +67,6 @@ def next_token(text: bytes, i=0) -> tuple:
     """Find next token in raw string starting at some index."""
     search = "TBD"
     nested = 1
-    text_in_array = 0
     h = i
     while i < len(text):
         single = text[i:i+1]
@@ -79,6 +78,9 @@ def next_token(text: bytes, i=0) -> tuple:
                 return (h, i+1, None)
             elif double == b'<<':
                 search = "DICT"
+                h = i
+                i += 2
+                continue
             elif single == b'[':
                 search = "ARRAY"
             elif single == b"/":
@@ -109,6 +111,11 @@ def next_token(text: bytes, i=0) -> tuple:
             elif double == b'>>':
                 nested -= 1
                 i += 1
+            elif single in b'(<%': #skip inner string or comment
+                _, i, inner = next_token(text, i)
+                if inner is None:
+                    return (h, i, None)
+                continue
             if nested == 0:
                 return (h, i + 1, 'DICT')
             else:
@@ -120,7 +127,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if single == b'\\': #whatever is escaped is not a delimiter
                 i += 1
             elif single == b'(':
                 nested += 1
@@ -158,13 +165,16 @@ def next_token(text: bytes, i=0) -> tuple:
             elif  text[i:i+9] == b'endstream':
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
-            if single == b'(':
-                text_in_array = 1
-            elif single == b')':
-                text_in_array = 0
-            elif text_in_array == 0 and single == b'[':
+            if double == b'<<':
+                i += 1
+            elif single in b'(<%': #skip inner string or comment
+                _, i, inner = next_token(text, i)
+                if inner is None:
+                    return (h, i, None)
+                continue
+            elif single == b'[':
                 nested += 1
-            elif text_in_array == 0 and single == b']':
+            elif single == b']':
                 nested -= 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
-- 
2.43.0


From 81c926aa8289d85b0878addf8c496244dfa454a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:44 +0000
Subject: [PATCH 002/136] fix: references keep their generation number when
 parsed

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index dbdaef0..fc30116 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -189,7 +189,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
-- 
2.43.0


From c196f593c74cd5b4defd6fb152748e3108b9471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:45 +0000
Subject: [PATCH 003/136] fix: parse_obj accepts white space before a container

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index fc30116..93a7a8f 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -229,7 +229,7 @@ def parse_obj(text: bytes, start=0) -> Any:
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
 
-        i = start + 2
+        i = h1 + 2
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
@@ -254,7 +254,7 @@ def parse_obj(text: bytes, start=0) -> Any:
         return res
     elif t1 == 'ARRAY':
         res = []
-        i = start + 1
+        i = h1 + 1
         while i < j1 - 1:
             h, i, t = next_token(text, i)
             if t and t != 'COMMENT':
-- 
2.43.0


From 68d25469b481bd15ac5c36b3b76ec0904a13ef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 004/136] fix: names with bytes above 127 survive parsing and
 serialization

---
 pdfsyntax/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 93a7a8f..8d77f8f 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -208,7 +208,7 @@ def dedicated_type(text: bytes, type: str) -> Any:
     elif type == 'FALSE':
         return False
     elif type == 'KEYWORD' or type == 'NAME':
-        return text.decode('ascii')
+        return text.decode('latin-1')
     else:
         return text
 
@@ -460,14 +460,14 @@ def to_str(obj) -> bytes:
     elif type(obj) == float:
         return str(obj).encode('ascii')
     elif type(obj) == str:
-        return obj.encode('ascii')
+        return obj.encode('latin-1')
     elif type(obj) == complex:
         s = f'{int(obj.imag)} {int(obj.real)} R'
         return s.encode('ascii')
     elif type(obj) == bytes:
         return obj
     else:
-        return obj.encode('ascii')
+        return obj.encode('latin-1')
 
 
 def serialize(obj, depth=0) -> bytes:
-- 
2.43.0


From 11279a8de89e98d7e2f04f3456625d545d04af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:46 +0000
Subject: [PATCH 005/136] fix: reals are never serialized with an exponent

---
 pdfsyntax/objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 8d77f8f..5293d71 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -1,6 +1,7 @@
 """Module pdfsyntax.objects: Parser"""
 
 from typing import Any
+from decimal import Decimal
 from collections import namedtuple
 from dataclasses import dataclass
 from .filters import *
@@ -458,7 +459,12 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        s = str(obj)
+        if 'e' in s: #PDF has no exponent notation
+            s = f'{Decimal(s):f}'
+            if '.' not in s:
+                s += '.0'
+        return s.encode('ascii')
     elif type(obj) == str:
         return obj.encode('latin-1')
     elif type(obj) == complex:
-- 
2.43.0


From 6c16e6f07778a4305464bd74d834f84a0a338b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:47 +0000
Subject: [PATCH 006/136] fix: a stream with no data is still serialized as a
 stream

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 5293d71..6e630a3 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -496,7 +496,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From fb9749fe37b0b2aece04473f935c258c20d6203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:47 +0000
Subject: [PATCH 007/136] fix: a stray closing bracket does not loop forever

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6e630a3..1e5d13d 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -74,7 +74,7 @@ def next_token(text: bytes, i=0) -> tuple:
         double = text[i:i+2]
         if search == "TBD":
             if single == b']':
-                return (h, i, None)
+                return (h, i+1, None)
             elif double == b'>>':
                 return (h, i+1, None)
             elif double == b'<<':
-- 
2.43.0


From a5ae0474c52e9040e01aeb9f5337c214ef5d8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:13 +0000
Subject: [PATCH 008/136] fix: comments are allowed before an object, its
 stream or its keywords

---
 pdfsyntax/docstruct.py  | 26 +++++++++++++-------------
 pdfsyntax/filestruct.py | 21 ++++++++++-----------
 pdfsyntax/objects.py    | 26 +++++++++++++++++++-------
 3 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..13e0cd3 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -238,13 +238,13 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         for index in indexes:
             bdata, a0, _, _ = fdata(index['abs_pos'],
                                     index['abs_next'] - index['abs_pos'])
-            i, j, _ = next_token(bdata, a0)
+            i, j, _ = next_obj_token(bdata, a0)
             if bdata[i:j] == b'trailer':
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_obj_token(bdata, j)
             else:
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_obj_token(bdata, j)
+                i, j, _ = next_obj_token(bdata, j)
+                i, j, _ = next_obj_token(bdata, j)
             text = bdata
             i_obj = parse_obj(text, i)
             if type(i_obj) == Stream:
@@ -254,10 +254,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     elif 'env_num' not in idx[rev][key]:
         bdata, a0, _, _ = fdata(idx[rev][key]['abs_pos'],
                                 idx[rev][key]['abs_next'] - idx[rev][key]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
+        i, j, _ = next_obj_token(bdata, a0)
+        i, j, _ = next_obj_token(bdata, j)
+        i, j, _ = next_obj_token(bdata, j)
+        i, j, _ = next_obj_token(bdata, j)
         text = bdata
         obj = parse_obj(text, i)
         if key == 0 and type(obj) == Stream:
@@ -267,10 +267,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         container = idx[rev][key]['env_num']
         bdata, a0, _, _ = fdata(idx[rev][container]['abs_pos'],
                                 idx[rev][container]['abs_next'] - idx[rev][container]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j) #/ObjStm
+        i, j, _ = next_obj_token(bdata, a0)
+        i, j, _ = next_obj_token(bdata, j)
+        i, j, _ = next_obj_token(bdata, j)
+        i, j, _ = next_obj_token(bdata, j) #/ObjStm
         text = bdata
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..9895bc2 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -280,16 +280,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
-            i, j, _ = next_token(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
-            i, j, _ = next_token(bdata, j)                            #dict
+            i, j, _ = next_obj_token(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
+            i, j, _ = next_obj_token(bdata, j)                            #dict
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0 - o0) #o_num
+            i, j, _ = next_obj_token(bdata, a0 - o0) #o_num
             o_num = parse_obj(bdata, i)
-            i, j, _ = next_token(bdata, j)       #o_ver
-            i, j, _ = next_token(bdata, j)       #b'obj'
-            i, j, _ = next_token(bdata, j)       #dict
+            i, j, _ = next_obj_token(bdata, j)       #o_ver
+            i, j, _ = next_obj_token(bdata, j)       #b'obj'
+            i, j, _ = next_obj_token(bdata, j)       #dict
             xref = parse_obj(bdata, i)
             xref_index = parse_xref_stream(xref, xref_pos, o_num)
             trailer = xref['entries']
@@ -603,11 +603,10 @@ def linearized(fdata: Callable) -> dict:
     """ """
     HEADER = b'%PDF-X.Y'
     bdata, a0, o0, _ = fdata(len(HEADER), 1024 - len(HEADER))
-    i, j, _ = next_token(bdata, a0) #comment
-    i, j, _ = next_token(bdata, j)  #o_num
-    i, j, _ = next_token(bdata, j)  #gen_num
-    i, j, _ = next_token(bdata, j)  #obj keyword
-    i, j, t = next_token(bdata, j)  #dict ?
+    i, j, _ = next_obj_token(bdata, a0)  #o_num
+    i, j, _ = next_obj_token(bdata, j)  #gen_num
+    i, j, _ = next_obj_token(bdata, j)  #obj keyword
+    i, j, t = next_obj_token(bdata, j)  #dict ?
     if t == 'DICT':
         o = bdata[i:j]
         first_obj = parse_obj(o)
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 1e5d13d..5513e78 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -214,14 +214,26 @@ def dedicated_type(text: bytes, type: str) -> Any:
         return text
 
 
+def next_obj_token(text: bytes, i=0) -> tuple:
+    """Find next token that is not a comment."""
+    h, j, t = next_token(text, i)
+    while t == 'COMMENT':
+        h, j, t = next_token(text, j)
+    return (h, j, t)
+
+
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
+    if t1 == 'COMMENT':
+        h2, j2, t2 = next_obj_token(text, j1)
+        if t2:
+            h1, j1, t1 = h2, j2, t2
     obj = text[h1:j1]
     if t1 == 'DICT':
         res = {}
         res_array = []
-        h2, j2, t2 = next_token(text, j1)
+        h2, j2, t2 = next_obj_token(text, j1)
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
@@ -301,16 +313,16 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     """Recursively parse indirect object starting at X Y R."""
     bl, el = next_line(text, start)
     bo = bl
-    i1, j1, _ = next_token(text, start) #o_num
-    i2, j2, _ = next_token(text, j1) #o_gen
+    i1, j1, _ = next_obj_token(text, start) #o_num
+    i2, j2, _ = next_obj_token(text, j1) #o_gen
     o_num = int(text[i1:j1])
     o_gen = int(text[i2:j2])
-    i, j, _ = next_token(text, j2) #obj
-    i, j, _ = next_token(text, j) #object1
+    i, j, _ = next_obj_token(text, j2) #obj
+    i, j, _ = next_obj_token(text, j) #object1
     o = parse_obj(text, i)
-    i, j, t = next_token(text, j)
+    i, j, t = next_obj_token(text, j)
     if t == 'STREAM':
-        _, j, _ = next_token(text, j) #endobj
+        _, j, _ = next_obj_token(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
 
-- 
2.43.0


From 9b0a1274a826401ea87ed7d28c58774041fd8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:50 +0000
Subject: [PATCH 009/136] fix: every forged stream carries its exact /Length

---
 pdfsyntax/objects.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 5513e78..75fb71a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -34,16 +34,15 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
-    if '/Length' in entries and type(entries['/Length']) == int:
-        entries['/Length'] = length
+    length = len(encoded)
+    entries['/Length'] = length
     return length
 
 
 def forge_stream(entries: dict, content: bytes) -> tuple:
     """Encode stream and calculate its length."""
     encoded = encode_stream(content, entries)
-    envelope = Stream(entries, content, encoded)
+    envelope = Stream(entries.copy(), content, encoded)
     length = update_internal_stream_length(envelope)
     return envelope, length
 
-- 
2.43.0


From 8711eaf2b2b9911e0c88019e9913e8d0e980db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:51 +0000
Subject: [PATCH 010/136] fix: /Length delimits stream data whatever the data
 holds

---
 pdfsyntax/objects.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 75fb71a..2b8086c 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -1,5 +1,6 @@
 """Module pdfsyntax.objects: Parser"""
 
+import re
 from typing import Any
 from decimal import Decimal
 from collections import namedtuple
@@ -10,6 +11,7 @@ from .filters import *
 EOL = b'\r\n'
 SPACE = EOL + b'\x00\x09\x0c\x20'
 DELIMITERS = b'<>[]/(){}%'
+ENDSTREAM = re.compile(rb'(\r\n|\n|\r)?endstream')
 
 
 @dataclass
@@ -221,6 +223,21 @@ def next_obj_token(text: bytes, i=0) -> tuple:
     return (h, j, t)
 
 
+def stream_span(text: bytes, i: int, entries: dict) -> tuple:
+    """Delimit stream data with /Length and find where its endstream stops, if /Length is right."""
+    length = entries.get('/Length')
+    if text[i:i+8] == b'stream\r\n':
+        start = i + 8
+    else:
+        start = i + 7
+    if type(length) != int or length < 0:
+        return None
+    end = ENDSTREAM.match(text, start + length)
+    if not end:
+        return None
+    return (start, start + length, end.end())
+
+
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
@@ -236,7 +253,11 @@ def parse_obj(text: bytes, start=0) -> Any:
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
-            stream_encoded =  parse_obj(following_obj)
+            span = stream_span(text, h2, stream_def)
+            if span:
+                stream_encoded = text[span[0]:span[1]]
+            else:
+                stream_encoded = parse_obj(following_obj)
             stream_content = decode_stream(stream_encoded, stream_def)
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
@@ -321,6 +342,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     o = parse_obj(text, i)
     i, j, t = next_obj_token(text, j)
     if t == 'STREAM':
+        span = stream_span(text, i, o['entries'])
+        if span:
+            j = span[2]
         _, j, _ = next_obj_token(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
-- 
2.43.0


From dc4c65558f26e34c03cd032f8ace1ab76f7db34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:15 +0000
Subject: [PATCH 011/136] fix: object streams may end without white space, hold
 comments or be empty

---
 pdfsyntax/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 2b8086c..cbf375a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -352,17 +352,17 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
 def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
     """List objects embedded within an object stream (/ObjStm)."""
     res = []
-    data = obj_stream['stream']
+    data = obj_stream['stream'] + b' ' #make sure the last token is delimited
     offset = int(obj_stream['entries']['/First'])
     theorical_nb_obj = int(obj_stream['entries']['/N'])
     i = 0
     tokens = []
     while i < len(data):
         bo, eo, typ = next_token(data, i)
-        tokens.append(bo)
+        if typ and typ != 'COMMENT':
+            tokens.append(bo)
         i = eo
     actual_nb_obj = len(tokens) // 3
-    actual_offset = tokens[2 * actual_nb_obj]
     y_array = parse_obj(b'[' + data[:offset] + b']')
     y_pos = [y+offset for j, y in enumerate(y_array) if j % 2]
     for x in range(actual_nb_obj):
-- 
2.43.0


From 377a37750fb091323df5b2bdbcd5ab608e4cdbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:16 +0000
Subject: [PATCH 012/136] fix: xref streams may omit the type column, have
 empty subsections or padding

---
 pdfsyntax/objects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index cbf375a..61930c5 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -407,9 +407,8 @@ def expand_xref_index(xref_index: list) -> list:
     while i < len(xref_index):
         o_num = xref_index[i]
         i += 1
-        res.append((o_num, subsection))
-        for j in range(xref_index[i]-1):
-            res.append((o_num+j+1, subsection))
+        for j in range(xref_index[i]):
+            res.append((o_num+j, subsection))
         i += 1
         subsection += 1
     return res
@@ -425,7 +424,7 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
     else:
         obj_range = [0, xref_stream['entries']['/Size']]
     obj_nums = expand_xref_index(obj_range)
-    while i < len(xref_stream['stream']):
+    while i < len(xref_stream['stream']) and obj_nums:
         params = []
         ppr = b''
         obj_num, subsection = obj_nums.pop(0)
@@ -435,6 +434,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
             params.append(int.from_bytes(x, byteorder='big'))
             i += int(col)
             ppr += asciihex(x) + b' '
+        if int(cols[0]) == 0:
+            params[0] = 1 #default type
         if params[0] == 0:
             offset = params[1]
             o_gen = params[2]
-- 
2.43.0


From a07278ee39e86207e5e6347608ce236782bb0c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:16 +0000
Subject: [PATCH 013/136] fix: a trailer dictionary may start on the line of
 its keyword

---
 pdfsyntax/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 61930c5..a33322c 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -394,7 +394,8 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
             res.append((offset, o_num, o_ver, keyword))
             o_num += 1
         bl, el = next_line(bdata, el)
-    bl, bf, _l = next_token(bdata, el)
+    bl, bf, _l = next_obj_token(bdata, bl) #b'trailer'
+    bl, bf, _l = next_obj_token(bdata, bf)
     trailer = parse_obj(bdata, bl)
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
-- 
2.43.0


From 538d79cb046b3ecf5d5816d0f05627b5b089ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:17 +0000
Subject: [PATCH 014/136] fix: the ' and \" operators are tokenized

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index a33322c..02986de 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -97,7 +97,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 i += offset
             elif single in b"+-.0123456789":
                 search = "VALUE"
-            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
+            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\"":
                 search = "KEYWORD"
             elif single in b"(":
                 search = "LSTRING"
-- 
2.43.0


From 7ac72f6fca6f77cd519044655eb84115d02e1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:28 +0000
Subject: [PATCH 015/136] fix: filter chains are decoded in order and encoded
 in reverse order

---
 pdfsyntax/filters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..81e1a94 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -28,6 +28,7 @@ def decode_stream(stream, stream_def):
     s = stream
     if '/Filter' not in stream_def:
         return s
+    res = s
     filters = stream_def['/Filter']
     if type(filters) == str:
         #filters = [filters]
@@ -39,6 +40,8 @@ def decode_stream(stream, stream_def):
         if type(parms) == dict:
             parms = [parms]
     for i, f in enumerate(filters):
+        if i > 0:
+            s = res
         if f == '/FlateDecode':
             try:
                 res = zlib.decompress(s)
@@ -71,7 +74,7 @@ def encode_stream(stream, stream_def):
     if type(filters) == str:
         filters = [filters]
     res = stream
-    for _, f in enumerate(filters):
+    for f in reversed(filters): #The first filter is the first to decode
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From a8e8458528326362a60fd1efebb12c69aa832e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:28 +0000
Subject: [PATCH 016/136] fix: ASCIIHexDecode data has an end marker, white
 space and possibly an odd digit

---
 pdfsyntax/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 81e1a94..4a23071 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -53,7 +53,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                digits = b''.join(s.split(b'>')[0].translate(None, b'\x00').split())
+                res = binascii.unhexlify(digits + b'0' * (len(digits) % 2))
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
@@ -82,7 +83,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = asciihex(res)
+                res = asciihex(res) + b'>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
-- 
2.43.0


From ef2e374dbf60d50af0c7146251232fd60a11a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:29 +0000
Subject: [PATCH 017/136] fix: ASCII85Decode data has an end marker but no
 start marker

---
 pdfsyntax/filters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 4a23071..b8957ea 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -59,7 +59,9 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(s, adobe=True)
+                chars = b''.join(s.translate(None, b'\x00').split())
+                chars = chars[2:] if chars[:2] == b'<~' else chars
+                res = base64.a85decode(chars.split(b'~')[0])
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
@@ -88,7 +90,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85encode(res, adobe=True)
+                res = base64.a85encode(res) + b'~>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCII85'
         else:
-- 
2.43.0


From 0a0d5a682348e0232382f40e03702847a4c15281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:29 +0000
Subject: [PATCH 018/136] fix: the tag of each row selects its PNG predictor

---
 pdfsyntax/filters.py | 54 ++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index b8957ea..2d8d802 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -6,21 +6,43 @@ import base64
 
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
-def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG predictors
-    """ """
+def paeth(a, b, c):
+    """Select the nearest neighbour: left, above or upper left."""
+    p = a + b - c
+    return min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
+
+
+def decode_predictor(bdata: bytes, predictor, columns, colors=1, bits=8): #TODO handle TIFF predictor
+    """Undo PNG prediction, each row starting with the tag of its algorithm."""
+    if predictor == 1:
+        return bdata
+    if predictor < 10:
+        raise ValueError('unsupported predictor')
     size = len(bdata)
-    res = b''
-    columns += 1
-    prev_row = [0] * columns
+    res = []
+    bpp = max(1, colors * bits // 8)
+    row_l = (columns * colors * bits + 7) // 8
+    prev_row = [0] * row_l
     i = 0
     while i < size:
-        row = list(bdata[i:i+columns])
-        # Predictor 12, PNG Up
-        decoded_row = [(val + prev_row[index]) & 0xff for (index, val) in enumerate(row)]
-        prev_row = decoded_row
-        res += bytes(decoded_row[1:])
-        i += columns
-    return res
+        tag = bdata[i]
+        row = list(bdata[i+1:i+1+row_l])
+        for j, val in enumerate(row):
+            left = row[j-bpp] if j >= bpp else 0
+            upper_left = prev_row[j-bpp] if j >= bpp else 0
+            above = prev_row[j]
+            if tag == 1:
+                row[j] = (val + left) & 0xff
+            elif tag == 2:
+                row[j] = (val + above) & 0xff
+            elif tag == 3:
+                row[j] = (val + (left + above) // 2) & 0xff
+            elif tag == 4:
+                row[j] = (val + paeth(left, above, upper_left)) & 0xff
+        prev_row = row + [0] * (row_l - len(row))
+        res.append(bytes(row))
+        i += row_l + 1
+    return b''.join(res)
 
 
 def decode_stream(stream, stream_def):
@@ -45,10 +67,12 @@ def decode_stream(stream, stream_def):
         if f == '/FlateDecode':
             try:
                 res = zlib.decompress(s)
-                if parms[i] and '/Predictor' in parms[i]:
+                if i < len(parms) and type(parms[i]) == dict and '/Predictor' in parms[i]:
                     predictor = int(parms[i]['/Predictor'])
-                    columns = int(parms[i]['/Columns'])
-                    res = decode_predictor(res, predictor, columns)
+                    columns = int(parms[i].get('/Columns', 1))
+                    colors = int(parms[i].get('/Colors', 1))
+                    bits = int(parms[i].get('/BitsPerComponent', 8))
+                    res = decode_predictor(res, predictor, columns, colors, bits)
             except:
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
-- 
2.43.0


From 0cd5a5899c13bd2ded63c6e55b701510422244a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:30 +0000
Subject: [PATCH 019/136] fix: a re-encoded stream does not keep the
 /DecodeParms of the previous encoding

---
 pdfsyntax/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 02986de..a87a1e0 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -44,7 +44,8 @@ def update_internal_stream_length(stream: Stream):
 def forge_stream(entries: dict, content: bytes) -> tuple:
     """Encode stream and calculate its length."""
     encoded = encode_stream(content, entries)
-    envelope = Stream(entries.copy(), content, encoded)
+    entries = {k: v for k, v in entries.items() if k != '/DecodeParms'} #No predictor is applied
+    envelope = Stream(entries, content, encoded)
     length = update_internal_stream_length(envelope)
     return envelope, length
 
-- 
2.43.0


From f2cf7973b1139c6b56be0aa1906dee5c753881a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:30 +0000
Subject: [PATCH 020/136] fix: a stream that cannot be decoded is left as it is
 when filters are changed

---
 pdfsyntax/api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..457ed92 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -219,10 +219,11 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
         if '/Filter' in entries:
             if entries['/Filter'] == flt:
                 continue
-            else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
+            filters = entries['/Filter']
+            if type(filters) == str:
+                filters = filters.split()
+            if not set(filters) <= set(DECODED_FILTERS) or o['stream'][:20] == b'#PDFSyntaxException:':
+                continue
         entries = deepcopy(entries)
         if '/Filter' in entries and flt == '':
             del entries['/Filter']
-- 
2.43.0


From 2f8e2f08334527b69c31c6b48c1b5c083330af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:58 +0000
Subject: [PATCH 021/136] fix: an indirect /Filter is an unsupported filter, no
 filter is not an empty filter

---
 pdfsyntax/api.py     | 6 +++---
 pdfsyntax/filters.py | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 457ed92..7e8b6e7 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -222,11 +222,11 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
             filters = entries['/Filter']
             if type(filters) == str:
                 filters = filters.split()
-            if not set(filters) <= set(DECODED_FILTERS) or o['stream'][:20] == b'#PDFSyntaxException:':
+            if type(filters) != list or not set(filters) <= set(DECODED_FILTERS) or o['stream'][:20] == b'#PDFSyntaxException:':
                 continue
         entries = deepcopy(entries)
-        if '/Filter' in entries and flt == '':
-            del entries['/Filter']
+        if flt == '':
+            entries.pop('/Filter', None)
         else:
             entries['/Filter'] = flt
         s, length = forge_stream(entries, o['stream'])
diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 2d8d802..bd9bfd7 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -55,6 +55,8 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
+    if type(filters) != list:
+        return b'#PDFSyntaxException: unsupported filter'
     if '/DecodeParms' not in stream_def:
         parms = [None] * len(filters)
     else:
-- 
2.43.0


From 14061c8a1e2c96d25b87654007df26f58da958eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:53 +0000
Subject: [PATCH 022/136] fix: xref table entries are exactly 20 bytes long

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 9895bc2..0b4aa87 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -408,10 +408,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
-- 
2.43.0


From 1c79ebed5d6b6ce01a79cb2a03459f7de2a8b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:54 +0000
Subject: [PATCH 023/136] fix: a circular chain of xref sections does not loop
 forever

---
 pdfsyntax/filestruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 0b4aa87..e3199dd 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -254,6 +254,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     prev_eof = None
     chrono = []
     seq = []
+    visited = set()
     while start or prev or xrefstm:
         a0 = 0
         o0 = 0
@@ -277,6 +278,9 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             eof_pos = o0 + bdata.find(EOF, xref_pos)
             last = eof_pos
             prev = False
+        if xref_pos in visited: #circular chain
+            continue
+        visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
-- 
2.43.0


From 8efb4ada498bf97f375bf56a7383d2ab996b52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:55 +0000
Subject: [PATCH 024/136] fix: objects embedded in object streams may have the
 greatest number

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index e3199dd..5586d9f 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -313,7 +313,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max([i['o_num'] for xref_index in chrono for i in xref_index])
     return chrono, nxt, nb
 
 
-- 
2.43.0


From a5173fae80a7460cb4471f6393e3bf161e683c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:55 +0000
Subject: [PATCH 025/136] fix: an object freed by an incremental update is
 deleted when the file is loaded

---
 pdfsyntax/filestruct.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5586d9f..024aeda 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -176,7 +176,9 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             table.append((f"{line[0]} {line[1]}".encode('ascii'), None))
         elif len(line) == 4:
             offset, o_num, o_gen, keyword = line
-            if keyword != b'f' and o_num != 0:
+            if keyword == b'f' and o_num != 0:
+                xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+            elif o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
@@ -216,6 +218,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
+            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
@@ -350,6 +353,12 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
+            if 'DELETED' in obj:
+                old_obj = m[obj['o_num']]
+                if old_obj and 'DELETED' not in old_obj and trailer['abs_pos'] == prev_pos:
+                    m[obj['o_num']] = {'o_num': obj['o_num'], 'o_gen': old_obj['o_gen'],
+                                       'o_ver': old_obj['o_ver'] + 1, 'doc_ver': doc_ver, 'DELETED': True}
+                continue
             if m[obj['o_num']] is None:
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
@@ -369,7 +378,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if y.get('abs_next') or 'DELETED' in y:
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -634,7 +643,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -654,7 +663,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From 6f7c0339dec081383abbe5186a8d8e79f1bd421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:34 +0000
Subject: [PATCH 026/136] fix: in a hybrid file the entries of the xref table
 are not lost

---
 pdfsyntax/filestruct.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 024aeda..5dd9bc3 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -333,11 +333,15 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
     new_xref_seq = []
     for x in xref_seq:
         if x[0].get('xref_stm'):
-            p = new_xref_seq[-1]
-            p = deepcopy(p)
+            p = deepcopy(new_xref_seq[-1])
             p[0]['xref_stm'] = True
-            p[0]['abs_pos'] = x[0]['abs_pos']
-            new_xref_seq[-1] = p
+            for k in ('abs_pos', 'xref_table_pos', 'startxref_pos'):
+                p[0][k] = x[0][k]
+            #Entries of the table come first, except free ones that hide those of the stream
+            hidden = {o['o_num'] for o in p[1:-1]}
+            table = [o for o in x[1:-1] if 'DELETED' not in o or o['o_num'] not in hidden]
+            found = {o['o_num'] for o in table}
+            new_xref_seq[-1] = [p[0]] + table + [o for o in p[1:-1] if o['o_num'] not in found] + [x[-1]]
         else:
             new_xref_seq.append(x)
     for x in new_xref_seq:
-- 
2.43.0


From 3496a11e4211eace5ab3edb401c0dd39a1feaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:35 +0000
Subject: [PATCH 027/136] fix: a file is hybrid whatever the revision that
 holds /XRefStm

---
 pdfsyntax/docstruct.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 13e0cd3..cf16e92 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -468,10 +468,11 @@ def encrypted(doc: Doc) -> bool:
 
 def hybrid(doc: Doc) -> bool:
     """Detect if doc is hybrid."""
-    if len(doc.index) >= 2 and doc.index[1][0].get('xref_stm'):
-        return True
-    else:
-        return False
+    for current in doc.index:
+        trailers = current[0] if type(current[0]) == list else [current[0]]
+        if any(t.get('xref_stm') for t in trailers):
+            return True
+    return False
 
 
 def catalog(doc: Doc):
-- 
2.43.0


From 753bb2ed2b6eb66fb2598b4d531755ebc24352af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:36 +0000
Subject: [PATCH 028/136] fix: a file whose last update changes no object opens
 in a new revision

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index cf16e92..c9bdf94 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -548,7 +548,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
 def commit(doc: Doc) -> Doc:
     """Add new index for incremental update."""
     chg = changes(doc)
-    if len(chg) == 0:
+    if len(chg) == 0 and 'eof_cut' not in doc.data[-1]:
         return doc
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
-- 
2.43.0


From b73709d2577182c35b3cdba81c7adff3cf104df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:36 +0000
Subject: [PATCH 029/136] fix: an update continues the last xref section of the
 file, in the same format

---
 pdfsyntax/docstruct.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c9bdf94..97ecdee 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -554,17 +554,20 @@ def commit(doc: Doc) -> Doc:
     nb_rev = len(doc.index)
     new_doc = copy_doc(doc, revision='NEXT')
     new_index0 = {'o_num': 0, 'o_gen': 0, 'o_ver': nb_rev, 'doc_ver': nb_rev}
-    if type(doc.index[0][0]) == dict:
-        x_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        x_num = doc.index[0][0][0].get('xref_stream_num')
+    last = current_index[0][-1] if type(current_index[0]) == list else current_index[0]
+    if 'xref_table_pos' in last:
+        x_num = None
+    else:
+        x_num = last.get('xref_stream_num')
     if x_num:
-        new_index0['xref_stream_num'] = -1
+        new_index0['xref_stream_num'] = x_num
         if x_num == -1:
             x_num = len(current_index)
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
-            new_doc.index[-1][0]['xref_stream_num'] = x_num
+            new_doc.index[-1][0] = dict(new_doc.index[-1][0], xref_stream_num=x_num)
+            new_doc.cache.append(None)
+            new_index0['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
@@ -589,10 +592,10 @@ def commit(doc: Doc) -> Doc:
     new_v = [new_index0] + [new_doc.index[-1][i] for i in range(1,len(new_doc.index[-1]))] 
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
-    if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
-    else:
-        new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
+    last = new_doc.index[-2][0]
+    if type(last) == list: #Linearized: the last one is the one that startxref points to
+        last = last[-1]
+    new_trailer['/Prev'] = last.get('xref_table_pos') or last.get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
         del new_trailer['/XRefStm']
     return new_doc
-- 
2.43.0


From 0505793c8ee272951ab2c8bdff4edc9653ef2080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:28 +0000
Subject: [PATCH 030/136] fix: a rewritten revision does not keep /Prev or
 /XRefStm of the original file

---
 pdfsyntax/docstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 97ecdee..11becb0 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -561,7 +561,7 @@ def commit(doc: Doc) -> Doc:
         x_num = last.get('xref_stream_num')
     if x_num:
         new_index0['xref_stream_num'] = x_num
-        if x_num == -1:
+        if x_num == -1 or not current_index[x_num] or 'DELETED' in current_index[x_num]:
             x_num = len(current_index)
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
@@ -571,6 +571,10 @@ def commit(doc: Doc) -> Doc:
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
+    if '/XRefStm' in new_doc.cache[0]:
+        del new_doc.cache[0]['/XRefStm']
+    if nb_rev == 1 and '/Prev' in new_doc.cache[0]:
+        del new_doc.cache[0]['/Prev']
     if 'eof_cut' not in new_doc.data[-1]:
         if nb_rev == 1:
             v = version(doc)
@@ -596,8 +600,6 @@ def commit(doc: Doc) -> Doc:
     if type(last) == list: #Linearized: the last one is the one that startxref points to
         last = last[-1]
     new_trailer['/Prev'] = last.get('xref_table_pos') or last.get('xref_stream_pos')
-    if '/XRefStm' in new_trailer:
-        del new_trailer['/XRefStm']
     return new_doc
 
 
-- 
2.43.0


From 601070f5cda86d7b7b6f27ba515cc480a3c55ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:28 +0000
Subject: [PATCH 031/136] fix: xref streams are sorted by object number and may
 list deletions only

---
 pdfsyntax/filestruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5dd9bc3..b9c6ac7 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -602,9 +602,10 @@ def build_revision_byte_stream(
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
         xref_table.append(('n', xref_stream_num, 0, counter, None))
+        xref_table.sort(key=lambda xr: xr[1])
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From 330bb7c45089e9e9137cf0985f574041497c5248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:29 +0000
Subject: [PATCH 032/136] fix: the columns of an xref stream are wide enough
 for their values

---
 pdfsyntax/filestruct.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index b9c6ac7..42eb7fd 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -4,7 +4,6 @@ from typing import Callable
 from typing import IO
 from .objects import *
 import os
-import math
 from copy import deepcopy
 from .filters import *
 
@@ -462,19 +461,21 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     index = []
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
-    max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = (int(math.log2(max_counter+1)) // 8) + 1
-    trailer['/W'] = [1, b, b]
+    max_pos = max([0] + [e[3] if not e[4] else e[4] for e in elems if e[0] != 'f'] + list(next_free.values()))
+    max_gen = max([e[2]+1 for e in elems] + [e[3] for e in elems if e[4]])
+    b = (max_pos.bit_length() + 7) // 8 or 1
+    b2 = (max_gen.bit_length() + 7) // 8
+    trailer['/W'] = [1, b, b2]
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-            ref = b'\x00' + (next_free[num]).to_bytes(b, "big") + (o_gen+1).to_bytes(b, "big")
+            ref = b'\x00' + (next_free[num]).to_bytes(b, "big") + (o_gen+1).to_bytes(b2, "big")
             xref_stream.append((ref, num))
         else:
             if env_num:
-                ref = b'\x02' + (env_num).to_bytes(b, "big") + (counter).to_bytes(b, "big")
+                ref = b'\x02' + (env_num).to_bytes(b, "big") + (counter).to_bytes(b2, "big")
                 xref_stream.append((ref, num))
             else:
-                ref = b'\x01' + (counter).to_bytes(b, "big") + (o_gen).to_bytes(b, "big")
+                ref = b'\x01' + (counter).to_bytes(b, "big") + (o_gen).to_bytes(b2, "big")
                 xref_stream.append((ref, num))
     # Index 
     i = len(xref_stream) - 1
-- 
2.43.0


From 9e215338801664e0f1aa78674fa516c53b38c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:29 +0000
Subject: [PATCH 033/136] fix: a rewritten object stream is indexed again

---
 pdfsyntax/filestruct.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 42eb7fd..c274fb3 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -518,11 +518,13 @@ def append_to_stream_fragment(num, obj, envelope):
     """Concatenate object at the end of stream."""
     ser = serialize(obj) + b'\n'
     entries = envelope['entries'].copy()
-    if '/FirstLine' not in entries:
+    content = envelope['stream']
+    if '/FirstLine' not in entries: #Start over, even if the envelope comes from a file
+        entries = {k: v for k, v in entries.items() if k not in ('/First', '/N', '/Extends')}
         entries['/FirstLine'] = []
-    entries['/FirstLine'].append(num)
-    entries['/FirstLine'].append(len(envelope['stream']))
-    new_ser = envelope['stream'] + ser
+        content = b''
+    entries['/FirstLine'] = entries['/FirstLine'] + [num, len(content)]
+    new_ser = content + ser
     #Do not encode/forge this temporary Stream yet
     envelope = Stream(entries, new_ser, None)
     return envelope
@@ -565,10 +567,14 @@ def build_revision_byte_stream(
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
     l = [(0j, 'd')] + changes
+    if not xref_stream_num: #An xref table cannot index embedded objects
+        for o in new_index[1:]:
+            if o:
+                o.pop('env_num', None)
     for c, action in l:
         num = int(c.imag)
-        o_gen = current_index[num]['o_gen']
-        env_num = current_index[num].get('env_num')
+        o_gen = new_index[num]['o_gen']
+        env_num = new_index[num].get('env_num')
         if action != 'd' and env_num:
             new_env = append_to_stream_fragment(num, cache[num], cache[env_num])
             cache[env_num] = new_env
@@ -582,12 +588,13 @@ def build_revision_byte_stream(
                 o_gen = current_index[num]['o_gen']
             xref_table.append(('f', num, o_gen, None, None))
         else:
-            o_gen = current_index[num]['o_gen']
-            env_num = current_index[num].get('env_num')
+            o_gen = new_index[num]['o_gen']
+            env_num = new_index[num].get('env_num')
             if not env_num:
                 obj = cache[num]
                 if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
                     obj = finalize_stream(obj)
+                    cache[num] = obj
                 block = serialize_fragment(num, o_gen, obj)
                 fragments.append(block)
                 xref_table.append(('n', num, o_gen, counter, env_num))
-- 
2.43.0


From c5276b297c8d544abd06285e01fbef2382c99b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:20 +0000
Subject: [PATCH 034/136] fix: a linearized or mixed revision can be rewritten

---
 pdfsyntax/docstruct.py  | 2 ++
 pdfsyntax/filestruct.py | 9 +++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 11becb0..7fc136b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -576,6 +576,8 @@ def commit(doc: Doc) -> Doc:
     if nb_rev == 1 and '/Prev' in new_doc.cache[0]:
         del new_doc.cache[0]['/Prev']
     if 'eof_cut' not in new_doc.data[-1]:
+        if type(new_doc.index[-1][0]) == list:
+            new_doc.index[-1][0] = dict(last)
         if nb_rev == 1:
             v = version(doc)
             header = f"%PDF-{v}".encode('ascii')
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index c274fb3..b1165ea 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -567,10 +567,11 @@ def build_revision_byte_stream(
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
     l = [(0j, 'd')] + changes
-    if not xref_stream_num: #An xref table cannot index embedded objects
-        for o in new_index[1:]:
-            if o:
-                o.pop('env_num', None)
+    changed = {int(c.imag) for c, action in changes if action != 'd'}
+    for num in changed:
+        env_num = new_index[num].get('env_num')
+        if env_num and (not xref_stream_num or env_num not in changed): #Cannot be embedded
+            del new_index[num]['env_num']
     for c, action in l:
         num = int(c.imag)
         o_gen = new_index[num]['o_gen']
-- 
2.43.0


From 14b3ba0e1978ad7e81fce916b75b1748faab6ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:21 +0000
Subject: [PATCH 035/136] fix: reading an object stream does not bring back
 replaced objects

---
 pdfsyntax/docstruct.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7fc136b..fe830de 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -275,12 +275,18 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        if cache[container] is None:
+            cache[container] = stream_obj
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
+            if o_num >= len(idx[rev]) or not idx[rev][o_num]:
+                continue
+            if idx[rev][o_num].get('env_num') != container: #Replaced or deleted meanwhile
+                continue
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            if cache[o_num] is None:
+                cache[o_num] = embedded_obj
     return cache
 
 
-- 
2.43.0


From 2f79ba888fc23de945be418b18f80b8bce1ada83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:21 +0000
Subject: [PATCH 036/136] fix: object numbers that are never used are not an
 obstacle

---
 pdfsyntax/docstruct.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index fe830de..4cc1a5a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -294,6 +294,8 @@ def get_object(doc: Doc, obj):
     """Return raw object or the target of an indirect reference."""
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
+        if ref >= len(doc.index[-1]) or not doc.index[-1][ref]: #Undefined object
+            return None
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
         return deepcopy(res[ref])
     else: 
@@ -388,6 +390,8 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
+        if i == 0 or not x:
+            continue
         env_num = x.get('env_num')
         if env_num:
             if env_num not in res:
@@ -423,7 +427,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return {o.get('env_num') for o in doc.index[-1][1:] if o and o.get('env_num')}
 
 
 def version(doc: Doc) -> str:
@@ -836,7 +840,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if not o or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
-- 
2.43.0


From 34ddc3ca7af9b126e9ee028cfc9ba52b7feee78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:54 +0000
Subject: [PATCH 037/136] fix: squash and concat retarget the references of
 streams and the dangling ones

---
 pdfsyntax/docstruct.py | 3 +--
 pdfsyntax/objects.py   | 7 ++++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4cc1a5a..8ca5f16 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -856,8 +856,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
                 del new_o['abs_next']
             new_index.append(new_o)
             new_ref = complex(0, nb) 
-            if old_ref != new_ref:
-                mapping[old_ref] = new_ref
+            mapping[old_ref] = new_ref
     return new_index, mapping
 
 
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index a87a1e0..20df859 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -552,10 +552,11 @@ def serialize(obj, depth=0) -> bytes:
 
 
 def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
-    """Recursively replace an indirect reference in object tree.""" 
+    """Recursively replace an indirect reference in object tree, null being for unknown targets."""
     if type(obj) == complex:
-        if obj in mapping:
-            return mapping[obj]
+        return mapping.get(obj, 'null')
+    elif type(obj) == Stream:
+        deep_ref_retarget(obj['entries'], mapping)
     elif type(obj) == dict:
         for k in obj:
             obj[k] = deep_ref_retarget(obj[k], mapping)
-- 
2.43.0


From 5dcd17d18fc4e2773400629c0b28c5bdabe42ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:55 +0000
Subject: [PATCH 038/136] fix: squash keeps the whole trailer and leaves out
 obsolete containers of objects

---
 pdfsyntax/docstruct.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8ca5f16..3293c79 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -11,6 +11,8 @@ from copy import deepcopy
 EOL = b'\r\n'
 SPACE = EOL + b'\x00\x09\x0c\x20'
 
+XREF_ATTRS = '/Size /Prev /XRefStm /Type /W /Index /Length /Filter /DecodeParms'.split()
+
 INHERITABLE_ATTRS = '/Resources /MediaBox /CropBox /Rotate'.split()
 
 
@@ -850,10 +852,10 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             new_o['o_ver'] = 0
             new_o['doc_ver'] = 0
             new_o['OLD_REF'] = old_ref
-            if 'abs_pos' in new_o:
-                del new_o['abs_pos']
-            if 'abs_next' in new_o:
-                del new_o['abs_next']
+            for k in ('abs_pos', 'abs_next', 'env_num', 'o_pos'):
+                if k in new_o:
+                    del new_o[k]
+            new_o['o_num'] = nb
             new_index.append(new_o)
             new_ref = complex(0, nb) 
             mapping[old_ref] = new_ref
@@ -862,18 +864,23 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
 
 def squash(doc: Doc) -> Doc:
     """Group all revisions into a single one."""
-    obj_stms = envelope_objects(doc)
-    if type(doc.index[0][0]) == dict:
-        xref_stream_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
+    last = doc.index[-1][0]
+    if type(last) == list:
+        last = last[-1]
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
-    if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+    containers = set()
+    for iref in in_use(doc):
+        obj = get_object(doc, iref)
+        if type(obj) == Stream and obj['entries'].get('/Type') in ('/XRef', '/ObjStm'):
+            containers.add(int(iref.imag))
+    if last.get('xref_stream_num', -1) > 0: #May not be written yet
+        containers.add(last['xref_stream_num'])
+    new_index, mapping = defragment_map(old_index, containers)
+    if 'xref_stream_num' in last and 'xref_table_pos' not in last:
+        new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
+    new_cache[0] = {k: v for k, v in trailer(doc).items() if k not in XREF_ATTRS}
     new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
     for i in range(1, len(new_index)):
         old_ref = new_index[i]['OLD_REF']
-- 
2.43.0


From 2259fc8368d29e21b078636a079a5c98d392f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:35 +0000
Subject: [PATCH 039/136] fix: concat links both page trees to a common parent
 without mixing inherited attributes

---
 pdfsyntax/docstruct.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3293c79..e685fe5 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -748,16 +748,19 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
         new_obj = deep_ref_retarget(obj, mapping)
         new_doc, _ = add_object(new_doc, new_obj, immut=False)
     pages_iref = cat['/Pages']
-    pages = get_object(new_doc, pages_iref)
-    pcount = get_object(new_doc, pages['/Count'])
-    kids = get_object(new_doc, pages['/Kids'])
-    if target_left:
-        kids.append(mapping[source_pages_iref])
-    else:
-        kids.insert(0, mapping[source_pages_iref])
-    pages['/Kids'] = kids
-    pages['/Count'] = pcount + source_pcount
-    new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+    pcount = get_object(new_doc, get_object(new_doc, pages_iref)['/Count'])
+    #Both trees are put under a new root so that no attribute is inherited from one to the other
+    kids = [pages_iref, mapping[source_pages_iref]]
+    if not target_left:
+        kids.reverse()
+    pages = {'/Type': '/Pages', '/Kids': kids, '/Count': pcount + source_pcount}
+    new_doc, new_pages_iref = add_object(new_doc, pages, immut=False)
+    for kid in kids:
+        node = get_object(new_doc, kid)
+        node['/Parent'] = new_pages_iref
+        new_doc = update_object(new_doc, int(kid.imag), node, immut=False)
+    cat['/Pages'] = new_pages_iref
+    new_doc = update_object(new_doc, int(cat_iref.imag), cat, immut=False)
     return new_doc
 
 
-- 
2.43.0


From 5e783c548be5806fb2827eba41b32891ebe8fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:35 +0000
Subject: [PATCH 040/136] fix: dependencies include those of streams and may be
 circular

---
 pdfsyntax/docstruct.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e685fe5..81a1454 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -764,26 +764,23 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
-    """Recursively list indirect references found inside object.""" 
-    if type(obj) == dict:
-        res = set()
-        for k, v in obj.items():
-            if k == '/Parent' or k == '/P':
-                continue
-            res = res | dependencies(doc, v)
-        return res
-    elif type(obj) == list:
-        res = set()
-        for i in obj:
-            res = res | dependencies(doc, i)
-        return res
-    elif type(obj) == complex:
-        res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
-        return res
-    else:   
-        return set()
+def dependencies(doc: Doc, obj: Any, excluded: set = frozenset()) -> set:
+    """List indirect references found inside object and, recursively, inside their targets."""
+    res = set()
+    todo = [obj]
+    while todo:
+        obj = todo.pop()
+        if type(obj) == Stream:
+            obj = obj['entries']
+        if type(obj) == dict:
+            todo += [v for k, v in obj.items() if k != '/Parent' and k != '/P']
+        elif type(obj) == list:
+            todo += obj
+        elif type(obj) == complex:
+            if obj not in res and obj not in excluded:
+                res.add(obj)
+                todo.append(get_object(doc, obj))
+    return res
 
 
 def keep_pages(doc: Doc, pages) -> Doc:
-- 
2.43.0


From cef443090d8c7bac6ecfee0919c9db3681bdbf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:36 +0000
Subject: [PATCH 041/136] fix: removing pages keeps whatever is still reachable
 from the document

---
 pdfsyntax/docstruct.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 81a1454..c5de695 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -806,18 +806,20 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     for i in del_ref:
         del_dep = del_dep | dependencies(new_doc, i)
     for i in keep_ref:
-        keep_dep = keep_dep | dependencies(new_doc, i)
+        keep_dep = keep_dep | dependencies(new_doc, i, del_ref)
+    keep_dep = keep_dep | dependencies(new_doc, trailer(new_doc), del_ref)
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-        kids = new_parent['/Kids']
+        kids = get_object(new_doc, new_parent['/Kids'])
         kids.remove(ref)
-        new_parent['/Count'] = new_parent['/Count'] - 1
+        new_parent['/Kids'] = kids
+        new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
         while '/Parent' in new_parent:
             p = new_parent['/Parent']
             new_parent = get_object(new_doc, p)
-            new_parent['/Count'] = new_parent['/Count'] - 1
+            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
     for ref in del_dep - keep_dep:
         new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
-- 
2.43.0


From 815471bbe9afb1854abcd66468f7df962dcb441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:59 +0000
Subject: [PATCH 042/136] fix: attributes inherited by a page do not leak to
 another document

---
 pdfsyntax/docstruct.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c5de695..6af5148 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -315,17 +315,18 @@ def obj(doc: Doc, o_num, o_gen = None):
 def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
+    inherited = inherited.copy() #Neither a sibling nor a later call should see what this branch adds
     if num:
         node = get_object(doc, num)
     else:
         node = get_object(doc, catalog(doc)[0]['/Pages'])
     if node['/Type'] == '/Pages':
-        for kid in node['/Kids']:
+        for kid in get_object(doc, node['/Kids']):
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
-            if max_nb is not None and len(accu) == max_nb:
-                return accu
+            if max_nb is not None and len(accu) >= max_nb:
+                return accu[:max_nb]
         return accu
     elif node['/Type'] == '/Page':
         return[(num, inherited)]
-- 
2.43.0


From 7ba8b9bc850c596671a9d1d039126069cb09cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:00 +0000
Subject: [PATCH 043/136] fix: the number of pages may be an indirect object

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6af5148..a89111c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -505,7 +505,7 @@ def info(doc: Doc):
 def number_pages(doc: Doc):
     """Return doc number of pages."""
     p = get_object(doc, catalog(doc)[0]['/Pages'])
-    return p['/Count']
+    return get_object(doc, p['/Count'])
 
 
 def pages(doc: Doc, max_nb=None) -> list:
-- 
2.43.0


From 8d453e00be3b4b7ca3ecc7ef4a8f21c2e10c20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:00 +0000
Subject: [PATCH 044/136] fix: an object added and deleted in the same revision
 is a deletion

---
 pdfsyntax/docstruct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a89111c..b962bf2 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -375,11 +375,14 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
             continue
+        deleted = 'DELETED' in current[i]
         if i > len(previous)-1:
-            res.append((iref, 'a'))
+            res.append((iref, 'd' if deleted else 'a')) #May be added and deleted in the same revision
         elif i < len(previous) and previous[i] == current[i]:
             pass
-        elif previous[i] != None and 'DELETED' not in previous[i] and 'DELETED' in current[i]:
+        elif previous[i] != None and 'DELETED' in previous[i] and deleted:
+            pass
+        elif deleted:
             res.append((iref, 'd'))
         elif previous[i] != None and current[i] != previous[i]:
             res.append((iref, 'u'))
-- 
2.43.0


From c6a88893948fbce82a9341576266aec7aa156910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:01 +0000
Subject: [PATCH 045/136] fix: preparing a compressed revision does not alter
 the initial document

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b962bf2..8251145 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -426,7 +426,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
         elif current[o]['o_gen'] != 0:
             continue
         # TODO Add another elif for encryption dict
-        current[o]['env_num'] = env_num
+        current[o] = dict(current[o], env_num=env_num)
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
 
@@ -710,7 +710,7 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
     if filt:
-        new_doc.cache[0]['/Filter'] = filt
+        new_doc.cache[0] = dict(new_doc.cache[0], **{'/Filter': filt})
     return new_doc
 
 
-- 
2.43.0


From 633f125911106810e3a570117e1a44fb393a8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:43 +0000
Subject: [PATCH 046/136] fix: data read on demand is located by its offset in
 the file

---
 pdfsyntax/filestruct.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index b1165ea..29ff183 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -51,7 +51,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
                 nb_read = min(file_size - i, length)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
@@ -94,12 +94,12 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
     length = stop - start
     idx = (start // LN) * LN
     buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
-    i = d0 + i0
-    while i < d0 + i0 + sz0:
-        l = buf[i:i+LN]
+    i = d0
+    while i < d0 + sz0:
+        l = buf[i:min(i+LN, d0+sz0)]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
-        ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
+        ret += f"{i0+i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
         i += LN
     return ret
 
@@ -270,14 +270,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             last = startxref_pos
         elif xrefstm:
             xref_pos = xrefstm
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             xrefstm = False
         elif prev:
             xref_pos = prev
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             prev = False
         if xref_pos in visited: #circular chain
@@ -291,7 +293,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_obj_token(bdata, a0 - o0) #o_num
+            i, j, _ = next_obj_token(bdata, a0) #o_num
             o_num = parse_obj(bdata, i)
             i, j, _ = next_obj_token(bdata, j)       #o_ver
             i, j, _ = next_obj_token(bdata, j)       #b'obj'
@@ -396,13 +398,13 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
 
 def eof_cut(eof_index: int, fdata: Callable) -> int:
     """Calculate where to cut the byte stream of a revision: after %%EOF and possibly EOLs"""
-    bdata, start, _, n = fdata(eof_index, bdata_length(fdata) - eof_index)
+    bdata, start, offset, n = fdata(eof_index, bdata_length(fdata) - eof_index)
     i = start + len('%%EOF')
     while i < start + n:
         if bdata[i] not in EOL:
             break
         i += 1
-    return i
+    return offset + i
 
 
 def circular_deleted(changes: list) -> dict:
-- 
2.43.0


From 698802a7cbbf63926ee5d0723ab855017d251d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:42 +0000
Subject: [PATCH 047/136] fix: an indirect /Length delimits stream data

---
 pdfsyntax/docstruct.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8251145..bf93e61 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -217,6 +217,24 @@ def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int
     return accu, n
 
 
+def parse_obj_with_length(text: bytes, i: int, idx: list, fdata: Callable, cache: list, rev: int = -1) -> Any:
+    """Parse an object whose /Length may be an indirect reference, if it is a stream."""
+    obj = parse_obj(text, i)
+    if type(obj) != Stream or type(obj['entries'].get('/Length')) != complex:
+        return obj
+    num = int(obj['entries']['/Length'].imag)
+    if num >= len(idx[rev]) or num >= len(cache) or not idx[rev][num]:
+        return obj
+    memoize_obj_in_cache(idx, fdata, num, cache, rev)
+    _, j, _ = next_obj_token(text, i)
+    h, _, _ = next_obj_token(text, j)
+    span = stream_span(text, h, {'/Length': cache[num]})
+    if span and text[span[0]:span[1]] != obj['encoded']:
+        encoded = text[span[0]:span[1]]
+        obj = Stream(obj['entries'], decode_stream(encoded, obj['entries']), encoded)
+    return obj
+
+
 def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-1) -> list:
     """Parse indirect object whose number is [key] and return a cache filled at index [key].
 
@@ -261,7 +279,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         i, j, _ = next_obj_token(bdata, j)
         i, j, _ = next_obj_token(bdata, j)
         text = bdata
-        obj = parse_obj(text, i)
+        obj = parse_obj_with_length(text, i, idx, fdata, cache, rev)
         if key == 0 and type(obj) == Stream:
             obj = obj['entries']
         cache[key] = obj    
@@ -274,7 +292,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         i, j, _ = next_obj_token(bdata, j)
         i, j, _ = next_obj_token(bdata, j) #/ObjStm
         text = bdata
-        stream_obj = parse_obj(text, i)
+        stream_obj = parse_obj_with_length(text, i, idx, fdata, cache, rev)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
         if cache[container] is None:
-- 
2.43.0


From c7b73f85afeb43de1f7320d14da5b88a3b99e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:21 +0000
Subject: [PATCH 048/136] fix: a PNG predictor rounds the bytes of a pixel up

---
 pdfsyntax/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bd9bfd7..4cd9a6a 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -20,7 +20,7 @@ def decode_predictor(bdata: bytes, predictor, columns, colors=1, bits=8): #TODO
         raise ValueError('unsupported predictor')
     size = len(bdata)
     res = []
-    bpp = max(1, colors * bits // 8)
+    bpp = (colors * bits + 7) // 8
     row_l = (columns * colors * bits + 7) // 8
     prev_row = [0] * row_l
     i = 0
-- 
2.43.0


From 252938b775c70efa7f8dc45da1a859988cfc1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:54 +0000
Subject: [PATCH 049/136] fix: changes of the first revision are all its
 objects

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index bf93e61..9185d0e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -383,7 +383,7 @@ def changes(doc: Doc, rev: int=-1):
     """List deleted/updated/added objects."""
     res = []
     current = doc.index[rev]
-    if len(doc.index) == 1:
+    if rev % len(doc.index) == 0: #First revision
         previous = [None] * len(current)
     else:
         previous = doc.index[rev-1]
-- 
2.43.0


From c242528d341f5cf9055a11914c27e510ff126c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:38 +0000
Subject: [PATCH 050/136] fix: the first revision of a linearized file does not
 end with its first section

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 29ff183..177a6c0 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -358,6 +358,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
+            if obj['o_num'] < 0 and m[-1] and m[-1]['abs_pos'] > obj['abs_pos']:
+                continue #The revision of a linearized file ends with its last section
             if 'DELETED' in obj:
                 old_obj = m[obj['o_num']]
                 if old_obj and 'DELETED' not in old_obj and trailer['abs_pos'] == prev_pos:
-- 
2.43.0


From 5ff18bd60307be863214483fae6a8e3184849ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:58 +0000
Subject: [PATCH 051/136] fix: the end of an xref section is searched after its
 data

---
 pdfsyntax/filestruct.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 177a6c0..9fcee9e 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -270,17 +270,13 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             last = startxref_pos
         elif xrefstm:
             xref_pos = xrefstm
-            bdata, a0, o0, _ = fdata(xref_pos, -1)
-            startxref_pos = o0 + bdata.find(STARTXREF, a0)
-            eof_pos = o0 + bdata.find(EOF, a0)
-            last = eof_pos
+            startxref_pos = None
+            last = bdata_length(fdata)
             xrefstm = False
         elif prev:
             xref_pos = prev
-            bdata, a0, o0, _ = fdata(xref_pos, -1)
-            startxref_pos = o0 + bdata.find(STARTXREF, a0)
-            eof_pos = o0 + bdata.find(EOF, a0)
-            last = eof_pos
+            startxref_pos = None
+            last = bdata_length(fdata)
             prev = False
         if xref_pos in visited: #circular chain
             continue
@@ -292,7 +288,6 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             i, j, _ = next_obj_token(bdata, j)                            #dict
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
-            bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
             i, j, _ = next_obj_token(bdata, a0) #o_num
             o_num = parse_obj(bdata, i)
             i, j, _ = next_obj_token(bdata, j)       #o_ver
@@ -301,6 +296,13 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             xref = parse_obj(bdata, i)
             xref_index = parse_xref_stream(xref, xref_pos, o_num)
             trailer = xref['entries']
+            i, j, _ = next_obj_token(bdata, j)       #b'stream'
+            span = stream_span(bdata, i, trailer)
+            if span:
+                j = span[2]
+        if startxref_pos is None: #Search for the end of the section after its data
+            startxref_pos = o0 + bdata.find(STARTXREF, j)
+            eof_pos = o0 + bdata.find(EOF, startxref_pos - o0)
         xref_index[0]['startxref_pos'] = startxref_pos
         xref_index.append({'o_num': -1, 'o_gen': -1, 'abs_pos': eof_pos})
         chrono.append(xref_index)
-- 
2.43.0


From ce18c6e05a24358a21a34eea16f579f7fb99e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:11 +0000
Subject: [PATCH 052/136] fix: a rewritten hybrid revision does not keep its
 xref stream

---
 pdfsyntax/docstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 9185d0e..4feb508 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -612,6 +612,10 @@ def commit(doc: Doc) -> Doc:
     if 'eof_cut' not in new_doc.data[-1]:
         if type(new_doc.index[-1][0]) == list:
             new_doc.index[-1][0] = dict(last)
+        if 'xref_table_pos' in last and last.get('xref_stream_num', -1) > 0: #Hybrid revision rewritten as a table only
+            old_num = last['xref_stream_num']
+            new_doc.index[-1][0] = {k: v for k, v in last.items() if k not in ('xref_stream_num', 'xref_stream_pos', 'xref_stm')}
+            new_doc.index[-1][old_num] = None if nb_rev == 1 else doc.index[-2][old_num]
         if nb_rev == 1:
             v = version(doc)
             header = f"%PDF-{v}".encode('ascii')
-- 
2.43.0


From 6c92761024aee2f65707b7fba91df28f273ada19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:35 +0000
Subject: [PATCH 053/136] fix: an object stream that no object can join is
 written empty

---
 pdfsyntax/filestruct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 9fcee9e..73ad4d0 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -548,13 +548,12 @@ def finalize_stream(envelope):
     header = b''
     entries = envelope['entries'].copy()
     if '/First' not in entries and '/N' not in entries:
-        tokens = entries['/FirstLine']
+        tokens = entries.pop('/FirstLine', []) #No object may be embedded
         for i in tokens:
             header += f'{i} '.encode('ascii')
         header += b'\n'
         entries['/First'] = len(header)
         entries['/N'] = len(tokens) // 2
-        del entries['/FirstLine']
     entries['/Length'] = -1
     new_ser = header + envelope['stream']
     envelope, _ = forge_stream(entries, new_ser)
-- 
2.43.0


From 0a480a4b8f0bd789c83bb799e145ad874d3824da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:54 +0000
Subject: [PATCH 054/136] fix: a rewritten linearized revision does not keep
 its other xref stream

---
 pdfsyntax/docstruct.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4feb508..c6152e2 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -387,11 +387,12 @@ def changes(doc: Doc, rev: int=-1):
         previous = [None] * len(current)
     else:
         previous = doc.index[rev-1]
+    sections = current[0] if type(current[0]) == list else [current[0]] #Several ones if linearized
     for i in range(1, len(current)):
         iref = get_iref(doc, i, rev)
         if not iref:
             continue
-        if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
+        if any(t.get('xref_stream_num') == i for t in sections):
             continue
         deleted = 'DELETED' in current[i]
         if i > len(previous)-1:
@@ -611,11 +612,16 @@ def commit(doc: Doc) -> Doc:
         del new_doc.cache[0]['/Prev']
     if 'eof_cut' not in new_doc.data[-1]:
         if type(new_doc.index[-1][0]) == list:
-            new_doc.index[-1][0] = dict(last)
-        if 'xref_table_pos' in last and last.get('xref_stream_num', -1) > 0: #Hybrid revision rewritten as a table only
-            old_num = last['xref_stream_num']
-            new_doc.index[-1][0] = {k: v for k, v in last.items() if k not in ('xref_stream_num', 'xref_stream_pos', 'xref_stm')}
-            new_doc.index[-1][old_num] = None if nb_rev == 1 else doc.index[-2][old_num]
+            new_doc.index[-1][0] = new_doc.index[-1][0][-1]
+        new_doc.index[-1][0] = dict(new_doc.index[-1][0])
+        if 'xref_table_pos' in last: #Hybrid revision rewritten as a table only
+            for k in ('xref_stream_num', 'xref_stream_pos', 'xref_stm'):
+                new_doc.index[-1][0].pop(k, None)
+        for t in current_index[0] if type(current_index[0]) == list else [current_index[0]]:
+            old_num = t.get('xref_stream_num') or -1
+            old_i = current_index[old_num] if old_num > 0 else None
+            if old_i and old_num != x_num and old_i.get('abs_pos') == t.get('xref_stream_pos'): #Obsolete xref stream of a linearized or hybrid revision
+                new_doc.index[-1][old_num] = None if nb_rev == 1 else doc.index[-2][old_num]
         if nb_rev == 1:
             v = version(doc)
             header = f"%PDF-{v}".encode('ascii')
-- 
2.43.0


From 82f1334e615da1ed63d7cd3f06f43b98e4403bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:40 +0000
Subject: [PATCH 055/136] fix: escape sequences of literal strings have 1 to 3
 octal digits, continued lines and normalized EOLs

---
 pdfsyntax/text.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..252c0d4 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -67,12 +67,23 @@ def unescape_literal_string(string: bytes) -> bytes:
         first = string[i:i+1]
         second = string[i+1:i+2]
         if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
+            if second and second in b'01234567': # 1 to 3 digits, overflow is ignored
+                j = i + 2
+                while j < i + 4 and string[j:j+1] and string[j:j+1] in b'01234567':
+                    j += 1
+                ret += bytes([int(string[i+1:j], 8) & 0xff])
+                i = j - 1
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
+            elif second == b'\r' and string[i+2:i+3] == b'\n': # Line continuation
+                i += 2
+            elif second == b'\r' or second == b'\n':
+                i += 1
+        elif first == b'\r': # Any end of line is read as a line feed
+            ret += b'\n'
+            if second == b'\n':
+                i += 1
         else:
             ret += first
         i += 1
-- 
2.43.0


From e70e2dd19e0605de68c9da30bce9a2792ef6ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:40 +0000
Subject: [PATCH 056/136] fix: hexadecimal strings are decoded whatever the
 case, white space or parity of their digits

---
 pdfsyntax/text.py | 49 ++++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 252c0d4..6521e75 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -27,28 +27,26 @@ def decode_pdfdoc(string: bytes) -> str:
 
 def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
-    if string is None: return None
-    res = ''
-    string = unescape_literal_string(string)
-    if string[0:1] == b'(': # Literal string
-        if string[1:3] == b'\xfe\xff': 
-            res = string[3:-1].decode('utf-16be')
-        else:
-            s = string[1:-1]
-            # = s.replace(b'\x5c\x5c', b'\x5c') # x5c is backslash
-            # = s.replace(b'\x5c(', b'(')
-            # = s.replace(b'\x5c)', b')')
-            res = decode_pdfdoc(s)
-    elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
-            b = bytes.fromhex(string[5:-1].decode('ascii'))
-            res = b.decode('utf-16be')
-        else:
-            b = bytes.fromhex(decode_pdfdoc(string[1:-1]))
-            res = decode_pdfdoc(b)
+    if type(string) != bytes: return None
+    s = string_content(string)
+    if s[0:2] == b'\xfe\xff':
+        res = s[2:].decode('utf-16be', 'replace')
+    else:
+        res = decode_pdfdoc(s)
     return res
 
 
+def string_content(string: bytes) -> bytes:
+    """Decode the bytes that a literal or hexadecimal string stands for."""
+    if string[0:1] == b'<': # Hexadecimal string, where white space is ignored and a last digit may be missing
+        digits = bytes([c for c in string[1:-1] if c in b'0123456789abcdefABCDEF']).decode('ascii')
+        if len(digits) % 2 == 1:
+            digits += '0'
+        return bytes.fromhex(digits)
+    else:
+        return unescape_literal_string(string[1:-1])
+
+
 def unescape_literal_string(string: bytes) -> bytes:
     """ """
     sequences = {
@@ -92,22 +90,17 @@ def unescape_literal_string(string: bytes) -> bytes:
 
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
-    s_string = string[1:-1]
-    if string[:1] == b'(':
-        s_string = unescape_literal_string(s_string)
-        return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
-    else:
-        return [int(s_string[j:j+word_l*2], 16) for j in range(0, len(s_string), word_l*2)]
+    s_string = string_content(string)
+    return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
 
 
 def apply_encoding(encoding: str, string: bytes) -> tuple:
     """ """
-    s = string[1:-1]
-    s = unescape_literal_string(s)
+    s = string_content(string)
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-        us = s.decode('cp1252')
+        us = s.decode('cp1252', 'replace')
     return us, list(s)
 
 
-- 
2.43.0


From d6f203d41f0d3d7e157f20b1eab23571ccb9cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:58 +0000
Subject: [PATCH 057/136] fix: CMaps may map codes of one byte, to several
 characters, in any number of sections

---
 pdfsyntax/docstruct.py |  2 +-
 pdfsyntax/text.py      | 70 +++++++++++++++++++-----------------------
 2 files changed, 32 insertions(+), 40 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c6152e2..cd81873 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1001,7 +1001,7 @@ def prepare_font(doc: Doc, iref) -> dict:
         simple = True
     if font_desc['to_unicode']:
         cmap_stream = get_object(doc, font_desc['to_unicode'])
-        cmap = parse_obj(b'[' + cmap_stream['stream'] + b']')
+        cmap = parse_obj(b'[' + cmap_stream['stream'] + b'\n]') #It may end with a comment
         def dec_unicode_cmap(text):
             return apply_tounicode(cmap, text, simple)
         font_desc['dec_fun'] = dec_unicode_cmap
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 6521e75..6215402 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -104,68 +104,60 @@ def apply_encoding(encoding: str, string: bytes) -> tuple:
     return us, list(s)
 
 
+def unicode_target(target: bytes, offset: int = 0) -> str:
+    """Decode the UTF-16BE target of a CMap entry, incremented by an offset."""
+    b = string_content(target)
+    b = (int.from_bytes(b, 'big') + offset).to_bytes(len(b), 'big')
+    return b.decode('utf-16be', 'replace')
+
+
 def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
-    """ """
+    """Map the codes of a shown string with a ToUnicode CMap and return both the text and the codes."""
     i = 0
-    word_l = 2 # in bytes
+    word_l = 1 if simple else 2 # in bytes
     section = None
-    tokens = []
+    tokens = None
     while i < len(cmap):
         if cmap[i] == 'begincodespacerange':
             #word_l = (len(cmap[i+1])-2) // 2
             #tokens = tokenize_string(string, word_l)
             i += 4
             continue
-        if cmap[i] == 'beginbfchar':
-            section = 'CHAR'
-            if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
+        if cmap[i] in ('beginbfchar', 'beginbfrange'):
+            section = cmap[i]
+            i += 1
+            if tokens is None and type(cmap[i]) == bytes:
+                word_l = len(string_content(cmap[i])) or 1
                 tokens = tokenize_string(string, word_l)
                 tokens_backup = tokens.copy()
-            i += 1
-            continue
-        if section == 'CHAR' and cmap[i] != 'endbfchar':
-            for k, token in enumerate(tokens):
-                if token == int(cmap[i][1:-1], 16):
-                    tokens[k] = bytes.fromhex(cmap[i+1][1:-1].decode('ascii')).decode('utf-16be')
-            i += 2
             continue
-        if section == 'CHAR' and cmap[i] == 'endbfchar':
+        if cmap[i] in ('endbfchar', 'endbfrange'):
             section = None
             i += 1
             continue
-        if cmap[i] == 'beginbfrange':
-            section = 'RANGE'
-            if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
-                tokens = tokenize_string(string, word_l)
-                tokens_backup = tokens.copy()
-            i += 1
+        if section == 'beginbfchar':
+            code = int.from_bytes(string_content(cmap[i]), 'big')
+            for k, token in enumerate(tokens):
+                if type(token) == int and token == code:
+                    tokens[k] = unicode_target(cmap[i+1])
+            i += 2
             continue
-        if section == 'RANGE' and cmap[i] != 'endbfrange':
+        if section == 'beginbfrange':
+            r_a = int.from_bytes(string_content(cmap[i]), 'big')
+            r_z = int.from_bytes(string_content(cmap[i+1]), 'big')
+            target = cmap[i+2]
             for k, token in enumerate(tokens):
-                r_a = int(cmap[i][1:-1], 16)
-                r_z = int(cmap[i+1][1:-1], 16)
                 if type(token) == int and token >= r_a and token <= r_z:
-                    target = cmap[i+2]
                     if type(target) == list:
-                        target = cmap[i+2]
-                        temp = target[token - r_a][1:-1]
-                        tokens[k] = bytes.fromhex(temp.decode('ascii')).decode('utf-16be')
+                        tokens[k] = unicode_target(target[token - r_a])
                     else:
-                        target = cmap[i+2][1:-1]
-                        x = int(target, 16) + (token - r_a)
-                        if word_l == 2:
-                            tokens[k] = bytes.fromhex(f'{x:04X}').decode('utf-16be')
-                        else:
-                            tokens[k] = bytes.fromhex(f'{x:02X}').decode('utf-16be')
+                        tokens[k] = unicode_target(target, token - r_a)
             i += 3
             continue
-        if section == 'RANGE' and cmap[i] == 'endbfrange':
-            section = None
-            i += 1
-            continue
         i += 1
+    if tokens is None: # No mapping at all
+        tokens = tokenize_string(string, word_l)
+        tokens_backup = tokens.copy()
     for j, t in enumerate(tokens):
         if type(t) != str:
             #for DEBUG
-- 
2.43.0


From e3cbc3235f49ee4d49d0acf93ad84a0c3f82067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:08 +0000
Subject: [PATCH 058/136] fix: page layouts may be given by indirect objects

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 7e8b6e7..22c8b1f 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -179,7 +179,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(p['/MediaBox'], p.get('/Rotate')) for p in pl]
+    med = [(get_object(doc, p['/MediaBox']), get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
-- 
2.43.0


From 971e12784b635c8f9b8ac6976bcc2cabdc68f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:10:51 +0000
Subject: [PATCH 059/136] fix: removing pages follows every reference to find
 what is used

---
 pdfsyntax/docstruct.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index cd81873..f0225d3 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -796,7 +796,7 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any, excluded: set = frozenset()) -> set:
+def dependencies(doc: Doc, obj: Any, excluded: set = frozenset(), ignored: tuple = ('/Parent', '/P')) -> set:
     """List indirect references found inside object and, recursively, inside their targets."""
     res = set()
     todo = [obj]
@@ -805,7 +805,7 @@ def dependencies(doc: Doc, obj: Any, excluded: set = frozenset()) -> set:
         if type(obj) == Stream:
             obj = obj['entries']
         if type(obj) == dict:
-            todo += [v for k, v in obj.items() if k != '/Parent' and k != '/P']
+            todo += [v for k, v in obj.items() if k not in ignored]
         elif type(obj) == list:
             todo += obj
         elif type(obj) == complex:
@@ -835,11 +835,11 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     keep_ref = {p[0] for p in pages} - del_ref
     del_dep = set()
     keep_dep = set()
-    for i in del_ref:
-        del_dep = del_dep | dependencies(new_doc, i)
+    for i in del_ref: #Upward links are followed too: they may be the only ones, to a form field for example
+        del_dep = del_dep | dependencies(new_doc, i, ignored=())
     for i in keep_ref:
-        keep_dep = keep_dep | dependencies(new_doc, i, del_ref)
-    keep_dep = keep_dep | dependencies(new_doc, trailer(new_doc), del_ref)
+        keep_dep = keep_dep | dependencies(new_doc, i, del_ref, ())
+    keep_dep = keep_dep | dependencies(new_doc, trailer(new_doc), del_ref, ())
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-- 
2.43.0


From 49128980ac5eea8e26affe5afda97752849b6c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:08 +0000
Subject: [PATCH 060/136] fix: removed pages may hold references to nothing

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f0225d3..6924760 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -853,7 +853,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
             new_parent = get_object(new_doc, p)
             new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-    for ref in del_dep - keep_dep:
+    for ref in (del_dep - keep_dep) & set(in_use(new_doc)): #There may be references to nothing
         new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
     return new_doc
 
-- 
2.43.0


From 2bfdab88cfa3cd870650e56489425c52f63f4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:37 +0000
Subject: [PATCH 061/136] fix: fonts of a page may come from inherited
 resources, and be absent or indirect

---
 pdfsyntax/docstruct.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6924760..387710c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1021,10 +1021,11 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
     for page_num in page_nums:
         fonts = {}
         font_res = {}
-        page_ref, _ = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref)['/Resources']
+        page_ref, inherited = flat_page_tree(doc)[page_num]
+        page = get_object(doc, page_ref)
+        resources = page['/Resources'] if '/Resources' in page else inherited.get('/Resources')
         if resources:
-            fonts = get_object(doc, resources)['/Font']
+            fonts = get_object(doc, get_object(doc, resources).get('/Font')) or {}
         for font in fonts:
             font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
-- 
2.43.0


From d9a81a6a0f8a46bdcf93043594cd86dd4ad131fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:37 +0000
Subject: [PATCH 062/136] fix: a font that a page names twice is used by this
 page once

---
 pdfsyntax/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 22c8b1f..930a845 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -294,7 +294,8 @@ def fonts(doc: Doc) -> dict:
                           'pages': [],
                           'to_unicode': u,
                           }
-            ret[o]['pages'].append(i)
+            if i not in ret[o]['pages']: #A page may give it several names
+                ret[o]['pages'].append(i)
     return ret
 
 
-- 
2.43.0


From ea74d9e3dfe71463e485b14a7c048951a8b14c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:38 +0000
Subject: [PATCH 063/136] fix: Type 3 fonts have no base font

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 387710c..d65e153 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -974,7 +974,7 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc = {}
     o = get_object(doc, iref)
     font_desc['iref'] = iref
-    font_desc['name'] = o['/BaseFont']
+    font_desc['name'] = o.get('/BaseFont', '/') #Type 3 fonts have none
     font_desc['type'] = o['/Subtype']
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
-- 
2.43.0


From b6bd017e12e9ec841a67d273fc39dd8186de7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:36 +0000
Subject: [PATCH 064/136] fix: a xref stream rewritten by a commit is not read
 as it was before

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index d65e153..7b6c417 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -638,6 +638,8 @@ def commit(doc: Doc) -> Doc:
             new_doc.data[-1]['bdata'] = new_bdata
             new_doc.data[-1]['fdata'] = new_prov
         new_doc.index[-1] = new_i
+        if x_num:
+            new_doc.cache[x_num] = None #To be read from the bytes just built
     new_doc.data.append({'fdata': new_doc.data[-1]['fdata']})
     new_v = [new_index0] + [new_doc.index[-1][i] for i in range(1,len(new_doc.index[-1]))] 
     new_doc.index.append(new_v)
-- 
2.43.0


From bc04ae5d9f1802c9fbce857c04a71fe7340583d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:06 +0000
Subject: [PATCH 065/136] fix: a xref stream that announces more entries than
 its data does not take for ever

---
 pdfsyntax/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 20df859..9286578 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -401,7 +401,7 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
 
-def expand_xref_index(xref_index: list) -> list:
+def expand_xref_index(xref_index: list, max_nb: int = None) -> list:
     """Transform index section pairs into a flat list of (object_number, subsection) tuples."""
     res = []
     subsection = 0
@@ -410,6 +410,8 @@ def expand_xref_index(xref_index: list) -> list:
         o_num = xref_index[i]
         i += 1
         for j in range(xref_index[i]):
+            if max_nb is not None and len(res) >= max_nb: #There is no data for the others
+                return res
             res.append((o_num+j, subsection))
         i += 1
         subsection += 1
@@ -425,7 +427,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
         obj_range = xref_stream['entries']['/Index']
     else:
         obj_range = [0, xref_stream['entries']['/Size']]
-    obj_nums = expand_xref_index(obj_range)
+    size = sum([int(col) for col in cols])
+    obj_nums = expand_xref_index(obj_range, -(-len(xref_stream['stream']) // size) if size > 0 else 0)
     while i < len(xref_stream['stream']) and obj_nums:
         params = []
         ppr = b''
-- 
2.43.0


From 67f29e14d6d588f3790852e164947bc5d425eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:06 +0000
Subject: [PATCH 066/136] fix: predictor parameters that make no sense do not
 loop for ever nor allocate huge rows

---
 pdfsyntax/filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 4cd9a6a..0d138dc 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -22,6 +22,9 @@ def decode_predictor(bdata: bytes, predictor, columns, colors=1, bits=8): #TODO
     res = []
     bpp = (colors * bits + 7) // 8
     row_l = (columns * colors * bits + 7) // 8
+    if bpp < 1 or row_l < 1:
+        raise ValueError('bad predictor parameters')
+    row_l = min(row_l, size)
     prev_row = [0] * row_l
     i = 0
     while i < size:
-- 
2.43.0


From 28e9c1dda838ff0622efbe904c94182ed355f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:07 +0000
Subject: [PATCH 067/136] fix: a huge range of widths does not take for ever

---
 pdfsyntax/docstruct.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7b6c417..ec85675 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -937,6 +937,7 @@ def prepare_w(w, default_w):
     """Decode widths for type0 / CID fonts."""
     i = 0
     width = {}
+    ranges = []
     if not w:
         def char_width_cid_default(character_num):
             return 500
@@ -952,11 +953,15 @@ def prepare_w(w, default_w):
             first = w[i]
             last = w[i+1]
             x = w[i+2]
-            for j in range(first, last+1):
-                width[j] = x
+            ranges.append((first, last, x))
             i += 3
     def char_width_cid(character_num):
-        return width.get(character_num, default_w)
+        if character_num in width:
+            return width[character_num]
+        for first, last, x in ranges:
+            if first <= character_num <= last:
+                return x
+        return default_w
     return char_width_cid
 
 
-- 
2.43.0


From 79adba5bf256f28fead7ffc45548f4c803857892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:34 +0000
Subject: [PATCH 068/136] fix: entries with an impossible object number do not
 exhaust memory

---
 pdfsyntax/filestruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 73ad4d0..116925a 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -9,6 +9,8 @@ from .filters import *
 
 MARGIN = b'\n'
 
+MAX_OBJ_NUM = 8388607 #Architectural limit
+
 
 def bdata_provider(data_source, mode: str = "SINGLE"):
     """Build - with a higher order function - an interface to binary data.
@@ -303,6 +305,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         if startxref_pos is None: #Search for the end of the section after its data
             startxref_pos = o0 + bdata.find(STARTXREF, j)
             eof_pos = o0 + bdata.find(EOF, startxref_pos - o0)
+        xref_index = [i for i in xref_index if i['o_num'] <= MAX_OBJ_NUM]
         xref_index[0]['startxref_pos'] = startxref_pos
         xref_index.append({'o_num': -1, 'o_gen': -1, 'abs_pos': eof_pos})
         chrono.append(xref_index)
-- 
2.43.0


From 3730a4d7c2eaa9277f44f5e4e1ace13a618dfe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:01:42 +0000
Subject: [PATCH 069/136] fix: text of an annotation is escaped or encoded so
 that it reads back identically

---
 pdfsyntax/api.py  |  2 +-
 pdfsyntax/text.py | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 930a845..64555a1 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -240,7 +240,7 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': encode_text_string(text),
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 6215402..3bedf46 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -36,6 +36,20 @@ def text_string(string: bytes) -> str:
     return res
 
 
+def encode_text_string(text: str) -> bytes:
+    """Transform a text string into a fundamental string: in PDFDocEncoding if possible, or else in UTF-16."""
+    BOM = b'\xfe\xff'
+    codes = [ord(c) for c in text]
+    s = BOM
+    if all(c in PDFDOC_CHARSET and c not in (0x7f, 0x9f, 0xad) for c in codes): #These ones are undefined
+        s = bytes([PDFDOC_CHARSET.index(c) for c in codes])
+    if s[0:2] == BOM:
+        return b'<' + (BOM + text.encode('utf-16be')).hex().encode('ascii') + b'>'
+    for c in (b'\\', b'(', b')'):
+        s = s.replace(c, b'\\' + c)
+    return b'(' + s.replace(b'\r', b'\\r') + b')' #A raw CR would be read as a LF
+
+
 def string_content(string: bytes) -> bytes:
     """Decode the bytes that a literal or hexadecimal string stands for."""
     if string[0:1] == b'<': # Hexadecimal string, where white space is ignored and a last digit may be missing
-- 
2.43.0


From e8e8d62398ff151a9e61c3c50a5d8a322c19c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:01:42 +0000
Subject: [PATCH 070/136] fix: a page may have its array of annotations
 directly, or a null one

---
 pdfsyntax/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 64555a1..d398218 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -246,11 +246,15 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
     doc, a_iref = add_object(doc, annot)
     page_ref, _ = flat_page_tree(doc)[page_num]
     new_page = deepcopy(get_object(doc, page_ref))
-    if '/Annots' in new_page:
+    new_array = get_object(doc, new_page.get('/Annots'))
+    if type(new_array) == list:
         annot_obj = new_page['/Annots']
-        new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
-        doc = update_object(doc, int(annot_obj.imag), new_array)
+        if type(annot_obj) == complex:
+            doc = update_object(doc, int(annot_obj.imag), new_array)
+        else: #The array is directly in the page
+            new_page['/Annots'] = new_array
+            doc = update_object(doc, int(page_ref.imag), new_page)
     else:
         annot_array = [a_iref]
         doc, aa_iref = add_object(doc, annot_array)
-- 
2.43.0


From 862dffd0a6b88269b5acd394f15c5080091b5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:58 +0000
Subject: [PATCH 071/136] fix: the version may be an indirect object of the
 catalog, or null

---
 pdfsyntax/docstruct.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ec85675..7e9c94a 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -461,16 +461,18 @@ def version(doc: Doc) -> str:
     bdata, a0, _, _ = fdata(5, 3)
     ver = bdata[a0:a0+3]
     cat, _ = catalog(doc)
-    if '/Version' in cat and cat['/Version'][1:] > ver.decode('ascii'):
-            return cat['/Version'][1:]
+    cat_ver = get_object(doc, cat.get('/Version'))
+    if type(cat_ver) == str and cat_ver[0:1] == '/' and cat_ver[1:] > ver.decode('ascii'):
+            return cat_ver[1:]
     return ver.decode('ascii')
 
 
 def update_version(doc: Doc, ver: str) -> Doc:
     """Upgrade PDF version in incremental update."""
     cat, i_ref = catalog(doc)
-    if '/Version' in cat:
-        if cat['/Version'][1:] < ver:
+    cat_ver = get_object(doc, cat.get('/Version'))
+    if type(cat_ver) == str and cat_ver[0:1] == '/':
+        if cat_ver[1:] < ver:
             cat['/Version'] = '/' + ver
             return update_object(doc, int(i_ref.imag), cat)
         else:
-- 
2.43.0


From 7aa135cea6acdd3dc3dc8f598954fe53988e8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:59 +0000
Subject: [PATCH 072/136] fix: a document may have null information

---
 pdfsyntax/docstruct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7e9c94a..7ff6c4c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -521,9 +521,9 @@ def catalog(doc: Doc):
 def info(doc: Doc):
     """Return doc Info dictionary if present."""
     trail = trailer(doc)
-    info = trail.get('/Info')
-    if info:
-        return get_object(doc, info)
+    info = get_object(doc, trail.get('/Info'))
+    if type(info) == dict:
+        return info
 
 
 def number_pages(doc: Doc):
-- 
2.43.0


From b51985e0bfdfd135dfa668bfb621d91498e91065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:59 +0000
Subject: [PATCH 073/136] fix: a null encryption dictionary is like a missing
 one

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7ff6c4c..b42a66d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -496,8 +496,8 @@ def trailer(doc: Doc):
 def encrypted(doc: Doc) -> bool:
     """Detect if doc is encrypted."""
     trail = trailer(doc)
-    encrypt = trail.get('/Encrypt')
-    if encrypt:
+    encrypt = get_object(doc, trail.get('/Encrypt'))
+    if encrypt and encrypt != 'null':
         return True
     else:
         return False
-- 
2.43.0


From 6143ad731e4162496196474f867a86b66bef237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:30 +0000
Subject: [PATCH 074/136] fix: the coordinates of a page box may be indirect
 objects

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index d398218..a43ca36 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -179,7 +179,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(get_object(doc, p['/MediaBox']), get_object(doc, p.get('/Rotate'))) for p in pl]
+    med = [([get_object(doc, x) for x in get_object(doc, p['/MediaBox'])], get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
-- 
2.43.0


From 7d53f74d54ab50c4d02a81692596a0279af62107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:30 +0000
Subject: [PATCH 075/136] fix: the size of a page whose box has its corners in
 another order

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index a43ca36..fdfe34a 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -167,7 +167,7 @@ def metadata(doc: Doc) -> dict:
 
 def paper(mediabox: list) -> str:
     """Detect paper size."""
-    x, y = mediabox[2] - mediabox[0], mediabox[3] - mediabox[1]
+    x, y = abs(mediabox[2] - mediabox[0]), abs(mediabox[3] - mediabox[1]) #Corners may be in any order
     ptype = 'unknown'
     for t in PAPER_SIZES:
         if PAPER_SIZES[t] == (x, y):
-- 
2.43.0


From 73a088eca9593dc670682781d231c71fdc5b8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:15:42 +0000
Subject: [PATCH 076/136] fix: reading an empty file does not divide by zero

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 116925a..abc963b 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -32,7 +32,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         def single_load(start_pos: int, length: int) -> tuple:
             if start_pos ==  None and length == -1: #Special escape for length only
                 return (None, None, None, len(bdata))
-            i = (start_pos + len(bdata)) % len(bdata)
+            i = (start_pos + len(bdata)) % len(bdata) if bdata else 0
             if length == -1:
                 nb_read = len(bdata) - i
             else:
@@ -46,7 +46,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             file_size = file_obj.tell()
             if start_pos == None and length == -1:
                 return (None, None, None, file_size)
-            i = (start_pos + file_size) % file_size
+            i = (start_pos + file_size) % file_size if file_size else 0
             if length == -1:
                 nb_read = file_size - i
             else:
-- 
2.43.0


From 002fcc41a5b334067e985161924f6138f828e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:02 +0000
Subject: [PATCH 077/136] fix: the dump of a range beyond the end of a file is
 empty

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index abc963b..d4d01d2 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -93,9 +93,9 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
         start = 0
     if stop is None or stop > sz:
         stop = sz
-    length = stop - start
     idx = (start // LN) * LN
-    buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
+    length = max(stop - idx, 0)
+    buf, d0, i0, sz0 = bdata(idx, length)
     i = d0
     while i < d0 + sz0:
         l = buf[i:min(i+LN, d0+sz0)]
-- 
2.43.0


From ecf2b84b6861847a99af9b5e3aa91c0e341e75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:06 +0000
Subject: [PATCH 078/136] fix: the default width of a composite font applies
 without /W too

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b42a66d..8b87a2c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -942,7 +942,7 @@ def prepare_w(w, default_w):
     ranges = []
     if not w:
         def char_width_cid_default(character_num):
-            return 500
+            return default_w
         return char_width_cid_default
     while i < len(w):
         if type(w[i+1]) == list:
-- 
2.43.0


From 5ee8fadaca12327cd4162d3f2e77ffe3e71abb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:25 +0000
Subject: [PATCH 079/136] fix: the widths of a font may be indirect objects
 inside of their array

---
 pdfsyntax/docstruct.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8b87a2c..cde3650 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -993,13 +993,14 @@ def prepare_font(doc: Doc, iref) -> dict:
     widths = o.get('/Widths')
     descendant = o.get('/DescendantFonts')
     if widths:
-        font_desc['char_width'] = prepare_widths(get_object(doc, widths), get_object(doc, first_char))
+        widths = [get_object(doc, x) for x in get_object(doc, widths)]
+        font_desc['char_width'] = prepare_widths(widths, get_object(doc, first_char))
     elif descendant:
         iref = get_object(doc, descendant)[0]
         d = get_object(doc, iref)
-        w = d.get('/W')
+        w = [get_object(doc, x) for x in get_object(doc, d.get('/W')) or []]
         dw = d.get('/DW', 1000)
-        font_desc['char_width'] = prepare_w(get_object(doc, w), get_object(doc, dw))
+        font_desc['char_width'] = prepare_w(w, get_object(doc, dw))
     else:
         #TODO Find standard fonts widths
         default_widths = [500] * 256
-- 
2.43.0


From 8af56e469248ec8b3dd7089d302091676173ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:49 +0000
Subject: [PATCH 080/136] fix: the encoding of a font may be an indirect name

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index cde3650..d2e77c9 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -987,7 +987,7 @@ def prepare_font(doc: Doc, iref) -> dict:
     font_desc['type'] = o['/Subtype']
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
-    font_desc['encoding'] = o.get('/Encoding')
+    font_desc['encoding'] = get_object(doc, o.get('/Encoding'))
     first_char = o.get('/FirstChar')
     #last_char = o.get('/LastChar')
     widths = o.get('/Widths')
-- 
2.43.0


From 3cc1c4e5980d0fea250180a81599896f5fc7c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:49 +0000
Subject: [PATCH 081/136] fix: code 333 of MacRomanEncoding is the currency
 sign

---
 pdfsyntax/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 3bedf46..c8e03a8 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -112,7 +112,7 @@ def apply_encoding(encoding: str, string: bytes) -> tuple:
     """ """
     s = string_content(string)
     if encoding == '/MacRomanEncoding':
-        us = s.decode('mac_roman')
+        us = s.decode('mac_roman').replace('\u20ac', '\u00a4') #The currency sign in PDF
     else:
         us = s.decode('cp1252', 'replace')
     return us, list(s)
-- 
2.43.0


From 0283de4ca4b9135f90485cb5c8601db8330e10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:30 +0000
Subject: [PATCH 082/136] fix: a comment may end with the file

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 9286578..10ae864 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -182,6 +182,8 @@ def next_token(text: bytes, i=0) -> tuple:
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
         i += 1
+    if search == "COMMENT": #The end of the text ends the line
+        return (h, len(text), 'COMMENT')
     return (h, i, None)
 
 
-- 
2.43.0


From 74a1a534ce87c7b8b9efc5f9913e051bcb78ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:45 +0000
Subject: [PATCH 083/136] fix: only the wrong xref entry is marked in a
 disassembly

---
 pdfsyntax/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 99b327f..cb663ed 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -241,7 +241,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                  }
             lines.append(l)
             if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
+                wt = {(n, x) for _, n, _, x in wrong_targets[pos]}
             else:
                 wt = set()
             for x in content['table']:
@@ -258,7 +258,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if s == b'n' and (x_num, addr) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'region_type': region_type.lower(),
                      'iref': iref, 'addr': addr, 'cl': cl, 'st': st
@@ -314,7 +314,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
         elif region_type == 'XREFSTREAM':
             trailer = content['trailer']
             if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
+                wt = {(n, x) for _, n, _, x in wrong_targets[pos]}
             else:
                 wt = set()
             for x in content['table']:
@@ -331,7 +331,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if s == b'n' and (x_num, addr) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'pos': pos,
                      'region_type': region_type.lower(), 'iref': iref,
-- 
2.43.0


From a083fe38c2cfc7c12e142c38d944e96df48d7964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:45 +0000
Subject: [PATCH 084/136] fix: mark embedded objects that are not indexed in a
 disassembly

---
 pdfsyntax/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index cb663ed..8b53a8e 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -199,7 +199,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
     dir_not_indexed = {x for t, _, _, x in check_not_indexed_objects(sections, i) if t == 'DIR'}
-    emb_not_indexed = {(e, n) for t, n, e, _ in check_not_indexed_objects(sections, i) if t == 'EMB'}
+    emb_not_indexed = {(e, x) for t, _, e, x in check_not_indexed_objects(sections, i) if t == 'EMB'}
     lines = []
     for start_pos, end_pos, region_type, content in sections:
         pos = start_pos
-- 
2.43.0


From 1d4d86b4ff84cb5fcd31d376a593d70ef47fd7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:50:28 +0000
Subject: [PATCH 085/136] fix: the word trailer in a string of the trailer
 hides the trailer

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index d4d01d2..652bd5d 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -615,7 +615,7 @@ def build_revision_byte_stream(
         #cache[0]['/Size'] = len(current_index)
         built_xref = format_xref_table(xref_table, cache[0], next_free)
         new_index[0]['xref_table_pos'] = counter
-        new_index[0]['abs_pos'] = counter + built_xref.rfind(b'trailer')
+        new_index[0]['abs_pos'] = counter + built_xref.find(b'trailer')
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
         xref_table.append(('n', xref_stream_num, 0, counter, None))
-- 
2.43.0


From 212a8b73347072bfffe3d63bcd8368717447032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:01 +0000
Subject: [PATCH 086/136] fix: a comment may inject markup in the HTML view

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..4272f51 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -390,7 +390,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = html.escape(comment[:10].decode('ascii'))
     except:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
-- 
2.43.0


From a250510535a72ec52bdba1e887d1d7b5e150e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:02 +0000
Subject: [PATCH 087/136] fix: a type may inject markup in the minimap

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 4272f51..09757ab 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -290,7 +290,7 @@ def build_nav_objects(articles) -> str:
                 c = c['entries']
             t = c.get("/Type", "")
         ret += '<li>'
-        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
+        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {html.escape(str(t))}'
         ret += '</li>\n'
     ret += '</ul>\n'
     ret += '</pre>\n'
-- 
2.43.0


From 3875006ea42756fcb64145fa5005d609533bfde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:02 +0000
Subject: [PATCH 088/136] fix: a version may inject markup in the HTML view

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 09757ab..c466384 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -330,7 +330,7 @@ def build_nav_info(structure, file_size) -> str:
     attrs.append(f'{"Linearized: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"])}')
     attrs.append(f'{"File size: ":{INFO_MAX_WIDTH}}{file_size} bytes')
     for x in attrs:
-        ret += f' <li class="">{x}</li>'
+        ret += f' <li class="">{html.escape(x)}</li>'
     ret += '</ul>\n'
     ret += '</pre>\n'
     ret += '</details>\n'
-- 
2.43.0


From 64767e3f39eb4ecc56afa3121c640d32eb71b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:03 +0000
Subject: [PATCH 089/136] fix: a file name may inject markup in the HTML view

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index c466384..906a080 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -359,7 +359,7 @@ def build_header(filename: str) -> str:
     ret = ''
     ret += f'<div class="header b3">\n'
     ret += f'<pre>\n'
-    ret += f'{os.path.basename(filename)} - '
+    ret += f'{html.escape(os.path.basename(filename))} - '
     ret += f'internal view generated by '
     ret += f'<a href="https://pdfsyntax.dev">PDFSyntax</a>\n'
     ret += f'</pre>\n'
-- 
2.43.0


From 3f7624a32960fced281c526e01b46e2ba05b4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:03 +0000
Subject: [PATCH 090/136] fix: entry names are not escaped in the HTML view

---
 pdfsyntax/display.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 906a080..8da55ae 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -495,18 +495,19 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
             name = i #name = i.decode('ascii')
+            label = html.escape(f'{name:{NAME_MAX_WIDTH}}')
             value = follow_obj(obj[i], index, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
+                ret += f'  {label}<span class="important">{value}</span>\n'
             elif name == '/JS':
-                ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
+                ret += f'  <span class="warning">{label}</span>{value}\n'
             elif value == '/JavaScript':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
+                ret += f'  {label}<span class="warning">{value}</span>\n'
             elif name == '/Prev':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
+                ret += f'  {label}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
-                ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
+                ret += f'  {label}{value}\n'
         ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
         ret += '&gt;&gt;'
         if content and display_stream:
-- 
2.43.0


From 07d9ec95e2d6045bdc141952b43e1ad0e176038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:03 +0000
Subject: [PATCH 091/136] fix: ampersands are not escaped in printable streams

---
 pdfsyntax/graphics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..7c53040 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -144,6 +144,7 @@ def printable_stream_content(content_stream: bytes, escape = True) -> str:
             return None
     ret = c.decode('latin-1')
     if escape:
+        ret = ret.replace('&', '&amp;')
         ret = ret.replace('<', '&lt;')
         ret = ret.replace('>', '&gt;')
     return ret
-- 
2.43.0


From 4746211fb8bf23117bb74505f6ca4a01d01d5531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:04 +0000
Subject: [PATCH 092/136] fix: markup is cut in long arrays of the HTML view

---
 pdfsyntax/display.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 8da55ae..b3e3845 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -526,8 +526,9 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         for i in obj:
             value = follow_obj(i, index)
             ret += f'{value} '
-        if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
-            ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
+        text = html.unescape(ret)
+        if len(text) > VALUE_MAX_WIDTH and '<' not in ret: #Only plain text may be cut
+            ret = html.escape(text[:VALUE_MAX_WIDTH]) + TRUNCATED
         ret += ']'        
     else:
         comment = False
-- 
2.43.0


From e4a9294c49df2e6f14f7cecb3c8c659ed882daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:04 +0000
Subject: [PATCH 093/136] fix: markup is cut in binary streams of the HTML view

---
 pdfsyntax/display.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index b3e3845..69c46d3 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -517,8 +517,10 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
                 ret += f'<details>\n<summary class="stream-content">see content</summary>\n'
                 ret += f'<pre class="detail">{p}</pre>\n</details>\n'
             else:
-                detail = '&lt;' + content.hex() + '&gt;'
-                content = detail[:VALUE_MAX_WIDTH * 2] + TRUNCATED
+                detail = '<' + content.hex() + '>'
+                content = html.escape(detail[:VALUE_MAX_WIDTH * 2])
+                if len(detail) > VALUE_MAX_WIDTH * 2:
+                    content += TRUNCATED
                 ret += f'{content}\n'
             ret += f'endstream\n'
     elif type(obj) == list:
-- 
2.43.0


From 57795d8b21ef2695340e346fabddcc3c1ce5d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:35 +0000
Subject: [PATCH 094/136] fix: references to nothing break the HTML view

---
 pdfsyntax/api.py     | 6 ++++--
 pdfsyntax/display.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index fdfe34a..092233f 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -464,8 +464,10 @@ def cross_map_index(sections, index):
             continue
         for target in targets:
             target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
-            _, _, _, target_used_by = ret[target_pos]
+            entry = index[-1][target_num] if 0 < target_num < len(index[-1]) else None
+            if entry is None or entry['o_gen'] != int(target.real) or entry.get('abs_pos') not in ret:
+                continue #Leads to nothing
+            _, _, _, target_used_by = ret[entry['abs_pos']]
             target_used_by.append((o_num, abs_pos))
     return ret
 
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 69c46d3..35b01ed 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -480,7 +480,10 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     if isinstance(obj, complex):
         o_num = int(obj.imag)
         o_gen = int(obj.real)
-        abs_pos = index[o_num].get('abs_pos')
+        target = index[o_num] if 0 < o_num < len(index) else None
+        if target is None or target['o_gen'] != o_gen or 'abs_pos' not in target:
+            return f'{o_num} {o_gen} R' #Leads to nothing
+        abs_pos = target['abs_pos']
         ret += f'<a href="#idx{abs_pos}">'
         ret += f'<span class="obj-link">{o_num} {o_gen} R</span>'
         ret += '</a>'
-- 
2.43.0


From 093ce99f5c2a84d13c7e5f36d4b71cccc0bf2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:35 +0000
Subject: [PATCH 095/136] fix: links of a trailer lead to objects of another
 revision in the HTML view

---
 pdfsyntax/display.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 35b01ed..4bd5ca3 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -229,6 +229,8 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
                 page += build_obj_trailer()
         elif typ == 'XREFTABLE':
             page += build_obj_header(article, index, cross)
+            _, relevance, _, _ = cross[abs_pos]
+            _, ver = relevance
             page += build_xref_table(content['table'], index)
             page += "\ntrailer\n"
             page += follow_obj(content['trailer'], index[ver])
-- 
2.43.0


From 6493a54bee8a45e21d6132845ed41a24f273c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:36 +0000
Subject: [PATCH 096/136] fix: nested links for /Prev references in the HTML
 view

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 4bd5ca3..d5241ca 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -509,7 +509,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
                 ret += f'  <span class="warning">{label}</span>{value}\n'
             elif value == '/JavaScript':
                 ret += f'  {label}<span class="warning">{value}</span>\n'
-            elif name == '/Prev':
+            elif name == '/Prev' and type(obj[i]) == int:
                 ret += f'  {label}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
                 ret += f'  {label}{value}\n'
-- 
2.43.0


From 2bea0c887c113411c7e2cb4a2a4a285c7c083001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:36 +0000
Subject: [PATCH 097/136] fix: startxref 0 of a linearized file is not a link
 in the HTML view

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index d5241ca..3634e4f 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -379,7 +379,7 @@ def add_startxref(article: dict, index: list, cross) -> str:
     ret += f'<pre>\n'
     ret += f'<span class="c1">{pos:010d}</span><span class="obj-header b0">startxref</span>\n'
     ret += f'<div class="obj-body b0">\n'
-    if xref == 0:
+    if int(xref) == 0:
         ret += f'0\n'
     else:
         ret += f'<a class="obj-link" href="#{href}">{int(xref)}</a>\n'
-- 
2.43.0


From b8592f313e0835bf08dfa74412197e7402684f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:36 +0000
Subject: [PATCH 098/136] fix: links and anchors of embedded objects in the
 HTML view

---
 pdfsyntax/display.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 3634e4f..95480b2 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -441,6 +441,15 @@ def build_xref_table(table: list, index: list) -> str:
     return ret
 
 
+def find_embedded_pos(o_num: int, env_num: int, o_pos: int, index: list):
+    """Find position of an object embedded in an object stream."""
+    for current in index:
+        x = current[o_num] if o_num < len(current) else None
+        if x and x.get('env_num') == env_num and x.get('o_pos') == o_pos:
+            return x['abs_pos']
+    return None
+
+
 def build_xref_stream(table: list, index: list) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
@@ -448,11 +457,12 @@ def build_xref_stream(table: list, index: list) -> str:
     for x in table:
         _, _, _, y = x
         _, pos, o_num, o_gen, st, env_num, raw_line = y
-        if o_num != 0:
+        if o_num != 0 and st == b'f':
+            ret += f'#{o_num} {o_gen}    Next free {pos:010} {st.decode("ascii")}\n'
+        elif o_num != 0:
             if env_num:
-                #abs_pos = envs[env_num] + (pos + 1) / 10000
-                #ret += f'<a href="#idx{abs_pos}">'
-                ret += f'<a href="#obj{o_num}.{o_gen}.0">'
+                abs_pos = find_embedded_pos(o_num, env_num, pos, index)
+                ret += f'<a href="#idx{abs_pos}">'
             else:
                 ret += f'<a href="#idx{pos}">'
             ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
@@ -602,8 +612,10 @@ def build_obj_header(article, index, cross) -> str:
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = obj['o_num'], 0, 0
-        _, _, _, used_by = cross[pos]
+        _, relevance, _, used_by = cross[pos]
+        o_num, ver = relevance
+        o_gen = 0
+        o_ver = index[ver][o_num]['o_ver']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
         ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
-- 
2.43.0


From 8827a746ead8d609dc1df14ec72abf9f611ccce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:00:41 +0000
Subject: [PATCH 099/136] fix: a /Prev entry that is no file position is a dead
 link in the HTML view

---
 pdfsyntax/display.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 95480b2..39b3de9 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -207,6 +207,7 @@ TRUNCATED = '<em> ...(truncated) </em>'
 def build_html(articles: list, index: list, cross: dict, filename: str, pages: list, structure: dict, file_size: int) -> str:
     """Compose the page layout."""
     page = HEADER
+    anchors = {abs_pos for abs_pos, _, _, _ in articles}
     for article in articles:
         abs_pos, _, typ, content = article
         if typ == 'STARTXREF':
@@ -222,9 +223,9 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
             _, ver = relevance
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
-                page += follow_obj(o, index[ver], display_stream=False)
+                page += follow_obj(o, index[ver], display_stream=False, anchors=anchors)
             else:
-                page += follow_obj(o, index[ver], display_stream=True)
+                page += follow_obj(o, index[ver], display_stream=True, anchors=anchors)
                 page += '\n\nendobj'
                 page += build_obj_trailer()
         elif typ == 'XREFTABLE':
@@ -233,7 +234,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
             _, ver = relevance
             page += build_xref_table(content['table'], index)
             page += "\ntrailer\n"
-            page += follow_obj(content['trailer'], index[ver])
+            page += follow_obj(content['trailer'], index[ver], anchors=anchors)
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
             page += build_xref_stream(content['table'], index)
@@ -485,7 +486,7 @@ def move_list_item(mod_list: list, item: int, new_pos: int) -> str:
     return mod_list
 
 
-def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
+def follow_obj(obj, index: list, depth=0, display_stream=True, anchors=None) -> str:
     """Recursively construct object representation."""
     ret = ''
     content = None
@@ -511,7 +512,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         for i in keys:
             name = i #name = i.decode('ascii')
             label = html.escape(f'{name:{NAME_MAX_WIDTH}}')
-            value = follow_obj(obj[i], index, depth + 1)
+            value = follow_obj(obj[i], index, depth + 1, anchors=anchors)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
                 ret += f'  {label}<span class="important">{value}</span>\n'
@@ -519,7 +520,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
                 ret += f'  <span class="warning">{label}</span>{value}\n'
             elif value == '/JavaScript':
                 ret += f'  {label}<span class="warning">{value}</span>\n'
-            elif name == '/Prev' and type(obj[i]) == int:
+            elif name == '/Prev' and type(obj[i]) == int and (anchors is None or obj[i] in anchors):
                 ret += f'  {label}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
                 ret += f'  {label}{value}\n'
@@ -541,7 +542,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     elif type(obj) == list:
         ret += '[ '
         for i in obj:
-            value = follow_obj(i, index)
+            value = follow_obj(i, index, anchors=anchors)
             ret += f'{value} '
         text = html.unescape(ret)
         if len(text) > VALUE_MAX_WIDTH and '<' not in ret: #Only plain text may be cut
-- 
2.43.0


From 222eca51e89ef9bbc52ab170f62622bdc417b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:25 +0000
Subject: [PATCH 100/136] fix: an object that is not indexed breaks the HTML
 view

---
 pdfsyntax/api.py     |  2 ++
 pdfsyntax/display.py | 25 +++++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 092233f..4dc5d2b 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -459,6 +459,8 @@ def cross_map_index(sections, index):
             ret[abs_pos] = o_num, relevance, targets, []
     for abs_pos in ret:
         o_num, relevance, targets, _ = ret[abs_pos]
+        if relevance is None: #Not indexed
+            continue
         _, ver = relevance
         if ver < len(index) - 1:
             continue
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 39b3de9..d70a13d 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -220,7 +220,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
         elif typ == 'IND_OBJ':
             page += build_obj_header(article, index, cross)
             _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            _, ver = relevance or (0, -1)
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
                 page += follow_obj(o, index[ver], display_stream=False, anchors=anchors)
@@ -231,7 +231,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
         elif typ == 'XREFTABLE':
             page += build_obj_header(article, index, cross)
             _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            _, ver = relevance or (0, -1)
             page += build_xref_table(content['table'], index)
             page += "\ntrailer\n"
             page += follow_obj(content['trailer'], index[ver], anchors=anchors)
@@ -575,6 +575,15 @@ def build_xref_item_header() -> str:
     return ret
 
 
+def build_obj_anchor(o_num: int, o_gen: int, relevance: tuple, index: list) -> str:
+    """Identify a version of an object, unless it is not indexed."""
+    if relevance is None:
+        return '<div>\n'
+    num, ver = relevance
+    o_ver = index[ver][num]['o_ver']
+    return f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+
+
 def build_obj_header(article, index, cross) -> str:
     """Add opening elements to object."""
     pos, addon, typ, obj = article
@@ -593,12 +602,10 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<pre>\n'
     elif type(pos) == int:
         _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = index[ver][o_num]['o_gen']
-        o_ver = index[ver][o_num]['o_ver']
+        o_num, o_gen = obj['o_num'], obj['o_gen']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += build_obj_anchor(o_num, o_gen, relevance, index)
         ret += f'<pre>\n'
         ret += f'<span class="c1">{pos:010d}</span>'
         ret += f'<span class="obj-header b0"><strong>{o_num}</strong> '
@@ -614,12 +621,10 @@ def build_obj_header(article, index, cross) -> str:
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
         _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = 0
-        o_ver = index[ver][o_num]['o_ver']
+        o_num, o_gen = obj['o_num'], 0
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += build_obj_anchor(o_num, o_gen, relevance, index)
         ret += f'<pre>\n'
         embedded = f'{obj["env_num"]} #{seq}'
         ret += f'<span class="c1">{embedded:10}</span>'
-- 
2.43.0


From ee8591cedbd11b1a3300998c573ad5353d410a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:33:44 +0000
Subject: [PATCH 101/136] fix: the first command of a content stream is parsed
 twice, or lost behind a last comment

---
 pdfsyntax/graphics.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 7c53040..f5311c5 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -111,27 +111,14 @@ def parse_stream_content(content_stream: bytes) -> list:
     A command is a list made of operands followed by an operator, like [1, 0, 0, 1, 0, 0, 'cm']
     """
     ret = []
-    tokens = parse_obj(b'[' + content_stream + b']')
-    i = len(tokens) - 1
-    section = None
     current = []
-    while i >= 0:
-        if type(tokens[i]) == str and tokens[i][0:1] != '/':
-            if current:
-                ret.insert(0, current)
-            current = [tokens[i]]
-            i -= 1
-            continue
-        if type(tokens[i]) != str or tokens[i][0:1] == '/':
-            current = [tokens[i]] + current
-            if i == 0 and current:
-                ret.insert(0, current)
-            i -= 1
-            continue
-            i -= 1
-        i -= 1
+    for token in parse_obj(b'[' + content_stream + b'\n]'): #A comment may end the stream
+        current.append(token)
+        if type(token) == str and token[0:1] != '/':
+            ret.append(current)
+            current = []
     if current:
-        ret.insert(0, current)
+        ret.append(current)
     return ret
 
 
-- 
2.43.0


From 5821f229fb782e00c6e9ff9ea1cadd9917b6f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:40 +0000
Subject: [PATCH 102/136] fix: q and Q do not save the text state, and an
 unmatched Q loses the graphics state

---
 pdfsyntax/graphics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index f5311c5..223355e 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -51,9 +51,12 @@ def apply_command(command: list, graphics_state_stack: list, text_state: dict):
     current_state = graphics_state_stack[-1]
     if command[-1] == 'q':
         state_backup = deepcopy(current_state)
+        current_state['text'] = {k: text_state[k] for k in text_state if k not in ('tm', 'tlm')} #Text parameters are part of the graphics state
         graphics_state_stack.append(state_backup)
     elif command[-1] == 'Q':
-        graphics_state_stack.pop()
+        if len(graphics_state_stack) > 1: #An unmatched one is ignored
+            graphics_state_stack.pop()
+            text_state.update(graphics_state_stack[-1].pop('text', {}))
     elif command[-1] == 'cm':
         operands = command[:7]
         new_ctm = multiply_matrices(operands, current_state['ctm'])
-- 
2.43.0


From d3e20995521004837b311cf58a2429f3b9e94a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:03 +0000
Subject: [PATCH 103/136] fix: the strings shown by ' and " are lost in text
 extraction

---
 pdfsyntax/api.py  | 2 +-
 pdfsyntax/text.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 4dc5d2b..dbd4ac0 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -364,7 +364,7 @@ def build_text_fragments(page_contents: list, f: list):
              pass
         apply_command(te, gs, ts)
         #print(ts['tm'])
-        if te[-1] == 'TJ' or te[-1] == 'Tj':
+        if te[-1] in ('TJ', 'Tj', "'", '"'):
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
             uc, displacement = text_element_to_unicode(f[0], te, ts)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index c8e03a8..cf5947c 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -185,7 +185,7 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
     font = ts['Tf']
     ustring = ''
     width = 0
-    if element[-1] == 'Tj':
+    if element[-1] in ('Tj', "'", '"'):
             t = element[-2]
             us, chars = fonts[font]['dec_fun'](t)
             ustring += us
-- 
2.43.0


From 7d7624d07a7a680b10338b7708c96841ea22c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:04 +0000
Subject: [PATCH 104/136] fix: tokens of consecutive content streams are glued

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index dbd4ac0..f8235c4 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -356,7 +356,7 @@ def build_text_fragments(page_contents: list, f: list):
     ts = {}
     c_all = b''
     for c in page_contents:
-        c_all += c['stream']
+        c_all += c['stream'] + b'\n' #Tokens do not span several streams
     t =parse_stream_content(c_all)
     for te in t:
         if te[-1] not in 'lmchnfgGref*':
-- 
2.43.0


From cb8b86b6bd1521fc0c5db442434cca00da278cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:04 +0000
Subject: [PATCH 105/136] fix: a TJ adjustment moves the text too far

---
 pdfsyntax/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index cf5947c..b845ce3 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -200,9 +200,9 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                     width += fonts[font]['char_width'](c) / 1000
             else:
                 space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
+                width -= t/1000
                 t -= space_char_width * 0.2
                 if t <= -space_char_width:
                     nb_char = int(-t) // int(space_char_width)
                     ustring += ' ' * nb_char
-                width -= t/1000
     return ustring, width
-- 
2.43.0


From 402b2ddca8869cf712836a79b74bf5fe49c26b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:05 +0000
Subject: [PATCH 106/136] fix: a font whose space has no width breaks text
 extraction

---
 pdfsyntax/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index b845ce3..3ac6bb6 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -202,7 +202,7 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                 space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
                 width -= t/1000
                 t -= space_char_width * 0.2
-                if t <= -space_char_width:
+                if space_char_width >= 1 and t <= -space_char_width:
                     nb_char = int(-t) // int(space_char_width)
                     ustring += ' ' * nb_char
     return ustring, width
-- 
2.43.0


From 014b584f06f2ac9cf3bf0e2555acb091e9fe8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:16 +0000
Subject: [PATCH 107/136] fix: character and word spacing are applied once per
 string instead of once per glyph

---
 pdfsyntax/api.py  | 2 +-
 pdfsyntax/text.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index f8235c4..9fe3088 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -368,7 +368,7 @@ def build_text_fragments(page_contents: list, f: list):
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
             uc, displacement = text_element_to_unicode(f[0], te, ts)
-            tx = (displacement * ts['Tfs'] + ts['Tc'] + ts['Tw']) * ts['Th'] / 100
+            tx = displacement * ts['Th'] / 100
             ty = 0 #TODO
             ts['tm'] = multiply_matrices([1, 0, 0, 1, tx, ty], ts['tm'])
             new_trm = trm(ts, gs)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 3ac6bb6..2ac8ae3 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -185,12 +185,15 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
     font = ts['Tf']
     ustring = ''
     width = 0
+    spacing = 0
+    word_code = None if fonts[font]['type'] == '/Type0' else 32 #Word spacing applies to single-byte codes
     if element[-1] in ('Tj', "'", '"'):
             t = element[-2]
             us, chars = fonts[font]['dec_fun'](t)
             ustring += us
             for c in chars:
                 width += fonts[font]['char_width'](c) / 1000
+                spacing += ts['Tc'] + (ts['Tw'] if c == word_code else 0)
     elif element[-1] == 'TJ':
         for t in element[-2]:
             if type(t) == bytes:
@@ -198,6 +201,7 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                 ustring += us
                 for c in chars:
                     width += fonts[font]['char_width'](c) / 1000
+                    spacing += ts['Tc'] + (ts['Tw'] if c == word_code else 0)
             else:
                 space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
                 width -= t/1000
@@ -205,4 +209,4 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                 if space_char_width >= 1 and t <= -space_char_width:
                     nb_char = int(-t) // int(space_char_width)
                     ustring += ' ' * nb_char
-    return ustring, width
+    return ustring, width * ts['Tfs'] + spacing
-- 
2.43.0


From 57fb666c38ce9d83b36be3a95b5a88febca2ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:27 +0000
Subject: [PATCH 108/136] fix: text extraction breaks on a page without
 contents

---
 pdfsyntax/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 9fe3088..289eb98 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -330,8 +330,8 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
     """List all content streams of a page."""
     ret = []
     pages = flat_page_tree(doc)
-    i_c = get_object(doc, pages[page_num][0])['/Contents']
-    if type(i_c) == complex:
+    i_c = get_object(doc, pages[page_num][0]).get('/Contents')
+    if type(i_c) != list:
         i_c = [i_c]
     for content in i_c:
         c2 = get_object(doc, content)
@@ -339,7 +339,8 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
             c2 = [c2]
         for content2 in c2:
             c3 = get_object(doc, content2)
-            ret.append(c3)
+            if type(c3) == Stream: #A page may be empty
+                ret.append(c3)
     return ret
 
 
-- 
2.43.0


From 383b96e481ed5001fb87d58b921277804038ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:42 +0000
Subject: [PATCH 109/136] fix: text extraction breaks on single characters and
 on rotated text

---
 pdfsyntax/layout.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0654969..dc35ac6 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -11,9 +11,9 @@ def basic_spatial_layout(text_blocks: list) -> str:
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-    spacing = typical_line_spacing(text_blocks, fs)
+    spacing = typical_line_spacing(text_blocks, fs) or 1 #Rotated text has no horizontal scaling
     #print(f"spacing = {spacing}")
-    char_w = typical_char_width(text_blocks, fs)
+    char_w = typical_char_width(text_blocks, fs) or 1
     #print(f"char w = {char_w}")
     previous_y = -1
     while text_blocks:
@@ -129,9 +129,9 @@ def typical_char_width(text_blocks: list, typical_font_size: float) -> float:
             continue
         distrib.append(i['width'] / len(i['text']))
     if len(distrib):
-        return sum(distrib) / len(distrib)
+        return sum(distrib) / len(distrib) or typical_font_size / 2
     else:
-        return 0
+        return typical_font_size / 2
 
 
 def print_debug(text_blocks: list):
-- 
2.43.0


From c9b3317bcc559372775acf7de70b905044c68baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:58 +0000
Subject: [PATCH 110/136] fix: the data of an inline image hides the commands
 that follow

---
 pdfsyntax/graphics.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 223355e..671caef 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -1,9 +1,11 @@
 """ """
 
+import re
 from .objects import *
 from copy import deepcopy
 
 IDENTITY_MATRIX = [1, 0, 0, 1, 0, 0]
+INLINE_IMAGE_END = re.compile(rb'[\x00\t\n\x0c\r ]EI(?=[\x00\t\n\x0c\r <>\[\]/(){}%])')
 
 
 def multiply_matrices(m1: list, m2: list) -> list:
@@ -115,11 +117,24 @@ def parse_stream_content(content_stream: bytes) -> list:
     """
     ret = []
     current = []
-    for token in parse_obj(b'[' + content_stream + b'\n]'): #A comment may end the stream
+    text = content_stream + b'\n' #The last token is delimited
+    i = 0
+    while i < len(text):
+        h, i, t = next_token(text, i)
+        if t is None or t == 'COMMENT':
+            continue
+        if t == 'DICT' or t == 'ARRAY':
+            token = parse_obj(text[h:i])
+        else:
+            token = dedicated_type(text[h:i], t)
         current.append(token)
-        if type(token) == str and token[0:1] != '/':
+        if t == 'KEYWORD' and token != 'null':
             ret.append(current)
             current = []
+            end = INLINE_IMAGE_END.search(text, i) if token == 'ID' else None
+            if end: #Binary data is not made of tokens
+                current.append(text[i+1:end.start()])
+                i = end.start()
     if current:
         ret.append(current)
     return ret
-- 
2.43.0


From 74e60c850aa4eaa20aa54333fe0b88bce9645c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:05 +0000
Subject: [PATCH 111/136] fix: the last paragraph of a Markdown text without a
 final end of line is lost

---
 pdfsyntax/markdown.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index aba1991..1f24b85 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -259,6 +259,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             if ln_break:
                 b.append("<br>")
         i += 1
+    flush_p(blocks, b)
     return blocks, i
 
 
-- 
2.43.0


From 4c274aa06fece8eabd602d6eaa78a7792777386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:05 +0000
Subject: [PATCH 112/136] fix: the line that follows a Markdown list, table,
 quote or indented code is lost

---
 pdfsyntax/markdown.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 1f24b85..12538c6 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -114,9 +114,10 @@ def parse_code_block(lines: list, start_pos = 0, mode = 'indented'):
         indent, bs = indentation_and_first_token(ln)
         ln += '\n'
         if mode == 'indented':
-            if indent == 4:
+            if bs and indent >= 4:
                 res.append(ln)
             else:
+                i -= 1 #Not part of the block
                 break
         elif mode == 'fenced':
             if ln[:3] == "```":
@@ -169,7 +170,7 @@ def parse_list(lines: list, start_pos = 0, mode = 'unordered'):
             break
         res.append(('LI' ,[ln[indent+len(bs)+1:]]))
         i += 1
-    return (typ, i, res)
+    return (typ, i - 1, res)
 
 
 def parse_table(lines: list, start_pos = 0):
@@ -196,7 +197,7 @@ def parse_table(lines: list, start_pos = 0):
                 tbody.append(('TR' ,row))
         i += 1
     res.append(('TBODY', tbody))
-    return ('TABLE', i, res)
+    return ('TABLE', i - 1, res)
 
 
 def flush_p(blocks: list, b: list):
@@ -224,6 +225,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             sub, i = parse_markdown(lines, i, indent + 1)
             blocks.append(('BLOCKQUOTE', sub))
+            i -= 1 #This line is not part of it
         elif bs[:3] == "```":
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i+1, 'fenced')
@@ -252,7 +254,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_table(lines, i)
             blocks.append((typ, res))
-        elif b and not ln:
+        elif not ln:
             flush_p(blocks, b)
         else:
             b.append(line[indent:])
-- 
2.43.0


From 4cf52c1722eff3e919064bb6f358285ae99d1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:05 +0000
Subject: [PATCH 113/136] fix: a line of spaces swallows the Markdown text that
 follows

---
 pdfsyntax/markdown.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 12538c6..09c39e6 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -218,7 +218,11 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
         ln = line.strip('\r')
         indent, bs = indentation_and_first_token(ln)
         ln_break = True if ln[-2:] == '  ' else False
-        if indent + 1 < start_indent:
+        if not ln.strip(): #Blank line
+            flush_p(blocks, b)
+            if start_indent:
+                return blocks, i
+        elif indent + 1 < start_indent:
             flush_p(blocks, b)
             return blocks, i
         elif not bs and indent > 0 and indent + 1 > start_indent:
@@ -254,8 +258,6 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_table(lines, i)
             blocks.append((typ, res))
-        elif not ln:
-            flush_p(blocks, b)
         else:
             b.append(line[indent:])
             if ln_break:
-- 
2.43.0


From 5af62c5af6145962a5df867bb8b891ceb882f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:06 +0000
Subject: [PATCH 114/136] fix: Markdown text is lost after a tab

---
 pdfsyntax/markdown.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 09c39e6..79dfd6e 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -15,7 +15,7 @@ def indentation_and_first_token(string: str):
             blockquote = True
             i += 1
         elif c == '\t':
-            i += 4
+            i += 1
         else:
             if blockquote:
                 i -= 1
@@ -298,6 +298,9 @@ def assemble_html(blocks: list, html = '') -> str:
 def render_html(md: str):
     """Render HTML from markdown string."""
     lines = md.split('\n')
+    for i, line in enumerate(lines): #Indentation is measured in spaces
+        margin = len(line) - len(line.lstrip(' \t'))
+        lines[i] = line[:margin].expandtabs(4) + line[margin:]
     ast, _ = parse_markdown(lines)
     html = assemble_html(ast)
     return html
-- 
2.43.0


From fb88d41beb8b8556d83ec2ae5aa0f1017dcca453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:06 +0000
Subject: [PATCH 115/136] fix: lines before an underlined Markdown title are
 lost

---
 pdfsyntax/markdown.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 79dfd6e..600483e 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -128,23 +128,16 @@ def parse_code_block(lines: list, start_pos = 0, mode = 'indented'):
     return ("PRE", i, res)
 
 
-def parse_title(lines: list, start_pos = 0, mode = 'underlined'):
+def parse_title(lines: list, start_pos = 0, mode = 'prefixed'):
     """Parse header line."""
     res = []
     typ = ''
     i = start_pos
     ln = lines[i].strip('\r')
     indent, bs = indentation_and_first_token(ln)
-    if mode == 'underlined':
-        if lines[i+1][:2] == '==':
-            typ = "H1"
-        elif lines[i+1][:2] == '--':
-            typ = "H2"
-        res.append(ln)
-        i += 1
-    elif mode == 'prefixed':
+    if mode == 'prefixed':
         typ = f"H{len(bs)}"
-        res.append(ln[len(bs)+1:])
+        res.append(ln[indent+len(bs)+1:])
     return (typ, i, res)
 
 
@@ -238,11 +231,11 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i, 'indented')
             blocks.append((typ, res))
-        elif ln and (ln == '=' * len(ln) or ln == '-' * len(ln)):
-            typ, i, res = parse_title(lines, i-1, 'underlined')
-            blocks.append((typ, res))
+        elif b and (ln == '=' * len(ln) or ln == '-' * len(ln)):
+            typ = 'H1' if ln[0] == '=' else 'H2'
+            blocks.append((typ, [''.join(b)]))
             b = []
-        elif bs and bs == '#' * len(bs):
+        elif bs and bs == '#' * len(bs) and len(bs) <= 6:
             flush_p(blocks, b)
             typ, i, res = parse_title(lines, i, 'prefixed')
             blocks.append((typ, res))
-- 
2.43.0


From 6f4044cc2e466908c350155afca9505073b93617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:07 +0000
Subject: [PATCH 116/136] fix: words are glued at the end of Markdown lines

---
 pdfsyntax/markdown.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 600483e..9b5ce4e 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -196,7 +196,7 @@ def parse_table(lines: list, start_pos = 0):
 def flush_p(blocks: list, b: list):
     """Flush paragraph into blocks buffer."""
     if b:
-        blocks.append(('P', [''.join(b)]))
+        blocks.append(('P', [' '.join(b)]))
         b.clear()
     return
 
@@ -233,7 +233,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             blocks.append((typ, res))
         elif b and (ln == '=' * len(ln) or ln == '-' * len(ln)):
             typ = 'H1' if ln[0] == '=' else 'H2'
-            blocks.append((typ, [''.join(b)]))
+            blocks.append((typ, [' '.join(b)]))
             b = []
         elif bs and bs == '#' * len(bs) and len(bs) <= 6:
             flush_p(blocks, b)
@@ -252,7 +252,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             typ, i, res = parse_table(lines, i)
             blocks.append((typ, res))
         else:
-            b.append(line[indent:])
+            b.append(ln[indent:])
             if ln_break:
                 b.append("<br>")
         i += 1
-- 
2.43.0


From d2153ad56f83860a452af73fb4250d6d4e8f00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:07 +0000
Subject: [PATCH 117/136] fix: a Markdown line that begins with an abbreviation
 is taken for a list item

---
 pdfsyntax/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 9b5ce4e..051ffda 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -157,7 +157,7 @@ def parse_list(lines: list, start_pos = 0, mode = 'unordered'):
             if bs != '*' and bs != '+' and bs != '-':
                 break
         elif mode == 'ordered':
-            if not bs or bs[-1] != '.':
+            if bs[-1:] != '.' or not bs[:-1].isdigit():
                 break
         if indent != ref_indent:
             break
@@ -243,7 +243,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_list(lines, i, 'unordered')
             blocks.append((typ, res))
-        elif bs and bs[-1] == '.' and bs[0] >= '0' and bs[0] <= '9':
+        elif bs[-1:] == '.' and bs[:-1].isdigit():
             flush_p(blocks, b)
             typ, i, res = parse_list(lines, i, 'ordered')
             blocks.append((typ, res))
-- 
2.43.0


From 3f548ec94cd30f88538d56fdf0cd9922fe85d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:07 +0000
Subject: [PATCH 118/136] fix: cells and rows of Markdown tables are lost

---
 pdfsyntax/markdown.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 051ffda..0f75f29 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -1,5 +1,7 @@
 """Module pdfsyntax.markdown: Basic html doc generation"""
 
+import re
+
 
 
 def indentation_and_first_token(string: str):
@@ -180,14 +182,14 @@ def parse_table(lines: list, start_pos = 0):
             break
         if indent != ref_indent:
             break
+        cells = ln[indent:].rstrip()[1:].removesuffix('|').split('|')
         if header:
             header = False
-            row = [('TH', [td]) for td in ln[indent:].split('|')[1:-1]]
+            row = [('TH', [td]) for td in cells]
             res.append(('THEAD', [('TR', row)]))
-        else:
-            row = [('TD', [td]) for td in ln[indent:].split('|')[1:-1]]
-            if row[0][1][0][1:3] != '--':
-                tbody.append(('TR' ,row))
+        elif i > start_pos + 1 or not all(re.fullmatch('\\s*:?-+:?\\s*', td) for td in cells):
+            row = [('TD', [td]) for td in cells]
+            tbody.append(('TR' ,row))
         i += 1
     res.append(('TBODY', tbody))
     return ('TABLE', i - 1, res)
-- 
2.43.0


From 5f2c8ac4e0d70758b00519d6117ae377c6c3e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:08 +0000
Subject: [PATCH 119/136] fix: entities are not escaped in Markdown code blocks

---
 pdfsyntax/markdown.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 0f75f29..f070242 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -269,6 +269,7 @@ def tags(string: str) -> str:
 
 def entities(string: str) -> str:
     """Turn special chars into HTML entities."""
+    string = string.replace('&', '&amp;')
     string = string.replace('<', '&lt;')
     string = string.replace('>', '&gt;')
     return string
-- 
2.43.0


From 6eb185b95e3bfc4328590135310ea9c4caa2746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:50 +0000
Subject: [PATCH 120/136] fix: an unfinished Markdown link never ends, and a
 link may be taken for an image

---
 pdfsyntax/markdown.py | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index f070242..4f84a58 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -2,6 +2,8 @@
 
 import re
 
+LINK = re.compile(r'(!?)\[((?:[^\[\]]|\[[^\[\]]*\])*)\]\(([^()]*)\)')
+
 
 
 def indentation_and_first_token(string: str):
@@ -27,31 +29,15 @@ def indentation_and_first_token(string: str):
 
 def link(string: str) -> str:
     """Turn link into HTML tag."""
-    res = ''
-    i = 0
-    j = 0
-    while i < len(string):
-        f = string.find('](', i)
-        if f == -1:
-            break
-        b1 = string.find('[', i) + 1
-        b2 = f
-        p1 = f + 2
-        p2 = string.find(')', f) + 1
-        if string[b1-2] == '!':
-            j = p2
-            res += string[i:b1-2]
-            res += f"<img src='{string[p1:p2-1]}' alt='{string[b1:b2]}'>"
-        else:
-            j = p2
-            res += string[i:b1-1]
-            l = string[p1:p2-1]
-            if l[-3:] == '.md':
-                l = l[:-3] + '.html'
-            res += f"<a href='{l}'>{string[b1:b2]}</a>"
-        i = p2
-    res += string[j:]
-    return res
+    def tag(m):
+        mark, text, target = m[1], m[2], m[3].replace("'", '&#39;')
+        if mark:
+            alt = text.replace("'", '&#39;')
+            return f"<img src='{target}' alt='{alt}'>"
+        if target[-3:] == '.md':
+            target = target[:-3] + '.html'
+        return f"<a href='{target}'>{text}</a>"
+    return LINK.sub(tag, string)
 
 
 def style(string: str) -> str:
-- 
2.43.0


From 6fa9b962d8313dcb434071e28c495206a4eb056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:50 +0000
Subject: [PATCH 121/136] fix: an underscore or an asterisk in Markdown
 emphasis ends it and loses a letter

---
 pdfsyntax/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 4f84a58..ada5749 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -69,12 +69,12 @@ def style(string: str) -> str:
                     current = i+1
                     search = 'TBD'
             elif accu:
-                if c in '*_':
+                if c == search[0] and len(search) < 3:
                     search += c
                 else:
                     accu = False
             elif '*' in search or '_' in search:
-                if c in '*_':
+                if string[i:i+len(search)] == search:
                     text = string[current+len(search):i]
                     if len(search) == 1:
                         res += f"<em>{text}</em>"
-- 
2.43.0


From 3c2b7b79dbb4fc4c47260f09361861b52f470135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:50 +0000
Subject: [PATCH 122/136] fix: the content of Markdown code spans and the
 targets of links are taken for markup

---
 pdfsyntax/markdown.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index ada5749..6755c6c 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -2,6 +2,7 @@
 
 import re
 
+CODE = re.compile(r'`([^`]+)`')
 LINK = re.compile(r'(!?)\[((?:[^\[\]]|\[[^\[\]]*\])*)\]\(([^()]*)\)')
 
 
@@ -27,21 +28,21 @@ def indentation_and_first_token(string: str):
     return i, string[i:].split(' ')[0]
 
 
-def link(string: str) -> str:
+def link(string: str, keep) -> str:
     """Turn link into HTML tag."""
     def tag(m):
         mark, text, target = m[1], m[2], m[3].replace("'", '&#39;')
         if mark:
             alt = text.replace("'", '&#39;')
-            return f"<img src='{target}' alt='{alt}'>"
+            return keep(f"<img src='{target}' alt='{alt}'>")
         if target[-3:] == '.md':
             target = target[:-3] + '.html'
-        return f"<a href='{target}'>{text}</a>"
+        return keep(f"<a href='{target}'>") + text + keep('</a>')
     return LINK.sub(tag, string)
 
 
 def style(string: str) -> str:
-    """Apply HTML spans for emphasis and code."""
+    """Apply HTML spans for emphasis."""
     res = ''
     i = 0
     current = 0
@@ -53,22 +54,13 @@ def style(string: str) -> str:
         if i > 0:
             p = string[i-1]
         if search == 'TBD':
-            if c == '`':
-                search = c
-                res += string[current:i]
-                current = i
-            if c == '*' or (p in ' [>' and c == '_'):
+            if c == '*' or (p in ' [>\x00' and c == '_'):
                 accu = True
                 search = c
                 res += string[current:i]
                 current = i
         else:
-            if search == '`':
-                if c == '`':
-                    res += f"<code>{string[current+1:i]}</code>"
-                    current = i+1
-                    search = 'TBD'
-            elif accu:
+            if accu:
                 if c == search[0] and len(search) < 3:
                     search += c
                 else:
@@ -249,8 +241,17 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
 
 
 def tags(string: str) -> str:
-    """Tranform both style & links."""
-    return style(link(string))
+    """Tranform code spans, links & style."""
+    kept = []
+    def keep(html):
+        kept.append(html)
+        return f"\x00{len(kept)-1}\x00" #No markup is searched in there
+    string = string.replace('\x00', '')
+    string = CODE.sub(lambda m: keep(f"<code>{entities(m[1])}</code>"), string)
+    string = style(link(string, keep))
+    for i in range(len(kept)-1, -1, -1):
+        string = string.replace(f"\x00{i}\x00", kept[i])
+    return string
 
 
 def entities(string: str) -> str:
-- 
2.43.0


From 8a7e0de92e409d7620dc33e419fe4bc3bb2dc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:51 +0000
Subject: [PATCH 123/136] fix: indented Markdown code that begins with > is
 taken for a quote

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 6755c6c..a3bb330 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -16,7 +16,7 @@ def indentation_and_first_token(string: str):
         c = string[i]
         if c == ' ':
             i += 1
-        elif c == '>':
+        elif c == '>' and (blockquote or i < 4): #Or else this is code
             blockquote = True
             i += 1
         elif c == '\t':
-- 
2.43.0


From 6014a6c716848033d008be990771d290e6fbf0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:56:12 +0000
Subject: [PATCH 124/136] fix: tabs of fenced Markdown code are turned into
 spaces

---
 pdfsyntax/markdown.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index a3bb330..af0071b 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -28,6 +28,13 @@ def indentation_and_first_token(string: str):
     return i, string[i:].split(' ')[0]
 
 
+def clean_line(string: str) -> str:
+    """Remove carriage return and turn tabs of the margin into spaces."""
+    string = string.strip('\r')
+    margin = len(string) - len(string.lstrip(' \t'))
+    return string[:margin].expandtabs(4) + string[margin:]
+
+
 def link(string: str, keep) -> str:
     """Turn link into HTML tag."""
     def tag(m):
@@ -90,7 +97,7 @@ def parse_code_block(lines: list, start_pos = 0, mode = 'indented'):
     res = []
     i = start_pos
     while i < len(lines):
-        ln = lines[i].strip('\r')
+        ln = lines[i].strip('\r') if mode == 'fenced' else clean_line(lines[i])
         indent, bs = indentation_and_first_token(ln)
         ln += '\n'
         if mode == 'indented':
@@ -113,7 +120,7 @@ def parse_title(lines: list, start_pos = 0, mode = 'prefixed'):
     res = []
     typ = ''
     i = start_pos
-    ln = lines[i].strip('\r')
+    ln = clean_line(lines[i])
     indent, bs = indentation_and_first_token(ln)
     if mode == 'prefixed':
         typ = f"H{len(bs)}"
@@ -128,10 +135,10 @@ def parse_list(lines: list, start_pos = 0, mode = 'unordered'):
         typ = 'UL'
     elif mode == 'ordered':
         typ = 'OL'
-    ref_indent, _ = indentation_and_first_token(lines[start_pos])
+    ref_indent, _ = indentation_and_first_token(clean_line(lines[start_pos]))
     i = start_pos
     while i < len(lines):
-        ln = lines[i].strip('\r')
+        ln = clean_line(lines[i])
         indent, bs = indentation_and_first_token(ln)
         if mode == 'unordered':
             if bs != '*' and bs != '+' and bs != '-':
@@ -149,12 +156,12 @@ def parse_list(lines: list, start_pos = 0, mode = 'unordered'):
 def parse_table(lines: list, start_pos = 0):
     """Parse consecutive lines for table."""
     res = []
-    ref_indent, _ = indentation_and_first_token(lines[start_pos])
+    ref_indent, _ = indentation_and_first_token(clean_line(lines[start_pos]))
     i = start_pos
     header = True
     tbody = []
     while i < len(lines):
-        ln = lines[i].strip('\r')
+        ln = clean_line(lines[i])
         indent, bs = indentation_and_first_token(ln)
         if not bs or bs[0] != '|':
             break
@@ -188,7 +195,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
     i = start_pos
     while i < len(lines):
         line = lines[i]
-        ln = line.strip('\r')
+        ln = clean_line(line)
         indent, bs = indentation_and_first_token(ln)
         ln_break = True if ln[-2:] == '  ' else False
         if not ln.strip(): #Blank line
@@ -281,9 +288,6 @@ def assemble_html(blocks: list, html = '') -> str:
 def render_html(md: str):
     """Render HTML from markdown string."""
     lines = md.split('\n')
-    for i, line in enumerate(lines): #Indentation is measured in spaces
-        margin = len(line) - len(line.lstrip(' \t'))
-        lines[i] = line[:margin].expandtabs(4) + line[margin:]
     ast, _ = parse_markdown(lines)
     html = assemble_html(ast)
     return html
-- 
2.43.0


From 969eb8db212782712163465881fb76e0a37fcbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:56:42 +0000
Subject: [PATCH 125/136] fix: Markdown emphasis is missed right after another
 one

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index af0071b..7c8bedc 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -82,8 +82,8 @@ def style(string: str) -> str:
                     elif len(search) == 3:
                         res +=  f"<em><strong>{text}</strong></em>"
                     current = i+len(search)
-                    search = 'TBD'
                     i += (len(search)-1)
+                    search = 'TBD'
             else:
                 accu = False
         i += 1
-- 
2.43.0


From 535de61f4c52ddd99910330fdf514fd9688f9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:35 +0000
Subject: [PATCH 126/136] fix: an object at the same place in a new version of
 its object stream is not seen as updated

---
 pdfsyntax/filestruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 652bd5d..4736355 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -362,6 +362,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             m[0] = [m[0], trailer]
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
+        moved = {obj['o_num'] for obj in x[1:] if m[obj['o_num']] and m[obj['o_num']].get('abs_pos') != obj.get('abs_pos')}
         for obj in x[1:]:
             if obj['o_num'] < 0 and m[-1] and m[-1]['abs_pos'] > obj['abs_pos']:
                 continue #The revision of a linearized file ends with its last section
@@ -376,7 +377,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
                 obj['doc_ver'] = doc_ver
             else:
                 old_obj = index[-1][obj['o_num']]
-                if 'abs_pos' in old_obj and 'abs_pos' in obj and old_obj['abs_pos'] == obj['abs_pos']:
+                if 'abs_pos' in old_obj and 'abs_pos' in obj and old_obj['abs_pos'] == obj['abs_pos'] and obj.get('env_num') not in moved:
                     #Special case for hybrid docs where an obj appears both in xref table and stream
                     obj = old_obj
                 else:
-- 
2.43.0


From e26666cd31f0070291a837e233ea1c3306187c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:35 +0000
Subject: [PATCH 127/136] fix: objects of a new version of an object stream are
 marked like those of the old one

---
 pdfsyntax/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 8b53a8e..6cbb5e6 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -199,7 +199,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
     dir_not_indexed = {x for t, _, _, x in check_not_indexed_objects(sections, i) if t == 'DIR'}
-    emb_not_indexed = {(e, x) for t, _, e, x in check_not_indexed_objects(sections, i) if t == 'EMB'}
+    emb_not_indexed = {(n, e, x) for t, n, e, x in check_not_indexed_objects(sections, i) if t == 'EMB'}
     lines = []
     for start_pos, end_pos, region_type, content in sections:
         pos = start_pos
@@ -277,7 +277,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 macro_ind = '-'
                 env_pos, pos, seq_num = end_pos
                 env_iref = f"{env_num},"
-                if (env_num, seq_num) in emb_not_indexed:
+                if (content['o_num'], env_num, seq_num) in emb_not_indexed:
                     st = '?-'
             else:
                 if pos in dir_not_indexed:
-- 
2.43.0


From 3939f0cf0cf94288c07b10670bc1e7dabe0b665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:29:43 +0000
Subject: [PATCH 128/136] fix: the size of the data of a blank document is
 known

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 4736355..d831807 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -60,7 +60,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
 def bdata_dummy(bdata: bytes):
     """ """
     def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
+        if start_pos == None and length == -1:
             return (None, None, None, len(bdata))
         if length == -1:
             length = len(bdata) - start_pos
-- 
2.43.0


From cbbdca1266463fd65b0ef36fed10e0941ea5af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:29:43 +0000
Subject: [PATCH 129/136] fix: pprint_data_history shows the end of each
 revision in its own column

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index d2e77c9..a510719 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -175,7 +175,7 @@ def pprint_data_history(doc: Doc):
     for i in range(ver):
         fd = doc.data[i].get('fdata')
         bd = doc.data[i].get('bdata')
-        cut = doc.data[-i].get('eof_cut')
+        cut = doc.data[i].get('eof_cut')
         _, _, _, sz = fd(None, -1)
         n = fd.__name__
         hist[i]['data_f()'] = n.split('_')[0]
-- 
2.43.0


From 061331df9f4df12ef0a03c9f81b8edb5e42fc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:29:43 +0000
Subject: [PATCH 130/136] fix: pprint_page_hierarchy follows an indirect list
 of kids

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a510719..3b1664c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -204,7 +204,7 @@ def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int
     level += 1
     offset = "    " * level
     if node['/Type'] == '/Pages':
-        kids = node['/Kids']
+        kids = get_object(doc, node['/Kids'])
         accu += f"{offset} /Pages node at {iref}, kids count = {len(kids)}:\n"
         for kid in kids:
             accu, n = pprint_page_hierarchy(doc, kid, n, level, accu)
-- 
2.43.0


From 5a4d96fc3fbd300392b3505f49f79711b5d61773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:29:44 +0000
Subject: [PATCH 131/136] fix: pprint_page_contents prints the contents instead
 of failing

---
 pdfsyntax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 289eb98..13656a4 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -396,9 +396,9 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
     ret = ''
     contents = get_page_contents(doc, page_num)
     for content in contents:
-        f = format_stream_content(content)
+        f = printable_stream_content(content['stream'], escape=False) or ''
         ret += '$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$\n'
-        ret += f
+        ret += f + '\n'
     print(ret)
     return ret
 
-- 
2.43.0


From 03734093b2c33104b35b8ab2cfef1a176039a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:49:19 +0000
Subject: [PATCH 132/136] fix: text layout separates texts that are apart even
 when the column is already passed

---
 pdfsyntax/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index dc35ac6..0f88c71 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -41,7 +41,7 @@ def basic_spatial_layout(text_blocks: list) -> str:
             if line_items[i]['x'] > line_items[i-1]['x'] + line_items[i-1]['width'] + MIN_SEP_DISTANCE:
                 nb_spaces = (int(line_items[i]['x']) - min_x) // char_w
                 offset = len(line_string)
-                line_string += ' ' * (int(nb_spaces) - offset)
+                line_string += ' ' * max(1, int(nb_spaces) - offset)
             line_string += line_items[i]['text']
             i += 1
         if line_string != ' ':
-- 
2.43.0


From 05c3f5b7171277b1a6714180e193d19ce0e115f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:55:44 +0000
Subject: [PATCH 133/136] fix: text layout keeps the blank lines below a line
 at ordinate -1

---
 pdfsyntax/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0f88c71..136e2d7 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -15,12 +15,12 @@ def basic_spatial_layout(text_blocks: list) -> str:
     #print(f"spacing = {spacing}")
     char_w = typical_char_width(text_blocks, fs) or 1
     #print(f"char w = {char_w}")
-    previous_y = -1
+    previous_y = None
     while text_blocks:
         line_string = ''
         line_items = [text_blocks.pop(0)]
         target_y = line_items[0]['y']
-        if previous_y != -1:
+        if previous_y is not None:
             inter_lines = int((previous_y - target_y - spacing / NEWLINE_COEFF) / spacing)
             res += '\n' * inter_lines
         previous_y = target_y
-- 
2.43.0


From 71a787700534f08c1edfcfc133870eeeab65dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:55:46 +0000
Subject: [PATCH 134/136] fix: text layout finds the leftmost abscissa even
 when it is -1

---
 pdfsyntax/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 136e2d7..62aab84 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -86,9 +86,9 @@ def typical_font_size(text_blocks: list) -> float:
 
 def minimum_x(text_blocks: list) -> float:
     """Find the minimum x coordinate of all text blocks."""
-    min_x = -1
+    min_x = None
     for tb in text_blocks:
-        if min_x == -1 or tb['x'] < min_x:
+        if min_x is None or tb['x'] < min_x:
            min_x = tb['x']
     return min_x
 
-- 
2.43.0


From 4d5810f57d52c577a7d0c238fb133a879e9813fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 135/136] fix: a cross-reference stream may be forced on a
 rewound revision

---
 pdfsyntax/docstruct.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3b1664c..b7f4ffe 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -602,7 +602,7 @@ def commit(doc: Doc) -> Doc:
             x_num = len(current_index)
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
-            new_doc.index[-1][0] = dict(new_doc.index[-1][0], xref_stream_num=x_num)
+            new_doc.index[-1][0] = dict(last, xref_stream_num=x_num)
             new_doc.cache.append(None)
             new_index0['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
@@ -727,20 +727,24 @@ def add_object(doc: Doc, new_o, immut=True) -> tuple:
 
 def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDecode') -> tuple:
     """Activate xref stream and optionally add placeholder at the end of current index."""
-    if 'xref_stream_num' in doc.index[-1][0]:
+    sections = doc.index[-1][0] if type(doc.index[-1][0]) == list else [doc.index[-1][0]]
+    if 'xref_stream_num' in sections[-1] and 'xref_table_pos' not in sections[-1]:
         if '/Filter' in doc.cache[0] and doc.cache[0]['/Filter'] == filt:
             return doc
         else:
             new_doc = copy_doc(doc, revision='SAME')
-    elif placeholder:
-        new_doc, new_iref = add_object(doc, {})
-        x_num = int(new_iref.imag)
-        new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
-        new_doc.index[-1][0]['xref_stream_num'] = x_num
     else:
-        new_doc = copy_doc(doc, revision='SAME')
-        new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
-        new_doc.index[-1][0]['xref_stream_num'] = -1
+        if placeholder:
+            new_doc, new_iref = add_object(doc, {})
+            x_num = int(new_iref.imag)
+        else:
+            new_doc = copy_doc(doc, revision='SAME')
+            x_num = -1
+        #A rewound revision may have sections that are not to be written again
+        new_index0 = {k: v for k, v in sections[-1].items() if k not in ('xref_table_pos', 'xref_stream_pos', 'xref_stm')}
+        new_index0['xref_stream_num'] = x_num
+        old = [t for t in sections if 'xref_stream_pos' in t]
+        new_doc.index[-1][0] = old + [new_index0] if old else new_index0
     if filt:
         new_doc.cache[0] = dict(new_doc.cache[0], **{'/Filter': filt})
     return new_doc
-- 
2.43.0


From 3823e40464cf64e611132886c8b7253db45d2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 136/136] fix: a line indented by four columns or more opens no
 code fence

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 7c8bedc..54cea22 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -210,7 +210,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             sub, i = parse_markdown(lines, i, indent + 1)
             blocks.append(('BLOCKQUOTE', sub))
             i -= 1 #This line is not part of it
-        elif bs[:3] == "```":
+        elif bs[:3] == "```" and indent < start_indent + 4:
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i+1, 'fenced')
             blocks.append((typ, res))
-- 
2.43.0

