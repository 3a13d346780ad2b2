From 8e598d84780a1123d9ce0a0cfc2fb3c338e46d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 01/45] fix: zero-length strings still pack and unpack one
 value

---
 structured/serializers/structs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..8e6c790 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -188,6 +188,10 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         if not isinstance(other, int):
             return NotImplemented
         elif other == 0:
+            if combine_strings:
+                # Unlike zero copies, a zero-length string is still a value
+                byte_order, fmt = self._split_format
+                return type(self)(f'0{fmt[-1]}', byte_order)
             return NullSerializer()
         elif other < 0:
             raise ValueError('count must be non-negative')
-- 
2.43.0


From 403cdad52e306deaa8302b210c0686890d3a58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 02/45] fix: length-prefixed char can be packed with a
 non-default byte order

---
 structured/serializers/strings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..fe8e360 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -71,7 +71,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        data_st = (_single_char @ count).with_byte_order(self.st.byte_order)
+        st = self.st + data_st
         self.size = st.size
         return st, count, raw_data
 
-- 
2.43.0


From 5a48227421fa1369db66a664f8a155137b8b744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 03/45] fix: a counted array of basic items takes one value
 next to other attributes

---
 structured/serializers/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..aa77ef3 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
-- 
2.43.0


From 8ef57bda6febbcbede0ad523345ec99c68186d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 04/45] fix: items of a counted array are packed where they are
 unpacked from

---
 structured/serializers/arrays.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index aa77ef3..8aa61cc 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -246,29 +246,27 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
 
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
         items = values[0]
-        count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        # NOTE: The count and the items can't be joined into a single struct,
+        # since alignment bytes might be inserted between them.
+        serializer = self.item_serializer * len(items)
+        self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        self.count_serializer.pack_into(buffer, offset, len(items))
+        serializer.pack_into(buffer, offset + self.count_serializer.size, *items)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        self.count_serializer.pack_write(writable, len(items))
+        serializer.pack_write(writable, *items)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From e3310e05aa36e9391d2d0ddeb1562adf33688c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 05/45] fix: array data size headers are honored for basic
 items

---
 structured/hint_types/arrays.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..02ee042 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -107,6 +107,7 @@ class array(Generic[S, T], list[T], requires_indexing):
         if (
             isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
+            and header.data_size is None
         ):
             if isinstance(header.count, int):
                 return Annotated[
-- 
2.43.0


From 2c2aa9b9959089628ac440dcbaa670dd21fb07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 06/45] fix: tuples are unpacked to actual tuples before the
 next attribute

---
 structured/serializers/tuples.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..d443b70 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -55,13 +55,16 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self._partial_obj = partial_object
         return self
 
-    def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
-
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
-
-    def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+    def unpack(self, buffer: ReadableBuffer) -> tuple[tuple[Unpack[Ts]]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack(buffer)),)
+
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[tuple[Unpack[Ts]]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_from(buffer, offset)),)
+
+    def unpack_read(self, readable: BinaryIO) -> tuple[tuple[Unpack[Ts]]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_read(readable)),)
-- 
2.43.0


From 2a5b0c4d0cd00881265368370e8b07b5b2a95921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 07/45] fix: tuples follow the byte order of their class

---
 structured/serializers/tuples.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index d443b70..fd5f058 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -8,6 +8,7 @@ __all__ = [
 ]
 
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +17,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -29,6 +31,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From 44841623bc14388f132ba63fe59ce722f664a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 08/45] fix: unicode length prefixes follow the byte order of
 their class

---
 structured/serializers/strings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index fe8e360..5d3a5c5 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -370,6 +370,10 @@ class UnicodeSerializer(Serializer[str]):
         self.encoder = encoder
         self.decoder = decoder
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        serializer = self.serializer.with_byte_order(byte_order)
+        return type(self)(serializer, self.encoder, self.decoder)
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-- 
2.43.0


From 4521a9b2c1124e3750ad79b3d4574abc231066b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 09/45] fix: unions follow the byte order of their class

---
 structured/serializers/unions.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..1ba15a3 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -12,7 +12,9 @@ __all__ = [
 ]
 
 import os
+from copy import copy
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -58,6 +61,16 @@ class AUnion(Serializer):
             if serializer.is_final():
                 return serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = copy(self)
+        new.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        if self.default is not None:
+            new.default = self.default.with_byte_order(byte_order)
+        return new
+
     @staticmethod
     def validate_serializer(hint) -> Serializer:
         serializer = annotated.transform(hint)
@@ -190,6 +203,13 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = super().with_byte_order(byte_order)
+        new.read_ahead_serializer = self.read_ahead_serializer.with_byte_order(
+            byte_order
+        )
+        return new
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From a3d751cabb72066d9fd98f3c239164b138950db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 10/45] fix: do not terminate an already terminated char again

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 5d3a5c5..d17c5b2 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -197,7 +197,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
             raw_data += self.terminator
         count = len(raw_data)
-- 
2.43.0


From 582295d6ea54be8e09d93cfaf3f913cd48f47732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 11/45] fix: truncated length-prefixed char data is an error
 with every unpack method

---
 structured/serializers/strings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index d17c5b2..e4befb3 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -113,7 +112,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        st = _single_char @ count
+        return st.unpack(buffer[self.st.size :])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -316,7 +316,8 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        st = _single_char @ count
+        return st.unpack(buffer[size:])
 
     def unpack_from(
         self,
@@ -344,7 +345,8 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        st = _single_char @ count
+        return st.unpack_read(readable)
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From 1146b6c71eee7d0de28c5b0302012da531f36081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 12/45] fix: packing a consuming char into a too small buffer
 is an error

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index e4befb3..5a8ccc5 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -161,7 +161,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        (_single_char @ self.size).pack_into(buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
-- 
2.43.0


From 34fe30b4af5c87588cc125e66a8a59dca4c2e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 13/45] fix: consuming char is unpacked to bytes, not to the
 caller's buffer

---
 structured/serializers/strings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 5a8ccc5..9881624 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -169,12 +169,14 @@ class ConsumingCharSerializer(Serializer[bytes]):
         writable.write(data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
-        self.size = len(buffer)
-        return (buffer,)
+        data = bytes(buffer)
+        self.size = len(data)
+        return (data,)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
-        self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        data = bytes(buffer[offset:])
+        self.size = len(data)
+        return (data,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From 70dd59cf9aa40bd2ff189110687cff385567407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 14/45] fix: array items are decided by the object holding the
 array, not by a nested item

---
 structured/serializers/arrays.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 8aa61cc..26553cb 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -108,8 +108,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -122,8 +123,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         items = values[0]
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -138,9 +140,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -151,9 +154,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -164,9 +168,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
-- 
2.43.0


From 5c1be99c090efd7552943028a82d6ee461b662df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 15/45] fix: a Condition may evaluate to any truthy or falsy
 value

---
 structured/serializers/conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..4d37866 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -64,7 +64,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+        return self.serializers[bool(self.condition(partial_object))]
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
         return self.prepack(partial_object)
-- 
2.43.0


From 2cfe3446b6c18c442a8c2457585895bbb904b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 16/45] fix: serializers needing pre-processing work with a
 Condition

---
 structured/serializers/conditional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 4d37866..1a0bf45 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -64,10 +64,13 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[bool(self.condition(partial_object))]
+        return self._decide(partial_object).prepack(partial_object)
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+        return self._decide(partial_object).preunpack(partial_object)
+
+    def _decide(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
+        return self.serializers[bool(self.condition(partial_object))]
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From b52516bb6b3c85b2e527466174b4fa08af871888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 17/45] fix: the size of conditional attributes is available
 after packing and unpacking

---
 structured/serializers/conditional.py | 46 +++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 1a0bf45..093880b 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -16,6 +16,7 @@ from ..type_checking import (
     BinaryIO,
     Callable,
     Generic,
+    Iterable,
     Optional,
     ReadableBuffer,
     Self,
@@ -24,7 +25,7 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import ByteOrder, Serializer
+from .api import ByteOrder, CompoundSerializer, Serializer
 
 if TYPE_CHECKING:
     # *Only* used for type-hinting, so ok to guard with a TYPE_CHECKING
@@ -47,6 +48,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
             True: serializer,
             False: SkipSerializer(default),
         }
+        self.size = 0
         self.num_values = serializer.num_values
         if serializer.num_values != len(default):
             expected = len(default)
@@ -64,15 +66,53 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self._decide(partial_object).prepack(partial_object)
+        decided = self._decide(partial_object).prepack(partial_object)
+        return _DecidedSerializer(self, decided)
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self._decide(partial_object).preunpack(partial_object)
+        decided = self._decide(partial_object).preunpack(partial_object)
+        return _DecidedSerializer(self, decided)
 
     def _decide(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
         return self.serializers[bool(self.condition(partial_object))]
 
 
+class _DecidedSerializer(Generic[Unpack[Ts]], CompoundSerializer[Unpack[Ts]]):
+    """Forwards to the serializer a Condition decided on, and updates the size
+    of the originating ConditionalSerializer.
+    """
+
+    def __init__(
+        self, origin: ConditionalSerializer[Unpack[Ts]], decided: Serializer[Unpack[Ts]]
+    ) -> None:
+        self.origin = origin
+        self.serializers = (decided,)
+        self.size = 0
+        self.num_values = decided.num_values
+
+    def preprocess(self, partial_object: Any) -> Serializer:
+        return self
+
+    def _iter_packers(
+        self, values: tuple[Unpack[Ts]]
+    ) -> Iterable[tuple[Serializer, tuple[Any, ...], int]]:
+        yield from super()._iter_packers(values)
+        self.origin.size = self.size
+
+    def _iter_unpackers(self) -> Iterable[tuple[Serializer, int]]:
+        yield from super()._iter_unpackers()
+        self.origin.size = self.size
+
+    def unpack(self, buffer: ReadableBuffer) -> tuple[Unpack[Ts]]:
+        return tuple(super().unpack(buffer))
+
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[Unpack[Ts]]:
+        return tuple(super().unpack_from(buffer, offset))
+
+    def unpack_read(self, readable: BinaryIO) -> tuple[Unpack[Ts]]:
+        return tuple(super().unpack_read(readable))
+
+
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     size: int = 0
 
-- 
2.43.0


From 30b89710838f6f2d06bc15cb2e8b722fd24ff631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 18/45] fix: Self attributes can be unpacked in place, and next
 to an attribute named cls

---
 structured/serializers/self.py | 10 +++++++---
 structured/structured.py       |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..7e19af2 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -7,7 +7,7 @@ __all__ = [
 ]
 
 
-from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, annotated
+from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, Union, annotated
 from .api import Serializer
 from .structured import StructuredSerializer
 
@@ -24,8 +24,12 @@ class SelfSerializer(Serializer[Structured]):
     def prepack(self, partial_object: Structured) -> Serializer:
         return StructuredSerializer(type(partial_object))
 
-    def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+    def preunpack(self, partial_object: Union[Structured, _Proxy]) -> Serializer:
+        # Only the create_unpack* methods use a proxy
+        cls = type(partial_object)
+        return StructuredSerializer(
+            getattr(partial_object, '__structured_cls__', cls)
+        )
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..48072ca 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -474,7 +474,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__structured_cls__ = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From f6d81b612fbf39ab3b8ff91eb4e1599821e69c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 19/45] fix: pad can be guarded with a Condition

---
 structured/structured.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 48072ca..44ef2de 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -16,7 +16,12 @@ from functools import reduce
 from itertools import count
 
 from .base_types import ByteOrder, ByteOrderMode
-from .serializers import NullSerializer, Serializer, StructSerializer
+from .serializers import (
+    ConditionalSerializer,
+    NullSerializer,
+    Serializer,
+    StructSerializer,
+)
 from .type_checking import (
     Any,
     BinaryIO,
@@ -44,8 +49,10 @@ from .utils import StructuredAlias, attrgetter, zips
 
 
 def ispad(annotation: Any) -> bool:
-    """Detect pad[x] generated StructSerializers."""
+    """Detect pad[x] generated StructSerializers, conditional or not."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, ConditionalSerializer):
+        serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
         and serializer.num_values == 0
-- 
2.43.0


From 8f7c82b90a3b08f263abf2fc6feff84cb1108445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 20/45] fix: a final default makes a union final

---
 structured/serializers/unions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 1ba15a3..80fbc8d 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -57,8 +57,8 @@ class AUnion(Serializer):
         self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
-        for serializer in self.result_map.values():
-            if serializer.is_final():
+        for serializer in (*self.result_map.values(), self.default):
+            if serializer is not None and serializer.is_final():
                 return serializer.get_final()
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
-- 
2.43.0


From 3620de8b93b4db37d3e1fcc71fc262efe0b5771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 21/45] fix: any single value serializer can be used to read
 ahead

---
 structured/serializers/unions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 80fbc8d..68bee14 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -230,22 +230,25 @@ class LookaheadDecider(AUnion):
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
-- 
2.43.0


From 14d1ff586f6de137dd3200880a08c7331b6935a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 22/45] fix: a Generic class with a byte order can be
 specialized within another class

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..1cbfb9d 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-- 
2.43.0


From 43a0f4592a4bd9fe16e18922d2553cb7ad60f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 23/45] fix: partially specialized Generic classes can be
 further specialized

---
 structured/serializers/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 1cbfb9d..6c6cac4 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -89,7 +89,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
             spec_args = get_args(base_type)
             key = (origin, spec_args)
-            if all(not isinstance(arg, TypeVar) for arg in spec_args):
+            if not any(isinstance(x, (TypeVar, StructuredAlias)) for x in spec_args):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
@@ -106,7 +106,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From 4a8f0cca94cf7f00c642a84e53a7d45568270f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 24/45] fix: TypeVars nested within array and tuple items are
 resolved

---
 structured/hint_types/arrays.py | 2 ++
 structured/hint_types/tuples.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 02ee042..8b4682b 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -96,6 +96,8 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'invalid array header type: {header!r}')
         # Item type checks
         item_serializer = annotated.transform(item_type)
+        if isinstance(item_serializer, StructuredAlias):
+            return StructuredAlias(cls, (header, item_serializer))  # type: ignore
         if not isinstance(item_serializer, Serializer):
             raise TypeError(f'invalid array item type: {item_type!r}')
         elif item_serializer.is_final():
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index b28f4dd..7ab5195 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -13,6 +13,13 @@ def transform_tuple(base_type: Any, hint: Any) -> Any:
             if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
                 return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
+            if any(isinstance(x, StructuredAlias) for x in serializers):
+                # Keep the aliases, so they can be resolved along with this one
+                args = (
+                    x if isinstance(x, StructuredAlias) else arg
+                    for x, arg in zip(serializers, tuple_args)
+                )
+                return StructuredAlias(Tuple, tuple(args))
             if all(isinstance(x, Serializer) for x in serializers):
                 return TupleSerializer(serializers)
 
-- 
2.43.0


From 318384e5cc72db950d72666c09d58513fa593c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 25/45] fix: attributes of a specialized Generic class can be
 redefined

---
 structured/structured.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 44ef2de..275588a 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -391,6 +391,13 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
+                # The class itself may redefine some of the specialized hints
+                redefined = get_annotations(cls)
+                annotations = {
+                    attr: hint
+                    for attr, hint in annotations.items()
+                    if attr not in redefined
+                }
                 update_annotations(cls, annotations)
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
@@ -467,7 +474,13 @@ class Structured(metaclass=StructuredMeta):
             args = get_args(alias)
             args = (tvar_map.get(arg, arg) for arg in args)
             super_annotations = base._get_specialization_hints(*args)
-            all_annotations.append(super_annotations)
+            all_annotations.append(
+                {
+                    attr: hint
+                    for attr, hint in super_annotations.items()
+                    if attr not in cls_annotations
+                }
+            )
         return reduce(operator.or_, reversed(all_annotations))
 
 
-- 
2.43.0


From 8a499f1cf60cbe3d0b72fe790aba8daba1016852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 26/45] fix: TypeVars nested within array items are resolved
 along with the header's

---
 structured/hint_types/arrays.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 8b4682b..14cbf3f 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -90,14 +90,16 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
         header, item_type = args
         # TypeVar checks
-        if isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
+        item_serializer = annotated.transform(item_type)
+        if isinstance(item_serializer, StructuredAlias):
+            item_type = item_serializer
+        if isinstance(header, StructuredAlias) or isinstance(
+            item_type, (TypeVar, StructuredAlias)
+        ):
             return StructuredAlias(cls, (header, item_type))  # type: ignore
         elif not isinstance(header, Header):
             raise TypeError(f'invalid array header type: {header!r}')
         # Item type checks
-        item_serializer = annotated.transform(item_type)
-        if isinstance(item_serializer, StructuredAlias):
-            return StructuredAlias(cls, (header, item_serializer))  # type: ignore
         if not isinstance(item_serializer, Serializer):
             raise TypeError(f'invalid array item type: {item_type!r}')
         elif item_serializer.is_final():
-- 
2.43.0


From acafac5f97ebb93082798b4e1c1c2c51fe49ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 27/45] fix: classes are Generic over the TypeVars of their
 base class

---
 structured/structured.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 275588a..c3932c6 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -441,11 +441,10 @@ class Structured(metaclass=StructuredMeta):
         to be specialized with `args`,
         """
         supers: dict[type[Structured], Any] = {}
-        tvars = ()
+        tvars = getattr(cls, '__parameters__', ())
         for base in getattr(cls, '__orig_bases__', ()):
-            if (origin := get_origin(base)) is Generic:
-                tvars = get_args(base)
-            elif origin and issubclass(origin, Structured):
+            origin = get_origin(base)
+            if origin and origin is not Generic and issubclass(origin, Structured):
                 supers[origin] = base
         tvar_map = dict(zip(tvars, args))
         if not tvar_map:
-- 
2.43.0


From 2a76323fb977340f7fb3b3d08584d575cf754b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 28/45] fix: the offset is optional for every serializer's
 unpack_from

---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 26553cb..be11540 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -150,7 +150,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -221,7 +221,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -281,7 +281,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 8e6c790..8c9fc9f 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -247,7 +247,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
-- 
2.43.0


From 670703cc8cab1c674e353f49244d7addc4dad906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 29/45] fix: the size of tuples holding only a Self is
 available

---
 structured/serializers/tuples.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index fd5f058..77f0d38 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -30,6 +30,7 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         return type(self)((self.serializer.with_byte_order(byte_order),))
@@ -37,24 +38,27 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
@@ -62,14 +66,20 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[tuple[Unpack[Ts]]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack(buffer)),)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_from(
         self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[tuple[Unpack[Ts]]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_from(buffer, offset)),)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[tuple[Unpack[Ts]]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_read(readable)),)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (values,)
-- 
2.43.0


From 7c432a61a7e07476f0cdb0485fa3a23c6bf8f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 30/45] fix: a compound serializer rejects surplus values

---
 structured/serializers/api.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/structured/serializers/api.py b/structured/serializers/api.py
index da865af..5890396 100644
--- a/structured/serializers/api.py
+++ b/structured/serializers/api.py
@@ -271,6 +271,10 @@ class CompoundSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         tracking which values get sent to which, as well as updating the total
         size.
         """
+        if len(values) != self.num_values:
+            raise ValueError(
+                f'expected {self.num_values} values to pack, got {len(values)}'
+            )
         size = 0
         i = 0
         for serializer in self.serializers:
@@ -386,6 +390,10 @@ class _SpecializedCompoundSerializer(
     def _iter_packers(
         self, values: tuple[Unpack[Ts]]
     ) -> Iterable[tuple[Serializer, tuple[Any, ...], int]]:
+        if len(values) != self.num_values:
+            raise ValueError(
+                f'expected {self.num_values} values to pack, got {len(values)}'
+            )
         size = 0
         i = 0
         for serializer in self.serializers:
-- 
2.43.0


From 58d8edd6dacec022686ecea6eace19e5cfbcbeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 31/45] fix: joining custom types with a different byte order
 is an error

---
 structured/serializers/structs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 8c9fc9f..dfa7288 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -284,7 +284,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return super().__add__(other)
         byte_order, lfmt = self._split_format
-        _, rfmt = other._split_format
+        byte_order2, rfmt = other._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{self} + {other}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(self.actions, actions))
         return type(self)(fmt, byte_order, actions)
@@ -297,7 +302,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return NotImplemented
         byte_order, lfmt = other._split_format
-        _, rfmt = self._split_format
+        byte_order2, rfmt = self._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{other} + {self}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(actions, self.actions))
         return type(self)(fmt, byte_order, actions)  # type: ignore
-- 
2.43.0


From fad48867c0bb520186e0b69fc081b49fdaa233e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 32/45] fix: every pad named _ counts with postponed
 annotations

---
 structured/structured.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index c3932c6..61df78f 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -182,13 +182,35 @@ class MetaDict(dict):
     _unique_id: ClassVar[Iterator[int]] = count()
 
     def __setitem__(self, key, value):
-        if key == '_' and ispad(value):
+        if key == '_' and (isinstance(value, str) or ispad(value)):
+            # Strings might turn out to be something else once evaluated, see
+            # `restore_non_pads`.
             # Generate a unique name, we'll use ones that are invalid attribute
             # names so they won't accidentally overwrite anything a use sets.
             key = f'{next(self._unique_id)}_pad_'
         super().__setitem__(key, value)
 
 
+def restore_non_pads(cls: type[Structured]) -> None:
+    """Undo the renaming of variables named `_`, whose string annotations turned
+    out to not be a `pad`.
+    """
+    annotations = get_annotations(cls)
+    unevaluated = {
+        attr
+        for attr, hint in annotations.items()
+        if attr.endswith('_pad_') and isinstance(hint, str)
+    }
+    if unevaluated:
+        typehints = get_type_hints(cls, include_extras=True)
+        non_pads = {attr for attr in unevaluated if not ispad(typehints[attr])}
+        if non_pads:
+            cls.__annotations__ = {
+                '_' if attr in non_pads else attr: hint
+                for attr, hint in annotations.items()
+            }
+
+
 class StructuredMeta(type):
     """Metaclass that simply sets the annotations dict to one that automatically
     renames `_` variables annotated with a `pad` to unique names.
@@ -368,6 +390,7 @@ class Structured(metaclass=StructuredMeta):
             not specified as overridden.
         """
         super().__init_subclass__(**kwargs)
+        restore_non_pads(cls)
         # Check for byte order conflicts
         if base := get_structured_base(cls):
             if (
-- 
2.43.0


From 2c30f58749a3d944673f6cd901d6513f6babc5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 33/45] fix: a consuming char packs bytes only, and to a new
 object

---
 structured/serializers/strings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9881624..456ad74 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -153,8 +153,9 @@ class ConsumingCharSerializer(Serializer[bytes]):
         return self
 
     def pack(self, *values: Unpack[tuple[bytes]]) -> bytes:
-        self.size = len(values[0])
-        return values[0]
+        data = values[0]
+        self.size = len(data)
+        return (_single_char @ self.size).pack(data)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[bytes]]
@@ -166,7 +167,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
         self.size = len(data)
-        writable.write(data)
+        (_single_char @ self.size).pack_write(writable, data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         data = bytes(buffer)
-- 
2.43.0


From a43027e838ba59bc09cca149283cc4a7d6320f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 34/45] fix: malformed huge lengths are rejected right away

---
 structured/serializers/structs.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index dfa7288..ca244f5 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -46,15 +46,20 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
     try:
         return __cache[st.format]
     except KeyError:
-        buffer = bytearray(st.size)
-        # Use struct.Struct so this can be called before full initialization of
-        # subclasses.
-        count = len(struct.Struct.unpack_from(st, buffer))
+        # NOTE: Don't unpack anything to determine this, the size might come from
+        # malformed data and be larger than what fits into memory.
+        count = 0
+        for repeats, kind in _re_items.findall(st.format):
+            if kind in 'sp':
+                count += 1
+            elif kind != 'x':
+                count += int(repeats) if repeats else 1
         __cache[st.format] = count
         return count
 
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
+_re_items: re.Pattern[str] = re.compile(rf'(\d*)([{_struct_chars}])')
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
 _re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
 
@@ -198,9 +203,16 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         elif other == 1:
             return self
         byte_order, fmt = self._split_format
-        fmt = reduce(
-            partial(fold_overlaps, combine_strings=combine_strings), repeat(fmt, other)
-        )
+        item = _re_items.fullmatch(fmt)
+        if item and (combine_strings or item[2] not in 'sp'):
+            # Folds into a single item, directly as `other` might be huge.
+            count = int(item[1]) if item[1] else 1
+            fmt = f'{count * other}{item[2]}'
+        else:
+            fmt = reduce(
+                partial(fold_overlaps, combine_strings=combine_strings),
+                repeat(fmt, other),
+            )
         return type(self)(fmt, byte_order)
 
     def __eq__(self, other: StructSerializer) -> bool:
-- 
2.43.0


From 981275d7abe86920ccfe3c69de243c6e00adcf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 35/45] fix: size of terminated strings unpacked at an offset

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 456ad74..20d5560 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -231,7 +231,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end - offset + 1
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
-- 
2.43.0


From 4e903a2f818feb894c0ec0e0335fec569365a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 36/45] fix: array types carry no stray TypeVar into generic
 arguments

---
 structured/hint_types/arrays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 14cbf3f..5b8b36d 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -20,7 +20,7 @@ from ..serializers import (
     StaticStructArraySerializer,
     StructSerializer,
 )
-from ..type_checking import Annotated, Generic, Optional, S, Self, T, TypeVar, annotated
+from ..type_checking import Annotated, Any, Generic, Optional, S, Self, T, TypeVar, annotated
 from ..utils import StructuredAlias
 from .basic_types import _SizeTypes
 
@@ -115,11 +115,11 @@ class array(Generic[S, T], list[T], requires_indexing):
         ):
             if isinstance(header.count, int):
                 return Annotated[
-                    list[T], StaticStructArraySerializer(header.count, item_serializer)
+                    list[Any], StaticStructArraySerializer(header.count, item_serializer)
                 ]
             else:
                 return Annotated[
-                    list[T], DynamicStructArraySerializer(header.count, item_serializer)
+                    list[Any], DynamicStructArraySerializer(header.count, item_serializer)
                 ]
         # General array serializer
         if isinstance(header.count, int):
@@ -137,6 +137,6 @@ class array(Generic[S, T], list[T], requires_indexing):
             else:
                 header_serializer = header.count + header.data_size
         return Annotated[
-            list[T],
+            list[Any],
             ArraySerializer[T](header_serializer, item_serializer, static_length),
         ]
-- 
2.43.0


From d2d49c24e0385a1bed8352a5f2d287c85b3224c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 37/45] fix: joining struct serializers keeps everything after
 a folded item

---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index ca244f5..19c7d7a 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -61,7 +61,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_items: re.Pattern[str] = re.compile(rf'(\d*)([{_struct_chars}])')
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*)$')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From 4488607ac4fe479d159f3266025c56ad0f87dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 38/45] fix: a tuple of the wrong length is rejected whatever
 its item types

---
 structured/serializers/tuples.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 77f0d38..126de4b 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -42,7 +42,15 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self._partial_obj = partial_object
         return self
 
+    def _check_length(self, values: tuple[Unpack[Ts]]) -> None:
+        if len(values) != self.serializer.num_values:
+            raise ValueError(
+                f'expected a tuple of length {self.serializer.num_values}, got '
+                f'{len(values)}'
+            )
+
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         data = serializer.pack(*values)
         self.size = serializer.size
@@ -51,11 +59,13 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
-- 
2.43.0


From e3547dc0f17bbd95ab353ee78c574a10719b8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 39/45] fix: packing a terminated string never changes the
 value it is given

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 20d5560..176d991 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -202,7 +202,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
         raw_data = values[0]
         if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
-            raw_data += self.terminator
+            raw_data = raw_data + self.terminator
         count = len(raw_data)
         self.size = count
         return _single_char @ count, raw_data
-- 
2.43.0


From 691242cd4620e07d5362eae3212cfb7ea16b4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 40/45] fix: an array whose count exceeds the data is refused
 before preparing for it

---
 structured/serializers/arrays.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index be11540..01ca379 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -273,18 +273,31 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.count_serializer.pack_write(writable, len(items))
         serializer.pack_write(writable, *items)
 
+    def _unpacker(self, count: int, available: int) -> Serializer:
+        # NOTE: The count is read from the data, so make sure it can be right
+        # before preparing to unpack that many items.
+        needed = count * self.item_serializer.size
+        if available < needed:
+            raise ValueError(
+                f'Array of {count} items requires {needed} bytes, only {available} '
+                'available'
+            )
+        return self.item_serializer * count
+
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
-        items = serializer.unpack(buffer[size:])
+        data = buffer[size:]
+        serializer = self._unpacker(count, memoryview(data).nbytes)
+        items = serializer.unpack(data)
         self.size = size + serializer.size
         return (list(items),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
+        available = memoryview(buffer).nbytes - offset - size
+        serializer = self._unpacker(count, available)
         items = serializer.unpack_from(buffer, offset + size)
         self.size = size + serializer.size
         return (list(items),)
@@ -292,7 +305,8 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_read(readable)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
-        items = serializer.unpack_read(readable)
+        data = readable.read(count * self.item_serializer.size)
+        serializer = self._unpacker(count, len(data))
+        items = serializer.unpack(data)
         self.size = size + serializer.size
         return (list(items),)
-- 
2.43.0


From 8bc7cba9633c05bfcacc59d6400d53cf52b9aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 41/45] fix: TypeVars at several levels of a tuple hint are
 resolved

tuple[T, tuple[U, uint8]] was resolved for T only, and the attribute then
silently not serialized. The same happened to tuple[Annotated[T, ...], uint8].
---
 structured/hint_types/arrays.py | 2 +-
 structured/hint_types/tuples.py | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5b8b36d..d4a5973 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -91,7 +91,7 @@ class array(Generic[S, T], list[T], requires_indexing):
         header, item_type = args
         # TypeVar checks
         item_serializer = annotated.transform(item_type)
-        if isinstance(item_serializer, StructuredAlias):
+        if isinstance(item_serializer, (TypeVar, StructuredAlias)):
             item_type = item_serializer
         if isinstance(header, StructuredAlias) or isinstance(
             item_type, (TypeVar, StructuredAlias)
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index 7ab5195..8b2d3fb 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -10,13 +10,11 @@ from ..utils import StructuredAlias
 def transform_tuple(base_type: Any, hint: Any) -> Any:
     if istuple(base_type):
         if tuple_args := get_tuple_args(base_type):
-            if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
-                return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
-            if any(isinstance(x, StructuredAlias) for x in serializers):
+            if any(isinstance(x, (TypeVar, StructuredAlias)) for x in serializers):
                 # Keep the aliases, so they can be resolved along with this one
                 args = (
-                    x if isinstance(x, StructuredAlias) else arg
+                    x if isinstance(x, (TypeVar, StructuredAlias)) else arg
                     for x, arg in zip(serializers, tuple_args)
                 )
                 return StructuredAlias(Tuple, tuple(args))
-- 
2.43.0


From 2f166f3e30b00681ce34568930fe7b54acdd12b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 42/45] fix: whether a hint is accepted depends on its
 arguments only

char[7.0] and Header[7.0] were refused, unless char[7] or Header[7] had been
used before, and unhashable arguments (an encoder instance, or annotations of
no meaning to the library) were refused always.
---
 structured/hint_types/arrays.py  |  8 +++-----
 structured/hint_types/strings.py | 10 +++++-----
 structured/utils.py              | 23 +++++++++++++++++++++--
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index d4a5973..5036553 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,8 +9,6 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache
-
 from ..base_types import requires_indexing
 from ..serializers import (
     ArraySerializer,
@@ -21,7 +19,7 @@ from ..serializers import (
     StructSerializer,
 )
 from ..type_checking import Annotated, Any, Generic, Optional, S, Self, T, TypeVar, annotated
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, hint_cache
 from .basic_types import _SizeTypes
 
 
@@ -52,7 +50,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @cache
+    @hint_cache
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
@@ -84,7 +82,7 @@ class array(Generic[S, T], list[T], requires_indexing):
     """Dispatching class used for typehinting to create ArraySerializers"""
 
     @classmethod
-    @cache
+    @hint_cache
     def __class_getitem__(cls, args) -> type[list[T]]:
         if not isinstance(args, tuple) or len(args) != 2:
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index 8abc533..7d9d900 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import cache, partial
+from functools import partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -27,7 +27,7 @@ from ..serializers import (
     static_char_serializer,
 )
 from ..type_checking import Annotated, TypeVar, Union, annotated, cast
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, hint_cache
 from .basic_types import _SizeTypes, _TSize
 
 
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @cache
+    @hint_cache
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -138,12 +138,12 @@ class unicode(str, requires_indexing):
         count: Union[int, type[_TSize], type[NET]],
         encoding: Union[str, type[EncoderDecoder]] = 'utf8',
     ) -> Serializer[str]:
-        # Double indirection so @cache can see the default args
+        # Double indirection so @hint_cache can see the default args
         # as actual args.
         return cls._create(count, encoding)
 
     @classmethod
-    @cache
+    @hint_cache
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
diff --git a/structured/utils.py b/structured/utils.py
index ad88a0a..e455af9 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -5,7 +5,7 @@ Various utility methods.
 import operator
 import sys
 import warnings
-from functools import wraps
+from functools import lru_cache, wraps
 
 from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar
 
@@ -50,6 +50,24 @@ else:
     zips = zip
 
 
+def hint_cache(fn: Callable[..., T]) -> Callable[..., T]:
+    """Cache for functions creating type hints.  Unlike `functools.cache`,
+    arguments of different types are different (`3`, `3.0` and `True`), and
+    unhashable arguments are accepted, they're just not cached.
+    """
+    cached = lru_cache(maxsize=None, typed=True)(fn)
+
+    @wraps(fn)
+    def wrapper(*args):
+        try:
+            hash(args)
+        except TypeError:
+            return fn(*args)
+        return cached(*args)
+
+    return wrapper
+
+
 def attrgetter(*attr_names: str) -> Callable[[Any], tuple[Any, ...]]:
     """Create an operator.attrgetter-like callable.  The differences are if no
     attributes are specified, the callable returns and empty tuple, and a single
@@ -89,7 +107,8 @@ class StructuredAlias:
         """
         resolved = []
         for arg in self.args:
-            arg = tvar_map.get(arg, arg)
+            if isinstance(arg, TypeVar):
+                arg = tvar_map.get(arg, arg)
             if isinstance(arg, StructuredAlias):
                 arg = arg.resolve(tvar_map)
             resolved.append(arg)
-- 
2.43.0


From ffbf661c30d9ff9670b758d8988315fb2d4c66df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 43/45] fix: sizes of serializers that prepack or preunpack
 returned

A class with a single serializer, whose prepack or preunpack returns another one
(as documented for user-written serializers), kept reporting the size of the
original.  Where the class was an attribute or array item, what followed was read
from the wrong place.
---
 structured/structured.py | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 61df78f..8ddf34d 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -12,6 +12,7 @@ __all__ = [
 ]
 
 import operator
+from contextlib import suppress
 from functools import reduce
 from itertools import count
 
@@ -254,15 +255,24 @@ class Structured(metaclass=StructuredMeta):
         else:
             return self.serializer.preunpack(self)
 
+    @staticmethod
+    def _update_size(serializer: Serializer, size: int) -> None:
+        """Make `serializer` report the size of an operation that was done by the
+        serializer it returned from `prepack` or `preunpack`.
+        """
+        if getattr(serializer, 'size', None) != size:
+            with suppress(AttributeError):
+                serializer.size = size
+
     def unpack(self, buffer: ReadableBuffer) -> None:
         """Unpack values from the bytes-like `buffer` and assign them to members
 
         :param buffer: A bytes-like object.
         """
-        for attr, value in zips(
-            self.attrs, self._serializer(False).unpack(buffer), strict=True
-        ):
+        serializer = self._serializer(False)
+        for attr, value in zips(self.attrs, serializer.unpack(buffer), strict=True):
             setattr(self, attr, value)
+        self._update_size(self.serializer, serializer.size)
 
     def unpack_read(self, readable: BinaryIO) -> None:
         """Read data from a file-like object and unpack it into values, assigned
@@ -270,10 +280,12 @@ class Structured(metaclass=StructuredMeta):
 
         :param readable: readable file-like object.
         """
+        serializer = self._serializer(False)
         for attr, value in zips(
-            self.attrs, self._serializer(False).unpack_read(readable), strict=True
+            self.attrs, serializer.unpack_read(readable), strict=True
         ):
             setattr(self, attr, value)
+        self._update_size(self.serializer, serializer.size)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> None:
         """Unpack values from a `buffer` implementing the buffer protocol
@@ -283,14 +295,19 @@ class Structured(metaclass=StructuredMeta):
         :param buffer: buffer to unpack from.
         :param offset: position in the buffer to start from.
         """
+        serializer = self._serializer(False)
         for attr, value in zips(
-            self.attrs, self._serializer(False).unpack_from(buffer, offset), strict=True
+            self.attrs, serializer.unpack_from(buffer, offset), strict=True
         ):
             setattr(self, attr, value)
+        self._update_size(self.serializer, serializer.size)
 
     def pack(self) -> bytes:
         """Pack the class's values according to the format string."""
-        return self._serializer(True).pack(*type(self)._attrgetter(self))
+        serializer = self._serializer(True)
+        data = serializer.pack(*type(self)._attrgetter(self))
+        self._update_size(self.serializer, serializer.size)
+        return data
 
     def pack_write(self, writable: BinaryIO) -> None:
         """Pack the class's values according to the format string, then write
@@ -298,7 +315,9 @@ class Structured(metaclass=StructuredMeta):
 
         :param writable: writable file-like object.
         """
-        self._serializer(True).pack_write(writable, *type(self)._attrgetter(self))
+        serializer = self._serializer(True)
+        serializer.pack_write(writable, *type(self)._attrgetter(self))
+        self._update_size(self.serializer, serializer.size)
 
     def pack_into(self, buffer: WritableBuffer, offset: int = 0):
         """Pack the class's values according to the format string, pkacing the
@@ -307,7 +326,9 @@ class Structured(metaclass=StructuredMeta):
         :param stream: buffer to pack into.
         :param offset: position in the buffer to start writing data to.
         """
-        self._serializer(True).pack_into(buffer, offset, *type(self)._attrgetter(self))
+        serializer = self._serializer(True)
+        serializer.pack_into(buffer, offset, *type(self)._attrgetter(self))
+        self._update_size(self.serializer, serializer.size)
 
     # Creation of objects from unpackable types
     @classmethod
@@ -328,6 +349,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack(buffer))
+        cls._update_size(cls.serializer, serializer.size)
         return cls(*proxy)
 
     @classmethod
@@ -341,6 +363,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_from(buffer, offset))
+        cls._update_size(cls.serializer, serializer.size)
         return cls(*proxy)
 
     @classmethod
@@ -353,6 +376,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_read(readable))
+        cls._update_size(cls.serializer, serializer.size)
         return cls(*proxy)
 
     def __str__(self) -> str:
-- 
2.43.0


From 1a12751ea6dd0c6492da46a22ff2f9bae8ef1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 44/45] fix: the size of an unpacked object does not depend on
 its __post_init__

An object packing or unpacking others of its class in __post_init__ (its children,
say) changed the size its class reported, and what followed the object in an array
or another class was read from the wrong place.
---
 structured/serializers/strings.py |  4 ++++
 structured/structured.py          | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 176d991..d8eaad6 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -386,6 +386,10 @@ class UnicodeSerializer(Serializer[str]):
     def size(self) -> int:
         return self.serializer.size
 
+    @size.setter
+    def size(self, size: int) -> None:
+        self.serializer.size = size
+
     def pack(self, *values: Unpack[tuple[str]]) -> bytes:
         return self.serializer.pack(self.encoder(values[0]))
 
diff --git a/structured/structured.py b/structured/structured.py
index 8ddf34d..8f72bc2 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -339,6 +339,15 @@ class Structured(metaclass=StructuredMeta):
         proxy = _Proxy(cls)
         return proxy, cls.serializer.preunpack(proxy)
 
+    @classmethod
+    def _create(cls, proxy: _Proxy, size: int) -> Self:
+        """Create a new instance from the values unpacked to `proxy`."""
+        instance = cls(*proxy)
+        # NOTE: Only now, since `__post_init__` might have packed or unpacked other
+        # objects using this class's serializer.
+        cls._update_size(cls.serializer, size)
+        return instance
+
     @classmethod
     def create_unpack(cls, buffer: ReadableBuffer) -> Self:
         """Create a new instance, initialized with values unpacked from a
@@ -349,8 +358,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack(buffer))
-        cls._update_size(cls.serializer, serializer.size)
-        return cls(*proxy)
+        return cls._create(proxy, serializer.size)
 
     @classmethod
     def create_unpack_from(cls, buffer: ReadableBuffer, offset: int = 0) -> Self:
@@ -363,8 +371,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_from(buffer, offset))
-        cls._update_size(cls.serializer, serializer.size)
-        return cls(*proxy)
+        return cls._create(proxy, serializer.size)
 
     @classmethod
     def create_unpack_read(cls, readable: BinaryIO) -> Self:
@@ -376,8 +383,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_read(readable))
-        cls._update_size(cls.serializer, serializer.size)
-        return cls(*proxy)
+        return cls._create(proxy, serializer.size)
 
     def __str__(self) -> str:
         """Descriptive representation of this class."""
-- 
2.43.0


From 3d6ede4c818280d41fbe506b6d87d4bbeacee8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 45/45] fix: deciders may use the library on other objects of
 the class

The alternative of a union was prepared for the object the union serializer was
last used for: another one, if the decider (or the post-init hook of what was read
ahead) packed or unpacked an object of the same class.
---
 structured/serializers/unions.py | 41 ++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 68bee14..bbd6010 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -141,7 +141,10 @@ class LookbackDecider(AUnion):
         self.decider = decider
 
     def decide(self, packing: bool) -> Serializer:
-        result = self.decider(self._partial_object)
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        # NOTE: The decider might have used this serializer for other objects.
+        self._partial_object = partial_object
         return self.get_serializer(result, packing)
 
     def pack(self, *values: Any) -> bytes:
@@ -210,46 +213,58 @@ class LookaheadDecider(AUnion):
         )
         return new
 
+    def _write_serializer(self) -> Serializer:
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        # NOTE: The decider might have used this serializer for other objects.
+        self._partial_object = partial_object
+        return self.get_serializer(result, True)
+
+    def _read_serializer(self, partial_object: Any, result: Any) -> Serializer:
+        # NOTE: Reading ahead might have used this serializer for other objects.
+        self._partial_object = partial_object
+        return self.get_serializer(result, False)
+
     def pack(self, *values: Any) -> bytes:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self._write_serializer()
         data = serializer.pack(*values)
         self.size = serializer.size
         return data
 
     def pack_into(self, buffer: WritableBuffer, offset: int, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self._write_serializer()
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self._write_serializer()
         serializer.pack_write(writable, *values)
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
-        serializer = self.get_serializer(result, False)
+        serializer = self._read_serializer(partial_object, result)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
-        serializer = self.get_serializer(result, False)
+        serializer = self._read_serializer(partial_object, result)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_read(readable))[0]
         readable.seek(-read_ahead.size, os.SEEK_CUR)
-        serializer = self.get_serializer(result, False)
+        serializer = self._read_serializer(partial_object, result)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
         return values
-- 
2.43.0

