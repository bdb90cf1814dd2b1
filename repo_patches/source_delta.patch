From 88118381c8e96a85f12c988eb76c918ba8539b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 01/70] fix: unpack 8-byte floats as doubles

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..d5d123f 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -165,7 +165,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From 80610bf6e92c85dd4ce7ea7f83f709ad885ed5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 02/70] fix: buffer_field with byte_size keeps its type

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..9db06dd 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -276,7 +276,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From 2516f3a36b031ade3a31edfc7dfa33872dcd3190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 03/70] fix: string list elements are padded and stripped with
 bytes, not text

---
 src/infi/instruct/buffer/macros.py    | 2 +-
 src/infi/instruct/buffer/serialize.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9db06dd..9bb7803 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -67,7 +67,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d5d123f..5ebe98c 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -176,7 +176,7 @@ JUSTIFY_OPTIONS = ('left', 'right', 'center')
 
 
 def str_args_from_kwargs(kwargs):
-    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=' ', justify='left'), kwargs)
+    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=b' ', strip=b'\x00', justify='left'), kwargs)
     assert_kwarg_enum(args, 'justify', JUSTIFY_OPTIONS)
     assert len(args['padding']) == 1, "padding must be exactly one character but instead got {0!r}".format(args['padding'])
     return args
-- 
2.43.0


From 6c6dd1c25d9ecec8d269e838d88e9f91af550ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 04/70] fix: unpacking a sized string consumes its size, not
 the rest of the buffer

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 5ebe98c..71f0d95 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -216,7 +216,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, (len(buffer) if byte_size is None else byte_size)
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From c82004ea9eb5e555d6dacc0ee10b17069a27810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 05/70] fix: assign the result of set_after_unpack to the
 field's attribute

---
 .../instruct/buffer/field_reference_builder.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..35ccf5f 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -223,15 +223,15 @@ class FieldReferenceBuilder(object):
                                                          self.field.attr_name_ref)
 
     def set_field_unpack_value_ref(self):
-        field_unpack_ref = FieldUnpackerReference(self.field.unpack_ref)
+        unpack_value_ref = FieldUnpackerReference(self.field.unpack_ref)
         if self.set_after_unpack is not None:
-            if not isinstance(self.set_after_unpack, Reference):
-                unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
-        else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+            if isinstance(self.set_after_unpack, Reference):
+                unpack_value_ref = self.set_after_unpack
+            else:
+                unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, unpack_value_ref)
 
-        self.field.unpack_value_ref = unpack_value_ref
+        self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
+                                                          self.field.attr_name_ref, unpack_value_ref)
 
     def set_field_unpack_after(self):
         if self.unpack_after is None:
-- 
2.43.0


From 4fa52bb0d08d17ed35349b41b63ac26d2da5f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 06/70] fix: total_size does not count fields that are not
 packed

---
 src/infi/instruct/buffer/reference/total_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..83c1b01 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -16,7 +16,7 @@ class TotalSizeReference(Reference):
             return size
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From f4f2b8f075b1118b8e8ad09921a6e1a6790a0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 07/70] fix: total size is a whole number of bytes even if the
 last field ends inside a byte

---
 src/infi/instruct/buffer/reference/total_size.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 83c1b01..8c82860 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -1,4 +1,5 @@
 import itertools
+import math
 
 from infi.instruct.buffer.range import SequentialRangeList
 
@@ -13,7 +14,7 @@ class TotalSizeReference(Reference):
         # First, we'll try a shortcut - if the size is static, we'll return that since we precalculated it.
         size = getattr(type(ctx.obj), 'byte_size', None)
         if size is not None:
-            return size
+            return int(math.ceil(size))
 
         if ctx.is_pack():
             lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields if field.pack_if.deref(ctx)]
@@ -26,7 +27,7 @@ class TotalSizeReference(Reference):
             result = max(self._unpack_position_list_for_field(ctx, field) for field in ctx.fields)
 
         assert result is not None
-        return result
+        return int(math.ceil(result))
 
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
-- 
2.43.0


From be5ce381c67dab29578297c6ab1543d734e7eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 08/70] fix: byte size and repr of a Buffer subclass take
 inherited fields into account

---
 src/infi/instruct/buffer/buffer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..18e27b9 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -62,8 +62,14 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
         setattr(new_cls, '__fields__', fields)
+        if 'byte_size' not in attrs:
+            all_fields = [field for base in new_cls.mro() for field in base.__dict__.get('__fields__', [])]
+            byte_size = cls.calc_byte_size(name, all_fields)
+            inherited_byte_size = getattr(new_cls, 'byte_size', None)
+            if inherited_byte_size is not None and (byte_size is not None or not fields):
+                byte_size = max(byte_size or 0, inherited_byte_size)
+            setattr(new_cls, 'byte_size', byte_size)
         return new_cls
 
     @classmethod
@@ -150,7 +156,7 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
@@ -164,6 +170,6 @@ class Buffer(object):
         return set(field.attr_name() for field in self._all_fields())
 
     def __repr__(self):
-        fields = type(self).__fields__
+        fields = self._all_fields()
         repr_fields = ["{0}={1!r}".format(field.attr_name(), getattr(self, field.attr_name())) for field in fields]
         return "{0}.{1}({2})".format(type(self).__module__, type(self).__name__, ", ".join(repr_fields))
-- 
2.43.0


From 7fc7b904f7a0597e54f8337c1dfbed5dac9419a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 09/70] fix: Buffer instances do not share mutable default
 values

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 18e27b9..03d8b45 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,3 +1,4 @@
+import copy
 import math
 import itertools
 from six import add_metaclass
@@ -103,7 +104,7 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                setattr(self, field.attr_name(), copy.deepcopy(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From 5bb14d1e04241d78046ef1d666fdbb806053a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 10/70] fix: .bits[n] never selects a bit outside its parent
 range

---
 src/infi/instruct/buffer/range.py           | 2 +-
 src/infi/instruct/buffer/reference/range.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..94b7af9 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -182,7 +182,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
         return None
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..34cd7aa 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -118,10 +118,11 @@ class BitNumericRangeReference(BitRangeReference):
         byte_offset = float(self.ref.deref(ctx)) / 8
         assert byte_offset >= 0
 
-        i, sum_length = range_list.find_relative_container_index(byte_offset)
-        if i is None:
+        container = range_list.find_relative_container_index(byte_offset)
+        if container is None:
             raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(self.ref.deref(ctx),
                                                                                               range_list))
+        i, sum_length = container
         return SequentialRangeList([SequentialRange(byte_offset - sum_length + range_list[i].start,
                                                     byte_offset - sum_length + range_list[i].start + BIT)])
 
-- 
2.43.0


From 7dcfe70e3b5aba2b3860029927c39538abd75d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 11/70] fix: .bits[a:b] over several ranges selects the right
 bits and supports open slices

---
 src/infi/instruct/buffer/reference/range.py | 32 ++++++++++++---------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 34cd7aa..28248ae 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -145,22 +145,23 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        bit_range = SequentialRange(float(start or 0) / 8, float(stop) / 8 if stop is not None else None)
 
-        i, sum_length = range_list.find_relative_container_index(bit_range.start)
-        if i is None:
-            raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(
-                int(bit_range.start * 8), range_list))
+        bit_range_skip_len = bit_range.start
+        bit_range_remaining_len = bit_range.byte_length()  # None if all the bits up to the end are selected
+        result = []
+        for r in range_list:
+            if not r.is_open() and r.byte_length() <= bit_range_skip_len:
+                bit_range_skip_len -= r.byte_length()
+                continue
 
-        if bit_range.is_open():
-            subrange_start = range_list[i].start + bit_range.start - sum_length
-            return SequentialRangeList([SequentialRange(subrange_start, range_list[i].stop)] + range_list[i + 1:])
+            subrange_start = r.start + bit_range_skip_len
+            bit_range_skip_len = 0
+            if bit_range_remaining_len is None:
+                result.append(SequentialRange(subrange_start, r.stop))
+                continue
 
-        bit_range_remaining_len = bit_range.byte_length()
-        result = []
-        for i in range(i, len(range_list)):
-            r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
             if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
                 subrange_stop = subrange_start + bit_range_remaining_len
             else:
@@ -172,9 +173,12 @@ class BitSliceRangeReference(BitRangeReference):
             if bit_range_remaining_len == 0:
                 break
 
-        if bit_range_remaining_len > 0:
+        if bit_range_skip_len > 0 or bit_range_remaining_len:
             raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
 
+        if not result:  # an empty selection at the very end of the parent range
+            result.append(SequentialRange(range_list[-1].stop, range_list[-1].stop))
+
         return SequentialRangeList(result)
 
     def __safe_repr__(self):
-- 
2.43.0


From 52b8cdb1fc099598dee7868f88c1d5bf7c368320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 12/70] fix: range ordering is total and overlap checks do not
 depend on the order or on empty ranges

---
 src/infi/instruct/buffer/range.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 94b7af9..3517146 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -87,9 +87,7 @@ class SequentialRange(SequentialRangeMixin):
         :returns: True if there's an overlap (non-empty intersection) between two ranges
         :rtype: bool
         """
-        a, b = (self, other) if self.start <= other.start else (other, self)
-        a_imag_stop = a.to_closed(sys.maxsize).stop
-        return a_imag_stop > b.start
+        return max(self.start, other.start) < min(self.to_closed(sys.maxsize).stop, other.to_closed(sys.maxsize).stop)
 
     def contains(self, point):
         """
@@ -104,7 +102,7 @@ class SequentialRange(SequentialRangeMixin):
         return self.start == other.start and self.stop == other.stop
 
     def __lt__(self, other):
-        return self.start < other.start and self.to_closed(sys.maxsize).stop < other.to_closed(sys.maxsize).stop
+        return ((self.start, self.to_closed(sys.maxsize).stop) < (other.start, other.to_closed(sys.maxsize).stop))
 
     def __repr__(self):
         return "SequentialRange(start={0!r}, stop={1!r})".format(self.start, self.stop)
@@ -138,7 +136,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         :returns: True if one or more range in the list overlaps with another
         :rtype: bool
         """
-        sorted_list = sorted(self)
+        sorted_list = sorted(r for r in self if r.byte_length() != 0)
         for i in range(0, len(sorted_list) - 1):
             if sorted_list[i].overlaps(sorted_list[i + 1]):
                 return True
-- 
2.43.0


From e007787842de863b51be234b8892fcd66c2568ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 13/70] fix: assigning a small int to a wide bit range clears
 the rest of the range

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..96939f7 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -264,12 +264,12 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
                 # bits that he specified we shout.
                 raise ValueError("trying to assign int {0} with bit length {1} to bit length {2}".format(value,
                                  bit_length, int(int_value_len * 8)))
+            value_len = max(float(bit_length) / 8, int_value_len)
             l = []
-            for n in range(0, bit_length, 8):
+            for n in range(0, int(value_len * 8), 8):
                 l.append(value % 256)
                 value //= 256
             value = l
-            value_len = max(float(bit_length) / 8, int_value_len)
         else:
             raise TypeError("value must be iterable or int")
         return value, value_len
-- 
2.43.0


From 9a9a738a1740267e4bfd48124003023cf9317395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 14/70] fix: refuse negative ints and non-byte items assigned
 to a bit range

---
 src/infi/instruct/buffer/io_buffer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 96939f7..8fd3b7d 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -251,13 +251,13 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
         value_len = 0
         if isinstance(value, BitView):
             value_len = value.length()
-        elif isinstance(value, abc.Sized):
-            value_len = len(value)
-        elif isinstance(value, abc.Iterable):
+        elif isinstance(value, (abc.Sized, abc.Iterable)):
             value = bytearray(value)
             value_len = len(value)
         elif isinstance(value, integer_types):
             # Short circuit: make bit ranges accept int values by their bit length.
+            if value < 0:
+                raise ValueError("trying to assign negative int {0} to a bit range".format(value))
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
-- 
2.43.0


From bc138b46f8eb3517e392b44d6ac5e5fe36e0b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 15/70] fix: inserting, zero-filling and deleting at unaligned
 bit offsets keeps all other bits intact

---
 src/infi/instruct/buffer/io_buffer.py | 68 ++++++++++-----------------
 1 file changed, 24 insertions(+), 44 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 8fd3b7d..cb1ce26 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -139,9 +139,9 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
 
     def extend(self, other):
         if isinstance(other, BitView):
-            offset = self.stop
-            self._insert_zeros(offset, offset + other.length())
-            self._copy_to_range(offset, other, other.length())
+            offset, length = self.stop, other.length()
+            self._insert_zeros(offset, offset + length)
+            self._copy_to_range(offset, other, length)
         else:
             super(BitAwareByteArray, self).extend(other)
 
@@ -183,57 +183,37 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def _copy_to_range(self, offset, iterable, iterable_len):
         remaining_bit_len = int(iterable_len * 8)
         for byte in iterable:
+            if remaining_bit_len <= 0:
+                break
             self._set_byte_bits(offset, min(remaining_bit_len, 8), byte)
             offset += 1
             remaining_bit_len -= 8
 
     def _del_range(self, start, stop):
         assert stop >= start
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can remove whole bytes from the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            del self.buffer[start_byte:stop_byte]
-            self.stop -= whole_byte_delta
-            stop -= whole_byte_delta
-
-        # Here we have at most 8 bits to remove, so we need to "shift" the entire array.
-        if stop > start:
-            ofs = start
-            bit_len_frac = stop - start
-            while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
-                ofs += 1
-            self.stop -= bit_len_frac
-            if int(math.ceil(self.stop)) < len(self.buffer):
-                del self.buffer[-1]
+        self._resize_range(start, stop, 0)
 
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
         assert start <= self.stop
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
-            self.stop += whole_byte_delta
-            stop -= whole_byte_delta
-
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
-            while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
-                self.buffer.append(0)
-
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
-            self.stop += bit_len_frac
+        self._resize_range(start, start, stop - start)
+
+    def _resize_range(self, start, stop, new_len):
+        """
+        Replaces the bits from start to stop with new_len (fractional) zero bytes, moving the bits that follow. Bytes of
+        the underlying buffer that are past the end of this array keep following it.
+        """
+        tail = self._get_range(stop, self.stop)
+        outside = self.buffer[int(math.ceil(self.stop)):]
+        self.stop += new_len - (stop - start)
+
+        del self.buffer[int(math.ceil(start)):]
+        _, bit_ofs = float_to_byte_bit_pair(start)
+        if bit_ofs > 0:
+            self.buffer[-1] &= (1 << bit_ofs) - 1
+        self.buffer.extend(bytearray(int(math.ceil(self.stop)) - len(self.buffer)))
+        self._copy_to_range(start + new_len, tail, tail.length())
+        self.buffer.extend(outside)
 
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
-- 
2.43.0


From e106c0fd2322d8c9cd975eb23507adbbee3cb37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 16/70] fix: indexing a bit view never reaches bits past its
 end

---
 src/infi/instruct/buffer/io_buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index cb1ce26..f9e2145 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -98,8 +98,10 @@ class BitView(abc.Sequence):
             stop = self._translate_offset(key.stop if key.stop is not None else self.length())
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
+            if key >= self.length() or key < -self.length():
+                raise IndexError("index {0} out of range".format(key))
             start = self._translate_offset(key)
-            stop = start + 1
+            stop = min(start + 1, self.stop)
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
-- 
2.43.0


From 2f09c9d28f25a7e0a9b9ca62128aba99c411dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 17/70] fix: bytearray of a bit view does not include bits past
 its end

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index f9e2145..44746c8 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,7 +62,7 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
+        if int(self.start) == self.start and int(self.stop) == self.stop:
             return self.buffer[int(self.start):int(math.ceil(self.stop))]
         else:
             return bytearray(list(self))  # very inefficient.
-- 
2.43.0


From aa6630ad54243bddbff2ac0c5bd86c920510a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 18/70] fix: refuse to unpack an int from less data than its
 size

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 71f0d95..5c31813 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -89,6 +89,8 @@ def pack_int(value, **kwargs):
 
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
+    if buffer.length() < byte_size:
+        raise ValueError("int byte_size is {0} but got buffer with length {1}".format(byte_size, buffer.length()))
     result = 0
     l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
     for b in l:
-- 
2.43.0


From 829748528a879446ae075fde09e82ab0fa5615d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 19/70] fix: big endian int fields of 3, 5, 6, 7 and more than
 8 bytes are packed big endian

---
 src/infi/instruct/buffer/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 5c31813..d931b07 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -52,10 +52,17 @@ ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little'
 #
 
 
+def is_big_endian_bytes(byte_size, kwargs):
+    """Byte order applies only to ints made of whole bytes."""
+    return kwargs.get("endian") == "big" and int(byte_size) == byte_size
+
+
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
+    if is_big_endian_bytes(byte_size, kwargs):
+        return bytearray(reversed(result))
     return result
 
 
@@ -92,7 +99,7 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
     if buffer.length() < byte_size:
         raise ValueError("int byte_size is {0} but got buffer with length {1}".format(byte_size, buffer.length()))
     result = 0
-    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
+    l = buffer[0:byte_size] if is_big_endian_bytes(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
         result *= 256
         result += b
-- 
2.43.0


From b995453953977ffa27e44696ac8380a83e5c702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 20/70] fix: VarSizeString default padding is bytes

---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From e5ddd740485f3a67fefb41850079b526ba621a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 21/70] fix: fixed size strings are padded on the requested
 side and never exceed their size

---
 src/infi/instruct/string.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..41067a8 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -25,9 +25,9 @@ def _pad(obj, size, dir, padding):
         return obj
 
     if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
-        return obj + padding[0] * pad_len
+        return obj + pad(padding[0], pad_len)
     elif dir == PADDING_DIRECTION_LEFT:
-        return (padding[0] * pad_len) + obj
+        return pad(padding[0], pad_len) + obj
     else:
         # PADDING_DIRECTION_NONE
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
@@ -69,9 +69,7 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
-        stream.write(stripped_obj)
-        if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+        stream.write(_pad(stripped_obj, self.size, self.padding_direction, self.padding))
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From 2cdaf2a6f25d889216ee7d7cd226e3a980dc6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 22/70] fix: SumSizeArray can be read from streams that have no
 tell()

---
 src/infi/instruct/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..1a44447 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -59,7 +59,7 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element_size = stream.tell() if has_tell else 0
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From 50b032f52d9a0373613d0af080e3a087685caa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 23/70] fix: refuse to write a fixed size array with a wrong
 number of elements

---
 src/infi/instruct/array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 1a44447..70da46c 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .errors import InvalidValueError
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -41,6 +42,11 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InvalidValueError("fixed-size array must have %d elements but instead got %d" % (self.size, len(obj)))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From 8f523e2c020eef944bd6d5c8435ab18b95b5ace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 24/70] fix: structs with constructor arguments and numeric
 fields can be read

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index c7af8e3..f0c1e11 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -17,7 +17,7 @@ class NumericMarshal(FixedSizer, Marshal):
         self.type = type
         self.size = struct.calcsize(format_string)
 
-    def create_from_stream(self, stream, context=EMPTY_CONTEXT):
+    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         packed_value = stream.read(self.size)
         if len(packed_value) < self.size:
             raise NotEnoughDataError(expected=self.size, actually_read=len(packed_value))
-- 
2.43.0


From f93cef33e46e84005b6753de5a839c15d75374f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 25/70] fix: Struct.sizeof measures the object it is given

---
 src/infi/instruct/struct/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..b47cf47 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -186,7 +186,7 @@ class Struct(object):
 
     @classmethod
     def sizeof(cls, obj):
-        return cls._container_.sizeof(obj)
+        return type(obj)._container_.sizeof(obj)
 
     @classmethod
     def write_to_string(cls, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 659c5e7bd1dc71c35360a1717a9c9ad1c485d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 26/70] fix: StructSelector uses its mapping

---
 src/infi/instruct/struct/selector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..d6d6d1f 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,9 +12,9 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
-                raise ValueError("mapping key %s must be a subclass of Struct" % key)
+        for key, struct in mapping.items():
+            if not (isinstance(struct, type) and issubclass(struct, Struct)):
+                raise ValueError("mapping key %s must be a subclass of Struct" % (key,))
             self.mapping[key] = struct
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
-- 
2.43.0


From d6c44b7e2bfcda244ec9147e65b6d680d614f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 27/70] fix: StructSelector size is bounded by its smallest and
 largest struct, not by their sum

---
 src/infi/instruct/struct/selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index d6d6d1f..775e62b 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -19,7 +19,8 @@ class StructSelectorMarshal(Marshal):
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        min_max_sizes = [struct.min_max_sizeof() for struct in structs] or [ZERO_MIN_MAX]
+        self.min_max_size = MinMax(min(size.min for size in min_max_sizes), max(size.max for size in min_max_sizes))
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
-- 
2.43.0


From efedf32057c303ff87b70567e216369b191df58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 28/70] fix: leftover read-ahead bytes of a function selector
 raise InstructError

---
 src/infi/instruct/struct/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 775e62b..7911f49 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -75,7 +75,7 @@ class FuncStructSelectorMarshal(Marshal):
         result = reader.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
             raise InstructError("deserialized object %s but still have bytes in read-ahead buffer" %
-                                (result.to_repr(context),))
+                                (reader.to_repr(result, context),))
         return result
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From cc5bfd01078ce565d1955ef36becdf845bbef09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 29/70] fix: repr of a struct with fields that are not set

---
 src/infi/instruct/struct/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index b47cf47..85d122d 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -67,6 +67,8 @@ class Field(FieldBase):
             setattr(obj, self.name, copy_if_supported(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
+        if self.get_value(obj) is None:
+            return "%s=<not set>" % (self.name,)
         return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
 
     def get_value(self, obj):
-- 
2.43.0


From e252738d6b74c8632b3eae75ac0e2bc28289e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 30/70] fix: fields of a Lazy group that are not set have their
 default value

---
 src/infi/instruct/struct/lazy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..eeff2b8 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,11 +1,11 @@
 from .._compat import StringIO
 
-from . import FieldBase, Field, FieldListContainer
+from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
 
@@ -15,6 +15,8 @@ class LazyField(Field):
     def prepare_instance(self, obj, args, kwargs):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
+        elif self.name not in obj.__dict__:
+            setattr(obj, self.name, copy_if_supported(self.default))
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
-- 
2.43.0


From 9bc6f7dab7fe41991984efe93985f7064968e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 31/70] fix: Lazy passes the context on when writing

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index eeff2b8..dd8d32b 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -61,7 +61,7 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-- 
2.43.0


From 47f3ff6f047fbf02b30a03c456de147f92830636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 32/70] fix: bit fields, constants and nested lazy groups
 inside a Lazy group

---
 src/infi/instruct/struct/lazy.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index dd8d32b..3ea4c10 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,6 +1,9 @@
+import copy
+
 from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
+from .const import ConstField
 from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
@@ -49,16 +52,28 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
-            if isinstance(field, Field):
-                new_fields.append(LazyField(self, field))
-            else:
-                new_fields.append(field)
+            new_fields.append(self._make_lazy(field))
 
         super(LazyFieldListContainer, self).__init__(new_fields)
 
         self.size = sum([field.min_max_sizeof().min for field in self.fields])
         self.lazy_key = "_lazy_container_%s" % id(self)
 
+    def _make_lazy(self, field):
+        if isinstance(field, LazyField):  # a field of a nested lazy container
+            field = field.field
+        if isinstance(field, ConstField):  # the value is known without reading it
+            return field
+        if isinstance(field, Field):
+            return LazyField(self, field)
+        if isinstance(field, FieldListContainer):
+            fields = [self._make_lazy(inner_field) for inner_field in field.fields]
+            if isinstance(field, LazyFieldListContainer):
+                return FieldListContainer(fields)
+            field = copy.copy(field)
+            field.fields = fields
+        return field
+
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
         super(LazyFieldListContainer, self).write_fields(obj, stream, context)
-- 
2.43.0


From c4b9cc9aa1438e045013d82b70ae4e2183625281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 33/70] fix: a Lazy group is not silently replaced with
 defaults when its data is truncated or invalid

---
 src/infi/instruct/struct/lazy.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 3ea4c10..985771c 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -5,6 +5,7 @@ from .._compat import StringIO
 from . import FieldBase, Field, FieldListContainer, copy_if_supported
 from .const import ConstField
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -80,6 +81,8 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
         setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
 
     def is_instantiated(self, obj):
@@ -95,5 +98,9 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         # We first delete the lazy key so it'll return "instantiated" when the field descriptors are called.
         delattr(obj, self.lazy_key)
 
-        super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
-                                                        **params['kwargs'])
+        try:
+            super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
+                                                            **params['kwargs'])
+        except:
+            setattr(obj, self.lazy_key, params)
+            raise
-- 
2.43.0


From b9cb9b4f3b1f33c93d3ffa1bedd0f31fb47a2216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 34/70] fix: MinMax clips both values on both ends

---
 src/infi/instruct/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/base.py b/src/infi/instruct/base.py
index df34e2a..cb835c6 100644
--- a/src/infi/instruct/base.py
+++ b/src/infi/instruct/base.py
@@ -72,7 +72,7 @@ class MinMax(collections.namedtuple('MinMax', 'min max')):
             min_val = min_val_or_tuple
 
         assert min_val <= max_val
-        return super(MinMax, cls).__new__(cls, max(0, min_val), min(max_val, sys.maxsize))
+        return super(MinMax, cls).__new__(cls, min(max(0, min_val), sys.maxsize), min(max(0, max_val), sys.maxsize))
 
     def __add__(self, min_max):
         return MinMax(min_max.min + self.min, min_max.max + self.max)
-- 
2.43.0


From 81faf07ad7e48b681d6faffb00be061965861f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 35/70] fix: buffers and arrays whose size is read from another
 field are not fixed size

---
 src/infi/instruct/array.py  | 4 +++-
 src/infi/instruct/string.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 70da46c..ac5ea7a 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,5 @@
 from ._compat import range
-from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, UNBOUNDED_MIN_MAX
 from .errors import InvalidValueError
 
 class ArrayBase(object):
@@ -12,6 +12,8 @@ class ArrayBase(object):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
+        if size_min_max.max == 0:
+            return UNBOUNDED_MIN_MAX  # the size is not part of this field (e.g. ReadPointer), so it can be anything
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(size_min_max.min,
                       size_min_max.max + self._approx_max_elements_by_size_bits() * element_min_max.max)
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 41067a8..7830b84 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,4 +1,4 @@
-from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
+from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax, UNBOUNDED_MIN_MAX
 from .errors import InstructError, InvalidValueError
 from ._compat import pad
 
@@ -60,6 +60,8 @@ class VarSizeStringMarshal(Marshal):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
+        if size_min_max.max == 0:
+            return UNBOUNDED_MIN_MAX  # the size is not part of this field (e.g. ReadPointer), so it can be anything
         return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
-- 
2.43.0


From 2aae4bdbb91c18ae8dc99eb30d015c453c253540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 36/70] fix: refuse truncated byte padding

---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f278b2d 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From ff985c7764b8ffb7b8133db93e4eb842f495cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 37/70] fix: struct adapter reads Buffers with a fractional
 byte size

---
 src/infi/instruct/buffer/compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..d8224af 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,3 +1,5 @@
+import math
+
 from .._compat import PY2
 
 class StructTypeAdapter(object):
@@ -18,7 +20,7 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            packed_data = stream.read(int(math.ceil(self.buffer_type.byte_size)))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From d28a26554ba398ade2d7d5f9998dc788b06eb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 38/70] fix: 'struct' in the context of a nested struct is that
 struct, not the outermost one

---
 src/infi/instruct/struct/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 85d122d..14e010a 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -222,8 +222,9 @@ class Struct(object):
         if hasattr(cls, '_context_'):
             new_context = WritableContext(cls._context_.copy())
         else:
-            new_context = WritableContext(dict(struct=obj))
+            new_context = WritableContext()
         new_context.update(context.get_dict())
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From 8c1554adcc9ca74240d8f6d2d319292e002904e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 39/70] fix: the last, partial byte of a bit view can still be
 indexed with -1

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 44746c8..392ca3b 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -98,7 +98,7 @@ class BitView(abc.Sequence):
             stop = self._translate_offset(key.stop if key.stop is not None else self.length())
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
-            if key >= self.length() or key < -self.length():
+            if key >= self.length() or key < -len(self):
                 raise IndexError("index {0} out of range".format(key))
             start = self._translate_offset(key)
             stop = min(start + 1, self.stop)
-- 
2.43.0


From 640d7afec22aacf906cc4e13811954a7fd6c5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 40/70] fix: deleting or inserting nothing leaves the bits
 after a bit-aware array alone

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 392ca3b..855661f 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -205,6 +205,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
         Replaces the bits from start to stop with new_len (fractional) zero bytes, moving the bits that follow. Bytes of
         the underlying buffer that are past the end of this array keep following it.
         """
+        if start == stop and new_len == 0:
+            return
         tail = self._get_range(stop, self.stop)
         outside = self.buffer[int(math.ceil(self.stop)):]
         self.stop += new_len - (stop - start)
-- 
2.43.0


From 16569c6db0725705699796ec08e7c5341b0a42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 41/70] fix: pack strings placed on bits (whole number of bytes
 written as a float)

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d931b07..18ae976 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -23,7 +23,7 @@ def kwargs_int_byte_size(kwargs):
     byte_size = kwargs.get("byte_size", None)
     assert byte_size is None or ((byte_size >= 0) and (int(byte_size) == byte_size)), \
         "size can be unknown (None) or a non-negative integer but instead got {0}".format(byte_size)
-    return byte_size
+    return int(byte_size) if byte_size is not None else None
 
 
 def assert_enum_argument(name, value, enum):
-- 
2.43.0


From 3a31eaaaa4fa9ae2edc658c58e77d8f1650ae66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 42/70] fix: refuse to pack an int as a byte array

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 18ae976..e716238 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -238,6 +238,8 @@ def unpack_json(value, **kwargs):
 
 
 def pack_bytearray(buffer, **kwargs):
+    if isinstance(buffer, (int, long)):  # bytearray(n) gives n zeros
+        raise TypeError("cannot pack int {0!r} as a byte array".format(buffer))
     return bytearray(buffer)
 
 
-- 
2.43.0


From 428a9f7950297dc361e77412ff6a7be05f00e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 43/70] fix: refuse ints, floats and strings whose last byte is
 only partly in the input

---
 src/infi/instruct/buffer/serialize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index e716238..4ec50c2 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -109,7 +109,8 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
 def unpack_struct_int(buffer, format_char, **kwargs):
     format = format_from_struct_int_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, \
+        "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 STRUCT_INT_UNPACKERS = {
@@ -161,7 +162,8 @@ STRUCT_FLOAT_PACKERS = {
 def unpack_struct_float(buffer, format_char, **kwargs):
     format = format_from_struct_float_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, \
+        "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 
@@ -213,8 +215,8 @@ def unpack_str(buffer, **kwargs):
     padding = args['padding']
     strip = args['strip']
     byte_size = kwargs_int_byte_size(args)
-    if byte_size and len(buffer) < byte_size:
-        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, len(buffer)))
+    if byte_size and buffer.length() < byte_size:
+        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, buffer.length()))
 
     value = buffer[0:byte_size].to_bytes()
     if byte_size is not None:
-- 
2.43.0


From 17b2ca8790bd1af5dadc99a6127e32de7f32e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 44/70] fix: honor unpack_after also when another field needs
 the field first

---
 src/infi/instruct/buffer/buffer.py                  | 3 ++-
 src/infi/instruct/buffer/field_reference_builder.py | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 03d8b45..f878213 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -143,7 +143,8 @@ class Buffer(object):
                 if field.unpack_if.deref(ctx):
                     # TODO: get rid of unpack_after once we use dependencies as we should.
                     for prev_field in field.unpack_after:
-                        prev_field.unpack_value_ref.deref(ctx)
+                        if prev_field.unpack_if.deref(ctx):
+                            prev_field.unpack_value_ref.deref(ctx)
                     field.unpack_value_ref.deref(ctx)
                 else:
                     setattr(self, field.attr_name(), None)
diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 35ccf5f..0b7cce7 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -82,6 +82,14 @@ class UnpackerReference(FuncCallReference):
     def __init__(self, numeric, unpacker, absolute_position_ref, *args, **kwargs):
         super(UnpackerReference, self).__init__(numeric, unpacker, InputBufferPartReference(absolute_position_ref),
                                                 *args, **kwargs)
+        self.unpack_after = []
+
+    def evaluate(self, ctx):
+        # This field may be unpacked because another field depends on it, so the order has to be enforced here too.
+        for prev_field in self.unpack_after:
+            if prev_field.unpack_if.deref(ctx):
+                prev_field.unpack_value_ref.deref(ctx)
+        return super(UnpackerReference, self).evaluate(ctx)
 
     def _args_repr(self):
         return ", ".join(["buffer", "position"] + [safe_repr(arg) for arg in self.arg_refs[2:]])
@@ -243,3 +251,4 @@ class FieldReferenceBuilder(object):
             assert isinstance(unpack_after_field, FieldReference)
 
         self.field.unpack_after = self.unpack_after
+        self.field.unpack_ref.unpack_after = self.unpack_after
-- 
2.43.0


From 81d81af51371b78641adf7b76226e172f64b53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 45/70] fix: fields of a mix-in class are fields of every
 Buffer class that uses it

---
 src/infi/instruct/buffer/buffer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index f878213..74b6edc 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -57,11 +57,16 @@ class BufferType(type):
 
         # First off, assign names and getters/setters to all the field references and find all the fields.
         fields = []
+        inherited_fields = [field for base in new_cls.mro() for field in base.__dict__.get('__fields__', [])]
         for attr_name in dir(new_cls):
             attr = getattr(new_cls, attr_name)
-            if isinstance(attr, FieldReference) and not attr.is_initialized():
-                attr.init(attr_name)
-                fields.append(attr)
+            if isinstance(attr, FieldReference):
+                if not attr.is_initialized():
+                    attr.init(attr_name)
+                    fields.append(attr)
+                elif attr.attr_name() == attr_name and not any(attr is field for field in inherited_fields):
+                    # Already used in an unrelated class, e.g. a field of a mix-in class.
+                    fields.append(attr)
 
         setattr(new_cls, '__fields__', fields)
         if 'byte_size' not in attrs:
-- 
2.43.0


From 897f188ec5ab96b1346558201aaa3db297938f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 46/70] fix: a Buffer class with several bases does not take
 the size of just one of them

---
 src/infi/instruct/buffer/buffer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 74b6edc..20d6f05 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -72,9 +72,11 @@ class BufferType(type):
         if 'byte_size' not in attrs:
             all_fields = [field for base in new_cls.mro() for field in base.__dict__.get('__fields__', [])]
             byte_size = cls.calc_byte_size(name, all_fields)
-            inherited_byte_size = getattr(new_cls, 'byte_size', None)
-            if inherited_byte_size is not None and (byte_size is not None or not fields):
-                byte_size = max(byte_size or 0, inherited_byte_size)
+            inherited_byte_sizes = [getattr(base, 'byte_size', None) for base in bases if isinstance(base, BufferType)]
+            if byte_size is not None:
+                byte_size = max([byte_size] + [size for size in inherited_byte_sizes if size is not None])
+            elif not fields and len(inherited_byte_sizes) == 1:
+                byte_size = inherited_byte_sizes[0]
             setattr(new_cls, 'byte_size', byte_size)
         return new_cls
 
-- 
2.43.0


From 6500ad29dd9a8b1acd9176d121ef43189f675b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 47/70] fix: reading a struct with a constant struct field
 (C15)

---
 src/infi/instruct/struct/const.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..d3c6a08 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,4 +1,4 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
 
@@ -17,7 +17,7 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
@@ -31,10 +31,16 @@ class ConstField(Field):
     def set_value(self, obj, value):
         pass
 
+    def _is_const_value(self, value):
+        if isinstance(value, Struct) and type(value) is type(self.value):
+            # Structs don't define equality, so they're compared by what they serialize to.
+            return value is self.value or value.to_bytes() == self.value.to_bytes()
+        return value == self.value
+
     def __get__(self, obj, owner):
         return self.value
 
     def __set__(self, obj, value):
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("trying to set a new value (%s) to const field %s of class %s" %
                                 (value, self.name, type(obj)))
-- 
2.43.0


From 353667ace1350ef9f6fdd420285af09d4efd6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 48/70] fix: SumSizeArray counts the bytes its elements were
 read from also for streams without tell() (C16)

---
 src/infi/instruct/array.py                 |  8 +++++---
 src/infi/instruct/utils/position_stream.py | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)
 create mode 100644 src/infi/instruct/utils/position_stream.py

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ac5ea7a..87c8659 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,6 +1,7 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, UNBOUNDED_MIN_MAX
 from .errors import InvalidValueError
+from .utils.position_stream import PositionStream
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -62,12 +63,13 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         obj = []
         total_bytes = self.size_marshal.create_from_stream(stream, context)
-        has_tell = hasattr(stream, 'tell')
+        if not hasattr(stream, 'tell'):
+            stream = PositionStream(stream)
         while total_bytes > 0:
-            element_size = stream.tell() if has_tell else 0
+            element_size = stream.tell()
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
+            element_size = stream.tell() - element_size
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
diff --git a/src/infi/instruct/utils/position_stream.py b/src/infi/instruct/utils/position_stream.py
new file mode 100644
index 0000000..d40e05d
--- /dev/null
+++ b/src/infi/instruct/utils/position_stream.py
@@ -0,0 +1,15 @@
+class PositionStream(object):
+    """
+    Wraps a stream that doesn't report its position and counts the bytes read from it.
+    """
+    def __init__(self, stream):
+        self.stream = stream
+        self.position = 0
+
+    def tell(self):
+        return self.position
+
+    def read(self, size):
+        res = self.stream.read(size)
+        self.position += len(res)
+        return res
-- 
2.43.0


From 5ff376beb1223ac69390fb9129d481ad437b888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 49/70] fix: refuse negative sizes of strings, buffers and
 arrays (C21)

---
 src/infi/instruct/array.py  | 2 ++
 src/infi/instruct/string.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 87c8659..84c1df6 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -27,6 +27,8 @@ class VarSizeArrayMarshal(ArrayBase, Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         size = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
+        if size < 0:
+            raise InvalidValueError("expected a number of elements but instead got a negative number %d" % (size,))
         obj = []
         for i in range(size):
             obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 7830b84..3ee1e0a 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -42,6 +42,8 @@ class VarSizeStringMarshal(Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         buffer_len = self.size_marshal.create_from_stream(stream, context)
+        if buffer_len < 0:
+            raise InvalidValueError("expected a size but instead got a negative number %d" % (buffer_len,))
         obj = stream.read(buffer_len)
         if len(obj) < buffer_len:
             raise InstructError("Expected to read %d bytes from stream but read only %d" % (buffer_len, len(obj)))
-- 
2.43.0


From 635b496c04fb4b274c747e13419f3f42c0c5e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 50/70] fix: refuse truncated positional bit fields (C21)

---
 src/infi/instruct/struct/bit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index c8e62a8..c57b071 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -1,6 +1,6 @@
 from . import FieldListContainer
 from ..base import FixedSizer, Marshal, MinMax, EMPTY_CONTEXT
-from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
+from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError, NotEnoughDataError
 from ..utils.bitstringio import BitStringIO
 
 class BitMarshal(FixedSizer, Marshal):
@@ -103,6 +103,9 @@ class PositionalBitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
+        bit_stream = BitStringIO(data)
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
-- 
2.43.0


From e35751edcbf391408b666e946329466255b82f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 51/70] fix: reading a sum-size array of empty elements does
 not hang on a size that is left over (C21)

---
 src/infi/instruct/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 84c1df6..d8e894b 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -72,6 +72,8 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
             element_size = stream.tell() - element_size
+            if element_size == 0:
+                raise InvalidValueError("%d bytes are left for elements that have no bytes" % (total_bytes,))
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From 708a9d03166f158cf46f5e7ac276d8fd4dd0cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 52/70] fix: objects do not share mutable defaults such as
 nested structs and lists of lists (C22)

---
 src/infi/instruct/struct/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 14e010a..7baaefe 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -1,4 +1,5 @@
 from array import array
+from copy import deepcopy
 from .._compat import StringIO, PY2
 from six import add_metaclass
 
@@ -6,7 +7,10 @@ from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
 
 def copy_if_supported(obj):
-    return obj.copy() if hasattr(obj, 'copy') else obj
+    try:
+        return deepcopy(obj)
+    except TypeError:
+        return obj
 
 class FieldMarshal(MarshalBase):
     def prepare_class(self, cls):
-- 
2.43.0


From a50611fca0029d8d3cb08b7e9c1490a176b86b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 53/70] fix: constructor arguments reach user constructors of
 base classes and keyword-only parameters (C22)

---
 src/infi/instruct/struct/__init__.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7baaefe..877f54a 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -144,6 +144,11 @@ class StructType(type):
 
         fields.prepare_class(new_cls)
 
+        if user_init is not None:
+            code = user_init.__code__
+            arg_count = code.co_argcount + getattr(code, "co_kwonlyargcount", 0)
+            setattr(new_cls, "_user_init_args_", code.co_varnames[0:arg_count])
+
         setattr(new_cls, "__init__", cls._create_struct_class_init(new_cls, user_init))
         return new_cls
 
@@ -154,22 +159,25 @@ class StructType(type):
             if type(self) == new_cls:
                 # Only do our magic if we're the bottom-most class.
                 new_cls._container_.prepare_instance(self, args, kwargs)
+
+            # Add arguments back if the user code (of this class or of a base class) wants them.
+            # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
+            # and logical_block_address is also a field in the struct, so in this scenario instruct will
+            # "eat" the arg and we need to put it back.
+            for arg in new_cls._user_init_args_:
+                if arg in orig_kwargs:
+                    kwargs[arg] = orig_kwargs[arg]
             if user_init is None:
                 super(new_cls, self).__init__(*args, **kwargs)
             else:
-                # Add arguments back if the user code wants them.
-                # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
-                # and logical_block_address is also a field in the struct, so in this scenario instruct will
-                # "eat" the arg and we need to put it back.
-                for arg in user_init.__code__.co_varnames[0:user_init.__code__.co_argcount]:
-                    if arg in orig_kwargs:
-                        kwargs[arg] = orig_kwargs[arg]
                 user_init(self, *args, **kwargs)
         return __instance_init__
 
 
 @add_metaclass(StructType)
 class Struct(object):
+    _user_init_args_ = ()
+
     def __init__(self, *args, **kwargs):
         super(Struct, self).__init__()
         type(self)._container_.prepare_instance(self, args, kwargs)
-- 
2.43.0


From b25f1a3c4f2b61a5387bc3af37375ec2b415743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 54/70] fix: a subclass can redefine a constant or lazy field
 of its base as a plain field (C22)

---
 src/infi/instruct/struct/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 877f54a..4f6f783 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -58,12 +58,25 @@ class AnonymousField(FieldBase):
     def __str__(self):
         return "anonymous field"
 
+class UnsetField(object):
+    """Hides the field of a base class (e.g. a constant) that has the same name as a plain field of a subclass."""
+    def __init__(self, name):
+        self.name = name
+
+    def __get__(self, obj, owner):
+        raise AttributeError(self.name)
+
 class Field(FieldBase):
     def __init__(self, name, marshal, default=None):
         super(Field, self).__init__(marshal)
         self.name = name
         self.default = default
 
+    def prepare_class(self, cls):
+        inherited = [base.__dict__[self.name] for base in cls.__mro__ if self.name in base.__dict__]
+        if inherited and isinstance(inherited[0], Field):
+            setattr(cls, self.name, UnsetField(self.name))
+
     def prepare_instance(self, obj, args, kwargs):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
-- 
2.43.0


From 96fe5abc29f701b561ad1a5b69dffed11918952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 55/70] fix: objects with values of wrong types can be printed
 (C23)

---
 src/infi/instruct/array.py           |  3 ++-
 src/infi/instruct/struct/__init__.py |  3 ++-
 src/infi/instruct/utils/safe_repr.py | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index d8e894b..d52c2e0 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -2,10 +2,11 @@ from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, UNBOUNDED_MIN_MAX
 from .errors import InvalidValueError
 from .utils.position_stream import PositionStream
+from .utils.safe_repr import safe_marshal_repr
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-        return "[ " + ", ".join([self.element_marshal.to_repr(element, context) for element in obj]) + " ]"
+        return "[ " + ", ".join([safe_marshal_repr(self.element_marshal, element, context) for element in obj]) + " ]"
 
     def _approx_max_elements_by_size_bits(self):
         size_min_max = self.size_marshal.min_max_sizeof()
diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 4f6f783..eb6ee9c 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -5,6 +5,7 @@ from six import add_metaclass
 
 from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
+from ..utils.safe_repr import safe_marshal_repr
 
 def copy_if_supported(obj):
     try:
@@ -37,7 +38,7 @@ class FieldBase(FieldMarshal):
         self.set_value(obj, self.marshal.create_from_stream(stream, context, *args, **kwargs))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-        return self.marshal.to_repr(self.get_value(obj), context)
+        return safe_marshal_repr(self.marshal, self.get_value(obj), context)
 
     def sizeof(self, obj):
         return self.marshal.sizeof(self.get_value(obj))
diff --git a/src/infi/instruct/utils/safe_repr.py b/src/infi/instruct/utils/safe_repr.py
index 9360b92..85b0cec 100644
--- a/src/infi/instruct/utils/safe_repr.py
+++ b/src/infi/instruct/utils/safe_repr.py
@@ -11,3 +11,19 @@ def safe_repr(obj):
     except:
         obj_repr = "({0}<{1}> repr error)".format(type(obj), id(obj))
     return obj_repr
+
+
+def safe_marshal_repr(marshal, obj, context):
+    """Returns the representation a marshal gives to a value, or the value's own representation if it's a value the
+    marshal can't represent (e.g. None or a value of a wrong type that was assigned to a field).
+
+    :param marshal: marshal to represent the value with
+    :param obj: value to represent
+    :param context: context to pass to the marshal
+    :returns: repr string
+    :rtype: str
+    """
+    try:
+        return marshal.to_repr(obj, context)
+    except Exception:
+        return safe_repr(obj)
-- 
2.43.0


From e2b98a3534b8bf5b7cf5e630f0404e6f9744245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 56/70] fix: the size returned by unpack is the highest
 position of a field in several ranges (C04, C05)

---
 src/infi/instruct/buffer/reference/total_size.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 8c82860..3c82d17 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -23,7 +23,8 @@ class TotalSizeReference(Reference):
         else:
             # For each field we do the following and then take the maximum:
             #   We fetch the field's unpack size from unpack_ref (should already be cached).
-            #   We then fetch the field's absolute position and calculate the byte offset from that.
+            #   We then fetch the field's absolute position and calculate the highest byte offset from that, which isn't
+            #   necessarily in its last range.
             result = max(self._unpack_position_list_for_field(ctx, field) for field in ctx.fields)
 
         assert result is not None
@@ -32,7 +33,13 @@ class TotalSizeReference(Reference):
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
+            position_list = field.unpack_absolute_position_ref.deref(ctx)
+            result = position_list.byte_offset(size)
+            for r in position_list:
+                if size <= r.byte_length():
+                    break
+                size -= r.byte_length()
+                result = max(result, r.stop)
             return result
         else:
             return 0
-- 
2.43.0


From 805bbeeca6e7f6198f50d86c18b1ca202df73c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 57/70] fix: a bit range can be assigned the array itself (C10)

---
 src/infi/instruct/buffer/io_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 855661f..15d7100 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -235,6 +235,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
         value_len = 0
         if isinstance(value, BitView):
             value_len = value.length()
+            value = bytearray(value)  # the value may be this array itself, or a view of it
         elif isinstance(value, (abc.Sized, abc.Iterable)):
             value = bytearray(value)
             value_len = len(value)
-- 
2.43.0


From 5354ac1c95b44c05ef111d55d6e9bf8a16dbfde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 58/70] fix: report pack and unpack errors of objects whose
 repr fails

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 20d6f05..d4b6a38 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -26,7 +26,7 @@ class InstructBufferError(InstructError):
         context_call_stack = "\n".join(["    {0}".format(line) for line in ctx.format_exception_call_stack()])
 
         # Format a list of all resolved references, remove identity ones (e.g. 1=1, etc.) and show only uniques
-        resolved_reference_pairs = [(safe_repr(key), repr(value)) for key, value in six.iteritems(ctx.cached_results)]
+        resolved_reference_pairs = [(safe_repr(key), safe_repr(value)) for key, value in six.iteritems(ctx.cached_results)]
         resolved_reference_str_list = sorted(["    {0}={1}".format(a, b) for a, b in resolved_reference_pairs
                                               if a != b])
         resolved_references = "\n".join(s for s, _ in itertools.groupby(resolved_reference_str_list))
-- 
2.43.0


From 4cf1ed89dc739ee18378e32e686ad020b16b71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 59/70] fix: size bounds of strings and arrays whose size
 marshal has no bounds

---
 src/infi/instruct/array.py  | 2 ++
 src/infi/instruct/string.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index d52c2e0..a3dfb1b 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -16,6 +16,8 @@ class ArrayBase(object):
         size_min_max = self.size_marshal.min_max_sizeof()
         if size_min_max.max == 0:
             return UNBOUNDED_MIN_MAX  # the size is not part of this field (e.g. ReadPointer), so it can be anything
+        if size_min_max.is_unbounded():
+            return MinMax(size_min_max.min)
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(size_min_max.min,
                       size_min_max.max + self._approx_max_elements_by_size_bits() * element_min_max.max)
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 3ee1e0a..ef68c98 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -64,6 +64,8 @@ class VarSizeStringMarshal(Marshal):
         size_min_max = self.size_marshal.min_max_sizeof()
         if size_min_max.max == 0:
             return UNBOUNDED_MIN_MAX  # the size is not part of this field (e.g. ReadPointer), so it can be anything
+        if size_min_max.is_unbounded():
+            return MinMax(size_min_max.min)
         return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
-- 
2.43.0


From 5304e7b19c5457753a6ce8b6685da23b7e67e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 60/70] fix: sizeof of strings measures their size prefix by
 the length and not by the string

---
 src/infi/instruct/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index ef68c98..c5c074f 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -58,7 +58,8 @@ class VarSizeStringMarshal(Marshal):
         return repr(obj)
 
     def sizeof(self, obj):
-        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))
+        stripped_obj = _strip(obj, self.padding_direction, self.padding)
+        return self.size_marshal.sizeof(len(stripped_obj)) + len(stripped_obj)
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-- 
2.43.0


From 40e321587f39f639e4291c548ef0e5b19785c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 61/70] fix: add a list of ranges to a plain list on its left

---
 src/infi/instruct/buffer/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 3517146..349d245 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -189,4 +189,4 @@ class SequentialRangeList(list, SequentialRangeMixin):
         return SequentialRangeList(super(SequentialRangeList, self).__add__(other))
 
     def __radd__(self, other):
-        return SequentialRangeList(super(SequentialRangeList, self).__radd__(other))
+        return SequentialRangeList(list.__add__(other, self))
-- 
2.43.0


From f71a9009a0dcd35f4f41ec548f779f014947417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 62/70] fix: refuse bit fields and padding of negative size

---
 src/infi/instruct/padding.py    | 1 +
 src/infi/instruct/struct/bit.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index f278b2d..ed63d39 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -7,6 +7,7 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         self.size = size
         self.char = char
         assert len(self.char) == 1
+        assert self.size >= 0, "padding size must not be negative but instead got %d" % (self.size,)
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stream.write(self.char * self.size)
diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index c57b071..ee53aca 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -6,6 +6,8 @@ from ..utils.bitstringio import BitStringIO
 class BitMarshal(FixedSizer, Marshal):
     def __init__(self, size):
         super(BitMarshal, self).__init__()
+        if size < 0:
+            raise ValueError("number of bits must not be negative but instead got %s" % (size,))
         self.size = size
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-- 
2.43.0


From 2c274d9a32ff67dd1518fdec1513f7fe7d06bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 63/70] fix: refuse inverted, negative and stepped slices of
 positional bit fields

---
 src/infi/instruct/struct/bit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index ee53aca..e859cf5 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -53,6 +53,9 @@ class BitFieldListContainer(FixedSizer, FieldListContainer):
 class PositionalBitMarshal(FixedSizer, Marshal):
     def __init__(self, slices):
         super(PositionalBitMarshal, self).__init__()
+        for s in slices:
+            if not (0 <= s.start <= s.stop and s.step in (1, None)):
+                raise ValueError("invalid bit slice %s" % (s,))
         self.slices = slices
         self.size = sum([s.stop - s.start for s in slices])
 
-- 
2.43.0


From 232ac4cd18f0fe7e30a3410f196fd2adbf2ca256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 64/70] fix: refuse fixed-size strings, buffers and arrays of
 negative size when they are declared

---
 src/infi/instruct/array.py  | 1 +
 src/infi/instruct/string.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index a3dfb1b..a761b49 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -48,6 +48,7 @@ class VarSizeArrayMarshal(ArrayBase, Marshal):
 class FixedSizeArrayMarshal(VarSizeArrayMarshal):
     def __init__(self, size, element_marshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
+        assert size >= 0, "array size must not be negative but instead got %d" % (size,)
         self.size = size
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index c5c074f..201fa5a 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -72,6 +72,7 @@ class VarSizeStringMarshal(Marshal):
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
     def __init__(self, size, padding=b'\x00', padding_direction=PADDING_DIRECTION_RIGHT):
         super(PaddedStringMarshal, self).__init__(ConstReader(size), padding, padding_direction)
+        assert size >= 0, "size must not be negative but instead got %d" % (size,)
         self.size = size
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
-- 
2.43.0


From 9176b7e2e85d29f43d1f8c9d4d9775e38f0f8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 65/70] fix: bytearrays of a view of a memoryview are copies

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 15d7100..ff00ed8 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -63,7 +63,7 @@ class BitView(abc.Sequence):
 
     def to_bytearray(self):
         if int(self.start) == self.start and int(self.stop) == self.stop:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+            return bytearray(self.buffer[int(self.start):int(math.ceil(self.stop))])
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From 6be9f4dcfe9121cf1720925a07d461e95ad6ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 66/70] fix: read total-size arrays from pipes and sockets,
 whose tell method fails

---
 src/infi/instruct/array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index a761b49..f28dc77 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -69,7 +69,9 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         obj = []
         total_bytes = self.size_marshal.create_from_stream(stream, context)
-        if not hasattr(stream, 'tell'):
+        try:
+            stream.tell()
+        except (AttributeError, IOError):  # pipes and sockets do have a tell method but calling it fails
             stream = PositionStream(stream)
         while total_bytes > 0:
             element_size = stream.tell()
-- 
2.43.0


From 2030174f4cf385e0582fae7ce95b819a0383d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 67/70] fix: accept references as the start and stop of a slice
 of bits

---
 src/infi/instruct/buffer/reference/range.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 28248ae..f2cb38f 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -133,9 +133,12 @@ class BitNumericRangeReference(BitRangeReference):
 class BitSliceRangeReference(BitRangeReference):
     def __init__(self, parent_range_ref, slic):
         assert slic.step in (1, None)
-        assert slic.start is None or slic.start >= 0
-        assert slic.stop is None or slic.stop >= 0
-        assert (slic.start is None or slic.stop is None) or (slic.start <= slic.stop)
+        assert slic.start is None or Reference.is_numeric_ref(slic.start) or slic.start >= 0
+        assert slic.stop is None or Reference.is_numeric_ref(slic.stop) or slic.stop >= 0
+        assert ((slic.start is None or slic.stop is None)
+                or Reference.is_numeric_ref(slic.start)
+                or Reference.is_numeric_ref(slic.stop)
+                or (slic.start <= slic.stop))
 
         super(BitSliceRangeReference, self).__init__(parent_range_ref)
         self.start = Reference.to_ref(slic.start)
-- 
2.43.0


From ce564ab01b2029a5f8673f5ea9ecd1e629389062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:30 +0000
Subject: [PATCH 68/70] fix: constants that are set before packing are not
 shared between the objects

---
 src/infi/instruct/buffer/field_reference_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 0b7cce7..43cfdce 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -1,5 +1,6 @@
 import itertools
 
+from infi.instruct.struct import copy_if_supported
 from infi.instruct.utils.safe_repr import safe_repr
 
 from .io_buffer import InputBuffer, OutputBuffer
@@ -221,7 +222,8 @@ class FieldReferenceBuilder(object):
                 if callable(self.set_before_pack):
                     pack_value_ref = FuncCallReference(self.numeric, self.set_before_pack, self.get_obj_from_ctx_ref)
                 else:
-                    pack_value_ref = ObjectReference(self.numeric, self.set_before_pack)
+                    # Like defaults, the object gets its own copy of the value.
+                    pack_value_ref = FuncCallReference(self.numeric, copy_if_supported, self.set_before_pack)
             else:
                 pack_value_ref = self.set_before_pack
             self.field.pack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
-- 
2.43.0


From 2e6a5f0fc2a690401f44262eaa5c98f8509a011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 69/70] fix: users' classes may be named Struct or Buffer

---
 src/infi/instruct/buffer/buffer.py   | 2 +-
 src/infi/instruct/struct/__init__.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index d4b6a38..ec25d96 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -50,7 +50,7 @@ class BufferType(type):
     """
     def __new__(cls, name, bases, attrs):
         # If we initialize our own class don't do any modifications.
-        if name == "Buffer":
+        if not any(isinstance(base, BufferType) for base in bases):
             return super(BufferType, cls).__new__(cls, name, bases, attrs)
 
         new_cls = super(BufferType, cls).__new__(cls, name, bases, attrs)
diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index eb6ee9c..5651b3a 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -130,8 +130,8 @@ class FieldListContainer(FieldMarshal):
 
 class StructType(type):
     def __new__(cls, name, bases, attrs):
-        # If we initialize our own class don't do any modifications.
-        if name == "Struct":
+        # If we initialize our own class don't do any modifications. (Users' structs may have the same name.)
+        if name == "Struct" and "_fields_" not in attrs and not any(hasattr(base, "_fields_") for base in bases):
             return super(StructType, cls).__new__(cls, name, bases, attrs)
 
         # We want to first put our own __init__ method that will initialize all the fields passed by kwargs and then
-- 
2.43.0


From a6e5228f952778d4f97e8e8cac49c5995d54439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:24 +0000
Subject: [PATCH 70/70] fix: bit fields of no bits may lie at the end of their
 bytes

---
 src/infi/instruct/utils/bitstringio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/utils/bitstringio.py b/src/infi/instruct/utils/bitstringio.py
index f81f2af..64dd802 100644
--- a/src/infi/instruct/utils/bitstringio.py
+++ b/src/infi/instruct/utils/bitstringio.py
@@ -60,4 +60,4 @@ class BitStringIO(object):
 
     def seek(self, position):
         self.position = position
-        assert self.position >= 0 and ((self.position // 8) < len(self.value))
+        assert 0 <= self.position <= len(self.value) * 8
-- 
2.43.0

