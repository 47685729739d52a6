From 75b067c68d4e448cb5b1756169bad32921b71f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 01/54] fix: BitView.to_bytearray leaked bits past a fractional
 stop

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..181de59 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,8 +62,8 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+        if int(self.start) == self.start and int(self.stop) == self.stop:
+            return self.buffer[int(self.start):int(self.stop)]
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From d4b7ee6e8b827ea7290c8586c3490700973e33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 02/54] fix: unaligned insertion and deletion in
 BitAwareByteArray corrupted the bits after the edit

---
 src/infi/instruct/buffer/io_buffer.py | 36 ++++++++-------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 181de59..b853288 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -203,37 +203,23 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             ofs = start
             bit_len_frac = stop - start
             while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
+                bit_len = min(8, int((self.stop - ofs - bit_len_frac) * 8))
+                self._set_byte_bits(ofs, bit_len, self._get_byte_bits(ofs + bit_len_frac, bit_len))
                 ofs += 1
             self.stop -= bit_len_frac
-            if int(math.ceil(self.stop)) < len(self.buffer):
-                del self.buffer[-1]
+            del self.buffer[int(math.ceil(self.stop)):]
 
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
         assert start <= self.stop
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
-            self.stop += whole_byte_delta
-            stop -= whole_byte_delta
-
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
-            while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
-                self.buffer.append(0)
-
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
-            self.stop += bit_len_frac
+        # Everything from start on moves up. We copy it first because it may overlap its new position.
+        tail = self._get_range(start, self.stop)
+        self.stop += stop - start
+        missing_bytes = int(math.ceil(self.stop)) - len(self.buffer)
+        if missing_bytes > 0:
+            self.buffer.extend(bytearray(missing_bytes))
+        self._copy_to_range(start, bytearray(int(math.ceil(stop - start))), stop - start)
+        self._copy_to_range(stop, tail, tail.length())
 
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
-- 
2.43.0


From 8efb6ce6cef11cfbda50d6439c19f28cd499bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 03/54] fix: refuse negative integers in bit ranges instead of
 storing other bits

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index b853288..4f91fb2 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -244,6 +244,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             value_len = len(value)
         elif isinstance(value, integer_types):
             # Short circuit: make bit ranges accept int values by their bit length.
+            if value < 0:
+                raise ValueError("trying to assign negative int {0} to a bit range".format(value))
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
-- 
2.43.0


From b576f6e3809b71fbd0e376dbaba52c71a7ee29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 04/54] fix: an integer assigned to a bit range left old bits
 above its own length

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 4f91fb2..0460ea0 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -252,12 +252,12 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
                 # bits that he specified we shout.
                 raise ValueError("trying to assign int {0} with bit length {1} to bit length {2}".format(value,
                                  bit_length, int(int_value_len * 8)))
+            value_len = max(float(bit_length) / 8, int_value_len)
             l = []
-            for n in range(0, bit_length, 8):
+            for n in range(0, int(value_len * 8), 8):
                 l.append(value % 256)
                 value //= 256
             value = l
-            value_len = max(float(bit_length) / 8, int_value_len)
         else:
             raise TypeError("value must be iterable or int")
         return value, value_len
-- 
2.43.0


From cb600a331bb721e02a6b0b68eb26cff7ec0e34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 05/54] fix: a bit-aware index near the end of the array
 addressed bits past the end

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 0460ea0..82e6401 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -99,7 +99,7 @@ class BitView(abc.Sequence):
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
             start = self._translate_offset(key)
-            stop = start + 1
+            stop = min(start + 1, self.stop)
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
-- 
2.43.0


From 381642d7d89fa4a669326103cbee385bdbe20c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 06/54] fix: inserting or extending a bit-aware byte array with
 itself read bits already moved

---
 src/infi/instruct/buffer/io_buffer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 82e6401..369857a 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -140,8 +140,9 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def extend(self, other):
         if isinstance(other, BitView):
             offset = self.stop
-            self._insert_zeros(offset, offset + other.length())
-            self._copy_to_range(offset, other, other.length())
+            other, other_len = self._value_to_value_and_length(other)
+            self._insert_zeros(offset, offset + other_len)
+            self._copy_to_range(offset, other, other_len)
         else:
             super(BitAwareByteArray, self).extend(other)
 
@@ -236,6 +237,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def _value_to_value_and_length(self, value, int_value_len=1):
         value_len = 0
         if isinstance(value, BitView):
+            if value.buffer is self.buffer:
+                value = value[:]  # we're about to change the buffer value reads from
             value_len = value.length()
         elif isinstance(value, abc.Sized):
             value_len = len(value)
-- 
2.43.0


From 164bc5efe525a7d9c15b0286332dae7a0a41542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 07/54] fix: bit locations crossing or touching the end of one
 of several ranges resolved to other bits

---
 src/infi/instruct/buffer/range.py           | 4 ++--
 src/infi/instruct/buffer/reference/range.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..2a8b177 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -182,10 +182,10 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
-        return None
+        return None, sum_length
 
     def __add__(self, other):
         return SequentialRangeList(super(SequentialRangeList, self).__add__(other))
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..6bb3f1d 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -157,9 +157,11 @@ class BitSliceRangeReference(BitRangeReference):
 
         bit_range_remaining_len = bit_range.byte_length()
         result = []
+        skip = bit_range.start - sum_length  # only the first range is entered in its middle
         for i in range(i, len(range_list)):
             r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
+            subrange_start = r.start + skip
+            skip = 0
             if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
                 subrange_stop = subrange_start + bit_range_remaining_len
             else:
-- 
2.43.0


From d8d0e7ebcb1163706cd4b8a32b1cca28586130c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 08/54] fix: bit slices with an omitted or referenced endpoint
 raised TypeError or NotImplementedError

---
 src/infi/instruct/buffer/reference/range.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 6bb3f1d..213876c 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -132,9 +132,12 @@ class BitNumericRangeReference(BitRangeReference):
 class BitSliceRangeReference(BitRangeReference):
     def __init__(self, parent_range_ref, slic):
         assert slic.step in (1, None)
-        assert slic.start is None or slic.start >= 0
-        assert slic.stop is None or slic.stop >= 0
-        assert (slic.start is None or slic.stop is None) or (slic.start <= slic.stop)
+        assert slic.start is None or Reference.is_numeric_ref(slic.start) or slic.start >= 0
+        assert slic.stop is None or Reference.is_numeric_ref(slic.stop) or slic.stop >= 0
+        assert ((slic.start is None or slic.stop is None)
+                or Reference.is_numeric_ref(slic.start)
+                or Reference.is_numeric_ref(slic.stop)
+                or (slic.start <= slic.stop))
 
         super(BitSliceRangeReference, self).__init__(parent_range_ref)
         self.start = Reference.to_ref(slic.start)
@@ -144,7 +147,9 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        bit_range = SequentialRange(float(start) / 8 if start is not None else None,
+                                    float(stop) / 8 if stop is not None else None)
 
         i, sum_length = range_list.find_relative_container_index(bit_range.start)
         if i is None:
-- 
2.43.0


From 682589376cb93318087cfdf1af9d1347c40b7846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 09/54] fix: an empty range in a range list reported or hid an
 overlap of the others

---
 src/infi/instruct/buffer/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 2a8b177..34a91ae 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -138,7 +138,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         :returns: True if one or more range in the list overlaps with another
         :rtype: bool
         """
-        sorted_list = sorted(self)
+        sorted_list = sorted(r for r in self if r.is_open() or r.byte_length() > 0)
         for i in range(0, len(sorted_list) - 1):
             if sorted_list[i].overlaps(sorted_list[i + 1]):
                 return True
-- 
2.43.0


From fec2014f3387067281f8c9fc98cd87f424c72c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 10/54] fix: some values outside the range of a numeric field
 escaped as OverflowError or ValueError

---
 src/infi/instruct/numeric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index c7af8e3..ed2645d 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -28,9 +28,11 @@ class NumericMarshal(FixedSizer, Marshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         try:
-            stream.write(struct.pack(self.format_string, obj))
-        except struct.error:
+            packed_value = struct.pack(self.format_string, obj)
+        except (struct.error, OverflowError, ValueError):
+            # struct reports out of range floats, and in PyPy some negative integers, as OverflowError and ValueError
             raise chain_exceptions(InstructError("Packing error occurred"))
+        stream.write(packed_value)
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         if self.type is int:
-- 
2.43.0


From 56555043984c521b2f6a56295fe51ecc3e06ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 11/54] fix: fixed-size strings were written with a wrong size
 or on the wrong side of their padding

---
 src/infi/instruct/string.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..41067a8 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -25,9 +25,9 @@ def _pad(obj, size, dir, padding):
         return obj
 
     if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
-        return obj + padding[0] * pad_len
+        return obj + pad(padding[0], pad_len)
     elif dir == PADDING_DIRECTION_LEFT:
-        return (padding[0] * pad_len) + obj
+        return pad(padding[0], pad_len) + obj
     else:
         # PADDING_DIRECTION_NONE
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
@@ -69,9 +69,7 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
-        stream.write(stripped_obj)
-        if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+        stream.write(_pad(stripped_obj, self.size, self.padding_direction, self.padding))
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From 4d4d18e41e70866dcc63069e4f990e4e3a7aed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 12/54] fix: VarSizeString's default padding was text, so it
 could not be written or read

---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From 76b7022cd0b1b4c59836bb7c24351ff746fed907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 13/54] fix: a size-prefixed array could not be read from a
 stream without tell()

---
 src/infi/instruct/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..1a44447 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -59,7 +59,7 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element_size = stream.tell() if has_tell else 0
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From 20a7334d0b8defb68dca5a70076b89d9d83bdd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 14/54] fix: a fixed-size array wrote lists of another length

---
 src/infi/instruct/array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 1a44447..58c085c 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .errors import InstructError
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -41,6 +42,11 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InstructError("array of fixed size %d got %d elements" % (self.size, len(obj)))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From 6855d115fb5d3dd06a0b2d651480140bab86851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 15/54] fix: a constant field whose value is a struct refused
 the bytes it writes

---
 src/infi/instruct/struct/const.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..579d7e8 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,4 +1,4 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
 
@@ -7,6 +7,12 @@ class ConstField(Field):
         super(ConstField, self).__init__(name, marshal)
         self.value = value
 
+    def _is_value(self, value):
+        if isinstance(self.value, Struct) and type(value) is type(self.value):
+            # Structs have no equality of their own, they're the same if they're encoded the same.
+            return type(value).write_to_string(value) == type(value).write_to_string(self.value)
+        return value == self.value
+
     def prepare_class(self, cls):
         setattr(cls, self.name, self)
 
@@ -17,7 +23,7 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self._is_value(value):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
@@ -35,6 +41,6 @@ class ConstField(Field):
         return self.value
 
     def __set__(self, obj, value):
-        if value != self.value:
+        if not self._is_value(value):
             raise InstructError("trying to set a new value (%s) to const field %s of class %s" %
                                 (value, self.name, type(obj)))
-- 
2.43.0


From 53e952c46fe6f85c141b3231850797d33a8bb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 16/54] fix: read pointers in a nested struct referred to the
 outermost struct

---
 src/infi/instruct/struct/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..e29f1cd 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -219,9 +219,10 @@ class Struct(object):
         cls = type(obj)
         if hasattr(cls, '_context_'):
             new_context = WritableContext(cls._context_.copy())
+            new_context.update(context.get_dict())
         else:
-            new_context = WritableContext(dict(struct=obj))
-        new_context.update(context.get_dict())
+            # A nested struct gets its container's context, but "struct" is always the struct itself.
+            new_context = context.writable_copy(dict(struct=obj))
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From 178875733329b6b9fdc2ed99b58606d7da70a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 17/54] fix: fields of a lazy group were written without their
 context

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..5d4a379 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -59,7 +59,7 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-- 
2.43.0


From b0626f2af38927f2dda4deb1178780847a4e7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 18/54] fix: fields of a lazy group lost their defaults and
 constants

---
 src/infi/instruct/struct/lazy.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 5d4a379..fdb02e3 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -5,7 +5,7 @@ from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
 
@@ -13,8 +13,7 @@ class LazyField(Field):
         setattr(cls, self.field.name, self)
 
     def prepare_instance(self, obj, args, kwargs):
-        if self.name in kwargs:
-            setattr(obj, self.name, kwargs.pop(self.name))
+        self.field.prepare_instance(obj, args, kwargs)
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
@@ -24,10 +23,17 @@ class LazyField(Field):
 
     def __set__(self, instance, value):
         self.container.instantiate_if_needed(instance)
-        instance.__dict__[self.name] = value
+        if hasattr(self.field, '__set__'):
+            self.field.__set__(instance, value)
+        else:
+            instance.__dict__[self.name] = value
 
     def __get__(self, instance, owner):
         self.container.instantiate_if_needed(instance)
+        if hasattr(self.field, '__get__'):
+            return self.field.__get__(instance, owner)
+        if self.name not in instance.__dict__:
+            raise AttributeError(self.name)
         return instance.__dict__[self.name]
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 4bd4b53571c0b4e80d3fd480fe4c173b231629ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 19/54] fix: the size of a string's length prefix was computed
 for the string instead of its length

---
 src/infi/instruct/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 41067a8..6dfc97a 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -56,7 +56,8 @@ class VarSizeStringMarshal(Marshal):
         return repr(obj)
 
     def sizeof(self, obj):
-        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))
+        stripped_len = len(_strip(obj, self.padding_direction, self.padding))
+        return self.size_marshal.sizeof(stripped_len) + stripped_len
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-- 
2.43.0


From ca792e169c4d569b2c9da3b1ef1e9d880c645080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 20/54] fix: the size of a struct was computed from another
 class than the one that is written

---
 src/infi/instruct/struct/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index e29f1cd..f195c25 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -186,7 +186,7 @@ class Struct(object):
 
     @classmethod
     def sizeof(cls, obj):
-        return cls._container_.sizeof(obj)
+        return type(obj)._container_.sizeof(obj)
 
     @classmethod
     def write_to_string(cls, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 5aa06ee9827b98cedbf6e3bec19d591fc591ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 21/54] fix: the size bounds of a struct selector were the sum
 of its structs' bounds

---
 src/infi/instruct/struct/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..60ea456 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -19,7 +19,9 @@ class StructSelectorMarshal(Marshal):
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        # Only one of the structs is read or written.
+        sizes = [struct.min_max_sizeof() for struct in structs]
+        self.min_max_size = MinMax(min([s.min for s in sizes]), max([s.max for s in sizes])) if sizes else ZERO_MIN_MAX
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
-- 
2.43.0


From e7dc4853d3c98c9b251f90b0a74e26f54f0c738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 22/54] fix: a struct selector ignored its mapping

---
 src/infi/instruct/struct/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 60ea456..25627bf 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,8 +12,8 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
+        for key, struct in mapping.items():
+            if not (isinstance(struct, type) and issubclass(struct, Struct)):
                 raise ValueError("mapping key %s must be a subclass of Struct" % key)
             self.mapping[key] = struct
 
-- 
2.43.0


From df127ed9173ad4f7a21d7755fc8c99a582a7c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 23/54] fix: arrays and strings counted by a read pointer
 declared themselves empty and fixed-size

---
 src/infi/instruct/array.py  |  5 ++---
 src/infi/instruct/base.py   | 10 ++++++++++
 src/infi/instruct/string.py |  4 ++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 58c085c..beb45ff 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,5 @@
 from ._compat import range
-from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, max_value_of_size_marshal
 from .errors import InstructError
 
 class ArrayBase(object):
@@ -7,8 +7,7 @@ class ArrayBase(object):
         return "[ " + ", ".join([self.element_marshal.to_repr(element, context) for element in obj]) + " ]"
 
     def _approx_max_elements_by_size_bits(self):
-        size_min_max = self.size_marshal.min_max_sizeof()
-        return (1 << (size_min_max.max * 8)) - 1
+        return max_value_of_size_marshal(self.size_marshal)
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
diff --git a/src/infi/instruct/base.py b/src/infi/instruct/base.py
index df34e2a..272bf91 100644
--- a/src/infi/instruct/base.py
+++ b/src/infi/instruct/base.py
@@ -89,6 +89,16 @@ class MinMax(collections.namedtuple('MinMax', 'min max')):
 UNBOUNDED_MIN_MAX = MinMax(0, sys.maxsize)
 ZERO_MIN_MAX = MinMax(0, 0)
 
+def max_value_of_size_marshal(size_marshal):
+    """
+    Returns the biggest number a size/count marshal may yield. If it's not stored next to what it counts (e.g. read
+    pointer) or it has no small bound of its own we know nothing about it.
+    """
+    size_min_max = size_marshal.min_max_sizeof()
+    if size_min_max.max == 0 or size_min_max.max > 8:
+        return sys.maxsize
+    return (1 << (size_min_max.max * 8)) - 1
+
 class MarshalBase(object):
     def sizeof(self, obj):
         raise NotImplementedError()
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 6dfc97a..a15e68b 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,4 +1,4 @@
-from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
+from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax, max_value_of_size_marshal
 from .errors import InstructError, InvalidValueError
 from ._compat import pad
 
@@ -61,7 +61,7 @@ class VarSizeStringMarshal(Marshal):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-        return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
+        return MinMax(size_min_max.min, size_min_max.max + max_value_of_size_marshal(self.size_marshal))
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
     def __init__(self, size, padding=b'\x00', padding_direction=PADDING_DIRECTION_RIGHT):
-- 
2.43.0


From ae3b59316b4784a4890c99c1718783f0f7197605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 24/54] fix: byte padding accepted a stream that ends inside it

---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f278b2d 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From d604487e8cbe41b65d45aee93668afaf75add062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 25/54] fix: a bit-field group was decoded from a stream that
 ends inside its unused bits

---
 src/infi/instruct/struct/bit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index c8e62a8..f15b18f 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -1,8 +1,14 @@
 from . import FieldListContainer
 from ..base import FixedSizer, Marshal, MinMax, EMPTY_CONTEXT
-from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
+from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError, NotEnoughDataError
 from ..utils.bitstringio import BitStringIO
 
+def read_exactly(stream, size):
+    data = stream.read(size)
+    if len(data) < size:
+        raise NotEnoughDataError(expected=size, actually_read=len(data))
+    return data
+
 class BitMarshal(FixedSizer, Marshal):
     def __init__(self, size):
         super(BitMarshal, self).__init__()
@@ -44,7 +50,7 @@ class BitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        bit_stream = BitStringIO(read_exactly(stream, self.size))
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
 
@@ -103,6 +109,6 @@ class PositionalBitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        bit_stream = BitStringIO(read_exactly(stream, self.size))
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
-- 
2.43.0


From f77443b523b62807630568448e8de053858e69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 26/54] fix: a lazy group read from a truncated stream was only
 refused when its fields were used

---
 src/infi/instruct/struct/lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index fdb02e3..f180308 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -2,6 +2,7 @@ from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -69,6 +70,8 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
         setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
 
     def is_instantiated(self, obj):
-- 
2.43.0


From 25b7f9446e564c0a529f531b8e9e965fddbdd9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 27/54] fix: integers of other than 1, 2, 4 or 8 bytes were
 decoded from a shorter buffer

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..1dbd619 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -89,6 +89,8 @@ def pack_int(value, **kwargs):
 
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
+    if buffer.length() < byte_size:
+        raise ValueError("int byte_size is {} but got buffer with length {}".format(byte_size, buffer.length()))
     result = 0
     l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
     for b in l:
-- 
2.43.0


From a49f3017387ce7bdceba7fac8d2e3a642153c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 28/54] fix: numbers and text were decoded from a section up to
 seven bits too short

---
 src/infi/instruct/buffer/serialize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 1dbd619..f737519 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -102,7 +102,7 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
 def unpack_struct_int(buffer, format_char, **kwargs):
     format = format_from_struct_int_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 STRUCT_INT_UNPACKERS = {
@@ -154,7 +154,7 @@ STRUCT_FLOAT_PACKERS = {
 def unpack_struct_float(buffer, format_char, **kwargs):
     format = format_from_struct_float_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 
@@ -206,8 +206,8 @@ def unpack_str(buffer, **kwargs):
     padding = args['padding']
     strip = args['strip']
     byte_size = kwargs_int_byte_size(args)
-    if byte_size and len(buffer) < byte_size:
-        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, len(buffer)))
+    if byte_size and buffer.length() < byte_size:
+        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, buffer.length()))
 
     value = buffer[0:byte_size].to_bytes()
     if byte_size is not None:
-- 
2.43.0


From c9e7dd80fa779c868db604480bd84c3c109254b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 29/54] fix: ReadAheadStream could never be written to

---
 src/infi/instruct/utils/read_ahead_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/utils/read_ahead_stream.py b/src/infi/instruct/utils/read_ahead_stream.py
index b569d41..404d64f 100644
--- a/src/infi/instruct/utils/read_ahead_stream.py
+++ b/src/infi/instruct/utils/read_ahead_stream.py
@@ -29,6 +29,6 @@ class ReadAheadStream(object):
     def write(self, buf):
         if len(self.buffer) > 0:
             raise IOError("cannot write while there are still bytes in the read-ahead buffer")
-        if self.read_ahead:
+        if self.read_ahead_mode:
             raise IOError("cannot write while in read-ahead mode")
         return self.stream.write(buf)
-- 
2.43.0


From 859855870ef018b830806c872fc1d6c74b6272e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 30/54] fix: a function selector that peeked too much failed on
 formatting its error

---
 src/infi/instruct/struct/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 25627bf..65609b4 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -76,7 +76,7 @@ class FuncStructSelectorMarshal(Marshal):
         result = reader.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
             raise InstructError("deserialized object %s but still have bytes in read-ahead buffer" %
-                                (result.to_repr(context),))
+                                (reader.to_repr(result, context),))
         return result
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 4017fcdfac07457c795f3ae494eae1a41c66032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 31/54] fix: nested mutable defaults and struct defaults were
 shared between instances

---
 src/infi/instruct/struct/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index f195c25..d6b873f 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -1,4 +1,5 @@
 from array import array
+from copy import deepcopy
 from .._compat import StringIO, PY2
 from six import add_metaclass
 
@@ -6,7 +7,10 @@ from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
 
 def copy_if_supported(obj):
-    return obj.copy() if hasattr(obj, 'copy') else obj
+    # Nested values must not be shared as well, so a shallow copy isn't enough.
+    if hasattr(obj, 'copy') or hasattr(obj, '__deepcopy__') or isinstance(obj, (tuple, Struct)):
+        return deepcopy(obj)
+    return obj
 
 class FieldMarshal(MarshalBase):
     def prepare_class(self, cls):
-- 
2.43.0


From d1763ba36b65475265cf4dfb7720e2d8a4999ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 32/54] fix: a mutable default of a buffer's field was shared
 between instances

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..d0f7ec0 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,4 +1,5 @@
 import math
+from copy import deepcopy
 import itertools
 from six import add_metaclass
 import six
@@ -97,7 +98,7 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                setattr(self, field.attr_name(), deepcopy(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From 42eee1c813a62f4cc06ac63251e672e5dae45c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 33/54] fix: a keyword-only argument that names a field was not
 passed to the struct's initializer

---
 src/infi/instruct/struct/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index d6b873f..d5ca122 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -159,7 +159,9 @@ class StructType(type):
                 # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
                 # and logical_block_address is also a field in the struct, so in this scenario instruct will
                 # "eat" the arg and we need to put it back.
-                for arg in user_init.__code__.co_varnames[0:user_init.__code__.co_argcount]:
+                code = user_init.__code__
+                arg_count = code.co_argcount + getattr(code, 'co_kwonlyargcount', 0)
+                for arg in code.co_varnames[0:arg_count]:
                     if arg in orig_kwargs:
                         kwargs[arg] = orig_kwargs[arg]
                 user_init(self, *args, **kwargs)
-- 
2.43.0


From 72d574b6e8015e1fa7ce73e63ead3d44f2ae9e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 34/54] fix: 8-byte floats could not be unpacked

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index f737519..49e7f12 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -167,7 +167,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From 21dcc0b4f321eb2713d194aba1c625eb402e865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 35/54] fix: string list elements of a fixed size could not be
 packed or unpacked in Python 3

---
 src/infi/instruct/buffer/macros.py    | 2 +-
 src/infi/instruct/buffer/serialize.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..04660dc 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -67,7 +67,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 49e7f12..a40322c 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -178,7 +178,7 @@ JUSTIFY_OPTIONS = ('left', 'right', 'center')
 
 
 def str_args_from_kwargs(kwargs):
-    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=' ', justify='left'), kwargs)
+    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=b' ', justify='left'), kwargs)
     assert_kwarg_enum(args, 'justify', JUSTIFY_OPTIONS)
     assert len(args['padding']) == 1, "padding must be exactly one character but instead got {0!r}".format(args['padding'])
     return args
-- 
2.43.0


From a052762f2b2aa6b2b80d324562beedf1e64652ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 36/54] fix: a string of a fixed size consumed the rest of its
 list

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index a40322c..32f403d 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -218,7 +218,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, len(buffer) if byte_size is None else byte_size
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From ef33d957b98f248a5a2feb546616b3f3e7100801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 37/54] fix: a buffer field with an explicit byte size lost its
 type

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 04660dc..9bb7803 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -276,7 +276,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From 56c8f56be83af6145d2fa03597081e2ea9eab6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 38/54] fix: the value computed by set_after_unpack was not set

---
 src/infi/instruct/buffer/field_reference_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..b2ffb06 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -227,11 +227,13 @@ class FieldReferenceBuilder(object):
         if self.set_after_unpack is not None:
             if not isinstance(self.set_after_unpack, Reference):
                 unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
+            else:
+                unpack_value_ref = self.set_after_unpack
         else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+            unpack_value_ref = field_unpack_ref
 
-        self.field.unpack_value_ref = unpack_value_ref
+        self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
+                                                          self.field.attr_name_ref, unpack_value_ref)
 
     def set_field_unpack_after(self):
         if self.unpack_after is None:
-- 
2.43.0


From be0db0e00c33ff825230468ec616b1a5da660244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 39/54] fix: a list of elements that take no bytes looped
 forever when unpacked without a count

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 32f403d..5fc465d 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -298,6 +298,8 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
     while offset < buffer.length() and (n is None or index < n):
         unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
+        if n is None and item_len == 0:
+            raise InstructError("an element that takes no bytes cannot be repeated to the end of the buffer")
         result.append(item)
         offset += item_len
         index += 1
-- 
2.43.0


From b1f29a12db031b714fcf8f61b02ab73699ad8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 40/54] fix: packing errors could not name the references
 involved (broken reprs)

---
 src/infi/instruct/buffer/reference/after_field.py | 2 +-
 src/infi/instruct/buffer/reference/func_call.py   | 2 +-
 src/infi/instruct/buffer/reference/range.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 99196ff..9c75824 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -27,4 +27,4 @@ class AfterFieldReference(Reference):
         return offset
 
     def __safe_repr__(self):
-        return "after({0})".format(self.field_ref.attr_name_ref.deref(Context()))
+        return "after({0})".format(self.field_ref.attr_name())
diff --git a/src/infi/instruct/buffer/reference/func_call.py b/src/infi/instruct/buffer/reference/func_call.py
index 6499902..5f12390 100644
--- a/src/infi/instruct/buffer/reference/func_call.py
+++ b/src/infi/instruct/buffer/reference/func_call.py
@@ -28,7 +28,7 @@ class FuncCallReference(Reference):
         # Small hacks to make repr look better:
         if isinstance(self.func_ref, ObjectReference) \
                 and isinstance(self.func_ref.obj, (types.FunctionType, types.MethodType)):
-            func_ref_repr = self.func_ref.obj.func_name
+            func_ref_repr = self.func_ref.obj.__name__
         else:
             func_ref_repr = safe_repr(self.func_ref)
         return "{0}({1}))".format(func_ref_repr, self._args_and_kwargs_repr())
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 213876c..a967cc0 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -37,7 +37,7 @@ class ListRangeReference(RangeReference):
         return SequentialRangeList(reduce(operator.add, [ref.deref(ctx) for ref in self.list]))
 
     def __safe_repr__(self):
-        return "[{0}]".format(", ".join(safe_repr(o for o in self.list)))
+        return "[{0}]".format(", ".join(safe_repr(o) for o in self.list))
 
 
 class BitContainer(object):
-- 
2.43.0


From 157c6f886746e5c59039aef476182df67c7649f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 41/54] fix: a value shorter than its ranges by less than a
 byte was accepted

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 369857a..0632c9b 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -307,13 +307,13 @@ class OutputBuffer(object):
                             format(type(buffer)))
 
     def set(self, value, range_list):
-        value = BitView(value)
+        value = value if isinstance(value, BitView) else BitView(value)
         value_start = 0
 
         for range in range_list:
             assert not range.is_open()
             assert range.start >= 0 and range.start <= range.stop
-            if range.byte_length() > len(value) - value_start:
+            if range.byte_length() > value.length() - value_start:
                 raise ValueError("trying to assign a value with smaller length than the range it's given")
             self.buffer.zfill(range.start)
             self.buffer[range.start:range.stop] = value[value_start:value_start + range.byte_length()]
-- 
2.43.0


From b4f877734a53a2d5776f4c41806ee07e4df6bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 42/54] fix: a field whose open range is not its last one was
 packed with a wrong size

---
 .../instruct/buffer/field_reference_builder.py    | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index b2ffb06..2379e29 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -2,7 +2,7 @@ import itertools
 
 from infi.instruct.utils.safe_repr import safe_repr
 
-from .io_buffer import InputBuffer, OutputBuffer
+from .io_buffer import BitView, InputBuffer, OutputBuffer
 from .reference import (Reference, Context, ContextGetAttrReference, ObjectReference,
                         FuncCallReference, FieldReference, GetAttrReference, AssignAttrReference)
 from .range import SequentialRangeList
@@ -26,18 +26,15 @@ class PackAbsolutePositionReference(Reference):
             # We need the serialization result of this field to set the range. Note that we already checked if the
             # position has overlapping ranges, so there may be only a single open range.
             packed_field = self.field.pack_ref.deref(ctx)
-            current_length = 0
-            absolute_position_list = []
-            for pos in position_list:
-                abs_pos = pos.to_closed(pos.start + len(packed_field) - current_length)
-                absolute_position_list.append(abs_pos)
-                current_length += abs_pos.byte_length()
-            return absolute_position_list
+            packed_length = packed_field.length() if isinstance(packed_field, BitView) else len(packed_field)
+            closed_length = sum(pos.byte_length() for pos in position_list if not pos.is_open())
+            return SequentialRangeList(pos if not pos.is_open() else pos.to_closed(pos.start + packed_length - closed_length)
+                                       for pos in position_list)
         else:
             return position_list
 
     def __safe_repr__(self):
-        return "pack_abs_position({0!r}, {1!r})".format(self.field, self.position_list)
+        return "pack_abs_position({0!r}, {1!r})".format(self.field, self.pack_position_ref)
 
 
 class UnpackAbsolutePositionReference(Reference):
-- 
2.43.0


From ad418d1c19b0eff96fd14e146ff00948e501527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 43/54] fix: field overridden in a subclass of a buffer was
 still packed and unpacked

---
 src/infi/instruct/buffer/buffer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index d0f7ec0..7453dd3 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -67,6 +67,16 @@ class BufferType(type):
         setattr(new_cls, '__fields__', fields)
         return new_cls
 
+    def all_fields(cls):
+        """Returns the fields of the class, inherited ones that weren't overridden by another field included."""
+        fields, names = [], set()
+        for base in cls.mro():
+            for field in vars(base).get('__fields__', []):
+                if field.attr_name() not in names:
+                    names.add(field.attr_name())
+                    fields.append(field)
+        return fields
+
     @classmethod
     def calc_byte_size(cls, class_name, fields):
         ctx = PackContext(None, fields)
@@ -155,11 +165,7 @@ class Buffer(object):
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
-        fields = []
-        for cls in type(self).mro():
-            cls_fields = getattr(cls, '__fields__', [])
-            fields.extend(cls_fields)
-        return fields
+        return type(self).all_fields()
 
     def _all_field_names(self):
         return set(field.attr_name() for field in self._all_fields())
-- 
2.43.0


From 82788e068477a149beb746fabd38cb277885bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 44/54] fix: size of a buffer class ignored inherited fields

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 7453dd3..7309a11 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -63,8 +63,9 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
         setattr(new_cls, '__fields__', fields)
+        setattr(new_cls, 'byte_size',
+                attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, new_cls.all_fields()))
         return new_cls
 
     def all_fields(cls):
-- 
2.43.0


From ae9d7e1ec2e8b1ccf36071838e17f07cb7546f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 45/54] fix: calc_byte_size of a buffer object ignored
 inherited fields

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 7309a11..fc94f2f 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -162,7 +162,7 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
     def _all_fields(self):
-- 
2.43.0


From 1360d4aebbc21e37eb7660ddb0f7a8627b33ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 46/54] fix: total_size when packing counted disabled fields

---
 src/infi/instruct/buffer/reference/total_size.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..a5b97d8 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -16,7 +16,8 @@ class TotalSizeReference(Reference):
             return size
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields
+                     if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From b45d70a55f326c27a1c3583d5f595a6ab6434e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 47/54] fix: total_size when unpacking was wrong for a field
 with unsorted ranges

---
 src/infi/instruct/buffer/reference/total_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index a5b97d8..529b32b 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -32,7 +32,7 @@ class TotalSizeReference(Reference):
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
+            result = field.unpack_absolute_position_ref.deref(ctx).sorted().byte_offset(size)
             return result
         else:
             return 0
-- 
2.43.0


From cd045e8608553395b4d5d45bd6a05faa52caa88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 48/54] fix: disabled field that another field refers to was
 set when unpacking

---
 src/infi/instruct/buffer/buffer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index fc94f2f..c774aab 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -155,6 +155,11 @@ class Buffer(object):
             except:
                 raise chain_exceptions(InstructBufferError("Unpack error occurred", ctx, type(self), field.attr_name()))
 
+        # Decoding a field also sets it, so a disabled field that another one refers to isn't None any more.
+        for field in fields:
+            if not field.unpack_if.deref(ctx):
+                setattr(self, field.attr_name(), None)
+
         return self.calc_byte_size(ctx)
 
     def calc_byte_size(self, ctx=None):
-- 
2.43.0


From cc6c29d306575b81c367c1bed981a779cfb6760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:16 +0000
Subject: [PATCH 49/54] fix: 4-byte integers with unspecified byte order take 4
 bytes

struct's native '@l' is 8 bytes wide on 64-bit platforms, so such a field
packed 8 bytes, accepted values that do not fit and could not be read back.
---
 src/infi/instruct/buffer/serialize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 5fc465d..0478f95 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -61,7 +61,7 @@ def pack_bit_int(value, byte_size, **kwargs):
 
 def format_from_struct_int_arguments(format_char, kwargs):
     args = copy_defaults_and_override_with_kwargs(dict(sign='signed', endian='native'), kwargs)
-    assert_enum_argument('format_char', format_char, ('b', 'h', 'l', 'q'))
+    assert_enum_argument('format_char', format_char, ('b', 'h', 'i', 'q'))
     assert_kwarg_enum(args, 'sign', ('signed', 'unsigned'))
     assert_kwarg_enum(args, 'endian', ENDIAN_NAME_TO_FORMAT.keys())
     format_char = format_char.lower() if args["sign"] == "signed" else format_char.upper()
@@ -74,7 +74,7 @@ def pack_struct_int(value, format_char, **kwargs):
 STRUCT_INT_PACKERS = {
     1: keep_kwargs_partial(pack_struct_int, format_char='b'),
     2: keep_kwargs_partial(pack_struct_int, format_char='h'),
-    4: keep_kwargs_partial(pack_struct_int, format_char='l'),
+    4: keep_kwargs_partial(pack_struct_int, format_char='i'),
     8: keep_kwargs_partial(pack_struct_int, format_char='q')
 }
 
@@ -108,7 +108,7 @@ def unpack_struct_int(buffer, format_char, **kwargs):
 STRUCT_INT_UNPACKERS = {
     1: keep_kwargs_partial(unpack_struct_int, format_char='b'),
     2: keep_kwargs_partial(unpack_struct_int, format_char='h'),
-    4: keep_kwargs_partial(unpack_struct_int, format_char='l'),
+    4: keep_kwargs_partial(unpack_struct_int, format_char='i'),
     8: keep_kwargs_partial(unpack_struct_int, format_char='q')
 }
 
-- 
2.43.0


From aabc89efde19cc0e2fe3aef2d844403d278f481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:26 +0000
Subject: [PATCH 50/54] fix: read a whole number of bytes for a buffer whose
 size is not one

---
 src/infi/instruct/buffer/compat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..d8224af 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,3 +1,5 @@
+import math
+
 from .._compat import PY2
 
 class StructTypeAdapter(object):
@@ -18,7 +20,7 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            packed_data = stream.read(int(math.ceil(self.buffer_type.byte_size)))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 0cd3d644ef0eaf073c789e756420364da19ee943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 51/54] fix: refuse a stream that ends inside a buffer read
 through the struct adapter

---
 src/infi/instruct/buffer/compat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index d8224af..6f2f537 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,6 +1,7 @@
 import math
 
 from .._compat import PY2
+from ..errors import NotEnoughDataError
 
 class StructTypeAdapter(object):
     def __init__(self, buffer_type):
@@ -20,7 +21,10 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(int(math.ceil(self.buffer_type.byte_size)))
+            size = int(math.ceil(self.buffer_type.byte_size))
+            packed_data = stream.read(size)
+            if len(packed_data) < size:
+                raise NotEnoughDataError(expected=size, actually_read=len(packed_data))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 991701c78e05f0f044de7fff4d9a01895e26018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:07 +0000
Subject: [PATCH 52/54] fix: fields of a struct with a context of its own
 referred to its container, or to nothing

---
 src/infi/instruct/struct/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index d5ca122..8eeb1ec 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -227,8 +227,9 @@ class Struct(object):
             new_context = WritableContext(cls._context_.copy())
             new_context.update(context.get_dict())
         else:
-            # A nested struct gets its container's context, but "struct" is always the struct itself.
-            new_context = context.writable_copy(dict(struct=obj))
+            new_context = context.writable_copy()
+        # A nested struct gets its container's context, but "struct" is always the struct itself.
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From e542e6dfd44a896f906e73db8b21c7a3f96cdbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 53/54] fix: a plain list of ranges plus a range list raised
 AttributeError

---
 src/infi/instruct/buffer/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 34a91ae..49bdbd1 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -191,4 +191,4 @@ class SequentialRangeList(list, SequentialRangeMixin):
         return SequentialRangeList(super(SequentialRangeList, self).__add__(other))
 
     def __radd__(self, other):
-        return SequentialRangeList(super(SequentialRangeList, self).__radd__(other))
+        return SequentialRangeList(list(other) + list(self))
-- 
2.43.0


From c9fdd9e77079ed4c2392a16a70dd5881cef281d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:06 +0000
Subject: [PATCH 54/54] fix: negating a reference that is not a number returned
 NotImplemented as the expression

---
 src/infi/instruct/buffer/reference/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index cee4bc7..7eeccaf 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -209,7 +209,7 @@ class Reference(object):
 
     def __neg__(self):
         if not self.is_numeric():
-            return NotImplemented
+            raise TypeError("bad operand type for unary -: {0!r}".format(self))
         return NumericUnaryExpression(self, operator.neg)
 
     # FIXME: add rest of the operators, including unary ones
-- 
2.43.0

