From e2fa91b2b61f6b05046d0fc61881a2e084d55794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 01/35] fix: pad short logical record segments instead of
 refusing to write them

Records shorter than 12 bytes (e.g. a frame of one 1-byte channel) and visible
record lengths from 20 to 31, which pass the writer's own check, could not be written.
---
 .../logical_record/logical_record_bytes.py    | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..0dc02bc 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -69,9 +69,6 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
@@ -79,16 +76,18 @@ class LogicalRecordBytes:
         )
 
         size = n_bytes + 4  # adding header size - 4 bytes
-        if size % 2:
-            # total segment size must be even; if the number of bytes is odd, add a padding byte
-            size += 1
+
+        # the segment body cannot be shorter than 12 bytes and the total segment size must be even
+        n_padding = max(12 - n_bytes, n_bytes % 2)
+        if n_padding:
+            size += n_padding
             segment_attributes.has_padding = True
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
         if segment_attributes.has_padding:
-            new_bts += self.padding  # add the promised padding byte
+            new_bts += n_padding * RepC.USHORT.convert(n_padding)  # the last padding byte is the pad count
 
         return new_bts, size
 
@@ -99,7 +98,7 @@ class LogicalRecordBytes:
 
         Args:
             max_n_bytes :   Maximal number of bytes in a segment body. Note that 4 more bytes will be added for the
-                            header (and one more byte for the padding if the number of bytes is odd).
+                            header (and padding, if the number of bytes is odd or smaller than 12).
                             Must be an integer of minimal value of 12. Only this condition (>= 12) is checked;
                             other checks (type etc.) are left out for performance reasons.
 
@@ -108,19 +107,18 @@ class LogicalRecordBytes:
         """
 
         start_pos = 0  # start from the beginning of the logical record bytes
-        remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
+        remaining_size = self._size  # all bytes will be processed
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < 12:
+            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header)
+            raise ValueError(f"Max size of a logical record segment body cannot be less than 12 (got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
-                # the next segment would be shorter than 12 bytes, and this is not allowed
-                # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
+            if 0 < future_remaining_size < 12 and remaining_size >= 24:
+                # the next segment would be shorter than 12 bytes, i.e. it would have to be filled up with padding;
+                # to avoid that, shorten the current segment by a few bytes, which will be passed over to the next one
                 n_bytes -= (12 - future_remaining_size)
                 future_remaining_size = 12
 
-- 
2.43.0


From 648090d61d022c345ffd26523655f83a430470a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 02/35] fix: do not append unflagged padding to short no-format
 payloads

---
 .../logical_record/iflr_types/no_format_frame_data.py  | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..b9de52f 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,7 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From 9dcbd99dc6074c0201c7c02358107c67a9918dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 03/35] fix: write 2D channel data of non-native byte order as
 big-endian

---
 src/dliswriter/logical_record/iflr_types/frame_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/iflr_types/frame_data.py b/src/dliswriter/logical_record/iflr_types/frame_data.py
index b0d66ce..af8fbde 100644
--- a/src/dliswriter/logical_record/iflr_types/frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/frame_data.py
@@ -46,6 +46,6 @@ class FrameData(IFLR):
         body = self._frame.obname + write_struct_uvari(self._frame_number)
 
         for s in self._slots:
-            body += s.byteswap().tobytes()
+            body += np.asarray(s, dtype=s.dtype.newbyteorder('>')).tobytes()
 
         return body
-- 
2.43.0


From d8da111d571fa094217defc5f525c160fd68cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 04/35] fix: encode identifiers with a one-byte length prefix

IDENT values, attribute labels, units, set types and names and object names were
written with a UVARI length: malformed from 128 characters on, and not limited to 255.
---
 .../logical_record/core/attribute/attribute.py   |  6 +++---
 .../logical_record/core/eflr/eflr_set.py         |  6 +++---
 src/dliswriter/utils/internal/struct_writer.py   | 16 +++++++++++++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..933f1c5 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -218,7 +218,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -258,7 +258,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..7947b60 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -77,6 +77,16 @@ def write_struct_ascii(value: Any) -> bytes:
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as bytes in the IDENT format.
+
+    The first byte (USHORT) is the number of characters in the value (converted to str) - at most 255.
+    """
+
+    value_bytes = str(value).encode('ascii')
+    return RepresentationCode.USHORT.convert(len(value_bytes)) + value_bytes
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +109,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +122,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +138,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From 306dba66cfb8466d061773906f2923bf9e135510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 05/35] fix: do not cache encoded values by equality

-0.0/0.0, 1/1.0/True or items mutated after the first encoding compare (and hash) equal,
so values from earlier files or writes leaked into later ones.
---
 src/dliswriter/utils/internal/struct_writer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 7947b60..4ea0b9a 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timezone
 from typing import Any, TYPE_CHECKING
-from functools import lru_cache
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -146,7 +145,6 @@ _struct_dict = {
 }
 
 
-@lru_cache(maxsize=65536)
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
-- 
2.43.0


From 0ec3dfdba62a83e348aa2e9593cc10ff2e262664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 06/35] fix: forget the memoised object name when the object's
 identity changes

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..4151bad 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -156,6 +156,8 @@ class EFLRItem:
         if isinstance(getattr(self, key, None), Attribute):
             raise RuntimeError(f"Cannot set DLIS Attribute '{key}'. Did you mean setting '{key}.value' instead?")
 
+
+        self.__dict__.pop('obname', None)  # the memoised identity might depend on the changed attribute
         return super().__setattr__(key, value)
 
     @cached_property
-- 
2.43.0


From bbdeb49232cca60b1e6cbb5fc31fc00b09c7964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 07/35] fix: write the symbol, not the member name, of units
 given as Unit members

---
 src/dliswriter/logical_record/core/attribute/attribute.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 933f1c5..9ccd871 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -152,8 +152,7 @@ class Attribute:
         if not self._units_settable:
             raise RuntimeError(f"Units of {self.__class__.__name__} cannot be set")
 
-        self._unit_checker(units)
-        self._units = units
+        self._units = self._unit_checker(units)
 
     @property
     def count(self) -> Union[int, None]:
-- 
2.43.0


From 3dd2d515fd3fdcefd775e9e44edc2c0eb636354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 08/35] fix: mark attributes with an empty value list as absent

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 4151bad..5dd8130 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -174,7 +174,7 @@ class EFLRItem:
 
         _bytes = b''
         for attr in self.attributes.values():
-            if attr.value is None:
+            if attr.value is None or attr.count == 0:
                 _bytes += b'\x00'
             else:
                 _bytes += attr.get_as_bytes()
-- 
2.43.0


From 97bf79cc2856fdd5c80c4d0fe0e0f067311b85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 09/35] fix: refuse lists of values for single-valued
 attributes

---
 src/dliswriter/logical_record/core/attribute/attribute.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 9ccd871..723c7c1 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -187,6 +187,8 @@ class Attribute:
             if not isinstance(value, (list, tuple)):
                 value = [value]
             return [self.converter(v) for v in value]
+        if isinstance(value, (list, tuple)):
+            raise TypeError(f"{self} can hold only a single value; got {type(value)}: {value}")
         return self.converter(value)
 
     @property
-- 
2.43.0


From 5f45be3e25156cc458e3dfa9786335ee13c43a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 10/35] fix: refuse non-text values of identifier attributes

---
 .../logical_record/core/attribute/subtypes.py         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..c078f26 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -360,6 +360,17 @@ class IdentAttribute(Attribute):
 
         super().__init__(*args, **kwargs)
 
+        if not self._converter:
+            self._converter = self._check_string
+
+    @staticmethod
+    def _check_string(v: Union[str, None]) -> Union[str, None]:
+        """Check that the provided value is a string (or None). Raise a TypeError otherwise."""
+
+        if v is not None and not isinstance(v, str):
+            raise TypeError(f"Expected a str, got {type(v)}: {v}")
+        return v
+
 
 class PropertiesAttribute(IdentAttribute):
     """Model an attribute representing properties of DLIS objects - Channel, Computation, and Process."""
-- 
2.43.0


From 6aff848bd0f19f23137d2b24499125e700d797a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 11/35] fix: apply the row window and dataset mapping to
 structured-array sources

---
 src/dliswriter/utils/source_data_wrappers.py | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..e695122 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -314,26 +314,6 @@ class NumpyDataWrapper(SourceDataWrapper):
 
         super().__init__(arr, mapping, known_dtypes=known_dtypes, from_idx=from_idx, to_idx=to_idx)
 
-    def load_chunk(self, start: int, stop: Union[int, None]) -> np.ndarray:
-        """Load a chunk of the input data.
-
-        If the target data type (data sets names and dtypes) is the same as the one in the source array,
-        take a slice of the source array directly.
-        Otherwise, use the 'load_chunk' from the superclass to copy the relevant data sets into a new structured array.
-
-        Args:
-            start   :   Start index.
-            stop    :   Stop index. If None, all data from start index till the end will be loaded.
-
-        Returns:
-            A structured numpy array, containing the required chunks of all the relevant data sets from the source data.
-        """
-
-        if self._dtype == self._data_source.dtype:
-            return self._data_source[start:stop]
-
-        return super().load_chunk(start, stop)
-
     @staticmethod
     def _check_source_arr(arr: np.ndarray) -> None:
         """Check that the input array is a structured, 1D numpy array."""
-- 
2.43.0


From 694348792ae982160fe193c0b8a8439749cd4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 12/35] fix: refuse frames whose channels have different row
 counts

---
 src/dliswriter/utils/source_data_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index e695122..a5e27eb 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -184,6 +184,10 @@ class SourceDataWrapper(ABC):
             Structured numpy.ndarray objects with the consecutive chunks of the source data.
         """
 
+        row_counts = {dataset_name: self._data_source[dataset_name].shape[0] for dataset_name in self._mapping.values()}
+        if len(set(row_counts.values())) > 1:
+            raise ValueError(f"Data sets of a single frame must all have the same number of rows; got {row_counts}")
+
         if chunk_rows is None:
             chunk_rows = self._n_rows
             n_full_chunks = 1
-- 
2.43.0


From 407ba90bf98a1355640758278efc0ad8ddbd6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 13/35] fix: refuse row windows reaching outside of the data

---
 src/dliswriter/utils/source_data_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index a5e27eb..da99740 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -50,6 +50,10 @@ class SourceDataWrapper(ABC):
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
-- 
2.43.0


From c49391fadaa6cd8f6dea7cdcf80735a08f0b1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 14/35] fix: refuse non-positive input chunk sizes

---
 src/dliswriter/file/multi_frame_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..c0e68cc 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Input chunk size must be a positive integer; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
-- 
2.43.0


From b7719f1633f984554e329a7483710fa251c80e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 15/35] fix: keep the element limit set by the user

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..388d4ae 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -139,7 +139,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+                self.element_limit.value = dim
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
-- 
2.43.0


From a5c6060c012b4aa39988e74a89d85c88fcbb566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 16/35] fix: keep an explicitly empty long name of a channel

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 388d4ae..d825ad3 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -197,7 +197,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.value = self.name
 
-- 
2.43.0


From 169c45286050f39ae84cb5dd8e44454fae0751da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 17/35] fix: do not let queries influence the order of sets

---
 src/dliswriter/file/eflr_sets_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..96a12d1 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -69,5 +69,5 @@ class EFLRSetsDict(defaultdict):
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
-        for value in self[eflr_set_type].values():
+        for value in self.get(eflr_set_type, {}).values():
             yield from value.get_all_eflr_items()
-- 
2.43.0


From 3d306b668277a37a3a06dcaea8044f16e6004241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 18/35] fix: treat an empty set name as no set name

---
 src/dliswriter/file/eflr_sets_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 96a12d1..1d40787 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -54,6 +54,7 @@ class EFLRSetsDict(defaultdict):
         """
 
         # dict mapping set names on EFLRSet (subclass) instances
+        set_name = set_name or None  # an empty name is not written to the file
         eflr_set_dict: dict[Union[str, None], AnyEFLRSet] = self[eflr_set_type]
 
         # instance of the EFLRSet with the given set name - if exists
-- 
2.43.0


From dfeae33827963080ec728a1fec75c8a6213203dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 19/35] fix: compute index metadata from the values which are
 written

---
 src/dliswriter/logical_record/eflr_types/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..0b1555a 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -98,7 +98,7 @@ class FrameItem(EFLRItem):
                 setattr(attr, key, value)
 
         index_channel: ChannelItem = self.channels.value[0]
-        index_data = data[index_channel.name][:]
+        index_data = data[index_channel.name][:].astype(data.dtype[index_channel.name].base)
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
-- 
2.43.0


From de91d7426702a0feafb3b708e7c2cc859b134f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 20/35] fix: do not write a spacing for single-row frames

---
 src/dliswriter/logical_record/eflr_types/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 0b1555a..00b0011 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -118,6 +118,9 @@ class FrameItem(EFLRItem):
             if index_data.ndim != 1:
                 raise RuntimeError(f"Index channel's data must be 1-dimensional; got {index_data.ndim} dimensions "
                                    f"for {index_channel} of {self}")
+            if index_data.shape[0] < 2:
+                return  # neither spacing nor direction can be determined from a single row
+
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
             if spacing is None:
-- 
2.43.0


From df0c62c3900602c0bf23f30949617362bec5a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 21/35] fix: compute index spacing of integer channels without
 wrap-around

---
 src/dliswriter/logical_record/eflr_types/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 00b0011..7ae332c 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -146,6 +146,9 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
+        if np.issubdtype(index_data.dtype, np.integer):
+            index_data = index_data.astype(np.int64)  # differences of narrow or unsigned integers would wrap around
+
         diff = np.diff(index_data)
         diff_unique = np.unique(diff)
 
-- 
2.43.0


From 9f8ae261f9388f07edf8cbffb916121215926606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 22/35] fix: do not write a non-finite index spacing

---
 src/dliswriter/logical_record/eflr_types/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 7ae332c..8a7f353 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -161,6 +161,9 @@ class FrameItem(EFLRItem):
         else:
             direction = None  # some increasing, some decreasing -> not determined
 
+        if not np.isfinite(diff_unique).all():
+            return None, direction  # missing or infinite index values -> spacing cannot be determined
+
         if len(diff_unique) == 1:
             # if spacing between each sample is the same, this is it
             return diff_unique[0], direction
-- 
2.43.0


From 99ab07ebca65ac557695ee77a4f972e80b415f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 23/35] fix: give distinct copy numbers to same-named objects
 in different sets of one type

---
 src/dliswriter/file/file.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..c0efd48 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -146,6 +146,9 @@ class DLISFile:
                     f"No Origin defined for the {idx_lf}-th logical file"
                 )
 
+        for logical_file in self.logical_files:
+            logical_file._assign_copy_numbers()
+
         multi_frame_data_objects: list[list[MultiFrameData]] = []
         frame_items: list[Generator[eflr_types.FrameItem, None, None]] = []
 
@@ -2115,6 +2118,16 @@ class LogicalFile:
 
         return z
 
+    def _assign_copy_numbers(self) -> None:
+        """Number the same-named objects of each type, so that every object of the logical file has its own identity."""
+
+        for eflr_set_dict in self._eflr_sets.values():
+            name_counts: dict[str, int] = {}
+            for eflr_set in eflr_set_dict.values():
+                for eflr_item in eflr_set.get_all_eflr_items():
+                    eflr_item._copy_number = name_counts.get(eflr_item.name, 0)
+                    name_counts[eflr_item.name] = eflr_item.copy_number + 1
+
     def check_objects(self) -> None:
         """Check objects defined for the DLISFile. Called before writing the file."""
 
-- 
2.43.0


From 1f6d467c01761d2c87026d97cac0c9a79cfeddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 24/35] fix: honour an explicit origin reference of 0

---
 src/dliswriter/file/file.py | 49 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index c0efd48..374b597 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -314,6 +314,11 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _get_origin_reference(self, origin_reference: Optional[int]) -> Union[int, None]:
+        """Return the origin reference chosen for an object or, if there is none, that of the defining origin."""
+
+        return origin_reference if origin_reference is not None else self.default_origin_reference
+
     @property
     def channels(self) -> list[eflr_types.ChannelItem]:
         """Channels defined for the DLIS."""
@@ -376,7 +381,7 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ax
@@ -452,7 +457,7 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -531,7 +536,7 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -673,7 +678,7 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -763,7 +768,7 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         if data is not None:
@@ -828,7 +833,7 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -900,7 +905,7 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -1017,7 +1022,7 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return eq
@@ -1130,7 +1135,7 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return fr
@@ -1176,7 +1181,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return g
@@ -1276,7 +1281,7 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ln
@@ -1327,7 +1332,7 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -1376,7 +1381,7 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return nf
@@ -1407,7 +1412,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1549,7 +1554,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1650,7 +1655,7 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1773,7 +1778,7 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1849,7 +1854,7 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1901,7 +1906,7 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return sp
@@ -1962,7 +1967,7 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return t
@@ -2052,7 +2057,7 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return w
@@ -2113,7 +2118,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return z
-- 
2.43.0


From 5198e93f41d6ebddb9d1faefb9ff621575acdb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 25/35] fix: leave objects of other logical files alone when
 adding an origin

---
 src/dliswriter/file/file.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 374b597..089790b 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1590,11 +1590,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
-- 
2.43.0


From a26ce7ed06a468a1628a10933972b07d1776ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 26/35] fix: refuse to write objects of different logical files
 in one set

---
 src/dliswriter/file/file.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 089790b..ddd6386 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -23,7 +23,7 @@ from dliswriter.utils.internal.types import (
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
 from dliswriter.utils import enums
-from dliswriter.logical_record.core.eflr import EFLRItem, AttrSetup
+from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, AttrSetup
 from dliswriter.logical_record.misc import StorageUnitLabel
 from dliswriter.logical_record import eflr_types
 from dliswriter.logical_record.iflr_types.no_format_frame_data import NoFormatFrameData
@@ -127,6 +127,21 @@ class DLISFile:
             for multi_frame_data in multi_frame_data_objects[idx_lf]:
                 yield from multi_frame_data
 
+    def _check_logical_files(self) -> None:
+        """Check that there is something to be written and that no set of objects belongs to several logical files."""
+
+        if not self.logical_files:
+            raise RuntimeError("No logical files defined for the file")
+
+        set_owners: dict[int, LogicalFile] = {}
+        for lf in self.logical_files:
+            for eflr_set in (lf.file_header.parent, *lf._get_all_eflr_sets()):
+                if set_owners.setdefault(id(eflr_set), lf) is not lf:
+                    raise RuntimeError(
+                        f"{eflr_set} is shared between logical files; "
+                        f"please specify a different 'set_name' for the objects of each logical file"
+                    )
+
     def generate_logical_records(
         self,
         chunk_size: Optional[int],
@@ -206,6 +221,7 @@ class DLISFile:
             This function is used in a timeit call to time the file creation.
             """
 
+            self._check_logical_files()
             for lf in self.logical_files:
                 lf.check_objects()
 
@@ -314,6 +330,12 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _get_all_eflr_sets(self) -> Generator[EFLRSet, None, None]:
+        """Iterate over all sets of objects (of any type) defined for the logical file, except for the file header."""
+
+        for eflr_set_dict in self._eflr_sets.values():
+            yield from eflr_set_dict.values()
+
     def _get_origin_reference(self, origin_reference: Optional[int]) -> Union[int, None]:
         """Return the origin reference chosen for an object or, if there is none, that of the defining origin."""
 
-- 
2.43.0


From 7eb324d68c9d1ec9267f44b9695d9032515f0956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 27/35] fix: require a single, valid file header per logical
 file

---
 src/dliswriter/file/file.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index ddd6386..d155858 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -292,17 +292,14 @@ class LogicalFile:
         # as an attribute, as we see below:
 
         self.file_header_item: eflr_types.FileHeaderItem
-        if file_header is not None:
-            self.file_header_item = file_header
-        else:
-            self.file_header_item = _set_up_sul_or_fh(
-                item_class=eflr_types.FileHeaderItem,
-                item=file_header,
-                header_id=fh_id,
-                identifier=fh_identifier,
-                sequence_number=fh_sequence_number,
-                parent=fh_set,  # file_header.parent
-            )
+        self.file_header_item = _set_up_sul_or_fh(
+            item_class=eflr_types.FileHeaderItem,
+            item=file_header,
+            header_id=fh_id,
+            identifier=fh_identifier,
+            sequence_number=fh_sequence_number,
+            parent=fh_set,  # file_header.parent
+        )
 
         self._data_dict: dict[str, np.ndarray] = {}
         self._max_dataset_copy = 1000
@@ -2185,6 +2182,9 @@ class LogicalFile:
         if not self.file_header:
             raise RuntimeError("No file header defined for the file")
 
+        if (n := self.file_header.parent.n_items) != 1:
+            raise RuntimeError(f"The set of a file header must contain a single file header; got {n}")
+
         if not self.defining_origin:
             raise RuntimeError("No origin defined for the file")
 
-- 
2.43.0


From ebd99a3dbf7aa46d080300f3d12d133869521257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 28/35] fix: refuse references to origins and objects not
 defined in the logical file

---
 src/dliswriter/file/file.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index d155858..a71d6a6 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1421,6 +1421,9 @@ class LogicalFile:
             A configured NoFormatFrameData instance.
         """
 
+        if not isinstance(no_format_object, eflr_types.NoFormatItem):
+            raise TypeError(f"Expected a NoFormatItem, got {type(no_format_object)}: {no_format_object}")
+
         d = NoFormatFrameData(no_format_object, data)
 
         self._no_format_frame_data.append(d)
@@ -2153,6 +2156,7 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_references()
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
@@ -2172,6 +2176,31 @@ class LogicalFile:
                     f"of the file header; got {repr(do.file_id.value)} and {repr(fh_id)}"
                 )
 
+    def _check_references(self) -> None:
+        """Check that all origins and objects referenced in the logical file are defined in it."""
+
+        eflr_sets = (self.file_header.parent, *self._get_all_eflr_sets())
+        eflr_items = [item for eflr_set in eflr_sets for item in eflr_set.get_all_eflr_items()]
+        known_item_ids = {id(item) for item in eflr_items}
+        known_origin_references = {origin.origin_reference for origin in self.origins}
+
+        def check_item_known(item: Any, referrer: Any) -> None:
+            if isinstance(item, EFLRItem) and id(item) not in known_item_ids:
+                raise RuntimeError(f"{item}, referenced by {referrer}, does not belong to the same logical file")
+
+        for eflr_item in eflr_items:
+            if eflr_item.origin_reference not in known_origin_references:
+                raise RuntimeError(
+                    f"Origin reference {eflr_item.origin_reference} of {eflr_item} "
+                    f"does not match any Origin of the logical file"
+                )
+            for attr in eflr_item.attributes.values():
+                for value in attr.flatten_list([attr.value]):
+                    check_item_known(value, attr)
+
+        for no_format_frame_data in self._no_format_frame_data:
+            check_item_known(no_format_frame_data.no_format_object, "no-format data")
+
     def _check_completeness(self) -> None:
         """Check that the collection contains all required objects in the required (min/max) numbers.
 
-- 
2.43.0


From f26ea58c33f93676afeb7a575cb6b44a55f870ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 29/35] fix: refuse invalid storage unit sequence numbers

---
 src/dliswriter/logical_record/misc/storage_unit_label.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..3291d15 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -24,6 +24,7 @@ class StorageUnitLabel:
 
     storage_unit_structure = 'RECORD'   #: storage unit structure (this is the only allowed value)
     dlis_version = 'V1.00'              #: version of DLIS this implementation is for
+    max_sequence_number = 9999      #: largest number fitting in the 4 characters reserved for it
     max_record_length_limit = 16384     #: maximal allowed length of a visible record
 
     def __init__(self, set_identifier: str, sequence_number: int = 1, max_record_length: int = 8192):
@@ -42,6 +43,12 @@ class StorageUnitLabel:
         self.set_identifier = validate_string(set_identifier)
         self.max_record_length = max_record_length
 
+        if not isinstance(sequence_number, int):
+            raise TypeError(f"Sequence number must be an integer; got {type(sequence_number)}: {sequence_number}")
+        if not 0 <= sequence_number <= self.max_sequence_number:
+            raise ValueError(f"Sequence number must be a non-negative integer not larger than {self.max_sequence_number}; "
+                             f"got {sequence_number}")
+
         if max_record_length > self.max_record_length_limit:
             raise ValueError(f"Max record length cannot be larger than {self.max_record_length_limit}")
 
-- 
2.43.0


From 10e9cacef98591632a713841b75eede878355964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 30/35] fix: do not carry values derived from the data of one
 write over to the next

---
 src/dliswriter/file/file.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index a71d6a6..2d8095b 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -5,6 +5,7 @@ Note: unless otherwise specified, all quotes come from teh RP66 v1 standard spec
 
 from typing import Any, Union, Optional, TypeVar, Generator
 import numpy as np
+from contextlib import contextmanager
 from timeit import timeit
 from datetime import timedelta, datetime
 import logging
@@ -127,6 +128,25 @@ class DLISFile:
             for multi_frame_data in multi_frame_data_objects[idx_lf]:
                 yield from multi_frame_data
 
+    @contextmanager
+    def _preserve_specification(self) -> Generator:
+        """Context manager. Undo all changes to the specification (e.g. values filled in from the data being written)."""
+
+        objects: list[Any] = list(self.logical_files)
+        for lf in self.logical_files:
+            for eflr_set in (lf.file_header.parent, *lf._get_all_eflr_sets()):
+                for eflr_item in eflr_set.get_all_eflr_items():
+                    objects.extend((eflr_item, *eflr_item.attributes.values()))
+
+        states = [vars(obj).copy() for obj in objects]
+
+        try:
+            yield
+        finally:
+            for obj, state in zip(objects, states):
+                vars(obj).clear()
+                vars(obj).update(state)
+
     def _check_logical_files(self) -> None:
         """Check that there is something to be written and that no set of objects belongs to several logical files."""
 
@@ -241,7 +261,8 @@ class DLISFile:
                 logical_records, output_chunk_size=output_chunk_size
             )
 
-        exec_time = timeit(timed_func, number=1)
+        with self._preserve_specification():
+            exec_time = timeit(timed_func, number=1)
         logger.info(
             f"DLIS file created in {timedelta(seconds=exec_time)} ({exec_time} seconds)"
         )
-- 
2.43.0


From 93fd36c925fc1d5b4dc72bd5876e36bbb828a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 31/35] fix: leave no trace of objects whose creation has been
 rejected

---
 src/dliswriter/file/file.py                   | 47 ++++++++++++++++++-
 .../logical_record/core/eflr/eflr_set.py      |  5 ++
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 2d8095b..eed642c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -3,8 +3,9 @@
 Note: unless otherwise specified, all quotes come from teh RP66 v1 standard specification.
 """
 
-from typing import Any, Union, Optional, TypeVar, Generator
+from typing import Any, Callable, Union, Optional, TypeVar, Generator
 import numpy as np
+import functools
 from contextlib import contextmanager
 from timeit import timeit
 from datetime import timedelta, datetime
@@ -58,6 +59,28 @@ def _set_up_sul_or_fh(item_class: type[T], item: Optional[T], **kwargs: Any) ->
     return item
 
 
+def undo_if_rejected(method: Callable) -> Callable:
+    """Decorator for methods of LogicalFile adding objects. If the call fails, remove what it has registered so far."""
+
+    @functools.wraps(method)
+    def wrapper(self: 'LogicalFile', *args: Any, **kwargs: Any) -> Any:
+        registries = (self._eflr_sets, self.physical_file._eflr_sets)
+        registered_sets = [{set_type: sets.copy() for set_type, sets in reg.items()} for reg in registries]
+        n_items = [(s, s.n_items) for sets in self.physical_file._eflr_sets.values() for s in sets.values()]
+
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            for registry, sets in zip(registries, registered_sets):
+                registry.clear()
+                registry.update(sets)
+            for eflr_set, n in n_items:
+                eflr_set.unregister_items(n)
+            raise
+
+    return wrapper
+
+
 def raise_or_warn(message: str) -> None:
     """If high-compatibility mode is on, raise a RuntimeError with given message. Otherwise, put it in the logs."""
 
@@ -377,6 +400,7 @@ class LogicalFile:
 
         return list(self._eflr_sets.get_all_items_for_set_type(eflr_types.OriginSet))
 
+    @undo_if_rejected
     def add_axis(
         self,
         name: str,
@@ -426,6 +450,7 @@ class LogicalFile:
 
         return ax
 
+    @undo_if_rejected
     def add_calibration(
         self,
         name: str,
@@ -502,6 +527,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_calibration_coefficient(
         self,
         name: str,
@@ -581,6 +607,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_calibration_measurement(
         self,
         name: str,
@@ -723,6 +750,7 @@ class LogicalFile:
 
         return m
 
+    @undo_if_rejected
     def add_channel(
         self,
         name: str,
@@ -845,6 +873,7 @@ class LogicalFile:
 
         return n
 
+    @undo_if_rejected
     def add_comment(
         self,
         name: str,
@@ -878,6 +907,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_computation(
         self,
         name: str,
@@ -950,6 +980,7 @@ class LogicalFile:
 
         return c
 
+    @undo_if_rejected
     def add_equipment(
         self,
         name: str,
@@ -1067,6 +1098,7 @@ class LogicalFile:
 
         return eq
 
+    @undo_if_rejected
     def add_frame(
         self,
         name: str,
@@ -1180,6 +1212,7 @@ class LogicalFile:
 
         return fr
 
+    @undo_if_rejected
     def add_group(
         self,
         name: str,
@@ -1226,6 +1259,7 @@ class LogicalFile:
 
         return g
 
+    @undo_if_rejected
     def add_long_name(
         self,
         name: str,
@@ -1326,6 +1360,7 @@ class LogicalFile:
 
         return ln
 
+    @undo_if_rejected
     def add_message(
         self,
         name: str,
@@ -1377,6 +1412,7 @@ class LogicalFile:
 
         return m
 
+    @undo_if_rejected
     def add_no_format(
         self,
         name: str,
@@ -1426,6 +1462,7 @@ class LogicalFile:
 
         return nf
 
+    @undo_if_rejected
     def add_no_format_frame_data(
         self, no_format_object: eflr_types.NoFormatItem, data: str
     ) -> NoFormatFrameData:
@@ -1467,6 +1504,7 @@ class LogicalFile:
             next_available_origin_ref += 1
         return next_available_origin_ref
 
+    @undo_if_rejected
     def add_origin(
         self,
         name: str,
@@ -1639,6 +1677,7 @@ class LogicalFile:
 
         return o
 
+    @undo_if_rejected
     def add_parameter(
         self,
         name: str,
@@ -1698,6 +1737,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_path(
         self,
         name: str,
@@ -1821,6 +1861,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_process(
         self,
         name: str,
@@ -1897,6 +1938,7 @@ class LogicalFile:
 
         return p
 
+    @undo_if_rejected
     def add_splice(
         self,
         name: str,
@@ -1949,6 +1991,7 @@ class LogicalFile:
 
         return sp
 
+    @undo_if_rejected
     def add_tool(
         self,
         name: str,
@@ -2010,6 +2053,7 @@ class LogicalFile:
 
         return t
 
+    @undo_if_rejected
     def add_well_reference_point(
         self,
         name: str,
@@ -2100,6 +2144,7 @@ class LogicalFile:
 
         return w
 
+    @undo_if_rejected
     def add_zone(
         self,
         name: str,
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..5e46076 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -84,6 +84,11 @@ class EFLRSet(LogicalRecord):
 
         self._eflr_item_list.append(child)
 
+    def unregister_items(self, n_items: int) -> None:
+        """Remove all items except for the first ones, as many as specified, from the items of this set."""
+
+        del self._eflr_item_list[n_items:]
+
     def get_all_eflr_items(self) -> list[EFLRItem]:
         """Return a list of all EFLRItem instances registered with this EFLRSet instance."""
 
-- 
2.43.0


From 88a83803f1c48514c6068783c3480b8b8ace01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 32/35] fix: apply the name restrictions also to objects
 renamed after their creation

---
 src/dliswriter/file/file.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index eed642c..5701700 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -24,6 +24,7 @@ from dliswriter.utils.internal.types import (
     AttrDict,
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
+from dliswriter.utils.internal.value_checkers import validate_string
 from dliswriter.utils import enums
 from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, AttrSetup
 from dliswriter.logical_record.misc import StorageUnitLabel
@@ -2223,6 +2224,7 @@ class LogicalFile:
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
         self._check_references()
+        self._check_names()
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
@@ -2242,6 +2244,15 @@ class LogicalFile:
                     f"of the file header; got {repr(do.file_id.value)} and {repr(fh_id)}"
                 )
 
+    def _check_names(self) -> None:
+        """Check that the names used in the file (some of which might have been changed) are still allowed."""
+
+        validate_string(self.physical_file.storage_unit_label.set_identifier)
+        validate_string(self.file_header.header_id)
+        for eflr_set in (self.file_header.parent, *self._get_all_eflr_sets()):
+            for eflr_item in eflr_set.get_all_eflr_items():
+                validate_string(eflr_item.name)
+
     def _check_references(self) -> None:
         """Check that all origins and objects referenced in the logical file are defined in it."""
 
-- 
2.43.0


From 1c27186fce12d37696f0a857f503e229fe6475c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 33/35] fix: refuse integers which float attributes cannot hold
 exactly

---
 src/dliswriter/logical_record/core/attribute/subtypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index c078f26..1774af9 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -1,5 +1,5 @@
 import logging
-from numbers import Number
+from numbers import Integral, Number
 from datetime import datetime
 from typing import Union, Optional, Any, overload
 
@@ -247,7 +247,11 @@ class NumericAttribute(Attribute):
         if not isinstance(value, Number):
             raise TypeError(f"Cannot convert a {type(value)} object ({value}) to float")
 
-        return float(value)
+        float_value = float(value)
+        if isinstance(value, Integral) and int(float_value) != value:
+            raise ValueError(f"{value} cannot be represented exactly as float")
+
+        return float_value
 
     def _convert_number(self, value: number_type) -> number_type:
         """Convert a provided value according to the attribute's representation code (or as a float)."""
-- 
2.43.0


From a87711172663d055567696f91c68041ef2a10e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:16 +0000
Subject: [PATCH 34/35] fix: warn about strings outside the high-compatibility
 set when the mode is off

As documented, the same inputs that raise in high-compatibility mode are
accepted with a logged warning outside of it; validate_string was silent.
---
 src/dliswriter/utils/internal/value_checkers.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..1ec575a 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,9 +1,12 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
 
+logger = logging.getLogger(__name__)
+
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
 
@@ -12,18 +15,20 @@ def validate_string(s: str) -> str:
 
     For more details, see https://well-id-widcdliswriter.readthedocs-hosted.com/userguide/compatibilityissues.html
 
+    If they are not, an error is raised in the high-compatibility mode and a warning is logged outside of it.
+
     Returns the original string.
     """
 
     if not isinstance(s, str):
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
-    if not global_config.high_compat_mode:
-        return s
-
     if HC_STRING_PATTERN.fullmatch(s) is None:
-        raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
-                         f"dashes, and underscores; got {repr(s)}")
+        message = ("In high-compatibility mode, strings can contain only uppercase characters, digits, "
+                   f"dashes, and underscores; got {repr(s)}")
+        if global_config.high_compat_mode:
+            raise ValueError(message)
+        logger.warning(message)
 
     return s
 
-- 
2.43.0


From aea3022926893c12ea33d42bec6bb7c1fda611b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:12 +0000
Subject: [PATCH 35/35] fix: count the file headers in the number of records
 shown by the progress bar

---
 src/dliswriter/file/file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 5701700..d2eefa3 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -232,6 +232,7 @@ class DLISFile:
             n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
 
         for idx_lf, logical_file in enumerate(self.logical_files):
+            n += 1  # the file header
             for mfd in multi_frame_data_objects[idx_lf]:
                 n += len(mfd)
             n += len(logical_file._no_format_frame_data)
-- 
2.43.0

