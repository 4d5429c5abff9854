From 01a4a85e06979f6948dc665809d0ae98ee3d4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 01/32] fix: pad short logical record segments instead of
 failing or padding the body

Segment bodies shorter than 12 bytes are padded (with the pad count in the
last byte and the padding flag set) when segments are made, so short frame
data and no-format records can be written and no-format payloads are kept
unaltered. Visible record lengths down to the accepted minimum of 20 work.
---
 .../logical_record/logical_record_bytes.py    | 42 ++++++++++---------
 .../iflr_types/no_format_frame_data.py        | 10 +----
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..cbcfb4a 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -12,6 +12,7 @@ class LogicalRecordBytes:
     """Wrap bytes of a LogicalRecord and StorageUnitLabel, adding segmenting functionalities."""
 
     padding: bytes = RepC.USHORT.convert(1)  #: padding byte added if the number of bytes in a segment is odd
+    min_segment_body_size = 12  #: min number of bytes in a segment body; shorter segment bodies are padded up to this
 
     def __init__(self, bts: bytes, lr_type_struct: bytes, is_eflr: bool = False):
         """Initialise a LogicalRecordBytes object.
@@ -69,26 +70,26 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
             is_last=is_last
         )
 
-        size = n_bytes + 4  # adding header size - 4 bytes
-        if size % 2:
-            # total segment size must be even; if the number of bytes is odd, add a padding byte
-            size += 1
-            segment_attributes.has_padding = True
+        # segment body cannot be shorter than 12 bytes and the total segment size must be even; add padding if needed
+        n_padding = max(0, self.min_segment_body_size - n_bytes)
+        n_padding += (n_bytes + n_padding) % 2
+        segment_attributes.has_padding = n_padding > 0
+
+        size = n_bytes + n_padding + 4  # adding header size - 4 bytes
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
-        if segment_attributes.has_padding:
+        if n_padding == 1:
             new_bts += self.padding  # add the promised padding byte
+        elif n_padding:
+            new_bts += n_padding * RepC.USHORT.convert(n_padding)  # last of the padding bytes must contain their number
 
         return new_bts, size
 
@@ -108,21 +109,24 @@ class LogicalRecordBytes:
         """
 
         start_pos = 0  # start from the beginning of the logical record bytes
-        remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
+        remaining_size = self._size  # all bytes will be processed
+        min_n_bytes = self.min_segment_body_size
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < min_n_bytes:
+            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header)
+            raise ValueError(f"Max size of a logical record segment body cannot be less than {min_n_bytes} "
+                             f"(got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
-                # the next segment would be shorter than 12 bytes, and this is not allowed
-                # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
-                n_bytes -= (12 - future_remaining_size)
-                future_remaining_size = 12
+            n_missing = min_n_bytes - future_remaining_size
+            if 0 < future_remaining_size < min_n_bytes and n_bytes - n_missing >= min_n_bytes:
+                # the next segment would be shorter than 12 bytes, so the current segment is shortened by a few bytes
+                # which are passed over to the next one (unless the current one would then become too short itself -
+                # in that case, the next segment will be padded)
+                n_bytes -= n_missing
+                future_remaining_size = min_n_bytes
 
             yield self.make_segment(start_pos, n_bytes)
 
diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..b9de52f 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,7 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From b2105b739b7163c52ebe7382e040a93a2eef06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 02/32] fix: encode IDENT values with a one-byte length

Names, labels, units, set types and IDENT attribute values longer than 127
characters were written with a two-byte (UVARI) length. They are now written
with a USHORT length, and rejected when longer than 255 characters.
---
 .../core/attribute/attribute.py               |  6 +++---
 .../logical_record/core/eflr/eflr_set.py      |  6 +++---
 .../logical_record/eflr_types/file_header.py  |  6 +++---
 .../utils/internal/struct_writer.py           | 19 ++++++++++++++++---
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..933f1c5 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -218,7 +218,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -258,7 +258,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 7895267..a4ac020 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -7,7 +7,7 @@ Unless otherwise specified, all quotes in this file come from the RP66 v1 standa
 from typing import Any
 
 from dliswriter.utils.internal.converters import get_ascii_bytes
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import RepresentationCode, EFLRType
 from dliswriter.logical_record.core.eflr import EFLRSet, EFLRItem
 from dliswriter.utils.internal.value_checkers import validate_string
@@ -109,11 +109,11 @@ class FileHeaderSet(EFLRSet):
         bts = b''
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('SEQUENCE-NUMBER')
+        bts += write_struct_ident('SEQUENCE-NUMBER')
         bts += pack_ushort(20)
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('ID')
+        bts += write_struct_ident('ID')
         bts += pack_ushort(20)
 
         return bts
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..ecd6b19 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -77,6 +77,19 @@ def write_struct_ascii(value: Any) -> bytes:
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as bytes of an identifier.
+
+    The first byte is the number of characters in the value (converted to str), which cannot exceed 255.
+    """
+
+    value_str = str(value)
+    if (length := len(value_str)) > 255:
+        raise ValueError(f"Identifier cannot be longer than 255 characters; got {length}: {repr(value_str)}")
+
+    return RepresentationCode.USHORT.convert(length) + value_str.encode('ascii')
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +112,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +125,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +141,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From 7b026e7d2f95e769db35da3dc6af8233d40e352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 03/32] fix: write the values, not the names, of string
 enumeration members

Unit members assigned as attribute units (and other enum members reaching the
struct writers) were written as e.g. 'Unit.METER' instead of 'm'.
---
 .../logical_record/core/attribute/attribute.py         |  3 +--
 src/dliswriter/utils/internal/struct_writer.py         | 10 ++++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 933f1c5..9ccd871 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -152,8 +152,7 @@ class Attribute:
         if not self._units_settable:
             raise RuntimeError(f"Units of {self.__class__.__name__} cannot be set")
 
-        self._unit_checker(units)
-        self._units = units
+        self._units = self._unit_checker(units)
 
     @property
     def count(self) -> Union[int, None]:
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index ecd6b19..884e6ad 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -67,13 +67,19 @@ def write_struct_dtime(date_time: datetime) -> bytes:
     return value
 
 
+def _to_str(value: Any) -> str:
+    """Convert value to str. For members of string enumerations, use the string value rather than the member name."""
+
+    return str.__str__(value) if isinstance(value, str) else str(value)
+
+
 def write_struct_ascii(value: Any) -> bytes:
     """Convert value to str, encode as ASCII, and represent as bytes.
 
     The first bytes are the number of characters in the value (converted to str).
     """
 
-    value_str = str(value)
+    value_str = _to_str(value)
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
@@ -83,7 +89,7 @@ def write_struct_ident(value: Any) -> bytes:
     The first byte is the number of characters in the value (converted to str), which cannot exceed 255.
     """
 
-    value_str = str(value)
+    value_str = _to_str(value)
     if (length := len(value_str)) > 255:
         raise ValueError(f"Identifier cannot be longer than 255 characters; got {length}: {repr(value_str)}")
 
-- 
2.43.0


From fba6e214dec731751c3638b18b40b80957378bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 04/32] fix: do not serve stale bytes from struct and obname
 caches

The struct cache was keyed on equality, so e.g. 0.0/-0.0, 1/True/1.0 or equal
date-times in other time zones, and EFLR items renamed since they were first
written, could be represented by the bytes of another value. The obname of an
item was not refreshed after its name or origin reference was changed.
---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 +++
 src/dliswriter/utils/internal/struct_writer.py       | 2 --
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..c2ed3b4 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -156,6 +156,9 @@ class EFLRItem:
         if isinstance(getattr(self, key, None), Attribute):
             raise RuntimeError(f"Cannot set DLIS Attribute '{key}'. Did you mean setting '{key}.value' instead?")
 
+        if key in ('name', '_origin_reference', '_copy_number'):
+            self.__dict__.pop('obname', None)  # the cached obname is no longer valid
+
         return super().__setattr__(key, value)
 
     @cached_property
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 884e6ad..a698fba 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timezone
 from typing import Any, TYPE_CHECKING
-from functools import lru_cache
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -155,7 +154,6 @@ _struct_dict = {
 }
 
 
-@lru_cache(maxsize=65536)
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
-- 
2.43.0


From 4ce0102f9318050e9854960d9908b5a90f7af40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 05/32] fix: write the source of a computation as an object
 reference with type

The source of a Computation can be an object of any type, so OBNAME (with no
object type) does not identify it; RP66 requires OBJREF for this attribute.
---
 src/dliswriter/logical_record/eflr_types/computation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/computation.py b/src/dliswriter/logical_record/eflr_types/computation.py
index 52ad2fd..9990518 100644
--- a/src/dliswriter/logical_record/eflr_types/computation.py
+++ b/src/dliswriter/logical_record/eflr_types/computation.py
@@ -5,7 +5,7 @@ from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, DimensionedIt
 from dliswriter.logical_record.eflr_types.axis import AxisSet
 from dliswriter.logical_record.eflr_types.zone import ZoneSet
 from dliswriter.logical_record.eflr_types.long_name import LongNameSet
-from dliswriter.utils.internal.internal_enums import EFLRType
+from dliswriter.utils.internal.internal_enums import EFLRType, RepresentationCode as RepC
 from dliswriter.logical_record.core.attribute import (EFLRAttribute, NumericAttribute, DimensionAttribute,
                                                       EFLROrTextAttribute, PropertiesAttribute)
 
@@ -33,7 +33,7 @@ class ComputationItem(EFLRItem, DimensionedItem):
         self.axis = EFLRAttribute('axis', object_class=AxisSet, multivalued=True)
         self.zones = EFLRAttribute('zones', object_class=ZoneSet, multivalued=True)
         self.values = NumericAttribute('values', multivalued=True, multidimensional=True)
-        self.source = EFLRAttribute('source')
+        self.source = EFLRAttribute('source', representation_code=RepC.OBJREF)
 
         super().__init__(name, parent=parent, **kwargs)
 
-- 
2.43.0


From 27548c446ec05816ee9182ef5efaa1fa1c35f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 06/32] fix: refuse to write a list as the value of a
 single-valued attribute

All elements were written, while the attribute count said there was just one.
---
 src/dliswriter/logical_record/core/attribute/attribute.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 9ccd871..a18433b 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -290,6 +290,8 @@ class Attribute:
 
         if value is not None:
             if isinstance(value, (list, tuple)):
+                if not self._multivalued:
+                    raise ValueError(f"{self} cannot have multiple values; got {value}")
                 for val in self.flatten_list(value):
                     bts += write_struct(rc, val)
             else:
-- 
2.43.0


From 30b5cdca13b906b6a14e011afd3c02620432d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 07/32] fix: do not share an EFLR set between logical files

Objects of the same type and set name added to different logical files ended
up in one set, which was then written to both logical files. Adding to a set
which holds objects of another logical file is now rejected. A set left empty
by a rejected call neither determines the order of sets nor belongs to anyone,
and defining an origin does not affect objects of other logical files.
---
 src/dliswriter/file/eflr_sets_dict.py         | 37 ++++++++++++++++++-
 src/dliswriter/file/file.py                   |  5 ---
 .../logical_record/core/eflr/eflr_set.py      |  6 ++-
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..6d1085d 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -34,7 +34,18 @@ class EFLRSetsDict(defaultdict):
         self[eflr_set.__class__][eflr_set.set_name] = eflr_set
 
     def try_add_set(self, eflr_set: EFLRSet) -> bool:
-        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise."""
+        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise.
+
+        The structure becomes the owner of the set. A RuntimeError is raised if the set belongs to another structure
+        (i.e. to another logical file) and already contains some items.
+        """
+
+        self._take_ownership(eflr_set)
+
+        if self.get(eflr_set.__class__, {}).get(eflr_set.set_name, None) is eflr_set and not eflr_set.n_items:
+            # the set was registered for an item which could not be created; its place in the structure is to be
+            # determined by the first item which actually gets added to it
+            self._remove_set(eflr_set)
 
         if eflr_set.set_name in self[eflr_set.__class__]:
             return False
@@ -42,6 +53,28 @@ class EFLRSetsDict(defaultdict):
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
             return True
 
+    def _remove_set(self, eflr_set: EFLRSet) -> None:
+        """Remove an empty EFLRSet from the structure. Make sure it does not affect the order of the remaining ones."""
+
+        eflr_set_dict = self[eflr_set.__class__]
+        eflr_set_dict.pop(eflr_set.set_name)
+        if not any(s.n_items for s in eflr_set_dict.values()):
+            # no objects of this type yet; place of the type in the structure is yet to be determined
+            self[eflr_set.__class__] = self.pop(eflr_set.__class__)
+
+    def _take_ownership(self, eflr_set: EFLRSet) -> None:
+        """Become the owner of the EFLRSet instance, unless it already has items and belongs to another structure."""
+
+        owner = eflr_set.registry
+
+        if owner is not None and owner is not self:
+            if eflr_set.n_items:
+                raise RuntimeError(f"{eflr_set} already contains objects of another logical file; please specify "
+                                   f"a different set name")
+            owner._remove_set(eflr_set)
+
+        eflr_set.registry = self
+
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
         """Given an EFLRSet subclass and name, either retrieve a relevant EFLRSet from the structure or create it.
 
@@ -69,5 +102,5 @@ class EFLRSetsDict(defaultdict):
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
-        for value in self[eflr_set_type].values():
+        for value in self.get(eflr_set_type, {}).values():
             yield from value.get_all_eflr_items()
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..23c157c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1582,11 +1582,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..9bd7bb0 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,11 +1,14 @@
 import logging
-from typing import Optional
+from typing import Optional, TYPE_CHECKING
 
 from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
 
+if TYPE_CHECKING:
+    from dliswriter.file.eflr_sets_dict import EFLRSetsDict
+
 
 logger = logging.getLogger(__name__)
 
@@ -30,6 +33,7 @@ class EFLRSet(LogicalRecord):
 
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
+        self.registry: "Optional[EFLRSetsDict]" = None  # collection of sets of the logical file this set belongs to
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
-- 
2.43.0


From 127d00788a56fb03fee835f8b21fe9673ae75ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 08/32] fix: make copy numbers distinct across all sets of a
 type in a logical file

Same-named objects put in different sets of one type got the same copy number,
hence the same identity.
---
 .../logical_record/core/eflr/eflr_item.py           | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index c2ed3b4..eafd91d 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -114,10 +114,17 @@ class EFLRItem:
         return v
 
     def _compute_copy_number(self) -> int:
-        """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
+        """Compute copy number of this ELFRItem, distinguishing it from other objects of the same type and name.
 
-        items_with_the_same_name = filter(lambda o: o.name == self.name, self.parent.get_all_eflr_items())
-        return len(list(items_with_the_same_name)) - 1
+        All sets of the given type which belong to the same logical file (if any) are taken into account.
+        """
+
+        registry = self.parent.registry
+        eflr_sets = registry.get(self.parent.__class__, {}).values() if registry is not None else (self.parent,)
+
+        copy_numbers = [o.copy_number for s in eflr_sets for o in s.get_all_eflr_items()
+                        if o.name == self.name and o is not self]
+        return max(copy_numbers, default=-1) + 1
 
     @classmethod
     def _check_parent(cls, parent: "EFLRSet") -> None:
-- 
2.43.0


From a77144c24c981f5724e8ce3add8b37c8d9441297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 09/32] fix: check object identities and references before
 writing

Dangling references (to objects of other logical files or files), origin
references which match no origin of the logical file, file header sets with
several objects and duplicate object identities are now rejected.
---
 src/dliswriter/file/file.py | 60 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 23c157c..781149b 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -23,7 +23,7 @@ from dliswriter.utils.internal.types import (
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
 from dliswriter.utils import enums
-from dliswriter.logical_record.core.eflr import EFLRItem, AttrSetup
+from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, AttrSetup
 from dliswriter.logical_record.misc import StorageUnitLabel
 from dliswriter.logical_record import eflr_types
 from dliswriter.logical_record.iflr_types.no_format_frame_data import NoFormatFrameData
@@ -2116,6 +2116,64 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_identities()
+        self._check_references()
+
+    def _get_all_non_empty_sets(self) -> list[EFLRSet]:
+        """Return a list of all EFLR sets of the logical file (including the file header) which contain any items."""
+
+        eflr_sets = [self.file_header_item.parent]
+        for eflr_set_dict in self._eflr_sets.values():
+            eflr_sets.extend(s for s in eflr_set_dict.values() if s.n_items)
+
+        return eflr_sets
+
+    def _check_identities(self) -> None:
+        """Check that the sets and objects of the logical file are uniquely identified and have an existing origin."""
+
+        if self.file_header_item.parent.n_items != 1:
+            raise RuntimeError("There should be exactly one file header in the file header set; "
+                               f"got {self.file_header_item.parent.n_items}")
+
+        origin_references = [o.origin_reference for o in self.origins]
+        set_ids, item_ids = set(), set()
+
+        for eflr_set in self._get_all_non_empty_sets():
+            set_id = (eflr_set.set_type, eflr_set.set_name or None)
+            if set_id in set_ids:
+                raise RuntimeError(f"More than one {eflr_set.set_type} set named {repr(eflr_set.set_name)} "
+                                   f"in the logical file")
+            set_ids.add(set_id)
+
+            for item in eflr_set.get_all_eflr_items():
+                if item.origin_reference not in origin_references:
+                    raise RuntimeError(f"Origin reference of {item} ({item.origin_reference}) does not correspond "
+                                       f"to any of the origins of the logical file")
+                item_id = (eflr_set.set_type, item.origin_reference, item.copy_number, item.name)
+                if item_id in item_ids:
+                    raise RuntimeError(f"More than one {item} with origin reference {item.origin_reference} "
+                                       f"and copy number {item.copy_number} in the logical file")
+                item_ids.add(item_id)
+
+    def _check_references(self) -> None:
+        """Check that all objects referred to by others are defined in the same logical file."""
+
+        items = [item for eflr_set in self._get_all_non_empty_sets() for item in eflr_set.get_all_eflr_items()]
+        known = {id(item) for item in items}
+
+        def check(referrer: Any, value: Any) -> None:
+            if isinstance(value, (list, tuple)):
+                for v in value:
+                    check(referrer, v)
+            elif isinstance(value, EFLRItem) and id(value) not in known:
+                raise RuntimeError(f"{value}, referred to by {referrer}, has not been added to the same logical file")
+
+        for item in items:
+            for attr in item.attributes.values():
+                check(attr, attr.value)
+
+        for nf_data in self._no_format_frame_data:
+            check("no-format frame data", nf_data.no_format_object)
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
-- 
2.43.0


From 3f06b556eade38f9e7f285365bfca08d0d4939bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 10/32] fix: check types of the arguments when adding no-format
 frame data

Data could be put under an object which is not a NO-FORMAT one.
---
 src/dliswriter/file/file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 781149b..fa0599c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1394,6 +1394,12 @@ class LogicalFile:
             A configured NoFormatFrameData instance.
         """
 
+        if not isinstance(no_format_object, eflr_types.NoFormatItem):
+            raise TypeError(f"Expected a NoFormatItem; got {type(no_format_object)}: {no_format_object}")
+
+        if not isinstance(data, (str, bytes, bytearray)):
+            raise TypeError(f"Expected a str, bytes, or bytearray; got {type(data)}: {data}")
+
         d = NoFormatFrameData(no_format_object, data)
 
         self._no_format_frame_data.append(d)
-- 
2.43.0


From 1c186f833cbb3a8eb99ce989986221749ee3f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 11/32] fix: honour an explicit origin reference of 0

Origin reference 0, which is valid, was treated as not specified.
---
 src/dliswriter/file/file.py | 124 +++++++++++++++++++++++++++++-------
 1 file changed, 102 insertions(+), 22 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index fa0599c..4746713 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -373,7 +373,11 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return ax
@@ -449,7 +453,11 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return c
@@ -528,7 +536,11 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return c
@@ -670,7 +682,11 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return m
@@ -760,7 +776,11 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         if data is not None:
@@ -825,7 +845,11 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return c
@@ -897,7 +921,11 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return c
@@ -1014,7 +1042,11 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return eq
@@ -1127,7 +1159,11 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return fr
@@ -1173,7 +1209,11 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return g
@@ -1273,7 +1313,11 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return ln
@@ -1324,7 +1368,11 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return m
@@ -1373,7 +1421,11 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return nf
@@ -1410,7 +1462,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1552,7 +1604,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1648,7 +1700,11 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return p
@@ -1771,7 +1827,11 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return p
@@ -1847,7 +1907,11 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return p
@@ -1899,7 +1963,11 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return sp
@@ -1960,7 +2028,11 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return t
@@ -2050,7 +2122,11 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return w
@@ -2111,7 +2187,11 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=(
+                origin_reference
+                if origin_reference is not None
+                else self.default_origin_reference
+            ),
         )
 
         return z
-- 
2.43.0


From ba9e7f301d4f17eb3f13e0d29a117f8b62e3d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 12/32] fix: treat an empty set name as no name; reject names
 which are not strings

Sets named '' and None were two separate objects written with the same
identity (set type and no name).
---
 src/dliswriter/file/eflr_sets_dict.py               | 3 +++
 src/dliswriter/logical_record/core/eflr/eflr_set.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 6d1085d..dab8cd5 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -86,6 +86,9 @@ class EFLRSetsDict(defaultdict):
             An EFLRSet instance of given subtype and name, registered in the structure.
         """
 
+        if set_name == '':
+            set_name = None  # empty name is the same as no name
+
         # dict mapping set names on EFLRSet (subclass) instances
         eflr_set_dict: dict[Union[str, None], AnyEFLRSet] = self[eflr_set_type]
 
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 9bd7bb0..4dd8a92 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -31,6 +31,9 @@ class EFLRSet(LogicalRecord):
 
         super().__init__()
 
+        if set_name is not None and not isinstance(set_name, str):
+            raise TypeError(f"Set name must be a str; got {type(set_name)}: {set_name}")
+
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self.registry: "Optional[EFLRSetsDict]" = None  # collection of sets of the logical file this set belongs to
-- 
2.43.0


From 36a595fbe96fd8cae4f194e8ee3cefcfb6d7ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 13/32] fix: bring source data to native byte order before
 writing

Data in non-native byte order (also if due to cast dtype) were byte-swapped
like native ones and hence written in the wrong order.
---
 src/dliswriter/utils/source_data_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..55cc8d9 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -108,6 +108,7 @@ class SourceDataWrapper(ABC):
             # determine the numpy number dtype
             number_type = known_dtypes.get(dtype_name, dset_row0.dtype)
             ReprCodeConverter.validate_numpy_dtype(number_type)
+            number_type = np.dtype(number_type).newbyteorder('=')  # FrameData assumes the chunks are in native order
 
             # determine the dtype of the data set (2- or 3-tuple)
             dt = (dtype_name, number_type)
-- 
2.43.0


From f3ac2591fcb7b9e3c16dd5138cf877638f38dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 14/32] fix: apply the row window when taking slices of a
 structured array directly

If the dtype of the source array matched that of the chunks exactly, from_idx
and to_idx were only reflected in the number of rows, not in their choice.
---
 src/dliswriter/utils/source_data_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 55cc8d9..0415fec 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -331,7 +331,9 @@ class NumpyDataWrapper(SourceDataWrapper):
         """
 
         if self._dtype == self._data_source.dtype:
-            return self._data_source[start:stop]
+            if stop is None:
+                stop = self._n_rows
+            return self._data_source[self._from_idx + start:self._from_idx + stop]
 
         return super().load_chunk(start, stop)
 
-- 
2.43.0


From 675a3f1bed41bff2651e426f47615e9f9e188007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 15/32] fix: reject inconsistent row counts, row windows out of
 range and chunk sizes < 1

Depending on which datasets were longer, frame data were silently truncated or
repeated; a negative chunk size produced a file without any frame data.
---
 src/dliswriter/file/multi_frame_data.py      |  4 ++++
 src/dliswriter/utils/source_data_wrappers.py | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..39d81d9 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Chunk size must be a positive integer; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
@@ -65,6 +67,8 @@ class MultiFrameData:
     def __iter__(self) -> Self:
         """Set up iteration over FrameData objects (to be) defined based on the data."""
 
+        self._data_source.check_n_rows()
+
         self._i = 0
         self._data_item_generator = self._data_source.make_chunked_generator(chunk_rows=self._chunk_rows)
         return self
diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 0415fec..382b47b 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -50,6 +50,10 @@ class SourceDataWrapper(ABC):
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
@@ -136,6 +140,13 @@ class SourceDataWrapper(ABC):
             raise ValueError(f"No dataset '{item}' found in the source data")
         return data[self._from_idx:self._to_idx]
 
+    def check_n_rows(self) -> None:
+        """Check that all datasets have the same number of rows. Raise a ValueError otherwise."""
+
+        n_rows = {loc: self._data_source[loc].shape[0] for loc in self._mapping.values()}
+        if len(set(n_rows.values())) > 1:
+            raise ValueError(f"All datasets must have the same number of rows; got: {n_rows}")
+
     def load_chunk(self, start: int, stop: Union[int, None]) -> np.ndarray:
         """Copy a chunk of the source data into a structured numpy array of the pre-determined dtype.
 
-- 
2.43.0


From 1c12a8701e9aa0a2d0c3d4ac94c82fc47601184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 16/32] fix: refuse to write a file with no logical files

---
 src/dliswriter/file/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 4746713..d3fe2af 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -203,6 +203,9 @@ class DLISFile:
             This function is used in a timeit call to time the file creation.
             """
 
+            if not self.logical_files:
+                raise RuntimeError("No logical files defined")
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From d21a74d2793c9f78bf5d53b6645e7223e8461149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 17/32] fix: keep the element limit set by the user if it
 bounds the dimension of the data

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..388d4ae 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -139,7 +139,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+                self.element_limit.value = dim
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
-- 
2.43.0


From 5ba51f93964c94b08940827bb4da06cb30d256a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 18/32] fix: do not let a write change the specification

Attribute values, representation codes and defaults determined while writing a
file (e.g. dimensions, index characteristics) and data passed to 'write' were
kept and used in, or made to fail, the following writes.
---
 src/dliswriter/file/file.py | 40 ++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index d3fe2af..24e5a68 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -5,6 +5,7 @@ Note: unless otherwise specified, all quotes come from teh RP66 v1 standard spec
 
 from typing import Any, Union, Optional, TypeVar, Generator
 import numpy as np
+from contextlib import contextmanager
 from timeit import timeit
 from datetime import timedelta, datetime
 import logging
@@ -176,6 +177,39 @@ class DLISFile:
 
         return SizedGenerator(self.generator(multi_frame_data_objects), size=n)
 
+    @contextmanager
+    def _preserved_specification(self) -> Generator:
+        """Context manager. Take back changes done to the objects (defaults, values based on data) within the context.
+
+        What is determined from the data or the current state of other objects when the file is written
+        should not affect the files written later, possibly with other data.
+        """
+
+        items = [
+            item
+            for lf in self.logical_files
+            for eflr_set in lf._get_all_non_empty_sets()
+            for item in eflr_set.get_all_eflr_items()
+        ]
+        attributes = [
+            (attr, attr._value, attr._units)
+            for item in items
+            for attr in item.attributes.values()
+        ]
+        cast_dtypes = [
+            (item, item._cast_dtype)
+            for item in items
+            if isinstance(item, eflr_types.ChannelItem)
+        ]
+
+        try:
+            yield
+        finally:
+            for attr, value, units in attributes:
+                attr._value, attr._units = value, units
+            for channel, cast_dtype in cast_dtypes:
+                channel._cast_dtype = cast_dtype
+
     def write(
         self,
         dlis_file_name: file_name_type,
@@ -225,7 +259,8 @@ class DLISFile:
                 logical_records, output_chunk_size=output_chunk_size
             )
 
-        exec_time = timeit(timed_func, number=1)
+        with self._preserved_specification():
+            exec_time = timeit(timed_func, number=1)
         logger.info(
             f"DLIS file created in {timedelta(seconds=exec_time)} ({exec_time} seconds)"
         )
@@ -2345,9 +2380,8 @@ class LogicalFile:
             data = {}
 
         if isinstance(data, dict):
-            self._data_dict = self._data_dict | data
             data_object = DictDataWrapper(
-                self._data_dict,
+                self._data_dict | data,
                 mapping=fr.channel_name_mapping,
                 known_dtypes=fr.known_channel_dtypes_mapping,
                 from_idx=from_idx,
-- 
2.43.0


From d7354d3305d18bd5ec83b67b0b3144c662700c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 19/32] fix: determine frame index characteristics from the
 data as written

Index min/max were computed before casting the index channel; differences of
unsigned integers wrapped around, giving false spacing and direction; spacing
of a single row was written as NaN.
---
 src/dliswriter/logical_record/eflr_types/frame.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..41802ab 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -98,7 +98,7 @@ class FrameItem(EFLRItem):
                 setattr(attr, key, value)
 
         index_channel: ChannelItem = self.channels.value[0]
-        index_data = data[index_channel.name][:]
+        index_data = data[index_channel.name][:].astype(data.dtype[index_channel.name].base)  # as will be written
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
@@ -120,7 +120,10 @@ class FrameItem(EFLRItem):
                                    f"for {index_channel} of {self}")
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
-            if spacing is None:
+            if index_data.shape[0] < 2:
+                logger.debug(f"Not enough rows to determine spacing of the index channel of {self}")
+
+            elif spacing is None:
                 # spacing cannot be used because it is not uniform enough; using only direction - if available
                 m = (f"Spacing of the index channel of {self} is not uniform; this can cause issues in some viewer "
                      f"software. Consider implicit indexing by row number number instead "
@@ -143,9 +146,12 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
-        diff = np.diff(index_data)
+        diff = np.diff(index_data.astype(np.float64))  # differences of (unsigned) integers could wrap around
         diff_unique = np.unique(diff)
 
+        if not len(diff):
+            return None, None  # not enough data to determine either
+
         if (diff_unique == 0).all():
             direction = None  # all zeros ->not determined
         elif (diff_unique >= 0).all():
@@ -155,7 +161,7 @@ class FrameItem(EFLRItem):
         else:
             direction = None  # some increasing, some decreasing -> not determined
 
-        if len(diff_unique) == 1:
+        if len(diff_unique) == 1 and np.isfinite(diff_unique[0]):
             # if spacing between each sample is the same, this is it
             return diff_unique[0], direction
 
-- 
2.43.0


From 52963ab0fec0b929062b05f55f3f3c144b838e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 20/32] fix: mark attributes with no values as absent

An attribute whose value is an empty list was written as present, with
the default count of one, but with no value at all.
---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index eafd91d..b683225 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -182,7 +182,7 @@ class EFLRItem:
 
         _bytes = b''
         for attr in self.attributes.values():
-            if attr.value is None:
+            if attr.value is None or attr.count == 0:
                 _bytes += b'\x00'
             else:
                 _bytes += attr.get_as_bytes()
-- 
2.43.0


From 8636c8c9c69a37f12aa88b5875b64189aeb58ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 21/32] fix: accept only strings as values of IDENT attributes

Other values were silently replaced by their text form.
---
 src/dliswriter/logical_record/core/attribute/subtypes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..d25fe35 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -360,6 +360,15 @@ class IdentAttribute(Attribute):
 
         super().__init__(*args, **kwargs)
 
+        if not self._converter:
+            self._converter = self._check_string
+
+    @staticmethod
+    def _check_string(v: Optional[str]) -> Optional[str]:
+        if v is not None and not isinstance(v, str):
+            raise TypeError(f'Expected a str, got {type(v)}: {v}')
+        return v
+
 
 class PropertiesAttribute(IdentAttribute):
     """Model an attribute representing properties of DLIS objects - Channel, Computation, and Process."""
-- 
2.43.0


From ebe6f8f7601f5ea0b26b2e1709bfd733842aed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:40 +0000
Subject: [PATCH 22/32] fix: reject integers which cannot be represented
 exactly as the float they become

Large integers set as values of numeric attributes were silently rounded.
---
 .../logical_record/core/attribute/subtypes.py    | 16 +++++++++++++---
 src/dliswriter/utils/internal/internal_enums.py  | 11 ++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index d25fe35..655a8be 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -1,5 +1,5 @@
 import logging
-from numbers import Number
+from numbers import Integral, Number
 from datetime import datetime
 from typing import Union, Optional, Any, overload
 
@@ -14,6 +14,16 @@ from dliswriter.utils.internal.types import number_type, dtime_or_number_type
 logger = logging.getLogger(__name__)
 
 
+def float_exactly(value: number_type) -> float:
+    """Convert a number to float. Raise a ValueError if it's an integer which does not have an exact float equivalent."""
+
+    value_float = float(value)
+    if isinstance(value, Integral) and value_float != int(value):
+        raise ValueError(f"{value} cannot be represented exactly as a float")
+
+    return value_float
+
+
 class EFLRAttribute(Attribute):
     """Define an attribute whose value(s) is/are EFLRObject instances.
 
@@ -140,7 +150,7 @@ class DTimeAttribute(Attribute):
             return value
 
         if isinstance(value, Number) and self._allow_float:
-            return float(value)
+            return float_exactly(value)
 
         if not isinstance(value, str):
             raise TypeError(f"Expected a datetime object, number, or str; got {type(value)}: {value}")
@@ -247,7 +257,7 @@ class NumericAttribute(Attribute):
         if not isinstance(value, Number):
             raise TypeError(f"Cannot convert a {type(value)} object ({value}) to float")
 
-        return float(value)
+        return float_exactly(value)
 
     def _convert_number(self, value: number_type) -> number_type:
         """Convert a provided value according to the attribute's representation code (or as a float)."""
diff --git a/src/dliswriter/utils/internal/internal_enums.py b/src/dliswriter/utils/internal/internal_enums.py
index 4d86d87..fd6203e 100644
--- a/src/dliswriter/utils/internal/internal_enums.py
+++ b/src/dliswriter/utils/internal/internal_enums.py
@@ -1,4 +1,5 @@
 from enum import Enum, IntEnum
+from numbers import Integral
 from struct import Struct
 from typing import Union, Any
 from typing_extensions import Self
@@ -64,7 +65,15 @@ class RepresentationCode(int, Enum):
 
         if self.converter is None:
             raise RuntimeError("Converter struct not defined; cannot directly convert the value to bytes")
-        return self.converter.pack(value)
+
+        bts = self.converter.pack(value)
+
+        if self <= RepresentationCode.CDOUBL and isinstance(value, Integral):
+            # (large) integers are among the values which can be packed as float only approximately
+            if self.converter.unpack(bts)[0] != int(value):
+                raise ValueError(f"{value} cannot be represented exactly as {self.name}")
+
+        return bts
 
     def decode_bytes(self, value: bytes) -> tuple[Any, ...]:
         """Convert bytes to a value according to the Struct pattern defined for the enum member (if any).
-- 
2.43.0


From eb5b29ed6cbdf79bde4e8b2c27278cbca82e1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:40 +0000
Subject: [PATCH 23/32] fix: do not replace an empty long name given by the
 user with the channel name

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 388d4ae..d825ad3 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -197,7 +197,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.value = self.name
 
-- 
2.43.0


From 698c1c221728e36957fb00dfbd51d0815199f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 24/32] fix: register EFLR items only after all their arguments
 are accepted

Items for which an exception was raised in the constructor stayed in the set
and got written to the file.
---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 4 +++-
 src/dliswriter/logical_record/eflr_types/channel.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index b683225..42a1fdd 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -61,7 +61,6 @@ class EFLRItem:
 
         self._check_parent(parent)
         self._parent = parent  #: EFLRSet instance this item belongs to
-        self._parent.register_item(self)
 
         #: origin reference value, common for records sharing origin
         self._origin_reference: Union[int, None] = self._validate_origin_reference(origin_reference, allow_none=True)
@@ -74,6 +73,9 @@ class EFLRItem:
 
         self.set_attributes(**{k: v for k, v in kwargs.items() if v is not None})
 
+        # register the item only once it is known to be valid
+        self._parent.register_item(self)
+
     @property
     def parent(self) -> "EFLRSet":
         """EFLRSet instance that this EFLRItem is a part of."""
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index d825ad3..ae6bc57 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -73,11 +73,11 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self.minimum_value = NumericAttribute('minimum_value', representation_code=RepC.FDOUBL, multivalued=True)
         self.maximum_value = NumericAttribute('maximum_value', representation_code=RepC.FDOUBL, multivalued=True)
 
-        super().__init__(name, parent=parent, **kwargs)
-
         self._dataset_name: Union[str, None] = dataset_name
         self._set_cast_dtype(cast_dtype)
 
+        super().__init__(name, parent=parent, **kwargs)
+
     @property
     def dataset_name(self) -> str:
         """Name of the data corresponding to this channel in the SourceDataWrapper."""
-- 
2.43.0


From bd59716c663fda357baa387d610c327fabf48a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 25/32] fix: check the type of dataset name before adding a
 channel

The channel stayed in the file if its data could not be stored under the given
dataset name.
---
 src/dliswriter/file/file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 24e5a68..1cd294f 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -834,6 +834,10 @@ class LogicalFile:
         current_dataset_names = [ch.dataset_name for ch in self.channels]
 
         if dataset_name is not None:
+            if not isinstance(dataset_name, str):
+                raise TypeError(
+                    f"Expected a str as dataset name; got {type(dataset_name)}: {dataset_name}"
+                )
             if dataset_name in current_dataset_names:
                 raise ValueError(
                     f"A data set with name '{dataset_name}' already exists"
-- 
2.43.0


From c83df69d14f5e885761fbce368906af468bf02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:16 +0000
Subject: [PATCH 26/32] fix: warn about names not accepted in
 high-compatibility mode

Names which are rejected in high-compatibility mode were accepted without any
warning outside of it, contrary to the documentation.
---
 src/dliswriter/utils/internal/value_checkers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..8353283 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,9 +1,12 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
 
+logger = logging.getLogger(__name__)
+
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
 
@@ -18,12 +21,12 @@ def validate_string(s: str) -> str:
     if not isinstance(s, str):
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
-    if not global_config.high_compat_mode:
-        return s
-
     if HC_STRING_PATTERN.fullmatch(s) is None:
-        raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
-                         f"dashes, and underscores; got {repr(s)}")
+        message = ("In high-compatibility mode, strings can contain only uppercase characters, digits, "
+                   f"dashes, and underscores; got {repr(s)}")
+        if global_config.high_compat_mode:
+            raise ValueError(message)
+        logger.warning(message)
 
     return s
 
-- 
2.43.0


From 4fc3621658a77009acda4d02af1fba42790857b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 27/32] fix: check names when writing a file in
 high-compatibility mode

Names changed after an object was created were not checked.
---
 src/dliswriter/file/file.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 1cd294f..5c28bdf 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -23,6 +23,7 @@ from dliswriter.utils.internal.types import (
     AttrDict,
 )
 from dliswriter.utils.internal.sized_generator import SizedGenerator
+from dliswriter.utils.internal.value_checkers import validate_string
 from dliswriter.utils import enums
 from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, AttrSetup
 from dliswriter.logical_record.misc import StorageUnitLabel
@@ -2247,6 +2248,19 @@ class LogicalFile:
         self._check_identities()
         self._check_references()
 
+        if global_config.high_compat_mode:
+            self._check_names()
+
+    def _check_names(self) -> None:
+        """Check that the names are (still) acceptable. For use in high-compatibility mode only."""
+
+        validate_string(self.physical_file.storage_unit_label.set_identifier)
+        validate_string(self.file_header_item.header_id)
+
+        for eflr_set in self._get_all_non_empty_sets():
+            for item in eflr_set.get_all_eflr_items():
+                validate_string(item.name)
+
     def _get_all_non_empty_sets(self) -> list[EFLRSet]:
         """Return a list of all EFLR sets of the logical file (including the file header) which contain any items."""
 
-- 
2.43.0


From aa7889784753dbdc548fee6c6555dc4e9a395cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 28/32] fix: accept only non-negative integers as storage unit
 label sequence number

Other values (also bool as file header sequence number) were written to the
fixed-width text fields, producing invalid numbers.
---
 src/dliswriter/logical_record/eflr_types/file_header.py  | 2 +-
 src/dliswriter/logical_record/misc/storage_unit_label.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index a4ac020..5ad1b52 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -43,7 +43,7 @@ class FileHeaderItem(EFLRItem):
         if len(header_id) > self.header_id_length_limit:
             raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
 
-        if not isinstance(sequence_number, int):
+        if not isinstance(sequence_number, int) or isinstance(sequence_number, bool):
             raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
         if not 0 < sequence_number <= self.max_sequence_number:
             raise ValueError(f"Sequence number must be a positive integer not larger than {self.max_sequence_number}; "
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..0cc48ef 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -25,6 +25,7 @@ class StorageUnitLabel:
     storage_unit_structure = 'RECORD'   #: storage unit structure (this is the only allowed value)
     dlis_version = 'V1.00'              #: version of DLIS this implementation is for
     max_record_length_limit = 16384     #: maximal allowed length of a visible record
+    max_sequence_number = 9999          #: max value for sequence number; largest 4-digit integer
 
     def __init__(self, set_identifier: str, sequence_number: int = 1, max_record_length: int = 8192):
         """Initialise StorageUnitLabel.
@@ -38,6 +39,12 @@ class StorageUnitLabel:
 
         super().__init__()
 
+        if not isinstance(sequence_number, int) or isinstance(sequence_number, bool):
+            raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
+        if not 0 <= sequence_number <= self.max_sequence_number:
+            raise ValueError(f"Sequence number must be a non-negative integer not larger than {self.max_sequence_number}; "
+                             f"got {sequence_number}")
+
         self.sequence_number = sequence_number
         self.set_identifier = validate_string(set_identifier)
         self.max_record_length = max_record_length
-- 
2.43.0


From 934039943733c67c38a720dd67ff1f7338e7e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 29/32] fix: reject fractions of any numeric type as status
 values

Fractions such as np.float32(0.5) were silently truncated to 0.
---
 src/dliswriter/logical_record/core/attribute/subtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index 655a8be..3e20cdb 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -316,7 +316,7 @@ class StatusAttribute(Attribute):
         if isinstance(val, bool):
             return int(val)
 
-        if isinstance(val, float) and val % 1:
+        if isinstance(val, Number) and val % 1:  # type: ignore  # complex numbers are not supported
             raise ValueError(f"Status cannot be a fraction; got {val}")
 
         val = int(val)
-- 
2.43.0


From 1da7207f756106f344393595b1129cc3e6188f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 30/32] Add verification taps, inactive unless
 WELL_ID_DLISWRITER_VERIF=1

---
 src/dliswriter/file/writer.py                    |  4 ++++
 .../core/logical_record/logical_record_bytes.py  |  4 ++++
 src/dliswriter/utils/internal/verif_tap.py       | 16 ++++++++++++++++
 3 files changed, 24 insertions(+)
 create mode 100644 src/dliswriter/utils/internal/verif_tap.py

diff --git a/src/dliswriter/file/writer.py b/src/dliswriter/file/writer.py
index b1f6bfe..1f0320a 100644
--- a/src/dliswriter/file/writer.py
+++ b/src/dliswriter/file/writer.py
@@ -4,6 +4,7 @@ from typing import Optional, Sequence
 from pathlib import Path
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
+from dliswriter.utils.internal import verif_tap
 from dliswriter.utils.internal.types import file_name_type, number_type, bytes_type
 from dliswriter.logical_record.misc import StorageUnitLabel
 
@@ -56,6 +57,9 @@ class ByteWriter:
         self._append = True  # in the future calls, append bytes to the file
         self._total_size += (size or len(bts))
 
+        if verif_tap.enabled:
+            verif_tap.emit('flush', self._filename, self._total_size)
+
 
 class BufferedOutput:
     """Provide an automatised buffered interface for storing bytes into a file.
diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index cbcfb4a..4b0ef51 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -3,6 +3,7 @@ from typing import Optional, Generator
 
 from dliswriter.logical_record.core.logical_record.segment_attributes import SegmentAttributes
 from dliswriter.utils.internal.internal_enums import RepresentationCode as RepC
+from dliswriter.utils.internal import verif_tap
 
 
 logger = logging.getLogger(__name__)
@@ -108,6 +109,9 @@ class LogicalRecordBytes:
             bytes   :   Bytes of a logical record segment, including an added header.
         """
 
+        if verif_tap.enabled:
+            verif_tap.emit('lr', self._is_eflr, bytes(self._lr_type_struct), bytes(self._bts))
+
         start_pos = 0  # start from the beginning of the logical record bytes
         remaining_size = self._size  # all bytes will be processed
         min_n_bytes = self.min_segment_body_size
diff --git a/src/dliswriter/utils/internal/verif_tap.py b/src/dliswriter/utils/internal/verif_tap.py
new file mode 100644
index 0000000..00f8d80
--- /dev/null
+++ b/src/dliswriter/utils/internal/verif_tap.py
@@ -0,0 +1,16 @@
+"""Taps for verification tools. Inactive unless environment variable WELL_ID_DLISWRITER_VERIF is set to '1'."""
+
+import os
+from typing import Any, Callable
+
+
+enabled: bool = os.environ.get('WELL_ID_DLISWRITER_VERIF', '') == '1'  #: whether the taps should be emitted
+
+listeners: list[Callable] = []  #: callables to be called with each of the emitted taps
+
+
+def emit(kind: str, *args: Any) -> None:
+    """Pass the tap to all listeners."""
+
+    for listener in listeners:
+        listener(kind, *args)
-- 
2.43.0


From 84e80712fbcc478ec4f9f74f3505f90b45790907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 31/32] fix: count logical records, not objects, for the
 progress bar

The progress bar refuses to go beyond its maximum, so a file with several
logical files whose sets hold one object each, or with sets left empty by
rejected calls, could fail to be written (depending on timing).
---
 src/dliswriter/file/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 5c28bdf..b91fbca 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -168,10 +168,10 @@ class DLISFile:
             )
 
         n = 0
-        for eflr_set_type in self._eflr_sets:
-            n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
-
         for idx_lf, logical_file in enumerate(self.logical_files):
+            n += 1  # file header
+            for set_dict in logical_file._eflr_sets.values():
+                n += len(set_dict)
             for mfd in multi_frame_data_objects[idx_lf]:
                 n += len(mfd)
             n += len(logical_file._no_format_frame_data)
-- 
2.43.0


From ae54e9a023a20e1be39edf9706f9aa43e86edf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:38 +0000
Subject: [PATCH 32/32] fix: follow the mapping of names for structured arrays
 of the same dtype as the frame data

---
 src/dliswriter/utils/source_data_wrappers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 382b47b..3234c03 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -329,8 +329,8 @@ class NumpyDataWrapper(SourceDataWrapper):
     def load_chunk(self, start: int, stop: Union[int, None]) -> np.ndarray:
         """Load a chunk of the input data.
 
-        If the target data type (data sets names and dtypes) is the same as the one in the source array,
-        take a slice of the source array directly.
+        If the target data type (data sets names and dtypes) is the same as the one in the source array and the data sets
+        are not renamed, take a slice of the source array directly.
         Otherwise, use the 'load_chunk' from the superclass to copy the relevant data sets into a new structured array.
 
         Args:
@@ -341,7 +341,7 @@ class NumpyDataWrapper(SourceDataWrapper):
             A structured numpy array, containing the required chunks of all the relevant data sets from the source data.
         """
 
-        if self._dtype == self._data_source.dtype:
+        if self._dtype == self._data_source.dtype and all(k == v for k, v in self._mapping.items()):
             if stop is None:
                 stop = self._n_rows
             return self._data_source[self._from_idx + start:self._from_idx + stop]
-- 
2.43.0

