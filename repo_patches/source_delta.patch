From 9418d4784343ff27dd35833844d1d3fdee4e3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:08 +0000
Subject: [PATCH 001/108] fix: honour writer options in
 hexfile.Writer.dumps()/dump()

Keyword options (record_type, s5record, start_address, ...) were accepted and
silently dropped; dump() did not even hand them over to dumps().
---
 objutils/hexfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index cabd088..2dd6e73 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -332,7 +332,7 @@ class Writer(BaseType):
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length))
+        fp.write(self.dumps(image, row_length, **kws))
         if hasattr(fp, "close"):
             fp.close()
 
@@ -343,7 +343,7 @@ class Writer(BaseType):
             return b""
         if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
-        # params = self.set_parameters(**kws)
+        self.set_parameters(**kws)
         self.pre_processing(image)
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
-- 
2.43.0


From e838c740ab8a198788752c6a1503c7b0caf97f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:20 +0000
Subject: [PATCH 002/108] fix: images ending exactly at the top of a format's
 address space can be written

The address range check (and the S-record type selection) looked at the
address following the last byte, so an image occupying 0x0000..0xFFFF was
rejected by every 16-bit format and 0xFFFFFFFF could not be written at all.
---
 objutils/hexfile.py | 5 ++---
 objutils/sig.py     | 2 +-
 objutils/srec.py    | 2 +-
 objutils/tek.py     | 2 +-
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 2dd6e73..d076b20 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -24,7 +24,6 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
-import math
 import os
 import re
 from collections import defaultdict, namedtuple
@@ -368,8 +367,8 @@ class Writer(BaseType):
             last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
         else:
             last_segment = image
-        highest_address = last_segment.start_address + last_segment.length
-        return int(math.ceil(math.log(highest_address + 1) / math.log(2)))
+        highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
+        return highest_address.bit_length()
 
     def post_processing(self, data):
         if not data.endswith(b"\n"):
diff --git a/objutils/sig.py b/objutils/sig.py
index 23c7120..9c3f8a6 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -65,7 +65,7 @@ class Writer(hexfile.Writer):
         )
         data_checksum = checksums.rotatedXOR(row, 8, checksums.ROTATE_LEFT)
         line = f":{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
 
     def compose_footer(self, meta):
diff --git a/objutils/srec.py b/objutils/srec.py
index 229758e..0488057 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -153,7 +153,7 @@ class Writer(hexfile.Writer):
                 last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
             else:
                 last_segment = image
-            highest_address = last_segment.start_address + last_segment.length
+            highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
diff --git a/objutils/tek.py b/objutils/tek.py
index 02dd6d0..d0cee8b 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -68,5 +68,5 @@ class Writer(hexfile.Writer):
 
         data_checksum = checksums.nibble_sum(row)
         line = f"/{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)!s}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
-- 
2.43.0


From fe70d2a0c893461e083eeb8866e545398d1d1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:36 +0000
Subject: [PATCH 003/108] fix: don't pass the removed 'valid' argument to
 Image()

Loading plain binary files always failed with a TypeError, and so did loading
any hex file without data records.
---
 objutils/binfile.py | 2 +-
 objutils/hexfile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index cdbf28d..db0614f 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -50,7 +50,7 @@ class Reader:
             fp = open(fp, "rb")
         data = fp.read()
         sec = Section(address, data)
-        img = Image([sec], valid=True)
+        img = Image([sec])
         if hasattr(fp, "close"):
             fp.close()
         return img
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index d076b20..36a164a 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -260,7 +260,7 @@ class Reader(BaseType):
             return Image(sections=join_sections(sections), meta=meta_data)
         else:
             self.error("File seems to be invalid.")
-            return Image([], valid=False)
+            return Image([], meta=meta_data)
 
     def _address_space(self, value):
         if value < 2**16:
-- 
2.43.0


From 1fd0bbf0574e47cf04568c43e7bf4a4946677658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:51 +0000
Subject: [PATCH 004/108] fix: ihex writer loses the upper address bits of
 sections

The extended address record was only emitted if the 16-bit offset differed
from the end of the previous row, regardless of the 64K segment; records
crossing a 64K boundary wrap around when read according to the format.
---
 objutils/ihex.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 7337044..51514d3 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -122,8 +122,12 @@ class Writer(hexfile.Writer):
     def compose_row(self, address, length, row):
         result = ""
         seg, offs = divmod(address, 0x10000)
+        split = 0x10000 - offs
+        if length > split:  # Records must not cross a 64K boundary.
+            head = self.compose_row(address, split, row[:split])
+            return f"{head}\n{self.compose_row(address + split, length - split, row[split:])}"
         hi, lo = self.word_to_bytes(address)
-        if offs != self.previosAddress:
+        if address != self.previosAddress or offs == 0:
             # print("NEQ: {0:04x} [{1:04x}:{2:04x}]".format(address, seg, offs))
             if address > 0xFFFF:
                 if address > 0xFFFFF:
@@ -133,9 +137,9 @@ class Writer(hexfile.Writer):
                     seg = int(seg) << 12
                     segHi, segLo = self.word_to_bytes(seg)
                     result = f":02000002{int(seg):04X}{self.checksum(list((2, 2, segHi, segLo))):02X}\n"
+        self.previosAddress = address + length
         address = offs
         checksum = self.checksum(list((length, hi, lo)) + list(row))
-        self.previosAddress = offs + length
         result += f":{length:02X}{address:04X}{DATA:02X}{Writer.hex_bytes(row)!s}{checksum:02X}"
         return result
 
-- 
2.43.0


From e88d20f899237f3108ade1f7eefe862a177a85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:08 +0000
Subject: [PATCH 005/108] fix: srec: header and count records written for S2/S3
 files can be read back

S5 records written along with S2/S3 records were rejected by the reader as
checksum errors; S0 headers were written with a 24/32bit address field, which
prepended a NUL byte to the header text on every round-trip.
---
 objutils/srec.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 0488057..888d8a5 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -55,6 +55,8 @@ class Reader(hexfile.Reader):
         (S1, "S1LLAAAADDCC"),
         (S2, "S2LLAAAAAADDCC"),
         (S3, "S3LLAAAAAAAADDCC"),
+        (S5, "S5LLAAAAAAAACC"),
+        (S5, "S5LLAAAAAACC"),
         (S5, "S5LLAAAACC"),
         (S7, "S7LLAAAAAAAACC"),
         (S8, "S8LLAAAAAACC"),
@@ -78,11 +80,11 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         # todo: Fkt.!!!
-        if format_type in (S0, S1, S5, S9):
+        if format_type in (S0, S1, S9):
             checksum_of_address = ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
         elif format_type in (S2, S8):
             checksum_of_address = ((line.address & 0xFF0000) >> 16) + ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
-        elif format_type in (S3, S7):
+        elif format_type in (S3, S5, S7):
             checksum_of_address = (
                 ((line.address & 0xFF000000) >> 24)
                 + ((line.address & 0xFF0000) >> 16)
@@ -166,10 +168,14 @@ class Writer(hexfile.Writer):
     def srecord(self, record_type, length, address, data=None):
         if data is None:
             data = []
-        length += self.offset
+        if record_type == 0:  # Header records always have a 16bit address.
+            offset, address_mask = 3, "%04X"
+        else:
+            offset, address_mask = self.offset, self.address_mask
+        length += offset
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-        mask = f"S%u%02X{self.address_mask!s}%s%02X"
+        mask = f"S%u%02X{address_mask!s}%s%02X"
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
-- 
2.43.0


From aec5f84bb5949a3644f564bf81e3a0bfa3605bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 006/108] fix: srec: reject images which don't fit the
 requested record type

A record_type too narrow for the image produced records with overlong address
fields.
---
 objutils/srec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index 888d8a5..ad0a90c 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -162,6 +162,8 @@ class Writer(hexfile.Writer):
                 self.record_type = 2
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
+        if self.calculate_address_bits(image) > (self.record_type + 1) * 8:
+            raise hexfile.AddressRangeToLargeError("could not encode image.")
         self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
         self.offset = self.record_type + 2
 
-- 
2.43.0


From f5b0e9493b3460d53ad947ca337cfbcfad55112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:29 +0000
Subject: [PATCH 007/108] fix: ash writer emits what the ash reader (and the
 format) expects

The address field lacks the terminating comma, so the reader skipped all
address records; a custom separator was only applied to the first row.
---
 objutils/ash.py     | 1 +
 objutils/hexfile.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index e6d6996..663a3e3 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -65,6 +65,7 @@ class Reader(hexfile.ASCIIHexReader):
 class Writer(hexfile.ASCIIHexWriter):
     MAX_ADDRESS_BITS = 16
     ADDRESS_DESIGNATOR = "$A"
+    ADDRESS_TERMINATOR = ","
 
     def __init__(self, address_designator="$A"):
         super().__init__(address_designator)
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 36a164a..66e9b53 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -470,6 +470,7 @@ class ASCIIHexReader(Reader):
 
 class ASCIIHexWriter(Writer):
     MAX_ADDRESS_BITS = 16
+    ADDRESS_TERMINATOR = ""
     previous_address = None
 
     def __init__(self, address_designator):
@@ -482,11 +483,11 @@ class ASCIIHexWriter(Writer):
         self.previous_address = address + length
         if prepend_address:
             line = "{}\n{}".format(
-                f"{self.address_designator}{address:04X}",
+                f"{self.address_designator}{address:04X}{self.ADDRESS_TERMINATOR}",
                 f"{self.separator}".join([f"{x:02X}" for x in row]),
             )
         else:
-            line = " ".join([f"{x:02X}" for x in row])
+            line = f"{self.separator}".join([f"{x:02X}" for x in row])
         self.row_callout(address, length, row)
         return line
 
-- 
2.43.0


From 128d3d66629c80ecc4d06cde5835574618d23e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:50 +0000
Subject: [PATCH 008/108] fix: ash/titxt: catastrophic backtracking of the data
 line pattern

Matching takes exponential time on long runs of hex digits followed by
any other character. The new pattern accepts exactly the same lines.
---
 objutils/ash.py   | 2 +-
 objutils/titxt.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index 663a3e3..a280d34 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -56,7 +56,7 @@ class Reader(hexfile.ASCIIHexReader):
     def __init__(
         self,
         address_pattern=r"^(?:(?P<stx>[\x02])\s+)?\$A(?P<address>[0-9a-zA-Z]{2,8})[,.]\s*$",
-        data_pattern=r"^(?:[0-9a-zA-Z]{{2,4}}[{0}]?)*\s*$",
+        data_pattern=r"^(?:[0-9a-zA-Z]{{2,}}(?:[{0}]|(?![0-9a-zA-Z])))*\s*$",
         etx_pattern=r"^q.*$",
     ):
         super().__init__(address_pattern, data_pattern, etx_pattern, separators=", %'")
diff --git a/objutils/titxt.py b/objutils/titxt.py
index 58abc1a..e6eb3f1 100644
--- a/objutils/titxt.py
+++ b/objutils/titxt.py
@@ -37,7 +37,7 @@ class Reader(hexfile.ASCIIHexReader):
     def __init__(
         self,
         address_pattern=r"^@(?P<address>[0-9a-zA-Z]{2,8})\s*$",
-        data_pattern=r"^(?:[0-9a-zA-Z]{{2,4}}[{0}]?)*\s*$",
+        data_pattern=r"^(?:[0-9a-zA-Z]{{2,}}(?:[{0}]|(?![0-9a-zA-Z])))*\s*$",
         etx_pattern=r"^q.*$",
     ):
         super().__init__(address_pattern, data_pattern, etx_pattern)
-- 
2.43.0


From 404d36f7e1788b728c2ca64a763c8d566ec5db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:00 +0000
Subject: [PATCH 009/108] fix: etek reader and writer agree on the record
 layout

The length computation yielded a float, which nibble_sum() can't digest, hence
every data record failed to load. The writer emitted four address digits where
the record length and the reader account for five (i.e. 20 address bits).
---
 objutils/etek.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index ed55daa..4028869 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,7 +47,7 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length / 2) - 5
+            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
@@ -76,10 +76,10 @@ class Reader(hexfile.Reader):
 
 
 class Writer(hexfile.Writer):
-    MAX_ADDRESS_BITS = 24
+    MAX_ADDRESS_BITS = 20
 
     def compose_row(self, address, length, row):
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
 
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:04X}{Writer.hex_bytes(row)!s}"
+        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:05X}{Writer.hex_bytes(row)!s}"
         return line
-- 
2.43.0


From bfa79941432f9eb9c0cf591d19667050d387b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:00 +0000
Subject: [PATCH 010/108] fix: fpc writer works for any row length

The record length was written as unpadded decimal number, i.e. rows shorter
than 12 bytes were damaged; padding to the row length instead of a multiple of
four bytes misplaced data for row lengths not divisible by four.
---
 objutils/fpc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 89affb8..66a5e61 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -142,11 +142,9 @@ class Writer(hexfile.Writer):
             8,
             checksums.COMPLEMENT_TWOS,
         )
-        if length < self.row_length:
-            lengthToPad = self.row_length - length
-            padding = [0] * (lengthToPad)
-            row.extend(padding)
-        line = f"{checksum:02X}{length - 2}0000{address:08X}{Writer.hex_bytes(row)}"
+        padding = [0] * (-length % 4)  # Packed in groups of four bytes.
+        row.extend(padding)
+        line = f"{checksum:02X}{length + 4:02X}0000{address:08X}{Writer.hex_bytes(row)}"
         return line
 
     def compose_footer(self, meta):
-- 
2.43.0


From 1f1cc2a1b0a3d1db48e348e224c49e8e1adf2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:14 +0000
Subject: [PATCH 011/108] fix: don't add another log handler for every
 reader/writer instance

Each message was repeated once per codec instance created so far.
---
 objutils/logger.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/logger.py b/objutils/logger.py
index e443e81..6ede72e 100644
--- a/objutils/logger.py
+++ b/objutils/logger.py
@@ -35,11 +35,12 @@ class Logger:
     def __init__(self, name, level=logging.WARN):
         self.logger = logging.getLogger(f"{self.LOGGER_BASE_NAME}.{name}")
         self.logger.setLevel(level)
-        handler = logging.StreamHandler()
-        handler.setLevel(level)
-        formatter = logging.Formatter(self.FORMAT)
-        handler.setFormatter(formatter)
-        self.logger.addHandler(handler)
+        if not self.logger.handlers:  # Loggers are shared by name.
+            handler = logging.StreamHandler()
+            handler.setLevel(level)
+            formatter = logging.Formatter(self.FORMAT)
+            handler.setFormatter(formatter)
+            self.logger.addHandler(handler)
         self.lastMessage = None
         self.lastSeverity = None
 
-- 
2.43.0


From 9e9a0dd0afa755d466852e87ea287e2f22bcc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 012/108] fix: default-constructed sections shared one and the
 same buffer

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index a1e8ea6..75c996c 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -186,7 +186,7 @@ class Section:
     """
 
     start_address = attr.ib(type=int, eq=True, order=True, default=0)
-    data = attr.ib(default=bytearray(), converter=_data_converter, eq=True, order=True)
+    data = attr.ib(factory=bytearray, converter=_data_converter, eq=True, order=True)
 
     def __attrs_post_init__(self):
         self.repr = reprlib.Repr()
-- 
2.43.0


From 75a0bc51fc2c12e55cbd669dd9eed0542adc97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 013/108] fix: join_sections() must not modify its arguments

It emptied the passed list and appended the following sections' bytes to the
buffer of the caller's section, i.e. creating two images from the same sections
resulted in overlapping sections and duplicated data.
---
 objutils/section.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 75c996c..f075fd8 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -433,15 +433,19 @@ def join_sections(sections):
     else:
         result_sections = []
     prev_section = Section()
-    while sections:
-        section = sections.pop(0)
+    merged = False
+    for section in sections:
         if not isinstance(section, Section):
             raise TypeError("'{}' is not a 'Section' instance", section)
         if section.start_address == prev_section.start_address + prev_section.length and result_sections:
             last_segment = result_sections[-1]
+            if not merged:  # Up to now the buffer belongs to the original section.
+                last_segment.data = bytearray(last_segment.data)
+                merged = True
             last_segment.data.extend(section.data)
         else:
             # Create a new section.
+            merged = False
             if isinstance(sections, SortedList):
                 result_sections.add(Section(section.start_address, section.data))
             else:
-- 
2.43.0


From 955e82f3695710d0bc5830158b9b68561b5d055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:39 +0000
Subject: [PATCH 014/108] fix: Image.insert_section() accepted blocks enclosing
 an existing section

Only the first and the last address of the new block were checked, so a
block covering a whole section was inserted as overlapping address-space.
---
 objutils/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index abf2f87..abc9776 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -217,7 +217,10 @@ class Image:
         -------
         bool
         """
-        return address in self or (address + length - 1) in self
+        return any(
+            address < section.start_address + section.length and section.start_address < address + length
+            for section in self.sections
+        )
 
     def insert_section(self, data, start_address=None, join=True):
         """Insert/add a new section to image.
-- 
2.43.0


From b4e41b6cd044882713a41dacf265e0bc433441e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 015/108] fix: Image.insert_section() mistook the number of
 array elements for bytes

Overlap check and follow-up address were wrong for arrays of multi-byte items.
---
 objutils/image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index abc9776..8ceb7e7 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -245,14 +245,16 @@ class Image:
         start_address = (
             start_address if start_address is not None else self.address
         )  # If Address omitted, create continuous address space.
-        if self._address_contained(start_address, len(data)):
-            raise InvalidAddressError("Overlapping address-space")
         if isinstance(data, str):
             data = [ord(x) for x in data]  # array.array('B',data)
-        self._sections.add(Section(start_address, data))
+        section = Section(start_address, data)
+        length = section.length  # In bytes, i.e. not necessarily equal to len(data).
+        if self._address_contained(start_address, length):
+            raise InvalidAddressError("Overlapping address-space")
+        self._sections.add(section)
         if join:
             self.join_sections()
-        self.address = start_address + len(data)
+        self.address = start_address + length
 
     @property
     def sections(self):
-- 
2.43.0


From 249b006b5bcfd7fbde5a6ade0f69274541713f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 016/108] fix: bounds checking of
 Section.write_string()/read_string()

Writing past the end of a section grew the section (and failed with an
IndexError afterwards), strings which encode to more bytes than characters
shifted the remaining data; reading past the end returned truncated strings.
---
 objutils/section.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index f075fd8..036f553 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -334,6 +334,8 @@ class Section:
             pos = self.data[offset:].find(b"\x00")
         else:
             pos = length
+            if offset + length > self.length:
+                raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         if pos == -1:
             raise TypeError("Unterminated String!!!")  # TODO: Testcase.
         return self.data[offset : offset + pos].decode(encoding=encoding)
@@ -342,11 +344,10 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
-        if PYTHON_VERSION.major == 3:
-            self.data[offset : offset + len(value)] = bytes(value, encoding=encoding)
-        else:
-            self.data[offset : offset + len(value)] = bytes(value)
-        self.data[offset + len(value)] = 0
+        data = value.encode(encoding) + b"\x00"
+        if offset + len(data) > self.length:
+            raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
+        self.data[offset : offset + len(data)] = data
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-- 
2.43.0


From 2ae52535f2b62ac0096b7396e1f99b43c5522563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 017/108] fix: bit_mask of read_numeric()/write_numeric()

write_numeric() accepted but ignored the mask and overwrote the bits not
covered by it; read_numeric() raised a ValueError for dtype 'byte'.
---
 objutils/section.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 036f553..01ce9c2 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -281,7 +281,7 @@ class Section:
 
     def apply_bitmask(self, data, dtype, bit_mask):
         """ """
-        dtype, byteorder = dtype.lower().strip().split("_")
+        dtype, byteorder = self._verify_dtype(dtype)
         byteorder = "little" if byteorder == "le" else "big"
         # type_size = TYPE_SIZES.get(dtype)
         data_size = len(data)
@@ -298,9 +298,12 @@ class Section:
         if offset + data_size > self.length:
             raise InvalidAddressError(f"write_numeric(0x{addr:08x}) access out of bounds.")
         if "bit_mask" in kws:
-            bit_mask = kws.pop("bit_mask")  # noqa: F841
-
-        self.data[offset : offset + data_size] = struct.pack(fmt, value)
+            bit_mask = kws.pop("bit_mask")
+            new = self.apply_bitmask(struct.pack(fmt, value), dtype, bit_mask)
+            old = self.apply_bitmask(self.data[offset : offset + data_size], dtype, ~bit_mask)
+            self.data[offset : offset + data_size] = bytes(n | o for n, o in zip(new, old))
+        else:
+            self.data[offset : offset + data_size] = struct.pack(fmt, value)
 
     def read_numeric_array(self, addr, length, dtype, **kws):
         offset = addr - self.start_address
-- 
2.43.0


From c241098d78bb10e51bf57842dd7943769636d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 018/108] fix: read/write numeric arrays of length zero

Reading zero elements returned one element, writing an empty array failed.
---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 01ce9c2..a68f660 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -226,7 +226,7 @@ class Section:
         """ """
         fmt, bo = self._verify_dtype(dtype)
 
-        if length > 1:
+        if length != 1:
             return f"{BYTEORDER.get(bo)}{length}{FORMATS.get(fmt)}"
         else:
             return f"{BYTEORDER.get(bo)}{FORMATS.get(fmt)}"
-- 
2.43.0


From d4e60392e6bdaf1ccdaa212dd4593996929e7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 019/108] fix: diff_bin() dropped a modification reaching the
 end of the shorter operand

---
 objutils/utils/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/utils/diff.py b/objutils/utils/diff.py
index 56b6c3c..54e7543 100644
--- a/objutils/utils/diff.py
+++ b/objutils/utils/diff.py
@@ -90,6 +90,8 @@ def diff_bin(a, b):
             if diff_bytes_a:
                 tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
                 diff_bytes_a, diff_bytes_b = bytearray(), bytearray()
+    if diff_bytes_a:
+        tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
     if lb > la:
         tmp.append(BinDiff("A", len(a), None, b[-(lb - la) :]))
     elif lb < la:
-- 
2.43.0


From fd4200431beded1f6a264d5868fa8704fa2b64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 020/108] fix: signed LEB128 numbers of less than five bytes
 were always decoded as negative

---
 objutils/dwarf/encoding.py | 2 +-
 objutils/readers.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 0d78ef1..14b2be4 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -105,7 +105,7 @@ class SLEB(Construct):
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
diff --git a/objutils/readers.py b/objutils/readers.py
index bfdbd51..a69bef3 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -114,7 +114,7 @@ class PlainBinaryReader:
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
-- 
2.43.0


From 76943e1b4874057150498a25b75f8050a37497bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 021/108] fix: PlainBinaryReader.u32()/s32() with native byte
 order

'L' denotes eight bytes if used with '@' on LP64 platforms.
---
 objutils/readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/readers.py b/objutils/readers.py
index a69bef3..30a8022 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -75,7 +75,7 @@ class PlainBinaryReader:
         return self.value("H", 2)
 
     def u32(self):
-        return self.value("L", 4)
+        return self.value("I", 4)
 
     def u64(self):
         return self.value("Q", 8)
@@ -87,7 +87,7 @@ class PlainBinaryReader:
         return self.value("h", 2)
 
     def s32(self):
-        return self.value("l", 4)
+        return self.value("i", 4)
 
     def s64(self):
         return self.value("q", 8)
-- 
2.43.0


From 7de95ec4dd9163084cf47e157c3a5d249f560b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 022/108] fix: binfile writer accepts integer fillers, as
 advertised

---
 objutils/binfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index db0614f..6c488f5 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -80,6 +80,8 @@ class Writer:
             raise TypeError("filler must be a single byte")
         elif isinstance(filler, int) and filler > 255:
             raise ValueError("filler must be in range 0..255")
+        elif isinstance(filler, int):
+            filler = bytes((filler,))
         result = bytearray()
         previous_address = None
         previous_length = None
-- 
2.43.0


From e0900f866080e2d5f9329b0ce26accd22e5b8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 023/108] fix: probe()/probes() raised AttributeErrors for any
 input

Some readers can't probe at all, the codec name is not an attribute of the
reader, and binary data could not be decoded.
---
 objutils/__init__.py | 20 ++++++++------------
 objutils/fpc.py      |  2 +-
 objutils/hexfile.py  |  4 ++--
 3 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/objutils/__init__.py b/objutils/__init__.py
index 711ea0a..110b9b6 100644
--- a/objutils/__init__.py
+++ b/objutils/__init__.py
@@ -148,13 +148,11 @@ def probe(*args, **kws):
     str
     """
 
-    found = False
-    for _, codec in registry._codecs.items():
+    for name, codec in registry:
         reader = codec.Reader()
-        found = reader.probe(*args, **kws)
-        if found:
-            break
-    return reader.codec_name if found else None
+        if hasattr(reader, "probe") and reader.probe(*args, **kws):
+            return name
+    return None
 
 
 def probes(*args, **kws):
@@ -170,13 +168,11 @@ def probes(*args, **kws):
     str
     """
 
-    found = False
-    for _, codec in registry:
+    for name, codec in registry:
         reader = codec.Reader()
-        found = reader.probes(*args, **kws)
-        if found:
-            break
-    return reader.codec_name if found else None
+        if hasattr(reader, "probes") and reader.probes(*args, **kws):
+            return name
+    return None
 
 
 def dump(codec_name, *args, **kws):
diff --git a/objutils/fpc.py b/objutils/fpc.py
index 66a5e61..fc2d33d 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -123,7 +123,7 @@ class Reader(hexfile.Reader):
 
     def probe(self, fp):
         for idx, line in enumerate(fp, 1):
-            if not VALID_CHARS.match(line.decode()):
+            if not VALID_CHARS.match(line.decode("latin1")):
                 fp.seek(0, os.SEEK_SET)
                 return False
             if idx > 3:
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 66e9b53..1e6da51 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -278,7 +278,7 @@ class Reader(BaseType):
         fp.seek(0, os.SEEK_SET)
         header = fp.read(128)
         fp.seek(0, os.SEEK_SET)
-        result = not bool(self.VALID_CHARS.match(header.decode()))
+        result = not bool(self.VALID_CHARS.match(header.decode("latin1")))
         return result
 
     def probe(self, fp):
@@ -289,7 +289,7 @@ class Reader(BaseType):
         for line_number, line in enumerate(fp.readlines(), 1):
             for _format_type, fmt in self.formats:  # NOTE: Same as in 'read()'!
                 if isinstance(line, bytes):
-                    match = fmt.match(line.decode())
+                    match = fmt.match(line.decode("latin1"))
                 else:
                     match = fmt.match(line)
                 if match:
-- 
2.43.0


From 7f074fd96d50bebf0accc6e0123676f482885d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 024/108] fix: probing never recognized titxt, cosmac and rca
 files

The general set of permitted characters doesn't cover these formats.
---
 objutils/cosmac.py | 3 +++
 objutils/rca.py    | 1 +
 objutils/titxt.py  | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index e20ae6d..48d7af6 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -24,6 +24,8 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
+import re
+
 import objutils.hexfile as hexfile
 
 
@@ -40,6 +42,7 @@ class Reader(hexfile.Reader):
         (DATA2, r"AAAA DD"),
         (DATA3, r"DD"),
     )
+    VALID_CHARS = re.compile(r"^[a-fA-F0-9 !?M\n\r]*$")
     previous_address = 0
     previous_length = 0
 
diff --git a/objutils/rca.py b/objutils/rca.py
index a3f8a1d..12bfc3e 100644
--- a/objutils/rca.py
+++ b/objutils/rca.py
@@ -39,6 +39,7 @@ NULLS = re.compile(r"\0*\s*!M\s*(.*)", re.DOTALL | re.M)
 class Reader(hexfile.Reader):
     # data = re.sub('\0*$', ';\n:0000', NULLS.match(inFile.read()).group(1), 1)  # FIXME!!!
     FORMAT_SPEC = ((DATA, "AAAA DD;"), (EOF, ":0000"))
+    VALID_CHARS = re.compile(r"^[a-fA-F0-9 :;!M\x00\n\r]*$")
 
     def check_line(self, line, format_type):
         if format_type == DATA:
diff --git a/objutils/titxt.py b/objutils/titxt.py
index e6eb3f1..ed86d26 100644
--- a/objutils/titxt.py
+++ b/objutils/titxt.py
@@ -28,12 +28,16 @@ __copyright__ = """
 ##  ASCII Space Hex format.
 ##
 
+import re
+
 import objutils.hexfile as hexfile
 
 
 class Reader(hexfile.ASCIIHexReader):
     """ """
 
+    VALID_CHARS = re.compile(r"^[a-fA-F0-9 ,@q\n\r]*$")
+
     def __init__(
         self,
         address_pattern=r"^@(?P<address>[0-9a-zA-Z]{2,8})\s*$",
-- 
2.43.0


From 0be789c31e7e4bc140cb9602e75f5e08fd55c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 025/108] fix: probing mistook Intel HEX files for Signetics
 files

Prefer a codec which is able to load the file; the record patterns alone are
ambiguous.
---
 objutils/__init__.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/objutils/__init__.py b/objutils/__init__.py
index 110b9b6..12c7e3b 100644
--- a/objutils/__init__.py
+++ b/objutils/__init__.py
@@ -135,44 +135,57 @@ def loads(codec_name, *args, **kws):
     return registry.get(codec_name).Reader().loads(*args, **kws)
 
 
-def probe(*args, **kws):
+def probe(fp):
     """Try to guess codec from file.
 
     Parameters
     ----------
-    codec_name: str
-        Name of a registered codec.
+    fp: file-like object
+        Opened in binary mode.
 
     Returns
     -------
     str
     """
 
+    candidate = None
     for name, codec in registry:
         reader = codec.Reader()
-        if hasattr(reader, "probe") and reader.probe(*args, **kws):
-            return name
-    return None
-
-
-def probes(*args, **kws):
+        if hasattr(reader, "probe") and reader.probe(fp):
+            fp.seek(0)
+            try:
+                codec.Reader().read(fp)
+            except Exception:  # Looks similar, but can't be loaded.
+                candidate = candidate or name
+            else:
+                return name
+    return candidate
+
+
+def probes(image):
     """Try to guess codec from bytes.
 
     Parameters
     ----------
-    codec_name: str
-        Name of a registered codec.
+    image: bytes or str
+        File contents.
 
     Returns
     -------
     str
     """
 
+    candidate = None
     for name, codec in registry:
         reader = codec.Reader()
-        if hasattr(reader, "probes") and reader.probes(*args, **kws):
-            return name
-    return None
+        if hasattr(reader, "probes") and reader.probes(image):
+            try:
+                codec.Reader().loads(image)
+            except Exception:  # Looks similar, but can't be loaded.
+                candidate = candidate or name
+            else:
+                return name
+    return candidate
 
 
 def dump(codec_name, *args, **kws):
-- 
2.43.0


From 4c3d3c3bdc7e88683bcda737ba503e5e2bb7c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 026/108] fix: dump() truncated an existing file before it knew
 that the image can be encoded

---
 objutils/binfile.py | 3 ++-
 objutils/hexfile.py | 3 ++-
 objutils/shf.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 6c488f5..8385e81 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -67,9 +67,10 @@ class Reader:
 
 class Writer:
     def dump(self, fp, image, filler=b"\xff", **kws):
+        data = self.dumps(image, filler)  # Don't touch the file if image can't be encoded.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, filler))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 1e6da51..57c0c22 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -329,9 +329,10 @@ class Writer(BaseType):
         self.logger = Logger("Writer")
 
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
+        data = self.dumps(image, row_length, **kws)  # Don't touch the file if image can't be encoded.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length, **kws))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/shf.py b/objutils/shf.py
index faa4f26..8f2caaa 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -150,9 +150,10 @@ class Writer:
     logger = Logger(__name__)
 
     def dump(self, fp, image, **kws):
+        data = self.dumps(image)  # Don't touch the file if image can't be encoded.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
-- 
2.43.0


From 8c26f74671b43cd2960d0af5bc826c4635db5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 027/108] fix: etek reader ignored the least significant bit of
 the block length

---
 objutils/etek.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index 4028869..00363a3 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,12 +47,13 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
+            block_length = line.length
             line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
                     6,
-                    ((line.length + 5) * 2),
+                    block_length,
                     line.chunk,
                 )
             )
-- 
2.43.0


From 60fc17e5e6fe9bc6f26fdc167274821854421f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 028/108] fix: binfile writer dropped gaps if filler was empty

---
 objutils/binfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 8385e81..49fdd86 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -77,7 +77,7 @@ class Writer:
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
             raise TypeError("filler must be of type 'bytes' or 'int'")
-        if isinstance(filler, bytes) and len(filler) > 1:
+        if isinstance(filler, bytes) and len(filler) != 1:
             raise TypeError("filler must be a single byte")
         elif isinstance(filler, int) and filler > 255:
             raise ValueError("filler must be in range 0..255")
-- 
2.43.0


From e77846ad2d93e675efca4460cc6c2fca32eed23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 029/108] fix: Registry() dropped all codecs registered so far

---
 objutils/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 6e9d1bb..44194fa 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -42,7 +42,8 @@ Codec = namedtuple("Codec", "Reader Writer description")
 
 class Registry(SingletonBase):
     def __init__(self):
-        self._codecs = OrderedDict()
+        if not hasattr(self, "_codecs"):  # Singleton, i.e. don't forget what is already registered.
+            self._codecs = OrderedDict()
 
     def __iter__(self):
         return iter(self._codecs.items())
-- 
2.43.0


From b0eb69ce251a672d9a4d3b1181b07ab930066a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 030/108] fix: codecs registered with upper-case letters could
 not be looked up

---
 objutils/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 44194fa..bc3c17f 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -61,9 +61,9 @@ class Registry(SingletonBase):
         return codec
 
     def register(self, name, readerClass, writerClass, description=""):
-        if name in self.codecs:
+        if name.lower() in self.codecs:
             raise CodecAlreadyExistError(name)
-        self._codecs[name] = Codec(readerClass, writerClass, description)
+        self._codecs[name.lower()] = Codec(readerClass, writerClass, description)
         readerClass.codecName = name
         writerClass.codecName = name
 
-- 
2.43.0


From 393bec4caa29a3b368ab11b91399e317541bce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 031/108] fix: ELF files with addresses above 2**63 - 1 could
 not be loaded

Symbol tables containing such values were silently dropped.
---
 objutils/elf/__init__.py |  8 ++++----
 objutils/elf/model.py    | 22 ++++++++++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e5ceb9..9cf1b13 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -204,7 +204,7 @@ class SectionAPI(DBAPI):
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-            query = query.order_by(model.Elf_Section.sh_addr)
+            query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         else:
             query = query.order_by(model.Elf_Section.section_name)
         result = query.all()
@@ -308,7 +308,7 @@ class SymbolAPI(DBAPI):
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
-            query = query.order_by(model.Elf_Symbol.st_value)
+            query = query.order_by(*model.unsigned_order(model.Elf_Symbol.st_value))
         else:
             query = query.order_by(model.Elf_Symbol.symbol_name)
         for key, value in groupby(query.all(), lambda s: s.section_name):
@@ -329,7 +329,7 @@ class SymbolAPI(DBAPI):
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
         syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
-        return syms.order_by(model.Elf_Symbol.st_value).all()
+        return syms.order_by(*model.unsigned_order(model.Elf_Symbol.st_value)).all()
 
 
 def calculate_crypto_hash(data: bytes) -> str:
@@ -993,7 +993,7 @@ class ElfParser:
         if exclude_pattern:
             query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
 
-        query = query.order_by(model.Elf_Section.sh_addr)
+        query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         result = []
         if callback:
             callback("start", None)
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index f1817e2..986d229 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -87,9 +87,27 @@ table = Table(
 """
 
 
+class UInt64(types.TypeDecorator):
+    """SQLite integers are signed, i.e. values above 2**63 - 1 are stored as negative numbers."""
+
+    impl = types.INTEGER
+    cache_ok = True
+
+    def process_bind_param(self, value, dialect):
+        return value - 2**64 if value is not None and value >= 2**63 else value
+
+    def process_result_value(self, value, dialect):
+        return value + 2**64 if value is not None and value < 0 else value
+
+
+def unsigned_order(column):
+    """ORDER BY criteria for `UInt64` columns."""
+    return column < 0, column
+
+
 def StdInteger(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UInt64,
         default=default,
         nullable=nullable,  # PassiveDefault(str(default))
         primary_key=primary_key,
@@ -112,7 +130,7 @@ def StdNumeric(default=0, primary_key=False, unique=False, nullable=False, index
 
 def StdBigInt(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UInt64,
         default=default,
         nullable=nullable,
         primary_key=primary_key,
-- 
2.43.0


From eca7146f788fa18a9f094c6ccad945b16c5bf080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 032/108] fix: Elf_Symbol.weak/local/global_ raised TypeErrors

---
 objutils/elf/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 986d229..0d0acde 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -338,7 +338,7 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def weak(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_WEAK
+        return self.st_bind == defs.SymbolBinding.STB_WEAK
 
     @hybrid_property
     def absolute(self):
@@ -350,11 +350,11 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def local(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_LOCAL
+        return self.st_bind == defs.SymbolBinding.STB_LOCAL
 
     @hybrid_property
     def global_(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_GLOBAL
+        return self.st_bind == defs.SymbolBinding.STB_GLOBAL
 
     @hybrid_method
     def get_access(self):
-- 
2.43.0


From 7d938d9e103edd9e55f3d6141bd57b287a3a8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 033/108] fix: Elf_Section.is_debug/is_dwo raised
 AttributeErrors

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 0d0acde..72ccb9f 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -208,11 +208,11 @@ class Elf_Section(Base, RidMixIn):
 
     @hybrid_property
     def is_debug(self):
-        return self.section_name.starts_with(".debug")
+        return self.section_name.startswith(".debug")
 
     @hybrid_property
     def is_dwo(self):
-        return self.section_name.starts_with(".dwo")
+        return self.section_name.startswith(".dwo")
 
     @hybrid_property
     def has_content(self):
-- 
2.43.0


From d0e1a7c0f9db62ca2b07d808c360218ffcb64820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 034/108] fix: symbols.fetch() considered only the first one of
 several types

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 9cf1b13..6b58e3a 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -303,7 +303,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_COMMON)
                 elif item == "tls":
                     flt.append(defs.SymbolType.STT_TLS)
-                query = query.filter(model.Elf_Symbol.st_type.in_(flt))
+            query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
-- 
2.43.0


From 96ec567c11b7c8da6c4890130786c8292460a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 035/108] fix: interrupted loading of an ELF file left an
 incomplete but valid-looking cache

Commit only after everything has been loaded.
---
 objutils/elf/__init__.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 6b58e3a..058bc95 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -683,12 +683,7 @@ class ElfParser:
                 access=section_header.sh_flags if section_header else 0,
             )
             symbols.append(db_sym)
-        try:
-            self.session.bulk_save_objects(symbols)
-            self.session.commit()
-        except Exception as e:
-            self.session.rollback()
-            print(f"{e}")
+        self.session.bulk_save_objects(symbols)
 
     def _parse_comment(self, data):
         Line = Struct("line" / CString("ascii"), "pos" / Tell)
-- 
2.43.0


From e77f8713a138fa70b9b4379218f94b6bb8887d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 036/108] fix: ELF files without section names or with empty
 symbol tables could not be loaded

---
 objutils/elf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 058bc95..4248b19 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -570,7 +570,7 @@ class ElfParser:
             self.session.bulk_save_objects(sections)
 
     def get_string(self, table_index, entry):
-        if entry > len(self._images[table_index]):
+        if not self._images[table_index] or entry >= len(self._images[table_index]):
             return ""
         name = self.asciiCString.parse(self._images[table_index][entry:])
         return name
@@ -654,7 +654,7 @@ class ElfParser:
             )
         symbol_cache = {}
         # num_symbols = len(section.image) // Symbol.sizeof()
-        for offset in range(0, len(section.image), Symbol.sizeof()):
+        for offset in range(0, len(section.image or b""), Symbol.sizeof()):
             try:
                 sym = Symbol.parse(section.image[offset : offset + Symbol.sizeof()])
             except StreamError as e:
-- 
2.43.0


From e1acd50130aa184adc09a9f704f79527044acc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 037/108] fix: only the first note of each ELF note section was
 read

Note names and descriptors are padded, and section names need not be unique.
---
 objutils/elf/__init__.py | 26 +++++++++++++++++---------
 objutils/elf/model.py    |  2 +-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 4248b19..6af14fa 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -532,8 +532,7 @@ class ElfParser:
                 self._sections_by_name[name] = section
                 image = self._images[idx]
                 if section.sh_type == defs.SectionType.SHT_NOTE:
-                    note_obj = self._parse_note(image)
-                    if note_obj:
+                    for note_obj in self._parse_notes(image):
                         note = model.Elf_Note(
                             section_name=name,
                             type=note_obj.type,
@@ -702,19 +701,28 @@ class ElfParser:
             i += line.pos
         return "\n".join(result)
 
-    def _parse_note(self, data):
+    def _parse_notes(self, data):
         Note = Struct(
             "namesz" / self.Word,
             "descsz" / self.Word,
             "type" / self.Word,
             "name" / Bytes(this.namesz),
+            Padding(-this.namesz % 4),
             "desc" / Bytes(this.descsz),
+            "size" / Tell,
         )
-        if not data:
-            return None
-        result = Note.parse(data)
-        result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = self.asciiCString.parse(result.name)
+        result = []
+        data = data or b""
+        while data:
+            try:
+                note = Note.parse(data)
+            except StreamError as e:
+                print(f"parse note section: {e}")
+                break
+            data = data[note.size + -note.size % 4 :]
+            note.desc = binascii.b2a_hex(note.desc).decode()
+            note.name = note.name.partition(b"\x00")[0].decode("ascii")
+            result.append(note)
         return result
 
     def debug_sections(self):
@@ -917,7 +925,7 @@ class ElfParser:
 
     @property
     def notes(self):
-        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name).all()
+        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name, model.Elf_Note.rid).all()
         if notes:
             return notes
         else:
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 72ccb9f..a4fa198 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -398,7 +398,7 @@ class Elf_Comment(Base, RidMixIn):
 class Elf_Note(Base, RidMixIn):
     """ """
 
-    section_name = Column(types.VARCHAR, unique=True)
+    section_name = Column(types.VARCHAR)
     type = StdInteger()
     name = Column(types.VARCHAR)
     desc = Column(types.VARCHAR)
-- 
2.43.0


From b43fe7db5506f4de11f862e169ac02b2eaad3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 038/108] fix: ElfParser.header_bytes raised AttributeErrors

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 6af14fa..4061fd3 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -845,7 +845,7 @@ class ElfParser:
 
     @property
     def header_bytes(self):
-        return self._basic_header.header.bytes
+        return self.fp[: self.EI_NIDENT].tobytes()
 
     @property
     def e_type(self):
-- 
2.43.0


From deb5c5608f103966ba0490b33573ace41c3373aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 039/108] fix: sections.fetch() ignored its 'sections' argument

---
 objutils/elf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 4061fd3..491ad38 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -201,6 +201,9 @@ class SectionAPI(DBAPI):
         """
 
         query = self.query(model.Elf_Section)
+        if sections:
+            sections = [s for s in re.split(r"[ ,]", sections) if s]
+            query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-- 
2.43.0


From 9f310e599ffa12f43efec962d983514f3222f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 040/108] fix: create_memorymapped_fileview() leaked a file
 descriptor per call

---
 objutils/utils/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index b086681..5404e1f 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -179,4 +179,7 @@ class SingletonBase:
 def create_memorymapped_fileview(filename, writeable=False):
     size = os.path.getsize(filename)
     fd = os.open(filename, os.O_RDWR if writeable else os.O_RDONLY)
-    return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    try:
+        return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    finally:
+        os.close(fd)  # mmap() has its own duplicate.
-- 
2.43.0


From 55f798acf8061e8712c112d1edb9b42263045d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 041/108] fix: ELF section/symbol name patterns used the name
 as pattern

SQLAlchemy's own REGEXP function took precedence.
---
 objutils/elf/__init__.py | 10 +++++-----
 objutils/elf/model.py    |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 491ad38..1cde43b 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -205,7 +205,7 @@ class SectionAPI(DBAPI):
             sections = [s for s in re.split(r"[ ,]", sections) if s]
             query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
+            query = query.filter(func.regex_match(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
             query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         else:
@@ -308,7 +308,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_TLS)
             query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
+            query = query.filter(func.regex_match(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
             query = query.order_by(*model.unsigned_order(model.Elf_Symbol.st_value))
@@ -330,7 +330,7 @@ class SymbolAPI(DBAPI):
         """
         syms = self.query(model.Elf_Symbol).filter(model.Elf_Symbol.st_shndx == defs.SectionName.SHN_ABS)
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
-        syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
+        syms = syms.filter(func.regex_match(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
         return syms.order_by(*model.unsigned_order(model.Elf_Symbol.st_value)).all()
 
@@ -994,10 +994,10 @@ class ElfParser:
         # print("SECTIONS", sections)
 
         if include_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, include_pattern))
+            query = query.filter(func.regex_match(model.Elf_Section.section_name, include_pattern))
 
         if exclude_pattern:
-            query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
+            query = query.filter(not_(func.regex_match(model.Elf_Section.section_name, exclude_pattern)))
 
         query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         result = []
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index a4fa198..86baf2f 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -473,7 +473,8 @@ def regexer(value, expr):
 
 @event.listens_for(Engine, "connect")
 def set_sqlite3_pragmas(dbapi_connection, connection_record):
-    dbapi_connection.create_function("REGEXP", 2, regexer)
+    # NB: SQLAlchemy registers its own REGEXP function (with reversed arguments).
+    dbapi_connection.create_function("REGEX_MATCH", 2, regexer)
     cursor = dbapi_connection.cursor()
     # cursor.execute("PRAGMA jornal_mode=WAL")
     cursor.execute("PRAGMA FOREIGN_KEYS=ON")
-- 
2.43.0


From fef7a767d857caae19fafcfb7351e7277fb69812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 042/108] fix: a file that could not be loaded left its cache
 database locked

---
 objutils/elf/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 1cde43b..330899f 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -405,9 +405,13 @@ class ElfParser:
         self.db = model.Model(self.db_name)
         self.session = self.db.session
         if new_db:
-            meta = model.Meta(hash_value=hash_value)
-            self.session.add(meta)
-            self.load_data()
+            try:
+                meta = model.Meta(hash_value=hash_value)
+                self.session.add(meta)
+                self.load_data()
+            except BaseException:
+                self.db.close()  # Don't leave the database locked.
+                raise
         else:
             self._header = self.session.query(model.Elf_Header).first()
             self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
-- 
2.43.0


From fb29c2adb5405a3c65b68db9b4e99589e9f840be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 043/108] fix: end of a DWARF sibling chain did not return to
 the parent DIE

---
 objutils/dwarf/__init__.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4f51d3d..fefed43 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -744,25 +744,21 @@ class DwarfProcessor:
                 if not abbr:
                     print(f"<{start:2x}>: Abbrev Number: 0 ---")
                     level -= 1
+                    if len(die_stack) > 1:
+                        die_stack.pop()
                 else:
                     die = DebugInformationEntry(abbr.tag)
+                    die_map[start] = die
                     db_die = model.DebugInformationEntry(tag=abbr.tag)
                     self.db_session.add(db_die)
                     if attr.attr != 0:
                         die_stack[-1].children.append(die)
                     print(f"{'   ' * (level + 1)}<{level}><{start:02x}>: Abbrev Number: {attr.attr} ({abbr.tag})")
-                    die_start = start
                     if abbr.children:
                         die_stack.append(die)
                         level += 1
                     else:
                         pass
-                    if attr.attr == 0:
-                        level -= 1
-                        if len(die_stack):
-                            die_stack.pop()
-                        else:
-                            print("DIE_STACK empty!!!")
                     for enc, form, special_value in abbr.attrs:
                         reader = form_readers.get(form)
                         start = image.tell()
@@ -847,7 +843,6 @@ class DwarfProcessor:
                         break
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
-                die_map[die_start] = die
             result.append(root_element)
         self.db_session.commit()
         return DebugInformation(die_map, [d.children[0] for d in result])
-- 
2.43.0


From 073af740c93c6906f9e8c717ce4599b9164600a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 044/108] fix: last byte of .debug_info and trailing zero-size
 attributes were dropped

---
 objutils/dwarf/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index fefed43..4af7da6 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -704,7 +704,7 @@ class DwarfProcessor:
         die_map = {}
         while True:
             section_pos = image.tell()
-            if section_pos >= section_length - 1:
+            if section_pos >= section_length:
                 break
             root_element = DebugInformationEntry("root")
             die_stack = [root_element]
@@ -737,7 +737,7 @@ class DwarfProcessor:
                 start = image.tell()
                 if start >= dbgInfo.start + cu_length + 4:
                     break
-                if start >= section_length - 1:
+                if start >= section_length:
                     break
                 attr = Attribute.parse_stream(image)
                 abbr = self.abbrevations.get(debug_abbrev_offset, attr.attr)
@@ -778,9 +778,6 @@ class DwarfProcessor:
                                     model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
                                 )
                                 offset += attr.stop - attr.start
-                                pos = image.tell()
-                                if pos >= dbgInfo.start + cu_length + 4:
-                                    break
                                 continue
                             else:
                                 print("*EF", enc, form, start, attr, abbr)
@@ -838,9 +835,6 @@ class DwarfProcessor:
                         )
                         db_die.attributes.append(model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value))
                     offset += attr.stop - attr.start
-                    pos = image.tell()
-                    if pos >= dbgInfo.start + cu_length + 4:
-                        break
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
             result.append(root_element)
-- 
2.43.0


From 727585db732ad5a5441323956821195e93cf4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 045/108] fix: DW_FORM_implicit_const constants are signed and
 displayed like any other

---
 objutils/dwarf/__init__.py | 53 +++++++++++---------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4af7da6..1be7109 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -188,7 +188,7 @@ class Abbrevations:
 
     SpecialValueStruct = Struct(
         "start" / Tell,
-        "value" / ULEB,
+        "value" / SLEB,
         "stop" / Tell,
     )
 
@@ -248,35 +248,28 @@ class Abbrevations:
                 if not attr.next:
                     # key_offset = offset
                     break
+                try:
+                    encoding = constants.AttributeEncoding(attr.attrValue)
+                except TypeError:
+                    encoding = constants.FakeEncoding(attr.attrValue)
+                offset += attr.stop - attr.start
                 if attr.formValue == constants.AttributeForm.DW_FORM_implicit_const:
-                    offset += attr.stop - attr.start
                     special_value = self.SpecialValueStruct.parse(self.image[offset:])
                     offset += special_value.stop - special_value.start
                     self.abbrevations[key].attrs.append(
                         Attribute(
-                            constants.AttributeEncoding(attr.attrValue),
+                            encoding,
                             constants.AttributeForm(attr.formValue),
                             special_value.value,
                         )
                     )
-                    continue
-                if attr.attrValue != 0 and attr.formValue != 0:
-                    #
-                    try:
-                        self.abbrevations[key].attrs.append(
-                            Attribute(
-                                constants.AttributeEncoding(attr.attrValue),
-                                constants.AttributeForm(attr.formValue),
-                            )
-                        )
-                    except TypeError:
-                        self.abbrevations[key].attrs.append(
-                            Attribute(
-                                constants.FakeEncoding(attr.attrValue),
-                                constants.AttributeForm(attr.formValue),
-                            )
+                elif attr.attrValue != 0:
+                    self.abbrevations[key].attrs.append(
+                        Attribute(
+                            encoding,
+                            constants.AttributeForm(attr.formValue),
                         )
-                offset += attr.stop - attr.start
+                    )
             if code == item:
                 return self.abbrevations[key]
 
@@ -762,27 +755,11 @@ class DwarfProcessor:
                     for enc, form, special_value in abbr.attrs:
                         reader = form_readers.get(form)
                         start = image.tell()
-                        if reader is None:
+                        try:
                             if form == constants.AttributeForm.DW_FORM_implicit_const:
-                                print("DW_FORM_implicit_const")
                                 value = special_value
-                                display_value = value
-                                print(f"{'   ' * (level + 1)}<{start:02x}> {enc.name}: {display_value}")
-                                die.attributes.append(
-                                    (
-                                        enc.name,
-                                        DIEAttribute(value, display_value),
-                                    )
-                                )
-                                db_die.attributes.append(
-                                    model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
-                                )
-                                offset += attr.stop - attr.start
-                                continue
                             else:
-                                print("*EF", enc, form, start, attr, abbr)
-                        try:
-                            value = reader.parse_stream(image)
+                                value = reader.parse_stream(image)
                         except Exception as e:
                             print("EXC", e, reader, form)
                             raise
-- 
2.43.0


From b7ba5061741b30831520b8e0f9e4499059750b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 046/108] fix: DWARF 5 type and skeleton units have a longer
 header

---
 objutils/dwarf/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 1be7109..252af20 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -668,6 +668,22 @@ class DwarfProcessor:
             "unit_type" / self.readers.u8,
             "address_size" / self.readers.u8,
             "debug_abbrev_offset" / self.readers.u32,
+            "dwo_id"
+            / If(
+                lambda ctx: ctx.unit_type
+                in (constants.UnitHeader.DW_UT_skeleton, constants.UnitHeader.DW_UT_split_compile),
+                self.readers.u64,
+            ),
+            "type_signature"
+            / If(
+                lambda ctx: ctx.unit_type in (constants.UnitHeader.DW_UT_type, constants.UnitHeader.DW_UT_split_type),
+                self.readers.u64,
+            ),
+            "type_offset"
+            / If(
+                lambda ctx: ctx.unit_type in (constants.UnitHeader.DW_UT_type, constants.UnitHeader.DW_UT_split_type),
+                self.readers.u32,
+            ),
             "stop" / Tell,
         )
 
-- 
2.43.0


From e168882be51c86d1076817c84bd99dbe3fa1081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 047/108] fix: DW_AT_discr_list is a block, not an encoded
 integer

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 252af20..5be752d 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -802,7 +802,7 @@ class DwarfProcessor:
                                 except Exception:
                                     print("VALUE", value, enc, form)
                                     raise
-                        elif enc in ENCODED_ATTRIBUTES:
+                        elif enc in ENCODED_ATTRIBUTES and isinstance(value, int):
                             res = encoding_repr(enc, value)
                             display_value = f"{res} (0x{value:08x})"
                         else:
-- 
2.43.0


From 16c6c54b9d15149edc749b31adf37c39639f4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 048/108] fix: unsigned 64-bit DWARF attribute values could not
 be stored

---
 objutils/dwarf/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 5be752d..8b9087d 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -111,6 +111,11 @@ def encoding_repr(encoding, value):
         return f"Unknown encoding value ({value})"
 
 
+def db_value(value):
+    # SQLite integers are signed 64-bit -- the columns are textual anyway.
+    return str(value) if isinstance(value, int) else value
+
+
 @dataclass(frozen=True)
 class Attribute:
     encoding: constants.AttributeEncoding
@@ -826,7 +831,9 @@ class DwarfProcessor:
                                 DIEAttribute(value, display_value),
                             )
                         )
-                        db_die.attributes.append(model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value))
+                        db_die.attributes.append(
+                            model.DIEAttribute(name=enc.name, raw_value=db_value(value), display_value=db_value(display_value))
+                        )
                     offset += attr.stop - attr.start
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
-- 
2.43.0


From 461245945bafce4dc2415e2f045894fe3efc5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 049/108] fix: a second DwarfProcessor changed byte order and
 address size of the first one's expressions

---
 objutils/dwarf/sm.py | 40 +++++-----------------------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 53208be..1ce4514 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -78,46 +78,16 @@ class OperationBase:
     PARAMETERS = []
     ARRAY_SIZE = None
 
-    @classmethod
-    def set_readers(cls, readers):
-        cls.readers = readers
-        cls.native_address = readers.native_address
-        cls.u8 = readers.u8
-        cls.s8 = readers.s8
-        cls.u16 = readers.u16
-        cls.s16 = readers.s16
-        cls.u32 = readers.u32
-        cls.s32 = readers.s32
-        cls.u64 = readers.u64
-        cls.s64 = readers.s64
-        cls.uleb = readers.uleb
-        cls.sleb = readers.sleb
-        cls.block1 = readers.block1
-        cls.READERS = {
-            "native_address": cls.native_address,
-            "u8": cls.u8,
-            "s8": cls.s8,
-            "u16": cls.u16,
-            "s16": cls.s16,
-            "u32": cls.u32,
-            "s32": cls.s32,
-            "u64": cls.u64,
-            "s64": cls.s64,
-            "uleb": cls.uleb,
-            "sleb": cls.sleb,
-            "block1": cls.block1,
-        }
-
-    def parse(self, image):
+    def parse(self, image, readers):
         self.result = []
         self.data_block = None
         for type_name in self.PARAMETERS:
-            reader = OperationBase.READERS[type_name]
+            reader = getattr(readers, type_name)
             data = reader.parse_stream(image)
             self.result.append(data)
         if self.result and self.ARRAY_SIZE is not None:
             length = self.result[self.ARRAY_SIZE]
-            self.data_block = Array(length, self.u8).parse_stream(image)
+            self.data_block = Array(length, readers.u8).parse_stream(image)
             print("*** DATA_BLOCK:", self.data_block)
             raise RuntimeError()
 
@@ -1329,7 +1299,7 @@ class StackMachine:
 
     def __init__(self, readers):
         self.stack = Stack()
-        OperationBase.set_readers(readers)
+        self.readers = readers
 
     def evaluate(self, expr: bytes):
         OPs = constants.Operation
@@ -1351,7 +1321,7 @@ class StackMachine:
             op_klass = OP_MAP.get(opcode_num)
             if op_klass:
                 operation = op_klass()
-                operation.parse(image)
+                operation.parse(image, self.readers)
                 result.append(str(operation))
                 operation.stack_op(self.stack)
         return "; ".join(result)
-- 
2.43.0


From 22bd2d8a7e8197dc15eb0e4fe109fe0b110928c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 050/108] fix: data blocks in DWARF expressions were decoded as
 operations

---
 objutils/dwarf/sm.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 1ce4514..0f8794a 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -32,8 +32,6 @@ import io
 from dataclasses import dataclass
 from typing import Any, List
 
-from construct import Array
-
 from objutils.dwarf import constants
 
 
@@ -76,20 +74,13 @@ class EvaluationResult:
 class OperationBase:
 
     PARAMETERS = []
-    ARRAY_SIZE = None
 
     def parse(self, image, readers):
         self.result = []
-        self.data_block = None
         for type_name in self.PARAMETERS:
             reader = getattr(readers, type_name)
             data = reader.parse_stream(image)
             self.result.append(data)
-        if self.result and self.ARRAY_SIZE is not None:
-            length = self.result[self.ARRAY_SIZE]
-            self.data_block = Array(length, readers.u8).parse_stream(image)
-            print("*** DATA_BLOCK:", self.data_block)
-            raise RuntimeError()
 
     @property
     def value(self):
@@ -102,7 +93,9 @@ class OperationBase:
         if self.result:
             params = []
             for param in self.result:
-                if param > 0:
+                if isinstance(param, bytes):
+                    params.append(f"[{param.hex(' ')}]")
+                elif param > 0:
                     params.append(f"0x{param:08x}")
                 else:
                     params.append(f"{param}")
@@ -944,7 +937,7 @@ class Bit_Piece(OperationBase):
 
 class Implicit_Value(OperationBase):
     DISPLAY_NAME = "implicit_value"
-    PARAMETERS = ["uleb"]
+    PARAMETERS = ["block_uleb"]
 
 
 class Stack_Value(OperationBase):
@@ -968,12 +961,12 @@ class Constx(OperationBase):
 
 class Entry_Value(OperationBase):
     DISPLAY_NAME = "entry_value"
-    PARAMETERS = ["uleb"]
+    PARAMETERS = ["block_uleb"]
 
 
 class Const_Type(OperationBase):
     DISPLAY_NAME = "const_type"
-    PARAMETERS = ["uleb", "u8"]
+    PARAMETERS = ["uleb", "block1"]
 
 
 class Regval_Type(OperationBase):
@@ -1027,12 +1020,12 @@ class Gnu_Implicit_Pointer(OperationBase):
 
 class Gnu_Entry_Value(OperationBase):
     DISPLAY_NAME = "GNU_entry_value"
-    PARAMETERS = ["uleb"]
+    PARAMETERS = ["block_uleb"]
 
 
 class Gnu_Const_Type(OperationBase):
     DISPLAY_NAME = "GNU_const_type"
-    PARAMETERS = ["uleb", "u8", "block1"]
+    PARAMETERS = ["uleb", "block1"]
 
 
 class Gnu_Regval_Type(OperationBase):
-- 
2.43.0


From 8a21f169a6e40a0edf31de4f09479eea61100de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 051/108] fix: operands of DW_OP_call_ref, implicit_pointer and
 the GNU index operations

---
 objutils/dwarf/sm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 0f8794a..243f17c 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -919,7 +919,7 @@ class Call4(OperationBase):
 
 class Call_Ref(OperationBase):
     DISPLAY_NAME = "call_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Form_Tls_Address(OperationBase):
@@ -946,7 +946,7 @@ class Stack_Value(OperationBase):
 
 class Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "implicit_pointer"
-    PARAMETERS = ["native_address", "sleb"]
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Addrx(OperationBase):
@@ -1016,6 +1016,7 @@ class Gnu_Encoded_Addr(OperationBase):
 
 class Gnu_Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "GNU_implicit_pointer"
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Gnu_Entry_Value(OperationBase):
@@ -1050,15 +1051,17 @@ class Gnu_Reinterpret(OperationBase):
 
 class Gnu_Parameter_Ref(OperationBase):
     DISPLAY_NAME = "GNU_parameter_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Gnu_Addr_Index(OperationBase):
     DISPLAY_NAME = "GNU_addr_index"
+    PARAMETERS = ["uleb"]
 
 
 class Gnu_Const_Index(OperationBase):
     DISPLAY_NAME = "GNU_const_index"
+    PARAMETERS = ["uleb"]
 
 
 class Hp_Unknown(OperationBase):
-- 
2.43.0


From 31095a53f30e9c802a91d67a186ae46cb6aa22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 052/108] fix: ARM attributes unknown to the tables (e.g.
 Cortex-M33) raised KeyError

---
 objutils/elf/arm/attributes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 3bc99c1..6a01dae 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -391,6 +391,15 @@ WRS         Wind River Systems.
 """
 
 
+def describe(tag):
+    """Unknown tags: the ABI defines the type of the value (odd tags above 32 are strings)."""
+    try:
+        return ATTRIBUTES[tag]
+    except KeyError:
+        reader = Reader.CSTRING if tag > 32 and tag & 1 else Reader.ULEB
+        return AttributeDescription(f"Tag_unknown_{tag}", tag, reader, Ident)
+
+
 class Attribute:
     def __init__(self, tag, tag_name, value, description=None):
         self.tag = tag
@@ -437,9 +446,9 @@ def parse(buffer, byteorder="<"):
 
     RawAttribute = Struct(
         "tag" / ULEB,
-        "parameterType" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].parameterType),
-        "name" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].tag),
-        "_conv" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].conv),
+        "parameterType" / Computed(lambda ctx: describe(ctx.tag).parameterType),
+        "name" / Computed(lambda ctx: describe(ctx.tag).tag),
+        "_conv" / Computed(lambda ctx: describe(ctx.tag).conv),
         "value"
         / Switch(
             this.parameterType,
@@ -465,7 +474,7 @@ def parse(buffer, byteorder="<"):
             attr = RawAttribute.parse(res.data[j:])
             r = Attribute(attr.tag, attr.name, attr.value)
             if attr._conv != Ident:
-                r.description = attr._conv[attr.value]
+                r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
             j += attr.pos
         if i >= length:
-- 
2.43.0


From acd9bc4e48a9eb453ddfcdf6abd536631edcbb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 053/108] fix: Tag_compatibility is a flag and a vendor name

---
 objutils/elf/arm/attributes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 6a01dae..18164cc 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -36,6 +36,7 @@ from construct import (
     CString,
     Int32ub,
     Int32ul,
+    Sequence,
     Struct,
     Switch,
     Tell,
@@ -54,6 +55,7 @@ class Reader(IntEnum):
     INT32 = 1
     CSTRING = 2
     ULEB = 3
+    ULEB_CSTRING = 4
 
 
 Ident = {}
@@ -335,7 +337,7 @@ ATTRIBUTES = {
     29: AttributeDescription("Tag_ABI_WMMX_args", 29, Reader.ULEB, Tag_ABI_WMMX_args),
     30: AttributeDescription("Tag_ABI_optimization_goals", 30, Reader.ULEB, Tag_ABI_optimization_goals),
     31: AttributeDescription("Tag_ABI_FP_optimization_goals", 31, Reader.ULEB, Tag_ABI_FP_optimization_goals),
-    32: AttributeDescription("Tag_compatibility", 32, Reader.CSTRING, Ident),
+    32: AttributeDescription("Tag_compatibility", 32, Reader.ULEB_CSTRING, Ident),
     34: AttributeDescription("Tag_CPU_unaligned_access", 34, Reader.ULEB, Tag_CPU_unaligned_access),
     36: AttributeDescription(
         "Tag_FP_HP_extension (was Tag_VFP_HP_extension)",
@@ -456,6 +458,7 @@ def parse(buffer, byteorder="<"):
                 Reader.INT32: Integer,
                 Reader.ULEB: ULEB,
                 Reader.CSTRING: CString(encoding="ascii"),
+                Reader.ULEB_CSTRING: Sequence(ULEB, CString(encoding="ascii")),
             },
         ),
         "pos" / Tell,
@@ -472,7 +475,8 @@ def parse(buffer, byteorder="<"):
         j = 0
         while j < len(res.data):
             attr = RawAttribute.parse(res.data[j:])
-            r = Attribute(attr.tag, attr.name, attr.value)
+            value = tuple(attr.value) if attr.parameterType == Reader.ULEB_CSTRING else attr.value
+            r = Attribute(attr.tag, attr.name, value)
             if attr._conv != Ident:
                 r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
-- 
2.43.0


From 9435983701c35e52735d1daae33dd8ad3d0e9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 054/108] fix: only the first subsection of ARM attributes was
 read

---
 objutils/elf/arm/attributes.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 18164cc..2627ddd 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -36,6 +36,7 @@ from construct import (
     CString,
     Int32ub,
     Int32ul,
+    RepeatUntil,
     Sequence,
     Struct,
     Switch,
@@ -471,16 +472,23 @@ def parse(buffer, byteorder="<"):
         if section.vendor not in result:
             result[section.vendor] = []
         i += section.len
-        res = SubSectionHeader.parse(section.data)
-        j = 0
-        while j < len(res.data):
-            attr = RawAttribute.parse(res.data[j:])
-            value = tuple(attr.value) if attr.parameterType == Reader.ULEB_CSTRING else attr.value
-            r = Attribute(attr.tag, attr.name, value)
-            if attr._conv != Ident:
-                r.description = attr._conv.get(attr.value, attr.value)
-            result[section.vendor].append(r)
-            j += attr.pos
+        k = 0
+        while k < len(section.data):
+            res = SubSectionHeader.parse(section.data[k:])
+            k += res.len
+            j = 0
+            if res.tag in (2, 3):
+                # Tag_Section, Tag_Symbol: zero-terminated list of numbers.
+                numbers = Struct("values" / RepeatUntil(lambda obj, lst, ctx: obj == 0, ULEB), "pos" / Tell)
+                j = numbers.parse(res.data).pos
+            while j < len(res.data):
+                attr = RawAttribute.parse(res.data[j:])
+                value = tuple(attr.value) if attr.parameterType == Reader.ULEB_CSTRING else attr.value
+                r = Attribute(attr.tag, attr.name, value)
+                if attr._conv != Ident:
+                    r.description = attr._conv.get(attr.value, attr.value)
+                result[section.vendor].append(r)
+                j += attr.pos
         if i >= length:
             break
     return result
-- 
2.43.0


From 25f7613ea586ad4469c5546a2be748de4c0c43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 055/108] fix: DWARF blocks could not be built from bytes

---
 objutils/dwarf/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 14b2be4..a9ae0a8 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -158,7 +158,7 @@ class Block(Construct):
         msk = f"{self.BYTEORDER}{self.MASK}"
         count = struct.pack(msk, len(value))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(bytes(value, encoding="ascii") if isinstance(value, str) else value)
 
 
 @singleton
@@ -171,7 +171,7 @@ class BlockUleb(Block):
     def _build(self, value, stream, context, path):
         count = ULEB.build(len(value))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(bytes(value, encoding="ascii") if isinstance(value, str) else value)
 
 
 @singleton
-- 
2.43.0


From 9d2741e6bf8748d8ea233442b2972d0294f29707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 056/108] fix: ARM attribute sections without content raised
 exceptions

---
 objutils/elf/__init__.py       | 2 +-
 objutils/elf/arm/attributes.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 330899f..e16e6a2 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -917,7 +917,7 @@ class ElfParser:
     @property
     def arm_attributes(self):
         res = self.query(model.Elf_Section).filter(model.Elf_Section.section_name == ".ARM.attributes").first()
-        if res:
+        if res and res.section_image:
             return attributes.parse(res.section_image, byteorder=self.endianess)
         else:
             return {}
diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 2627ddd..3c0d2fd 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -467,7 +467,7 @@ def parse(buffer, byteorder="<"):
     i = 1
     length = len(buffer)
     result = {}
-    while True:
+    while i < length:
         section = Section.parse(buffer[i:])
         if section.vendor not in result:
             result[section.vendor] = []
@@ -489,6 +489,4 @@ def parse(buffer, byteorder="<"):
                     r.description = attr._conv.get(attr.value, attr.value)
                 result[section.vendor].append(r)
                 j += attr.pos
-        if i >= length:
-            break
     return result
-- 
2.43.0


From 8b7d9b562c9012be168e17bade6b95f60fac0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 057/108] fix: oj-elf-info imported names from the wrong module
 and never started

---
 objutils/scripts/oj_elf_info.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index baa301b..fee846c 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -29,18 +29,15 @@ __copyright__ = """
 import argparse
 
 # from objutils.dwarf import DwarfProcessor
-from objutils.elf import (
-    ElfParser,
-    model,
-    program_header_flags_name,
-    program_header_name,
-)
+from objutils.elf import ElfParser, model
 from objutils.elf.defs import (
     ELF_BYTE_ORDER_NAMES,
     ELF_CLASS_NAMES,
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    program_header_flags_name,
+    program_header_name,
 )
 
 
-- 
2.43.0


From 1b3df2611fbd5a6532df6df17bef2b050fc06a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 058/108] fix: OS- and processor-specific types of sections,
 symbols, segments and files raised ValueErrors

---
 objutils/elf/defs.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index f26eee4..e48a515 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -36,6 +36,20 @@ HDR_FMT32 = "HHIIIIIHHHHHH"
 HDR_FMT64 = "HHIQQQIHHHHHH"
 
 
+class OpenEnum(enum.IntEnum):
+    """OS-, processor-, and application-specific values need not be listed."""
+
+    @classmethod
+    def _missing_(cls, value):
+        if not isinstance(value, int):
+            return None
+        prefix = next(iter(cls)).name.partition("_")[0]
+        member = int.__new__(cls, value)
+        member._name_ = f"{prefix}_0x{value:x}"
+        member._value_ = value
+        return member
+
+
 Elf32_Ehdr = namedtuple(
     "Elf32_Ehdr",
     """e_type e_machine e_version e_entry e_phoff e_shoff e_flags e_ehsize
@@ -43,7 +57,7 @@ Elf32_Ehdr = namedtuple(
 )
 
 
-class ELFType(enum.IntEnum):
+class ELFType(OpenEnum):
     ET_NONE = 0
     " No file type"
     ET_REL = 1
@@ -652,7 +666,7 @@ ELF_BYTE_ORDER_NAMES = {
 }
 
 
-class ELFAbiType(enum.IntEnum):
+class ELFAbiType(OpenEnum):
     ELFOSABI_NONE = 0  # UNIX System V ABI
     ELFOSABI_HPUX = 1  # HP-UX operating system
     ELFOSABI_NETBSD = 2  # NetBSD
@@ -745,7 +759,7 @@ def special_section_name(ndx):
         return str(ndx)
 
 
-class SectionType(enum.IntEnum):
+class SectionType(OpenEnum):
     """ """
 
     SHT_NULL = 0  # Section header table entry unused.
@@ -833,7 +847,7 @@ ELF64_SYM_TABLE_SIZE = struct.calcsize(SYMTAB_FMT64)
 STN_UNDEF = 0
 
 
-class SymbolBinding(enum.IntEnum):
+class SymbolBinding(OpenEnum):
     STB_LOCAL = 0  # i.e. `static`
     STB_GLOBAL = 1
     STB_WEAK = 2
@@ -843,7 +857,7 @@ class SymbolBinding(enum.IntEnum):
     STB_HIPROC = 15
 
 
-class SymbolType(enum.IntEnum):
+class SymbolType(OpenEnum):
     STT_NOTYPE = 0
     STT_OBJECT = 1
     STT_FUNC = 2
@@ -871,7 +885,7 @@ class SymbolVisibility(enum.IntEnum):
 ##
 ##   ELF Program Header
 ##
-class ProgramHeader(enum.IntEnum):
+class ProgramHeader(OpenEnum):
     PT_NULL = 0  # Program header table entry unused.
     PT_LOAD = 1  # Loadable program segment.
     PT_DYNAMIC = 2  # Dynamic linking information.
-- 
2.43.0


From 6cf44cc24b65736722d97517dfe7ffc190c4cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 059/108] fix: IEEE-695: read counted numbers (bytes are
 integers already)

---
 objutils/ieee695.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 48ccc0f..bd0266f 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -402,7 +402,7 @@ class Reader:
             length = typecode & ~0x80
             data = self.inFile.read(length)
             self.fpos = self.inFile.tell()
-            result = reduce(lambda x, y: (x * 256) + ord(y), data, 0)
+            result = reduce(lambda x, y: (x * 256) + y, data, 0)
         return result
 
     def readString(self, offset):
-- 
2.43.0


From ae3ba8ef383398d8f32f3f98fe5ebfaddb68695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 060/108] fix: IEEE-695: number of data bytes is an integer

---
 objutils/ieee695.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index bd0266f..eb3a454 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -895,7 +895,7 @@ class Reader:
     def onLD(self):
         "{$ED}{n1}{...}"
         numberOfMAUs = self.readNumber(self.fpos)
-        data = self.inFile.read((numberOfMAUs * self.info.numberOfBits) / 8)
+        data = self.inFile.read((numberOfMAUs * self.info.numberOfBits) // 8)
         self.logger.debug(f"reading {len(data):d} bytes")
 
         # SB ASP LD
-- 
2.43.0


From 06bc4d9f531236c16a35f9bcc242eeff3f48f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 061/108] fix: IEEE-695: section indices beyond 127

---
 objutils/ieee695.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index eb3a454..7738f18 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -680,7 +680,7 @@ class Reader:
 
     def onST(self):
         "${E6}{n1}{l}[Id][n2][n3][n4]"
-        sectionIndex = self.readByte(self.fpos)
+        sectionIndex = self.readNumber(self.fpos)
         self.setCurrentSectionIndex(sectionIndex)
         f = self.readCharacter(self.fpos)
         if f == "A":
@@ -738,7 +738,7 @@ class Reader:
 
     def onSA(self):
         "{$E7}{n1}[n2][n3]"
-        sectionIndex = self.readByte(self.fpos)
+        sectionIndex = self.readNumber(self.fpos)
         self.checkSectionIndex(sectionIndex)
         boundaryAlignmentDivisor = self.checkOptional(self.fpos)
         self.sections[sectionIndex].boundaryAlignment = 2**boundaryAlignmentDivisor
-- 
2.43.0


From d0f57ff11a8257588faaf1f9ef6f1680a468a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 062/108] fix: IEEE-695: deliver optional variable letters
 (byte order, type characteristics)

---
 objutils/ieee695.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 7738f18..9d6e167 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -445,6 +445,7 @@ class Reader:
                 result = chr(cc - 0x80)
                 if ord(result) > ord("Z"):
                     result = None
+                return result
             else:
                 return self.readNumber(offset)
 
-- 
2.43.0


From f09e280f8cd7d6811c331cd9337998e5806bccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 063/108] fix: lines of hex files may contain any characters

---
 objutils/hexfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 57c0c22..57ef69c 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -221,7 +221,7 @@ class Reader(BaseType):
         for line_number, line in enumerate(fp.readlines(), 1):
             for format_type, format in self.formats:
                 if isinstance(line, bytes):
-                    match = format.match(line.decode())
+                    match = format.match(line.decode("latin1"))
                 else:
                     match = format.match(line)
                 if match:
@@ -451,13 +451,13 @@ class ASCIIHexReader(Reader):
 
     def read(self, fp):
         if PYTHON_VERSION.major == 3:
-            lines = fp.read().decode()
+            lines = [line.decode("latin1") for line in fp.read().splitlines()]
         else:
-            lines = fp.read()
+            lines = fp.read().splitlines()
         self.sections = []
         self.address = 0
         breakRequest = False
-        for line in lines.splitlines():
+        for line in lines:
             for pattern, action in self.patterns:
                 match = pattern.match(line)
                 if match:
-- 
2.43.0


From 54ae9d0c70cb4a0e1d57629bbf7446ce6081c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 064/108] fix: text handed over to loads()/probes() may contain
 any characters

---
 objutils/hexfile.py | 4 ++--
 objutils/shf.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 57ef69c..94195f7 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -207,7 +207,7 @@ class Reader(BaseType):
     def loads(self, image, **kws):
         if PYTHON_VERSION.major == 3:
             if isinstance(image, str):
-                return self.load(create_string_buffer(bytes(image, "ascii")))
+                return self.load(create_string_buffer(bytes(image, "utf-8")))
             else:
                 return self.load(create_string_buffer(image))
         else:
@@ -302,7 +302,7 @@ class Reader(BaseType):
     def probes(self, image):
         if PYTHON_VERSION.major == 3:
             if isinstance(image, str):
-                return self.probe(create_string_buffer(bytes(image, "ascii")))
+                return self.probe(create_string_buffer(bytes(image, "utf-8")))
             else:
                 return self.probe(create_string_buffer(image))
         else:
diff --git a/objutils/shf.py b/objutils/shf.py
index 8f2caaa..4f25c4a 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -137,7 +137,7 @@ class Reader:
     def loads(self, image):
         if PYTHON_VERSION.major == 3:
             if isinstance(image, str):
-                return self.load(create_string_buffer(bytes(image, "ascii")))
+                return self.load(create_string_buffer(bytes(image, "utf-8")))
             else:
                 return self.load(create_string_buffer(image))
         else:
-- 
2.43.0


From a06a948a9cf95f73e65cef9f1600d0c2ddaf8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 065/108] fix: fpc: ignore lines without start character, e.g.
 blank ones

---
 objutils/fpc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index fc2d33d..ebba001 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -61,10 +61,9 @@ class Reader(hexfile.Reader):
         out_lines = []
         for line in fp.readlines():
             line = line.strip()
-            startSym, line = line[0], line[1:]
-
-            if startSym != PREFIX:
-                pass  # todo: FormatError!!!
+            if not line.startswith(PREFIX.encode("ascii")):
+                continue  # Not a record.
+            line = line[1:]
 
             if (len(line) % 5) != 0:
                 pass  # todo: FormatError!!!
-- 
2.43.0


From 3e70a9d8bfededb169dd66faa213937483d5c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 066/108] fix: ash/titxt: blank lines don't create empty
 sections

---
 objutils/hexfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 94195f7..4f9aae2 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -445,7 +445,8 @@ class ASCIIHexReader(Reader):
             self.address,
             bytearray([int(ch, 16) for ch in filter(lambda x: x, self.SPLITTER.split(line))]),
         )
-        self.sections.append(section)
+        if section.length:
+            self.sections.append(section)
         self.address += len(section)
         return True
 
-- 
2.43.0


From bac82c63a0fc8b1a2d8f7136f9058e7f52a4d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 067/108] fix: fpc: probing looks at the first lines only

---
 objutils/fpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index ebba001..15e0a4b 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -121,14 +121,16 @@ class Reader(hexfile.Reader):
         return format_type in (DATA_ABS, DATA_INC, DATA_REL)
 
     def probe(self, fp):
+        lines = []
         for idx, line in enumerate(fp, 1):
             if not VALID_CHARS.match(line.decode("latin1")):
                 fp.seek(0, os.SEEK_SET)
                 return False
+            lines.append(line)
             if idx > 3:
                 break
         fp.seek(0, os.SEEK_SET)
-        return super().probe(create_string_buffer(bytearray(self.decode(fp), "ascii")))
+        return super().probe(create_string_buffer(bytearray(self.decode(create_string_buffer(b"".join(lines))), "ascii")))
 
 
 class Writer(hexfile.Writer):
-- 
2.43.0


From 058e02178ac7709b3a2ca6353da22b9410ea3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 068/108] fix: ash/titxt: white space other than blanks at the
 end of lines

---
 objutils/hexfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 4f9aae2..4ba16f3 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -443,7 +443,7 @@ class ASCIIHexReader(Reader):
     def parse_line(self, line, match):
         section = Section(
             self.address,
-            bytearray([int(ch, 16) for ch in filter(lambda x: x, self.SPLITTER.split(line))]),
+            bytearray([int(ch, 16) for ch in filter(lambda x: x, self.SPLITTER.split(line.strip()))]),
         )
         if section.length:
             self.sections.append(section)
-- 
2.43.0


From bac3de2afabc65e083297b04271905080037ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 069/108] fix: srec: count records of 16bit files with more
 than 65535 records

---
 objutils/srec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index ad0a90c..62d58c5 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -172,6 +172,8 @@ class Writer(hexfile.Writer):
             data = []
         if record_type == 0:  # Header records always have a 16bit address.
             offset, address_mask = 3, "%04X"
+        elif record_type == 5 and self.record_type == 1 and address > 0xFFFF:  # Count doesn't fit into 16bits.
+            offset, address_mask = 4, "%06X"
         else:
             offset, address_mask = self.offset, self.address_mask
         length += offset
-- 
2.43.0


From 103bf00c21f4880aa72ce0329219dbd41a66ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 070/108] fix: hexdump: rows are compared with those of the
 same section only

---
 objutils/hexdump.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index 0107393..8b12549 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -45,6 +45,8 @@ class Dumper:
         self.elided = False
 
     def dump_data(self, section, offset=0):
+        self.previous_row = b""
+        self.elided = False
         end = section.length
         # line_count = math.ceil(len(section.data) / self.LINE_LENGTH)
         start_pos = 0
-- 
2.43.0


From 104ea7f483c9d9496eac96c364d554bf3745720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 071/108] fix: word sums accept lists of integers as documented

---
 objutils/checksums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/checksums.py b/objutils/checksums.py
index fcbf715..9c1f8f0 100644
--- a/objutils/checksums.py
+++ b/objutils/checksums.py
@@ -756,7 +756,7 @@ def wordSum(modulus, step):
             mask = "<I"
         else:
             raise NotImplementedError("Only WORDs or DWORDs are supported.")
-        x = [struct.unpack(mask, frame[x : x + step])[0] for x in range(0, len(frame), step)]
+        x = [struct.unpack(mask, bytes(frame[x : x + step]))[0] for x in range(0, len(frame), step)]
         return sum(x) % modulus
 
     return add
-- 
2.43.0


From 5751ea0aa00f82ea728554c877596f330a453623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 072/108] fix: DWARF public names of all sets are shown, the
 terminator has no name

---
 objutils/dwarf/__init__.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 8b9087d..36d44ad 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -859,28 +859,19 @@ class DwarfProcessor:
         Entry = Struct(
             "start" / Tell,
             "offset" / self.readers.u32,
-            "name" / self.readers.cstring_ascii,
+            "name" / If(this.offset != 0, self.readers.cstring_ascii),  # There's no name at the end of a set.
             "stop" / Tell,
         )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            print(offset, header)
-            if offset >= length - 1:
-                break
-            while True:
+            print(header.stop, header)
+            end = header.start + 4 + header.unit_length
+            while image.tell() < end:
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
-                print("ENTRY", entry)
                 if entry.offset == 0:
                     break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+                print("ENTRY", entry)
+            image.seek(end)
 
     def aranges(self):
         if ".debug_aranges" not in self.debug_sections:
-- 
2.43.0


From 79b9bcadad2e7a91eff90154b8c180c2144ca062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 073/108] fix: DWARF address ranges: tuples have the size of
 the header's addresses, sets end where they say

---
 objutils/dwarf/__init__.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 36d44ad..1f81bb2 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -35,6 +35,7 @@ from typing import Any, List, Optional
 from construct import (
     Array,
     BitStruct,
+    Bytes,
     Computed,
     CString,
     Enum,
@@ -888,29 +889,22 @@ class DwarfProcessor:
             "segment_size" / self.readers.u8,
             "stop" / Tell,
         )
-        Entry = Struct(
-            "start" / Tell,
-            "length" / self.readers.u32,
-            "address" / self.readers.u32,
-            "stop" / Tell,
-        )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            if offset >= length - 1:
-                break
-            while True:
+            end = header.start + 4 + header.unit_length
+            address = Address(header.address_size, self.endianess)
+            Entry = Struct(
+                "segment" / Bytes(header.segment_size),
+                "address" / address,
+                "length" / address,
+            )
+            # The first tuple is aligned to the size of a tuple.
+            image.seek(-(header.stop - header.start) % (header.segment_size + 2 * header.address_size), io.SEEK_CUR)
+            while image.tell() < end:
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
                 if entry.address == 0 and entry.length == 0:
                     break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+            image.seek(end)
 
     def dwarf_expression(self, expr: bytes) -> str:
         return self.stack_machine.evaluate(expr)
-- 
2.43.0


From 793b57efabe106ce509f4b9202d2374f8f816407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 074/108] fix: layout of DWARF line number headers

---
 objutils/dwarf/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 1f81bb2..2649a64 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -485,16 +485,18 @@ class DwarfProcessor:
                 "default_is_stmt" / self.readers.u8,
                 "line_base" / self.readers.s8,
                 "line_range" / self.readers.u8,
-                "opcode_base" / self.readers.s8,
+                "opcode_base" / self.readers.u8,
                 "standard_opcode_lengths" / Array(this.opcode_base - 1, self.readers.u8),
                 "include_directories" / ArrayOfCStrings(),
                 "file_names" / FilenameSequence(),
             )
         else:
             LineNumberProgramHeader = Struct(
-                "header_length" / self.readers.u16,
+                "address_size" / If(version_information.version >= 5, self.readers.u8),
+                "segment_selector_size" / If(version_information.version >= 5, self.readers.u8),
+                "header_length" / self.readers.u32,
                 "minimum_instruction_length" / self.readers.u8,
-                "maximum_operations_per_instruction" / self.readers.u8,
+                "maximum_operations_per_instruction" / If(version_information.version >= 4, self.readers.u8),
                 "default_is_stmt" / self.readers.u8,
                 "line_base" / self.readers.s8,
                 "line_range" / self.readers.u8,
-- 
2.43.0


From d95fed5dba239a632a16480f944b3b3378ca8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 075/108] fix: DWARF names and macros are UTF-8

---
 objutils/dwarf/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 2649a64..e4cf5cc 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -488,7 +488,7 @@ class DwarfProcessor:
                 "opcode_base" / self.readers.u8,
                 "standard_opcode_lengths" / Array(this.opcode_base - 1, self.readers.u8),
                 "include_directories" / ArrayOfCStrings(),
-                "file_names" / FilenameSequence(),
+                "file_names" / FilenameSequence("utf8"),
             )
         else:
             LineNumberProgramHeader = Struct(
@@ -530,11 +530,11 @@ class DwarfProcessor:
                 / Switch(
                     this.macType,
                     {
-                        "DW_MACINFO_define": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_ascii),
-                        "DW_MACINFO_undef": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_ascii),
+                        "DW_MACINFO_define": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_utf8),
+                        "DW_MACINFO_undef": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_utf8),
                         "DW_MACINFO_start_file": Struct("lineNumber" / self.readers.uleb, "fileNumber" / self.readers.uleb),
                         "DW_MACINFO_end_file": Pass,
-                        "DW_MACINFO_vendor_ext": Struct("constant" / self.readers.uleb, "value" / self.readers.cstring_ascii),
+                        "DW_MACINFO_vendor_ext": Struct("constant" / self.readers.uleb, "value" / self.readers.cstring_utf8),
                     },
                     default=Pass,
                 ),
@@ -862,7 +862,7 @@ class DwarfProcessor:
         Entry = Struct(
             "start" / Tell,
             "offset" / self.readers.u32,
-            "name" / If(this.offset != 0, self.readers.cstring_ascii),  # There's no name at the end of a set.
+            "name" / If(this.offset != 0, self.readers.cstring_utf8),  # There's no name at the end of a set.
             "stop" / Tell,
         )
         while image.tell() < length:
-- 
2.43.0


From 2dd47b5be22bd569fa82e2d1ff48c5a4d26df5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 076/108] fix: empty debug sections and files without
 .debug_info

---
 objutils/dwarf/__init__.py      | 15 +++++++++------
 objutils/scripts/oj_elf_info.py |  3 ++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index e4cf5cc..b0a3fb3 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -293,7 +293,9 @@ class DwarfProcessor:
 
         self.b64 = elf_parser.b64
         self.endianess = Endianess.Little if elf_parser.endianess == "<" else Endianess.Big
-        self.debug_sections = elf_parser.debug_sections()
+        self.debug_sections = OrderedDict(
+            (name, info._replace(image=info.image or b"")) for name, info in elf_parser.debug_sections().items()
+        )
         # print(self.debug_sections.keys())
         if not self.debug_sections:
             raise TypeError("File has no DWARF sections.")
@@ -472,7 +474,9 @@ class DwarfProcessor:
             return
         section = self.debug_sections[key]
         image = io.BytesIO(section.image)
-        length = len(section.image)  # noqa: F841
+        length = len(section.image)
+        if not length:
+            return
 
         VersionInformation = Struct("unit_length" / self.readers.u32, "version" / self.readers.u16)
         version_information = VersionInformation.parse_stream(image)
@@ -541,16 +545,15 @@ class DwarfProcessor:
                 "stop" / Tell,
             )
             offset = 0
-            while True:
+            while offset < length:
                 macInfo = MacInfo.parse_stream(image)
                 offset += macInfo.stop - macInfo.start
                 # print(offset, macInfo)
-                if offset >= length - 1:
-                    break
         elif ".debug_macro" in self.debug_sections:
             section = self.debug_sections[".debug_macro"]
             image = io.BytesIO(section.image)
-            length = len(section.image)
+            if not section.image:
+                return
 
             MacroInformationHeader = Struct(
                 "start" / Tell,
diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index fee846c..95a69d2 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -135,7 +135,8 @@ def main():
         dp.pubnames()
         dp.aranges()
         dp.do_lines()
-        dp.do_dbg_info()
+        if ".debug_info" in dp.debug_sections or ".debug_global_info" in dp.debug_sections:
+            dp.do_dbg_info()
         # dp.processDebugInfo()
         dp.do_mac_info()
 
-- 
2.43.0


From 4ea0c5c00c8d14c39f078e819fc93051d41a3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 077/108] fix: section_in_segment used undefined names

---
 objutils/elf/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index e16e6a2..ed73d18 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -752,11 +752,11 @@ class ElfParser:
         has_dynamic_size = False
         valid_segment = (
             ((section_header.sh_flags & defs.SectionFlags.SHF_TLS) != 0)
-            and (segment.p_type == defs.PT_TLS or segment.p_type == defs.PT_GNU_RELRO or segment.p_type == defs.PT_LOAD)
+            and (segment.p_type == defs.ProgramHeader.PT_TLS or segment.p_type == defs.ProgramHeader.PT_GNU_RELRO or segment.p_type == defs.ProgramHeader.PT_LOAD)
             or (
                 (section_header.sh_flags & defs.SectionFlags.SHF_TLS) == 0
-                and segment.p_type != defs.PT_TLS
-                and segment.p_type != defs.PT_PHDR
+                and segment.p_type != defs.ProgramHeader.PT_TLS
+                and segment.p_type != defs.ProgramHeader.PT_PHDR
             )
         )
         has_offset = section_header.sh_type == defs.SectionType.SHT_NOBITS or (
@@ -774,7 +774,7 @@ class ElfParser:
             )
         )
         has_dynamic_size = (
-            segment.p_type != defs.PT_DYNAMIC
+            segment.p_type != defs.ProgramHeader.PT_DYNAMIC
             or section_header.sh_size != 0
             or segment.p_memsz == 0
             or (
@@ -816,7 +816,7 @@ class ElfParser:
         return (
             (section_header.sh_flags & defs.SectionFlags.SHF_TLS) != 0
             and section_header.sh_type == defs.SectionType.SHT_NOBITS
-            and segment.p_type != defs.PT_TLS
+            and segment.p_type != defs.ProgramHeader.PT_TLS
         )
 
     def section_size(self, section_header, segment):
-- 
2.43.0


From afa08acdb0b1d43ebf8c4df8855d1464ed5bc876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 078/108] fix: ELF names, notes and comments are UTF-8

---
 objutils/elf/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index ed73d18..a7fd1bb 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -458,7 +458,7 @@ class ElfParser:
 
         self._images = {}
         self._sections_by_name = OrderedDict()
-        self.asciiCString = CString(encoding="ascii")
+        self.utf8CString = CString(encoding="utf8")
 
         self.create_db_on_demand()
 
@@ -578,7 +578,7 @@ class ElfParser:
     def get_string(self, table_index, entry):
         if not self._images[table_index] or entry >= len(self._images[table_index]):
             return ""
-        name = self.asciiCString.parse(self._images[table_index][entry:])
+        name = self.utf8CString.parse(self._images[table_index][entry:])
         return name
 
     def _parse_program_headers(self):
@@ -692,14 +692,14 @@ class ElfParser:
         self.session.bulk_save_objects(symbols)
 
     def _parse_comment(self, data):
-        Line = Struct("line" / CString("ascii"), "pos" / Tell)
+        Line = Struct("line" / CString("utf8"), "pos" / Tell)
         if not data:
             return ""
         length = len(data)
         result = []
         i = 0
         if data.find(b"\x00") == -1:
-            return str(data, "ascii")
+            return str(data, "utf8")
         while i < length:
             # print("*** LINE", data[i : ])
             line = Line.parse(data[i:])
@@ -728,7 +728,7 @@ class ElfParser:
                 break
             data = data[note.size + -note.size % 4 :]
             note.desc = binascii.b2a_hex(note.desc).decode()
-            note.name = note.name.partition(b"\x00")[0].decode("ascii")
+            note.name = note.name.partition(b"\x00")[0].decode("utf8")
             result.append(note)
         return result
 
-- 
2.43.0


From ee792142e919768b1f9a53a0e0b5777e1bf80364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 079/108] fix: is_debug, is_dwo and the enumerated attributes
 as filters

---
 objutils/elf/model.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 86baf2f..a7a7f50 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -210,10 +210,18 @@ class Elf_Section(Base, RidMixIn):
     def is_debug(self):
         return self.section_name.startswith(".debug")
 
+    @is_debug.expression
+    def is_debug(self):  # NB: SQLite's LIKE ignores case.
+        return func.substr(self.section_name, 1, 6) == ".debug"
+
     @hybrid_property
     def is_dwo(self):
         return self.section_name.startswith(".dwo")
 
+    @is_dwo.expression
+    def is_dwo(self):
+        return func.substr(self.section_name, 1, 4) == ".dwo"
+
     @hybrid_property
     def has_content(self):
         return self.sh_type not in (
@@ -245,6 +253,10 @@ class Elf_Section(Base, RidMixIn):
     def section_type(self):
         return defs.SectionType(self.sh_type)
 
+    @section_type.expression
+    def section_type(self):
+        return self.sh_type
+
     @hybrid_property
     def flag_writeable(self):
         return self.test_flags(defs.SectionFlags.SHF_WRITE)
@@ -384,10 +396,18 @@ class Elf_Symbol(Base, RidMixIn):
     def symbol_bind(self):
         return defs.SymbolBinding(self.st_bind)
 
+    @symbol_bind.expression
+    def symbol_bind(self):
+        return self.st_bind
+
     @hybrid_property
     def symbol_type(self):
         return defs.SymbolType(self.st_type)
 
+    @symbol_type.expression
+    def symbol_type(self):
+        return self.st_type
+
 
 class Elf_Comment(Base, RidMixIn):
     """ """
-- 
2.43.0


From e25674077940e9806ae79fcfbe405458781283ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 080/108] fix: visibility of a symbol is given by the lower
 bits of st_other only

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index a7a7f50..8635c91 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -339,14 +339,14 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def hidden(self):
-        return self.st_other in (
+        return (self.st_other & 0x03) in (
             defs.SymbolVisibility.STV_HIDDEN,
             defs.SymbolVisibility.STV_INTERNAL,
         )
 
     @hidden.expression
     def hidden(self):
-        return self.st_other.in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
+        return self.st_other.op("&")(0x03).in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
 
     @hybrid_property
     def weak(self):
-- 
2.43.0


From 564b62f33bd1e46844cb737e3119b794678c52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 081/108] fix: S-records stating a count of zero data bytes but
 carrying some are refused

---
 objutils/srec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 62d58c5..5108c66 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -100,7 +100,7 @@ class Reader(hexfile.Reader):
         if line.checksum != checksum:
             raise hexfile.InvalidRecordChecksumError()
         line.length -= BIAS[format_type]  # calculate actual data length.
-        if hasattr(line, "chunk") and line.length and (line.length != len(line.chunk)):
+        if hasattr(line, "chunk") and (line.length != len(line.chunk)):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
 
     def is_data_line(self, line, format_type):
-- 
2.43.0


From 6afd5466264cd21951d92851c17ce1b0ff45f9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 082/108] fix: extended Tek records with an odd block length
 are refused

---
 objutils/etek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index 00363a3..3cf0765 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -57,7 +57,7 @@ class Reader(hexfile.Reader):
                     line.chunk,
                 )
             )
-            if line.length != len(line.chunk):
+            if block_length != (len(line.chunk) + 5) * 2:
                 raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
             if line.checksum != checksum:
                 raise hexfile.InvalidRecordChecksumError()
-- 
2.43.0


From 42fa8bcf7a38a643448ac65598aa429f8cd663cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 083/108] fix: FPC records whose byte count disagrees with
 their data are refused

---
 objutils/fpc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 15e0a4b..e049f3e 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -95,6 +95,8 @@ class Reader(hexfile.Reader):
         if format_type == EOF:
             return True
         line.length -= 4
+        if line.length < 0 or not 0 <= len(line.chunk) - line.length <= 3:
+            raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
         if line.length != len(line.chunk):
             line.chunk = line.chunk[: line.length]  # Cut padding.
         if format_type == DATA_ABS:
-- 
2.43.0


From 81305e4a6813b7bd02231c173367c144ffcb630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 084/108] fix: FPC lines cut within a group of five characters
 are refused instead of delivering wrong bytes

---
 objutils/fpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index e049f3e..22a5d11 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -43,7 +43,7 @@ PREFIX = "$"
 MAPPING = dict(enumerate(chr(n) for n in range(37, 123) if n not in (42,)))
 REV_MAPPING = {ord(value): key for key, value in MAPPING.items()}
 NULLS = re.compile(r"\0*\s*!M\s*(.*)", re.DOTALL | re.M)
-VALID_CHARS = re.compile(r"^\{}[{}]+$".format(PREFIX, re.escape("".join(MAPPING.values()))))
+VALID_CHARS = re.compile(r"^\{}(?:[{}]{{5}})+$".format(PREFIX, re.escape("".join(MAPPING.values()))))
 
 atoi16 = partial(int, base=16)
 
@@ -66,7 +66,7 @@ class Reader(hexfile.Reader):
             line = line[1:]
 
             if (len(line) % 5) != 0:
-                pass  # todo: FormatError!!!
+                raise hexfile.InvalidRecordLengthError("Length of line isn't a multiple of five.")
 
             values = []
             for quintuple in self.split_quintuples(line):
-- 
2.43.0


From 7bf042857c8444d3f7014da998ae16250f7be011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 085/108] fix: write_ndarray() deposits the array in the
 requested order

---
 objutils/image.py   | 2 +-
 objutils/section.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index 8ceb7e7..bf94f83 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -191,7 +191,7 @@ class Image:
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-        self._call_address_function("write_ndarray", addr, array, order=None, **kws)
+        self._call_address_function("write_ndarray", addr, array, order, **kws)
 
     def read_ndarray(self, addr, length, dtype, shape=None, order=None, **kws):
         """ """
diff --git a/objutils/section.py b/objutils/section.py
index a68f660..5b297f0 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -366,7 +366,7 @@ class Section:
         data_size = array.nbytes
         if offset + data_size > self.length:
             raise InvalidAddressError(f"write_ndarray(0x{addr:08x}) access out of bounds.")
-        self.data[offset : offset + data_size] = array.tobytes()
+        self.data[offset : offset + data_size] = array.tobytes(order="F" if order == "F" else "C")
 
     def read_ndarray(self, addr, length, dtype, shape=None, order=None, **kws):
         """ """
-- 
2.43.0


From 6c2d99ffc6f08da789fa35e7bbd40d57224a7901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 086/108] fix: DW_FORM_ref_addr has the size of an address in
 DWARF 2 units

---
 objutils/dwarf/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index b0a3fb3..0715174 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -575,7 +575,7 @@ class DwarfProcessor:
 
             MacroInformationHeader.parse_stream(image)
 
-    def get_form_readers(self, addressSize):
+    def get_form_readers(self, addressSize, version=4):
         return {
             constants.AttributeForm.DW_FORM_string: self.readers.cstring_utf8,
             constants.AttributeForm.DW_FORM_udata: self.readers.uleb,
@@ -590,7 +590,8 @@ class DwarfProcessor:
             constants.AttributeForm.DW_FORM_block2: self.readers.block2,
             constants.AttributeForm.DW_FORM_block4: self.readers.block4,
             constants.AttributeForm.DW_FORM_flag: self.readers.u8,
-            constants.AttributeForm.DW_FORM_ref_addr: self.readers.u32,
+            # DWARF 2 references have the size of an address, later versions the size of an offset.
+            constants.AttributeForm.DW_FORM_ref_addr: Address(addressSize, self.endianess) if version < 3 else self.readers.u32,
             constants.AttributeForm.DW_FORM_ref1: self.readers.u8,
             constants.AttributeForm.DW_FORM_ref2: self.readers.u16,
             constants.AttributeForm.DW_FORM_ref4: self.readers.u32,
@@ -749,7 +750,7 @@ class DwarfProcessor:
             level = 0
             pos = 0
             offset += dbgInfo.stop - dbgInfo.start
-            form_readers = self.get_form_readers(address_size)
+            form_readers = self.get_form_readers(address_size, version)
             print("Pos, Length", pos, cu_length)
             if pos >= cu_length:
                 break
-- 
2.43.0


From d6c60426807a09bc1b2a0b52337d829432fcaab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 087/108] fix: the machine data of an AVR file tells whether
 it's prepared for link-time relaxation

---
 objutils/elf/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index e48a515..15914e5 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -588,7 +588,7 @@ class AvrMachineData(MachineData):
             result.append(AVRMachineTypeNames[flags])
         else:
             result.append("avr:<unknown>")
-        if flags & EF_AVR_LINKRELAX_PREPARED:
+        if self.flags & EF_AVR_LINKRELAX_PREPARED:
             result.append("link-relax")
         return result
 
-- 
2.43.0


From d25422b4a569f370850dbc117c5406fc4e59dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 088/108] fix: reading the machine data of an ARM file prints
 nothing and leaves the flags alone

---
 objutils/elf/defs.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index 15914e5..a504a44 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -596,9 +596,7 @@ class AvrMachineData(MachineData):
 class ArmMachineData(MachineData):
 
     def specific(self) -> list:
-        eabi = self.flags & EF_ARM_EABIMASK
-        flags = self.flags = self.flags & EF_ARM_EABIMASK_COM
-        print("ARM", hex(eabi), hex(flags))
+        flags = self.flags & EF_ARM_EABIMASK_COM
         result = []
 
         if flags & EF_ARM_RELEXEC:
-- 
2.43.0


From 2ba4deb39df5787e0b2bf11c060bc991eda8ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 089/108] fix: bin_extractor() reads bytes

---
 objutils/utils/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index 5404e1f..f0c94b6 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -111,10 +111,9 @@ def create_string_buffer(*args):
 
 def bin_extractor(fname, offset, length):
     """Extract a junk of data from a file."""
-    fp = open(fname)
-    fp.seek(offset)
-    data = fp.read(length)
-    return data
+    with open(fname, "rb") as fp:
+        fp.seek(offset)
+        return fp.read(length)
 
 
 CYG_PREFIX = "/cygdrive/"
-- 
2.43.0


From 1a44fb3098f51c77d32d0236bacdc1c45e4b0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 090/108] fix: a logger emits what its current level lets
 through

---
 objutils/logger.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/objutils/logger.py b/objutils/logger.py
index 6ede72e..eb70d08 100644
--- a/objutils/logger.py
+++ b/objutils/logger.py
@@ -37,7 +37,6 @@ class Logger:
         self.logger.setLevel(level)
         if not self.logger.handlers:  # Loggers are shared by name.
             handler = logging.StreamHandler()
-            handler.setLevel(level)
             formatter = logging.Formatter(self.FORMAT)
             handler.setFormatter(formatter)
             self.logger.addHandler(handler)
-- 
2.43.0


From c777900d030ec035ffa7f9a125141d003132f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 091/108] fix: a format described by a single record may be
 read

---
 objutils/hexfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 4ba16f3..9f96224 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -184,7 +184,7 @@ class Reader(BaseType):
     def __init__(self):
         self.logger = Logger("Reader")
         if isinstance(self.FORMAT_SPEC, str):
-            self.formats = [FormatParser(self.FORMAT_SPEC, self.DATA_SEPARATOR).parse()]
+            self.formats = [(TYPE_FROM_RECORD, FormatParser(self.FORMAT_SPEC, self.DATA_SEPARATOR).parse())]
         elif isinstance(self.FORMAT_SPEC, (list, tuple)):
             self.formats = []
             for format_type, format in self.FORMAT_SPEC:
-- 
2.43.0


From 7aaa425bfb1da552ca0d4845491602b2305dccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 092/108] fix: debugging information with blocks can be turned
 into JSON

---
 objutils/dwarf/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 0715174..bd46ecd 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -117,6 +117,11 @@ def db_value(value):
     return str(value) if isinstance(value, int) else value
 
 
+def json_value(value):
+    # Blocks and location expressions are kept as raw bytes.
+    return value.hex() if isinstance(value, (bytes, bytearray, memoryview)) else value.__dict__
+
+
 @dataclass(frozen=True)
 class Attribute:
     encoding: constants.AttributeEncoding
@@ -157,7 +162,7 @@ class DebugInformationEntry:
     children: List = field(default_factory=list)
 
     def toJSON(self):
-        return json.dumps(self, default=lambda o: o.__dict__, sort_keys=True, indent=4)
+        return json.dumps(self, default=json_value, sort_keys=True, indent=4)
 
 
 @dataclass
@@ -166,7 +171,7 @@ class DebugInformation:
     die_entries: List[DebugInformationEntry]
 
     def toJSON(self):
-        return json.dumps(self, default=lambda o: o.__dict__, sort_keys=True, indent=4)
+        return json.dumps(self, default=json_value, sort_keys=True, indent=4)
 
 
 class Abbrevations:
-- 
2.43.0


From 53a13286c3ab13dada98b93ca3f931ebffca294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 093/108] fix: DEL is not shown as it is in the text column of
 a hexdump

---
 objutils/hexdump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index 8b12549..d1d2c69 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -28,7 +28,7 @@ import sys
 
 
 def isprintable(ch) -> bool:
-    return 0x1F < ch < 0x80
+    return 0x1F < ch < 0x7F
 
 
 def unpack(*args):
-- 
2.43.0


From fb07b5a8a31daf8d3aebd6fbebd1aacdb7440c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 094/108] fix: an empty section no longer hides the section
 found by get_section()

---
 objutils/image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index bf94f83..17cf391 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -276,8 +276,10 @@ class Image:
         """
         if address not in self:
             raise InvalidAddressError("Address not in range")
-        result = self._sections.bisect_right(SearchType(address))
-        return self._sections[result - 1]
+        result = self._sections.bisect_right(SearchType(address)) - 1
+        while not self._sections[result].length:  # Empty sections don't contain anything.
+            result -= 1
+        return self._sections[result]
 
     def update_section(self, data, address=None):
         """ """
-- 
2.43.0


From bb7c48bda8ef2cf7340551323f19638872b4819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 095/108] fix: empty sections no longer shift the rest of a
 binary file

---
 objutils/binfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 49fdd86..363b51d 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -89,7 +89,7 @@ class Writer:
 
         if hasattr(image, "sections") and not image.sections:
             return b""
-        sections = sorted(image.sections, key=lambda x: x.start_address)
+        sections = sorted((s for s in image.sections if s.length), key=lambda x: x.start_address)
         for section in sections:
             if previous_address is not None:
                 gap = section.start_address - (previous_address + previous_length)
-- 
2.43.0


From 34c4f614f9ee7afddd344dedfc8ceebf19107384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 096/108] fix: the checksum of an SHF block may be written in
 upper case

---
 objutils/shf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/shf.py b/objutils/shf.py
index 4f25c4a..2b9e426 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -120,7 +120,7 @@ class Reader:
             checksum = attrib.get("checksum")
             if checksum:
                 checksum = remove_ws(checksum)
-                if sha1_digest(section_data) != checksum:
+                if sha1_digest(section_data) != checksum.lower():
                     self.logger.error(f"Block #{idx}: Wrong `checksum`.")
                     continue
             else:
-- 
2.43.0


From fbfc0c666e1f3d79e4821f48a9af089fce59595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 097/108] fix: writing items wider than a byte doesn't make a
 section grow

Section.write() took the number of items for the number of bytes: writing
e.g. an array('H') passed the bounds check and shifted the data behind it.
---
 objutils/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/section.py b/objutils/section.py
index 5b297f0..c3cbf5e 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -257,6 +257,8 @@ class Section:
 
         data: array-like
         """
+        if hasattr(data, "__len__"):
+            data = bytes(data)  # Items of array-likes may be larger than a byte.
         length = len(data)
         offset = addr - self.start_address
         if offset < 0:
-- 
2.43.0


From 429ec50211cbe713ba9f320473e9153a05e06f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 098/108] fix: etek addresses are preceded by their number of
 digits

Addresses in Extended Tektronix records are of variable length. They were
taken for five digits, so that records written by other tools ended up at
wrong addresses (and lost or gained data), and written files were not
understood by them. Symbol blocks with short values couldn't be loaded.
---
 objutils/etek.py | 59 +++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index 3cf0765..3f5c6c8 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -25,6 +25,7 @@ __copyright__ = """
 """
 
 import re
+from contextlib import suppress
 
 import objutils.checksums as checksums
 import objutils.hexfile as hexfile
@@ -36,51 +37,57 @@ SYMBOL = 2
 EOF = 3
 
 
+def split_field(text):
+    """Variable length fields are preceded by the number of their characters (0 means 16)."""
+    length = int(text[:1] or "0", 16) or 16
+    return text[1 : length + 1], text[length + 1 :]
+
+
 class Reader(hexfile.Reader):
-    VALID_CHARS = re.compile(r"^[a-zA-Z0-9_ %\n\r]*$")  # We need to consider symbol information.
+    VALID_CHARS = re.compile(r"^[a-zA-Z0-9_$. %\n\r]*$")  # We need to consider symbol information.
 
     FORMAT_SPEC = (
-        (DATA, "%LL6CCAAAAADD"),
+        (DATA, "%LL6CCDD"),
         (SYMBOL, "%LL3CCU"),
-        (EOF, "%LL8CCAAAAADD"),
+        (EOF, "%LL8CCDD"),
     )
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            block_length = line.length
-            line.length = (line.length // 2) - 5
-            checksum = checksums.nibble_sum(
-                utils.make_list(
-                    utils.int_to_array(line.address),
-                    6,
-                    block_length,
-                    line.chunk,
-                )
-            )
-            if block_length != (len(line.chunk) + 5) * 2:
+            if line.length != len(line.chunk) + 5:
                 raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
+            checksum = checksums.nibble_sum(utils.make_list(line.length, 6, [int(ch, 16) for ch in line.chunk]))
             if line.checksum != checksum:
                 raise hexfile.InvalidRecordChecksumError()
+            address, data = split_field(line.chunk)
+            if len(data) < 2 or len(data) % 2:
+                raise hexfile.InvalidRecordLengthError("Length of address doesn't match length of record.")
+            line.address = int(address, 16)
+            line.chunk = bytearray.fromhex(data)
+            line.length = len(line.chunk)
         elif format_type == SYMBOL:
-            checksum = checksums.nibble_sum(utils.make_list(3, ((line.length + 5) * 2), [ord(b) for b in line.chunk]))
-            chunk = line.chunk.strip()
-            address = int(chunk[-4:], 16)
-            line.address = address
-            # if line.checksum!=checksum:
-            #    raise hexfile.InvalidRecordChecksumError()
+            with suppress(ValueError):
+                _, symbols = split_field(line.chunk.strip())  # Name of section.
+                while symbols:
+                    _, symbols = split_field(symbols[1:])
+                    value, symbols = split_field(symbols)
+                    line.address = int(value, 16)
+        elif format_type == EOF:
+            with suppress(ValueError):
+                line.address = int(split_field(line.chunk)[0], 16)
 
     def is_data_line(self, line, format_type):
         return format_type == DATA
 
     def parseData(self, line, format_type):
-        return format_type != SYMBOL
+        return False  # Fields are of variable length, s. check_line().
 
 
 class Writer(hexfile.Writer):
-    MAX_ADDRESS_BITS = 20
+    MAX_ADDRESS_BITS = 64
 
     def compose_row(self, address, length, row):
-        checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
-
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:05X}{Writer.hex_bytes(row)!s}"
-        return line
+        address = f"{address:04X}"
+        record = f"{len(address) % 16:X}{address}{Writer.hex_bytes(row)}"
+        checksum = checksums.nibble_sum(utils.make_list(len(record) + 5, 6, [int(ch, 16) for ch in record]))
+        return f"%{len(record) + 5:02X}6{checksum:02X}{record}"
-- 
2.43.0


From ea728a3c94be706e6135999aeaba98580868f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 099/108] fix: standard DWARF 5 tags, encodings and calling
 conventions are known by name

---
 objutils/dwarf/constants.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/objutils/dwarf/constants.py b/objutils/dwarf/constants.py
index 9548c46..6f7fd8f 100644
--- a/objutils/dwarf/constants.py
+++ b/objutils/dwarf/constants.py
@@ -108,7 +108,14 @@ class Tag(EnumBase):
     type_unit = 0x41
     rvalue_reference_type = 0x42
     template_alias = 0x43
+    coarray_type = 0x44
+    generic_subrange = 0x45
+    dynamic_type = 0x46
     atomic_type = 0x47
+    call_site = 0x48
+    call_site_parameter = 0x49
+    skeleton_unit = 0x4A
+    immutable_type = 0x4B
     lo_user = 0x4080
     hi_user = 0xFFFF
     MIPS_loop = 0x4081
@@ -682,6 +689,8 @@ class BaseTypeEncoding(EnumBase):
     unsigned_fixed = 0xE
     decimal_float = 0xF
     UTF = 0x10
+    UCS = 0x11
+    ASCII = 0x12
     lo_user = 0x80
     hi_user = 0xFF
     HP_float80 = 0x80
@@ -747,6 +756,8 @@ class CallingConvention(EnumBase):
     normal = 0x01
     program = 0x02
     nocall = 0x03
+    pass_by_reference = 0x04
+    pass_by_value = 0x05
     renesas_sh = 0x40
     borland_fastcall_i386 = 0x41
     thiscall_i386 = 0x42
-- 
2.43.0


From 70ff6ee88915729df1ce668ae688e9f8db443206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 100/108] fix: names of the APPLE attributes and of
 PGI_omp_thread_num

---
 objutils/dwarf/constants.py | 28 ++++++++++++++--------------
 objutils/dwarf/sm.py        |  4 ++--
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/objutils/dwarf/constants.py b/objutils/dwarf/constants.py
index 6f7fd8f..38f6def 100644
--- a/objutils/dwarf/constants.py
+++ b/objutils/dwarf/constants.py
@@ -352,19 +352,19 @@ class AttributeEncoding(EnumBase):
     PGI_lbase = 0x3A00
     PGI_soffset = 0x3A01
     PGI_lstride = 0x3A02
-    PPLE_optimized = 0x3FE1
-    PPLE_flags = 0x3FE2
-    PPLE_isa = 0x3FE3
-    PPLE_block = 0x3FE4
-    PPLE_major_runtime_vers = 0x3FE5
-    PPLE_runtime_class = 0x3FE6
-    PPLE_omit_frame_ptr = 0x3FE7
-    PPLE_property_name = 0x3FE8
-    PPLE_property_getter = 0x3FE9
-    PPLE_property_setter = 0x3FEA
-    PPLE_property_attribute = 0x3FEB
-    PPLE_objc_complete_type = 0x3FEC
-    PPLE_property = 0x3FED
+    APPLE_optimized = 0x3FE1
+    APPLE_flags = 0x3FE2
+    APPLE_isa = 0x3FE3
+    APPLE_block = 0x3FE4
+    APPLE_major_runtime_vers = 0x3FE5
+    APPLE_runtime_class = 0x3FE6
+    APPLE_omit_frame_ptr = 0x3FE7
+    APPLE_property_name = 0x3FE8
+    APPLE_property_getter = 0x3FE9
+    APPLE_property_setter = 0x3FEA
+    APPLE_property_attribute = 0x3FEB
+    APPLE_objc_complete_type = 0x3FEC
+    APPLE_property = 0x3FED
 
     UNKOWN = 0xFFFF
 
@@ -668,7 +668,7 @@ class Operation(EnumBase):
     HP_mod_range = 0xE4
     HP_unmod_range = 0xE5
     HP_tls = 0xE6
-    GI_omp_thread_num = 0xF8
+    PGI_omp_thread_num = 0xF8
 
 
 class BaseTypeEncoding(EnumBase):
diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 243f17c..bff97aa 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -1093,7 +1093,7 @@ class Hp_Tls(OperationBase):
 
 
 class Gi_Omp_Thread_Num(OperationBase):
-    DISPLAY_NAME = "GI_omp_thread_num"
+    DISPLAY_NAME = "PGI_omp_thread_num"
 
 
 OP_MAP = {
@@ -1283,7 +1283,7 @@ OP_MAP = {
     constants.Operation.HP_mod_range: Hp_Mod_Range,
     constants.Operation.HP_unmod_range: Hp_Unmod_Range,
     +constants.Operation.HP_tls: Hp_Tls,
-    constants.Operation.GI_omp_thread_num: Gi_Omp_Thread_Num,
+    constants.Operation.PGI_omp_thread_num: Gi_Omp_Thread_Num,
 }
 
 ######################
-- 
2.43.0


From c765a6c47d372874d3b1ec26e6f0276769127d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 101/108] fix: the GNU_variable_value operation is known, and
 its operand isn't taken for operations

---
 objutils/dwarf/constants.py | 1 +
 objutils/dwarf/sm.py        | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/objutils/dwarf/constants.py b/objutils/dwarf/constants.py
index 38f6def..ff0261d 100644
--- a/objutils/dwarf/constants.py
+++ b/objutils/dwarf/constants.py
@@ -661,6 +661,7 @@ class Operation(EnumBase):
     GNU_parameter_ref = 0xFA
     GNU_addr_index = 0xFB
     GNU_const_index = 0xFC
+    GNU_variable_value = 0xFD
     HP_unknown = 0xE0
     HP_is_value = 0xE1
     HP_fltconst4 = 0xE2
diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index bff97aa..74f0b0d 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -1064,6 +1064,11 @@ class Gnu_Const_Index(OperationBase):
     PARAMETERS = ["uleb"]
 
 
+class Gnu_Variable_Value(OperationBase):
+    DISPLAY_NAME = "GNU_variable_value"
+    PARAMETERS = ["u32"]
+
+
 class Hp_Unknown(OperationBase):
     DISPLAY_NAME = "HP_unknown"
 
@@ -1276,6 +1281,7 @@ OP_MAP = {
     constants.Operation.GNU_parameter_ref: Gnu_Parameter_Ref,
     constants.Operation.GNU_addr_index: Gnu_Addr_Index,
     constants.Operation.GNU_const_index: Gnu_Const_Index,
+    constants.Operation.GNU_variable_value: Gnu_Variable_Value,
     constants.Operation.HP_unknown: Hp_Unknown,
     constants.Operation.HP_is_value: Hp_Is_Value,
     constants.Operation.HP_fltconst4: Hp_Fltconst4,
-- 
2.43.0


From 1932738582a4387ddc900018cead948b0af7285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 102/108] fix: records of an unassigned type or ill-sized start
 addresses are reported instead of failing with a format code

---
 objutils/ihex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 51514d3..82868a1 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -88,7 +88,7 @@ class Reader(hexfile.Reader):
                 line.add_processing_instruction(("ip", ip))
                 self.debug(f"START_SEGMENT_ADDRESS: {hex(cs)}:{hex(ip)}")
             else:
-                self.error(f"Bad Segment Address at line %{line.line_number:u}.")
+                self.error(f"Bad Segment Address at line #{line.line_number:d}.")
         elif line.type == EXTENDED_LINEAR_ADDRESS:
             self.calculate_extended_address(line, 16, "Linear")
         elif line.type == START_LINEAR_ADDRESS:
@@ -101,7 +101,7 @@ class Reader(hexfile.Reader):
         elif line.type == EOF:
             pass
         else:
-            self.warn(f"Invalid record type [{line.type:u}] at line {line.line_number:u}")
+            self.warn(f"Invalid record type [{line.type:d}] at line #{line.line_number:d}")
 
     def _address_calculator(self, x):
         return x
-- 
2.43.0


From bfbab27789eefdd00aaa8891a99d137fd07f1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 103/108] fix: a section alignment record without a boundary
 alignment is legal

---
 objutils/ieee695.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 9d6e167..e7d16b4 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -742,7 +742,9 @@ class Reader:
         sectionIndex = self.readNumber(self.fpos)
         self.checkSectionIndex(sectionIndex)
         boundaryAlignmentDivisor = self.checkOptional(self.fpos)
-        self.sections[sectionIndex].boundaryAlignment = 2**boundaryAlignmentDivisor
+        self.sections[sectionIndex].boundaryAlignment = (
+            None if boundaryAlignmentDivisor is None else 2**boundaryAlignmentDivisor
+        )
         self.sections[sectionIndex].pageSize = self.checkOptional(self.fpos)
 
     def onNI(self):
-- 
2.43.0


From f5d8ee6afe070d98c4a49ceb1d2e521603c49cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 104/108] fix: data of a section whose size isn't stated are no
 error

---
 objutils/ieee695.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index e7d16b4..aaad834 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -294,6 +294,7 @@ class Section:
         self.regionSize = []
         self.physicalAddress = []
         self.sectionOffset = []
+        self.sectionSize = 0
         self.mauSize = 0
         self.mValue = None
         self.segments = {}
-- 
2.43.0


From 4d5b387aa4e17562067d9c6fd42e9c620bab2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 105/108] fix: the place holder of an optional field isn't
 taken for zero

---
 objutils/ieee695.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index aaad834..1474fb4 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -54,6 +54,7 @@ Table 2-1. Initial Bytes of IEEE Elements
 """
 
 SMALL_NUMBER = 0x7F
+OMITTED = 0x80
 SHORT_STRING = 0x7F
 COMMAND_CODE = 0xE0
 
@@ -437,6 +438,8 @@ class Reader:
             self.inFile.seek(offset, os.SEEK_SET)  # Put back.
             self.fpos = offset
             return None
+        if cc == OMITTED:
+            return None
         if isString:
             self.inFile.seek(offset, os.SEEK_SET)  # Put back.
             self.fpos = offset
@@ -884,8 +887,9 @@ class Reader:
         localNameIndex = self.readNumber(self.fpos)  # noqa: F841
         values = []
         while True:
-            value = self.checkOptional(self.fpos)
-            if value is None:
+            offset = self.fpos
+            value = self.checkOptional(offset)
+            if self.fpos == offset:
                 break
             else:
                 values.append(value)
-- 
2.43.0


From 6ce8351b492d38ac605faec5aa26bf4a583f819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 106/108] fix: notes in a section aligned to 8 bytes are padded
 to 8 bytes

---
 objutils/elf/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index a7fd1bb..0be1628 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -539,7 +539,7 @@ class ElfParser:
                 self._sections_by_name[name] = section
                 image = self._images[idx]
                 if section.sh_type == defs.SectionType.SHT_NOTE:
-                    for note_obj in self._parse_notes(image):
+                    for note_obj in self._parse_notes(image, section.sh_addralign):
                         note = model.Elf_Note(
                             section_name=name,
                             type=note_obj.type,
@@ -708,13 +708,14 @@ class ElfParser:
             i += line.pos
         return "\n".join(result)
 
-    def _parse_notes(self, data):
+    def _parse_notes(self, data, addralign=4):
+        align = 8 if addralign == 8 else 4  # Names and descriptions are padded, e.g. those of `.note.gnu.property`.
         Note = Struct(
             "namesz" / self.Word,
             "descsz" / self.Word,
             "type" / self.Word,
             "name" / Bytes(this.namesz),
-            Padding(-this.namesz % 4),
+            Padding(-(this.namesz + 12) % align),
             "desc" / Bytes(this.descsz),
             "size" / Tell,
         )
@@ -726,7 +727,7 @@ class ElfParser:
             except StreamError as e:
                 print(f"parse note section: {e}")
                 break
-            data = data[note.size + -note.size % 4 :]
+            data = data[note.size + -note.size % align :]
             note.desc = binascii.b2a_hex(note.desc).decode()
             note.name = note.name.partition(b"\x00")[0].decode("utf8")
             result.append(note)
-- 
2.43.0


From 3dfe05d7101bd13c00811c6b2f37c9497e5f5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 107/108] fix: the string value of a constant in an IEEE-695
 module is a string

---
 objutils/ieee695.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 1474fb4..339f78a 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -586,7 +586,7 @@ class Reader:
                 symbolClass = self.readNumber(self.fpos)
                 publicLocalIndicator = self.checkOptional(self.fpos)
                 numericValue = self.checkOptional(self.fpos)
-                stringValue = self.checkOptional(self.fpos)
+                stringValue = self.checkOptional(self.fpos, isString=True)
 
                 self.symbols[symbolNameIndex].symbolClass = symbolClass
                 self.symbols[symbolNameIndex].publicLocalIndicator = publicLocalIndicator
-- 
2.43.0


From b7ee345320f0924642b4617538890c1e30513b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 108/108] fix: the name of a section in an IEEE-695 module is
 optional

---
 objutils/ieee695.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 339f78a..8126af7 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -705,7 +705,7 @@ class Reader:
         else:
             raise NotImplementedError(f"SEG-TYPE: {f!s}")
 
-        sectionName = self.readString(self.fpos)
+        sectionName = self.checkOptional(self.fpos, isString=True)
         parentSectionIndex = self.checkOptional(self.fpos)
 
         if f == "T":
-- 
2.43.0

