From 68eebf3678713d1fcc493a955b6cc20c2ad7fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 01/64] fix: round the guide slope instead of truncating it
 when compiling guides

---
 src/vfbLib/compilers/guides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..70d8fac 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,7 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(tan(radians(guide[master_index]["angle"])) * 10000)
                     self.write_value(angle)
 
 
-- 
2.43.0


From 830d66fdff245c5674eb5296c71f9b06c123abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 02/64] fix: round primary instance values instead of
 truncating them

---
 src/vfbLib/compilers/mm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From 17ae71382a6d93f33438e0206cf728a4ea5123c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 03/64] fix: write the signed PCLT fields as signed integers

---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From abd86f22b0e2631f0b4d76420e026208d31688e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 04/64] fix: write OpenType class flags as signed values, as
 they are read

---
 src/vfbLib/compilers/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..fd6cfbc 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -287,8 +287,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -297,6 +297,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
+            self.write_value(flag3)
-- 
2.43.0


From d229562f7336cbcce1cfea7b7c01be21bc5d0221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 05/64] fix: write supplemental anchor data as signed values,
 as they are read

---
 src/vfbLib/compilers/glyph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..df9ce46 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,8 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            self.write_value(anchor.get("hue", 0))
+            self.write_value(anchor.get("data", 0))
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From 3cc95f15fd5d38500badfbf1842b7398d0bc9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 06/64] fix: compile the MM kern pair structure its parser
 returns

---
 src/vfbLib/compilers/fl3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..72e651d 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,4 +1,5 @@
 import logging
+from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
 
@@ -6,6 +7,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, Any]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From 9d4e981141856429fc9fb953075c8ee8925c36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 07/64] fix: compile the string data of the block markers that
 are parsed as strings

---
 src/vfbLib/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/constants.py b/src/vfbLib/constants.py
index 1281a67..e817072 100644
--- a/src/vfbLib/constants.py
+++ b/src/vfbLib/constants.py
@@ -150,8 +150,8 @@ parser_classes = {
     F.EncodingDefault: ("Encoding Default", GlyphEncodingParser, GlyphEncodingCompiler),
     F.Encoding: ("Encoding", GlyphEncodingParser, GlyphEncodingCompiler),
     F.MMEncType: ("MM Encoding Type", Int16Parser, Int16Compiler),
-    F.BlockNamesEnd: ("Block Names End", StringParser, HexStringCompiler),
-    F.BlockFontInfoStart: ("Block Font Info Start", StringParser, HexStringCompiler),
+    F.BlockNamesEnd: ("Block Names End", StringParser, StringCompiler),
+    F.BlockFontInfoStart: ("Block Font Info Start", StringParser, StringCompiler),
     F.font_name: ("font_name", StringParser, StringCompiler),
     F.MasterCount: ("Master Count", Int16Parser, Int16Compiler),
     F.weight_vector: ("weight_vector", DoubleListParser, DoubleListCompiler),
-- 
2.43.0


From 80f504599fc41f4eaefe3df75f967f9ed09e1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 08/64] fix: invert bitmap bytes into the unsigned 8-bit range
 for the Windows platform

---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From 29d09156b908fbb56a8300c3b80125c230add0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 09/64] fix: write back font options that the parser keeps
 under their number

---
 src/vfbLib/compilers/options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..8df7c8a 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -20,7 +20,8 @@ class FontOptionsCompiler(BaseCompiler):
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
             raw_key = rev.get(k)
-            assert raw_key is not None
+            if raw_key is None:
+                raw_key = int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
-- 
2.43.0


From d9c4f5630797cc60582a7d9c3684df7f39d8dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 10/64] fix: write back export options that the parser keeps as
 bit numbers

---
 src/vfbLib/compilers/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 8df7c8a..efc84cd 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -11,7 +11,7 @@ if TYPE_CHECKING:
 class ExportOptionsCompiler(BaseCompiler):
     def _compile(self, data: list[str]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        options = [rev[k] if k in rev else int(k) for k in data]
         self.write_uint16(intListToBinary(options))
 
 
-- 
2.43.0


From c4c0506dd8084cc2871e31acdb850d65be0e740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 11/64] fix: write back mapping modes that the parser keeps as
 numbers

---
 src/vfbLib/compilers/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index fd6cfbc..ae25403 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -270,8 +270,9 @@ mapping_modes = {
 class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
+        mode = data["mapping_mode"]
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        self.write_value(rev_map[mode] if mode in rev_map else int(mode))
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
-- 
2.43.0


From d4a1ab99d7502d568cf76101d1d2dc70d48c3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 12/64] fix: write back TrueType options that the parser keeps
 as bit numbers

---
 src/vfbLib/compilers/truetype.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..57635bc 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -22,11 +22,8 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
     value = intListToBinary(flags_list)
     options: tuple[str, ...]
     if options := tuple(head_flags_options["options"]):
-        option_bits = []
-        for k, v in tt_settings.items():
-            if v in options:
-                option_bits.append(k)
-
+        rev = {v: k for k, v in tt_settings.items()}
+        option_bits = [rev[o] if o in rev else int(o) for o in options]
         value += intListToBinary(option_bits) << 16
     return value
 
-- 
2.43.0


From 1b1acbbc8c7f62eff3388333d8f61af577cc7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 13/64] fix: compile TrueType info without the sections the
 parser did not find

---
 src/vfbLib/compilers/truetype.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index 57635bc..70f7f32 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -46,13 +46,13 @@ class TrueTypeInfoCompiler(BaseCompiler):
 
     def _compile(self, data: "TrueTypeInfoDict") -> None:
         for k in (0x33, 0x34, 0x35, 0x36, 0x37, 0x38):
-            self.write_uint8(k)
-            self.write_value(data[ttinfo_names[k]])
+            self._write_if_exists(k, data)
 
         # Convert combined flags and options dict back to a single int
-        head_flags_options = convert_flags_options_to_int(data)
-        self.write_uint8(0x39)
-        self.write_value(head_flags_options)
+        if ttinfo_names[0x39] in data:
+            head_flags_options = convert_flags_options_to_int(data)
+            self.write_uint8(0x39)
+            self.write_value(head_flags_options)
 
         for k in (
             0x3A,
@@ -84,11 +84,12 @@ class TrueTypeInfoCompiler(BaseCompiler):
             self._write_if_exists(k, data)
 
         # PANOSE
-        values = data[ttinfo_names[0x4C]]
-        assert len(values) == 10
-        self.write_uint8(0x4C)
-        for value in values:
-            self.write_uint8(value)
+        if ttinfo_names[0x4C] in data:
+            values = data[ttinfo_names[0x4C]]
+            assert len(values) == 10
+            self.write_uint8(0x4C)
+            for value in values:
+                self.write_uint8(value)
 
         for k in (0x4D, 0x4E, 0x4F, 0x50, 0x51, 0x52, 0x5C):
             self._write_if_exists(k, data)
@@ -104,11 +105,12 @@ class TrueTypeInfoCompiler(BaseCompiler):
                     self.write_uint8(value)
 
         # Codepages
-        cp_dict = data[ttinfo_names[0x54]]
-        self.write_uint8(0x54)
-        for ck in ("os2_ul_code_page_range1", "os2_ul_code_page_range2"):
-            value = cp_dict[ck]
-            self.write_value(value, signed=False)
+        if ttinfo_names[0x54] in data:
+            cp_dict = data[ttinfo_names[0x54]]
+            self.write_uint8(0x54)
+            for ck in ("os2_ul_code_page_range1", "os2_ul_code_page_range2"):
+                value = cp_dict[ck]
+                self.write_value(value, signed=False)
 
         self.write_uint8(0x32)  # End marker
 
-- 
2.43.0


From 8572cfdaaa77bdccdffb347375bc70d31ef51aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 14/64] fix: keep the data of a glyph entry when it is wrapped
 into a VfbGlyph

---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..c643dc7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,8 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From efcda87749454355f0862f084cb23e4afe45037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 15/64] fix: compute the entry header from the current data on
 every access

---
 src/vfbLib/vfb/entry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..744eeca 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -59,7 +58,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
-- 
2.43.0


From 14c80cd2927786595e7ded570d01099785a3c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 16/64] fix: open the output file of Vfb.write only after
 everything was compiled

---
 src/vfbLib/vfb/vfb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..3d7fd0e 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -1,5 +1,6 @@
 import logging
 from collections.abc import Iterable
+from io import BytesIO
 from pathlib import Path
 from time import time
 from typing import TYPE_CHECKING, Any
@@ -316,8 +317,11 @@ class Vfb:
         """
         Compile any entries with changes, and write the VFB to out_path.
         """
+        # Don't touch an existing file until everything has been compiled
+        buffer = BytesIO()
+        self.write_bytes(buffer)
         with open(out_path, "wb") as vfb:
-            self.write_bytes(vfb)
+            vfb.write(buffer.getvalue())
 
     def write_bytes(self, buffer: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From becb3c4e98f5ce0c23de5f9020cae2b62fd2f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 17/64] fix: open the JSON output file only after the data was
 serialised

---
 src/vfbLib/json.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/json.py b/src/vfbLib/json.py
index 69c0fca..128984c 100644
--- a/src/vfbLib/json.py
+++ b/src/vfbLib/json.py
@@ -36,9 +36,8 @@ def save_vfb_json(
 
 
 def write_vfb_json(vfb: Vfb, out_path: Path) -> None:
+    data = orjson.dumps(
+        vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
+    )
     with open(str(out_path), "wb") as f:
-        f.write(
-            orjson.dumps(
-                vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
-            )
-        )
+        f.write(data)
-- 
2.43.0


From ff91d7cd51c937c0be3391f15292917620afacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 18/64] fix: don't fail on OpenType code that consists of empty
 lines only

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..018367a 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -101,7 +101,7 @@ class OpenTypeStringParser(BaseParser):
 
         if len(lines) > 1:
             # Remove empty lines at the end, except one
-            while not lines[-1]:
+            while lines and not lines[-1]:
                 lines.pop()
         lines.append("")
         return lines
-- 
2.43.0


From 6f2c1dd2b57466730034b1bc36bd4107fc64baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 19/64] fix: read and write doubles and floats as little-endian
 on every platform

---
 src/vfbLib/compilers/base.py  | 2 +-
 src/vfbLib/parsers/base.py    | 2 +-
 src/vfbLib/parsers/numeric.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index ae25403..943ef3c 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -47,7 +47,7 @@ class StreamWriter:
         Args:
             value (float): The float value to write.
         """
-        self.stream.write(pack("d", value))
+        self.stream.write(pack("<d", value))
 
     def write_doubles(self, values: "Iterable[float]") -> None:
         """
diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 7586723..dd085a5 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -56,7 +56,7 @@ class StreamReader:
         Returns:
             tuple[float]: The tuple of floats
         """
-        return unpack(num * "d", self.stream.read(num * double_size))
+        return unpack("<" + num * "d", self.stream.read(num * double_size))
 
     def read_int8(self) -> int:
         """
diff --git a/src/vfbLib/parsers/numeric.py b/src/vfbLib/parsers/numeric.py
index 19a5cb4..de4bd46 100644
--- a/src/vfbLib/parsers/numeric.py
+++ b/src/vfbLib/parsers/numeric.py
@@ -19,7 +19,7 @@ class FloatListParser(BaseParser):
     """
 
     __size__ = 4
-    __fmt__ = "f"
+    __fmt__ = "<f"
 
     def _parse(self):
         values = []
@@ -35,7 +35,7 @@ class DoubleListParser(FloatListParser):
     """
 
     __size__ = 8
-    __fmt__ = "d"
+    __fmt__ = "<d"
 
 
 class Int16Parser(BaseParser):
-- 
2.43.0


From 31a0bc78b08dfd577db990e140db40c59face4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 20/64] fix: stop reading when the file ends before the final
 block marker

---
 src/vfbLib/vfb/entry.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 744eeca..52fd776 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 from vfbLib.compilers.base import BaseCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
-from vfbLib.helpers import hexStr, int32_size
+from vfbLib.helpers import hexStr, int16_size, int32_size
 from vfbLib.parsers.base import BaseParser, StreamReader
 from vfbLib.typing import EntryDict
 
@@ -150,8 +150,15 @@ class VfbEntry(StreamReader):
     def _read_entry(self) -> int:
         """
         Read an entry from the stream and return its data size.
+
+        Raises:
+            EOFError: When the stream ends before the entry.
         """
-        raw_id = self.read_uint16()
+        raw_id_data = self.stream.read(int16_size)
+        if len(raw_id_data) < int16_size:
+            raise EOFError
+
+        raw_id = int.from_bytes(raw_id_data, byteorder="little", signed=False)
         self.id = raw_id & ~0x8000
 
         if raw_id & 0x8000:
-- 
2.43.0


From d45688b9454bfcc350aaaceb8d5bb88236065740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 21/64] fix: don't hang on TrueType info that ends without an
 end marker

---
 src/vfbLib/parsers/truetype.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..91de588 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -151,6 +151,10 @@ class TrueTypeInfoParser(BaseParser):
                     num_values = self.read_value()
                     info[hk] = [self.read_uint8() for _ in range(num_values)]
 
+                case 0x00:
+                    # Not a key, also returned at the end of the stream
+                    raise EOFError
+
                 case _:
                     logger.warning(f"Unknown key in TrueType info: {hex(k)}")
 
-- 
2.43.0


From 3f8967344514cf2242dc4fd755a02d8c919d7a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 22/64] fix: treat the TrueType options and head flags as an
 unsigned 32-bit value

---
 src/vfbLib/compilers/truetype.py | 2 +-
 src/vfbLib/parsers/truetype.py   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index 70f7f32..551a06c 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -52,7 +52,7 @@ class TrueTypeInfoCompiler(BaseCompiler):
         if ttinfo_names[0x39] in data:
             head_flags_options = convert_flags_options_to_int(data)
             self.write_uint8(0x39)
-            self.write_value(head_flags_options)
+            self.write_value(head_flags_options, signed=False)
 
         for k in (
             0x3A,
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 91de588..e7d2753 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -78,7 +78,9 @@ class TrueTypeInfoParser(BaseParser):
                 case 0x39:
                     # Options and head flags
                     self.assert_unique(info, dk)
-                    info[dk] = convert_int_to_flags_options(self.read_value())
+                    info[dk] = convert_int_to_flags_options(
+                        self.read_value(signed=False)
+                    )
 
                 case 0x3A | 0x3B | 0x3C | 0x3D | 0x3E | 0x3F:
                     # head: upm, mac_style, lowest_rec_ppm, font_direction_hint
-- 
2.43.0


From 533a18dcb2298f44d5d167460f1084c90af68fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 23/64] fix: don't hang when a negative value is converted to a
 list of bits

---
 src/vfbLib/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/helpers.py b/src/vfbLib/helpers.py
index cc4f364..21a62a0 100644
--- a/src/vfbLib/helpers.py
+++ b/src/vfbLib/helpers.py
@@ -11,6 +11,9 @@ double_size = 8
 
 
 def binaryToIntList(value: int, start: int = 0) -> list[int]:
+    if value < 0:
+        raise ValueError(f"Can't convert a negative value to a list of bits: {value}")
+
     intList = []
     counter = start
     while value:
-- 
2.43.0


From a223188a9cd46c5619138321ecc5e6cd37d2ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 24/64] fix: write back decompiled entries of an unknown type

---
 src/vfbLib/vfb/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 52fd776..073d380 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -3,7 +3,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int16_size, int32_size
@@ -21,6 +21,7 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -142,6 +143,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From 3568c096ea4a73ebe3a7186784a0948e4b56254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 25/64] fix: forget the glyphs of the previous file when a Vfb
 is read again

---
 src/vfbLib/vfb/vfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 3d7fd0e..b41803d 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -139,6 +139,8 @@ class Vfb:
         """
         self.header = VfbHeader()
         self.entries = []
+        self._glyphs = {}
+        self.glyph_order = []
 
     def compile(self) -> None:
         """
-- 
2.43.0


From 2b703d81a201928654909d9db0f3bf0a57568e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 26/64] fix: raise EOFError when a parser reads beyond the end
 of its data

---
 src/vfbLib/parsers/base.py     | 32 +++++++++++++++++++++++++-------
 src/vfbLib/parsers/glyph.py    |  2 +-
 src/vfbLib/parsers/truetype.py |  2 +-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index dd085a5..f45fea7 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -37,6 +37,24 @@ class StreamReader:
         self.encoding = "cp1252"
         self.stream: "BufferedIOBase" = BytesIO()
 
+    def read_bytes(self, size: int) -> bytes:
+        """
+        Return exactly `size` bytes from the stream.
+
+        Args:
+            size (int): The number of bytes to read
+
+        Raises:
+            EOFError: When the stream ends before `size` bytes have been read.
+
+        Returns:
+            bytes: The bytes
+        """
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise EOFError
+        return data
+
     def read_double(self) -> float:
         """
         Return a double-precision float from the stream.
@@ -66,7 +84,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=True
+            self.read_bytes(int8_size), byteorder="little", signed=True
         )
 
     def read_int16(self) -> int:
@@ -77,7 +95,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=True
+            self.read_bytes(int16_size), byteorder="little", signed=True
         )
 
     def read_int32(self) -> int:
@@ -88,7 +106,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=True
+            self.read_bytes(int32_size), byteorder="little", signed=True
         )
 
     def read_str(self, size: int) -> str:
@@ -104,7 +122,7 @@ class StreamReader:
         """
         if size == 0:
             return ""
-        return self.stream.read(size).decode(self.encoding)
+        return self.read_bytes(size).decode(self.encoding)
 
     def read_str_with_len(self) -> str:
         """
@@ -135,7 +153,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=False
+            self.read_bytes(int8_size), byteorder="little", signed=False
         )
 
     def read_uint16(self) -> int:
@@ -146,7 +164,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=False
+            self.read_bytes(int16_size), byteorder="little", signed=False
         )
 
     def read_uint32(self) -> int:
@@ -157,7 +175,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=False
+            self.read_bytes(int32_size), byteorder="little", signed=False
         )
 
     def read_value(self, signed: bool = True) -> int:
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..6a82c94 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -281,7 +281,7 @@ class GlyphParser(BaseParser):
                 case 0x2B:
                     # Instructions
                     num_bytes = self.read_value(signed=False)
-                    instructions = self.stream.read(num_bytes)
+                    instructions = self.read_bytes(num_bytes)
                     p = Program()
                     p.fromBytecode(instructions)
                     imported["instructions"] = p.getAssembly()
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index e7d2753..026c7f0 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -171,7 +171,7 @@ class TrueTypeStemsParser(BaseParser):
             for _ in range(num_stems):
                 width = self.read_value()
                 stem_name_length = self.read_uint8()
-                stem_name = self.stream.read(stem_name_length).decode(self.encoding)
+                stem_name = self.read_bytes(stem_name_length).decode(self.encoding)
                 ppm6 = self.read_value()
 
                 direction.append(
-- 
2.43.0


From 02e7f1674359474ac68f720e45363954c3d71f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 27/64] fix: reject encoded values that are cut off

---
 src/vfbLib/parsers/value.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index babc68e..ef84553 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -6,6 +6,19 @@ if TYPE_CHECKING:
     from io import BufferedIOBase
 
 
+def _read_rest(stream: "BufferedIOBase", size: int) -> bytes:
+    """
+    Read the bytes that follow the first byte of an encoded value.
+
+    Raises:
+        ValueError: When the stream ends in the middle of the value.
+    """
+    data = stream.read(size)
+    if len(data) < size:
+        raise ValueError("Truncated value")
+    return data
+
+
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
     """
     Read an encoded value from the stream, decode it to integer and return it.
@@ -41,13 +54,13 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
 
     elif val <= 0xFA:
         # 108 to 1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_rest(stream, int8_size), byteorder="little")
         # val - 0x8B + (val - 0xF7) * 0xFF + val2
         return 0x100 * val - 0xF694 + val2
 
     elif val <= 0xFE:
         # -108 to -1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_rest(stream, int8_size), byteorder="little")
         # 0x8F - val - (val - 0xFB) * 0xFF - val2
         return -0x100 * val + 0xFA94 - val2
 
@@ -55,7 +68,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         # 32 bit integer follows
         # FIXME: The Type1 spec says that it is always a signed int.
         decoded = int.from_bytes(
-            stream.read(int32_size), byteorder="big", signed=signed
+            _read_rest(stream, int32_size), byteorder="big", signed=signed
         )
         return decoded
 
-- 
2.43.0


From 82a138c9aaace32c6cacab04e9c39f4d1e54cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 28/64] fix: reject cut-off axes in anisotropic interpolation
 maps

---
 src/vfbLib/parsers/mm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index 5d3d851..f9ec4b7 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -7,13 +7,12 @@ class AnisotropicInterpolationsParser(BaseParser):
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
         while True:
-            axis_values = []
             try:
                 n = self.read_value()
-                axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
-                values.append(axis_values)
             except EOFError:
                 return values
+            axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
+            values.append(axis_values)
 
 
 class AxisMappingsCountParser(BaseParser):
-- 
2.43.0


From 9946e42d4a879399a56f813f4d7eaff1869ff8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 29/64] fix: don't touch an existing TrueType hinting file
 before the data is serialized

---
 src/vfbLib/tth.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..8029824 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -1,4 +1,3 @@
-import codecs
 from argparse import ArgumentParser
 from copy import deepcopy
 from pathlib import Path
@@ -60,23 +59,20 @@ def vfb2tth():
         if args.format == "toml":
             import tomli_w
 
-            with open(out_path, "wb") as f:
-                tomli_w.dump(data, f)
+            output = tomli_w.dumps(data).encode("utf-8")
         elif args.format == "yaml":
             import yaml
 
-            with codecs.open(str(out_path), "wb", "utf-8") as f:
-                yaml.dump(data, f, sort_keys=True, indent=2)
+            output = yaml.dump(data, sort_keys=True, indent=2).encode("utf-8")
         else:
-            with open(str(out_path), "wb") as f:
-                f.write(
-                    orjson.dumps(
-                        data,
-                        option=orjson.OPT_INDENT_2
-                        | orjson.OPT_NON_STR_KEYS
-                        | orjson.OPT_SORT_KEYS,
-                    )
-                )
+            output = orjson.dumps(
+                data,
+                option=orjson.OPT_INDENT_2
+                | orjson.OPT_NON_STR_KEYS
+                | orjson.OPT_SORT_KEYS,
+            )
+        with open(str(out_path), "wb") as f:
+            f.write(output)
 
         if vfb.any_errors:
             exit("There were decompilation errors.")
-- 
2.43.0


From 1f3e27b9c588499984b94a55ccbad09e300caf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 30/64] fix: compare the lines of both files in the HTML diff

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..a412c9e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From b9d66b012f0bc0155d1a3a22db9d74d2757adc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 31/64] fix: look up the 1 px stem rounding under its integer
 key in the TT hinting export

---
 src/vfbLib/tth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 8029824..a96a0a0 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -203,7 +203,7 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                target[direction][stem_index][1] = stem_data["round"][1]
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
-- 
2.43.0


From 0f2da0f4ee3cd493d3ce42999d2b57eae9536f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 32/64] fix: export TrueType hinting of fonts without stems or
 zone deltas

---
 src/vfbLib/tth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index a96a0a0..593b160 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -324,7 +324,7 @@ def merge_stem_information(data: dict, font: dict) -> None:
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
@@ -337,7 +337,7 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
         zone = all_zones[zone_index]
@@ -351,5 +351,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From 8f55ef397d500373607ef8809821d7d2ba23b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 33/64] fix: keep the source's hint masks when building UFO
 glyphs

The builder deleted the hint masks from the glyph entry of the VFB, so a VFB
saved or exported again after a UFO export had lost them.
---
 src/vfbLib/ufo/builder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..6d61aec 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -189,7 +189,6 @@ class VfbToUfoBuilder:
             g.mm_hints = data["hints"]
             if "hintmasks" in data["hints"]:
                 g.hintmasks = data["hints"]["hintmasks"]
-                del data["hints"]["hintmasks"]
 
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
-- 
2.43.0


From e2c135633f807845942503a4d0f7cb68c04487a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 34/64] fix: keep the source's background image preview when
 building UFO glyphs

The builder deleted the preview from the entry data of the VFB, instead of only
leaving it out of the glyph lib.
---
 src/vfbLib/ufo/builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 6d61aec..a16cfaf 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -216,9 +216,11 @@ class VfbToUfoBuilder:
 
     def set_glyph_background(self, data: dict[str, Any]) -> None:
         assert self.current_glyph is not None
-        if "preview" in data["bitmap"]:
-            del data["bitmap"]["preview"]
-        self.current_glyph.lib["com.fontlab.v5.background"] = data
+        bitmap = {k: v for k, v in data["bitmap"].items() if k != "preview"}
+        self.current_glyph.lib["com.fontlab.v5.background"] = {
+            **data,
+            "bitmap": bitmap,
+        }
 
     def set_glyph_bitmaps(self, data: "list[GlyphBitmapDict]") -> None:
         assert self.current_glyph is not None
-- 
2.43.0


From bd90ceb5cad20dbe8565abe3de415f8a7245c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 35/64] fix: give each master UFO its own copy of the font lib

Nested values of the font lib were shared by the lib of all masters, so editing
one font changed the others.
---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index a16cfaf..72e4816 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -762,7 +762,7 @@ class VfbToUfoBuilder:
             groups=deepcopy(self.ufo_groups),
             info=master_info,
             kerning=master_kerning,
-            lib=self.lib,
+            lib=deepcopy(self.lib),
         )
 
         mask_glyphs: list[Glyph] = []
-- 
2.43.0


From b35ada8f3ed60ad64dc2958e42ad776a63b3be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 36/64] fix: export every glyph under a unique name

A glyph with the name of an earlier one replaced that one if it was the last glyph
of the font, and the kerning of a renamed duplicate was added to the first glyph.
---
 src/vfbLib/ufo/builder.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 72e4816..9af6fdc 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -178,7 +178,9 @@ class VfbToUfoBuilder:
     def build_mm_glyph(self, data: dict[str, Any]) -> None:
         g = self.current_glyph = VfbToUfoGlyph(self)
         g.lib = {}
-        g.name = data["name"]
+        g.name = self.get_unique_glyph_name(data["name"])
+        self.glyph_masters[g.name] = g
+        self.glyphOrder.append(g.name)
         g.unicodes = []
 
         # MM Stuff, need to extract later
@@ -210,6 +212,16 @@ class VfbToUfoBuilder:
             if "instructions" in imported:
                 g.set_instructions(imported["instructions"])
 
+    def get_unique_glyph_name(self, name: str) -> str:
+        """Return the name, or a new name based on it if it is already in use."""
+        if name not in self.glyph_masters:
+            return name
+        i = 0
+        while f"{name}#{i}" in self.glyph_masters:
+            i += 1
+        logger.warning(f"Duplicate glyph, renamed from {name} to {name}#{i}.")
+        return f"{name}#{i}"
+
     def set_feature_code(self, data: list[str]) -> None:
         # Make the kern feature compilable
         self.features_code = "\n".join(rename_kern_classes_in_feature_code(data))
@@ -450,24 +462,6 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -660,10 +654,6 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
-- 
2.43.0


From 8e2e120a5ec38c276cece94565c76c6c6934ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 37/64] fix: export all masters of fonts with 1 or 3 axes

A font with n axes has 2**n masters, not n**2. The export of a font with 3 axes
asked for a 9th master and failed; unnamed masters of a font with one axis were lost.
---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 9af6fdc..263c1f0 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -675,7 +675,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 0:
             masters_count = 1
         else:
-            masters_count = self.axis_count**2
+            masters_count = 2**self.axis_count
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From d2e63695f4f59e091d95294fecb6645846ea2bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 38/64] fix: write the glyph note to the UFO glyph

---
 src/vfbLib/ufo/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 263c1f0..aca0757 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -779,6 +779,8 @@ class VfbToUfoBuilder:
             if self.minimal:
                 continue
 
+            ufo_glyph.note = mm_glyph.note
+
             # Handle mask layer
             mask_ufo_glyph = Glyph(name)
             pen = mask_ufo_glyph.getPointPen()
-- 
2.43.0


From c08a541f541648a2ee63eeae81b0f7df8f7e0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 39/64] fix: detect duplicate ppm values in the TrueType stem
 rounding

The result is keyed by strings, but was searched for the integer, so that the
check for duplicates had no effect.
---
 src/vfbLib/ufo/tth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..03dced0 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -75,10 +75,10 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
     """
     d: dict[str, int] = {}
     for k, v in data.items():
-        key = v
+        key = str(v)
         val = k
         if key in d:
-            if val > v:
+            if val > d[key]:
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From 4b283b0e50c53cd5f553ad14991b9afa92df1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 40/64] fix: don't accumulate axis labels when a designspace is
 built again

---
 src/vfbLib/ufo/builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index aca0757..40309ee 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -935,10 +935,10 @@ class VfbToUfoBuilder:
         # Add labels
         if self.axis_count == 1:
             # Only support the simple case here
-            for p in self.primary_instances:
-                self.axes[0].axisLabels.append(
-                    AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
-                )
+            self.axes[0].axisLabels = [
+                AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
+                for p in self.primary_instances
+            ]
         else:
             logger.warning(
                 "WARNING: Designspace output of AxisLabelDescriptors is only supported "
-- 
2.43.0


From 65adc1bd3aa5f546301a0bf468957142ab77b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 41/64] fix: use the final point names in the TrueType hints of
 UFO glyphs

The hinting program was written to the glyph lib before the closepath optimization,
which may drop the start point of a contour and rename the references to it.
---
 src/vfbLib/ufo/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..2842ad7 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -76,12 +76,12 @@ class UfoMasterGlyph:
         self.tth_commands = deepcopy(self.mm_glyph.tth_commands)
         if include_ps_hints:
             self._extract_master_ps_hints()
-        self._extract_master_tt_hints()
         if not minimal:
             self._extract_master_contours(to_mask=True)
             self._extract_master_mask_metrics()
         self._extract_master_contours()
         self._finalize_point_labels(include_ps_hints)
+        self._extract_master_tt_hints()
         self._extract_master_anchors()
         if not minimal:
             self._extract_master_guides()
-- 
2.43.0


From bd2888d8acae5f88b3e6eb536ecebe769b945ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 42/64] fix: use the final point names in the PostScript hint
 sets of UFO glyphs

If the start point of a contour is dropped by the closepath optimization, its hint
set must refer to the point which is kept.
---
 src/vfbLib/ufo/paths.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 2842ad7..a1169ae 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, Any
 from vfbLib.ufo.guides import apply_guide_properties, get_master_guides
 from vfbLib.ufo.pshints import build_ps_glyph_hints, get_master_hints
 from vfbLib.ufo.tth import set_tth_lib
-from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
+from vfbLib.ufo.vfb2ufo import PS_GLYPH_LIB_KEY, TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
@@ -272,7 +272,9 @@ class UfoMasterGlyph:
         if not self.rename_points:
             return
 
-        # FIXME
+        for hint_set in self.lib.get(PS_GLYPH_LIB_KEY, {}).get("hintSetList", []):
+            tag = hint_set["pointTag"]
+            hint_set["pointTag"] = self.rename_points.get(tag, tag)
 
     def _finalize_tt_point_labels(self) -> None:
         """
-- 
2.43.0


From 5ea261e2336288f826d1d0f05128e64bf97109ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 43/64] fix: use the final stem names in TrueType hinting
 commands

Unnamed stems and stems with the name of an earlier one get a new name in the lib,
but the hinting commands of the glyphs kept referring to the old one. A third stem
of the same name was dropped.
---
 src/vfbLib/ufo/builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 40309ee..506f932 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -398,19 +398,23 @@ class VfbToUfoBuilder:
             direction_stems = self.stems[d]
             for stem in direction_stems:
                 name = stem["name"]
-                del stem["name"]
                 if name == "":
                     dname = "v" if d == "ttStemsH" else "h"
                     name = "%s%02i" % (dname, i)
                     i += 1
                 if name in lib:
                     oldname = name
-                    name = "%s#%02i" % (oldname, i)
+                    n = i
+                    while name in lib:
+                        name = "%s#%02i" % (oldname, n)
+                        n += 1
                     logger.warning(
                         f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
                         ". Preferably make stem names unique in VFB."
                     )
-                lib[name] = stem
+                # The glyph hints refer to the stem by its final name
+                stem["name"] = name
+                lib[name] = {k: v for k, v in stem.items() if k != "name"}
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
 
@@ -655,10 +659,10 @@ class VfbToUfoBuilder:
                     logger.info(f"Unhandled entry: {k}")
 
         self.lib["public.glyphOrder"] = self.glyphOrder
-        self.build_tt_glyph_lib()
         self.assure_tt_lib()
         self.build_tt_stems_lib()
         self.build_tt_zones_lib()
+        self.build_tt_glyph_lib()
         if not self.lib[TT_LIB_KEY]:
             del self.lib[TT_LIB_KEY]
         if (
-- 
2.43.0


From 8768e973ded3c5cb3816e4c1fecea5afbe44ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 44/64] fix: keep the kerning groups in the groups when they
 are added to the features

---
 src/vfbLib/ufo/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 506f932..866667b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -855,7 +855,8 @@ class VfbToUfoBuilder:
                 continue
 
             self.ufo_features.text += f"@{name} = [{' '.join(glyphs)}];\n"
-            move_groups.add(name)
+            if not name.startswith("public.kern"):
+                move_groups.add(name)
 
         if self.move_groups_to_fea:
             # Remove groups that were added to the feature code from the groups dict
-- 
2.43.0


From b46d0b18f7a152727cd10b4d8f87c5f9dbc19100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 45/64] fix: omit groups of which all glyphs are missing in
 minimal mode

---
 src/vfbLib/ufo/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/groups.py b/src/vfbLib/ufo/groups.py
index 0edee62..43d3991 100644
--- a/src/vfbLib/ufo/groups.py
+++ b/src/vfbLib/ufo/groups.py
@@ -33,7 +33,7 @@ def check_for_missing_glyphs(
             remaining_glyphs = list(set(glyphs) - set(missing))
             if not remaining_glyphs:
                 logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
-                return glyphs, missing
+                return [], missing
             glyphs = [g for g in glyphs if g not in missing]
     return glyphs, missing
 
@@ -100,6 +100,9 @@ def transform_groups(
             name, glyphs, glyphOrder, skip_missing_group_glyphs
         )
         num_missing = len(missing)
+        if missing and not glyphs:
+            # No glyphs are left in the group
+            continue
 
         key_glyph = None
         for key_glyph_candidate in group_key_glyphs:
-- 
2.43.0


From 448f79da525c441a0c32fac80907b3a682067251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 46/64] fix: refer to master UFOs relative to the designspace
 file

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 866667b..325b6a6 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -955,7 +955,7 @@ class VfbToUfoBuilder:
             ds.addSourceDescriptor(
                 # designLocation=,
                 familyName=self.info.ds_family_name,
-                filename=f"{self.get_master_path(out_path, i)}",
+                filename=self.get_master_path(out_path, i).name,
                 location=get_ds_location(self.axes, self.master_locations[i + 1]),
                 name=self.masters[i].strip(),
                 styleName=f"Master {i}",
-- 
2.43.0


From 3ead077e07f38f094858064549dc5a45a0876853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 47/64] fix: give axes without mappings a range, so the
 designspace can be written

---
 src/vfbLib/ufo/builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 325b6a6..ac0c3f7 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -581,7 +581,13 @@ class VfbToUfoBuilder:
                         "Serif": "SERF",
                     }
                     self.axes.append(
-                        AxisDescriptor(tag=tags.get(data, data.upper()[:4]), name=data)
+                        AxisDescriptor(
+                            tag=tags.get(data, data.upper()[:4]),
+                            name=data,
+                            minimum=0,
+                            default=0,
+                            maximum=1000,
+                        )
                     )
                 case F.AxisMappingsCount:
                     self.axis_mappings_count: list[int] = data
-- 
2.43.0


From 7a27202b06e865dde6873a5a1772f26201d2ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 48/64] fix: refuse to overwrite existing JSON and designspace
 files before anything is written

---
 src/vfbLib/ufo/builder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ac0c3f7..fbdb22d 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -911,11 +911,17 @@ class VfbToUfoBuilder:
         # Build UFOs and DesignSpace
         ufos, ds = self.get_ufos_designspace(out_path, silent)
 
+        master_paths = [self.get_master_path(out_path, i) for i in range(len(ufos))]
+        ds_path = out_path.with_suffix(".designspace")
+        if not overwrite:
+            for path in master_paths + ([ds_path] if ds else []):
+                if path.exists():
+                    raise FileExistsError(str(path))
+
         # Write the master UFOs
         strct = UFOFileStructure.ZIP if ufoz else None
         indent = None if ufoz else 2
-        for index, ufo in enumerate(ufos):
-            master_path = self.get_master_path(out_path, index)
+        for master_path, ufo in zip(master_paths, ufos):
             if json:
                 ufo.json_dump(master_path, indent=indent, sort_keys=False)
             else:
@@ -927,10 +933,6 @@ class VfbToUfoBuilder:
 
         # Write the Designspace
         if ds:
-            ds_path = out_path.with_suffix(".designspace")
-            if ds_path.exists():
-                if not overwrite:
-                    raise FileExistsError(str(ds_path))
             if not silent:
                 print(f"Writing designspace: {ds_path}")
             ds.write(str(ds_path))
-- 
2.43.0


From 19fc912a7526d3fc899b0e3ff16c19d570cb553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 49/64] fix: use the output file path given on the command line

---
 src/vfbLib/cmdline.py | 4 +++-
 src/vfbLib/cu2qu.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 641a853..5369e20 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -224,7 +224,9 @@ def vfb2ufo():
         suffix = ".ufo"
         if args.zip and not args.json:
             suffix += "z"
-        if args.path:
+        if args.outputpath:
+            out_path = Path(args.outputpath)
+        elif args.path:
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
         else:
             out_path = vfb_path.with_suffix(suffix)
diff --git a/src/vfbLib/cu2qu.py b/src/vfbLib/cu2qu.py
index bcb8d82..3685756 100644
--- a/src/vfbLib/cu2qu.py
+++ b/src/vfbLib/cu2qu.py
@@ -79,7 +79,9 @@ def vfbcu2qu():
             return
 
         suffix = ".qu.vfb"
-        if args.path:
+        if args.outputpath:
+            out_path = Path(args.outputpath)
+        elif args.path:
             suffix = ".vfb"
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
         else:
-- 
2.43.0


From aa0bae349a05df121bf343adbd5038d2b08c1ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 50/64] fix: don't print the timing in silent mode

---
 src/vfbLib/cmdline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 5369e20..cc81a49 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -217,6 +217,7 @@ def vfb2ufo():
             print(f"Reading file {vfb_path} ...")
         vfb = Vfb(
             vfb_path,
+            timing=not args.silent,
             minimal=args.minimal,
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
-- 
2.43.0


From 399f45930a2d2a00aefeb3b0da919c64ee78437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 51/64] fix: make yuri's --long option effective

---
 src/vfbLib/value.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/value.py b/src/vfbLib/value.py
index cfcb271..d70ec25 100644
--- a/src/vfbLib/value.py
+++ b/src/vfbLib/value.py
@@ -1,7 +1,7 @@
 from argparse import ArgumentParser
 from io import BytesIO
 
-from vfbLib.compilers.value import write_value
+from vfbLib.compilers.value import write_value, write_value_long
 from vfbLib.helpers import deHexStr, hexStr
 from vfbLib.parsers.value import read_value
 
@@ -45,8 +45,9 @@ def yuri():
     if args:
         if args.encode:
             stream = BytesIO()
+            write = write_value_long if args.long else write_value
             for value in args.hexstring:
-                write_value(int(value), stream, args.signed)
+                write(int(value), stream, args.signed)
             print(hexStr(stream.getvalue()))
         else:
             data = deHexStr("".join(args.hexstring))
-- 
2.43.0


From 439b196a8ccace447160c11396249a077fda8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 52/64] fix: keep TrueType stems without rounding values in the
 hinting export

---
 src/vfbLib/tth.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 593b160..0af22f0 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -183,7 +183,7 @@ def extract_glyph_hints(
             IndexVfbToUfoGlyph(),
             data=tth,
             zone_names=zone_names,
-            stems=font_hints["stems"],
+            stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
         target[data["name"]] = tr
@@ -203,7 +203,8 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index][1] = stem_data["round"][1]
+                rounding = target[direction].setdefault(stem_index, {})
+                rounding[1] = stem_data["round"][1]
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
@@ -309,18 +310,16 @@ def merge_stem_information(data: dict, font: dict) -> None:
     """
     stems_dict = {}
     for direction in ("ttStemsV", "ttStemsH"):
-        if direction in data:
-            direction_data = data[direction]
-            for stem_index, rounding in direction_data.items():
-                stem = font["stems"][direction][stem_index]
-                stem["round"].update(rounding)
-                # Sort the rounding dict by value (px)
-                rd = transform_stem_rounds(stem["round"], stem["name"])
-                srtl = sorted(rd.items(), key=lambda item: item[1])
-                srd = {k: v for k, v in srtl}
-                stem["round"] = srd
-                stems_dict[stem["name"]] = deepcopy(stem)
-                del stems_dict[stem["name"]]["name"]
+        stems = font.get("stems", {}).get(direction, [])
+        for stem_index, stem in enumerate(stems):
+            stem["round"].update(data.get(direction, {}).get(stem_index, {}))
+            # Sort the rounding dict by value (px)
+            rd = transform_stem_rounds(stem["round"], stem["name"])
+            srtl = sorted(rd.items(), key=lambda item: item[1])
+            srd = {k: v for k, v in srtl}
+            stem["round"] = srd
+            stems_dict[stem["name"]] = deepcopy(stem)
+            del stems_dict[stem["name"]]["name"]
     if stems_dict:
         font["stems"] = stems_dict
     else:
-- 
2.43.0


From 0dfc2434b0e70c0b4b4e455ce8b24e4b71ab8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 53/64] fix: forget everything about the previous file when a
 Vfb is read again

---
 src/vfbLib/vfb/vfb.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index b41803d..2b2d643 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -141,6 +141,16 @@ class Vfb:
         self.entries = []
         self._glyphs = {}
         self.glyph_order = []
+        # Values derived from entries that may be missing from the next file
+        self.encoding = "utf-8"
+        self.info = VfbInfo(vfb=self)
+        self.lib = {}
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.ps_hinting_options = None
+        self.any_errors = False
 
     def compile(self) -> None:
         """
-- 
2.43.0


From f649d18d4f7d9d1049f69a73fd406e041fdb0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 54/64] fix: draw the quadratic curve that closes a contour,
 from the right start point

---
 src/vfbLib/vfb/glyph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c643dc7..56aba7a 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -210,6 +210,7 @@ class VfbGlyph:
         in_path = False
         in_qcurve = False
         qcurve = []
+        start = None
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
@@ -217,7 +218,8 @@ class VfbGlyph:
             pt = n["points"][self.master_index][0]
             if node_type == "move":
                 if in_qcurve:
-                    qcurve.append(pt)
+                    # The curve ends on the start point of its path
+                    qcurve.append(start)
                     pen.qCurveTo(*qcurve)
                 if in_path:
                     if path_is_open:
@@ -228,6 +230,7 @@ class VfbGlyph:
                 in_qcurve = False
                 qcurve = []
                 pen.moveTo(pt)
+                start = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
@@ -249,6 +252,9 @@ class VfbGlyph:
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
+        if in_qcurve:
+            qcurve.append(start)
+            pen.qCurveTo(*qcurve)
         if in_path:
             if path_is_open:
                 pen.endPath()
-- 
2.43.0


From 43d624690db939e74adcaaf20e9410d597f40321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 55/64] fix: open a pen for any master, not only the first one

---
 src/vfbLib/vfb/pens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From b4b7ae078f611e09d7c9006fb270b045e953f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 56/64] fix: draw the current outline and name of the glyph,
 not those at the first drawing

---
 src/vfbLib/vfb/glyph.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 56aba7a..f3b4755 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 from fontTools.pens.pointPen import AbstractPointPen, SegmentToPointPen
@@ -51,8 +50,11 @@ class VfbGlyph:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
+        if isinstance(self.entry.data, dict):
+            return self.entry.data["name"]
+
         if self._glyph is None:
             return None
 
@@ -280,8 +282,10 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
+        if isinstance(self.entry.data, bytes):
+            self.entry.decompile()
+
+        self._copy_to_ufo_glyph()
 
         if self._glyph is None:
             raise ValueError
@@ -385,8 +389,11 @@ class VfbGlyphMaster:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
+        if isinstance(self.entry.data, dict):
+            return self.entry.data["name"]
+
         if self._glyph is None:
             return None
 
@@ -445,8 +452,10 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
+        if isinstance(self.entry.data, bytes):
+            self.entry.decompile()
+
+        self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
             raise ValueError
-- 
2.43.0


From ee211c3b093be1d199f30077c917462a7d8f905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 57/64] fix: merge what was drawn into other masters only once

---
 src/vfbLib/vfb/entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 073d380..2e5e77f 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -254,6 +254,7 @@ class VfbEntry(StreamReader):
             return
 
         self.compiler.merge(self.temp_masters, self.data)
+        self.temp_masters = None
 
     def read(self, stream: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From 208a8b941e050311f4327bfa8c2ae555bd5b2de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 58/64] fix: parse bitmaps without columns

---
 src/vfbLib/parsers/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..d3c031e 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -65,8 +65,8 @@ class BaseBitmapParser(BaseParser):
         if self.vfb is not None and self.vfb.writer_platform == "windows":
             data = [~b + 0x100 for b in data]
 
-        # Split list into rows
-        bytes_per_row = ((w + 15) // 16) * 2
+        # Split list into rows. A bitmap without columns has no rows to split.
+        bytes_per_row = max(1, (w + 15) // 16) * 2
         # fmt:off
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
-- 
2.43.0


From dc56bbf6de94a68d6d23e76c08f9fc3718ef4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:10 +0000
Subject: [PATCH 59/64] fix: Keep zero kerning of glyphs whose own group is not
 exported

---
 src/vfbLib/ufo/kerning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vfbLib/ufo/kerning.py b/src/vfbLib/ufo/kerning.py
index 29ae15e..010eeec 100644
--- a/src/vfbLib/ufo/kerning.py
+++ b/src/vfbLib/ufo/kerning.py
@@ -65,6 +65,10 @@ class UfoKerning:
         """
         rev = {}
         for name, key_glyph in key_glyphs.items():
+            if name not in self.groups:
+                # All its glyphs are in other groups of the same side already
+                continue
+
             if name.startswith("public.kern1"):
                 key = (1, key_glyph)
             elif name.startswith("public.kern2"):
-- 
2.43.0


From f554c022240063e1eb1fd6eeaa6fb6e8e11059ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 60/64] fix: refuse gasp entries that end within a record

---
 src/vfbLib/parsers/truetype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 026c7f0..45ea008 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -36,7 +36,7 @@ class GaspParser(BaseParser):
 
     def _parse(self) -> "GaspList":
         data = self.stream.read()
-        gasp = unpack(f"<{len(data) // 2}H", data)
+        gasp = unpack(f"<{len(data) // 4 * 2}H", data)
         it = iter(gasp)
         return [
             {
-- 
2.43.0


From 3306268ed7a38c260d0ea1b61e05b8f0a084e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 61/64] fix: don't drop a zero byte at the end of value lists

---
 src/vfbLib/parsers/base.py | 12 +++++-------
 src/vfbLib/parsers/mm.py   |  9 ++++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index f45fea7..5d27fa6 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -320,13 +320,11 @@ class EncodedValueListParser(BaseParser):
 
     def _parse(self) -> list[int]:
         values = []
-        while True:
-            try:
-                val = self.read_value()
-                values.append(val)
-            except EOFError:
-                logger.debug("EOF")
-                return values
+        size = self.stream.getbuffer().nbytes
+        while self.stream.tell() < size:
+            val = self.read_value()
+            values.append(val)
+        return values
 
 
 class EncodedValueListWithCountParser(BaseParser):
diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index f9ec4b7..751543d 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -6,13 +6,12 @@ class AnisotropicInterpolationsParser(BaseParser):
     def _parse(self) -> list[list[tuple[int, int]]]:
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
-        while True:
-            try:
-                n = self.read_value()
-            except EOFError:
-                return values
+        size = self.stream.getbuffer().nbytes
+        while self.stream.tell() < size:
+            n = self.read_value()
             axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
             values.append(axis_values)
+        return values
 
 
 class AxisMappingsCountParser(BaseParser):
-- 
2.43.0


From 2ad872ef6fd6adfacf4cba2b45312109a963b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 62/64] fix: refuse negative sizes instead of reading the rest
 of the stream

---
 src/vfbLib/parsers/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 5d27fa6..4625445 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -46,10 +46,14 @@ class StreamReader:
 
         Raises:
             EOFError: When the stream ends before `size` bytes have been read.
+            ValueError: When `size` is negative.
 
         Returns:
             bytes: The bytes
         """
+        if size < 0:
+            raise ValueError(f"Invalid size: {size}")
+
         data = self.stream.read(size)
         if len(data) < size:
             raise EOFError
-- 
2.43.0


From 3a43153ed22ef587e02c08624786252eb63b0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 63/64] fix: refuse files that end within an entry

---
 src/vfbLib/vfb/entry.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 2e5e77f..144aebe 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -155,20 +155,27 @@ class VfbEntry(StreamReader):
 
         Raises:
             EOFError: When the stream ends before the entry.
+            ValueError: When the stream ends within the header of the entry.
         """
         raw_id_data = self.stream.read(int16_size)
-        if len(raw_id_data) < int16_size:
+        if not raw_id_data:
             raise EOFError
 
+        if len(raw_id_data) < int16_size:
+            raise ValueError("Truncated entry header")
+
         raw_id = int.from_bytes(raw_id_data, byteorder="little", signed=False)
         self.id = raw_id & ~0x8000
 
-        if raw_id & 0x8000:
-            # Uses uint32 for data length
-            num_bytes = self.read_uint32()
-        else:
-            # Uses uint16 for data length
-            num_bytes = self.read_uint16()
+        try:
+            if raw_id & 0x8000:
+                # Uses uint32 for data length
+                num_bytes = self.read_uint32()
+            else:
+                # Uses uint16 for data length
+                num_bytes = self.read_uint16()
+        except EOFError:
+            raise ValueError("Truncated entry header")
 
         return num_bytes
 
@@ -269,4 +276,8 @@ class VfbEntry(StreamReader):
             # In this case it can be calculated from the number of masters:
             size = 2 * int32_size + self.vfb.num_masters * 2
 
-        self.data = self.stream.read(size)
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise ValueError(f"Truncated data of entry {self.key}")
+
+        self.data = data
-- 
2.43.0


From 9da2c377e294d2d538e20ae35106f6ca056b36b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 64/64] fix: refuse negative GDEF glyph classes

---
 src/vfbLib/parsers/glyph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 6a82c94..179dd70 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -89,6 +89,9 @@ class GlyphGDEFParser(BaseParser):
     def _parse(self) -> GdefDict:
         gdef: GdefDict = {}
         glyph_class = self.read_value()
+        if glyph_class < 0:
+            raise ValueError(f"Invalid GDEF glyph class: {glyph_class}")
+
         glyph_class_name = gdef_class_names[glyph_class]
         if glyph_class_name != "unassigned":
             gdef["glyph_class"] = glyph_class_name
-- 
2.43.0

