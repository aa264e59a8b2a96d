From 753a12d8e94cc369317065285cba28a4f7679101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:49 +0000
Subject: [PATCH 01/38] fix: code compression no longer fails when it saves
 less than its header takes up

The size check let through data for which the saved bytes are fewer than
the header bytes. Packing the negative difference then raised struct.error,
or produced a file that is read back as uncompressed. Such data is now
stored uncompressed.
---
 ndspy/codeCompression.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 59a7c5b..22560c7 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -256,7 +256,14 @@ def _compress(data: bytes) -> bytearray:
         _lzCommon.compress(bytes(reversed(data)), 3, 0x1002, 18, False, True)
     compressed = bytearray(reversed(compressed))
 
-    if not compressed or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8):
+    # The header takes up 8 bytes, plus padding for alignment. If
+    # compression doesn't save more than that, it isn't worth it (and
+    # can't be represented).
+    savings = len(data) - (len(compressed) - ignorableC + ignorableD)
+    minSavings = 8 + (savings - len(data)) % 4
+
+    if (not compressed or savings <= minSavings
+            or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8)):
         # Compressed size too large -- copy the raw data over instead
 
         compressed = bytearray(data)
-- 
2.43.0


From 37915e3a0872917fc5a09badd41a4dee9818ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:49 +0000
Subject: [PATCH 02/38] fix: code decompression returns short uncompressed data
 unmodified

The search for a footer read 8 bytes although it had only made sure that
5 are there. Uncompressed data of 5 to 7 bytes, and other short data whose
length is not a multiple of 4, raised struct.error.
---
 ndspy/codeCompression.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 22560c7..78f4edc 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -36,9 +36,7 @@ def _detectAppendedData(data: bytes) -> int | None:
     if so, or None if the data doesn't seem to be compressed.
     """
     for possibleAmt in range(0, 0x20, 4):
-        try:
-            headerLen = data[-5 - possibleAmt]
-        except IndexError:
+        if len(data) - possibleAmt < 8:
             return None
 
         compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - possibleAmt - 8)
-- 
2.43.0


From 7641d737259124e0ebed491e52566fc3a4376714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:49 +0000
Subject: [PATCH 03/38] fix: code decompression checks the footer padding when
 it looks for a footer

The check for 0xFF padding did nothing: its continue statement only
continued the loop over the padding bytes. Uncompressed data could be
taken for compressed data and was then rejected with ValueError.
---
 ndspy/codeCompression.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 78f4edc..1b17b69 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -45,9 +45,8 @@ def _detectAppendedData(data: bytes) -> int | None:
 
         if headerLen < 8: continue
         if compressedLen > len(data): continue
-        for byte in data[-possibleAmt - headerLen  : -possibleAmt - 8]:
-            if byte != 0xFF:
-                continue
+        if any(byte != 0xFF for byte in data[-possibleAmt - headerLen  : -possibleAmt - 8]):
+            continue
 
         return possibleAmt
 
-- 
2.43.0


From 39a9ec14d65cd0005e4b10d9f2e77c2132e5eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:49 +0000
Subject: [PATCH 04/38] fix: code decompression keeps data appended to an
 uncompressed file

When the footer says that the data is not compressed, the bytes behind the
footer were dropped instead of being returned with the rest.
---
 ndspy/codeCompression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 1b17b69..74850ce 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -79,7 +79,7 @@ def decompress(data: bytes) -> bytes:
     # If extraSize (the last value in the header) is 0, the data is not
     # actually compressed
     if data[-4:] == b'\0\0\0\0':
-        return data
+        return data + appendedData
 
     # Read the header
     compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - 8)
-- 
2.43.0


From 13f5b3e547066161c65a396cd00d34fe07fb583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:51 +0000
Subject: [PATCH 05/38] fix: filename lookups of empty paths return None

Folder.idOf() and Folder.subfolder() raised IndexError for paths without
any name in them, such as an empty string or a single slash. They are
documented to return None when nothing is found.
---
 ndspy/fnt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndspy/fnt.py b/ndspy/fnt.py
index c6fb53e..98ef6b4 100644
--- a/ndspy/fnt.py
+++ b/ndspy/fnt.py
@@ -120,8 +120,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
@@ -150,8 +151,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
-- 
2.43.0


From 44ce42344820f7eddacb117db2fa72e1e45e27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:19 +0000
Subject: [PATCH 06/38] fix: don't compute a negative device capacity for small
 ROMs

---
 ndspy/rom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 78af762..068664b 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -458,7 +458,7 @@ class NintendoDSRom:
         # Now that we know how large the ROM data is, we can update the
         # device capacity value
         if updateDeviceCapacity:
-            self.deviceCapacity = math.ceil(math.log2(len(data))) - 17
+            self.deviceCapacity = max(0, math.ceil(math.log2(len(data))) - 17)
 
         # Now that all the offsets and stuff are determined, write the
         # header data
-- 
2.43.0


From 81355f3f728925d938fe9a0115dab1de99046339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:19 +0000
Subject: [PATCH 07/38] fix: keep files that share an offset in
 NintendoDSRom.sortedFileIds

---
 ndspy/rom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 068664b..90b0f9f 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -308,13 +308,13 @@ class NintendoDSRom:
         self.files = []
         self.sortedFileIds = []
         if fat:
-            offset2Id = {}
+            offsets = []
             for i in range(len(fat) // 8):
                 startOffset, endOffset = struct.unpack_from('<II', fat, 8 * i)
                 self.files.append(data[startOffset:endOffset])
-                offset2Id[startOffset] = i
-            for off in sorted(offset2Id):
-                self.sortedFileIds.append(offset2Id[off])
+                offsets.append((startOffset, endOffset))
+            # (Files can share an offset, if some of them are empty)
+            self.sortedFileIds = sorted(range(len(offsets)), key=offsets.__getitem__)
 
 
     @classmethod
-- 
2.43.0


From e979e35203f637c98d99d7b42abba13244ddd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:31 +0000
Subject: [PATCH 08/38] fix: allow saving code files that have no code settings

---
 ndspy/code.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 0681405..6246611 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -246,9 +246,9 @@ class MainCodeFile:
 
         if compress:
             data = bytearray(codeCompression.compress(data, True))
-            setInt(cso + 0x14, self.ramAddress + len(data))
-        else:
-            setInt(cso + 0x14, 0)
+
+        if cso is not None:
+            setInt(cso + 0x14, self.ramAddress + len(data) if compress else 0)
 
         return data
 
-- 
2.43.0


From 890b85b4b4ecdae64a55cfa87532f2de8c4c9c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:31 +0000
Subject: [PATCH 09/38] fix: include padding in section sizes when saving code
 files

---
 ndspy/code.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 6246611..45e568d 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -208,6 +208,12 @@ class MainCodeFile:
             while len(data) % 4:
                 data.append(0)
 
+        def paddedSize(s: MainCodeFile.Section) -> int:
+            # The sizes need to include the padding added above, since
+            # the position of each section's data is found by adding up
+            # the sizes of the sections before it
+            return (len(s.data) + 3) & ~3
+
         # These loops are NOT identical!
         # The first one only operates on sections with length != 0,
         # and the second operates on sections with length == 0!
@@ -218,13 +224,13 @@ class MainCodeFile:
             if s.implicit: continue
             if len(s.data) == 0: continue
             sectionTable.extend(
-                struct.pack('<3I', s.ramAddress, len(s.data), s.bssSize))
+                struct.pack('<3I', s.ramAddress, paddedSize(s), s.bssSize))
 
         for s in self.sections:
             if s.implicit: continue
             if len(s.data) != 0: continue
             sectionTable.extend(
-                struct.pack('<3I', s.ramAddress, len(s.data), s.bssSize))
+                struct.pack('<3I', s.ramAddress, paddedSize(s), s.bssSize))
 
         sectionTableOffset = len(data)
         data.extend(sectionTable)
@@ -239,7 +245,7 @@ class MainCodeFile:
         if cso is not None:
             setInt(cso + 0x00, sectionTableAddr)
             setInt(cso + 0x04, sectionTableEnd)
-            setInt(cso + 0x08, self.ramAddress + len(self.sections[0].data))
+            setInt(cso + 0x08, self.ramAddress + paddedSize(self.sections[0]))
         else:
             # Welp, hopefully we only have one section :P
             pass
-- 
2.43.0


From d5d15550d07ba289916cf01c0814a24444889caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:05 +0000
Subject: [PATCH 10/38] fix: detect the byte order of BMG files of any length

---
 ndspy/bmg.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 1967e52..55c1936 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -89,11 +89,13 @@ class BMG:
         # Super Princess Peach uses *big-endian* BMGs. What even.
 
         # Well, OK, whatever. We can make an extremely accurate guess by
-        # reading the file length value both ways and seeing which one
-        # seems to make more sense:
-        dataLenLE, = struct.unpack_from('<I', data, 8)
-        dataLenBE, = struct.unpack_from('>I', data, 8)
-        self.endianness = se = '<' if dataLenLE < dataLenBE else '>'
+        # reading the section count value both ways and seeing which one
+        # seems to make more sense. (The file length value is less
+        # suitable for this: for example, 0x10000 looks like 0x100 when
+        # read the wrong way.)
+        sectionCountLE, = struct.unpack_from('<I', data, 12)
+        sectionCountBE, = struct.unpack_from('>I', data, 12)
+        self.endianness = se = '<' if sectionCountLE <= sectionCountBE else '>'
         # Still, though... ugh.
 
         magic, dataLen, sectionCount, enc, self.unk14, self.unk18, self.unk1C = \
-- 
2.43.0


From b5057f90776eed27ff439f0cef1151a9e49db6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:17 +0000
Subject: [PATCH 11/38] fix: save script indices of big-endian BMG files where
 they are loaded from

---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 55c1936..e24d330 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -301,7 +301,7 @@ class BMG:
             FLW1.extend(struct.pack(se + 'b', bmgID))
 
         for id, startIndex in self.scripts:
-            FLI1.extend(struct.pack(se + 'II', id, startIndex))
+            FLI1.extend(struct.pack(se + 'IHxx', id, startIndex))
 
         # Sections' lengths must be 32-byte aligned
         while len(INF1) % 32: INF1.append(0)
-- 
2.43.0


From db6de912c9374e49173acdc5c36c2e98b3c7512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:17 +0000
Subject: [PATCH 12/38] fix: keep null instructions and labels of BMG files
 that aren't padding

---
 ndspy/bmg.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index e24d330..e5740cc 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -130,17 +130,23 @@ class BMG:
             instructionsTableOffset = offset + 16
             for i in range(instructionsCount):
                 instOff = instructionsTableOffset + i * 8
-                cmd = data[instOff : instOff + 8]
-                if cmd != b'\0\0\0\0\0\0\0\0':
-                    self.instructions.append(cmd)
+                self.instructions.append(data[instOff : instOff + 8])
+
+            # Remove padding (but keep null instructions elsewhere, as
+            # removing them would change the indices of others)
+            while self.instructions and self.instructions[-1] == b'\0\0\0\0\0\0\0\0':
+                del self.instructions[-1]
 
             indicesTableOffset = instructionsTableOffset + instructionsCount * 8
             bmgIDsTableOffset = indicesTableOffset + labelsCount * 2
             for i in range(labelsCount):
                 index, = struct.unpack_from(se + 'h', data, indicesTableOffset + i * 2)
                 bmgID, = struct.unpack_from(se + 'b', data, bmgIDsTableOffset + i)
-                if bmgID != 0 or index != 0:
-                    self.labels.append((bmgID, index))
+                self.labels.append((bmgID, index))
+
+            # Same thing for labels
+            while self.labels and self.labels[-1] == (0, 0):
+                del self.labels[-1]
 
         self.scripts = []
         def parseFLI1(offset: int, length: int) -> None:
-- 
2.43.0


From 5ad1528caa512164795d67e79609b5c02d3503ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:58 +0000
Subject: [PATCH 13/38] fix: find tiles in rows beyond the width of the tile
 list

tileAt() and putTile() refused rows whose number is not less than the
row width, so that only a square part of a list could be reached.
---
 ndspy/graphics2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 8083356..517b3e5 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -474,7 +474,7 @@ def tileAt(tiles, x, y, *, width=32):
     TODO: maybe rename it somehow to indicate that? Maybe even move it
     into ndspy.__init__ (like the named-list things)?
     """
-    if x >= width or y >= width: return None
+    if x >= width: return None
     if x < 0 or y < 0: return None
     try:
         return tiles[y * width + x]
@@ -492,7 +492,7 @@ def putTile(tiles, x, y, t, *, width=32):
     into ndspy.__init__ (like the named-list things)?
     Returns True if the tile was placed, False otherwise (i.e. OOB)
     """
-    if x >= width or y >= width: return False
+    if x >= width: return False
     if x < 0 or y < 0: return False
     try:
         tiles[y * width + x] = t
-- 
2.43.0


From ec769ef51082e87c6279482a29665005472caa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:58 +0000
Subject: [PATCH 14/38] fix: decode tilemap values in the format given

TilemapTile() set the value before the format, so that values for 8-bit
tilemaps were taken apart as 16-bit ones.
---
 ndspy/graphics2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 517b3e5..be3eece 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -236,8 +236,8 @@ class TilemapTile:
         Initialize the TilemapTile from a raw 16-bit data value.
         """
         _checkTilemapFormat(format)
-        self.value = value
         self.format = format
+        self.value = value
 
 
     @classmethod
-- 
2.43.0


From 9b00ced1afb212c6268f71f8cf9b9376c61b64cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:21 +0000
Subject: [PATCH 15/38] fix: render tile lists whose last row is not full

The height of the image allows for a partial last row, but rendering it
failed with StopIteration.
---
 ndspy/graphics2D.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index be3eece..868d75b 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -410,7 +410,9 @@ def renderImageTiles(tiles, colors, paletteNum=0, width=32):
     tileIter = iter(tiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tileIter).render(colors, paletteNum)
+            tile = next(tileIter, None)
+            if tile is None: break
+            tilePixels = tile.render(colors, paletteNum)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
@@ -445,7 +447,9 @@ def renderTilemapTiles(tilemapTiles, imageTiles, colors, width, tileNumOffset=0)
     tilemapIter = iter(tilemapTiles)
     for y in range(height):
         for x in range(width):
-            tilePixels = next(tilemapIter).render(imageTiles, colors, tileNumOffset)
+            tile = next(tilemapIter, None)
+            if tile is None: break
+            tilePixels = tile.render(imageTiles, colors, tileNumOffset)
             for y2 in range(8):
                 base = ((y * 8 + y2) * width + x) * 8
                 img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
-- 
2.43.0


From 8e747f69717b54e3a9e31c507e0261ce5d66e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:17 +0000
Subject: [PATCH 16/38] fix: load palettes that share their name or data with
 others

Palettes of a texture file with equal names and header values all got
the colors of the last one. Palettes stored at the same offset got no
colors at all.
---
 ndspy/texture.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 075edd5..cb5be09 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -422,7 +422,6 @@ def _readTEX0(data):
     # positions (and metadata), then we sort the data start positions,
     # and then we make the actual Palette objects with the palette data.
     paletteStartOffsets = []
-    palette2StartOffset = {}
 
     paletteTuples = []
     returnVal['palettes'] = []
@@ -432,21 +431,20 @@ def _readTEX0(data):
         thisPalOff <<= 3
         thisPalOff += palDataOff
 
-        pt = (name, unk00, unk02, unkHeader02)
+        pt = (name, unk00, unk02, unkHeader02, thisPalOff)
 
         paletteStartOffsets.append(thisPalOff)
-        palette2StartOffset[pt] = thisPalOff
         paletteTuples.append(pt)
 
     paletteStartOffsets.append(palDataOff + palDataLen)
     paletteStartOffsets.sort()
 
     for pt in paletteTuples:
-        startOff = palette2StartOffset[pt]
-        endOff = paletteStartOffsets[paletteStartOffsets.index(startOff) + 1]
+        name, unk00, unk02, unkHeader02, startOff = pt
+        # (Palettes can share the same data)
+        endOff = next((off for off in paletteStartOffsets if off > startOff), startOff)
         palData = data[startOff : endOff]
 
-        name, unk00, unk02, unkHeader02 = pt
         pal = Palette(unk00, unk02, unkHeader02, palData)
         returnVal['palettes'].append((name, pal))
 
-- 
2.43.0


From c8a295510245c9ef3e0dbb902333d9e11b033334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:17 +0000
Subject: [PATCH 17/38] fix: refuse texture and palette names that don't fit

A name longer than 16 characters moved everything behind it, which left
a file that can't be loaded properly.
---
 ndspy/_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index c3cc59d..2ed57f9 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -217,7 +217,10 @@ def saveInfoBlock(entries, entryLengths):
         if e[0] is None:
             data.extend(b'\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0')
         else:
-            data.extend(e[0].encode('latin-1').ljust(16, b'\0'))
+            name = e[0].encode('latin-1')
+            if len(name) > 16:
+                raise ValueError(f'Name "{e[0]}" is longer than 16 characters')
+            data.extend(name.ljust(16, b'\0'))
 
     # Insert the overall size, now that we know what it is
     struct.pack_into('<H', data, 2, len(data))
-- 
2.43.0


From bf5f5361dc9ce34558494d9f210bd349af154a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:17 +0000
Subject: [PATCH 18/38] fix: make texture rendering work

Rendering relied on lookup tables that nothing prepares, and on raw
color values, although palettes hold lists of color quadruples.
---
 ndspy/texture.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index cb5be09..22c61c2 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -545,6 +545,12 @@ def renderTextureData(data1, data2, format, width, height, palette=None, isColor
     palette should be a list of colors (or None, if the texture format
     doesn't require one).
     """
+    ndspyColor.prepareLUTs()
+
+    if palette is not None:
+        # Accept both raw color values and (r5, g5, b5, a1) quadruples
+        palette = [c if isinstance(c, int) else ndspyColor.pack(*c) for c in palette]
+
     if format == TextureFormat.A3I5:
         return _renderA3I5(data1, width, height, palette)
     elif format == TextureFormat.I2:
-- 
2.43.0


From 3635387d0aadcf19aa1ba60a9aab428373cbacd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:03 +0000
Subject: [PATCH 19/38] fix: save streams without blocks whatever their block
 size

A stream with no blocks but a nonzero samplesPerBlock gave a negative
number of samples, so save() raised struct.error.
---
 ndspy/soundStream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundStream.py b/ndspy/soundStream.py
index 88b5a42..e6754d7 100644
--- a/ndspy/soundStream.py
+++ b/ndspy/soundStream.py
@@ -164,7 +164,7 @@ class STRM:
         # Figure out the number of blocks, bytes per block, and bytes in
         # the last block (while also checking that these are consistent
         # across channels as they should be)
-        numBlocks = bytesPerBlock = bytesInLastBlock = 0
+        numBlocks = bytesPerBlock = bytesInLastBlock = numSamples = 0
 
         if self.channels:
             numBlocks = len(self.channels[0])
@@ -179,6 +179,8 @@ class STRM:
             if numBlocks > 0:
                 bytesPerBlock = len(self.channels[0][0])
                 bytesInLastBlock = len(self.channels[0][-1])
+                numSamples = ((numBlocks - 1) * self.samplesPerBlock
+                              + self.samplesInLastBlock)
 
                 # All channels should have all but the final block be
                 # bytesPerBlock bytes long, and the last one be
@@ -223,7 +225,7 @@ class STRM:
             self.waveType, self.isLooped, len(self.channels), self.unk03,
             self.sampleRate, self.time,
             self.loopOffset,
-            (numBlocks - 1) * self.samplesPerBlock + self.samplesInLastBlock,
+            numSamples,
             0x68,
             numBlocks,
             bytesPerBlock - adpcmBlockSizeAdjust,
-- 
2.43.0


From cb549920160e211c1c0c223bd1de7903dd8b2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:46 +0000
Subject: [PATCH 20/38] fix: parse what follows a repeated call to a jump

The parser never recorded what happens after a jump event. A second
call to a subroutine that starts with a jump was taken for an endless
loop, and the events behind that call became raw data.
---
 ndspy/soundSequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 9601a8e..e52aac8 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1304,6 +1304,7 @@ def readSequenceEvents(data, notableOffsets=None):
                     fate = parse_at(destination)
                     event.destination = events[destination]
 
+                    fates[off] = fate
                     for off_ in offsetsOfMySequentialEvents:
                         fates[off_] = fate
 
-- 
2.43.0


From 6e0db4fa070ff43075f48a0763e4682521be0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:00 +0000
Subject: [PATCH 21/38] fix: parse what follows a conditional return, call or
 end of track

An if event skips the event behind it when the condition is false. The
parser knew that for jumps only, so the events after a conditional
return, end of track or call that does not come back became raw data.
---
 ndspy/soundSequence.py | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index e52aac8..ef83387 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1269,6 +1269,12 @@ def readSequenceEvents(data, notableOffsets=None):
     FATE_EOT = 3
     fates = {}
 
+    def isPartOfIfStatement(off):
+        x = off - 1
+        while x not in events and x >= 0:
+            x -= 1
+        return x != -1 and events[x].type == 0xA2
+
     def parse_at(off):
         offsetsOfMySequentialEvents = []
 
@@ -1311,15 +1317,7 @@ def readSequenceEvents(data, notableOffsets=None):
                     # Should we keep parsing past here? Only if this
                     # is part of an if statement (and thus might be
                     # skipped).
-                    x = off - 1
-                    while x not in events and x >= 0:
-                        x -= 1
-                    if x == -1:
-                        partOfIfStatement = False
-                    else:
-                        partOfIfStatement = (events[x].type == 0xA2)
-
-                    if not partOfIfStatement:
+                    if not isPartOfIfStatement(off):
                         return fate
 
                 elif type == 0x95: # Call
@@ -1331,32 +1329,30 @@ def readSequenceEvents(data, notableOffsets=None):
                     fate = parse_at(destination)
                     event.destination = events[destination]
 
-                    if fate == FATE_EOT:
-                        fates[off] = fate
-                        for off_ in offsetsOfMySequentialEvents:
-                            fates[off_] = fate
-                        return fate
-                    elif fate == FATE_RETURN:
-                        pass
-                    elif fate == FATE_LOOP:
+                    if fate in (FATE_EOT, FATE_LOOP):
                         fates[off] = fate
                         for off_ in offsetsOfMySequentialEvents:
                             fates[off_] = fate
-                        return fate
+                        if not isPartOfIfStatement(off):
+                            return fate
 
                 elif type == 0xFD: # Return
-                    events[off] = ReturnSequenceEvent()
+                    event = ReturnSequenceEvent()
+                    events[off] = event
                     fates[off] = FATE_RETURN
                     for off_ in offsetsOfMySequentialEvents:
                         fates[off_] = FATE_RETURN
-                    return FATE_RETURN
+                    if not isPartOfIfStatement(off):
+                        return FATE_RETURN
 
                 elif type == 0xFF: # EoT
-                    events[off] = EndTrackSequenceEvent()
+                    event = EndTrackSequenceEvent()
+                    events[off] = event
                     fates[off] = FATE_EOT
                     for off_ in offsetsOfMySequentialEvents:
                         fates[off_] = FATE_EOT
-                    return FATE_EOT
+                    if not isPartOfIfStatement(off):
+                        return FATE_EOT
 
                 else:
 
-- 
2.43.0


From cb782663328594bd82c7a6a7008aea994a52aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:40 +0000
Subject: [PATCH 22/38] fix: parse what follows a call whose only return is
 conditional

A subroutine that returns under a condition and otherwise ends or loops
was taken for one that never returns, so the events behind the call
became raw data.
---
 ndspy/soundSequence.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index ef83387..24bd241 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1277,15 +1277,23 @@ def readSequenceEvents(data, notableOffsets=None):
 
     def parse_at(off):
         offsetsOfMySequentialEvents = []
+        mayReturn = False
+
+        def finish(fate):
+            # Events after a conditional return might never return, but
+            # the subroutine as a whole still can
+            if mayReturn:
+                fate = FATE_RETURN
+            for off_ in offsetsOfMySequentialEvents:
+                fates[off_] = fate
+            return fate
 
         while off < len(data):
             if off in fates:
                 fate = fates[off]
                 if fate == FATE_INPROGRESS:
                     fate = FATE_LOOP
-                for off_ in offsetsOfMySequentialEvents:
-                    fates[off_] = fate
-                return fate
+                return finish(fate)
 
             try:
 
@@ -1311,14 +1319,13 @@ def readSequenceEvents(data, notableOffsets=None):
                     event.destination = events[destination]
 
                     fates[off] = fate
-                    for off_ in offsetsOfMySequentialEvents:
-                        fates[off_] = fate
 
                     # Should we keep parsing past here? Only if this
                     # is part of an if statement (and thus might be
                     # skipped).
                     if not isPartOfIfStatement(off):
-                        return fate
+                        return finish(fate)
+                    mayReturn |= (fate == FATE_RETURN)
 
                 elif type == 0x95: # Call
                     destination = int.from_bytes(data[off + 1 : off + 4], 'little') # 3-byte int
@@ -1331,28 +1338,23 @@ def readSequenceEvents(data, notableOffsets=None):
 
                     if fate in (FATE_EOT, FATE_LOOP):
                         fates[off] = fate
-                        for off_ in offsetsOfMySequentialEvents:
-                            fates[off_] = fate
                         if not isPartOfIfStatement(off):
-                            return fate
+                            return finish(fate)
 
                 elif type == 0xFD: # Return
                     event = ReturnSequenceEvent()
                     events[off] = event
                     fates[off] = FATE_RETURN
-                    for off_ in offsetsOfMySequentialEvents:
-                        fates[off_] = FATE_RETURN
                     if not isPartOfIfStatement(off):
-                        return FATE_RETURN
+                        return finish(FATE_RETURN)
+                    mayReturn = True
 
                 elif type == 0xFF: # EoT
                     event = EndTrackSequenceEvent()
                     events[off] = event
                     fates[off] = FATE_EOT
-                    for off_ in offsetsOfMySequentialEvents:
-                        fates[off_] = FATE_EOT
                     if not isPartOfIfStatement(off):
-                        return FATE_EOT
+                        return finish(FATE_EOT)
 
                 else:
 
-- 
2.43.0


From 01b0573c9f1c7fb43d8a49515df7acb502af357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:40 +0000
Subject: [PATCH 23/38] fix: save every occurrence of a repeated sequence event

An event object that appears more than once in the list was written at
its last position only, and the other positions were left as zeros.
---
 ndspy/soundSequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 24bd241..dcfb9aa 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1412,15 +1412,18 @@ def saveSequenceEvents(events, notableEvents=None):
     
     events2Offsets = {}
 
+    # (An event object can appear in the list more than once)
     off = 0
     for e in events:
-        events2Offsets[e] = off
+        events2Offsets.setdefault(e, off)
         off += e.dataLength
     data = bytearray(off)
 
-    for event, offset in events2Offsets.items():
+    offset = 0
+    for event in events:
         eData = event.save(events2Offsets)
         data[offset : offset + len(eData)] = eData
+        offset += event.dataLength
 
     notableOffsets = [events2Offsets[e] for e in notableEvents]
 
-- 
2.43.0


From 3209749c30ff3efc62a90444c808dc4091a29f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:40 +0000
Subject: [PATCH 24/38] fix: save as many bytes of from-variable events as they
 take

These events take three or four bytes, but four or six were written and
the variable ID was read from two bytes. The surplus bytes overlapped
the next event, or made the data longer if there was none.
---
 ndspy/soundSequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index dcfb9aa..dde9376 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -586,14 +586,14 @@ class FromVariableSequenceEvent(SequenceEvent):
 
     def save(self, eventsToOffsets=None):
         if self.dataLength == 3:
-            return super().save() + struct.pack('<Bh',
+            return super().save() + struct.pack('<Bb',
                                                 self.subType,
                                                 self.variableID)
         else:
             if self.unknown is None:
                 raise ValueError('FromVariableSequenceEvent: trying to'
                     ' save with unknown, but unknown is None!')
-            return super().save() + struct.pack('<Bbbxx',
+            return super().save() + struct.pack('<Bbb',
                                                 self.subType,
                                                 self.unknown,
                                                 self.variableID)
@@ -607,7 +607,7 @@ class FromVariableSequenceEvent(SequenceEvent):
                                                      startOffset + 2)
         else:
             unknown = None
-            variableID, = struct.unpack_from('<h', data, startOffset + 2)
+            variableID, = struct.unpack_from('<b', data, startOffset + 2)
         return cls(subType, variableID, unknown)
 
     def __str__(self):
-- 
2.43.0


From 57c342a95e235f8c34fc599135659ecab695563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:00 +0000
Subject: [PATCH 25/38] fix: compute the length of random events with 16-bit
 arguments

The random range replaces the whole last argument. For variable, tempo
and sweep pitch events one byte of the old argument was counted too, so
a stray zero byte followed them in the saved data.
---
 ndspy/soundSequence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index dde9376..752aa07 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -525,7 +525,11 @@ class RandomSequenceEvent(SequenceEvent):
         for i in range(5):
             try:
                 subEvent = _EVENT_TYPES[subType](0, *([0] * i))
-                return 4 + subEvent.dataLength
+                # The last argument is replaced, and it takes two bytes
+                # instead of one in some events
+                lastArgLen = 2 if (0xB0 <= subType <= 0xBD
+                                   or subType in (0xE1, 0xE3)) else 1
+                return 5 + subEvent.dataLength - lastArgLen
             except TypeError as e:
                 pass
         raise ValueError("Couldn't determine dataLength for"
-- 
2.43.0


From 9a561a863322d73690f90674e304b34cee55b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:00 +0000
Subject: [PATCH 26/38] fix: parse empty sequence data

Sequences and sequence archives without events could be saved, but
parsing them after loading raised EOFError.
---
 ndspy/soundSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 752aa07..6893d2c 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1381,7 +1381,7 @@ def readSequenceEvents(data, notableOffsets=None):
         raise EOFError('Reached EoF of sequence.')
 
     starts = notableOffsets
-    if not starts: starts = [0]
+    if not starts and data: starts = [0]
     for start in starts:
         ultimateFate = parse_at(start)
         assert ultimateFate in (FATE_EOT, FATE_LOOP), f'Starting point {hex(start)} results in fate {ultimateFate}'
-- 
2.43.0


From 9fc6bd24a0ea93b2467c03437bdb66e3d2e7d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:00 +0000
Subject: [PATCH 27/38] fix: save parsed sequence archives that have empty
 sequences

Parsing left the sequences without a first event marked as unparsed, so
saving the archive again raised ValueError.
---
 ndspy/soundSequenceArchive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/soundSequenceArchive.py b/ndspy/soundSequenceArchive.py
index e185713..9c2bfe1 100644
--- a/ndspy/soundSequenceArchive.py
+++ b/ndspy/soundSequenceArchive.py
@@ -167,6 +167,10 @@ class SSAR:
                 seq.parsed = True
                 seq.firstEvent = event
 
+        # Sequences without a first event are parsed now, too
+        for seqName, seq in self.sequences:
+            seq.parsed = True
+
 
     def save(self):
         """
-- 
2.43.0


From a0c16627b6eda26fba8f08ec477a85e164f5eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:50 +0000
Subject: [PATCH 28/38] fix: save sound archives with unnamed empty sequence
 archive slots

Looking for names inside sequence archives failed for slots that have
neither a name nor a sequence archive.
---
 ndspy/soundArchive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 54bb0b2..a5b25f5 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -400,6 +400,8 @@ class SDAT:
                     if symbol is not None:
                         anyActualSymbols = True
                         break
+                    if entry is None:
+                        continue
                     for subSymbol, subEntry in entry.sequences:
                         if subSymbol is not None:
                             anyActualSubsymbols = True
-- 
2.43.0


From 9ab1334626c95d7eb0103bf907c060e77a04f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:50 +0000
Subject: [PATCH 29/38] fix: do not take file lengths to include padding when
 the last one does not

An archive with a single unpadded file was loaded as if its file table
included padding. Saving it again could then give a length reaching
beyond the end of the archive.
---
 ndspy/soundArchive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index a5b25f5..3f6e2c7 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -189,6 +189,10 @@ class SDAT:
             file = data[fileOffset : fileOffset + fileSize]
             files.append(file)
 
+        # The last file's length also shows whether padding is included
+        if fatCount and fileSize % self.fileAlignment != 0:
+            self.fatLengthsIncludePadding = False
+
         if self.firstFileAlignment == self.fileAlignment:
             self.firstFileAlignment = None
 
-- 
2.43.0


From 2f623b44882c6cd18143fd78bd713511380a1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:47 +0000
Subject: [PATCH 30/38] fix: pass unk02 on when loading a SWAR from a file

---
 ndspy/soundWaveArchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundWaveArchive.py b/ndspy/soundWaveArchive.py
index 4c216f7..70d179c 100644
--- a/ndspy/soundWaveArchive.py
+++ b/ndspy/soundWaveArchive.py
@@ -101,7 +101,7 @@ class SWAR:
         Load a SWAR from a filesystem file.
         """
         with open(filePath, 'rb') as f:
-            return cls(f.read(), unk02=0)
+            return cls(f.read(), unk02)
 
 
     def save(self):
-- 
2.43.0


From ac7df8403ae2d6bcade3e1334686dc940b4b82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:47 +0000
Subject: [PATCH 31/38] fix: escape apostrophes in shortened printed forms of
 bytes

---
 ndspy/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index 2ed57f9..5ed1354 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -110,6 +110,9 @@ def shortBytesRepr(data, maxLen=None):
         # so we don't shorten if the following byte is an ASCII digit
         if b < 8 and (i == len(data) - 1 or data[i + 1] not in range(0x30, 0x3A)):
             r.append(f'\\{b}')
+        elif b == 0x27:
+            # repr() would switch to double quotes instead of escaping this
+            r.append("\\'")
         else:
             r.append(repr(b.to_bytes(1, 'big'))[2:-1])
     r.append("'")
-- 
2.43.0


From b514f8429467b25eed45d9323ac39d559b67cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:07 +0000
Subject: [PATCH 32/38] fix: allow SSEQMusic without SWARs, as documented

---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 2216cf9..eb8ac6f 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -656,7 +656,7 @@ class SSEQMusic:
         self.sseq = sseq
         self.sbnk = sbnk
         self.swars = swars
-        if not _common.isIterable(self.swars):
+        if self.swars is not None and not _common.isIterable(self.swars):
             raise TypeError('SWAR list is not iterable (did you'
                 ' accidentally pass a SWAR to the constructor instead'
                 ' of a list of SWARs?)')
-- 
2.43.0


From 5ccffe4f43151922a1e7e624d52ef8878df9bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:07 +0000
Subject: [PATCH 33/38] fix: number minified waves within their own SWAR

---
 ndspy/extras/music.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index eb8ac6f..ed39818 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -128,23 +128,25 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
+    newWaveIDs = {}
     for swarNum, swar in enumerate(swars):
         newWaves = []
         for (swarNum2, swavNum) in usedWaves:
             if swarNum != swarNum2: continue
+            newWaveIDs[(swarNum2, swavNum)] = len(newWaves)
             newWaves.append(swar.waves[swavNum])
         swar.waves = newWaves
 
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            inst.noteDefinition.waveID = usedWaves.index(
-                (inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            inst.noteDefinition.waveID = newWaveIDs[
+                (inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID)]
         elif isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
                 if (d.waveArchiveIDID, d.waveID) in usedWaves:
-                    d.waveID = usedWaves.index((d.waveArchiveIDID, d.waveID))
+                    d.waveID = newWaveIDs[(d.waveArchiveIDID, d.waveID)]
                     filteredDefinitions.append(d)
                 else:
                     filteredDefinitions.append(dummyDefinition)
@@ -153,8 +155,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
             filteredRegions = []
             for reg in inst.regions:
                 if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
-                    reg.noteDefinition.waveID = usedWaves.index(
-                        (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                    reg.noteDefinition.waveID = newWaveIDs[
+                        (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID)]
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
-- 
2.43.0


From ef13db55bdeffac14be2e83110571f104b96b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:07 +0000
Subject: [PATCH 34/38] fix: keep wave IDs when minifying without SWARs

---
 ndspy/extras/music.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index ed39818..ab4206f 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -128,8 +128,9 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
-    newWaveIDs = {}
-    for swarNum, swar in enumerate(swars):
+    # (if there are no SWARs to minify, the waves keep their IDs)
+    newWaveIDs = {(swarNum, swavNum): swavNum for swarNum, swavNum in usedWaves}
+    for swarNum, swar in enumerate(swars or []):
         newWaves = []
         for (swarNum2, swavNum) in usedWaves:
             if swarNum != swarNum2: continue
-- 
2.43.0


From 1b4e213a8fbcb31d6792d3031bd34e5ad4507216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:12 +0000
Subject: [PATCH 35/38] fix: leave square-wave and noise notes alone when
 minifying waves

---
 ndspy/extras/music.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index ab4206f..9809d40 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -102,14 +102,20 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     sbnk.inaccessibleInstruments.clear()
 
     # Remove unused entries in SWAR relative to SBNK
+    def usesWave(noteDefinition):
+        # Square-wave and noise notes don't involve any SWAVs
+        return noteDefinition.type == soundBank.NoteType.PCM
+
     usedWaves = set()
     for inst, notes in zip(sbnk.instruments, playedNotesPerInst):
         if isinstance(inst, soundBank.SingleNoteInstrument):
+            if not usesWave(inst.noteDefinition): continue
             usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
         elif isinstance(inst, soundBank.RangeInstrument):
             noteNum = inst.firstPitch - 1
             for d in inst.noteDefinitions:
                 noteNum += 1
+                if not usesWave(d): continue
                 if MINIFY_INSTRUMENTS and (noteNum not in notes):
                     continue
                 usedWaves.add((d.waveArchiveIDID, d.waveID))
@@ -124,7 +130,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                             break
                     else:
                         continue
-                usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                if usesWave(reg.noteDefinition):
+                    usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
                 low = reg.lastPitch + 1
     usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
 
@@ -140,13 +147,16 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
 
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
+            if not usesWave(inst.noteDefinition): continue
             inst.noteDefinition.waveID = newWaveIDs[
                 (inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID)]
         elif isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
-                if (d.waveArchiveIDID, d.waveID) in usedWaves:
+                if not usesWave(d):
+                    filteredDefinitions.append(d)
+                elif (d.waveArchiveIDID, d.waveID) in usedWaves:
                     d.waveID = newWaveIDs[(d.waveArchiveIDID, d.waveID)]
                     filteredDefinitions.append(d)
                 else:
@@ -155,7 +165,9 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         elif isinstance(inst, soundBank.RegionalInstrument):
             filteredRegions = []
             for reg in inst.regions:
-                if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
+                if not usesWave(reg.noteDefinition):
+                    filteredRegions.append(reg)
+                elif (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
                     reg.noteDefinition.waveID = newWaveIDs[
                         (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID)]
                     filteredRegions.append(
-- 
2.43.0


From 71c018c4391567e3085322401db5114f73edd7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:42 +0000
Subject: [PATCH 36/38] fix: save songs that have a track without events

SSEQMusic.save() failed on a song whose only track has no events. An
empty track 0 got no end event, so it went on with the events of the
next track.
---
 ndspy/extras/music.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 9809d40..adacd06 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -434,6 +434,17 @@ class SSEQMusic:
                     self.events.pop()
 
 
+        @property
+        def _endsItself(self):
+            """
+            Whether the track's last event keeps it from running into
+            whatever follows.
+            """
+            return bool(self.events) and isinstance(self.events[-1],
+                (soundSequence.EndTrackSequenceEvent,
+                 soundSequence.JumpSequenceEvent))
+
+
         @property
         def looped(self):
             return any(isinstance(e, soundSequence.JumpSequenceEvent)
@@ -789,10 +800,7 @@ class SSEQMusic:
             # There's only one track and it's track 0. Don't bother
             # defining tracks and stuff.
             self.sseq.events = list(self.tracks[0].events)
-            if not (isinstance(self.sseq.events[-1],
-                               soundSequence.EndTrackSequenceEvent)
-                    or isinstance(self.sseq.events[-1],
-                                  soundSequence.JumpSequenceEvent)):
+            if not self.tracks[0]._endsItself:
                 self.sseq.events.append(soundSequence.EndTrackSequenceEvent())
 
         else:
@@ -804,8 +812,9 @@ class SSEQMusic:
 
             for trackNum in sorted(self.tracks):
                 track = self.tracks[trackNum]
-                if not track.events:
-                    # Um.
+                if not track.events and trackNum != 0:
+                    # Um. (Track 0 still needs an end, though, or it'd
+                    # continue with the events of the next track)
                     continue
 
                 if trackNum != 0:
@@ -813,10 +822,7 @@ class SSEQMusic:
                         soundSequence.BeginTrackSequenceEvent(
                             trackNum, track.events[0]))
                 contents.extend(track.events)
-                if not (isinstance(contents[-1],
-                                   soundSequence.EndTrackSequenceEvent)
-                        or isinstance(contents[-1],
-                                      soundSequence.JumpSequenceEvent)):
+                if not track._endsItself:
                     contents.append(soundSequence.EndTrackSequenceEvent())
 
             self.sseq.events = beginning + contents
-- 
2.43.0


From bbda303ff055ca6841b2fbf1fd48d7795ed5cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:06 +0000
Subject: [PATCH 37/38] fix: end saved tracks whose last event might be skipped

A jump or end of track directly behind an "if" event does not end the
track. SSEQMusic.save() left out the end event behind it, so the track
went on with whatever follows.
---
 ndspy/extras/music.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index adacd06..9eb8316 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -440,7 +440,13 @@ class SSEQMusic:
             Whether the track's last event keeps it from running into
             whatever follows.
             """
-            return bool(self.events) and isinstance(self.events[-1],
+            if not self.events: return False
+            if (len(self.events) > 1
+                    and isinstance(self.events[-2],
+                                   soundSequence.IfSequenceEvent)):
+                # The last event might be skipped
+                return False
+            return isinstance(self.events[-1],
                 (soundSequence.EndTrackSequenceEvent,
                  soundSequence.JumpSequenceEvent))
 
-- 
2.43.0


From ff20ab0db6b604a8dcede4edb05d3ba3b10e28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:19 +0000
Subject: [PATCH 38/38] fix: only look for code settings where they fit in the
 code file

---
 ndspy/code.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 45e568d..3da0073 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -276,7 +276,7 @@ class MainCodeFile:
         """
 
         # Simple heuristic that works in most arm9.bin's:
-        for i in range(0, 0x8000, 4):
+        for i in range(0x1C, 0x8000, 4):
             if data[i:i+8] == b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21':
                 return i - 0x1C
 
@@ -287,9 +287,11 @@ class MainCodeFile:
         # right now.
         expectedTableEnd = self.ramAddress + len(data)
         expectedTableEndBytes = struct.pack('<I', expectedTableEnd)
+        # (The code settings are six words, of which this is the second.)
+        searchEnd = max(0, len(data) - 0x10)
         if expectedTableEndBytes in data:
             try:
-                match = data.index(expectedTableEndBytes, 0)
+                match = data.index(expectedTableEndBytes, 4, searchEnd)
             except ValueError:
                 match = None
             while match is not None:
@@ -300,7 +302,7 @@ class MainCodeFile:
                     # Probably a match
                     return match - 4
                 try:
-                    match = data.index(expectedTableEndBytes, match + 1)
+                    match = data.index(expectedTableEndBytes, match + 1, searchEnd)
                 except ValueError:
                     match = None
 
-- 
2.43.0

