From c1a21d746d55239b53246796343b3da844ad0e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 01/83] fix: ParseEOT decrypted the font in the caller's buffer

---
 eot.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eot.go b/eot.go
index 0b4e65f..0372eec 100644
--- a/eot.go
+++ b/eot.go
@@ -73,6 +73,8 @@ func ParseEOT(b []byte) ([]byte, error) {
 	isXORed := (flags & 0x10000000) != 0
 
 	if isXORed {
+		// fontData is part of the input, don't write to it
+		fontData = append([]byte(nil), fontData...)
 		for i := 0; i < len(fontData); i++ {
 			fontData[i] ^= 0x50
 		}
-- 
2.43.0


From f9f7c2703cc016a09f8834bf0c7c48bc0a14bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 02/83] fix: ParseWOFF zeroed the head checksum in the caller's
 buffer

---
 woff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff.go b/woff.go
index 865f3a8..eeabb07 100644
--- a/woff.go
+++ b/woff.go
@@ -198,6 +198,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
+			data = append([]byte(nil), data...) // data may be part of the input, don't write to it
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
 		if calcChecksum(data) != table.origChecksum {
-- 
2.43.0


From b79fad7f6322f2818d05360305f67f6440bfe7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 03/83] fix: FromGoFreetype wrote padding and checksum to the
 tables of the original font

---
 font.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/font.go b/font.go
index 8d5bd1f..52598e3 100644
--- a/font.go
+++ b/font.go
@@ -166,14 +166,16 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	for _, tag := range tags {
 		length := uint32(len(tables[tag]))
 		padding := (4 - length&3) & 3
+		table := append([]byte(nil), tables[tag]...) // don't write to the original font
 		for j := 0; j < int(padding); j++ {
-			tables[tag] = append(tables[tag], 0x00)
+			table = append(table, 0x00)
 		}
 		if tag == "head" {
 			checksumAdjustmentPos = offset + 8
-			binary.BigEndian.PutUint32(tables[tag][8:], 0x00000000)
+			binary.BigEndian.PutUint32(table[8:], 0x00000000)
 		}
-		checksum := calcChecksum(tables[tag])
+		tables[tag] = table
+		checksum := calcChecksum(table)
 
 		w.WriteString(tag)
 		w.WriteUint32(checksum)
-- 
2.43.0


From be39b8585a929ff1a1762f3f4e110f423a77df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 04/83] fix: Merge patched head, hhea and OS/2 in the buffer
 the font was parsed from

---
 sfnt_merge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..223cd37 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -102,7 +102,9 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				w.WriteBytes(loca)
 				glyphID = int(origNumGlyphs)
 			} else if table, ok := sfnt.Tables["head"]; ok {
+				table = append([]byte(nil), table...) // may be part of the input, don't write to it
 				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
+				sfnt.Tables["head"] = table
 				sfnt.Head.IndexToLocFormat = indexToLocFormat
 			}
 
@@ -303,7 +305,9 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["hmtx"] = w.Bytes()
 
 		if table, ok := sfnt.Tables["hhea"]; ok {
+			table = append([]byte(nil), table...)                    // may be part of the input, don't write to it
 			binary.BigEndian.PutUint16(table[34:], numberOfHMetrics) // numberOfHMetrics
+			sfnt.Tables["hhea"] = table
 			sfnt.Hhea.NumberOfHMetrics = numberOfHMetrics
 		}
 	}
@@ -359,10 +363,12 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
 		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
 		sfnt.OS2.UlUnicodeRange4 |= sfnt2.OS2.UlUnicodeRange4
+		table = append([]byte(nil), table...) // may be part of the input, don't write to it
 		binary.BigEndian.PutUint32(table[42:], sfnt.OS2.UlUnicodeRange1)
 		binary.BigEndian.PutUint32(table[46:], sfnt.OS2.UlUnicodeRange2)
 		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
+		sfnt.Tables["OS/2"] = table
 	}
 
 	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-- 
2.43.0


From 426ca19d4ee32a761e45837fa59f8b171422026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 05/83] fix: Subset changed the Unicode ranges of the original
 font

---
 sfnt_subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..92876ad 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -443,7 +443,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From 7e2276263fde961bc510d600b7f512c00ae2c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 06/83] fix: Subset could append to the caller's list of glyph
 IDs

---
 sfnt_subset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 92876ad..8f3e21a 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	// don't write to the caller's list when adding dependencies
+	glyphIDs = append([]uint16(nil), glyphIDs...)
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
-- 
2.43.0


From eb8dd5ea42d91c5dfca8d89905e6e3aaaef21f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 07/83] fix: Subset sorted the caller's list of tables

---
 sfnt_subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 8f3e21a..aafdfaf 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -97,7 +97,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			tags = append(tags, tag)
 		}
 	} else {
-		tags = options.Tables
+		tags = append(tags, options.Tables...) // copy as it is sorted below
 	}
 	sort.Strings(tags) // so that glyf is before loca
 
-- 
2.43.0


From 41f3c1d7983dd0234dbc1cce01efdd6231fa1edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 08/83] fix: Merge changed the CFF subroutines of the other
 font

---
 sfnt_cff.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..0d87894 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1196,8 +1196,9 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	if o == nil || len(o.offset) < 2 {
 		return
 	} else if len(t.offset) < 2 {
-		t.offset = o.offset
-		t.data = o.data
+		// copy as the contents are updated in-place by updateSubrs
+		t.offset = append([]uint32(nil), o.offset...)
+		t.data = append([]byte(nil), o.data...)
 		return
 	}
 
-- 
2.43.0


From a878089fc158160abe42cc600ee019dd9012a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 09/83] fix: SystemFonts.Match could write to the shared list
 of generic fonts

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index e329acf..90eaf1e 100644
--- a/system.go
+++ b/system.go
@@ -325,7 +325,7 @@ func (s *SystemFonts) Match(name string, style Style) (FontMetadata, bool) {
 	for i := 0; i < len(families); i++ {
 		families[i] = strings.TrimSpace(families[i])
 		if names, ok := s.Generics[families[i]]; ok {
-			families = append(families[:i], append(names, families[i+1:]...)...)
+			families = append(families[:i], append(append([]string(nil), names...), families[i+1:]...)...)
 			i += len(names) - 1
 		}
 	}
-- 
2.43.0


From 565c1994d4bab382445a8058f504122beaa4cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 10/83] fix: merging into a CFF subset changed the subroutines
 of the font it was taken from

---
 sfnt_merge.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 223cd37..40050a0 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -163,7 +163,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
 		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
 		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
-			localSubrs = sfnt.CFF.fonts.localSubrs[0]
+			localSubrs = sfnt.CFF.fonts.localSubrs[0].Copy() // may be shared with the font this font is a subset of
 			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
 		}
 		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
@@ -171,7 +171,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
 		}
 		if 0 < sfnt.CFF.globalSubrs.Len() {
-			globalSubrs = sfnt.CFF.globalSubrs
+			globalSubrs = sfnt.CFF.globalSubrs.Copy()
 			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
 		}
 		if 0 < sfnt2.CFF.globalSubrs.Len() {
@@ -242,7 +242,9 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		// merge charStrings
 		sfnt.CFF.charStrings.Extend(cff2.charStrings)
 		sfnt.CFF.globalSubrs = globalSubrs
-		sfnt.CFF.fonts.localSubrs = []*cffINDEX{localSubrs}
+		fonts := *sfnt.CFF.fonts // may be shared, don't write to it
+		fonts.localSubrs = []*cffINDEX{localSubrs}
+		sfnt.CFF.fonts = &fonts
 
 		// update charset
 		if sfnt2.CFF.charset != nil {
-- 
2.43.0


From 597882cf96561c40f99ea8933a77ac5b8df9efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 11/83] fix: SetGlyphNames kept a reference to the caller's
 list of names

---
 sfnt_subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index aafdfaf..cc249c0 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -503,7 +503,7 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 			return nil
 		}
 
-		sfnt.CFF.charset = names
+		sfnt.CFF.charset = append([]string(nil), names...)
 		b, err := sfnt.CFF.Write()
 		if err != nil {
 			return err
-- 
2.43.0


From 6e2cd381877ba2dd5a448a8a29e02105dd73bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 12/83] fix: some CFF DICT operators refused real operands

The two-byte operators were off by one in the list of operators that allow a
real operand, so that UnderlineThickness, StemSnapV, ExpansionFactor and
BaseFontBlend with a fraction ended up without operator in the written DICT.
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 0d87894..19e8bf8 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1887,7 +1887,7 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 	}
 
 	allowFloat := false
-	if 5 <= op && op <= 11 || op == 20 || op == 21 || 255+2 <= op && op <= 255+4 || 255+7 <= op && op <= 255+13 || op == 255+18 || op == 255+23 {
+	if 5 <= op && op <= 11 || op == 20 || op == 21 || 256+2 <= op && op <= 256+4 || 256+7 <= op && op <= 256+13 || op == 256+18 || op == 256+23 {
 		// strictly most operators allow a number and thus an integer or real operand but in
 		// practice these are offsets (and thus integers) and some parsers expect them to be
 		// integers (even though a float may be shorter for e.g. 32790 (3 bytes) instead of
-- 
2.43.0


From fdcb93b6ac7059a03d3f418292d8a1541de074f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 13/83] fix: ForceBold was dropped from the written CFF Private
 DICT

writeDICTEntry does not know booleans.
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 19e8bf8..66d366c 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1671,7 +1671,7 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 		writeDICTEntry(w, 256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, t.ForceBold)
+		writeDICTEntry(w, 256+14, 1)
 	}
 	if t.LanguageGroup != 0 {
 		writeDICTEntry(w, 256+17, t.LanguageGroup)
-- 
2.43.0


From 97a962684ccbdafd269b2df9abe08e5ce9ff5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 14/83] fix: errors of writing CFF DICT entries were ignored

The entry was left out or written in part and an invalid DICT returned.
---
 sfnt_cff.go | 164 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 123 insertions(+), 41 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 66d366c..0c45113 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1449,55 +1449,87 @@ func (t *cffTopDICT) Write(strings *cffINDEX) ([]byte, error) {
 	// TODO: some values have no default and may need to be written always
 	w := parse.NewBinaryWriter([]byte{})
 	if t.Version != "" {
-		writeDICTEntry(w, 0, strings.AddSID([]byte(t.Version)))
+		if err := writeDICTEntry(w, 0, strings.AddSID([]byte(t.Version))); err != nil {
+			return nil, err
+		}
 	}
 	if t.Notice != "" {
-		writeDICTEntry(w, 1, strings.AddSID([]byte(t.Notice)))
+		if err := writeDICTEntry(w, 1, strings.AddSID([]byte(t.Notice))); err != nil {
+			return nil, err
+		}
 	}
 	if t.Copyright != "" {
-		writeDICTEntry(w, 256+0, strings.AddSID([]byte(t.Copyright)))
+		if err := writeDICTEntry(w, 256+0, strings.AddSID([]byte(t.Copyright))); err != nil {
+			return nil, err
+		}
 	}
 	if t.FullName != "" {
-		writeDICTEntry(w, 2, strings.AddSID([]byte(t.FullName)))
+		if err := writeDICTEntry(w, 2, strings.AddSID([]byte(t.FullName))); err != nil {
+			return nil, err
+		}
 	}
 	if t.FamilyName != "" {
-		writeDICTEntry(w, 3, strings.AddSID([]byte(t.FamilyName)))
+		if err := writeDICTEntry(w, 3, strings.AddSID([]byte(t.FamilyName))); err != nil {
+			return nil, err
+		}
 	}
 	if t.Weight != "" {
-		writeDICTEntry(w, 4, strings.AddSID([]byte(t.Weight)))
+		if err := writeDICTEntry(w, 4, strings.AddSID([]byte(t.Weight))); err != nil {
+			return nil, err
+		}
 	}
 	if t.IsFixedPitch {
-		writeDICTEntry(w, 256+1, 1)
+		if err := writeDICTEntry(w, 256+1, 1); err != nil {
+			return nil, err
+		}
 	}
 	if t.ItalicAngle != 0.0 {
-		writeDICTEntry(w, 256+2, t.ItalicAngle)
+		if err := writeDICTEntry(w, 256+2, t.ItalicAngle); err != nil {
+			return nil, err
+		}
 	}
 	if t.UnderlinePosition != -100.0 {
-		writeDICTEntry(w, 256+3, t.UnderlinePosition)
+		if err := writeDICTEntry(w, 256+3, t.UnderlinePosition); err != nil {
+			return nil, err
+		}
 	}
 	if t.UnderlineThickness != 50.0 {
-		writeDICTEntry(w, 256+4, t.UnderlineThickness)
+		if err := writeDICTEntry(w, 256+4, t.UnderlineThickness); err != nil {
+			return nil, err
+		}
 	}
 	if t.PaintType != 0 {
-		writeDICTEntry(w, 256+5, t.PaintType)
+		if err := writeDICTEntry(w, 256+5, t.PaintType); err != nil {
+			return nil, err
+		}
 	}
 	if t.CharstringType != 2 {
 		return nil, fmt.Errorf("CharstringType must be 2")
 	}
 	if t.FontMatrix != [6]float64{0.001, 0, 0, 0.001, 0, 0} {
-		writeDICTEntry(w, 256+7, t.FontMatrix[0], t.FontMatrix[1], t.FontMatrix[2], t.FontMatrix[3], t.FontMatrix[4], t.FontMatrix[5])
+		if err := writeDICTEntry(w, 256+7, t.FontMatrix[0], t.FontMatrix[1], t.FontMatrix[2], t.FontMatrix[3], t.FontMatrix[4], t.FontMatrix[5]); err != nil {
+			return nil, err
+		}
 	}
 	if t.UniqueID != 0 {
-		writeDICTEntry(w, 13, t.UniqueID)
+		if err := writeDICTEntry(w, 13, t.UniqueID); err != nil {
+			return nil, err
+		}
 	}
 	if t.FontBBox != [4]float64{0, 0, 0, 0} {
-		writeDICTEntry(w, 5, t.FontBBox[0], t.FontBBox[1], t.FontBBox[2], t.FontBBox[3])
+		if err := writeDICTEntry(w, 5, t.FontBBox[0], t.FontBBox[1], t.FontBBox[2], t.FontBBox[3]); err != nil {
+			return nil, err
+		}
 	}
 	if t.StrokeWidth != 0.0 {
-		writeDICTEntry(w, 256+8, t.StrokeWidth)
+		if err := writeDICTEntry(w, 256+8, t.StrokeWidth); err != nil {
+			return nil, err
+		}
 	}
 	if 0 < len(t.XUID) {
-		writeDICTEntry(w, 14, t.XUID)
+		if err := writeDICTEntry(w, 14, t.XUID); err != nil {
+			return nil, err
+		}
 	}
 	// not supported
 	//if t.Charset != 0 {
@@ -1514,16 +1546,24 @@ func (t *cffTopDICT) Write(strings *cffINDEX) ([]byte, error) {
 	//	writeDICTEntry(w, 18, t.Private)
 	//}
 	if t.SyntheticBase != 0 {
-		writeDICTEntry(w, 256+20, t.SyntheticBase)
+		if err := writeDICTEntry(w, 256+20, t.SyntheticBase); err != nil {
+			return nil, err
+		}
 	}
 	if t.PostScript != "" {
-		writeDICTEntry(w, 256+21, strings.AddSID([]byte(t.PostScript)))
+		if err := writeDICTEntry(w, 256+21, strings.AddSID([]byte(t.PostScript))); err != nil {
+			return nil, err
+		}
 	}
 	if t.BaseFontName != "" {
-		writeDICTEntry(w, 256+22, strings.AddSID([]byte(t.BaseFontName)))
+		if err := writeDICTEntry(w, 256+22, strings.AddSID([]byte(t.BaseFontName))); err != nil {
+			return nil, err
+		}
 	}
 	if 0 < len(t.BaseFontBlend) {
-		writeDICTEntry(w, 256+23, t.BaseFontBlend)
+		if err := writeDICTEntry(w, 256+23, t.BaseFontBlend); err != nil {
+			return nil, err
+		}
 	}
 	return w.Bytes(), nil
 }
@@ -1638,58 +1678,92 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 	// TODO: some values have no default and may need to be written always
 	w := parse.NewBinaryWriter([]byte{})
 	if 0 < len(t.BlueValues) {
-		writeDICTEntry(w, 6, t.BlueValues)
+		if err := writeDICTEntry(w, 6, t.BlueValues); err != nil {
+			return nil, err
+		}
 	}
 	if 0 < len(t.OtherBlues) {
-		writeDICTEntry(w, 7, t.OtherBlues)
+		if err := writeDICTEntry(w, 7, t.OtherBlues); err != nil {
+			return nil, err
+		}
 	}
 	if 0 < len(t.FamilyBlues) {
-		writeDICTEntry(w, 8, t.FamilyBlues)
+		if err := writeDICTEntry(w, 8, t.FamilyBlues); err != nil {
+			return nil, err
+		}
 	}
 	if 0 < len(t.FamilyOtherBlues) {
-		writeDICTEntry(w, 9, t.FamilyOtherBlues)
+		if err := writeDICTEntry(w, 9, t.FamilyOtherBlues); err != nil {
+			return nil, err
+		}
 	}
 	if t.BlueScale != 0.039625 {
-		writeDICTEntry(w, 256+9, t.BlueScale)
+		if err := writeDICTEntry(w, 256+9, t.BlueScale); err != nil {
+			return nil, err
+		}
 	}
 	if t.BlueShift != 7.0 {
-		writeDICTEntry(w, 256+10, t.BlueShift)
+		if err := writeDICTEntry(w, 256+10, t.BlueShift); err != nil {
+			return nil, err
+		}
 	}
 	if t.BlueFuzz != 1.0 {
-		writeDICTEntry(w, 256+11, t.BlueFuzz)
+		if err := writeDICTEntry(w, 256+11, t.BlueFuzz); err != nil {
+			return nil, err
+		}
 	}
 	if t.StdHW != 0.0 {
-		writeDICTEntry(w, 10, t.StdHW)
+		if err := writeDICTEntry(w, 10, t.StdHW); err != nil {
+			return nil, err
+		}
 	}
 	if t.StdVW != 0.0 {
-		writeDICTEntry(w, 11, t.StdVW)
+		if err := writeDICTEntry(w, 11, t.StdVW); err != nil {
+			return nil, err
+		}
 	}
 	if len(t.StemSnapH) != 0 {
-		writeDICTEntry(w, 256+12, t.StemSnapH)
+		if err := writeDICTEntry(w, 256+12, t.StemSnapH); err != nil {
+			return nil, err
+		}
 	}
 	if len(t.StemSnapV) != 0 {
-		writeDICTEntry(w, 256+13, t.StemSnapV)
+		if err := writeDICTEntry(w, 256+13, t.StemSnapV); err != nil {
+			return nil, err
+		}
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, 1)
+		if err := writeDICTEntry(w, 256+14, 1); err != nil {
+			return nil, err
+		}
 	}
 	if t.LanguageGroup != 0 {
-		writeDICTEntry(w, 256+17, t.LanguageGroup)
+		if err := writeDICTEntry(w, 256+17, t.LanguageGroup); err != nil {
+			return nil, err
+		}
 	}
 	if t.ExpansionFactor != 0.06 {
-		writeDICTEntry(w, 256+18, t.ExpansionFactor)
+		if err := writeDICTEntry(w, 256+18, t.ExpansionFactor); err != nil {
+			return nil, err
+		}
 	}
 	if t.InitialRandomSeed != 0 {
-		writeDICTEntry(w, 256+19, t.InitialRandomSeed)
+		if err := writeDICTEntry(w, 256+19, t.InitialRandomSeed); err != nil {
+			return nil, err
+		}
 	}
 	//if t.Subrs != 0 {
 	//	return nil, fmt.Errorf("Local Subrs not supported")
 	//}
 	if t.DefaultWidthX != 0 {
-		writeDICTEntry(w, 20, t.DefaultWidthX)
+		if err := writeDICTEntry(w, 20, t.DefaultWidthX); err != nil {
+			return nil, err
+		}
 	}
 	if t.NominalWidthX != 0 {
-		writeDICTEntry(w, 21, t.NominalWidthX)
+		if err := writeDICTEntry(w, 21, t.NominalWidthX); err != nil {
+			return nil, err
+		}
 	}
 	return w.Bytes(), nil
 }
@@ -2230,7 +2304,9 @@ func (cff *cffTable) Write() ([]byte, error) {
 			localSubrsOffset = len(privateDICT) + 1                  // key
 			localSubrsOffset += cffDICTIntegerSize(localSubrsOffset) // val
 			wPrivate := parse.NewBinaryWriter(privateDICT)
-			writeDICTEntry(wPrivate, 19, localSubrsOffset)
+			if err := writeDICTEntry(wPrivate, 19, localSubrsOffset); err != nil {
+				return nil, fmt.Errorf("Private DICT: %v", err)
+			}
 			privateDICT = wPrivate.Bytes()
 		}
 	}
@@ -2290,11 +2366,17 @@ func (cff *cffTable) Write() ([]byte, error) {
 	// write offsets to Top DICT
 	wTop := parse.NewBinaryWriter(topDICT)
 	if charset != nil {
-		writeDICTEntry(wTop, 15, charsetOffset)
+		if err := writeDICTEntry(wTop, 15, charsetOffset); err != nil {
+			return nil, fmt.Errorf("Top DICT: %v", err)
+		}
+	}
+	if err := writeDICTEntry(wTop, 17, charStringsOffset); err != nil {
+		return nil, fmt.Errorf("Top DICT: %v", err)
 	}
-	writeDICTEntry(wTop, 17, charStringsOffset)
 	if privateDICT != nil {
-		writeDICTEntry(wTop, 18, len(privateDICT), privateOffset)
+		if err := writeDICTEntry(wTop, 18, len(privateDICT), privateOffset); err != nil {
+			return nil, fmt.Errorf("Top DICT: %v", err)
+		}
 	}
 	topDICT = wTop.Bytes()
 
-- 
2.43.0


From 2c83a1a366ad1ee7493845e6d5a6ba45c620c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:22 +0000
Subject: [PATCH 15/83] fix: ParseAFM ignored errors in the kerning data

---
 afm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index e6dff80..2d01cfa 100644
--- a/afm.go
+++ b/afm.go
@@ -235,13 +235,19 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 		switch string(key) {
 		case "StartTrackKern":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseTrackKern(scanner, j, n)
+			if err := afm.parseTrackKern(scanner, j, n); err != nil {
+				return err
+			}
 		case "StartKernPairs", "StartKernPairs0":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 0)
+			if err := afm.parseKernPairs(scanner, j, n, 0); err != nil {
+				return err
+			}
 		case "StartKernPairs1":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 1)
+			if err := afm.parseKernPairs(scanner, j, n, 1); err != nil {
+				return err
+			}
 		case "EndKernData":
 			return nil
 		}
-- 
2.43.0


From 4ae76c584cf6f485de4ff6aa3087cf93c172d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 16/83] fix: offsets outside of the data were ignored

The table at that offset was then read from whatever position the reader was
at, giving glyphs, names or side bearings of unrelated data without an error.
---
 sfnt.go     |  4 +++-
 sfnt_cff.go | 27 ++++++++++++++-------------
 woff2.go    |  4 +++-
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index f187967..a9dd671 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -311,7 +311,9 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 			return nil, ErrInvalidFontData
 		}
 
-		r.Seek(int64(offset), 0)
+		if _, err := r.Seek(int64(offset), 0); err != nil {
+			return nil, ErrInvalidFontData
+		}
 		sfntVersion = r.ReadString(4)
 	} else if index != 0 {
 		return nil, fmt.Errorf("bad font index %d", index)
diff --git a/sfnt_cff.go b/sfnt_cff.go
index 0c45113..197bf2a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -96,7 +96,9 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: Global Subrs INDEX: %w", err)
 	}
 
-	r.Seek(int64(topDICT.CharStrings), 0)
+	if _, err := r.Seek(int64(topDICT.CharStrings), 0); err != nil {
+		return fmt.Errorf("CFF: bad CharStrings INDEX offset")
+	}
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return fmt.Errorf("CFF: CharStrings INDEX: %w", err)
@@ -111,8 +113,7 @@ func (sfnt *SFNT) parseCFF() error {
 		charset = make([]string, charStringsINDEX.Len())
 		copy(charset, cffStandardStrings)
 	} else if 1 < charStringsINDEX.Len() {
-		r.Seek(int64(topDICT.Charset), 0)
-		if r.Len() == 0 {
+		if _, err := r.Seek(int64(topDICT.Charset), 0); err != nil || r.Len() == 0 {
 			return fmt.Errorf("CFF: bad Charset")
 		}
 
@@ -176,10 +177,9 @@ func (sfnt *SFNT) parseCFF() error {
 
 		localSubrsINDEX := &cffINDEX{}
 		if privateDICT.Subrs != 0 {
-			if len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
+			if _, err := r.Seek(int64(topDICT.PrivateOffset)+int64(privateDICT.Subrs), 0); err != nil {
 				return fmt.Errorf("CFF: bad Local Subrs INDEX offset")
 			}
-			r.Seek(int64(topDICT.PrivateOffset+privateDICT.Subrs), 0)
 			localSubrsINDEX, err = parseINDEX(r, false)
 			if err != nil {
 				return fmt.Errorf("CFF: Local Subrs INDEX: %w", err)
@@ -232,7 +232,9 @@ func (sfnt *SFNT) parseCFF2() error {
 		return fmt.Errorf("CFF2: Global Subrs INDEX: %w", err)
 	}
 
-	r.Seek(int64(topDICT.CharStrings), 0)
+	if _, err := r.Seek(int64(topDICT.CharStrings), 0); err != nil {
+		return fmt.Errorf("CFF2: bad CharStrings INDEX offset")
+	}
 	charStringsINDEX, err := parseINDEX(r, true)
 	if err != nil {
 		return fmt.Errorf("CFF2: CharStrings INDEX: %w", err)
@@ -2089,12 +2091,10 @@ func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 }
 
 func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
-	if len(b) < fdArray {
+	r := parse.NewBinaryReaderBytes(b)
+	if _, err := r.Seek(int64(fdArray), 0); err != nil {
 		return nil, fmt.Errorf("bad Font INDEX offset")
 	}
-
-	r := parse.NewBinaryReaderBytes(b)
-	r.Seek(int64(fdArray), 0)
 	fontINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return nil, fmt.Errorf("Font INDEX: %w", err)
@@ -2118,10 +2118,9 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		fonts.private[i] = privateDICT
 
 		if privateDICT.Subrs != 0 {
-			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
+			if _, err := r.Seek(int64(fontDICT.PrivateOffset)+int64(privateDICT.Subrs), 0); err != nil {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
-			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
 			fonts.localSubrs[i], err = parseINDEX(r, isCFF2)
 			if err != nil {
 				return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
@@ -2131,7 +2130,9 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		}
 	}
 
-	r.Seek(int64(fdSelect), 0)
+	if _, err := r.Seek(int64(fdSelect), 0); err != nil {
+		return nil, fmt.Errorf("bad FDSelect offset")
+	}
 	format := r.ReadUint8()
 	if format == 0 {
 		fonts.fds = make([]uint8, nGlyphs)
diff --git a/woff2.go b/woff2.go
index 2bf4e17..426dfff 100644
--- a/woff2.go
+++ b/woff2.go
@@ -722,7 +722,9 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 		if offsetNext == offset {
 			lsbs[iGlyph] = 0
 		} else {
-			rGlyf.Seek(int64(offset), 0)
+			if _, err := rGlyf.Seek(int64(offset), 0); err != nil {
+				return nil, ErrInvalidFontData
+			}
 			_ = rGlyf.ReadInt16() // numContours
 			xMin := rGlyf.ReadInt16()
 			if rGlyf.Err() == io.EOF {
-- 
2.43.0


From 2f476acafaa21a22d4b93971624aea2603f4a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 17/83] fix: size of -32768 in CFF data

It is written in three bytes and not in five.
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 197bf2a..4ef839d 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -843,7 +843,7 @@ func cffNumberSize(i int) int {
 		return 1
 	} else if -1131 <= i && i <= -108 || 108 <= i && i <= 1131 {
 		return 2
-	} else if -32767 <= i && i <= 32767 {
+	} else if -32768 <= i && i <= 32767 {
 		return 3
 	}
 	return 5
-- 
2.43.0


From 382fa7762a555ba5789b42191d538b97b1d514a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 18/83] fix: CFF INDEX with three-byte offsets was written with
 wrong offsets

The middle byte was cleared, and the format was also used for data that needs
four-byte offsets.
---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4ef839d..d0ad2e0 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1266,7 +1266,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1297,7 +1297,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
-- 
2.43.0


From 372abf40644f545b0954e19b89908d58802dadd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 19/83] fix: second use of a CFF string was written as a
 standard string

AddSID returned the index into the String INDEX without the number of standard
strings for strings that were already added.
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index d0ad2e0..a306345 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1187,7 +1187,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
-- 
2.43.0


From 2d0be251560a8fc8798971a6e05493f50589de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:05 +0000
Subject: [PATCH 20/83] fix: CFF subroutine calls were not updated when only
 the bias changed

A subroutine that kept its index while the number of subroutines crossed one of
the bias limits was called with the old bias.
---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index a306345..9bd00fd 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -918,7 +918,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					}
 				}
 
-				if skipDepth == 0 && mapped && oldIndex != newIndex {
+				if skipDepth == 0 && mapped && oldIndex-oldBias != newIndex-newBias {
 					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
 					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
 
-- 
2.43.0


From ff8dd77196aa9576deaf262d2d0c7b785ce32764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:47 +0000
Subject: [PATCH 21/83] fix: CFF Local Subrs offset was off at the limits of
 the integer sizes

The size of the offset itself can push it to the next size.
---
 sfnt_cff.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 9bd00fd..9fbd885 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2302,8 +2302,10 @@ func (cff *cffTable) Write() ([]byte, error) {
 			}
 
 			// write offset to Private DICT
-			localSubrsOffset = len(privateDICT) + 1                  // key
-			localSubrsOffset += cffDICTIntegerSize(localSubrsOffset) // val
+			localSubrsOffset = len(privateDICT) + 1 // key
+			lenOffset := cffDICTIntegerSize(localSubrsOffset)
+			lenOffset = cffDICTIntegerSize(localSubrsOffset + lenOffset) // may be larger by its own size
+			localSubrsOffset += lenOffset                                // val
 			wPrivate := parse.NewBinaryWriter(privateDICT)
 			if err := writeDICTEntry(wPrivate, 19, localSubrsOffset); err != nil {
 				return nil, fmt.Errorf("Private DICT: %v", err)
-- 
2.43.0


From 7bd0a38ef744ee2f97c436aa9b47376a2a447b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:53 +0000
Subject: [PATCH 22/83] fix: offsets in the CFF Top DICT were off when its size
 crosses a limit

The Top DICT INDEX has two offsets that grow when the dictionary reaches 255
bytes, and the size of each offset depends on the full correction.
---
 sfnt_cff.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 9fbd885..f772717 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2325,7 +2325,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if privateDICT != nil {
 		lenTopDICT += 1 + cffDICTIntegerSize(len(privateDICT)) // key and size
 	}
-	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT)
+	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT + 1)
 	lenTopDICTINDEX := 3 + 2*lenTopDICTINDEXOffSize + lenTopDICT
 
 	offset := int(w.Len()) + lenTopDICTINDEX + len(stringINDEX) // no overflow
@@ -2354,13 +2354,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 		prevCorrect = correct
 		correct = 0
 		if charset != nil {
-			correct += cffDICTIntegerSize(charsetOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(charsetOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffDICTIntegerSize(charStringsOffset + correct) // integer length in DICT
+		correct += cffDICTIntegerSize(charStringsOffset + prevCorrect) // integer length in DICT
 		if privateDICT != nil {
-			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(privateOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffINDEXOffSize(lenTopDICT+correct) - lenTopDICTINDEXOffSize // offSize in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+correct+1) - lenTopDICTINDEXOffSize) // offSize in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From 865ac3a0c33dd097c20f9cc715d81c8ab49f3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 23/83] fix: calls inside of unmapped CFF subroutines were
 updated at the wrong place

When only the local or only the global subroutines are renumbered, calls inside
a subroutine of the other kind were written into its first subroutine.
---
 sfnt_cff.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f772717..8a0c6a0 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -901,7 +901,8 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 
 				mapped := false
 				var oldBias int32
-				var newIndex, newBias int32
+				var newBias int32
+				newIndex := oldIndex // when not mapped
 				if b0 == cffCallsubr {
 					if v, ok := localSubrsMap[oldIndex]; ok {
 						oldBias = oldLocalSubrsBias
-- 
2.43.0


From a6a1e613abce88efb401566758f39e807fa9974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:34 +0000
Subject: [PATCH 24/83] fix: Merge left CFF subroutine calls with the wrong
 bias

Whether calls need to be renumbered was decided by the size of the number of
subroutines instead of their bias, and the bias was that of the first font
alone.
---
 sfnt_merge.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 40050a0..6579a00 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -179,18 +179,23 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
 		}
 
+		// the bias of the calls depends on the number of subroutines in both fonts
+		localSubrsLen1, globalSubrsLen1 := localSubrs.Len(), globalSubrs.Len()
+		localSubrs.Extend(localSubrs2)
+		globalSubrs.Extend(globalSubrs2)
+
 		// update index encoding (identity mapping) for the original glyphs
 		var localSubrsMap map[int32]int32  // old to new index
 		var globalSubrsMap map[int32]int32 // old to new index
-		if cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs.Len()) {
-			localSubrsMap = make(map[int32]int32, localSubrs.Len())
-			for i := 0; i < localSubrs.Len(); i++ {
+		if cffCharStringSubrsBias(localSubrsLen) != cffCharStringSubrsBias(localSubrsLen1) {
+			localSubrsMap = make(map[int32]int32, localSubrsLen1)
+			for i := 0; i < localSubrsLen1; i++ {
 				localSubrsMap[int32(i)] = int32(i)
 			}
 		}
-		if cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs.Len()) {
-			globalSubrsMap = make(map[int32]int32, globalSubrs.Len())
-			for i := 0; i < globalSubrs.Len(); i++ {
+		if cffCharStringSubrsBias(globalSubrsLen) != cffCharStringSubrsBias(globalSubrsLen1) {
+			globalSubrsMap = make(map[int32]int32, globalSubrsLen1)
+			for i := 0; i < globalSubrsLen1; i++ {
 				globalSubrsMap[int32(i)] = int32(i)
 			}
 		}
@@ -201,15 +206,15 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		// update indices and index encoding for the merging glyphs
 		var localSubrsMap2 map[int32]int32  // old to new index
 		var globalSubrsMap2 map[int32]int32 // old to new index
-		if 0 < localSubrs.Len() || cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs2.Len()) {
-			offset := localSubrs.Len()
+		if 0 < localSubrsLen1 || cffCharStringSubrsBias(localSubrsLen) != cffCharStringSubrsBias(localSubrs2.Len()) {
+			offset := localSubrsLen1
 			localSubrsMap2 = make(map[int32]int32, localSubrs2.Len())
 			for i := 0; i < localSubrs2.Len(); i++ {
 				localSubrsMap2[int32(i)] = int32(offset + i)
 			}
 		}
-		if 0 < globalSubrs.Len() || cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs2.Len()) {
-			offset := globalSubrs.Len()
+		if 0 < globalSubrsLen1 || cffCharStringSubrsBias(globalSubrsLen) != cffCharStringSubrsBias(globalSubrs2.Len()) {
+			offset := globalSubrsLen1
 			globalSubrsMap2 = make(map[int32]int32, globalSubrs2.Len())
 			for i := 0; i < globalSubrs2.Len(); i++ {
 				globalSubrsMap2[int32(i)] = int32(offset + i)
@@ -233,8 +238,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 
 		// update subroutine indices for merging font
-		localSubrs.Extend(localSubrs2)
-		globalSubrs.Extend(globalSubrs2)
 		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
 			return err
 		}
-- 
2.43.0


From 166a782cc3f324661577af5bf8d77cdf70d2ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 25/83] fix: Merge failed for a CFF font without charset

Names were added for the glyphs of both fonts before adding those of the second,
so that the number of names did not match the number of glyphs.
---
 sfnt_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 6579a00..a2d2d96 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -252,7 +252,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		// update charset
 		if sfnt2.CFF.charset != nil {
 			if sfnt.CFF.charset == nil {
-				numGlyphs := sfnt.CFF.charStrings.Len()
+				numGlyphs := sfnt.CFF.charStrings.Len() - cff2.charStrings.Len()
 				for i := 0; i < numGlyphs; i++ {
 					sfnt.CFF.charset = append(sfnt.CFF.charset, "")
 				}
-- 
2.43.0


From fc0cc6187d8b9ab15b98341a226dbb17035209a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:42 +0000
Subject: [PATCH 26/83] fix: LoadSystemFonts never closed its file

---
 system.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/system.go b/system.go
index 90eaf1e..2ef8caf 100644
--- a/system.go
+++ b/system.go
@@ -294,6 +294,8 @@ func LoadSystemFonts(filename string) (*SystemFonts, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
+
 	fonts := &SystemFonts{}
 	if err = gob.NewDecoder(f).Decode(fonts); err != nil {
 		return nil, err
-- 
2.43.0


From 38d6afa65bf39d15ca9bbeedca5b0c51028aae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 27/83] fix: SystemFonts.Save never closed its file

---
 system.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 2ef8caf..330f637 100644
--- a/system.go
+++ b/system.go
@@ -309,9 +309,10 @@ func (s *SystemFonts) Save(filename string) error {
 		return err
 	}
 	if err = gob.NewEncoder(f).Encode(s); err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	return f.Close()
 }
 
 func (s *SystemFonts) Add(metadata FontMetadata) {
-- 
2.43.0


From d5f9c3a7aa10e9db1cebdca5ea44491d18f9cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 28/83] fix: draw command never closed its output file

---
 cmd/fontcmd/draw.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index 14e07f9..caa9b25 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -165,7 +165,8 @@ func (cmd *Show) Run() error {
 	}
 
 	if err != nil {
+		w.Close()
 		return err
 	}
-	return nil
+	return w.Close()
 }
-- 
2.43.0


From 6e7ca33eebfb65bab78be72dd08ccff3182a5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:52 +0000
Subject: [PATCH 29/83] fix: draw command overwrote existing files without
 asking

---
 cmd/fontcmd/draw.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index caa9b25..3c10a42 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -17,9 +17,11 @@ import (
 
 	"github.com/tdewolff/canvas"
 	"github.com/tdewolff/font"
+	"github.com/tdewolff/prompt"
 )
 
 type Show struct {
+	Force   bool    `short:"f" desc:"Force overwriting existing files."`
 	Index   int     `short:"i" desc:"Font index for font collections"`
 	GlyphID uint16  `short:"g" name:"glyph" desc:"Glyph ID"`
 	Char    string  `short:"c" desc:"Literal character"`
@@ -148,6 +150,11 @@ func (cmd *Show) Run() error {
 		return fmt.Errorf("output extension must be PNG, JPG, GIF, or TIFF")
 	}
 
+	if _, err := os.Stat(cmd.Output); err == nil {
+		if !cmd.Force && !prompt.YesNo(fmt.Sprintf("%s already exists, overwrite?", cmd.Output), false) {
+			return fmt.Errorf("file already exists")
+		}
+	}
 	w, err := os.Create(cmd.Output)
 	if err != nil {
 		return err
-- 
2.43.0


From e0dc5a8693a04261eebd2079e6693cf35659bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 30/83] fix: reading exactly up to the end of the data counted
 as truncation

The binary reader gives io.EOF for a complete read that ends at the end of the data, forgets it at the next read, and panics when a number is only partially present. The bitmap reader never reads the last bit.
---
 eot.go           |   4 +-
 reader.go        | 154 +++++++++++++++++++++++++++++++++++++++++++++++
 sfnt.go          |  18 +++---
 sfnt_cff.go      |  28 ++++-----
 sfnt_cmap.go     |   6 +-
 sfnt_layout.go   |  46 +++++++-------
 sfnt_os2.go      |   4 +-
 sfnt_truetype.go |   8 +--
 woff.go          |   2 +-
 woff2.go         |  44 +++++++-------
 10 files changed, 231 insertions(+), 83 deletions(-)
 create mode 100644 reader.go

diff --git a/eot.go b/eot.go
index 0372eec..9f06f4d 100644
--- a/eot.go
+++ b/eot.go
@@ -4,13 +4,11 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-
-	"github.com/tdewolff/parse/v2"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
 	fontDataSize := r.ReadUint32() // FontDataSize
diff --git a/reader.go b/reader.go
new file mode 100644
index 0000000..64f93da
--- /dev/null
+++ b/reader.go
@@ -0,0 +1,154 @@
+package font
+
+import (
+	"encoding/binary"
+	"fmt"
+	"io"
+)
+
+// binaryReader reads numbers and bytes from font data. A read that ends exactly at the end of the data succeeds, a read past the end gives zero, consumes all remaining data, and is remembered so that Err returns io.EOF from then on.
+type binaryReader struct {
+	data []byte // all data
+	rest []byte // data not yet read
+	err  error
+
+	ByteOrder binary.ByteOrder
+}
+
+func newBinaryReader(b []byte) *binaryReader {
+	return &binaryReader{
+		data:      b,
+		rest:      b,
+		ByteOrder: binary.BigEndian,
+	}
+}
+
+// Err returns io.EOF if there was a read past the end of the data.
+func (r *binaryReader) Err() error {
+	return r.err
+}
+
+// Pos returns the position in the data.
+func (r *binaryReader) Pos() int64 {
+	return int64(len(r.data) - len(r.rest))
+}
+
+// Len returns the number of bytes not yet read.
+func (r *binaryReader) Len() int64 {
+	return int64(len(r.rest))
+}
+
+// Seek moves to a position relative to the start (0), the current position (1), or the end (2) of the data.
+func (r *binaryReader) Seek(off int64, whence int) (int64, error) {
+	pos := int64(0)
+	if whence == 1 {
+		pos = int64(len(r.data) - len(r.rest))
+	} else if whence == 2 {
+		pos = int64(len(r.data))
+	} else if whence != 0 {
+		return 0, fmt.Errorf("invalid whence")
+	}
+	if off < -pos || int64(len(r.data))-pos < off {
+		return 0, fmt.Errorf("invalid offset")
+	}
+	r.rest = r.data[pos+off:]
+	return pos + off, nil
+}
+
+// ReadBytes reads n bytes, or returns nil when there are fewer.
+func (r *binaryReader) ReadBytes(n int64) []byte {
+	if n < 0 || int64(len(r.rest)) < n {
+		r.rest = nil
+		r.err = io.EOF
+		return nil
+	}
+	b := r.rest[:n:n]
+	r.rest = r.rest[n:]
+	return b
+}
+
+// ReadString reads a string of length n.
+func (r *binaryReader) ReadString(n int64) string {
+	return string(r.ReadBytes(n))
+}
+
+// ReadUint8 reads a uint8.
+func (r *binaryReader) ReadUint8() uint8 {
+	b := r.ReadBytes(1)
+	if len(b) < 1 {
+		return 0
+	}
+	return b[0]
+}
+
+// ReadUint16 reads a uint16.
+func (r *binaryReader) ReadUint16() uint16 {
+	b := r.ReadBytes(2)
+	if len(b) < 2 {
+		return 0
+	}
+	return r.ByteOrder.Uint16(b)
+}
+
+// ReadUint24 reads a big-endian uint24 into a uint32.
+func (r *binaryReader) ReadUint24() uint32 {
+	b := r.ReadBytes(3)
+	if len(b) < 3 {
+		return 0
+	}
+	return uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
+}
+
+// ReadUint32 reads a uint32.
+func (r *binaryReader) ReadUint32() uint32 {
+	b := r.ReadBytes(4)
+	if len(b) < 4 {
+		return 0
+	}
+	return r.ByteOrder.Uint32(b)
+}
+
+// ReadUint64 reads a uint64.
+func (r *binaryReader) ReadUint64() uint64 {
+	b := r.ReadBytes(8)
+	if len(b) < 8 {
+		return 0
+	}
+	return r.ByteOrder.Uint64(b)
+}
+
+// ReadInt8 reads an int8.
+func (r *binaryReader) ReadInt8() int8 {
+	return int8(r.ReadUint8())
+}
+
+// ReadInt16 reads an int16.
+func (r *binaryReader) ReadInt16() int16 {
+	return int16(r.ReadUint16())
+}
+
+// ReadInt32 reads an int32.
+func (r *binaryReader) ReadInt32() int32 {
+	return int32(r.ReadUint32())
+}
+
+// bitmapReader reads bits, most significant bit first.
+type bitmapReader struct {
+	buf []byte
+	pos uint
+}
+
+func newBitmapReader(buf []byte) *bitmapReader {
+	return &bitmapReader{buf: buf}
+}
+
+// Read reads the next bit, all bits past the end are zero.
+func (r *bitmapReader) Read() bool {
+	i := r.pos / 8
+	if uint(len(r.buf)) <= i {
+		return false
+	}
+	bit := r.buf[i]&(0x80>>(r.pos%8)) != 0
+	r.pos++
+	return bit
+}
diff --git a/sfnt.go b/sfnt.go
index a9dd671..c0263fe 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -281,7 +281,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	sfntVersion := r.ReadString(4)
 	isCollection := sfntVersion == "ttcf"
 	if isCollection {
@@ -557,7 +557,7 @@ func (sfnt *SFNT) parseHead() error {
 	}
 
 	sfnt.Head = &headTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 {
@@ -622,7 +622,7 @@ func (sfnt *SFNT) parseHhea() error {
 	}
 
 	sfnt.Hhea = &hheaTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 {
@@ -680,7 +680,7 @@ func (sfnt *SFNT) parseVhea() error {
 	}
 
 	sfnt.Vhea = &vheaTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 && minorVersion != 1 {
@@ -755,7 +755,7 @@ func (sfnt *SFNT) parseHmtx() error {
 	sfnt.Hmtx.HMetrics = make([]hmtxLongHorMetric, sfnt.Hhea.NumberOfHMetrics)
 	sfnt.Hmtx.LeftSideBearings = make([]int16, sfnt.Maxp.NumGlyphs-sfnt.Hhea.NumberOfHMetrics)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	for i := 0; i < int(sfnt.Hhea.NumberOfHMetrics); i++ {
 		sfnt.Hmtx.HMetrics[i].AdvanceWidth = r.ReadUint16()
 		sfnt.Hmtx.HMetrics[i].LeftSideBearing = r.ReadInt16()
@@ -813,7 +813,7 @@ func (sfnt *SFNT) parseVmtx() error {
 	sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, sfnt.Vhea.NumberOfVMetrics)
 	sfnt.Vmtx.TopSideBearings = make([]int16, sfnt.Maxp.NumGlyphs-sfnt.Vhea.NumberOfVMetrics)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	for i := 0; i < int(sfnt.Vhea.NumberOfVMetrics); i++ {
 		sfnt.Vmtx.VMetrics[i].AdvanceHeight = r.ReadUint16()
 		sfnt.Vmtx.VMetrics[i].TopSideBearing = r.ReadInt16()
@@ -851,7 +851,7 @@ func (sfnt *SFNT) parseMaxp() error {
 	}
 
 	sfnt.Maxp = &maxpTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	sfnt.Maxp.Version = binary.BigEndian.Uint32(r.ReadBytes(4))
 	sfnt.Maxp.NumGlyphs = r.ReadUint16()
 	if sfnt.Maxp.Version == 0x00005000 && !sfnt.IsTrueType && len(b) == 6 {
@@ -959,7 +959,7 @@ func (sfnt *SFNT) parseName() error {
 	}
 
 	sfnt.Name = &nameTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	version := r.ReadUint16()
 	if version != 0 && version != 1 {
 		return fmt.Errorf("name: bad version")
@@ -1070,7 +1070,7 @@ func (sfnt *SFNT) parsePost() error {
 	_, isCFF2 := sfnt.Tables["CFF2"]
 
 	sfnt.Post = &postTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	version := r.ReadUint32()
 	sfnt.Post.ItalicAngle = float64(r.ReadInt32()) / (1 << 16)
 	sfnt.Post.UnderlinePosition = r.ReadInt16()
diff --git a/sfnt_cff.go b/sfnt_cff.go
index 8a0c6a0..4898354 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -33,7 +33,7 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: missing table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	major := r.ReadUint8()
 	minor := r.ReadUint8()
 	if major != 1 || minor != 0 {
@@ -210,7 +210,7 @@ func (sfnt *SFNT) parseCFF2() error {
 		return fmt.Errorf("CFF2: missing table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	major := r.ReadUint8()
 	minor := r.ReadUint8()
 	if major != 2 || minor != 0 {
@@ -342,7 +342,7 @@ const (
 	cff2Blend   int32 = 16
 )
 
-func cffReadCharStringNumber(r *parse.BinaryReader, b0 int32) int32 {
+func cffReadCharStringNumber(r *binaryReader, b0 int32) int32 {
 	var v int32
 	if b0 == 28 {
 		v = int32(r.ReadInt16()) << 16
@@ -397,7 +397,7 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
-func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32) error) error {
+func (cff *cffTable) parseCharString(glyphID uint16, cb func(*binaryReader, int32, []int32) error) error {
 	table := "CFF"
 	if cff.version == 2 {
 		table = "CFF2"
@@ -410,8 +410,8 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 		return fmt.Errorf("%v: charstring too long", table)
 	}
 
-	callStack := []*parse.BinaryReader{}
-	r := parse.NewBinaryReaderBytes(charString)
+	callStack := []*binaryReader{}
+	r := newBinaryReader(charString)
 
 	hints := 0
 	stack := []int32{}
@@ -512,7 +512,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				stack = stack[:len(stack)-1]
 
 				callStack = append(callStack, r)
-				r = parse.NewBinaryReaderBytes(subr)
+				r = newBinaryReader(subr)
 			case cffReturn:
 				if cff.version == 2 {
 					return fmt.Errorf("%v: unsupported operator %d", table, b0)
@@ -557,7 +557,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 	var x, y int32
 	f /= float64(1 << 16) // correct back
 
-	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+	err := cff.parseCharString(glyphID, func(_ *binaryReader, b0 int32, stack []int32) error {
 		switch b0 {
 		case cffRmoveto:
 			if len(stack) != 2 {
@@ -887,7 +887,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 		skipDepth := 0
 		indexStack = append(indexStack[:0], cff.charStrings)
 		offsetStack = append(offsetStack[:0], cff.charStrings.offset[glyphID])
-		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(r *binaryReader, b0 int32, stack []int32) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if len(stack) == 0 {
 					return ErrBadNumOperands
@@ -1055,7 +1055,7 @@ func (cff *cffTable) ReindexSubrs() error {
 	globalSubrsData := map[int32][]byte{}
 	globalSubrsCount := map[int32]int{}
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
-		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(_ *binaryReader, b0 int32, stack []int32) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if 0 < skipDepth {
 					// don't process subroutines twice
@@ -1214,7 +1214,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	t.data = append(t.data, o.data...)
 }
 
-func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
+func parseINDEX(r *binaryReader, isCFF2 bool) (*cffINDEX, error) {
 	t := &cffINDEX{}
 	var count uint32
 	if !isCFF2 {
@@ -1810,7 +1810,7 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 		256 + 13: -1,
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	ints := []int{}
 	reals := []float64{}
 	for 0 < r.Len() {
@@ -1860,7 +1860,7 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 	return nil
 }
 
-func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
+func parseDICTNumber(b0 int, r *binaryReader) (int, float64) {
 	if b0 < 28 {
 		// operator
 		return 0, math.NaN()
@@ -2092,7 +2092,7 @@ func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 }
 
 func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	if _, err := r.Seek(int64(fdArray), 0); err != nil {
 		return nil, fmt.Errorf("bad Font INDEX offset")
 	}
diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..0011165 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -413,7 +413,7 @@ func (sfnt *SFNT) parseCmap() error {
 	}
 
 	sfnt.Cmap = &cmapTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	if r.ReadUint16() != 0 {
 		return fmt.Errorf("cmap: bad version")
 	}
@@ -440,7 +440,7 @@ func (sfnt *SFNT) parseCmap() error {
 		}
 
 		// extract subtable length
-		rs := parse.NewBinaryReaderBytes(b[offset:])
+		rs := newBinaryReader(b[offset:])
 		format := rs.ReadUint16()
 		var length uint32
 		if format == 0 || format == 2 || format == 4 || format == 6 {
@@ -464,7 +464,7 @@ func (sfnt *SFNT) parseCmap() error {
 				return fmt.Errorf("cmap: bad subtable %d", j)
 			}
 		}
-		rs = parse.NewBinaryReaderBytes(b[offset+uint32(rs.Pos()) : offset+length])
+		rs = newBinaryReader(b[offset+uint32(rs.Pos()) : offset+length])
 
 		if subtableID == -1 {
 			subtableID = len(sfnt.Cmap.Subtables)
diff --git a/sfnt_layout.go b/sfnt_layout.go
index da20dbf..8f24e97 100644
--- a/sfnt_layout.go
+++ b/sfnt_layout.go
@@ -2,8 +2,6 @@ package font
 
 import (
 	"fmt"
-
-	"github.com/tdewolff/parse/v2"
 )
 
 type langSys struct {
@@ -30,9 +28,9 @@ func (scriptList scriptList) getLangSys(scriptTag ScriptTag, languageTag Languag
 }
 
 func (sfnt *SFNT) parseScriptList(b []byte) (scriptList, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
-	r3 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
+	r3 := newBinaryReader(b)
 	scriptCount := r.ReadUint16()
 	scripts := make(scriptList, scriptCount)
 	for i := 0; i < int(scriptCount); i++ {
@@ -96,8 +94,8 @@ func (featureList featureList) get(i uint16) (FeatureTag, []uint16, error) {
 }
 
 func (sfnt *SFNT) parseFeatureList(b []byte) featureList {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	featureCount := r.ReadUint16()
 	tags := make([]FeatureTag, featureCount)
 	features := make([][]uint16, featureCount)
@@ -134,8 +132,8 @@ type lookup struct {
 type lookupList []lookup
 
 func (sfnt *SFNT) parseLookupList(b []byte) lookupList {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	lookupCount := r.ReadUint16()
 	lookups := make(lookupList, lookupCount)
 	for i := 0; i < int(lookupCount); i++ {
@@ -200,7 +198,7 @@ func (table *coverageFormat2) Index(glyphID uint16) (uint16, bool) {
 }
 
 func (sfnt *SFNT) parseCoverageTable(b []byte) (coverageTable, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	coverageFormat := r.ReadUint16()
 	if coverageFormat == 1 {
 		glyphCount := r.ReadUint16()
@@ -268,7 +266,7 @@ func (table classDefFormat2) Get(glyphID uint16) uint16 {
 }
 
 func (sfnt *SFNT) parseClassDefTable(b []byte, classCount uint16) (classDefTable, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	classFormat := r.ReadUint16()
 	if classFormat == 1 {
 		startGlyphID := r.ReadUint16()
@@ -313,7 +311,7 @@ type ValueRecord struct {
 	YAdvDeviceOffset uint16
 }
 
-func (sfnt *SFNT) parseValueRecord(r *parse.BinaryReader, valueFormat uint16) (valueRecord ValueRecord) {
+func (sfnt *SFNT) parseValueRecord(r *binaryReader, valueFormat uint16) (valueRecord ValueRecord) {
 	if valueFormat == 0 {
 		return
 	} else if valueFormat&0x0001 != 0 { // X_PLACEMENT
@@ -378,7 +376,7 @@ func (table *singlePosFormat2) Get(glyphID uint16) (ValueRecord, bool) {
 }
 
 func (sfnt *SFNT) parseSinglePosTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	posFormat := r.ReadUint16()
 	coverageOffset := r.ReadUint16()
 	coverageTable, err := sfnt.parseCoverageTable(b[coverageOffset:])
@@ -470,8 +468,8 @@ func (table *pairPosFormat2) Get(glyphID1, glyphID2 uint16) (ValueRecord, ValueR
 }
 
 func (sfnt *SFNT) parsePairPosTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	posFormat := r.ReadUint16()
 	coverageOffset := r.ReadUint16()
 	coverageTable, err := sfnt.parseCoverageTable(b[coverageOffset:])
@@ -563,7 +561,7 @@ func (table *singleSubstFormat2) Get(glyphID uint16) (uint16, bool) {
 }
 
 func (sfnt *SFNT) parseSingleSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	coverageOffset := r.ReadUint16()
 	coverageTable, err := sfnt.parseCoverageTable(b[coverageOffset:])
@@ -606,8 +604,8 @@ func (table *multipleSubstFormat1) Get(glyphID uint16) ([]uint16, bool) {
 }
 
 func (sfnt *SFNT) parseMultipleSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	if substFormat != 1 {
 		return nil, fmt.Errorf("bad multiple substitution table format")
@@ -639,7 +637,7 @@ func (sfnt *SFNT) parseMultipleSubstTable(b []byte) (interface{}, error) {
 }
 
 func (sfnt *SFNT) parseAlternateSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	if substFormat != 1 {
 		return nil, fmt.Errorf("bad alternate substitution table format")
@@ -675,9 +673,9 @@ func (table *ligatureSubstFormat1) Get(glyphIDs []uint16) (uint16, bool) {
 }
 
 func (sfnt *SFNT) parseLigatureSubstTable(b []byte) (interface{}, error) {
-	r := parse.NewBinaryReaderBytes(b)
-	r2 := parse.NewBinaryReaderBytes(b)
-	r3 := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
+	r2 := newBinaryReader(b)
+	r3 := newBinaryReader(b)
 	substFormat := r.ReadUint16()
 	if substFormat != 1 {
 		return nil, fmt.Errorf("bad ligature substitution table format")
@@ -796,7 +794,7 @@ func (sfnt *SFNT) parseGPOSGSUB(name string, subtableMap subtableMap) (*gposgsub
 	}
 
 	table := &gposgsubTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 && minorVersion != 1 {
@@ -875,7 +873,7 @@ func (sfnt *SFNT) parseJSFT() error {
 	}
 
 	sfnt.Jsft = &jsftTable{}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	minorVersion := r.ReadUint16()
 	if majorVersion != 1 && minorVersion != 0 {
diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..c6371a9 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -2,8 +2,6 @@ package font
 
 import (
 	"fmt"
-
-	"github.com/tdewolff/parse/v2"
 )
 
 type os2Table struct {
@@ -65,7 +63,7 @@ func (sfnt *SFNT) parseOS2() error {
 		return fmt.Errorf("OS/2: bad table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	sfnt.OS2 = &os2Table{}
 	sfnt.OS2.Version = r.ReadUint16()
 	if 5 < sfnt.OS2.Version {
diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..25efbd4 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -100,7 +100,7 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 	} else if len(b) == 0 {
 		return deps, nil
 	}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	if r.Len() < 10 {
 		return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
 	}
@@ -167,7 +167,7 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 	} else if len(b) == 0 {
 		return &glyfContour{GlyphID: glyphID}, nil
 	}
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	if r.Len() < 10 {
 		return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
 	}
@@ -478,7 +478,7 @@ func (sfnt *SFNT) parseLoca() error {
 		data:   b,
 	}
 	//sfnt.Loca.Offsets = make([]uint32, sfnt.Maxp.NumGlyphs+1)
-	//r := parse.NewBinaryReaderBytes(b)
+	//r := newBinaryReader(b)
 	//if sfnt.Head.IndexToLocFormat == 0 {
 	//	if uint32(len(b)) != 2*(uint32(sfnt.Maxp.NumGlyphs)+1) {
 	//		return fmt.Errorf("loca: bad table")
@@ -556,7 +556,7 @@ func (sfnt *SFNT) parseKern() error {
 		return fmt.Errorf("kern: bad table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	majorVersion := r.ReadUint16()
 	if majorVersion != 0 && majorVersion != 1 {
 		return fmt.Errorf("kern: bad version %d", majorVersion)
diff --git a/woff.go b/woff.go
index eeabb07..cd16e7e 100644
--- a/woff.go
+++ b/woff.go
@@ -52,7 +52,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	signature := r.ReadString(4)
 	if signature != "wOFF" {
 		return nil, fmt.Errorf("bad signature")
diff --git a/woff2.go b/woff2.go
index 426dfff..bdf4eb6 100644
--- a/woff2.go
+++ b/woff2.go
@@ -57,7 +57,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	signature := r.ReadString(4)
 	if signature != "wOF2" {
 		return nil, fmt.Errorf("bad signature")
@@ -209,7 +209,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
 		} else {
-			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
+			rGlyf := newBinaryReader(tables[iGlyf].data)
 			_ = rGlyf.ReadUint32() // version
 			numGlyphs := uint32(rGlyf.ReadUint16())
 			indexFormat := rGlyf.ReadUint16()
@@ -338,7 +338,7 @@ func signInt16(flag byte, pos uint) int16 {
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
 	numGlyphs := r.ReadUint16()
@@ -355,17 +355,17 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
-	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
-	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
-	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
-	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
-	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
-	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
-	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
-	var overlapSimpleBitmap *parse.BitmapReader
+	nContourStream := newBinaryReader(r.ReadBytes(int64(nContourStreamSize)))
+	nPointsStream := newBinaryReader(r.ReadBytes(int64(nPointsStreamSize)))
+	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
+	glyphStream := newBinaryReader(r.ReadBytes(int64(glyphStreamSize)))
+	compositeStream := newBinaryReader(r.ReadBytes(int64(compositeStreamSize)))
+	bboxBitmap := newBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	bboxStream := newBinaryReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
+	instructionStream := newBinaryReader(r.ReadBytes(int64(instructionStreamSize)))
+	var overlapSimpleBitmap *bitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+		overlapSimpleBitmap = newBitmapReader(r.ReadBytes(int64(bitmapSize)))
 	}
 	if r.Err() == io.EOF {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
@@ -619,7 +619,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
-	rHead := parse.NewBinaryReaderBytes(head)
+	rHead := newBinaryReader(head)
 	_ = rHead.ReadBytes(50) // skip
 	indexFormat := rHead.ReadInt16()
 	if rHead.Err() == io.EOF {
@@ -627,7 +627,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numGlyphs
-	rMaxp := parse.NewBinaryReaderBytes(maxp)
+	rMaxp := newBinaryReader(maxp)
 	_ = rMaxp.ReadUint32() // version
 	numGlyphs := rMaxp.ReadUint16()
 	if rMaxp.Err() == io.EOF {
@@ -635,7 +635,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numHMetrics
-	rHhea := parse.NewBinaryReaderBytes(hhea)
+	rHhea := newBinaryReader(hhea)
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
 	if rHhea.Err() == io.EOF {
@@ -654,9 +654,9 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	if locaLength != uint32(len(loca)) {
 		return nil, ErrInvalidFontData
 	}
-	rLoca := parse.NewBinaryReaderBytes(loca)
+	rLoca := newBinaryReader(loca)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	flags := r.ReadUint8() // flags
 	reconstructProportional := flags&0x01 != 0
 	reconstructMonospaced := flags&0x02 != 0
@@ -693,7 +693,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// extract xMin values from glyf table using loca indices
-	rGlyf := parse.NewBinaryReaderBytes(glyf)
+	rGlyf := newBinaryReader(glyf)
 	iGlyphMin := uint16(0)
 	iGlyphMax := numGlyphs
 	if !reconstructProportional {
@@ -746,7 +746,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	return w.Bytes(), nil
 }
 
-func readUintBase128(r *parse.BinaryReader) (uint32, error) {
+func readUintBase128(r *binaryReader) (uint32, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	var accum uint32
 	for i := 0; i < 5; i++ {
@@ -768,7 +768,7 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	return 0, fmt.Errorf("readUintBase128: exceeds 5 bytes")
 }
 
-func read255Uint16(r *parse.BinaryReader) uint16 {
+func read255Uint16(r *binaryReader) uint16 {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	code := r.ReadUint8()
 	if code == 253 {
@@ -1036,7 +1036,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			instructionStream.WriteBytes(contour.Instructions)
 		} else {
 			// composite glyph
-			r := parse.NewBinaryReaderBytes(glyf.Get(uint16(glyphID)))
+			r := newBinaryReader(glyf.Get(uint16(glyphID)))
 			_ = r.ReadInt16() // numberOfContours
 			xMin = r.ReadInt16()
 			yMin = r.ReadInt16()
-- 
2.43.0


From 98bfc602303dde33cf6d679d134dad2d2aca1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:39 +0000
Subject: [PATCH 31/83] fix: WOFF2 bounding box bitmap had an extra byte

When the number of glyphs is a multiple of 32 the bitmap writer appends a byte after the last bit, which shifts all following bounding boxes.
---
 woff2.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/woff2.go b/woff2.go
index bdf4eb6..636270b 100644
--- a/woff2.go
+++ b/woff2.go
@@ -902,7 +902,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	flagStream := parse.NewBinaryWriter([]byte{})
 	glyphStream := parse.NewBinaryWriter([]byte{})
 	compositeStream := parse.NewBinaryWriter([]byte{})
-	bboxBitmapStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	bboxBitmap := make([]byte, bitmapSize)
 	bboxStream := parse.NewBinaryWriter([]byte{})
 	instructionStream := parse.NewBinaryWriter([]byte{})
 	overlapSimpleStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
@@ -922,7 +922,6 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			} else if len(contour.EndPoints) == 0 {
 				// empty glyph
 				nContourStream.WriteInt16(0)
-				bboxBitmapStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
@@ -1066,8 +1065,8 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			}
 		}
 
-		bboxBitmapStream.Write(!bboxEqual)
 		if !bboxEqual {
+			bboxBitmap[glyphID/8] |= 0x80 >> uint(glyphID%8)
 			bboxStream.WriteInt16(xMin)
 			bboxStream.WriteInt16(yMin)
 			bboxStream.WriteInt16(xMax)
@@ -1080,7 +1079,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	n := int64(36)
 	n += nContourStream.Len() + nPointsStream.Len()
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
-	n += bboxBitmapStream.Len() + bboxStream.Len() + instructionStream.Len()
+	n += int64(len(bboxBitmap)) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
 		n += overlapSimpleStream.Len()
 	}
@@ -1094,14 +1093,14 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteUint32(uint32(flagStream.Len()))
 	w.WriteUint32(uint32(glyphStream.Len()))
 	w.WriteUint32(uint32(compositeStream.Len()))
-	w.WriteUint32(uint32(bboxBitmapStream.Len() + bboxStream.Len()))
+	w.WriteUint32(uint32(int64(len(bboxBitmap)) + bboxStream.Len()))
 	w.WriteUint32(uint32(instructionStream.Len()))
 	w.WriteBytes(nContourStream.Bytes())
 	w.WriteBytes(nPointsStream.Bytes())
 	w.WriteBytes(flagStream.Bytes())
 	w.WriteBytes(glyphStream.Bytes())
 	w.WriteBytes(compositeStream.Bytes())
-	w.WriteBytes(bboxBitmapStream.Bytes())
+	w.WriteBytes(bboxBitmap)
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-- 
2.43.0


From 9dd8f90ad5e7fbd469a62117e517abf2715e6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:44 +0000
Subject: [PATCH 32/83] fix: WOFF2 overlap bitmap was not indexed by glyph

The writer skipped empty glyphs and the reader took one bit for each point.
---
 woff2.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/woff2.go b/woff2.go
index 636270b..960c781 100644
--- a/woff2.go
+++ b/woff2.go
@@ -389,6 +389,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 		}
 
 		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
+		overlapSimple := overlapSimpleBitmap != nil && overlapSimpleBitmap.Read()
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
 			if explicitBbox {
@@ -472,7 +473,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if overlapSimple && iPoint == 0 {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
 				outlineFlags = append(outlineFlags, outlineFlag)
@@ -905,14 +906,13 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	bboxBitmap := make([]byte, bitmapSize)
 	bboxStream := parse.NewBinaryWriter([]byte{})
 	instructionStream := parse.NewBinaryWriter([]byte{})
-	overlapSimpleStream := parse.NewBitmapWriter(make([]byte, bitmapSize))
+	overlapSimpleBitmap := make([]byte, bitmapSize)
 
 	var optionFlags uint16
 	xMins := make([]int16, numGlyphs)
 	for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
 		// composite glyphs have already been reconstructed as simple glyphs
 		bboxEqual := false
-		hasOverlap := false
 		var xMin, yMin, xMax, yMax int16
 		if !glyf.IsComposite(uint16(glyphID)) {
 			// simple glyph
@@ -997,7 +997,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				}
 				flagStream.WriteByte(flag)
 				if contour.OverlapSimple[i] {
-					hasOverlap = true
+					overlapSimpleBitmap[glyphID/8] |= 0x80 >> uint(glyphID%8)
 					optionFlags |= 0x01
 				}
 			}
@@ -1072,8 +1072,6 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			bboxStream.WriteInt16(xMax)
 			bboxStream.WriteInt16(yMax)
 		}
-
-		overlapSimpleStream.Write(hasOverlap)
 	}
 
 	n := int64(36)
@@ -1081,7 +1079,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
 	n += int64(len(bboxBitmap)) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
-		n += overlapSimpleStream.Len()
+		n += int64(len(overlapSimpleBitmap))
 	}
 	w := parse.NewBinaryWriter(make([]byte, 0, n))
 	w.WriteUint16(0) // reserved
@@ -1104,7 +1102,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-		w.WriteBytes(overlapSimpleStream.Bytes())
+		w.WriteBytes(overlapSimpleBitmap)
 	}
 	return w.Bytes(), xMins
 }
-- 
2.43.0


From b0ea0423fd7db1cbd154361e71158b4b08396237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:48 +0000
Subject: [PATCH 33/83] fix: WOFF2 wrote a wrong bounding box when its X values
 are explicit

---
 woff2.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/woff2.go b/woff2.go
index 960c781..51110b1 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1024,11 +1024,10 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				}
 				if yMin == contour.YMin && yMax == contour.YMax {
 					bboxEqual = true
-				} else {
-					xMin, xMax = contour.XMin, contour.XMax
-					yMin, yMax = contour.YMin, contour.YMax
 				}
 			}
+			xMin, xMax = contour.XMin, contour.XMax
+			yMin, yMax = contour.YMin, contour.YMax
 
 			// instruction stream
 			write255Uint16(glyphStream, uint16(len(contour.Instructions)))
-- 
2.43.0


From 649a2df8ec406fca9c67fb0e37eabf8b61dd266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:51 +0000
Subject: [PATCH 34/83] fix: WOFF2 wrote instructions of composite glyphs to
 the wrong stream

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 51110b1..9e47723 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1060,7 +1060,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			if hasInstructions {
 				instructionLength := r.ReadUint16()
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
-- 
2.43.0


From eba8fabda23c5a7a2696e248d25cc5bae8748d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 35/83] fix: WOFF2 left out side bearings of composite glyphs
 that differ from their bounds

---
 woff2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff2.go b/woff2.go
index 9e47723..28ff891 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1040,6 +1040,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			yMin = r.ReadInt16()
 			xMax = r.ReadInt16()
 			yMax = r.ReadInt16()
+			xMins[glyphID] = xMin
 
 			nContourStream.WriteInt16(-1)
 
-- 
2.43.0


From 1ee4f0163bb533a06bcf13c09776a85c90847893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:16 +0000
Subject: [PATCH 36/83] fix: code points of a glyph in a format 14 character
 map came in random order

---
 sfnt_cmap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 0011165..9a06a29 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -167,8 +167,15 @@ func (subtable *cmapFormat14) Get(r rune) (uint16, bool) {
 
 func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 	subtable.once.Do(func() {
-		subtable.unicodeMap = make(map[uint16][]rune, len(subtable.glyphIDMap))
-		for r, id := range subtable.glyphIDMap {
+		rs := make([]rune, 0, len(subtable.glyphIDMap))
+		for r := range subtable.glyphIDMap {
+			rs = append(rs, r)
+		}
+		sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
+
+		subtable.unicodeMap = make(map[uint16][]rune, len(rs))
+		for _, r := range rs {
+			id := subtable.glyphIDMap[r]
 			subtable.unicodeMap[id] = append(subtable.unicodeMap[id], r)
 		}
 	})
-- 
2.43.0


From 9759f073c9c92b706ab8dc803e6751eb958839ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:46 +0000
Subject: [PATCH 37/83] fix: formatting of woff2.go

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 28ff891..464543b 100644
--- a/woff2.go
+++ b/woff2.go
@@ -388,7 +388,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
-		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
+		explicitBbox := bboxBitmap.Read() // EOF cannot occur
 		overlapSimple := overlapSimpleBitmap != nil && overlapSimpleBitmap.Read()
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
-- 
2.43.0


From e6a05c284998da4b3ecde1450ccd0ee0eea40a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 38/83] fix: negative italic angle of the post table was
 written wrong

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index c0263fe..67465b5 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1130,7 +1130,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
-- 
2.43.0


From db840bf1ecad9788ef1612b353361788e0aa6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 39/83] fix: offsets in the name table wrapped around for
 tables of 64 kB and more

---
 sfnt.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 67465b5..1207b9a 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -965,8 +965,8 @@ func (sfnt *SFNT) parseName() error {
 		return fmt.Errorf("name: bad version")
 	}
 	count := r.ReadUint16()
-	storageOffset := r.ReadUint16()
-	if uint32(len(b)) < 6+12*uint32(count) || uint16(len(b)) < storageOffset {
+	storageOffset := uint32(r.ReadUint16()) // the table may be larger than 64 kB
+	if uint32(len(b)) < 6+12*uint32(count) || uint32(len(b)) < storageOffset {
 		return fmt.Errorf("name: bad table")
 	}
 	sfnt.Name.NameRecord = make([]nameRecord, count)
@@ -976,9 +976,9 @@ func (sfnt *SFNT) parseName() error {
 		sfnt.Name.NameRecord[i].Language = r.ReadUint16()
 		sfnt.Name.NameRecord[i].Name = NameID(r.ReadUint16())
 
-		length := r.ReadUint16()
-		offset := r.ReadUint16()
-		if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+		length := uint32(r.ReadUint16())
+		offset := uint32(r.ReadUint16())
+		if uint32(len(b))-storageOffset < offset || uint32(len(b))-storageOffset-offset < length {
 			return fmt.Errorf("name: bad table")
 		}
 		sfnt.Name.NameRecord[i].Value = b[storageOffset+offset : storageOffset+offset+length]
@@ -993,9 +993,9 @@ func (sfnt *SFNT) parseName() error {
 		}
 		sfnt.Name.LangTag = make([]nameLangTagRecord, langTagCount)
 		for i := 0; i < int(langTagCount); i++ {
-			length := r.ReadUint16()
-			offset := r.ReadUint16()
-			if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+			length := uint32(r.ReadUint16())
+			offset := uint32(r.ReadUint16())
+			if uint32(len(b))-storageOffset < offset || uint32(len(b))-storageOffset-offset < length {
 				return fmt.Errorf("name: bad table")
 			}
 			sfnt.Name.LangTag[i].Value = b[storageOffset+offset : storageOffset+offset+length]
-- 
2.43.0


From 3c0e2de3cb425b66da22b5c865fa480489f99383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:00 +0000
Subject: [PATCH 40/83] fix: Unicode ranges of the OS/2 table were set in the
 wrong word and one bit too high

---
 sfnt_os2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index c6371a9..dcfe1bf 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -164,10 +164,10 @@ func os2UlUnicodeRange(rs []rune) [4]uint32 {
 	for _, r := range rs {
 		if bit := os2UlUnicodeRangeBit(r); bit != -1 {
 			i := int(bit / 32)
-			v[3-i] |= 2 << (bit - i*32)
+			v[i] |= 1 << (bit - i*32)
 		}
 		if 0x10000 <= r && r < 0x110000 {
-			v[2] |= 2 << 25 // bit 57 (Non-Plane 0)
+			v[1] |= 1 << 25 // bit 57 (Non-Plane 0)
 		}
 	}
 	return v
-- 
2.43.0


From 9678d1262204bfb47024f0d83a35f691d92c961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 41/83] fix: Unicode blocks without or with a wrong bit in the
 OS/2 Unicode ranges

---
 sfnt_os2.go | 114 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 78 insertions(+), 36 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index dcfe1bf..919f8e5 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -190,10 +190,8 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 6
 	} else if r < 0x0400 {
 		return 7
-	} else if r < 0x0500 {
-		return 9
 	} else if r < 0x0530 {
-		return -1
+		return 9
 	} else if r < 0x0590 {
 		return 10
 	} else if r < 0x0600 {
@@ -203,7 +201,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 	} else if r < 0x0750 {
 		return 71
 	} else if r < 0x0780 {
-		return -1
+		return 13
 	} else if r < 0x07C0 {
 		return 72
 	} else if r < 0x0800 {
@@ -242,10 +240,8 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 26
 	} else if r < 0x1200 {
 		return 28
-	} else if r < 0x1380 {
-		return 75
 	} else if r < 0x13A0 {
-		return -1
+		return 75
 	} else if r < 0x1400 {
 		return 76
 	} else if r < 0x1680 {
@@ -254,10 +250,8 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 78
 	} else if r < 0x1700 {
 		return 79
-	} else if r < 0x1720 {
-		return 84
 	} else if r < 0x1780 {
-		return -1
+		return 84
 	} else if r < 0x1800 {
 		return 80
 	} else if r < 0x18B0 {
@@ -271,7 +265,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 	} else if r < 0x19E0 {
 		return 95
 	} else if r < 0x1A00 {
-		return -1
+		return 80
 	} else if r < 0x1A20 {
 		return 96
 	} else if r < 0x1B00 {
@@ -286,8 +280,12 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 113
 	} else if r < 0x1C80 {
 		return 114
-	} else if r < 0x1E00 {
+	} else if r < 0x1D00 {
 		return -1
+	} else if r < 0x1DC0 {
+		return 4
+	} else if r < 0x1E00 {
+		return 6
 	} else if r < 0x1F00 {
 		return 29
 	} else if r < 0x2000 {
@@ -326,24 +324,40 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 46
 	} else if r < 0x27C0 {
 		return 47
+	} else if r < 0x27F0 {
+		return 38
 	} else if r < 0x2800 {
-		return -1
+		return 37
 	} else if r < 0x2900 {
 		return 82
+	} else if r < 0x2980 {
+		return 37
+	} else if r < 0x2B00 {
+		return 38
 	} else if r < 0x2C00 {
-		return -1
+		return 37
 	} else if r < 0x2C60 {
 		return 97
 	} else if r < 0x2C80 {
-		return -1
+		return 29
 	} else if r < 0x2D00 {
 		return 8
 	} else if r < 0x2D30 {
-		return -1
+		return 26
 	} else if r < 0x2D80 {
 		return 98
-	} else if r < 0x3000 {
+	} else if r < 0x2DE0 {
+		return 75
+	} else if r < 0x2E00 {
+		return 9
+	} else if r < 0x2E80 {
+		return 31
+	} else if r < 0x2FE0 {
+		return 59
+	} else if r < 0x2FF0 {
 		return -1
+	} else if r < 0x3000 {
+		return 59
 	} else if r < 0x3040 {
 		return 48
 	} else if r < 0x30A0 {
@@ -354,30 +368,38 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 51
 	} else if r < 0x3190 {
 		return 52
+	} else if r < 0x31A0 {
+		return 59
+	} else if r < 0x31C0 {
+		return 51
+	} else if r < 0x31F0 {
+		return 61
 	} else if r < 0x3200 {
-		return -1
+		return 50
 	} else if r < 0x3300 {
 		return 54
 	} else if r < 0x3400 {
 		return 55
-	} else if r < 0x31C0 {
-		return -1
-	} else if r < 0x31F0 {
-		return 61
 	} else if r < 0x4DC0 {
-		return -1
+		return 59
 	} else if r < 0x4E00 {
 		return 99
 	} else if r < 0xA000 {
 		return 59
-	} else if r < 0xA490 {
+	} else if r < 0xA4D0 {
 		return 83
 	} else if r < 0xA500 {
 		return -1
 	} else if r < 0xA640 {
 		return 12
-	} else if r < 0xA800 {
+	} else if r < 0xA6A0 {
+		return 9
+	} else if r < 0xA700 {
 		return -1
+	} else if r < 0xA720 {
+		return 5
+	} else if r < 0xA800 {
+		return 29
 	} else if r < 0xA830 {
 		return 100
 	} else if r < 0xA840 {
@@ -398,14 +420,14 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 118
 	} else if r < 0xAC00 {
 		return -1
-	} else if r < 0xD7AF {
+	} else if r < 0xD7B0 {
 		return 56
-	} else if r < 0xE00 {
+	} else if r < 0xE000 {
 		return -1
 	} else if r < 0xF900 {
 		return 60
 	} else if r < 0xFB00 {
-		return -1
+		return 61
 	} else if r < 0xFB50 {
 		return 62
 	} else if r < 0xFE00 {
@@ -417,7 +439,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 	} else if r < 0xFE30 {
 		return 64
 	} else if r < 0xFE50 {
-		return -1
+		return 65
 	} else if r < 0xFE70 {
 		return 66
 	} else if r < 0xFF00 {
@@ -426,17 +448,15 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 68
 	} else if r < 0x10000 {
 		return 69
-	} else if r < 0x10080 {
-		return 101
 	} else if r < 0x10140 {
-		return -1
+		return 101
 	} else if r < 0x10190 {
 		return 102
 	} else if r < 0x101D0 {
 		return 119
 	} else if r < 0x10200 {
 		return 120
-	} else if r < 0x102A0 {
+	} else if r < 0x10280 {
 		return -1
 	} else if r < 0x102E0 {
 		return 121
@@ -464,17 +484,23 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0x10840 {
 		return 107
+	} else if r < 0x10900 {
+		return -1
+	} else if r < 0x10920 {
+		return 58
+	} else if r < 0x10940 {
+		return 121
 	} else if r < 0x10A00 {
 		return -1
 	} else if r < 0x10A60 {
 		return 108
 	} else if r < 0x12000 {
 		return -1
-	} else if r < 0x12400 {
+	} else if r < 0x12480 {
 		return 110
 	} else if r < 0x1D000 {
 		return -1
-	} else if r < 0x1D100 {
+	} else if r < 0x1D250 {
 		return 88
 	} else if r < 0x1D300 {
 		return -1
@@ -486,18 +512,34 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0x1D800 {
 		return 89
-	} else if r < 0x1F030 {
+	} else if r < 0x1F000 {
 		return -1
 	} else if r < 0x1F0A0 {
 		return 122
+	} else if r < 0x20000 {
+		return -1
+	} else if r < 0x2A6E0 {
+		return 59
+	} else if r < 0x2F800 {
+		return -1
+	} else if r < 0x2FA20 {
+		return 61
 	} else if r < 0xE0000 {
 		return -1
 	} else if r < 0xE0080 {
 		return 92
+	} else if r < 0xE0100 {
+		return -1
+	} else if r < 0xE01F0 {
+		return 91
 	} else if r < 0xF0000 {
 		return -1
 	} else if r < 0xFFFFE {
 		return 90
+	} else if r < 0x100000 {
+		return -1
+	} else if r < 0x10FFFE {
+		return 90
 	}
 	return -1
 }
-- 
2.43.0


From 492e21b65e9f750e7fb2aad0ae5da85abece0a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:28 +0000
Subject: [PATCH 42/83] fix: glyph names of a font without post or CFF table

---
 sfnt.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index 1207b9a..1c4c3ea 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -113,8 +113,13 @@ func (sfnt *SFNT) GlyphToUnicode(glyphID uint16) []rune {
 // GlyphName returns the name of the glyph. It returns an empty string when no name exists.
 func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return ""
+		}
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
+	} else if sfnt.Post == nil {
+		return ""
 	}
 	return sfnt.Post.Get(glyphID)
 }
@@ -122,12 +127,17 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 // FindGlyphName returns the glyphID for a given glyph name. When the name is not defined it returns 0.
 func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return 0
+		}
 		for glyphID, glyphName := range sfnt.CFF.charset {
 			if name == glyphName {
 				return uint16(glyphID)
 			}
 		}
 		return 0
+	} else if sfnt.Post == nil {
+		return 0
 	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
-- 
2.43.0


From 48ab31f4a58768d6d80c0df41bb881e13a5a6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:33 +0000
Subject: [PATCH 43/83] fix: vertical metrics of a font without OS/2 or hhea
 table

---
 sfnt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index 1c4c3ea..65c1cd7 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -147,6 +147,9 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	// see https://learn.microsoft.com/en-us/typography/opentype/spec/recom#baseline-to-baseline-distances
 	var ascender, descender, lineGap uint16
+	if sfnt.Hhea == nil {
+		return 0, 0, 0
+	}
 	if 0 < sfnt.Hhea.Ascender {
 		ascender = uint16(sfnt.Hhea.Ascender)
 	}
@@ -156,6 +159,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	if 0 < sfnt.Hhea.LineGap {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
+	if sfnt.OS2 == nil {
+		return ascender, descender, lineGap
+	}
 
 	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
-- 
2.43.0


From f369f7b1f505b4f46de7a3a31fe460c943e911a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:55 +0000
Subject: [PATCH 44/83] fix: outline and bounds of a font without glyf or CFF
 table

---
 sfnt.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 65c1cd7..8c831bf 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -190,8 +190,14 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 // GlyphPath draws the glyph's contour as a path to the pather interface. It will use the specified ppem (pixels-per-EM) for hinting purposes. The path is draws to the (x,y) coordinate and scaled using the given scale factor.
 func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64, hinting Hinting) error {
 	if sfnt.IsTrueType {
+		if sfnt.Glyf == nil {
+			return fmt.Errorf("glyf: missing table")
+		}
 		return sfnt.Glyf.ToPath(p, glyphID, ppem, x, y, scale, hinting)
 	} else if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return fmt.Errorf("CFF: missing table")
+		}
 		return sfnt.CFF.ToPath(p, glyphID, ppem, x, y, scale, hinting)
 	}
 	return fmt.Errorf("only TrueType and CFF are supported")
@@ -212,12 +218,12 @@ func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 
 // GlyphBounds returns the bounding rectangle (xmin,ymin,xmax,ymax) of the glyph.
 func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		contour, err := sfnt.Glyf.Contour(glyphID)
 		if err == nil {
 			return contour.XMin, contour.YMin, contour.XMax, contour.YMax
 		}
-	} else if sfnt.IsCFF {
+	} else if sfnt.IsCFF && sfnt.CFF != nil {
 		p := &bboxPather{}
 		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
 			return int16(p.XMin), int16(p.YMin), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
-- 
2.43.0


From f906389a9955d9a6f89d89e98ac31fd571ac4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:00 +0000
Subject: [PATCH 45/83] fix: advances of a font without hmtx or head table

---
 sfnt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 8c831bf..78eb0ca 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -205,13 +205,16 @@ func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64,
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (sfnt *SFNT) GlyphAdvance(glyphID uint16) uint16 {
+	if sfnt.Hmtx == nil {
+		return 0
+	}
 	return sfnt.Hmtx.Advance(glyphID)
 }
 
 // GlyphVerticalAdvance returns the vertical advance width of the glyph.
 func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 	if sfnt.Vmtx == nil {
-		return sfnt.Head.UnitsPerEm
+		return sfnt.UnitsPerEm()
 	}
 	return sfnt.Vmtx.Advance(glyphID)
 }
-- 
2.43.0


From 861caa0c1a03c75633ad9937ba134e74819b54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:52 +0000
Subject: [PATCH 46/83] fix: subset of a font with glyf outlines but without
 glyf table

---
 sfnt_subset.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index cc249c0..f930d13 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -21,11 +21,11 @@ type SubsetOptions struct {
 
 // Subset trims an SFNT font to contain only the passed glyphIDs, thereby resulting in a significant size reduction. The glyphIDs will apear in the specified order in the file and their dependencies are added to the end.
 func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error) {
-	if sfnt.IsCFF {
-		if _, ok := sfnt.Tables["CFF2"]; ok {
-			// TODO: support subsetting CFF2
-			return nil, fmt.Errorf("subsetting CFF2 fonts not supported")
-		}
+	if _, ok := sfnt.Tables["CFF2"]; ok {
+		// TODO: support subsetting CFF2
+		return nil, fmt.Errorf("subsetting CFF2 fonts not supported")
+	} else if sfnt.IsTrueType && sfnt.Glyf == nil {
+		return nil, fmt.Errorf("glyf: missing table")
 	}
 
 	// don't write to the caller's list when adding dependencies
-- 
2.43.0


From 3caf26f235292c94b6e040bd9d18c25453644459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:57 +0000
Subject: [PATCH 47/83] fix: subset of a font without hmtx table

---
 sfnt_subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index f930d13..1b997f5 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -107,7 +107,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
 	for subsetGlyphID, glyphID := range glyphIDs {
-		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+		advances[subsetGlyphID] = sfnt.GlyphAdvance(glyphID)
 	}
 
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
-- 
2.43.0


From e49898191f7fa0ee5dd5109ce762c9bde684f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:02 +0000
Subject: [PATCH 48/83] fix: subset of a font without maxp table

---
 sfnt_subset.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1b997f5..0eafa7f 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -99,7 +99,12 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	} else {
 		tags = append(tags, options.Tables...) // copy as it is sorted below
 	}
-	sort.Strings(tags) // so that glyf is before loca
+	sort.Slice(tags, func(i, j int) bool {
+		if tags[i] == "maxp" || tags[j] == "maxp" {
+			return tags[i] == "maxp" && tags[j] != "maxp" // so that maxp is before cmap
+		}
+		return tags[i] < tags[j] // so that glyf is before loca
+	})
 
 	// preliminary calculations
 	indexToLocFormat := int16(1)                   // for head and loca
@@ -135,14 +140,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 
 	// copy and rewrite tables
-	for _, tag := range tags {
-		if tag == "maxp" {
-			maxp := *sfntOld.Maxp
-			sfnt.Maxp = &maxp
-			sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
-			break
-		}
-	}
 	for _, tag := range tags {
 		table, ok := sfntOld.Tables[tag]
 		if !ok {
@@ -437,6 +434,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			w.WriteUint16(uint16(len(glyphIDs))) // numGlyphs
 			w.WriteBytes(table[6:])
 			sfnt.Tables[tag] = w.Bytes()
+
+			maxp := *sfntOld.Maxp
+			sfnt.Maxp = &maxp
+			sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
 		case "name":
 			w := parse.NewBinaryWriter(make([]byte, 0, 6))
 			w.WriteUint16(0) // version
-- 
2.43.0


From fa4cf5a4d21d02ee28da27736217801fd46438ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:07 +0000
Subject: [PATCH 49/83] fix: subset of the vertical metrics

---
 sfnt_subset.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 0eafa7f..20dd6e1 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -128,6 +128,22 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 	//}
 
+	var vadvances []uint16
+	var numberOfVMetrics uint16 // for vhea and vmtx
+	if sfnt.Vmtx != nil {
+		vadvances = make([]uint16, len(glyphIDs))
+		for subsetGlyphID, glyphID := range glyphIDs {
+			vadvances[subsetGlyphID] = sfnt.Vmtx.Advance(glyphID)
+		}
+		numberOfVMetrics = uint16(len(glyphIDs))
+		for 1 < numberOfVMetrics {
+			if vadvances[numberOfVMetrics-1] != vadvances[numberOfVMetrics-2] {
+				break
+			}
+			numberOfVMetrics--
+		}
+	}
+
 	// copy to new SFNT
 	sfntOld := sfnt
 	sfnt = &SFNT{
@@ -478,6 +494,38 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				MinMemType1:        sfntOld.Post.MinMemType1,
 				MaxMemType1:        sfntOld.Post.MaxMemType1,
 			}
+		case "vhea":
+			if sfntOld.Vmtx == nil {
+				continue
+			}
+			w := parse.NewBinaryWriter(make([]byte, 0, len(table)))
+			w.WriteBytes(table[:34])
+			w.WriteUint16(numberOfVMetrics) // numberOfVMetrics
+			w.WriteBytes(table[36:])
+			sfnt.Tables[tag] = w.Bytes()
+
+			vhea := *sfntOld.Vhea
+			sfnt.Vhea = &vhea
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		case "vmtx":
+			sfnt.Vmtx = &vmtxTable{}
+			sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+			sfnt.Vmtx.TopSideBearings = make([]int16, len(glyphIDs)-int(numberOfVMetrics))
+
+			n := 4*int(numberOfVMetrics) + 2*(len(glyphIDs)-int(numberOfVMetrics))
+			w := parse.NewBinaryWriter(make([]byte, 0, n))
+			for subsetGlyphID, glyphID := range glyphIDs {
+				tsb := sfntOld.Vmtx.TopSideBearing(glyphID)
+				if subsetGlyphID < int(numberOfVMetrics) {
+					sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight = vadvances[subsetGlyphID]
+					sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing = tsb
+					w.WriteUint16(vadvances[subsetGlyphID])
+				} else {
+					sfnt.Vmtx.TopSideBearings[subsetGlyphID-int(numberOfVMetrics)] = tsb
+				}
+				w.WriteInt16(tsb)
+			}
+			sfnt.Tables[tag] = w.Bytes()
 		default:
 			sfnt.Tables[tag] = table
 		}
-- 
2.43.0


From 860acc79974109b7144914ae045be488f4ea9823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:38 +0000
Subject: [PATCH 50/83] fix: setting the glyph names after the names were
 looked up

---
 sfnt_subset.go | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 20dd6e1..2eae3c3 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -538,6 +538,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return fmt.Errorf("CFF: missing table")
+		}
 		same := false
 		if len(sfnt.CFF.charset) == len(names) {
 			same = true
@@ -565,35 +568,45 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		return fmt.Errorf("post table doesn't exist")
 	}
 
-	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
-	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
-	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
+	post := &postTable{
+		ItalicAngle:        sfnt.Post.ItalicAngle,
+		UnderlinePosition:  sfnt.Post.UnderlinePosition,
+		UnderlineThickness: sfnt.Post.UnderlineThickness,
+		IsFixedPitch:       sfnt.Post.IsFixedPitch,
+		MinMemType42:       sfnt.Post.MinMemType42,
+		MaxMemType42:       sfnt.Post.MaxMemType42,
+		MinMemType1:        sfnt.Post.MinMemType1,
+		MaxMemType1:        sfnt.Post.MaxMemType1,
+		NumGlyphs:          sfnt.NumGlyphs(),
+		glyphNameIndex:     make([]uint16, sfnt.NumGlyphs()),
+	}
 
-	lastIndex := uint16(258)
+	indices := make(map[string]uint16, 258+len(names))
+	for index, name := range macintoshGlyphNames {
+		indices[name] = uint16(index)
+	}
 	if int(sfnt.NumGlyphs()) < len(names) {
 		names = names[:sfnt.NumGlyphs()]
 	}
 	for glyphID, name := range names {
-		var index uint16
-		if glyphID2, ok := sfnt.Post.Find(name); ok {
-			index = sfnt.Post.glyphNameIndex[glyphID2]
-		} else if math.MaxUint16 < len(sfnt.Post.stringData)-258 {
-			return fmt.Errorf("invalid post table: stringData has too many entries")
-		} else {
-			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-			sfnt.Post.nameMap[name] = uint16(glyphID)
-			index = lastIndex
-			lastIndex++
+		index, ok := indices[name]
+		if !ok {
+			if math.MaxUint16 < len(post.stringData)+258 {
+				return fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(len(post.stringData) + 258)
+			post.stringData = append(post.stringData, []byte(name))
+			indices[name] = index
 		}
-		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
+		post.glyphNameIndex[glyphID] = index
 	}
 
-	b, err := sfnt.Post.Write()
+	b, err := post.Write()
 	if err != nil {
 		return err
 	}
 
+	sfnt.Post = post
 	sfnt.Tables["post"] = b
 	return nil
 }
-- 
2.43.0


From 9fe50816db71a6c02418dcb9897f1896d6203c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:42 +0000
Subject: [PATCH 51/83] fix: merge of fonts without CFF table

---
 sfnt_merge.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index a2d2d96..599152e 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -22,6 +22,14 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return nil // sfnt2 only contains .notdef
 	}
 
+	if sfnt.IsCFF {
+		_, ok1 := sfnt.Tables["CFF "]
+		_, ok2 := sfnt2.Tables["CFF "]
+		if !ok1 || !ok2 {
+			return fmt.Errorf("CFF table missing") // TODO: support merging CFF2
+		}
+	}
+
 	// update maxp table
 	origNumGlyphs := sfnt.NumGlyphs()
 	numGlyphs := origNumGlyphs + sfnt2.NumGlyphs() - 1 // -1 to skip .notdef
@@ -157,7 +165,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				sfnt.Tables["kern"] = sfnt.Kern.Write()
 			}
 		}
-	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
+	} else if sfnt.IsCFF {
 		// find new number of subroutines, which may change the index encoding / bias
 		localSubrsLen, globalSubrsLen := 0, 0 // new length
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
-- 
2.43.0


From 3cd976a838b146799c7f47fea0fb3d479fb0a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:46 +0000
Subject: [PATCH 52/83] fix: merge with a font without kern table

---
 sfnt_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 599152e..8ba1b3c 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -141,7 +141,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			sfnt.Loca.data = w.Bytes()
 		}
 
-		if _, ok := sfnt.Tables["kern"]; ok {
+		if _, ok := sfnt.Tables["kern"]; ok && sfnt2.Kern != nil {
 			// update glyph IDs in kern table
 			for _, subtable := range sfnt2.Kern.Subtables {
 				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-- 
2.43.0


From 9bea1a680e915173868cda99246efc16f5544dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:51 +0000
Subject: [PATCH 53/83] fix: kerning pairs lost when merging

---
 sfnt_merge.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 8ba1b3c..7cc145f 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -145,16 +145,16 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			// update glyph IDs in kern table
 			for _, subtable := range sfnt2.Kern.Subtables {
 				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, len(subtable.Pairs))
-				for i, pair := range subtable.Pairs {
-					if pair.Key&0x0F == 0 || pair.Key&0xF0 == 0 {
+				pairs := make([]kernPair, 0, len(subtable.Pairs))
+				for _, pair := range subtable.Pairs {
+					if pair.Key>>16 == 0 || pair.Key&0xFFFF == 0 {
 						// skip .notdef
 						continue
 					}
-					pairs[i] = kernPair{
+					pairs = append(pairs, kernPair{
 						Key:   offset + pair.Key,
 						Value: pair.Value,
-					}
+					})
 				}
 				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
 					Coverage: subtable.Coverage,
-- 
2.43.0


From f72f90aeeddc04d8d68e335060fd885da1972525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:56 +0000
Subject: [PATCH 54/83] fix: merge with a font without hmtx, cmap, or OS/2
 table

---
 sfnt_merge.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 7cc145f..39b035a 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -289,8 +289,10 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				advances[glyphID] = sfnt.Hmtx.Advance(uint16(glyphID))
 			} else {
 				// +1 to skip .notdef
-				lsbs[glyphID] = sfnt2.Hmtx.LeftSideBearing(uint16(1+glyphID) - origNumGlyphs)
-				advances[glyphID] = sfnt2.Hmtx.Advance(uint16(1+glyphID) - origNumGlyphs)
+				advances[glyphID] = sfnt2.GlyphAdvance(uint16(1+glyphID) - origNumGlyphs)
+				if sfnt2.Hmtx != nil {
+					lsbs[glyphID] = sfnt2.Hmtx.LeftSideBearing(uint16(1+glyphID) - origNumGlyphs)
+				}
 			}
 		}
 		numberOfHMetrics := numGlyphs
@@ -342,7 +344,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				if glyphID < int(origNumGlyphs) {
 					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
 				} else {
-					rsGlyph = sfnt2.Cmap.ToUnicode(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
+					rsGlyph = sfnt2.GlyphToUnicode(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
 				}
 				rs = append(rs, rsGlyph...)
 				for _, r := range rsGlyph {
@@ -371,7 +373,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok {
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt2.OS2 != nil {
 		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
 		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
 		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
-- 
2.43.0


From 176138532ec8f232670c2e77f0545c2a99c65572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:01 +0000
Subject: [PATCH 55/83] fix: merge of the glyph names when only one of the
 fonts has them

---
 sfnt_merge.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 39b035a..5b45acb 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -386,15 +386,21 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["OS/2"] = table
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
+	post2 := sfnt2.Post
+	if post2 == nil {
+		post2 = &postTable{}
+	}
+	if _, ok := sfnt.Tables["post"]; ok && (sfnt.Post.NumGlyphs != 0 || post2.NumGlyphs != 0) {
 		if sfnt.Post.NumGlyphs == 0 {
 			// initialise the first font to zero
 			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
 		}
 		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
 			var index uint16
-			name := sfnt2.Post.Get(uint16(glyphID2))
-			if glyphID, ok := sfnt.Post.Find(name); ok {
+			name := post2.Get(uint16(glyphID2))
+			if name == "" {
+				index = 0 // no name
+			} else if glyphID, ok := sfnt.Post.Find(name); ok {
 				// reuse existing names
 				index = sfnt.Post.glyphNameIndex[glyphID]
 			} else if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
@@ -402,18 +408,18 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			} else {
 				index = uint16(len(sfnt.Post.stringData) + 258)
 				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
+				sfnt.Post.nameMap[name] = origNumGlyphs + uint16(glyphID2) - 1 // -1 to skip .notdef
 			}
 			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
 		}
 
-		if sfnt2.Post.IsFixedPitch == 0 {
+		if post2.IsFixedPitch == 0 {
 			sfnt.Post.IsFixedPitch = 0
 		}
-		sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
-		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
-		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
-		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
+		sfnt.Post.MinMemType42 += post2.MinMemType42
+		sfnt.Post.MaxMemType42 += post2.MaxMemType42
+		sfnt.Post.MinMemType1 += post2.MinMemType1
+		sfnt.Post.MaxMemType1 += post2.MaxMemType1
 		sfnt.Post.NumGlyphs = numGlyphs
 
 		b, err := sfnt.Post.Write()
-- 
2.43.0


From 13981b54526a4a43eb7ba17fdab64bf76bf39a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 56/83] fix: glyph offsets of a merged font

---
 sfnt_merge.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 5b45acb..5bde3e9 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -57,7 +57,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 	if sfnt.IsTrueType {
 		glyf, ok1 := sfnt.Tables["glyf"]
 		glyf2, ok2 := sfnt2.Tables["glyf"]
-		loca, ok3 := sfnt.Tables["loca"]
+		_, ok3 := sfnt.Tables["loca"]
 		_, ok4 := sfnt2.Tables["loca"]
 		if !ok1 || !ok2 || !ok3 || !ok4 {
 			return fmt.Errorf("glyf of loca tables missing")
@@ -67,6 +67,14 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		firstGlyf, _ := sfnt2.Loca.Get(1)
 		glyf2 = glyf2[firstGlyf:]
 
+		// remove data after the last glyph and align for the short loca format
+		if end, ok := sfnt.Loca.Get(origNumGlyphs); ok && end < uint32(len(glyf)) {
+			glyf = glyf[:end:end]
+		}
+		if len(glyf)%2 == 1 {
+			glyf = append(glyf, 0)
+		}
+
 		// update glyphIDs of composite glyphs and make sure not to write to glyf2
 		startGlyf := uint32(len(glyf))
 		glyf = append(glyf, glyf2...)
@@ -104,26 +112,22 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			}
 
 			// write current offsets
-			glyphID := 0
 			w := parse.NewBinaryWriter(make([]byte, 0, n))
-			if indexToLocFormat == sfnt.Loca.Format {
-				w.WriteBytes(loca)
-				glyphID = int(origNumGlyphs)
-			} else if table, ok := sfnt.Tables["head"]; ok {
+			if table, ok := sfnt.Tables["head"]; ok && indexToLocFormat != sfnt.Loca.Format {
 				table = append([]byte(nil), table...) // may be part of the input, don't write to it
 				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
 				sfnt.Tables["head"] = table
 				sfnt.Head.IndexToLocFormat = indexToLocFormat
 			}
 
-			// write offsets (+1 since we do iterate over .notdef, but skip it below)
-			for ; glyphID < int(numGlyphs); glyphID++ {
+			// write offsets, including that of the end of the last glyph
+			for glyphID := 0; glyphID <= int(numGlyphs); glyphID++ {
 				var offset uint32
 				if glyphID < int(origNumGlyphs) {
 					offset, _ = sfnt.Loca.Get(uint16(glyphID))
 				} else {
-					// +1 to skip .notdef, +1 to get the end of the glyph
-					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs) + 1))
+					// +1 to skip .notdef
+					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs)))
 					offset += startGlyf - firstGlyf
 				}
 
-- 
2.43.0


From b943a30871f605fed433613750b74caa1a861a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 57/83] fix: merge of the vertical metrics

---
 sfnt_merge.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 5bde3e9..4f1c061 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -331,6 +331,53 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
+	if _, ok := sfnt.Tables["vmtx"]; ok {
+		tsbs := make([]int16, numGlyphs)
+		advances := make([]uint16, numGlyphs)
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(origNumGlyphs) {
+				tsbs[glyphID] = sfnt.Vmtx.TopSideBearing(uint16(glyphID))
+				advances[glyphID] = sfnt.Vmtx.Advance(uint16(glyphID))
+			} else {
+				// +1 to skip .notdef
+				advances[glyphID] = sfnt2.GlyphVerticalAdvance(uint16(1+glyphID) - origNumGlyphs)
+				if sfnt2.Vmtx != nil {
+					tsbs[glyphID] = sfnt2.Vmtx.TopSideBearing(uint16(1+glyphID) - origNumGlyphs)
+				}
+			}
+		}
+		numberOfVMetrics := numGlyphs
+		for 1 < numberOfVMetrics {
+			if advances[numberOfVMetrics-1] != advances[numberOfVMetrics-2] {
+				break
+			}
+			numberOfVMetrics--
+		}
+
+		sfnt.Vmtx = &vmtxTable{}
+		sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+		sfnt.Vmtx.TopSideBearings = tsbs[numberOfVMetrics:]
+
+		n := 4*int(numberOfVMetrics) + 2*(int(numGlyphs)-int(numberOfVMetrics))
+		w := parse.NewBinaryWriter(make([]byte, 0, n))
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(numberOfVMetrics) {
+				sfnt.Vmtx.VMetrics[glyphID].AdvanceHeight = advances[glyphID]
+				sfnt.Vmtx.VMetrics[glyphID].TopSideBearing = tsbs[glyphID]
+				w.WriteUint16(advances[glyphID])
+			}
+			w.WriteInt16(tsbs[glyphID])
+		}
+		sfnt.Tables["vmtx"] = w.Bytes()
+
+		if table, ok := sfnt.Tables["vhea"]; ok {
+			table = append([]byte(nil), table...)                    // may be part of the input, don't write to it
+			binary.BigEndian.PutUint16(table[34:], numberOfVMetrics) // numberOfVMetrics
+			sfnt.Tables["vhea"] = table
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		}
+	}
+
 	if _, ok := sfnt.Tables["cmap"]; ok {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
-- 
2.43.0


From b2bd07822d646bb91656e218aacc8f40063a3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:49 +0000
Subject: [PATCH 58/83] fix: parse the tables of embedded CFF fonts

---
 sfnt.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 78eb0ca..e08422d 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -425,20 +425,27 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 	}
 
-	if embedded && sfnt.IsCFF {
-		if err := sfnt.parseCFF(); err != nil {
-			return nil, err
-		} else if err := sfnt.parseCmap(); err != nil {
+	// required tables before parsing other tables
+	if _, ok := tables["head"]; ok || !embedded {
+		if err := sfnt.parseHead(); err != nil {
 			return nil, err
 		}
-		return sfnt, nil
 	}
-
-	// required tables before parsing other tables
-	if err := sfnt.parseHead(); err != nil {
-		return nil, err
-	} else if err := sfnt.parseMaxp(); err != nil {
-		return nil, err
+	if _, ok := tables["maxp"]; ok || !embedded {
+		if err := sfnt.parseMaxp(); err != nil {
+			return nil, err
+		}
+	} else if sfnt.IsCFF {
+		// the number of glyphs is needed by the other tables
+		if err := sfnt.parseCFF(); err != nil {
+			return nil, err
+		} else if math.MaxUint16 < sfnt.CFF.charStrings.Len() {
+			return nil, fmt.Errorf("CFF: too many glyphs")
+		}
+		sfnt.Maxp = &maxpTable{
+			Version:   0x00005000,
+			NumGlyphs: uint16(sfnt.CFF.charStrings.Len()),
+		}
 	}
 	if sfnt.IsTrueType {
 		if err := sfnt.parseLoca(); err != nil {
-- 
2.43.0


From 753ef42c67d37f7b76034576057b491c08f3c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:18 +0000
Subject: [PATCH 59/83] fix: subset of a font without maxp table, sort the
 tables by tag only

---
 sfnt_subset.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 2eae3c3..038c5eb 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -99,12 +99,11 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	} else {
 		tags = append(tags, options.Tables...) // copy as it is sorted below
 	}
-	sort.Slice(tags, func(i, j int) bool {
-		if tags[i] == "maxp" || tags[j] == "maxp" {
-			return tags[i] == "maxp" && tags[j] != "maxp" // so that maxp is before cmap
-		}
-		return tags[i] < tags[j] // so that glyf is before loca
-	})
+	sort.Strings(tags) // so that glyf is before loca
+	if i := sort.SearchStrings(tags, "maxp"); i < len(tags) && tags[i] == "maxp" {
+		copy(tags[1:], tags[:i]) // so that maxp is before cmap
+		tags[0] = "maxp"
+	}
 
 	// preliminary calculations
 	indexToLocFormat := int16(1)                   // for head and loca
-- 
2.43.0


From ad14d3e6f04ae310c0e733c86dee94605ab0aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:03 +0000
Subject: [PATCH 60/83] fix: parse the loca table of any font that has one

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index e08422d..842a0f5 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -447,7 +447,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 			NumGlyphs: uint16(sfnt.CFF.charStrings.Len()),
 		}
 	}
-	if sfnt.IsTrueType {
+	if _, ok := tables["loca"]; ok {
 		if err := sfnt.parseLoca(); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e15ae1ef9b3ff6e7f60ee88d0d45c8ad3b8a6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 61/83] fix: find the first glyph with a name in the post table

After parsing the last glyph was found, but after Merge (which adds names to the map only when they are new) the first.
---
 sfnt.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 842a0f5..062b1ed 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1076,10 +1076,16 @@ func (post *postTable) Find(name string) (uint16, bool) {
 	post.once.Do(func() {
 		post.nameMap = make(map[string]uint16, len(post.glyphNameIndex))
 		for glyphID, index := range post.glyphNameIndex {
+			var name string
 			if index < 258 {
-				post.nameMap[macintoshGlyphNames[index]] = uint16(glyphID)
+				name = macintoshGlyphNames[index]
 			} else if int(index)-258 < len(post.stringData) {
-				post.nameMap[string(post.stringData[index-258])] = uint16(glyphID)
+				name = string(post.stringData[index-258])
+			} else {
+				continue
+			}
+			if _, ok := post.nameMap[name]; !ok {
+				post.nameMap[name] = uint16(glyphID) // the first glyph with this name
 			}
 		}
 	})
-- 
2.43.0


From fa0fed539ba8b8f02a06d9e275f820f871a86b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:08 +0000
Subject: [PATCH 62/83] fix: drop the cached glyph names when Merge gives the
 post table names

A Find on a font without glyph names cached an empty map, so that after Merge its own glyph name .notdef wasn't found.
---
 sfnt_merge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 4f1c061..24eb55b 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"sync"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -445,6 +446,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		if sfnt.Post.NumGlyphs == 0 {
 			// initialise the first font to zero
 			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
+			sfnt.Post.nameMap, sfnt.Post.once = nil, sync.Once{} // drop names of before
 		}
 		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
 			var index uint16
-- 
2.43.0


From 8f4070869999af081b6cc805a83249c5d2eb09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:13 +0000
Subject: [PATCH 63/83] fix: Subset of a CFF font must not have an empty loca
 table

Loca was set without there being a table, unlike after parsing the subset font.
---
 sfnt_subset.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 038c5eb..52d46c3 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -145,13 +145,13 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 	// copy to new SFNT
 	sfntOld := sfnt
+	loca := &locaTable{} // for glyf
 	sfnt = &SFNT{
 		Version:    sfntOld.Version,
 		Length:     12, // increased below
 		IsCFF:      sfntOld.IsCFF,
 		IsTrueType: sfntOld.IsTrueType,
 		Tables:     map[string][]byte{},
-		Loca:       &locaTable{}, // for glyf
 	}
 
 	// copy and rewrite tables
@@ -348,7 +348,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Glyf = &glyfTable{
 				data: w.Bytes(),
-				loca: sfnt.Loca,
+				loca: loca,
 			}
 		case "head":
 			w := parse.NewBinaryWriter(make([]byte, 0, len(sfntOld.Tables["head"])))
@@ -441,8 +441,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			}
 			sfnt.Tables[tag] = w.Bytes()
 
-			sfnt.Loca.Format = indexToLocFormat
-			sfnt.Loca.data = w.Bytes()
+			loca.Format = indexToLocFormat
+			loca.data = w.Bytes()
+			sfnt.Loca = loca
 		case "maxp":
 			w := parse.NewBinaryWriter(make([]byte, 0, len(sfntOld.Tables["maxp"])))
 			w.WriteBytes(table[:4])
-- 
2.43.0


From 6e3a69d713ae2155a0a848ae08242455518684f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:50 +0000
Subject: [PATCH 64/83] fix: keep the length of a font in step with its tables

Merge and SetGlyphNames left Length as it was, and WriteWOFF2 wrote it as totalSfntSize, which was wrong also for a font of a collection (the length of the whole collection) and with a DSIG table (which is excluded).
---
 sfnt.go        | 14 ++++++++++++++
 sfnt_merge.go  |  1 +
 sfnt_subset.go |  5 +++--
 woff2.go       | 34 ++++++++++++++++++----------------
 4 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 062b1ed..a67df21 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -500,6 +500,20 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 	return sfnt, nil
 }
 
+// tableLength returns the length that a table takes in a font file, including its table record and padding
+func tableLength(table []byte) uint32 {
+	n := uint32(len(table))
+	return 16 + n + (4-n&3)&3
+}
+
+// updateLength sets the length after tables have been replaced
+func (sfnt *SFNT) updateLength() {
+	sfnt.Length = 12
+	for _, table := range sfnt.Tables {
+		sfnt.Length += tableLength(table)
+	}
+}
+
 // Write writes out the SFNT file.
 func (sfnt *SFNT) Write() []byte {
 	tags := make([]string, 0, len(sfnt.Tables))
diff --git a/sfnt_merge.go b/sfnt_merge.go
index 24eb55b..bf5071e 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -481,5 +481,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 		sfnt.Tables["post"] = b
 	}
+	sfnt.updateLength()
 	return nil
 }
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 52d46c3..ee3f4e6 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -530,8 +530,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			sfnt.Tables[tag] = table
 		}
 
-		sfnt.Length += uint32(16 + len(sfnt.Tables[tag]))        // 16 for the table record
-		sfnt.Length += (4 - uint32(len(sfnt.Tables[tag]))&3) & 3 // padding
+		sfnt.Length += tableLength(sfnt.Tables[tag])
 	}
 	return sfnt, nil
 }
@@ -561,6 +560,7 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 			return err
 		}
 		sfnt.Tables["CFF "] = b
+		sfnt.updateLength()
 		return nil
 	}
 
@@ -608,5 +608,6 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 
 	sfnt.Post = post
 	sfnt.Tables["post"] = b
+	sfnt.updateLength()
 	return nil
 }
diff --git a/woff2.go b/woff2.go
index 464543b..e859976 100644
--- a/woff2.go
+++ b/woff2.go
@@ -784,31 +784,33 @@ func read255Uint16(r *binaryReader) uint16 {
 }
 
 func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
+	length := uint32(12)
 	tags := make([]string, 0, len(sfnt.Tables))
-	for tag := range sfnt.Tables {
+	for tag, table := range sfnt.Tables {
 		if tag == "DSIG" {
 			continue // exclude DSIG table
 		}
 		tags = append(tags, tag)
+		length += tableLength(table)
 	}
 	// TODO: (WOFF2) loca must follow glyf for TTC
 	sort.Strings(tags)
 
-	w := parse.NewBinaryWriter(make([]byte, 0, sfnt.Length*6/10)) // estimated size
-	w.WriteString("wOF2")                                         // signature
-	w.WriteString(sfnt.Version)                                   // flavor
-	w.WriteUint32(0)                                              // length (set later)
-	w.WriteUint16(uint16(len(tags)))                              // numTables
-	w.WriteUint16(0)                                              // reserved
-	w.WriteUint32(sfnt.Length)                                    // totalSfntSize
-	w.WriteUint32(0)                                              // totalCompressedSize (set later)
-	w.WriteUint16(1)                                              // majorVersion
-	w.WriteUint16(0)                                              // minorVersion
-	w.WriteUint32(0)                                              // metaOffset
-	w.WriteUint32(0)                                              // metaLength
-	w.WriteUint32(0)                                              // metaOrigLength
-	w.WriteUint32(0)                                              // privOffset
-	w.WriteUint32(0)                                              // privLength
+	w := parse.NewBinaryWriter(make([]byte, 0, length/10*6)) // estimated size
+	w.WriteString("wOF2")                                    // signature
+	w.WriteString(sfnt.Version)                              // flavor
+	w.WriteUint32(0)                                         // length (set later)
+	w.WriteUint16(uint16(len(tags)))                         // numTables
+	w.WriteUint16(0)                                         // reserved
+	w.WriteUint32(length)                                    // totalSfntSize
+	w.WriteUint32(0)                                         // totalCompressedSize (set later)
+	w.WriteUint16(1)                                         // majorVersion
+	w.WriteUint16(0)                                         // minorVersion
+	w.WriteUint32(0)                                         // metaOffset
+	w.WriteUint32(0)                                         // metaLength
+	w.WriteUint32(0)                                         // metaOrigLength
+	w.WriteUint32(0)                                         // privOffset
+	w.WriteUint32(0)                                         // privLength
 
 	var glyf, hmtx []byte
 	_, hasGlyf := sfnt.Tables["glyf"]
-- 
2.43.0


From cb73cf6e48d8e8346c2c508dbd28ab7d5c626a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:01 +0000
Subject: [PATCH 65/83] fix: write each code point once to the cmap table

The format 4 subtable took the end of a segment from the list with duplicates, so that it was wrong when a code point occurs twice (it may be in several subtables of the original font); Subset then failed or mapped to other glyphs.
---
 sfnt_cmap.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 9a06a29..fa387a5 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -332,6 +332,16 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 
 	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
 
+	// remove duplicates
+	n := 1
+	for _, r := range rs[1:] {
+		if r != rs[n-1] {
+			rs[n] = r
+			n++
+		}
+	}
+	rs = rs[:n]
+
 	// TODO: it may be more efficient to have several tables of different formats
 	w := parse.NewBinaryWriter([]byte{})
 	w.WriteUint16(0) // version
-- 
2.43.0


From 6ae1f2af2d041347f8c809920225c8889f7cff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:07 +0000
Subject: [PATCH 66/83] fix: end the segment of contiguous glyphs in the cmap
 format 4 writer

When a stretch of more than eight contiguous glyph IDs at the start of a segment was followed by other glyph IDs, all were written as contiguous and thus mapped to the wrong glyphs.
---
 sfnt_cmap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index fa387a5..9983af6 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -227,7 +227,10 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
 						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
 						j0, jc = j, j
-					} else if j == len(glyphIDs) {
+					} else if j != len(glyphIDs) {
+						addSegment(rs[i0+j0], rs[i0+(j-1)], glyphIDs[j0:j], true)
+						j0, jc = j, j
+					} else {
 						addSegment(rs[i0+j0], rs[i0+(j-1)], glyphIDs[j0:j], j0 == jc)
 					}
 					if j == len(glyphIDs) {
-- 
2.43.0


From 58f22b4518f32fe5b507c15f807b0be8fd61e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 67/83] fix: cmap format 4 segments that map code points to the
 same glyph IDs

An idDelta of zero was taken for a segment that uses the glyph ID array.
---
 sfnt_cmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 9983af6..ba32f25 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -185,9 +185,11 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
 	// rs is sorted
 	data := cmapFormat4{}
+	useDelta := []bool{}
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
 		data.EndCode = append(data.EndCode, uint16(lastCode))
 		data.StartCode = append(data.StartCode, uint16(firstCode))
+		useDelta = append(useDelta, contiguous)
 		if contiguous {
 			// use idDelta
 			firstGlyph := glyphIDs[0]
@@ -276,7 +278,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if useDelta[i] {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
-- 
2.43.0


From a8a017cc542248d393e442ed997dd151e7061350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:53 +0000
Subject: [PATCH 68/83] fix: code points of a glyph must be those that map to
 it

The character codes of a later cmap subtable (e.g. Macintosh Roman) were given as Unicode code points of a glyph although an earlier subtable maps them to other glyphs, so that Subset and Merge mapped them to the wrong glyph.
---
 sfnt_cmap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index ba32f25..08ffb94 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -405,7 +405,7 @@ func (cmap *cmapTable) Get(r rune) uint16 {
 	return 0
 }
 
-// ToUnicode returns all runes for the corresponding glyph ID. It looks for each subtable in the order in which they appear and returns referenced runes for the glyph ID, or nil if none.
+// ToUnicode returns all runes for the corresponding glyph ID. It looks for each subtable in the order in which they appear and returns referenced runes for the glyph ID, or nil if none. Runes that an earlier subtable maps to another glyph are not included, see Get.
 func (cmap *cmapTable) ToUnicode(glyphID uint16) []rune {
 	var rs []rune
 	for _, subtable := range cmap.Subtables {
@@ -416,7 +416,9 @@ func (cmap *cmapTable) ToUnicode(glyphID uint16) []rune {
 					continue AppendLoop
 				}
 			}
-			rs = append(rs, r)
+			if cmap.Get(r) == glyphID {
+				rs = append(rs, r)
+			}
 		}
 	}
 	return rs
-- 
2.43.0


From 2495740920f9f6a4b4556c0126b4298cf8e8a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 69/83] fix: glyph offsets of a bad loca table must not panic

---
 sfnt_truetype.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 25efbd4..2410ebb 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -70,9 +70,12 @@ type glyfTable struct {
 
 // Get returns the glyph data corresponding to the passed glyphID. It returns nil if the glyph doesn't exist.
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
+	if glyphID == math.MaxUint16 {
+		return nil
+	}
 	start, ok1 := glyf.loca.Get(glyphID)
 	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	if !ok1 || !ok2 || end < start || uint64(len(glyf.data)) < uint64(end) {
 		return nil
 	}
 	return glyf.data[start:end]
@@ -455,9 +458,9 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
+	if loca.Format == 0 && int(glyphID)*2+2 <= len(loca.data) {
 		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
+	} else if loca.Format == 1 && int(glyphID)*4+4 <= len(loca.data) {
 		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
 	}
 	return 0, false
-- 
2.43.0


From a4dfe70924abaf2364954dfa3cf77679be738d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:21 +0000
Subject: [PATCH 70/83] fix: glyphs without contours, with bad end points or
 too many flags must not panic

---
 sfnt_truetype.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 2410ebb..27be8ca 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -190,6 +190,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		contour.EndPoints = make([]uint16, numberOfContours)
 		for i := 0; i < int(numberOfContours); i++ {
 			contour.EndPoints[i] = r.ReadUint16()
+			if 0 < i && contour.EndPoints[i] <= contour.EndPoints[i-1] {
+				return nil, fmt.Errorf("glyf: bad end points for glyphID %v", glyphID)
+			}
 		}
 
 		instructionLength := r.ReadUint16()
@@ -198,7 +201,10 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		}
 		contour.Instructions = r.ReadBytes(int64(instructionLength))
 
-		numPoints := int(contour.EndPoints[numberOfContours-1]) + 1
+		numPoints := 0
+		if 0 < numberOfContours {
+			numPoints = int(contour.EndPoints[numberOfContours-1]) + 1
+		}
 		flags := make([]byte, numPoints)
 		contour.OnCurve = make([]bool, numPoints)
 		contour.OverlapSimple = make([]bool, numPoints)
@@ -212,6 +218,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			contour.OverlapSimple[i] = flags[i]&0x40 != 0
 			if flags[i]&0x08 != 0 { // REPEAT_FLAG
 				repeats := r.ReadUint8()
+				if numPoints-i <= int(repeats) {
+					return nil, fmt.Errorf("glyf: bad table or flags for glyphID %v", glyphID)
+				}
 				for j := 1; j <= int(repeats); j++ {
 					flags[i+j] = flags[i]
 					contour.OnCurve[i+j] = contour.OnCurve[i]
-- 
2.43.0


From 2706e3e244ef019c9693a5e3aa9b1bb24fdbc6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 71/83] fix: composite glyphs with more points than can be
 numbered must not hang

---
 sfnt_truetype.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 27be8ca..4fc3588 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -338,7 +338,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			}
 
 			var numPoints uint16
-			if 0 < len(contour.EndPoints) {
+			if math.MaxUint16 < len(contour.OnCurve)+len(subContour.OnCurve) {
+				return nil, fmt.Errorf("glyf: too many points for glyphID %v", glyphID)
+			} else if 0 < len(contour.EndPoints) {
 				numPoints = contour.EndPoints[len(contour.EndPoints)-1] + 1
 			}
 			for i := 0; i < len(subContour.EndPoints); i++ {
@@ -379,14 +381,14 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 		return err
 	}
 
-	var i uint16
+	i := 0
 	for _, endPoint := range contour.EndPoints {
 		j := i
 		first := true
 		firstOff := false
 		prevOff := false
 		startX, startY := 0.0, 0.0
-		for ; i <= endPoint; i++ {
+		for ; i <= int(endPoint); i++ {
 			if first {
 				if contour.OnCurve[i] {
 					startX = float64(contour.XCoordinates[i])
-- 
2.43.0


From 48317b3c8a68668b73f92008e34f43b2286cce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:02 +0000
Subject: [PATCH 72/83] fix: merging a font with truncated composite glyphs
 must not panic

---
 sfnt_merge.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index bf5071e..e26053a 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -83,19 +83,27 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			// +1 to skip .notdef
 			if sfnt2.Glyf.IsComposite(uint16(glyphID)) {
 				start, _ := sfnt2.Loca.Get(uint16(glyphID))
+				if start < firstGlyf {
+					return fmt.Errorf("glyf: bad glyphID %v", glyphID)
+				}
 				start += startGlyf - firstGlyf
 
-				offset := uint32(10)
+				b := glyf[start:]
 				for {
-					flags := binary.BigEndian.Uint16(glyf[start+offset:])
-					subGlyphID := binary.BigEndian.Uint16(glyf[start+offset+2:])
-					binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
+					if len(b) < 14 {
+						return fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+					}
+					flags := binary.BigEndian.Uint16(b[10:])
+					subGlyphID := binary.BigEndian.Uint16(b[12:])
+					binary.BigEndian.PutUint16(b[12:], origNumGlyphs+subGlyphID-1)
 
 					length, more := glyfCompositeLength(flags)
 					if !more {
 						break
+					} else if uint32(len(b)) < length {
+						return fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
 					}
-					offset += length
+					b = b[length:]
 				}
 			}
 		}
-- 
2.43.0


From 24f8fe3d20ddb11d625b658ef4d4f15037d2ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:07 +0000
Subject: [PATCH 73/83] fix: components of a huge composite glyph must not wrap
 around

---
 sfnt_subset.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index ee3f4e6..05f4992 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -229,17 +229,20 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 					start := uint32(w.Len())
 					w.WriteBytes(b)
 
-					offset := uint32(10)
+					offset := 10
 					for {
+						if len(b) < offset+4 {
+							return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+						}
 						flags := binary.BigEndian.Uint16(b[offset:])
 						subGlyphID := binary.BigEndian.Uint16(b[offset+2:])
-						binary.BigEndian.PutUint16(w.Bytes()[start+offset+2:], glyphMap[subGlyphID])
+						binary.BigEndian.PutUint16(w.Bytes()[start+uint32(offset)+2:], glyphMap[subGlyphID])
 
 						length, more := glyfCompositeLength(flags)
 						if !more {
 							break
 						}
-						offset += length
+						offset += int(length)
 					}
 				} else {
 					// simple glyph
-- 
2.43.0


From 7d31723d866c8a8b9c090e2f9865e63c20d21b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:17 +0000
Subject: [PATCH 74/83] fix: unicode ranges that end at the largest value must
 not hang the subset command

---
 cmd/fontcmd/subset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ec2022c..4170e13 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -160,7 +160,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				default:
 					Warning.Println("invalid escape sequence:", string(runes[i:i+2]))
@@ -169,10 +169,10 @@ func (cmd *Subset) Run() error {
 			if prev != -1 && r == '-' && !escaped {
 				rangeChars = true
 			} else if rangeChars {
-				for i := prev + 1; i <= r; i++ {
-					glyphID := sfnt.GlyphIndex(i)
+				for i := int64(prev) + 1; i <= int64(r); i++ {
+					glyphID := sfnt.GlyphIndex(rune(i))
 					if glyphID == 0 {
-						Warning.Println("glyph not found:", printableRune(i))
+						Warning.Println("glyph not found:", printableRune(rune(i)))
 					} else {
 						glyphMap[glyphID] = true
 					}
@@ -258,7 +258,7 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R16 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
+			for r := int64(ran.Lo); r <= int64(ran.Hi); r += int64(ran.Stride) {
 				glyphID := sfnt.GlyphIndex(rune(r))
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
@@ -267,7 +267,7 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R32 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
+			for r := int64(ran.Lo); r <= int64(ran.Hi); r += int64(ran.Stride) {
 				glyphID := sfnt.GlyphIndex(rune(r))
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
-- 
2.43.0


From 3764b98e35dbadd84d27b17d6dce0068e5819793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:31 +0000
Subject: [PATCH 75/83] fix: escape sequences cut off at the end must not panic

---
 cmd/fontcmd/subset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 4170e13..408ac91 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -138,7 +138,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'u':
 					if i+5 < len(runes) {
@@ -149,7 +149,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'U':
 					if i+9 < len(runes) {
-- 
2.43.0


From 308743e73f7a64a92f88900623eb4572c43a9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 76/83] fix: glyph IDs above 32767 must be accepted by the
 subset command

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 408ac91..6b6061f 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -55,11 +55,11 @@ func (cmd *Subset) Run() error {
 	// append glyphs
 	for _, glyph := range cmd.Glyphs {
 		if dash := strings.IndexByte(glyph, '-'); dash != -1 {
-			first, err := strconv.ParseInt(glyph[:dash], 10, 16)
+			first, err := strconv.ParseInt(glyph[:dash], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			last, err := strconv.ParseInt(glyph[dash+1:], 10, 16)
+			last, err := strconv.ParseInt(glyph[dash+1:], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
@@ -71,7 +71,7 @@ func (cmd *Subset) Run() error {
 				first++
 			}
 		} else {
-			glyphID, err := strconv.ParseInt(glyph, 10, 16)
+			glyphID, err := strconv.ParseInt(glyph, 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-- 
2.43.0


From 92599e2630849ba560a1f9a79e0350c17cd2aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:39 +0000
Subject: [PATCH 77/83] fix: WOFF files with 32768 tables or more must not hang

---
 woff.go  | 2 +-
 woff2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index cd16e7e..d6e9f42 100644
--- a/woff.go
+++ b/woff.go
@@ -131,7 +131,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if numTables/2 < searchRange {
 			break
 		}
 		searchRange *= 2
diff --git a/woff2.go b/woff2.go
index e859976..5dbd28d 100644
--- a/woff2.go
+++ b/woff2.go
@@ -268,7 +268,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if numTables/2 < searchRange {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From 88cb4111e795cf2f594779a5d50aca5c9959e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:06 +0000
Subject: [PATCH 78/83] fix: cmap format 12 groups past the last code point
 must not hang the reverse lookup

---
 sfnt_cmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 08ffb94..aa64d0c 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"sort"
 	"sync"
+	"unicode"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -144,7 +145,7 @@ func (subtable *cmapFormat12) ToUnicode(glyphID uint16) []rune {
 	subtable.once.Do(func() {
 		subtable.unicodeMap = map[uint16][]rune{}
 		for i := 0; i < len(subtable.StartCharCode); i++ {
-			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i]; r++ {
+			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i] && r <= unicode.MaxRune; r++ {
 				id := uint16((r - subtable.StartCharCode[i]) + subtable.StartGlyphID[i])
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], rune(r))
 			}
-- 
2.43.0


From 9613b729514c8ce7d45e48026e42b528e4e9e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:12 +0000
Subject: [PATCH 79/83] fix: a CFF DICT that ends within a real number must not
 hang

---
 sfnt_cff.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4898354..23326cd 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1870,7 +1870,7 @@ func parseDICTNumber(b0 int, r *binaryReader) (int, float64) {
 		return int(r.ReadInt32()), math.NaN()
 	} else if b0 == 30 {
 		num := []byte{}
-		for {
+		for 0 < r.Len() {
 			b := r.ReadUint8()
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
@@ -1896,6 +1896,8 @@ func parseDICTNumber(b0 int, r *binaryReader) (int, float64) {
 				b = b << 4
 			}
 		}
+		// no end of number
+		return 0, math.NaN()
 	} else if b0 == 31 {
 		// reserved
 		return 0, math.NaN()
-- 
2.43.0


From fcd196fee137b129cb02187490abb29c5e010fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:35 +0000
Subject: [PATCH 80/83] fix: truncated composite glyphs must not be written to
 a transformed glyf table

---
 woff2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/woff2.go b/woff2.go
index 5dbd28d..bbeb8d2 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1056,6 +1056,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 
 				compositeStream.WriteUint16(flags)
 				compositeStream.WriteBytes(r.ReadBytes(int64(length) - 2))
+				if r.Err() != nil {
+					return nil, nil // bad glyf data
+				}
 				if !more {
 					break
 				}
@@ -1064,6 +1067,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				instructionLength := r.ReadUint16()
 				write255Uint16(glyphStream, instructionLength)
 				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				if r.Err() != nil {
+					return nil, nil // bad glyf data
+				}
 			}
 		}
 
-- 
2.43.0


From 439243cff80419015314ac704eb64d1b7206630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:56 +0000
Subject: [PATCH 81/83] fix: leave the version of a font without head table
 alone

SFNT.Write and FromGoFreetype put the checksum adjustment at the start of the
file when there was no head table.
---
 font.go | 4 +++-
 sfnt.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 52598e3..b8052cb 100644
--- a/font.go
+++ b/font.go
@@ -190,7 +190,9 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	}
 
 	buf := w.Bytes()
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 {
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
diff --git a/sfnt.go b/sfnt.go
index a67df21..1ccd8ac 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -575,7 +575,9 @@ func (sfnt *SFNT) Write() []byte {
 		binary.BigEndian.PutUint32(buf[pos+8:], offsets[i])
 		binary.BigEndian.PutUint32(buf[pos+12:], lengths[i])
 	}
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 {
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
-- 
2.43.0


From 85e5df317c750b6f660bf2ca7a56226572fc1ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:01 +0000
Subject: [PATCH 82/83] fix: FindSystemFonts does not use the file info of a
 failed stat

---
 system.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/system.go b/system.go
index 330f637..3495ce2 100644
--- a/system.go
+++ b/system.go
@@ -476,6 +476,11 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 	for _, dir := range dirs {
 		if info, err := os.Stat(dir); os.IsNotExist(err) {
 			continue
+		} else if err != nil {
+			if Err == nil {
+				Err = err
+			}
+			continue
 		} else if !info.IsDir() {
 			continue
 		}
-- 
2.43.0


From 63146065937e27ba07e9f691cc32116380e10a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:57 +0000
Subject: [PATCH 83/83] fix: subset refuses an unknown encoding also when it
 writes over its input

---
 cmd/fontcmd/subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 6b6061f..b157252 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -36,7 +36,8 @@ func (cmd *Subset) Run() error {
 
 	if len(cmd.Outputs) == 0 {
 		cmd.Outputs = []string{cmd.Input}
-	} else if cmd.Encoding != "" && cmd.Encoding != "base64" {
+	}
+	if cmd.Encoding != "" && cmd.Encoding != "base64" {
 		return fmt.Errorf("unsupported encoding: %v", cmd.Encoding)
 	}
 
-- 
2.43.0

