id='c19-subset-lsb-id'; prop='C19'
needs='a subset in which a glyph gets another ID and both have different left side bearings, and asking the subset font for the bearing without writing and parsing it'
breaks='the list of the parsed hmtx gets the left side bearing of the glyph that had the new ID in the original font, the bytes get the right one'
edits=[('sfnt_subset.go','''					sfnt.Hmtx.HMetrics[subsetGlyphID].LeftSideBearing = lsb
''','''					sfnt.Hmtx.HMetrics[subsetGlyphID].LeftSideBearing = sfntOld.Hmtx.LeftSideBearing(uint16(subsetGlyphID))
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	full, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	one, err := full.Subset([]uint16{0, 36, 70, 88, 91}, SubsetOptions{Tables: KeepMinTables})
	if err != nil {
		t.Fatal(err)
	}
	again, err := ParseSFNT(one.Write(), 0)
	if err != nil {
		t.Fatal(err)
	}
	for id := uint16(0); id < one.NumGlyphs(); id++ {
		if a, b := one.Hmtx.LeftSideBearing(id), again.Hmtx.LeftSideBearing(id); a != b {
			t.Fatalf("left side bearing of %d: %d after writing and parsing, was %d", id, b, a)
		}
	}
}
'''
