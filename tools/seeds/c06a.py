id='c06-subset-charset-alias'; prop='C06'
needs='an OpenType/CFF font with glyph names that is subset with glyphs out of order, and then used again'
breaks='Subset reuses the backing array of the original charset for the names of the subset, so glyph names of the original font change'
edits=[('sfnt_subset.go','charset := make([]string, len(glyphIDs))','charset := cff.charset[:len(glyphIDs):len(glyphIDs)]')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/EBGaramond12-Regular.otf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	before := []string{}
	for i := uint16(0); i < 50; i++ {
		before = append(before, sfnt.GlyphName(i))
	}
	if _, err = sfnt.Subset([]uint16{0, 40, 30, 20}, SubsetOptions{Tables: KeepAllTables}); err != nil {
		t.Fatal(err)
	}
	for i := uint16(0); i < 50; i++ {
		if name := sfnt.GlyphName(i); name != before[i] {
			t.Fatalf("glyph %d: %s != %s", i, name, before[i])
		}
	}
}
'''
