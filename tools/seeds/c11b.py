id='c11-kern-pair-order'; prop='C11'
needs='subsetting a font with a kern table to glyphs of which one is kerned with several others'
breaks='the kerning pairs of a subset are collected by iterating over maps and sorted by the left glyph only, so pairs of the same left glyph come in random order'
edits=[('sfnt_subset.go','''				pairs := []kernPair{}
				for l, lOrig := range glyphIDs {
					if lOrig == 0 {
						continue
					}
					for r, rOrig := range glyphIDs {
						if rOrig == 0 {
							continue
						}
''','''				pairs := []kernPair{}
				newGlyphIDs := make(map[uint16]int, len(glyphIDs)) // without .notdef
				for glyphID, origGlyphID := range glyphIDs {
					if origGlyphID != 0 {
						newGlyphIDs[origGlyphID] = glyphID
					}
				}
				for lOrig, l := range newGlyphIDs {
					for rOrig, r := range newGlyphIDs {
'''),('sfnt_subset.go','''				if 0 < len(pairs) {
					kern.Sub''','''				sort.SliceStable(pairs, func(i, j int) bool {
					return pairs[i].Key>>16 < pairs[j].Key>>16
				})
				if 0 < len(pairs) {
					kern.Sub''')]
demo='''package font

import (
	"bytes"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	glyphIDs := []uint16{0}
	for r := 'A'; r <= 'z'; r++ {
		glyphIDs = append(glyphIDs, sfnt.GlyphIndex(r))
	}
	var first []byte
	for i := 0; i < 10; i++ {
		subset, err := sfnt.Subset(glyphIDs, SubsetOptions{Tables: KeepAllTables})
		if err != nil {
			t.Fatal(err)
		}
		kern := subset.Tables["kern"]
		if len(kern) < 40 {
			t.Fatal("no kerning")
		}
		if first == nil {
			first = kern
		} else if !bytes.Equal(first, kern) {
			t.Fatal("kern table differs between runs")
		}
	}
}
'''
