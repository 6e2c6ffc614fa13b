id='c19-merge-kern-early'; prop='C19'
needs='merging two TrueType fonts that both have kerning, then writing the result'
breaks='the kern table is written before the pairs of the second font are added, so they are in the parsed form only'
edits=[('sfnt_merge.go','''			// update glyph IDs in kern table
''','''			if 0 < len(sfnt.Kern.Subtables) {
				sfnt.Tables["kern"] = sfnt.Kern.Write()
			}
			// update glyph IDs in kern table
'''),('sfnt_merge.go','''					Pairs:    pairs,
				})
			}
			if 0 < len(sfnt.Kern.Subtables) {
				sfnt.Tables["kern"] = sfnt.Kern.Write()
			}
''','''					Pairs:    pairs,
				})
			}
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	full, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	sub := func(text string) *SFNT {
		ids := []uint16{0}
		for _, r := range text {
			ids = append(ids, full.GlyphIndex(r))
		}
		s, err := full.Subset(ids, SubsetOptions{Tables: KeepAllTables})
		if err != nil {
			t.Fatal(err)
		}
		if s.Kern == nil {
			t.Fatal("no kerning")
		}
		return s
	}
	one, two := sub("AVTY"), sub("LWvy")
	if err := one.Merge(two, MergeOptions{RearrangeCmap: true}); err != nil {
		t.Fatal(err)
	}
	again, err := ParseSFNT(one.Write(), 0)
	if err != nil {
		t.Fatal(err)
	}
	for i := uint16(0); i < one.NumGlyphs(); i++ {
		for j := uint16(0); j < one.NumGlyphs(); j++ {
			if a, b := one.Kerning(i, j), again.Kerning(i, j); a != b {
				t.Fatalf("kerning of %d and %d: %d after writing and parsing, was %d", i, j, b, a)
			}
		}
	}
}
'''
