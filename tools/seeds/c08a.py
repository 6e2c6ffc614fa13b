id='c08-kern-present-no-view'; prop='C08'
needs='a font with a kern table, a subset in which no pair is kerned, and then a subset of that subset that keeps all tables'
breaks='Subset stores an (empty) kern table before it finds that there are no pairs left and skips the parsed form, so the next Subset that keeps all tables uses a nil kern table'
edits=[('sfnt_subset.go','''			if len(kern.Subtables) == 0 {
				continue
			}
			sfnt.Tables[tag] = kern.Write()
			sfnt.Kern = &kern
''','''			sfnt.Tables[tag] = kern.Write()
			if 0 < len(kern.Subtables) {
				sfnt.Kern = &kern
			}
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	ids := []uint16{0, sfnt.GlyphIndex('0'), sfnt.GlyphIndex('1')}
	sub, err := sfnt.Subset(ids, SubsetOptions{Tables: KeepAllTables})
	if err != nil {
		t.Fatal(err)
	}
	sub, err = sub.Subset([]uint16{0, 1}, SubsetOptions{Tables: KeepAllTables})
	if err != nil {
		t.Fatal(err)
	}
	if sub.Kerning(1, 1) != 0 {
		t.Fatal("kerning")
	}
}
'''
