id='c19-merge-maxp-early'; prop='C19'
needs='merging two TrueType fonts of which the second has a larger maximum (points, stack elements, ...) in maxp than the first'
breaks='the bytes of maxp are made before the maxima are taken over from the second font, so Maxp says one thing and the written font another'
edits=[('sfnt_merge.go','''		sfnt.Maxp.NumGlyphs = numGlyphs
''','''		sfnt.Maxp.NumGlyphs = numGlyphs
		sfnt.Tables["maxp"] = sfnt.Maxp.Write()
'''),('sfnt_merge.go','''		}
		sfnt.Tables["maxp"] = sfnt.Maxp.Write()
''','''		}
''')]
demo='''package font

import (
	"encoding/binary"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	full, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	one, err := full.Subset([]uint16{0, 36, 37}, SubsetOptions{Tables: KeepMinTables})
	if err != nil {
		t.Fatal(err)
	}
	two, err := full.Subset([]uint16{0, 38, 39}, SubsetOptions{Tables: KeepMinTables})
	if err != nil {
		t.Fatal(err)
	}
	binary.BigEndian.PutUint16(two.Tables["maxp"][6:], 5000) // maxPoints
	two, err = ParseSFNT(two.Write(), 0)
	if err != nil {
		t.Fatal(err)
	}
	if err := one.Merge(two, MergeOptions{RearrangeCmap: true}); err != nil {
		t.Fatal(err)
	}
	again, err := ParseSFNT(one.Write(), 0)
	if err != nil {
		t.Fatal(err)
	}
	if *again.Maxp != *one.Maxp {
		t.Fatalf("maxp: %v after writing and parsing, was %v", *again.Maxp, *one.Maxp)
	}
}
'''
