id='c19-merge-head-format'; prop='C19'
needs='merging two TrueType fonts so that the format of loca changes (the glyph data grows past 64 kB), and looking at Head afterwards'
breaks='the bytes of head get the new indexToLocFormat but the parsed Head keeps the old one'
edits=[('sfnt_merge.go','''				sfnt.Head.IndexToLocFormat = indexToLocFormat
''','')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	full, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	sub := func(from, to int) *SFNT {
		ids := []uint16{0}
		for i := from; i < to; i++ {
			ids = append(ids, uint16(i))
		}
		s, err := full.Subset(ids, SubsetOptions{Tables: KeepMinTables})
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	n := 100
	for sub(1, n+50).Head.IndexToLocFormat == 0 {
		n += 50
	}
	one, two := sub(1, n), sub(n, n+100)
	if one.Head.IndexToLocFormat != 0 {
		t.Fatal("unexpected format")
	}
	if err := one.Merge(two, MergeOptions{RearrangeCmap: true}); err != nil {
		t.Fatal(err)
	}
	again, err := ParseSFNT(one.Write(), 0)
	if err != nil {
		t.Fatal(err)
	}
	if again.Head.IndexToLocFormat != one.Head.IndexToLocFormat {
		t.Fatalf("indexToLocFormat: %d after writing and parsing, was %d", again.Head.IndexToLocFormat, one.Head.IndexToLocFormat)
	}
}
'''
