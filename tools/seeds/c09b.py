id='c09-os2-merge-range'; prop='C09'
needs='Merge of two fonts whose third and fourth Unicode range words differ, and a look at the bytes of the table of the result'
breaks='Merge writes the words of ulUnicodeRange3 and ulUnicodeRange4 at the place of the other, the parsed form is right'
edits=[('sfnt_merge.go','''		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
''','''		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange3)
		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange4)
''')]
demo='''package font

import (
	"encoding/binary"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	x, err := sfnt.Subset([]uint16{0, sfnt.GlyphIndex('a')}, SubsetOptions{Tables: KeepAllTables})
	if err != nil {
		t.Fatal(err)
	}
	y, err := sfnt.Subset([]uint16{0, sfnt.GlyphIndex('b')}, SubsetOptions{Tables: KeepAllTables})
	if err != nil {
		t.Fatal(err)
	}
	x.OS2.UlUnicodeRange3, x.OS2.UlUnicodeRange4 = 1, 2
	if err := x.Merge(y, MergeOptions{}); err != nil {
		t.Fatal(err)
	}
	table := x.Tables["OS/2"]
	if a, b := binary.BigEndian.Uint32(table[50:]), binary.BigEndian.Uint32(table[54:]); a != x.OS2.UlUnicodeRange3 || b != x.OS2.UlUnicodeRange4 {
		t.Fatal(a, b, x.OS2.UlUnicodeRange3, x.OS2.UlUnicodeRange4)
	}
}
'''
