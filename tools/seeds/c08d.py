id='c08-subset-name-view'; prop='C08'
needs='a subset that keeps the name table, of which the names are then asked'
breaks='Subset writes an empty name table but leaves the parsed form of the subset nil'
edits=[('sfnt_subset.go','''			sfnt.Tables[tag] = w.Bytes()

			sfnt.Name = &nameTable{}
''','''			sfnt.Tables[tag] = w.Bytes()
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	sub, err := sfnt.Subset([]uint16{0, 3, 4}, SubsetOptions{Tables: KeepMinTables})
	if err != nil {
		t.Fatal(err)
	}
	if len(sub.Name.Get(NameFontFamily)) != 0 {
		t.Fatal("name")
	}
}
'''
