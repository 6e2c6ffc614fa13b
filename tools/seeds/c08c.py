id='c08-vmtx-without-vhea'; prop='C08'
needs='a font with a vmtx table and no vhea table that is merged with another font'
breaks='the vmtx table is silently left unparsed when there is no vhea table: the table is there without its parsed form, which the code that goes by the presence of the table (Merge, Subset) dereferences'
edits=[('sfnt.go','''		case "vmtx":
			err = sfnt.parseVmtx()
''','''		case "vmtx":
			if sfnt.Vhea != nil { // cannot be read without the number of metrics
				err = sfnt.parseVmtx()
			}
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	sfnt.Tables["vmtx"] = []byte{1, 2, 3, 4}
	sfnt, err = ParseSFNT(sfnt.Write(), 0)
	if err != nil {
		return // refused
	}
	if _, ok := sfnt.Tables["vmtx"]; ok && sfnt.Vmtx == nil {
		if _, err := sfnt.Subset([]uint16{0, 3}, SubsetOptions{Tables: KeepAllTables}); err != nil {
			return
		}
	}
}
'''
