id='c16-post-only-truetype'; prop='C16'
needs='an OpenType/CFF font'
breaks='the required post table is checked for presence but only parsed for TrueType fonts, so a CFF font is returned without it'
edits=[('sfnt.go','''			err = sfnt.parsePost()
''','''			if sfnt.IsTrueType { // glyph names are in the CFF table otherwise
				err = sfnt.parsePost()
			}
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/EBGaramond12-Regular.otf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	if sfnt.Post == nil {
		t.Fatal("required post table not parsed")
	}
}
'''
