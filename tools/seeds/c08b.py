id='c08-os2-estimate'; prop='C08'
needs='a TrueType font without an OS/2 table, which is optional there'
breaks='ParseSFNT looks at the version of the OS/2 table although the font has none'
edits=[('sfnt.go','''	if sfnt.OS2 != nil && sfnt.OS2.Version <= 1 {
		sfnt.estimateOS2()
	}''','''	if !embedded && sfnt.OS2.Version <= 1 {
		sfnt.estimateOS2()
	}''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	delete(sfnt.Tables, "OS/2")
	sfnt, err = ParseSFNT(sfnt.Write(), 0)
	if err != nil {
		t.Fatal(err)
	}
	if sfnt.OS2 != nil {
		t.Fatal("OS/2 table")
	}
}
'''
