id='c26-name-table-at-the-end'; prop='C26'
needs='a font file in a searched directory that ends where its name table should begin'
breaks='searching for fonts crashes on a truncated file instead of passing over it'
edits=[('system.go','''	nameTable, err := read(r, 6)
	if err != nil {
''','''	nameTable, err := read(r, 6)
	if err != nil && err != io.EOF {
''')]
demo='''package font

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := make([]byte, 28)
	copy(b, "\\x00\\x01\\x00\\x00\\x00\\x01")
	copy(b[12:], "name")
	b[23] = 28
	if err := os.WriteFile(filepath.Join(dir, "a.ttf"), b, 0644); err != nil {
		t.Fatal(err)
	}
	fonts, err := FindSystemFonts([]string{dir})
	if err != nil {
		t.Fatal(err)
	} else if len(fonts.Fonts) != 0 {
		t.Fatal("a truncated font was listed")
	}
}
'''
