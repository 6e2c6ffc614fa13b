id='c25-no-dirs-means-default'; prop='C25'
needs='a search for fonts in an empty list of directories while HOME has a .fonts directory'
breaks='FindSystemFonts searches directories that the caller did not name, found through the environment'
edits=[('system.go','''	// TODO: use concurrency
	fonts := &SystemFonts{''','''	// TODO: use concurrency
	if len(dirs) == 0 {
		dirs = DefaultFontDirs()
	}
	fonts := &SystemFonts{''')]
demo='''package font

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	if err := os.Mkdir(filepath.Join(home, ".fonts"), 0755); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(home, ".fonts", "a.ttf"), b, 0644); err != nil {
		t.Fatal(err)
	}
	t.Setenv("HOME", home)
	fonts, err := FindSystemFonts(nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(fonts.Fonts) != 0 {
		t.Fatalf("fonts found in no directory at all: %v", fonts)
	}
}
'''
