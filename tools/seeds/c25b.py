id='c25-save-through-neighbour'; prop='C25'
needs='saving the list of fonts next to a file that has the same name with .tmp'
breaks='Save writes a file the caller did not name, and destroys the one that had that name'
edits=[('system.go','''	f, err := os.Create(filename)
	if err != nil {
		return err
	}
	if err = gob.NewEncoder(f).Encode(s); err != nil {
		f.Close()
		return err
	}
	return f.Close()
''','''	// do not leave a half written list behind
	f, err := os.Create(filename + ".tmp")
	if err != nil {
		return err
	}
	if err = gob.NewEncoder(f).Encode(s); err != nil {
		f.Close()
		return err
	}
	if err = f.Close(); err != nil {
		return err
	}
	return os.Rename(f.Name(), filename)
''')]
demo='''package font

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	other := filepath.Join(dir, "fonts.tmp")
	if err := os.WriteFile(other, []byte("mine"), 0644); err != nil {
		t.Fatal(err)
	}
	s := &SystemFonts{Fonts: map[string]map[Style]FontMetadata{}}
	if err := s.Save(filepath.Join(dir, "fonts")); err != nil {
		t.Fatal(err)
	}
	if b, err := os.ReadFile(other); err != nil || string(b) != "mine" {
		t.Fatalf("a file that was not named was touched: %q %v", b, err)
	}
}
'''
