id='c13-stat-other-name'; prop='C13'
needs='an existing output file whose name ends in a path separator-free relative directory, i.e. any output in another directory'
needs='an existing output file in another directory than the working directory'
breaks='the existence of the output is tested for its base name only, so a file in another directory is overwritten without asking'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/util.go','if _, err := os.Stat(filename); err == nil {','if _, err := os.Stat(filepath.Base(filename)); err == nil {'),('cmd/fontcmd/util.go','	"os"\n','	"os"\n	"path/filepath"\n')]
demo='''package main

import (
	"os"
	"testing"

	"github.com/tdewolff/font"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	out := dir + "/out.ttf"
	if err := os.WriteFile(out, []byte("precious"), 0644); err != nil {
		t.Fatal(err)
	}
	null, _ := os.Open("/dev/null")
	os.Stdin = null
	b, err := os.ReadFile("../../resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	_, err = writeFont(out, "font/truetype", "", false, sfnt)
	b, _ = os.ReadFile(out)
	if string(b) != "precious" {
		t.Fatal("overwritten without consent", err)
	}
}
'''
