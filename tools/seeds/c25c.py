id='c25-css-extension-added'; prop='C25'
needs='a style sheet that is appended to a file whose name has no extension'
breaks='the command writes a file other than the output it was given'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/css.go','''		if w, err = os.OpenFile(cmd.Output, os.O_APPEND''','''		filename := cmd.Output
		if filepath.Ext(filename) == "" {
			filename += ".css"
		}
		if w, err = os.OpenFile(filename, os.O_APPEND'''),('cmd/fontcmd/css.go','''	"os"
''','''	"os"
	"path/filepath"
''')]
demo='''package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	Warning = log.New(io.Discard, "", 0)
	dir := t.TempDir()
	out := filepath.Join(dir, "style")
	cmd := &CSS{Append: true, Output: out, Selector: ".%n", Input: "../../resources/DejaVuSerif.ttf"}
	if err := cmd.Run(); err != nil {
		t.Fatal(err)
	}
	fis, err := os.ReadDir(dir)
	if err != nil || len(fis) != 1 || fis[0].Name() != "style" {
		t.Fatalf("files written: %v %v", fis, err)
	}
}
'''
