id='c27-quiet-reports-to-file'; prop='C27'
needs='a quiet merge to a file'
breaks='the quiet option no longer keeps the report from standard output'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/merge.go','''		if !cmd.Quiet && output != "-" {
''','''		if !(cmd.Quiet && output == "-") {
''')]
demo='''package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	Warning = log.New(io.Discard, "", 0)
	dir := t.TempDir()
	f, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		t.Fatal(err)
	}
	orig := os.Stdout
	os.Stdout = f
	cmd := &Merge{Quiet: true, Outputs: []string{filepath.Join(dir, "out.ttf")}, Inputs: []string{"../../resources/DejaVuSerif.ttf"}}
	err = cmd.Run()
	os.Stdout = orig
	f.Close()
	if err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(f.Name()); len(b) != 0 {
		t.Fatalf("quiet, but printed %q", b)
	}
}
'''
