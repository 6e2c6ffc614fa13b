id='c13-css-early-create'; prop='C13'
needs='the css command with an input that is not a font and an output that is forced'
breaks='the output file is created (and truncated) before the input is read and parsed, so a failing command destroys the old output'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/css.go','''	// read from file and parse font
	sfnt, _, _, err := readFont(cmd.Input, cmd.Index)
	if err != nil {
		return err
	}

	// write CSS file
	var w io.WriteCloser
''','''	// write CSS file
	var err error
	var w io.WriteCloser
'''),('cmd/fontcmd/css.go','''	// write CSS classes
''','''	// read from file and parse font
	sfnt, _, _, err := readFont(cmd.Input, cmd.Index)
	if err != nil {
		w.Close()
		return err
	}

	// write CSS classes
''')]
demo='''package main

import (
	"log"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	out := dir + "/out.css"
	if err := os.WriteFile(out, []byte("precious"), 0644); err != nil {
		t.Fatal(err)
	}
	in := dir + "/in.ttf"
	if err := os.WriteFile(in, []byte("not a font"), 0644); err != nil {
		t.Fatal(err)
	}
	Warning = log.New(os.Stderr, "", 0)
	cmd := &CSS{Force: true, Output: out, Input: in}
	err := cmd.Run()
	if err == nil {
		t.Fatal("must fail")
	}
	b, _ := os.ReadFile(out)
	if string(b) != "precious" {
		t.Fatal("output destroyed although the input could not be parsed")
	}
}
'''
