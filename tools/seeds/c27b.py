id='c27-woff2-not-encoded'; prop='C27'
needs='base64 output of a WOFF2 font'
breaks='the encoding is dropped for one of the output formats'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/util.go','''	if encoding == "base64" {
''','''	if encoding == "base64" && mimetype != "font/woff2" {
''')]
demo='''package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	Warning = log.New(io.Discard, "", 0)
	for _, name := range []string{"a.ttf", "a.woff2"} {
		out := filepath.Join(t.TempDir(), name)
		cmd := &Subset{Quiet: true, Chars: []string{"a"}, Encoding: "base64", Outputs: []string{out}, Input: "../../resources/DejaVuSerif.ttf"}
		if err := cmd.Run(); err != nil {
			t.Fatal(err)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			t.Fatal(err)
		}
		for _, c := range b {
			if c < '+' || 'z' < c {
				t.Fatalf("%s: not base64", name)
			}
		}
	}
}
'''
