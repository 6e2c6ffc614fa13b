id='c27-explicit-type-loses'; prop='C27'
needs='an explicit output type with an output file whose extension says something else'
breaks='the explicitly set type is ignored when the file has a known extension'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/subset.go','''		if cmd.Type != "" {
			mimetype = cmd.Type
		} else if mimetype == "" {
			mimetype = rMimetype
		}
''','''		if mimetype == "" {
			mimetype = cmd.Type
		}
		if mimetype == "" {
			mimetype = rMimetype
		}
''')]
demo='''package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	Warning = log.New(io.Discard, "", 0)
	out := filepath.Join(t.TempDir(), "a.ttf")
	cmd := &Subset{Quiet: true, Chars: []string{"a"}, Type: "font/woff2", Outputs: []string{out}, Input: "../../resources/DejaVuSerif.ttf"}
	if err := cmd.Run(); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(out)
	if err != nil || string(b[:4]) != "wOF2" {
		t.Fatalf("not the type that was asked for: %q %v", b[:4], err)
	}
}
'''
