id='c12-css-flush-lost'; prop='C12'
needs='a disk that fills up while the style sheet is written'
breaks='the failure to flush the style sheet is not reported, the truncated file counts as written'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/css.go','''	if err := b.Flush(); err != nil {
		w.Close()
		return err
	} else if err := w.Close(); err != nil {
		return err
	}
	return nil
''','''	b.Flush()
	return w.Close()
''')]
demo='''package main

import (
	"io"
	"log"
	"testing"
)

func TestDemo(t *testing.T) {
	Warning = log.New(io.Discard, "", 0)
	cmd := &CSS{Force: true, Output: "/dev/full", Selector: ".%n", Input: "../../resources/DejaVuSerif.ttf"}
	if err := cmd.Run(); err == nil {
		t.Fatal("writing to a full device reported success")
	}
}
'''
