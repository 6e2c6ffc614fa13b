id='c13-quiet-forces'; prop='C13'
needs='a merge in quiet mode, without force, to an output that exists'
breaks='quiet mode skips the overwrite question and overwrites the file without consent'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/merge.go','cmd.Encoding, cmd.Force, sfnt)','cmd.Encoding, cmd.Force || cmd.Quiet, sfnt)')]
demo='''package main

import (
	"log"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	out := dir + "/out.ttf"
	if err := os.WriteFile(out, []byte("precious"), 0644); err != nil {
		t.Fatal(err)
	}
	null, _ := os.Open("/dev/null")
	os.Stdin = null
	Warning = log.New(os.Stderr, "", 0)
	cmd := &Merge{Quiet: true, Outputs: []string{out}, Inputs: []string{"../../resources/DejaVuSerif.ttf"}}
	err := cmd.Run()
	b, _ := os.ReadFile(out)
	if string(b) != "precious" {
		t.Fatal("overwritten without consent", err)
	}
}
'''
