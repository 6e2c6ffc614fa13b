id='c12-readfont-leak'; prop='C12'
needs='an input that can be opened but not read (a directory)'
breaks='the file stays open when reading it fails'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/util.go','''	if err != nil {
		r.Close()
		return nil, "", 0, err
	} else if err := r.Close(); err != nil {
		return nil, "", 0, err
	}

	n := len(b)''','''	if err != nil {
		return nil, "", 0, err
	} else if err := r.Close(); err != nil {
		return nil, "", 0, err
	}

	n := len(b)''')]
demo='''package main

import (
	"os"
	"runtime/debug"
	"testing"
)

func TestDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	dir := t.TempDir()
	count := func() (n int) {
		ds, _ := os.ReadDir("/proc/self/fd")
		for _, d := range ds {
			if s, _ := os.Readlink("/proc/self/fd/" + d.Name()); s == dir {
				n++
			}
		}
		return n
	}
	if _, _, _, err := readFont(dir, 0); err == nil {
		t.Fatal("no error")
	} else if n := count(); n != 0 {
		t.Fatal("left open:", n)
	}
}
'''
