id='c12-scan-leak'; prop='C12'
needs='a font directory that holds a file which is not a font'
breaks='files with other extensions are opened during a font scan and never closed'
edits=[('system.go','''			var getMetadata func(io.ReadSeeker) (FontMetadata, error)
			switch''','''			f, err := os.Open(path)
			if err != nil {
				return nil
			}

			var getMetadata func(io.ReadSeeker) (FontMetadata, error)
			switch'''),('system.go','''				f, err := os.Open(path)
				if err != nil {
					return nil
				}
				defer f.Close()

				metadata, err''','''				defer f.Close()

				metadata, err''')]
demo='''package font

import (
	"os"
	"runtime/debug"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	dir := t.TempDir()
	if err := os.WriteFile(dir+"/readme.txt", []byte("x"), 0644); err != nil {
		t.Fatal(err)
	}
	if _, err := FindSystemFonts([]string{dir}); err != nil {
		t.Fatal(err)
	}
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if s, _ := os.Readlink("/proc/self/fd/" + d.Name()); strings.HasPrefix(s, dir) {
			t.Fatal("left open:", s)
		}
	}
}
'''
