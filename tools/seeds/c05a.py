id='c05-post-find-once'; prop='C05'
needs='two goroutines that look up a glyph name on the same font for the first time at the same moment'
breaks='the lazily built name map is guarded by a nil test instead of the once-guard, so concurrent first lookups race and one can read a half-filled map'
edits=[('sfnt.go','''	post.once.Do(func() {
		post.nameMap = make(''','''	if post.nameMap == nil {
		post.nameMap = make('''),('sfnt.go','''				post.nameMap[name] = uint16(glyphID) // the first glyph with this name
			}
		}
	})
''','''				post.nameMap[name] = uint16(glyphID) // the first glyph with this name
			}
		}
	}
''')]
demo='''package font

import (
	"os"
	"os/exec"
	"testing"
)

func TestDemo(t *testing.T) {
	// the map must be filled by the time any lookup returns: run the lookups under the race detector
	if os.Getenv("DEMO_CHILD") == "" {
		exe := os.Getenv("DEMO_OVERLAY")
		cmd := exec.Command("go", "test", "-race", "-vet=off", "-count=1", "-overlay", exe, "-run", "^TestDemo$", ".")
		cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatalf("%v\\n%s", err, out)
		}
		return
	}
	post := &postTable{NumGlyphs: 200}
	for i := 0; i < 200; i++ {
		post.glyphNameIndex = append(post.glyphNameIndex, uint16(i))
	}
	done := make(chan uint16)
	for g := 0; g < 4; g++ {
		go func() {
			id, _ := post.Find("A")
			done <- id
		}()
	}
	for g := 0; g < 4; g++ {
		if id := <-done; id != 36 {
			t.Errorf("A: got %d", id)
		}
	}
}
'''
