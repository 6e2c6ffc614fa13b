id='c26-partial-read-used'; prop='C26'
needs='a reader that fails after it gave the complete font'
breaks='data that came with a read error is used as if it were complete'
edits=[('font.go','''	b, err := ioutil.ReadAll(r)
	if err != nil {
''','''	b, err := ioutil.ReadAll(r)
	if err != nil && len(b) == 0 {
''')]
demo='''package font

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"testing"
)

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, fmt.Errorf("connection lost") }

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := NewSFNTReader(io.MultiReader(bytes.NewReader(b), failing{})); err == nil {
		t.Fatal("the read error was not reported")
	}
}
'''
