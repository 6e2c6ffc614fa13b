id='c27-rearrange-first-merge-only'; prop='C27'
needs='merging three fonts with rearranged code points'
breaks='the option to rearrange the mapping is not passed on from the third input on'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/merge.go','''	for _, input := range cmd.Inputs[1:] {
''','''	for i, input := range cmd.Inputs[1:] {
'''),('cmd/fontcmd/merge.go','''			RearrangeCmap: cmd.RearrangeCmap,
''','''			RearrangeCmap: cmd.RearrangeCmap && i == 0, // once
''')]
demo='''package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/tdewolff/font"
)

func TestDemo(t *testing.T) {
	Warning = log.New(io.Discard, "", 0)
	dir := t.TempDir()
	var inputs []string
	for _, c := range []string{"a-c", "e-h", "p-t"} {
		out := filepath.Join(dir, c+".ttf")
		cmd := &Subset{Quiet: true, Chars: []string{c}, Outputs: []string{out}, Input: "../../resources/DejaVuSerif.ttf"}
		if err := cmd.Run(); err != nil {
			t.Fatal(err)
		}
		inputs = append(inputs, out)
	}
	out := filepath.Join(dir, "out.ttf")
	cmd := &Merge{Quiet: true, RearrangeCmap: true, Outputs: []string{out}, Inputs: inputs}
	if err := cmd.Run(); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	for i := uint16(1); i < sfnt.NumGlyphs(); i++ {
		if g := sfnt.GlyphIndex(rune(32 + i)); g != i {
			t.Fatalf("code point %d gives glyph %d instead of %d", 32+i, g, i)
		}
	}
}
'''
