id='c27-range-above-the-plane'; prop='C27'
needs='a unicode category or script whose characters lie above U+FFFF'
breaks='glyphs of the named range above the basic plane are not kept'
sub='cmd/fontcmd/'
edits=[('cmd/fontcmd/subset.go','''		for _, ran := range table.R32 {
			for r := int64(ran.Lo); r <= int64(ran.Hi); r += int64(ran.Stride) {
				glyphID := sfnt.GlyphIndex(rune(r))
				if glyphID != 0 {
					glyphMap[glyphID] = true
				}
			}
		}
''','')]
demo='''package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"
	"unicode"

	"github.com/tdewolff/font"
)

func read(t *testing.T, name string) *font.SFNT {
	b, err := os.ReadFile(name)
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := font.ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	return sfnt
}

func TestDemo(t *testing.T) {
	Warning = log.New(io.Discard, "", 0)
	in := "../../resources/DejaVuSerif.ttf"
	sfnt := read(t, in)
	for name, table := range unicode.Categories {
		want := 0
		for _, ran := range table.R32 {
			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
				if sfnt.GlyphIndex(rune(r)) != 0 {
					want++
				}
			}
		}
		if want == 0 {
			continue
		}
		out := filepath.Join(t.TempDir(), "a.ttf")
		cmd := &Subset{Quiet: true, UnicodeRanges: []string{name}, Outputs: []string{out}, Input: in}
		if err := cmd.Run(); err != nil {
			t.Fatal(err)
		}
		sub := read(t, out)
		got := 0
		for _, ran := range table.R32 {
			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
				if sub.GlyphIndex(rune(r)) != 0 {
					got++
				}
			}
		}
		if got != want {
			t.Fatalf("%s: %d of %d characters kept", name, got, want)
		}
	}
}
'''
