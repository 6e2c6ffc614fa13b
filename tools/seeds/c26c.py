id='c26-damaged-glyph-bounds'; prop='C26'
needs='the bounds of a glyph whose outline data ends early'
breaks='asking for the bounds of a damaged glyph of a font crashes'
edits=[('sfnt.go','''		contour, err := sfnt.Glyf.Contour(glyphID)
		if err == nil {
''','''		contour, err := sfnt.Glyf.Contour(glyphID)
		if err == nil || glyphID < sfnt.NumGlyphs() {
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	s, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	glyphID := s.GlyphIndex('A')
	g := append([]byte(nil), s.Tables["glyf"]...)
	start, _ := s.Glyf.loca.Get(glyphID)
	g[start], g[start+1] = 0x7F, 0xFF // more contours than there is data
	s.Glyf.data = g
	if x0, y0, x1, y1 := s.GlyphBounds(glyphID); x0 != 0 || y0 != 0 || x1 != 0 || y1 != 0 {
		t.Fatal("bounds of a damaged glyph")
	}
}
'''
