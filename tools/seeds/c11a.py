id='c11-style-order'; prop='C11'
needs='a family of which both the upright and the italic face of one weight are installed'
breaks='SystemFonts.String sorts the styles of a family by weight only, so upright and italic of a weight come in the iteration order of a map'
edits=[('system.go','return styles[i] < styles[j]','return styles[i]&^Italic < styles[j]&^Italic')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	s := &SystemFonts{Fonts: map[string]map[Style]FontMetadata{}}
	for _, style := range []Style{Regular, Regular | Italic, Bold, Bold | Italic, Light, Light | Italic, Black, Black | Italic} {
		s.Add(FontMetadata{Family: "A", Style: style})
	}
	first := s.String()
	for i := 0; i < 200; i++ {
		if str := s.String(); str != first {
			t.Fatalf("%q != %q", str, first)
		}
	}
}
'''
