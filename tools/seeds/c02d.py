id='c02-components-own-metrics'; prop='C02'
needs='a composite glyph that has itself as a component and takes the metrics of that component'
breaks='components that give the glyph its metrics do not count for the depth of nesting'
edits=[('sfnt_truetype.go','''			subDeps, err := glyf.dependencies(subGlyphID, level+1)
			if err''','''			subLevel := level + 1
			if flags&0x0200 != 0 { // USE_MY_METRICS
				subLevel = level // stands for the glyph itself
			}
			subDeps, err := glyf.dependencies(subGlyphID, subLevel)
			if err''')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	// glyph 0 is made of glyph 0
	b := []byte{255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0}
	glyf := &glyfTable{data: b, loca: &locaTable{Format: 1, data: []byte{0, 0, 0, 0, 0, 0, 0, byte(len(b))}}}
	if _, err := glyf.Dependencies(0); err == nil {
		t.Fatal("no error")
	}
}
'''
