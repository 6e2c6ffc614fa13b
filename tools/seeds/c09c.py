id='c09-vhea-caret'; prop='C09'
needs='a font with a vhea table whose caret slope is not upright'
breaks='the vertical caret slope is read as run, rise instead of rise, run'
edits=[('sfnt.go','''	sfnt.Vhea.CaretSlopeRise = r.ReadInt16()
	sfnt.Vhea.CaretSlopeRun = r.ReadInt16()
''','''	sfnt.Vhea.CaretSlopeRun = r.ReadInt16()
	sfnt.Vhea.CaretSlopeRise = r.ReadInt16()
''')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 36)
	b[1] = 1  // major version
	b[19] = 3 // caretSlopeRise
	b[21] = 5 // caretSlopeRun
	b[35] = 1 // numberOfVMetrics
	sfnt := &SFNT{Tables: map[string][]byte{"vhea": b}, Maxp: &maxpTable{NumGlyphs: 1}}
	if err := sfnt.parseVhea(); err != nil {
		t.Fatal(err)
	}
	if sfnt.Vhea.CaretSlopeRise != 3 || sfnt.Vhea.CaretSlopeRun != 5 {
		t.Fatal(sfnt.Vhea.CaretSlopeRise, sfnt.Vhea.CaretSlopeRun)
	}
}
'''
