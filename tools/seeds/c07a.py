id='c07-dependencies-error'; prop='C07'
needs='a TrueType font with a composite glyph that refers to a broken component'
breaks='glyfTable.Dependencies skips components that cannot be read instead of reporting the error, so Subset reports success for a broken glyph'
edits=[('sfnt_truetype.go','''			if err != nil {
				return nil, err
			}
			deps = append(deps, subDeps...)
''','''			if err == nil {
				deps = append(deps, subDeps...)
			}
''')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	// glyph 0: composite of glyph 1; glyph 1: truncated header
	data := []byte{0xFF, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x02, 0, 1, 0, 0, 1, 2, 3, 4}
	glyf := &glyfTable{data: data, loca: &locaTable{Format: 0, data: []byte{0, 0, 0, 8, 0, 10}}}
	if _, err := glyf.Dependencies(1); err == nil {
		t.Fatal("glyph 1 must be bad")
	}
	if deps, err := glyf.Dependencies(0); err == nil {
		t.Fatal("no error for a composite with a broken component", deps)
	}
}
'''
