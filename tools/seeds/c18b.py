id='c18-bluescale-default'; prop='C18'
needs='a CFF font whose BlueScale is exactly 0.04 (or the entry is absent), written and read again'
breaks='the writer leaves BlueScale out for 0.04 while the reader assumes 0.039625 for a missing entry'
edits=[('sfnt_cff.go','if t.BlueScale != 0.039625 {','if t.BlueScale != 0.04 {')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	d := &cffPrivateDICT{BlueScale: 0.04, BlueShift: 7, BlueFuzz: 1, ExpansionFactor: 0.06}
	b, err := d.Write()
	if err != nil {
		t.Fatal(err)
	}
	d2, err := parsePrivateDICT(b, false)
	if err != nil {
		t.Fatal(err)
	}
	if d2.BlueScale < 0.0399 {
		t.Fatal(d2.BlueScale)
	}
}
'''
