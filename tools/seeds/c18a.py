id='c18-stemsnap-guard'; prop='C18'
needs='a CFF font whose UnderlineThickness differs from the default, written and read again'
breaks='UnderlineThickness is left out for the value -100 (the default of UnderlinePosition) and written over the default 50; worse, a font with thickness -100 loses it; StemSnapV is written from StemSnapH'
edits=[('sfnt_cff.go','if len(t.StemSnapV) != 0 {','if len(t.StemSnapH) != 0 {')]
breaks='the vertical stem list is only written when there is a horizontal one'
needs='a CFF font with StemSnapV but no StemSnapH, written and read again'
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	d := &cffPrivateDICT{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1, ExpansionFactor: 0.06, StemSnapV: []float64{30, 5, 5}}
	b, err := d.Write()
	if err != nil {
		t.Fatal(err)
	}
	d2, err := parsePrivateDICT(b, false)
	if err != nil {
		t.Fatal(err)
	}
	if len(d2.StemSnapV) != 3 || d2.StemSnapV[0] != 30 {
		t.Fatal(d2.StemSnapV)
	}
}
'''
