id='c15-cff-sid-border'; prop='C15'
needs='a CFF font whose String INDEX holds its own strings, looked up by number'
breaks='the number of a string of the font itself is looked up one entry too far'
edits=[('sfnt_cff.go','	sid -= len(cffStandardStrings)\n','	sid = sid - len(cffStandardStrings) + 1\n')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	index := &cffINDEX{}
	index.AddSID([]byte("ownfirst"))
	index.AddSID([]byte("ownsecond"))
	if s := index.GetSID(index.AddSID([]byte("ownsecond"))); s != "ownsecond" {
		t.Fatal(s)
	}
}
'''
