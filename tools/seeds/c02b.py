id='c02-charstring-tail-call'; prop='C02'
needs='a CFF subroutine that ends with a call of itself'
breaks='calls at the end of a subroutine do not count for the depth of nesting'
edits=[('sfnt_cff.go','''				stack = stack[:len(stack)-1]

				callStack = append(callStack, r)
				r = newBinaryReader(subr)
			case cffReturn:''','''				stack = stack[:len(stack)-1]

				if 0 < r.Len() || len(callStack) == 0 {
					callStack = append(callStack, r)
				} // otherwise nothing is left to do after the return
				r = newBinaryReader(subr)
			case cffReturn:''')]
demo='''package font

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	subrs := &cffINDEX{}
	subrs.Add([]byte{32, 29}) // -107 callgsubr
	chars := &cffINDEX{}
	chars.Add([]byte{32, 29, 14})
	cff := &cffTable{version: 1, top: &cffTopDICT{}, globalSubrs: subrs, charStrings: chars, fonts: &cffFontINDEX{}}
	done := make(chan error)
	go func() {
		done <- cff.parseCharString(0, func(*binaryReader, int32, []int32) error { return nil })
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
}
'''
