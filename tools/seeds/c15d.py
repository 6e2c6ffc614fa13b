id='c15-range-threshold'; prop='C15'
needs='a subset of a font with an OS/2 table that keeps letters of the end of the Lao block'
breaks='the border between Lao and Tibetan is 0x0EE0, so that U+0EE0 to U+0EFF count as Tibetan'
edits=[('sfnt_os2.go','r < 0x0F00 {','r < 0x0EE0 {')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	for r := rune(0x0E80); r < 0x0F00; r++ {
		if v := os2UlUnicodeRange([]rune{r}); v != [4]uint32{1 << 25, 0, 0, 0} {
			t.Fatalf("%x %x", r, v)
		}
	}
}
'''
