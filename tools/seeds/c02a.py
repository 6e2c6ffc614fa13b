id='c02-glyf-repeat-wrap'; prop='C02'
needs='a simple glyph in which a flag is repeated 255 times'
breaks='the counter over the repeats of a flag is a byte and never gets past 255'
edits=[('sfnt_truetype.go','''				for j := 1; j <= int(repeats); j++ {
					flags[i+j] = flags[i]
					contour.OnCurve[i+j] = contour.OnCurve[i]
					contour.OverlapSimple[i+j] = contour.OverlapSimple[i]
				}
''','''				for j := uint8(1); j <= repeats; j++ {
					flags[i+int(j)] = flags[i]
					contour.OnCurve[i+int(j)] = contour.OnCurve[i]
					contour.OverlapSimple[i+int(j)] = contour.OverlapSimple[i]
				}
''')]
demo='''package font

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	// one contour of 257 points, all flags equal, no instructions
	b := []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0x39, 255, 0x39}
	glyf := &glyfTable{data: b, loca: &locaTable{Format: 1, data: []byte{0, 0, 0, 0, 0, 0, 0, byte(len(b))}}}
	done := make(chan error)
	go func() {
		_, err := glyf.Contour(0)
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
}
'''
