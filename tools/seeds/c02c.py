id='c02-afm-track-kern'; prop='C02'
needs='an AFM file that announces a huge number of lines of track kerning and ends there'
breaks='the lines of track kerning are skipped without looking whether there are any'
edits=[('afm.go','''	for i := 0; i < n; i++ {
		*j++
		if !scanner.Scan() {
			return fmt.Errorf("afm: invalid char metrics at line %v", *j)
		}
		// TODO
	}
''','''	for i := 0; i < n; i++ {
		*j++
		scanner.Scan()
		// TODO
	}
''')]
demo='''package font

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	b := []byte("StartFontMetrics 4.1\\nStartKernData\\nStartTrackKern 9000000000000000000\\n")
	done := make(chan error)
	go func() {
		_, err := ParseAFM(b)
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
}
'''
