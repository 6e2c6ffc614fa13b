id='c14-parse-extrabold'; prop='C14'
needs='the style ExtraBold printed and parsed again'
breaks='the printed name ExtraBold is not among the names ParseStyle knows any more, it gives UnknownStyle'
edits=[('system.go','case "ExtraBold", "Extra Bold":','case "Extrabold", "Extra Bold":')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []Style{Thin, ExtraLight, Light, Regular, Medium, SemiBold, Bold, ExtraBold, Black} {
		for _, i := range []Style{0, Italic} {
			if got := ParseStyle((s | i).String()); got != s|i {
				t.Fatalf("%v: got %v", s|i, got)
			}
		}
	}
}
'''
