id='c25-budget-used-up'; prop='C25'
needs='several WOFF fonts parsed by one process, none of them large'
breaks='each conversion lowers the package-wide MaxMemory, so that after some of them valid fonts are refused'
edits=[('woff.go','''	if MaxMemory < totalSfntSize {
		return nil, ErrExceedsMemory
	}
''','''	if MaxMemory < totalSfntSize {
		return nil, ErrExceedsMemory
	}
	MaxMemory -= totalSfntSize
''')]
demo='''package font

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.woff")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200; i++ {
		if _, err := ParseWOFF(b); err != nil {
			t.Fatalf("parse %d: %v", i, err)
		}
	}
}
'''
