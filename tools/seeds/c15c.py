id='c15-woff2-tag-order'; prop='C15'
needs='a WOFF2 file that carries a bdat or bloc table under its known-table number'
breaks='the known-table numbers of bdat and bloc are exchanged; files written and read here still agree with each other, files of others do not'
edits=[('woff2.go','"bdat", "bloc"','"bloc", "bdat"')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	if woff2TableTags[40] != "bdat" || woff2TableTags[41] != "bloc" {
		t.Fatal(woff2TableTags[40], woff2TableTags[41])
	}
}
'''
