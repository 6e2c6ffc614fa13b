id='c15-mac-swap'; prop='C15'
needs='a post table of version 2 that names a glyph with the standard number 227 or 228'
breaks='two neighbouring entries of the Macintosh glyph order are exchanged, so that standard numbers 227 and 228 decode to the wrong names'
edits=[('sfnt_data.go','	"Lslash",\n	"lslash",\n	"Scaron",','	"lslash",\n	"Lslash",\n	"Scaron",')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	post := &postTable{glyphNameIndex: []uint16{0, 226, 227, 228}}
	if post.Get(1) != "Lslash" || post.Get(2) != "lslash" || post.Get(3) != "Scaron" {
		t.Fatal(post.Get(1), post.Get(2), post.Get(3))
	}
}
'''
