id='c09-post-both-ways'; prop='C09'
needs='a post table with different minimum and maximum memory for Type 42 and Type 1; the parsed form and the rebuilt table agree with each other'
breaks='the parser and the writer of the post table both have maxMemType42 and minMemType1 in the order min42, min1, max42, max1'
edits=[('sfnt.go','''	sfnt.Post.MaxMemType42 = r.ReadUint32()
	sfnt.Post.MinMemType1 = r.ReadUint32()
''','''	sfnt.Post.MinMemType1 = r.ReadUint32()
	sfnt.Post.MaxMemType42 = r.ReadUint32()
'''),('sfnt.go','''	w.WriteUint32(post.MaxMemType42)
	w.WriteUint32(post.MinMemType1)
''','''	w.WriteUint32(post.MinMemType1)
	w.WriteUint32(post.MaxMemType42)
''')]
demo='''package font

import (
	"encoding/binary"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := os.ReadFile("resources/DejaVuSerif.ttf")
	if err != nil {
		t.Fatal(err)
	}
	sfnt, err := ParseSFNT(b, 0)
	if err != nil {
		t.Fatal(err)
	}
	table := append([]byte(nil), sfnt.Tables["post"]...)
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint32(table[16+4*i:], uint32(i+1))
	}
	sfnt.Tables["post"] = table
	if err := sfnt.parsePost(); err != nil {
		t.Fatal(err)
	}
	p := sfnt.Post
	if p.MinMemType42 != 1 || p.MaxMemType42 != 2 || p.MinMemType1 != 3 || p.MaxMemType1 != 4 {
		t.Fatal(p.MinMemType42, p.MaxMemType42, p.MinMemType1, p.MaxMemType1)
	}
}
'''
