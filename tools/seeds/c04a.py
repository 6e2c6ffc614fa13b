id='c04-woff-padding-append'; prop='C04'
needs='a WOFF file with an uncompressed table whose length is not a multiple of four and non-zero bytes after it'
breaks='ParseWOFF appends the padding to a slice that still has capacity in the caller\'s buffer, so the bytes after the table are overwritten with zeros'
edits=[('woff.go','data := b[table.offset : table.offset+table.length : table.offset+table.length]','data := b[table.offset : table.offset+table.length]')]
demo='''package font

import (
	"bytes"
	"encoding/binary"
	"testing"
)

func TestDemo(t *testing.T) {
	// two uncompressed tables: a 5-byte table and a 12-byte head, no padding bytes between them but 0xAA fill
	type tab struct {
		tag  string
		data []byte
	}
	tabs := []tab{{"abcd", []byte{1, 2, 3, 4, 5}}, {"head", make([]byte, 12)}}
	n := 44 + 20*len(tabs)
	buf := make([]byte, n)
	copy(buf, "wOFF\\x00\\x01\\x00\\x00")
	binary.BigEndian.PutUint16(buf[12:], uint16(len(tabs)))
	sfntSize := 12 + 16*len(tabs)
	for i, tb := range tabs {
		e := buf[44+20*i:]
		copy(e, tb.tag)
		binary.BigEndian.PutUint32(e[4:], uint32(len(buf)))
		binary.BigEndian.PutUint32(e[8:], uint32(len(tb.data)))
		binary.BigEndian.PutUint32(e[12:], uint32(len(tb.data)))
		padded := append([]byte(nil), tb.data...)
		for len(padded)%4 != 0 {
			padded = append(padded, 0)
		}
		binary.BigEndian.PutUint32(e[16:], calcChecksum(padded))
		sfntSize += len(padded)
		buf = append(buf, tb.data...)
		for len(buf)%4 != 0 {
			buf = append(buf, 0xAA)
		}
	}
	binary.BigEndian.PutUint32(buf[8:], uint32(len(buf)))
	binary.BigEndian.PutUint32(buf[16:], uint32(sfntSize))
	orig := append([]byte(nil), buf...)
	if _, err := ParseWOFF(buf); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(orig, buf) {
		t.Fatal("the caller's buffer was modified")
	}
}
'''
