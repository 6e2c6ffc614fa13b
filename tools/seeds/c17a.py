id='c17-collection-mediatype'; prop='C17'
needs='a TrueType collection'
breaks='detection reports a media type for collections that ToSFNT and Extension do not know'
edits=[('font.go','''binary.BigEndian.Uint32(b[:4]) == 0x00010000 || tag == "ttcf" {
		return "font/truetype", nil
''','''binary.BigEndian.Uint32(b[:4]) == 0x00010000 {
		return "font/truetype", nil
	} else if tag == "ttcf" {
		return "font/collection", nil
''')]
demo='''package font

import "testing"

func TestDemo(t *testing.T) {
	b := []byte("ttcf\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x10")
	if _, err := MediaType(b); err != nil {
		t.Fatal(err)
	}
	if _, err := ToSFNT(b); err != nil {
		t.Fatal(err)
	}
	if Extension(b) == "" {
		t.Fatal("no extension")
	}
}
'''
