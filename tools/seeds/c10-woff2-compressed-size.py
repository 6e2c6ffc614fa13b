id='c10-woff2-compressed-size'; prop='C10'
needs='compressed data whose end is not at a multiple of four'
breaks='totalCompressedSize in the header of a WOFF2 file includes the null bytes that pad the file'
edits=[('woff2.go', '\ttotalCompressedSize := w.Len() - headerLength // should not include null bytes (see https://github.com/fontforge/fontforge/issues/5101#issuecomment-1414201810)\n', ''), ('woff2.go', '\tb := w.Bytes()\n\tbinary.BigEndian.PutUint32(b[8:], uint32(len(b)))               // length\n', '\tb := w.Bytes()\n\ttotalCompressedSize := w.Len() - headerLength\n\tbinary.BigEndian.PutUint32(b[8:], uint32(len(b)))               // length\n')]
demo='package font\n\nimport (\n\t"bytes"\n\t"encoding/binary"\n\t"os"\n\t"testing"\n\t"github.com/andybalholm/brotli"\n)\n\nfunc TestDemo(t *testing.T) {\n\tb, err := os.ReadFile("resources/DejaVuSerif.ttf")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor extra := 0; extra < 12; extra++ {\n\t\tsfnt, err := ParseSFNT(b, 0)\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tprivate := make([]byte, extra)\n\t\tfor i := range private {\n\t\t\tprivate[i] = byte(37 * i * extra)\n\t\t}\n\t\tsfnt.Tables["Zpri"] = private\n\t\tout, err := sfnt.WriteWOFF2()\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif int(binary.BigEndian.Uint32(out[8:])) != len(out) || len(out)%4 != 0 {\n\t\t\tt.Fatal("bad length")\n\t\t}\n\t\t// the stream that ends with the file, less up to three null bytes\n\t\tsize := int(binary.BigEndian.Uint32(out[20:]))\n\t\tfound := false\n\t\tfor pad := 0; pad < 4 && !found; pad++ {\n\t\t\tend := len(out) - pad\n\t\t\tif bytes.Count(out[end:], []byte{0}) != pad {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tstart := end - size\n\t\t\tr := brotli.NewReader(bytes.NewReader(out[start:end]))\n\t\t\tvar buf bytes.Buffer\n\t\t\tif _, err := buf.ReadFrom(r); err == nil && buf.Len() > 100000 {\n\t\t\t\tif _, err := brotli.NewReader(bytes.NewReader(out[start : end-1])).Read(make([]byte, 1)); err == nil {\n\t\t\t\t\tvar short bytes.Buffer\n\t\t\t\t\tif _, err := short.ReadFrom(brotli.NewReader(bytes.NewReader(out[start : end-1]))); err == nil && short.Len() == buf.Len() {\n\t\t\t\t\t\tt.Fatal("the compressed data is shorter than", size)\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tfound = true\n\t\t\t}\n\t\t}\n\t\tif !found {\n\t\t\tt.Fatal("there is no compressed data of length", size)\n\t\t}\n\t}\n}\n'
