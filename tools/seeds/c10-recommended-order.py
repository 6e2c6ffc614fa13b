id='c10-recommended-order'; prop='C10'
needs='a font with the tables of a usual font'
breaks='the tables are put in the order that is recommended for reading, and so are their entries in the directory'
edits=[('sfnt.go', '\tsort.Strings(tags)\n\n\t// write header\n', '\trank := map[string]int{"head": -5, "hhea": -4, "maxp": -3, "OS/2": -2, "hmtx": -1}\n\tsort.Slice(tags, func(i, j int) bool {\n\t\tif ri, rj := rank[tags[i]], rank[tags[j]]; ri != rj {\n\t\t\treturn ri < rj\n\t\t}\n\t\treturn tags[i] < tags[j]\n\t})\n\n\t// write header\n')]
demo='package font\n\nimport (\n\t"encoding/binary"\n\t"os"\n\t"testing"\n)\n\n// checkFile looks at the directory, the padding and the checksums of a font file.\nfunc checkFile(t *testing.T, b []byte) {\n\tsum := func(b []byte) uint32 {\n\t\tvar s uint32\n\t\tfor i, c := range b {\n\t\t\ts += uint32(c) << (24 - 8*(uint(i)%4))\n\t\t}\n\t\treturn s\n\t}\n\tn := int(binary.BigEndian.Uint16(b[4:]))\n\tprev := ""\n\tpos := 12 + 16*n\n\tfor i := 0; i < n; i++ {\n\t\te := b[12+16*i:]\n\t\ttag := string(e[:4])\n\t\tif tag <= prev {\n\t\t\tt.Error("not sorted:", prev, tag)\n\t\t}\n\t\tprev = tag\n\t\tcheck, offset, length := binary.BigEndian.Uint32(e[4:]), int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))\n\t\tif offset != pos {\n\t\t\tt.Fatal(tag, "is said to be at", offset, "not", pos)\n\t\t}\n\t\tpos = (offset + length + 3) &^ 3\n\t\ttable := append([]byte(nil), b[offset:pos]...)\n\t\tfor _, c := range table[length:] {\n\t\t\tif c != 0 {\n\t\t\t\tt.Error(tag, "is padded with", c)\n\t\t\t}\n\t\t}\n\t\tif tag == "head" {\n\t\t\tif adj := binary.BigEndian.Uint32(table[8:]); adj != 0xB1B0AFBA-(sum(b)-adj) {\n\t\t\t\tt.Error("bad adjustment")\n\t\t\t}\n\t\t\tcopy(table[8:12], []byte{0, 0, 0, 0})\n\t\t}\n\t\tif s := sum(table); s != check {\n\t\t\tt.Error(tag, "has a bad checksum", check, "not", s)\n\t\t}\n\t}\n\tif pos != len(b) {\n\t\tt.Error("the file does not end after the last table")\n\t}\n}\n\nfunc TestDemo(t *testing.T) {\n\tb, err := os.ReadFile("resources/DejaVuSerif.ttf")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tsfnt, err := ParseSFNT(b, 0)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tcheckFile(t, sfnt.Write())\n}\n'
