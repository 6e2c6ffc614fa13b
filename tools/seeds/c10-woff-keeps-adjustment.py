id='c10-woff-keeps-adjustment'; prop='C10'
needs='a WOFF file whose head table has a stale adjustment'
breaks='converting a WOFF file keeps the adjustment of its head table, though the tables may be laid out otherwise'
edits=[('woff.go', '\tchecksumAdjustment = checksum\n', '\tif checksumAdjustment == 0 {\n\t\tchecksumAdjustment = checksum\n\t}\n')]
demo='package font\n\nimport (\n\t"encoding/binary"\n\t"os"\n\t"testing"\n)\n\n// checkFile looks at the directory, the padding and the checksums of a font file.\nfunc checkFile(t *testing.T, b []byte) {\n\tsum := func(b []byte) uint32 {\n\t\tvar s uint32\n\t\tfor i, c := range b {\n\t\t\ts += uint32(c) << (24 - 8*(uint(i)%4))\n\t\t}\n\t\treturn s\n\t}\n\tn := int(binary.BigEndian.Uint16(b[4:]))\n\tprev := ""\n\tpos := 12 + 16*n\n\tfor i := 0; i < n; i++ {\n\t\te := b[12+16*i:]\n\t\ttag := string(e[:4])\n\t\tif tag <= prev {\n\t\t\tt.Error("not sorted:", prev, tag)\n\t\t}\n\t\tprev = tag\n\t\tcheck, offset, length := binary.BigEndian.Uint32(e[4:]), int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))\n\t\tif offset != pos {\n\t\t\tt.Fatal(tag, "is said to be at", offset, "not", pos)\n\t\t}\n\t\tpos = (offset + length + 3) &^ 3\n\t\ttable := append([]byte(nil), b[offset:pos]...)\n\t\tfor _, c := range table[length:] {\n\t\t\tif c != 0 {\n\t\t\t\tt.Error(tag, "is padded with", c)\n\t\t\t}\n\t\t}\n\t\tif tag == "head" {\n\t\t\tif adj := binary.BigEndian.Uint32(table[8:]); adj != 0xB1B0AFBA-(sum(b)-adj) {\n\t\t\t\tt.Error("bad adjustment")\n\t\t\t}\n\t\t\tcopy(table[8:12], []byte{0, 0, 0, 0})\n\t\t}\n\t\tif s := sum(table); s != check {\n\t\t\tt.Error(tag, "has a bad checksum", check, "not", s)\n\t\t}\n\t}\n\tif pos != len(b) {\n\t\tt.Error("the file does not end after the last table")\n\t}\n}\n\nfunc TestDemo(t *testing.T) {\n\tb, err := os.ReadFile("resources/DejaVuSerif.ttf")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\t// a WOFF file with the tables as they are\n\tn := int(binary.BigEndian.Uint16(b[4:]))\n\tu32 := binary.BigEndian.Uint32\n\tout := append([]byte("wOFF"), b[:4]...)\n\tout = append(out, make([]byte, 36)...)\n\tbinary.BigEndian.PutUint16(out[12:], uint16(n))\n\tdir := len(out)\n\tout = append(out, make([]byte, 20*n)...)\n\tfor i := 0; i < n; i++ {\n\t\te := b[12+16*i:]\n\t\toffset, length := u32(e[8:]), u32(e[12:])\n\t\tcopy(out[dir+20*i:], e[:4])\n\t\tbinary.BigEndian.PutUint32(out[dir+20*i+4:], uint32(len(out)))\n\t\tbinary.BigEndian.PutUint32(out[dir+20*i+8:], length)\n\t\tbinary.BigEndian.PutUint32(out[dir+20*i+12:], length)\n\t\tbinary.BigEndian.PutUint32(out[dir+20*i+16:], u32(e[4:]))\n\t\ttable := append([]byte(nil), b[offset:(offset+length+3)&^3]...)\n\t\tif string(e[:4]) == "head" {\n\t\t\tbinary.BigEndian.PutUint32(table[8:], 0x12345678)\n\t\t}\n\t\tout = append(out, table...)\n\t}\n\tbinary.BigEndian.PutUint32(out[8:], uint32(len(out)))\n\tbinary.BigEndian.PutUint32(out[16:], uint32(len(b)))\n\tres, err := ParseWOFF(out)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tcheckFile(t, res)\n}\n'
