package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: the byte offset, width and sign of every field of the fixed-layout tables.

func init() { checkers["C09"] = checkC09 }

type layoutField struct {
	name   string // of the specification
	off    int64
	width  int
	sign   byte // 's' or 'u', 'x' either
	minLen int64
}

type layout struct {
	tag      string
	fields   []layoutField
	variants []variant
	length   int64 // of the fixed part
}

// fields: "name:type ..." in the order of the specification.
func mkLayout(tag, spec string) *layout {
	l := &layout{tag: tag}
	off := int64(0)
	for _, f := range strings.Fields(spec) {
		n, t, _ := strings.Cut(f, ":")
		w, s := 0, byte('u')
		switch t {
		case "u8":
			w = 1
		case "i8":
			w, s = 1, 's'
		case "u16":
			w = 2
		case "i16":
			w, s = 2, 's'
		case "u32":
			w = 4
		case "i32", "fixed":
			w, s = 4, 's'
		case "x32", "tag":
			w, s = 4, 'x'
		case "i64":
			w, s = 8, 'x'
		default:
			panic(f)
		}
		l.fields = append(l.fields, layoutField{n, off, w, s, off + int64(w)})
		off += int64(w)
	}
	l.length = off
	return l
}

func (l *layout) at(off int64, width int) *layoutField {
	for i := range l.fields {
		if l.fields[i].off == off && l.fields[i].width == width {
			return &l.fields[i]
		}
	}
	return nil
}

func (l *layout) byName(n string) *layoutField {
	for i := range l.fields {
		if strings.EqualFold(l.fields[i].name, n) {
			return &l.fields[i]
		}
	}
	return nil
}

func ver32(v int64) map[string]int64 {
	return map[string]int64{"0:4": v, "0:2": v >> 16, "2:2": v & 0xffff}
}

// The layouts are those of the OpenType specification 1.9.1.
func otLayouts() map[string]*layout {
	m := map[string]*layout{}
	add := func(l *layout, vs ...variant) {
		for i := range vs {
			vs[i].tag = l.tag
		}
		l.variants = vs
		m[l.tag] = l
	}
	head := ver32(0x00010000)
	head["12:4"] = 0x5F0F3CF5
	add(mkLayout("head", "majorVersion:u16 minorVersion:u16 fontRevision:x32 checksumAdjustment:u32 magicNumber:u32 flags:u16 unitsPerEm:u16 created:i64 modified:i64 xMin:i16 yMin:i16 xMax:i16 yMax:i16 macStyle:u16 lowestRecPPEM:u16 fontDirectionHint:i16 indexToLocFormat:i16 glyphDataFormat:i16"),
		variant{name: "1.0", len: 54, reads: head})
	add(mkLayout("hhea", "majorVersion:u16 minorVersion:u16 ascender:i16 descender:i16 lineGap:i16 advanceWidthMax:u16 minLeftSideBearing:i16 minRightSideBearing:i16 xMaxExtent:i16 caretSlopeRise:i16 caretSlopeRun:i16 caretOffset:i16 reserved1:i16 reserved2:i16 reserved3:i16 reserved4:i16 metricDataFormat:i16 numberOfHMetrics:u16"),
		variant{name: "1.0", len: 36, reads: ver32(0x00010000)})
	add(mkLayout("vhea", "majorVersion:u16 minorVersion:u16 ascender:i16 descender:i16 lineGap:i16 advanceHeightMax:i16 minTopSideBearing:i16 minBottomSideBearing:i16 yMaxExtent:i16 caretSlopeRise:i16 caretSlopeRun:i16 caretOffset:i16 reserved1:i16 reserved2:i16 reserved3:i16 reserved4:i16 metricDataFormat:i16 numberOfVMetrics:u16"),
		variant{name: "1.0", len: 36, reads: ver32(0x00010000)}, variant{name: "1.1", len: 36, reads: ver32(0x00011000)})
	maxp := mkLayout("maxp", "version:u32 numGlyphs:u16 maxPoints:u16 maxContours:u16 maxCompositePoints:u16 maxCompositeContours:u16 maxZones:u16 maxTwilightPoints:u16 maxStorage:u16 maxFunctionDefs:u16 maxInstructionDefs:u16 maxStackElements:u16 maxSizeOfInstructions:u16 maxComponentElements:u16 maxComponentDepth:u16")
	add(maxp, variant{name: "0.5", len: 6, reads: ver32(0x00005000)}, variant{name: "1.0", len: 32, reads: ver32(0x00010000)})
	os2 := mkLayout("OS/2", "version:u16 xAvgCharWidth:i16 usWeightClass:u16 usWidthClass:u16 fsType:u16 ySubscriptXSize:i16 ySubscriptYSize:i16 ySubscriptXOffset:i16 ySubscriptYOffset:i16 ySuperscriptXSize:i16 ySuperscriptYSize:i16 ySuperscriptXOffset:i16 ySuperscriptYOffset:i16 yStrikeoutSize:i16 yStrikeoutPosition:i16 sFamilyClass:i16 bFamilyType:u8 bSerifStyle:u8 bWeight:u8 bProportion:u8 bContrast:u8 bStrokeVariation:u8 bArmStyle:u8 bLetterform:u8 bMidline:u8 bXHeight:u8 ulUnicodeRange1:u32 ulUnicodeRange2:u32 ulUnicodeRange3:u32 ulUnicodeRange4:u32 achVendID:tag fsSelection:u16 usFirstCharIndex:u16 usLastCharIndex:u16 sTypoAscender:i16 sTypoDescender:i16 sTypoLineGap:i16 usWinAscent:u16 usWinDescent:u16 ulCodePageRange1:u32 ulCodePageRange2:u32 sxHeight:i16 sCapHeight:i16 usDefaultChar:u16 usBreakChar:u16 usMaxContext:u16 usLowerOpticalPointSize:u16 usUpperOpticalPointSize:u16")
	v := func(n, l int64) variant {
		return variant{name: fmt.Sprintf("%d (%d bytes)", n, l), len: l, reads: map[string]int64{"0:2": n}}
	}
	add(os2, v(0, 68), v(0, 78), v(1, 86), v(2, 96), v(3, 96), v(4, 96), v(5, 100))
	post := mkLayout("post", "version:u32 italicAngle:fixed underlinePosition:i16 underlineThickness:i16 isFixedPitch:u32 minMemType42:u32 maxMemType42:u32 minMemType1:u32 maxMemType1:u32 numGlyphs:u16")
	add(post, variant{name: "1.0", len: 32, reads: ver32(0x00010000)}, variant{name: "2.0", len: -1, reads: ver32(0x00020000)}, variant{name: "3.0", len: 32, reads: ver32(0x00030000)})
	add(mkLayout("name", "version:u16 count:u16 storageOffset:u16"), variant{name: "0", len: -1, reads: map[string]int64{"0:2": 0}}, variant{name: "1", len: -1, reads: map[string]int64{"0:2": 1}})
	return m
}

// names of struct fields that the package spells differently from the specification
var layoutAlias = map[string]string{"UsMaxContent": "usMaxContext"}

func layoutName(goField string) string {
	if s := layoutAlias[goField]; s != "" {
		return s
	}
	return goField
}

func checkC09(p *Prog, r *Report) {
	r.Rule("read-position", "a field of the parsed table holds the bytes at the offset, of the width and with the sign that the specification gives the field of that name, for every version of the table", 100)
	r.Rule("field-is-read", "every version of the table that the specification defines is accepted, and all fields of the parsed form that the version has are set", 10)
	r.Rule("record-position", "records of name and of the table directory are read at the offsets and with the stride of the specification", 8)
	r.Rule("write-position", "a rebuilt table has each field at the offset and with the width of the specification", 25)
	r.Rule("patch-position", "a table that is copied with changes keeps all other bytes in place, and each change covers exactly one field", 8)
	r.Rule("patch-value", "the value written over a field of a copied table is the value that the parsed form of the table gets for that field, and each field of the parsed form that is changed is written", 10)
	r.Assumptions = append(r.Assumptions, "the methods of the binary reader and writer have the widths of their names", "offsets of records do not wrap around 16 bits (that is part of C01)")
	ls := otLayouts()
	views := tableViews(p)
	b := newBP(p, p.liveFuncs(fontPath), map[*ssa.Function]bool{})
	structs := map[string]string{} // struct type -> tag
	for _, v := range views {
		l := ls[v.tag]
		if l == nil {
			continue
		}
		field := v.tag
		for _, f := range v.fields {
			field = f
		}
		st := viewStruct(p, field)
		if st == nil {
			continue
		}
		structs[st.Obj().Name()] = v.tag
		for i := range l.variants {
			c09read(p, r, b, v, l, &l.variants[i], field, st)
		}
	}
	for tag := range ls {
		found := false
		for _, t := range structs {
			found = found || t == tag
		}
		if !found {
			r.Bad("field-is-read", tag, "", "no parsing method for the table was found")
		}
	}
	c09directory(p, r, b, views)
	c09metadata(p, r, b)
	c09write(p, r, b, ls, structs)
	c09patch(p, r, b, ls, structs, views)
}

func viewStruct(p *Prog, field string) *types.Named {
	s, ok := p.Font.Pkg.Scope().Lookup("SFNT").Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			if pt, ok := s.Field(i).Type().(*types.Pointer); ok {
				n, _ := pt.Elem().(*types.Named)
				return n
			}
		}
	}
	return nil
}

func (a *absint) describeRead(prov string) string {
	q := strings.TrimPrefix(prov, "~")
	if strings.HasPrefix(q, "R:") {
		if rd := a.reads[q[:len(q)-1]]; rd != nil {
			return fmt.Sprintf("%d byte(s) at offset %s of %s", rd.width, rd.off.key, strings.TrimPrefix(rd.src, "T:"))
		}
	}
	if q == "" {
		return "a value that is not read from one place"
	}
	return q
}

// matchRead compares the provenance of a value with a field of the specification, relative to base.
func (a *absint) matchRead(v *aval, src string, base *aval, off int64, width int, sign byte) string {
	q := strings.TrimPrefix(v.prov, "~")
	if !strings.HasPrefix(q, "R:") {
		return "is set to " + a.describeRead(v.prov)
	}
	rd := a.reads[q[:len(q)-1]]
	if rd == nil || rd.src != src {
		return "is set to " + a.describeRead(v.prov)
	}
	d, ok := addAval(rd.off, base, -1).isConst()
	if !ok || d != off || rd.width != width {
		return fmt.Sprintf("is set to %s, the specification says %d byte(s) at offset %d", a.describeRead(v.prov), width, off)
	}
	if got := q[len(q)-1]; sign != 'x' && got != sign && got != sign-'s'+'S' && (q == v.prov || got < 'a') {
		return fmt.Sprintf("is read with the wrong sign (offset %d)", off)
	}
	return ""
}

func c09read(p *Prog, r *Report, b *bp, v tableView, l *layout, vr *variant, field string, st *types.Named) {
	a := newAbsint(p, 48)
	a.b, a.v = b, vr
	fr := a.run(v.fn, "", 0, []*aval{ptrAval("sfnt")}, nil)
	where := p.where(v.fn.Pos())
	vkey := fmt.Sprintf("%s version %s", l.tag, vr.name)
	if a.fail != "" {
		r.Bad("field-is-read", vkey, where, a.fail)
		return
	}
	if os.Getenv("FONTCHECK_DEBUG") != "" {
		for _, w := range a.views {
			fmt.Println(vkey, w.path, w.val.key, w.val.prov)
		}
		for k, l := range a.loops {
			fmt.Println("loop", k, l.entry.key, l.stride)
		}
	}
	n := 0
	bad := map[string]string{}
	good := map[string]bool{}
	str := st.Underlying().(*types.Struct)
	for _, ret := range fr.rets {
		if len(ret.val) > 0 && ret.val[0].key != "nil" {
			continue
		}
		n++
		obj := ret.st.heap["sfnt."+field]
		if obj == nil || obj.loc == "" {
			bad[field] = "the parsed form is not set"
			continue
		}
		for i := 0; i < str.NumFields(); i++ {
			g := str.Field(i).Name()
			f := l.byName(layoutName(g))
			if f == nil || vr.len >= 0 && f.minLen > vr.len || vr.len < 0 && l.tag == "name" {
				continue
			}
			val := ret.st.heap[obj.loc+"."+g]
			if val == nil {
				bad[g] = "is not set"
				continue
			}
			if val.sl != nil && val.prov == "" { // copied bytes
				if o, ok := val.sl.lo.isConst(); ok && o == f.off && val.sl.hi != nil {
					if h, ok := val.sl.hi.isConst(); ok && h == f.off+int64(f.width) && val.sl.src == "T:"+l.tag {
						good[g] = true
						continue
					}
				}
				bad[g] = fmt.Sprintf("is set to %s, the specification says %d byte(s) at offset %d", val.key, f.width, f.off)
				continue
			}
			if msg := a.matchRead(val, "T:"+l.tag, constOf(0), f.off, f.width, f.sign); msg != "" {
				bad[g] = msg
			} else {
				good[g] = true
			}
		}
	}
	r.Add("field-is-read", vkey, where, n > 0 && bad[field] == "", fmt.Sprintf("%d way(s) to succeed", n))
	var keys []string
	for g := range bad {
		if g != field {
			keys = append(keys, g)
		}
	}
	for g := range good {
		if bad[g] == "" {
			keys = append(keys, g)
		}
	}
	sort.Strings(keys)
	for _, g := range keys {
		r.Add("read-position", vkey+" "+g, where, bad[g] == "", bad[g])
	}
	if l.tag == "name" {
		c09name(p, r, a, vr, where)
	}
	if l.tag == "post" && vr.name == "2.0" {
		// the glyph name indices follow numGlyphs
		for k, lp := range a.loops {
			if lp.stride != nil {
				if d, ok := lp.stride.isConst(); ok && d == 2 {
					e, ok := lp.entry.isConst()
					r.Add("record-position", "post glyphNameIndex", where, ok && e == 34, "the array starts at "+lp.entry.key)
				}
			}
			_ = k
		}
	}
}

func c09name(p *Prog, r *Report, a *absint, vr *variant, where string) {
	want := map[string]int64{"Platform": 0, "Encoding": 2, "Language": 4, "Name": 6}
	seen := map[string]string{}
	var base string
	for _, v := range a.views {
		if !strings.HasPrefix(v.path, "elem:") {
			continue
		}
		g := v.path[strings.LastIndexByte(v.path, '.')+1:]
		fa, ok := v.at.(*ssa.Store)
		if !ok {
			continue
		}
		fld, ok := fa.Addr.(*ssa.FieldAddr)
		if !ok || bareName(fld.X.Type()) != "nameRecord" {
			continue
		}
		if off, ok := want[g]; ok {
			q := strings.TrimPrefix(v.val.prov, "~")
			msg := "is not read from the table"
			if strings.HasPrefix(q, "R:") {
				rd := a.reads[q[:len(q)-1]]
				lb, d := loopBase(rd.off)
				base = lb
				msg = ""
				if lb == "" || d != off || rd.width != 2 {
					msg = fmt.Sprintf("is read from %d byte(s) at offset %s, the specification says 2 bytes at offset %d of the record", rd.width, rd.off.key, off)
				}
			}
			if seen[g] == "" {
				seen[g] = msg + " "
			}
		}
		if g == "Value" {
			msg := "is not a part of the table"
			if sl := v.val.sl; sl != nil && sl.src == "T:name" && sl.hi != nil && base != "" {
				msg = ""
				lo, n := sl.lo, addAval(sl.hi, sl.lo, -1)
				wantLo := map[string]bool{fmt.Sprintf("R:T:name@%s:2", "+4"): true}
				_ = wantLo
				if !sumOfReads(a, lo, []readWant{{"", 4}, {base, 10}}) {
					msg = "starts at " + lo.key + ", the specification says the storage offset (at 4) plus the offset of the record (at 10 of the record)"
				} else if !sumOfReads(a, n, []readWant{{base, 8}}) {
					msg = "has length " + n.key + ", the specification says the two bytes at 8 of the record"
				}
			}
			seen[g] = msg + " "
		}
	}
	for _, g := range []string{"Platform", "Encoding", "Language", "Name", "Value"} {
		msg := strings.TrimSpace(seen[g])
		if seen[g] == "" {
			msg = "is not set"
		}
		r.Add("record-position", "name version "+vr.name+" record "+g, where, msg == "", msg)
	}
	if lp := a.loops[base]; lp != nil {
		e, ok1 := lp.entry.isConst()
		var d int64
		ok2 := false
		if lp.stride != nil {
			d, ok2 = lp.stride.isConst()
		}
		r.Add("record-position", "name version "+vr.name+" records", where, ok1 && e == 6 && ok2 && d == 12, fmt.Sprintf("records start at %s and are %v bytes apart", lp.entry.key, d))
		r.Add("record-position", "name version "+vr.name+" count", where, sumOfReads(a, lp.bound, []readWant{{"", 2}}), "number of records")
	} else {
		r.Bad("record-position", "name version "+vr.name+" records", where, "the records are not read in a loop")
	}
}

// loopBase splits an offset into the base of a loop and a constant.
func loopBase(v *aval) (string, int64) {
	if v == nil || !v.num || len(v.lin) != 1 {
		return "", 0
	}
	for k, n := range v.lin {
		if n == 1 && strings.HasPrefix(k, "L:") {
			return k, v.c
		}
	}
	return "", 0
}

type readWant struct {
	base string
	off  int64
}

// sumOfReads: v is the sum of the values read at the wanted places, nothing else.
func sumOfReads(a *absint, v *aval, want []readWant) bool {
	if v == nil || !v.num || v.c != 0 || len(v.lin) != len(want) {
		return false
	}
	used := map[int]bool{}
	for k, n := range v.lin {
		rd := a.reads[k]
		if n != 1 || rd == nil {
			return false
		}
		hit := false
		for i, w := range want {
			if used[i] {
				continue
			}
			d, ok := rd.off.isConst()
			if w.base == "" && ok && d == w.off {
				hit, used[i] = true, true
				break
			}
			if lb, d := loopBase(rd.off); w.base != "" && lb == w.base && d == w.off {
				hit, used[i] = true, true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// c09directory: the table directory of an SFNT file.
func c09directory(p *Prog, r *Report, b *bp, views []tableView) {
	skip := map[*ssa.Function]bool{}
	for _, v := range views {
		skip[v.fn] = true
	}
	n := 0
	worst := map[string]string{}
	places := map[string]string{}
	add := func(rule, key, where string, ok bool, detail string) {
		places[key] = where
		if !ok {
			worst[key] = detail
		}
	}
	for _, fn := range p.liveFuncs(fontPath) {
		// a function that makes a font: it fills a table map from its bytes
		if len(fn.Params) == 0 || !isBytes(fn.Params[0].Type()) || fn.Signature.Recv() != nil || !returnsSFNT(fn) {
			continue
		}
		a := newAbsint(p, 32)
		a.b = b
		a.noInline = skip
		args := make([]*aval, len(fn.Params))
		args[0] = sliceAval(&aslice{src: "T:sfnt", lo: constOf(0)})
		a.run(fn, "", 0, args, nil)
		if os.Getenv("FONTCHECK_DEBUG") != "" {
			fmt.Println("dir", fnName(fn), len(a.elems), a.steps)
			for k, l := range a.loops {
				fmt.Println("loop", k, l.entry.key, l.stride, l.bound)
			}
			for _, e := range a.elems {
				fmt.Println("  ", e.k.key, e.v.key, e.k.prov)
			}
		}
		for _, e := range a.elems {
			if e.v.sl == nil || e.v.sl.src != "T:sfnt" || e.k.sl == nil {
				continue
			}
			where := p.where(instrPos(e.at))
			base, off := loopBase(e.k.sl.lo)
			lp := a.loops[base]
			n++
			key := fnName(e.at.Parent()) + " table record"
			kl := addAval(e.k.sl.hi, e.k.sl.lo, -1)
			if c, ok := kl.isConst(); lp == nil || off != 0 || !ok || c != 4 {
				add("record-position", key+" tag", where, false, "the tag is read at "+e.k.sl.lo.key)
				continue
			}
			add("record-position", key+" tag", where, true, "")
			stride := "?"
			if lp.stride != nil {
				stride = lp.stride.key
			}
			add("record-position", key+" size", where, stride == "+16", "records are "+stride+" bytes apart")
			add("record-position", key+" offset", where, sumOfReads(a, e.v.sl.lo, []readWant{{base, 8}}) && a.widths(e.v.sl.lo, 4), "the table starts at "+e.v.sl.lo.key)
			length := unk()
			if e.v.sl.hi != nil {
				length = addAval(e.v.sl.hi, e.v.sl.lo, -1)
			}
			add("record-position", key+" length", where, sumOfReads(a, length, []readWant{{base, 12}}) && a.widths(length, 4), "the table has length "+length.key)
			okb := len(lp.ways) > 0
			for _, w := range lp.ways {
				one := false
				if w[1] != nil && w[1].num && len(w[1].lin) == 1 && w[1].c == 0 {
					for k := range w[1].lin {
						if rd := a.reads[k]; rd != nil {
							d, ok := addAval(w[0], rd.off, -1).isConst()
							one = ok && d == 8 && rd.width == 2
						}
					}
				}
				okb = okb && one
			}
			add("record-position", key+" count", where, okb, "the number of records is the two bytes eight before the first record")
		}
	}
	var keys []string
	for k := range places {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r.Add("record-position", k, places[k], worst[k] == "", worst[k])
	}
	if n == 0 {
		r.Bad("record-position", "table directory", "", "no place was found where the table directory is read")
	}
}

func (a *absint) widths(v *aval, w int) bool {
	for k := range v.lin {
		if rd := a.reads[k]; rd == nil || rd.width != w {
			return false
		}
	}
	return true
}

func returnsSFNT(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() > 0 && bareName(rs.At(0).Type()) == "SFNT"
}

// c09write: methods of parsed tables that give the bytes of the table.
func c09write(p *Prog, r *Report, b *bp, ls map[string]*layout, structs map[string]string) {
	for _, fn := range p.liveFuncs(fontPath) {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Signature.Results().Len() == 0 || !isBytes(fn.Signature.Results().At(0).Type()) || len(fn.Params) != 1 {
			continue
		}
		tag := structs[bareName(recv.Type())]
		l := ls[tag]
		if l == nil {
			continue
		}
		a := newAbsint(p, 1)
		a.b = b
		fr := a.run(fn, "", 0, []*aval{ptrAval("table")}, nil)
		dsts := map[string]bool{}
		for _, ret := range fr.rets {
			if sl := ret.val[0].sl; sl != nil {
				dsts[sl.src] = true
			}
		}
		covered := map[int64]int{}
		for _, w := range a.writes {
			if !dsts[w.dst] {
				continue
			}
			where := p.where(instrPos(w.at))
			pos, ok := int64(0), false
			if w.pos != nil {
				pos, ok = w.pos.isConst()
			}
			if !ok {
				continue // after the fixed part
			}
			key := fmt.Sprintf("%s %s+%d", fnName(fn), tag, pos)
			if w.width < 0 {
				if pos < l.length {
					r.Bad("write-position", key, where, "bytes are written over the fields of the table")
				}
				continue
			}
			covered[pos] = w.width
			f := l.at(pos, w.width)
			if f == nil {
				if pos < l.length {
					r.Bad("write-position", key, where, fmt.Sprintf("%d byte(s) are written at offset %d, which is no field of the table", w.width, pos))
				}
				continue
			}
			q := strings.TrimPrefix(w.val.prov, "~")
			g := q[strings.LastIndexByte(q, '.')+1:]
			switch {
			case strings.HasPrefix(q, "F:table.") && strings.EqualFold(layoutName(g), f.name):
				r.OK("write-position", key+" "+f.name, where, "")
			case q == "" && (f.name == "version" || strings.HasPrefix(f.name, "reserved") || goFieldOf(p, bareName(recv.Type()), f.name) == ""):
				r.OK("write-position", key+" "+f.name, where, "")
			default:
				r.Bad("write-position", key+" "+f.name, where, fmt.Sprintf("the field %s at offset %d is written from %s", f.name, pos, w.val.key))
			}
		}
		// the fixed part has no holes
		for _, f := range l.fields {
			if covered[f.off] != f.width {
				r.Bad("write-position", fmt.Sprintf("%s %s", fnName(fn), f.name), p.where(fn.Pos()), fmt.Sprintf("the field %s at offset %d is not written", f.name, f.off))
			}
		}
	}
}

func goFieldOf(p *Prog, st, name string) string {
	obj := p.Font.Pkg.Scope().Lookup(st)
	if obj == nil {
		return ""
	}
	s, ok := obj.Type().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if strings.EqualFold(layoutName(s.Field(i).Name()), name) {
			return s.Field(i).Name()
		}
	}
	return ""
}

// c09patch: tables that are copied with changes.
func c09patch(p *Prog, r *Report, b *bp, ls map[string]*layout, structs map[string]string, views []tableView) {
	skip := map[*ssa.Function]bool{}
	for _, v := range views {
		skip[v.fn] = true
	}
	for _, fn := range p.liveFuncs(fontPath) {
		if fn.Parent() != nil || !updatesTables(p, fn) || !token.IsExported(fn.Name()) && p.calledDirectly(fn) {
			continue // helpers are looked at where they are called
		}
		a := newAbsint(p, 1)
		a.b = b
		a.noInline = skip
		a.run(fn, "", 0, nil, nil)
		if a.fail != "" {
			r.Bad("patch-position", fnName(fn), p.where(fn.Pos()), a.fail)
			continue
		}
		if os.Getenv("FONTCHECK_DEBUG") != "" {
			fmt.Println("patch", fnName(fn), "steps", a.steps, "tables", len(a.tables), "writes", len(a.writes))
			for _, t := range a.tables {
				fmt.Println("  ", p.where(instrPos(t.at)), t.tag, t.val.key)
			}
		}
		done := map[string]bool{}
		for _, t := range a.tables {
			l := ls[t.tag]
			if l == nil || t.val.sl == nil {
				continue
			}
			where := p.where(instrPos(t.at))
			key := fnName(fn) + " " + t.tag
			if done[key+where] {
				continue
			}
			done[key+where] = true
			src := t.val.sl.src
			switch {
			case src == "T:"+t.tag:
				r.OK("patch-position", key, where, "copied unchanged")
			case strings.HasPrefix(src, "T:"):
				r.Bad("patch-position", key, where, "the table is set to the bytes of "+src[2:])
			case strings.HasPrefix(src, "M:"):
				r.OK("patch-position", key, where, "written by "+src[2:strings.IndexByte(src, '|')])
			case strings.HasPrefix(src, "W:") || strings.HasPrefix(src, "C:"):
				c09table(p, r, a, fn, l, structs, t, key)
			default:
				if handlesSFNT(fn) && fn.Signature.Recv() != nil {
					r.Bad("patch-position", key, where, "it is not known which bytes the table is set to")
				}
			}
		}
	}
}

func updatesTables(p *Prog, fn *ssa.Function) bool {
	found := false
	eachInstr(fn, func(in ssa.Instruction) {
		if mu, ok := in.(*ssa.MapUpdate); ok && isTables(mu.Map.Type()) {
			found = true
		}
	})
	return found
}

// calledDirectly: the function is called by name, and not used in another way
func (p *Prog) calledDirectly(fn *ssa.Function) bool {
	calls := 0
	other := false
	for _, g := range p.liveFuncs(fontPath) {
		eachInstr(g, func(in ssa.Instruction) {
			c, isC := in.(ssa.CallInstruction)
			for i, op := range in.Operands(nil) {
				if *op != ssa.Value(fn) {
					continue
				}
				if isC && i == 0 && c.Common().StaticCallee() == fn && g != fn {
					calls++
				} else {
					other = true
				}
			}
		})
	}
	return calls > 0 && !other
}

// handlesSFNT: the function has a font with parsed tables.
func handlesSFNT(fn *ssa.Function) bool {
	for _, q := range fn.Params {
		if bareName(q.Type()) == "SFNT" {
			return true
		}
	}
	return returnsSFNT(fn)
}

func c09table(p *Prog, r *Report, a *absint, fn *ssa.Function, l *layout, structs map[string]string, t atable, key string) {
	src := t.val.sl.src
	where := p.where(instrPos(t.at))
	type patch struct {
		f *layoutField
		v *aval
		w awrite
	}
	var patches []patch
	type run struct{ lo, hi int64 } // bytes kept from the table
	var runs []run
	const end = int64(1) << 40
	if of := a.copies[src]; of != nil {
		if t.val.sl.of != nil {
			of = t.val.sl.of
		}
		if of.src != "T:"+t.tag {
			r.Bad("patch-position", key, where, "the table is a changed copy of "+of.src)
			return
		}
		runs = append(runs, run{0, end})
	}
	bad := ""
	var ends []run
	for _, w := range a.writes {
		if w.dst != src {
			continue
		}
		pos, ok := int64(0), false
		if w.pos != nil {
			pos, ok = w.pos.isConst()
		}
		if !ok {
			// behind a part of unknown length: allowed after the fixed part only
			continue
		}
		if w.width < 0 {
			if w.from == nil || w.from.src != "T:"+t.tag {
				if pos < l.length {
					bad = fmt.Sprintf("%s: other bytes are written at offset %d", p.where(instrPos(w.at)), pos)
				}
				continue
			}
			lo, ok := w.from.lo.isConst()
			if !ok || lo != pos {
				bad = fmt.Sprintf("%s: the bytes of the table from %s are written at offset %d", p.where(instrPos(w.at)), w.from.lo.key, pos)
				continue
			}
			hi := end
			if w.from.hi != nil {
				if hi, ok = w.from.hi.isConst(); !ok {
					hi = pos
				}
			}
			runs = append(runs, run{lo, hi})
			ends = append(ends, run{lo, hi})
			continue
		}
		f := l.at(pos, w.width)
		ends = append(ends, run{pos, pos + int64(w.width)})
		if f == nil {
			if pos < l.length {
				bad = fmt.Sprintf("%s: %d byte(s) are written at offset %d, which is no field of the table", p.where(instrPos(w.at)), w.width, pos)
			}
			continue
		}
		patches = append(patches, patch{f, w.val, w})
	}
	if a.copies[src] == nil && bad == "" {
		sort.Slice(ends, func(i, j int) bool { return ends[i].lo < ends[j].lo })
		at := int64(0)
		for _, e := range ends {
			if e.lo > at {
				break
			}
			at = max(at, e.hi)
		}
		if at < min(l.length, 6) || at < l.length && at != end && l.tag != "maxp" && l.tag != "post" && l.tag != "name" && l.tag != "OS/2" {
			bad = fmt.Sprintf("the new table ends at offset %d of %d", at, l.length)
		}
	}
	r.Add("patch-position", key, where, bad == "", bad)
	st := ""
	for s, tag := range structs {
		if tag == t.tag {
			st = s
		}
	}
	stores := map[string][]aview{}
	for _, v := range a.views {
		s, ok := v.at.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || bareName(fa.X.Type()) != st {
			continue
		}
		stores[fieldNameOf(fa)] = append(stores[fieldNameOf(fa)], v)
	}
	if !handlesSFNT(fn) {
		return
	}
	patched := map[string]bool{}
	for _, q := range patches {
		g := goFieldOf(p, st, q.f.name)
		patched[g] = true
		if g == "" {
			continue // the parsed form does not have it
		}
		k := fmt.Sprintf("%s %s", key, q.f.name)
		w := p.where(instrPos(q.w.at))
		prov := strings.TrimPrefix(q.v.prov, "~")
		if len(stores[g]) == 0 {
			ok := strings.HasPrefix(prov, "F:") && strings.HasSuffix(prov, "."+g)
			r.Add("patch-value", k, w, ok, "the bytes of "+q.f.name+" change but the parsed field "+g+" is not set")
			continue
		}
		for _, v := range stores[g] {
			ok := v.val.key == q.v.key || strings.HasPrefix(prov, "F:") && strings.HasSuffix(prov, "."+g)
			r.Add("patch-value", k, w, ok, fmt.Sprintf("the bytes get %s, the parsed field %s gets %s (%s)", q.v.key, g, v.val.key, p.where(instrPos(v.at))))
		}
	}
	var gs []string
	for g := range stores {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		f := l.byName(layoutName(g))
		if f == nil || patched[g] {
			continue
		}
		for _, v := range stores[g] {
			kept := false
			for _, rn := range runs {
				kept = kept || rn.lo <= f.off && f.off+int64(f.width) <= rn.hi
			}
			prov := v.val.prov
			if kept && strings.HasPrefix(prov, "F:") && strings.HasSuffix(prov, "."+g) {
				continue
			}
			if !p.nullField(t.tag, g) {
				r.Bad("patch-value", key+" "+f.name, p.where(instrPos(v.at)), fmt.Sprintf("the parsed field %s is set to %s but the bytes at offset %d are not", g, v.val.key, f.off))
			}
		}
	}
}

// nullField: fields of the parsed form that have no meaning in the version that is written.
func (p *Prog) nullField(tag, g string) bool { return false }
