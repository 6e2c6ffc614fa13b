package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reading from an open file, piece by piece: where the pieces are and what is taken from them.

const fileKey = "FILE"

type afile struct {
	fills []filePiece
	seeks []filePlace
	conv  map[string][]fileUse // name of the type -> what is converted to it
	cmps  []fileUse            // values compared with a constant, or masked with one
	phis  map[string]*ssa.Phi
}

type filePiece struct {
	pos, n *aval
	at     ssa.Instruction
}

type filePlace struct {
	pos *aval
	at  ssa.Instruction
}

type fileUse struct {
	val *aval
	c   int64
	op  token.Token
	typ types.Type
	at  ssa.Instruction
}

func (f *afile) converted(x *aval, to types.Type, at ssa.Instruction) {
	if n, ok := to.(*types.Named); ok {
		f.conv[n.Obj().Name()] = append(f.conv[n.Obj().Name()], fileUse{val: x, at: at, typ: to})
	}
}

// filled: the part of the file that was read into these bytes.
func (a *absint) filled(st *astate, s *aslice) *aslice {
	if s == nil {
		return nil
	}
	f := st.heap["fill:"+s.src]
	if f == nil || f.sl == nil {
		return s
	}
	n := &aslice{src: f.sl.src, lo: f.sl.lo, hi: f.sl.hi}
	if s.lo != nil {
		n.lo = addAval(f.sl.lo, s.lo, 1)
	}
	if s.hi != nil {
		n.hi = addAval(f.sl.lo, s.hi, 1)
	}
	return n
}

func (a *absint) fileCall(fr *aframe, st *astate, t *ssa.Call, g *ssa.Function, args []*aval) bool {
	cc := t.Common()
	pos := st.heap[fileKey+".pos"]
	if pos == nil {
		pos = constOf(0)
	}
	fill := func(b *aval) {
		n := a.lenOf(st, b)
		a.file.fills = append(a.file.fills, filePiece{pos, n, t})
		if b.sl != nil {
			st.heap["fill:"+b.sl.src] = sliceAval(&aslice{src: "T:" + fileKey, lo: addAval(pos, b.sl.lo, -1), hi: addAval(pos, n, 1)})
		}
		st.heap[fileKey+".pos"] = addAval(pos, n, 1)
		st.env[t] = &aval{key: "tuple", tup: []*aval{n, {key: "err:" + t.Name()}}}
	}
	if cc.IsInvoke() {
		if a.eval(fr, st, cc.Value).key != fileKey {
			return false
		}
		switch cc.Method.Name() {
		case "Read":
			fill(args[0])
			return true
		case "Seek":
			to := unk()
			switch w, ok := args[1].isConst(); {
			case ok && w == 0:
				to = args[0]
			case ok && w == 1:
				to = addAval(pos, args[0], 1)
			}
			st.heap[fileKey+".pos"] = to
			a.file.seeks = append(a.file.seeks, filePlace{to, t})
			st.env[t] = &aval{key: "tuple", tup: []*aval{to, {key: "err:" + t.Name()}}}
			return true
		}
		return false
	}
	if g == nil {
		return false
	}
	switch g.String() {
	case "io.ReadFull":
		if args[0].key == fileKey {
			fill(args[1])
			return true
		}
	case "io.ReadAtLeast":
		if args[0].key == fileKey {
			fill(args[1])
			return true
		}
	case "bytes.Equal":
		for k := range args {
			if s := a.filled(st, args[k].sl); s != nil && s.src == "T:"+fileKey {
				a.readAt(&aslice{src: s.src}, s.lo, 4, false)
				n := addAval(s.hi, s.lo, -1)
				a.file.cmps = append(a.file.cmps, fileUse{val: sliceAval(s), op: token.EQL, at: t, c: func() int64 { c, _ := n.isConst(); return c }()})
			}
		}
	}
	return false
}

// fileBinop: bytes that are shifted and put together are one number of the file.
func (a *absint) fileBinop(t *ssa.BinOp, x, y, r *aval) *aval {
	bits := 0
	if w, _, ok := intWidth(t.Type()); ok {
		bits = 8 * w
	}
	use := func(v *aval, c *aval) {
		if n, ok := c.isConst(); ok && v.prov != "" {
			a.file.cmps = append(a.file.cmps, fileUse{val: v, c: n, op: t.Op, at: t, typ: t.X.Type()})
		}
	}
	switch t.Op {
	case token.SHL:
		c, ok := y.isConst()
		if !ok || !x.num || c < 0 || c > 56 {
			return r
		}
		top := int64(0)
		for k, n := range x.lin {
			rd := a.reads[k]
			if rd == nil || n <= 0 {
				return r
			}
			if b := n * 1 << uint(8*rd.width); b > top {
				top = b
			}
		}
		if x.c != 0 || top<<uint(c) > 1<<uint(bits) {
			return nil
		}
		return addAval(constOf(0), x, 1<<uint(c))
	case token.ADD, token.OR, token.XOR:
		if !x.num || !y.num {
			return r
		}
		var sum *aval
		if t.Op == token.ADD {
			sum = addAval(x, y, 1)
		} else {
			for k := range x.lin {
				if y.lin[k] != 0 {
					return r
				}
			}
			sum = addAval(x, y, 1)
		}
		if c := a.together(sum); c != nil {
			return c
		}
		parts := sum.c == 0
		for k := range sum.lin {
			parts = parts && a.reads[k] != nil && a.reads[k].width < 8
		}
		if t.Op == token.ADD || parts && a.disjoint(sum) {
			return sum
		}
		return r
	case token.EQL, token.NEQ, token.AND, token.LSS, token.GTR, token.LEQ, token.GEQ:
		use(x, y)
		use(y, x)
		for _, q := range [][2]*aval{{x, y}, {y, x}} {
			if s := q[0].sl; s != nil && q[1].str != nil && s.src == "T:"+fileKey {
				a.file.cmps = append(a.file.cmps, fileUse{val: sliceAval(s), op: t.Op, at: t, c: int64(len(*q[1].str))})
			}
		}
	}
	return r
}

type bitPart struct {
	coef int64
	rd   *aread
}

func (a *absint) bitParts(v *aval) []bitPart {
	var ps []bitPart
	if v.c != 0 {
		return nil
	}
	for k, n := range v.lin {
		rd := a.reads[k]
		if rd == nil || n <= 0 {
			return nil
		}
		ps = append(ps, bitPart{n, rd})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].coef < ps[j].coef })
	return ps
}

func (a *absint) disjoint(v *aval) bool {
	ps := a.bitParts(v)
	for i := range ps {
		if i+1 < len(ps) && ps[i+1].coef < ps[i].coef<<uint(8*ps[i].rd.width) {
			return false
		}
	}
	return len(ps) > 0
}

// together: a sum of shifted bytes that stand next to each other in the file, first the highest.
func (a *absint) together(v *aval) *aval {
	ps := a.bitParts(v)
	if len(ps) < 2 {
		return nil
	}
	w := 0
	for i, q := range ps {
		if w > 6 || q.coef != 1<<uint(8*w) {
			return nil
		}
		w += q.rd.width
		if i > 0 {
			d, ok := addAval(ps[i-1].rd.off, q.rd.off, -1).isConst()
			if !ok || d != int64(q.rd.width) || q.rd.src != ps[i-1].rd.src {
				return nil
			}
		}
	}
	last := ps[len(ps)-1].rd
	return a.readAt(&aslice{src: last.src}, last.off, w, false)
}

// steps: the first value and the step of a value that a loop counts.
func (f *afile) steps(v *aval) (first *aval, step int64, phi *ssa.Phi, k int64) {
	if v == nil || !v.num {
		return nil, 0, nil, 0
	}
	first = &aval{num: true, lin: map[string]int64{}, c: v.c}
	for key, n := range v.lin {
		ph := f.phis[key]
		if ph == nil || phi != nil {
			first.lin[key] = n
			continue
		}
		phi, k = ph, n
		var start *int64
		for _, e := range ph.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				m := c.Int64()
				if start != nil && *start != m {
					return nil, 0, nil, 0
				}
				start = &m
				continue
			}
			if e == ssa.Value(ph) {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
				return nil, 0, nil, 0
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || step != 0 && step != n*c.Int64() {
				return nil, 0, nil, 0
			}
			step = n * c.Int64()
		}
		if start == nil || step == 0 {
			return nil, 0, nil, 0
		}
		first.c += n * *start
	}
	return linAval(first.lin, first.c), step, phi, k
}

// c09metadata: a scan of a font file for its names reads the directory and the name table of the file itself.
func c09metadata(p *Prog, r *Report, b *bp) {
	n := 0
	for _, fn := range p.liveFuncs(fontPath) {
		rs := fn.Signature.Results()
		if rs.Len() == 0 || bareName(rs.At(0).Type()) != "FontMetadata" {
			continue
		}
		file := -1
		for i, q := range fn.Params {
			if t, ok := q.Type().Underlying().(*types.Interface); ok && hasMethod(t, "Read") && hasMethod(t, "Seek") {
				file = i
			}
		}
		if file < 0 {
			continue
		}
		n++
		a := newAbsint(p, 32)
		a.b = b
		a.file = &afile{conv: map[string][]fileUse{}, phis: map[string]*ssa.Phi{}}
		args := make([]*aval, len(fn.Params))
		args[file] = &aval{key: fileKey}
		a.run(fn, "", 0, args, map[string]*aval{fileKey + ".pos": constOf(0)})
		c09scan(p, r, a, fn)
	}
	if n == 0 {
		r.Bad("record-position", "scan of font files", "", "no function was found that reads the names of a font file")
	}
}

func hasMethod(t *types.Interface, name string) bool {
	for i := 0; i < t.NumMethods(); i++ {
		if t.Method(i).Name() == name {
			return true
		}
	}
	return false
}

// oneRead: v is k times one number of the file.
func (a *absint) oneRead(v *aval, k int64) *aread {
	if v == nil || !v.num || v.c != 0 || len(v.lin) != 1 {
		return nil
	}
	for key, n := range v.lin {
		if n == k {
			return a.reads[key]
		}
	}
	return nil
}

func c09scan(p *Prog, r *Report, a *absint, fn *ssa.Function) {
	f := a.file
	name := fnName(fn)
	if os.Getenv("FONTCHECK_DEBUG") != "" {
		for _, x := range f.fills {
			fmt.Println("fill", p.where(instrPos(x.at)), x.pos.key, x.n.key)
		}
		for _, x := range f.seeks {
			fmt.Println("seek", p.where(instrPos(x.at)), x.pos.key)
		}
		for k, xs := range f.conv {
			for _, x := range xs {
				fmt.Println("conv", k, x.val.key)
			}
		}
		for _, x := range f.cmps {
			fmt.Println("cmp", p.where(instrPos(x.at)), x.op, x.c, x.val.key, x.val.prov)
		}
	}
	type verdict struct {
		where, bad string
	}
	found := map[string]verdict{}
	var order []string
	add := func(key string, at ssa.Instruction, ok bool, detail string) {
		where := p.where(fn.Pos())
		if at != nil {
			where = p.where(instrPos(at))
		}
		v, was := found[key]
		if !was {
			order = append(order, key)
		}
		if !was {
			v.where = where
		}
		if !ok {
			v = verdict{where, detail}
		}
		found[key] = v
	}
	defer func() {
		for _, k := range order {
			r.Add("record-position", name+" "+k, found[k].where, found[k].bad == "", found[k].bad)
		}
	}()
	is := func(rd *aread, off *aval, d int64, w int) bool {
		if rd == nil || off == nil || rd.width != w || rd.src != "T:"+fileKey {
			return false
		}
		c, ok := addAval(rd.off, off, -1).isConst()
		return ok && c == d
	}
	// the directory: 16 bytes for each table, after the number of tables at 4
	var dir *filePiece
	for i := range f.fills {
		if c, ok := f.fills[i].pos.isConst(); ok && c == 12 {
			dir = &f.fills[i]
		}
	}
	if dir == nil {
		add("directory", nil, false, "no table records are read at byte 12")
		return
	}
	add("directory size", dir.at, is(a.oneRead(dir.n, 16), constOf(0), 4, 2), "the table records are the "+dir.n.key+" bytes at 12, not 16 bytes for each of the tables counted at byte 4")
	// the place of the name table
	var tab *aval
	var tabAt ssa.Instruction
	for _, s := range f.seeks {
		rd := a.oneRead(s.pos, 1)
		if rd == nil {
			continue
		}
		first, step, _, _ := f.steps(rd.off)
		c, ok := int64(0), false
		if first != nil {
			c, ok = first.isConst()
		}
		add("table offset", s.at, rd.width == 4 && ok && c == 12+8 && step == 16, fmt.Sprintf("the offset of the table is taken from %s, not from byte 8 of the records of 16 bytes at 12", rd.off.key))
		tab, tabAt = s.pos, s.at
		// the tag that is compared is that of the same record
		tag := false
		for _, u := range f.cmps {
			if u.val.sl != nil && u.c == 4 {
				if d, ok := addAval(rd.off, u.val.sl.lo, -1).isConst(); ok && d == 8 {
					tag = true
				}
			} else if u.val.sl == nil && u.op == token.EQL {
				if rd2 := a.oneRead(u.val, 1); rd2 != nil && rd2.width == 4 {
					if d, ok := addAval(rd.off, rd2.off, -1).isConst(); ok && d == 8 {
						tag = true
					}
				}
			}
		}
		add("table tag", s.at, tag, "the tag of the record whose offset is taken is not compared")
	}
	if tab == nil {
		add("table offset", nil, false, "no place was found where the scan goes to the offset of a table record")
		return
	}
	// records of names
	var recs *filePiece
	for i := range f.fills {
		if d, ok := addAval(f.fills[i].pos, tab, -1).isConst(); ok && d == 6 {
			recs = &f.fills[i]
			add("name records", recs.at, is(a.oneRead(recs.n, 12), tab, 2, 2), "the name records are the "+recs.n.key+" bytes at 6 of the table, not 12 bytes for each of the records counted at 2")
		}
	}
	if recs == nil {
		add("name records", tabAt, false, "no name records are read at byte 6 of the name table")
		return
	}
	record := func(off *aval) (int64, bool) { // the offset within a record
		first, step, _, _ := f.steps(off)
		if first == nil || step != 12 {
			return 0, false
		}
		d, ok := addAval(first, tab, -1).isConst()
		return d - 6, ok
	}
	strs := 0
	for _, s := range f.seeks {
		if s.pos == tab || a.oneRead(s.pos, 1) != nil {
			continue
		}
		strs++
		rest := addAval(s.pos, tab, -1)
		st, own := false, false
		if rest.num && rest.c == 0 && len(rest.lin) == 2 {
			for k, n := range rest.lin {
				rd := a.reads[k]
				if rd == nil || n != 1 || rd.width != 2 {
					continue
				}
				if is(rd, tab, 4, 2) {
					st = true
				} else if d, ok := record(rd.off); ok && d == 10 {
					own = true
				}
			}
		}
		add("string place", s.at, st && own, "the string is read at "+s.pos.key+", which is not the start of the storage (byte 4 of the table) and byte 10 of the record")
		got := false
		for _, x := range f.fills {
			if x.pos.key == s.pos.key {
				rd := a.oneRead(x.n, 1)
				d, ok := int64(0), false
				if rd != nil {
					d, ok = record(rd.off)
				}
				got = true
				add("string length", x.at, ok && d == 8 && rd.width == 2, "the string has the length "+x.n.key+", which is not byte 8 of the record")
			}
		}
		if !got {
			add("string length", s.at, false, "the string is not read where the record says")
		}
	}
	if strs == 0 {
		add("string place", recs.at, false, "the strings of the names are not read")
	}
	for _, t := range []struct {
		typ string
		off int64
	}{{"PlatformID", 0}, {"EncodingID", 2}, {"NameID", 6}} {
		for _, u := range f.conv[t.typ] {
			if _, isC := u.val.isConst(); isC {
				continue
			}
			rd := a.oneRead(u.val, 1)
			d, ok := int64(0), false
			if rd != nil {
				d, ok = record(rd.off)
			}
			add(t.typ, u.at, ok && d == t.off && rd.width == 2, fmt.Sprintf("%s is not the two bytes at %d of a name record", u.val.key, t.off))
		}
	}
	// other numbers that decide: the version of the table, the language of a record
	for _, u := range f.cmps {
		if u.typ == nil {
			continue
		}
		if nt, ok := u.typ.(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasSuffix(nt.Obj().Name(), "ID") {
			continue
		}
		prov := strings.TrimPrefix(u.val.prov, "~")
		rd := a.reads[strings.TrimRight(prov, "suSU")]
		if rd == nil {
			continue
		}
		if d, ok := addAval(rd.off, tab, -1).isConst(); ok && d >= 0 && d < 6 && (u.op == token.EQL || u.op == token.NEQ) {
			add("version", u.at, d == 0 || u.c == 0 && d == 2, fmt.Sprintf("byte %d of the name table is compared with a constant: the version is at 0", d))
		} else if d, ok := record(rd.off); ok && u.c != 0 && u.op != token.LSS && u.op != token.GTR && u.op != token.LEQ && u.op != token.GEQ {
			add("language", u.at, d == 4, fmt.Sprintf("byte %d of a name record is compared with a language: that is at 4", d))
		}
	}
}
