package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C10"] = checkC10 }

func newLayouter(p *Prog, fn *ssa.Function, r int64, head bool, preset map[string]bool) *layouter {
	l := &layouter{p: p, fn: fn, r: r, head: head, preset: preset, known: map[string]*lstride{}, alias: map[string]bool{}, seq: map[string]int{}, sums: map[string]*aval{}, dirty: map[string]bool{}, writing: map[string]bool{}, arrays: map[string]int64{}, opaque: map[string]bool{}, mapLoop: map[string]bool{}}
	l.a = newAbsint(p, 0)
	memo := map[*ssa.Function]bool{}
	l.isSum = func(g *ssa.Function) bool {
		is, ok := memo[g]
		if !ok {
			is = addsWords(g)
			memo[g] = is
		}
		return is
	}
	return l
}

// all follows the writer until what its loops add up is known.
func (l *layouter) all() *lframe {
	var fr *lframe
	for i := 0; i < 10; i++ {
		l.changed, l.again, l.steps = false, false, 0
		st := &lst{map[ssa.Value]*lv{}, map[string]*lv{}, map[string][]lseg{}, map[string]*aval{}, nil, map[string]int{}, map[string]string{}}
		args := make([]*lv, len(l.fn.Params))
		for k, q := range l.fn.Params {
			args[k] = l.initial("arg:"+q.Name(), q.Type())
		}
		l.next = map[string]*lstride{}
		fr = l.run(l.fn, "", 0, args, st)
		for k, x := range l.next {
			if y := l.known[k]; y == nil || y.bad != x.bad || !x.bad && x.d.key != y.d.key {
				l.changed = true
			}
		}
		l.known = l.next
		l.changed = l.changed || l.again
		if !l.changed || l.fail != "" {
			return fr
		}
	}
	l.fail = "what its loops add up does not settle"
	return fr
}

// addsWords: the function adds up all the big-endian 32-bit words of its argument.
func addsWords(g *ssa.Function) bool {
	if g == nil || len(g.Blocks) == 0 || len(g.Params) != 1 || !isBytes(g.Params[0].Type()) || g.Signature.Results().Len() != 1 {
		return false
	}
	if b, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint32 {
		return false
	}
	b := g.Params[0]
	var sum *ssa.Phi
	for _, blk := range g.Blocks {
		if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			phi, ok := ret.Results[0].(*ssa.Phi)
			if !ok || sum != nil && sum != phi {
				return false
			}
			sum = phi
		}
	}
	if sum == nil || len(sum.Edges) != 2 {
		return false
	}
	head := sum.Block()
	entry, back := -1, -1
	for i, p := range head.Preds {
		if head.Dominates(p) {
			back = i
		} else {
			entry = i
		}
	}
	if entry < 0 || back < 0 || !isZero(sum.Edges[entry]) {
		return false
	}
	add, ok := sum.Edges[back].(*ssa.BinOp)
	if !ok || add.Op != token.ADD {
		return false
	}
	word := add.X
	if word == ssa.Value(sum) {
		word = add.Y
	} else if add.Y != ssa.Value(sum) {
		return false
	}
	data, off, ok := wordAt(word)
	if !ok {
		return false
	}
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, x, y := cond.Op, cond.X, cond.Y
	if !head.Succs[0].Dominates(head.Preds[back]) {
		op = negate(op)
	}
	if op == token.GTR || op == token.GEQ {
		x, y = y, x
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.LEQ
		}
	}
	step := func(phi *ssa.Phi) bool {
		return phi.Block() == head && len(phi.Edges) == 2
	}
	isLen := func(v, of ssa.Value) bool {
		v = through(v)
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && c.Call.Args[0] == of
	}
	if data == ssa.Value(b) { // b[i:]
		i, c := offsetOf(off)
		if mul, ok := i.(*ssa.BinOp); ok && c == 0 { // b[4*i:] for i < len(b)/4
			return fourTimes(mul, func(phi *ssa.Phi) bool {
				if !step(phi) || !isZero(phi.Edges[entry]) || op != token.LSS || x != ssa.Value(phi) {
					return false
				}
				nx, d := offsetOf(phi.Edges[back])
				if nx != ssa.Value(phi) || d != 1 {
					return false
				}
				q, ok := through(y).(*ssa.BinOp)
				if !ok || !isLen(q.X, b) {
					return false
				}
				n, ok := constInt2(q.Y)
				return ok && (q.Op == token.QUO && n == 4 || q.Op == token.SHR && n == 2)
			})
		}
		phi, ok := i.(*ssa.Phi)
		if !ok || c != 0 || !step(phi) || !isZero(phi.Edges[entry]) {
			return false
		}
		nx, d := offsetOf(phi.Edges[back])
		if nx != ssa.Value(phi) || d != 4 {
			return false
		}
		xi, xc := offsetOf(x)
		yi, yc := offsetOf(y)
		if xi == ssa.Value(phi) && isLen(yi, b) {
			k := xc - yc
			return (op == token.LSS || op == token.NEQ && k == 0) && 0 <= k && k <= 3 || op == token.LEQ && 1 <= k && k <= 4
		}
		return (op == token.NEQ) && yi == ssa.Value(phi) && isLen(xi, b) && xc == yc
	}
	if phi, ok := data.(*ssa.Phi); ok && step(phi) && phi.Edges[entry] == ssa.Value(b) && off == nil { // b = b[4:]
		sl, ok := phi.Edges[back].(*ssa.Slice)
		if !ok || sl.X != ssa.Value(phi) || sl.High != nil || sl.Low == nil {
			return false
		}
		if n, ok := constInt2(sl.Low); !ok || n != 4 {
			return false
		}
		k, okx := constInt2(x)
		if okx && isLen(y, phi) {
			return op == token.LSS && k >= 0 && k <= 3 || op == token.LEQ && k >= 1 && k <= 4 || op == token.NEQ && k == 0
		}
		k, oky := constInt2(y)
		return oky && isLen(x, phi) && op == token.NEQ && k == 0
	}
	return false
}

func widthOf(t types.Type) int {
	w, _, _ := intWidth(t)
	return w
}

// fourTimes: the product is four times a variable that satisfies the condition.
func fourTimes(mul *ssa.BinOp, is func(*ssa.Phi) bool) bool {
	x, n := mul.X, mul.Y
	if _, ok := x.(*ssa.Const); ok {
		x, n = n, x
	}
	phi, ok := through(x).(*ssa.Phi)
	k, isC := constInt2(n)
	return ok && isC && (mul.Op == token.MUL && k == 4 || mul.Op == token.SHL && k == 2 && x == mul.X) && is(phi)
}

func constInt2(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok {
		return constInt(c)
	}
	return 0, false
}

func through(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || !isInt(c.X.Type()) || widthOf(c.Type()) < 4 && widthOf(c.Type()) < widthOf(c.X.Type()) {
			return v
		}
		v = c.X
	}
}

// offsetOf: v is the value plus a constant.
func offsetOf(v ssa.Value) (ssa.Value, int64) {
	if v == nil {
		return nil, 0
	}
	v = through(v)
	if bo, ok := v.(*ssa.BinOp); ok {
		if n, ok := constInt2(bo.Y); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
			x, c := offsetOf(bo.X)
			if bo.Op == token.SUB {
				n = -n
			}
			return x, c + n
		}
		if n, ok := constInt2(bo.X); ok && bo.Op == token.ADD {
			x, c := offsetOf(bo.Y)
			return x, c + n
		}
	}
	return v, 0
}

// wordAt: v is the big-endian 32-bit word of the data at the offset (nil for zero).
func wordAt(v ssa.Value) (data, off ssa.Value, ok bool) {
	v = through(v)
	if c, isCall := v.(*ssa.Call); isCall {
		if c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "(encoding/binary.bigEndian).Uint32" {
			return nil, nil, false
		}
		d := c.Call.Args[len(c.Call.Args)-1]
		if sl, isSl := d.(*ssa.Slice); isSl {
			return sl.X, sl.Low, true
		}
		return d, nil, true
	}
	// put together from bytes
	parts := map[int64]bool{}
	var base, at ssa.Value
	var rec func(v ssa.Value, shift int64) bool
	rec = func(v ssa.Value, shift int64) bool {
		v = through(v)
		switch t := v.(type) {
		case *ssa.BinOp:
			switch t.Op {
			case token.OR, token.ADD, token.XOR:
				return rec(t.X, shift) && rec(t.Y, shift)
			case token.SHL:
				n, ok := constInt2(t.Y)
				return ok && widthOf(t.Type()) >= 4 && rec(t.X, shift+n)
			}
		case *ssa.UnOp:
			ia, ok := t.X.(*ssa.IndexAddr)
			if !ok || t.Op != token.MUL {
				return false
			}
			i, c := offsetOf(ia.Index)
			if k, isC := i.(*ssa.Const); isC {
				n, _ := constInt(k)
				i, c = nil, c+n
			}
			if base != nil && (base != ia.X || at != i) {
				return false
			}
			base, at = ia.X, i
			if shift != 24-8*c || parts[c] {
				return false
			}
			parts[c] = true
			return true
		}
		return false
	}
	if !rec(v, 0) || len(parts) != 4 {
		return nil, nil, false
	}
	return base, at, true
}

type layoutWriter struct {
	name   string
	preset []map[string]bool
	woff2  bool
}

func checkC10(p *Prog, r *Report) {
	r.Rule("directory-entry", "the entry of each table records the table's own tag, checksum, offset and unpadded length, whatever the length is modulo four", 30)
	r.Rule("table-padded", "each table starts on a boundary of four bytes and is followed by as many zeros as it takes", 16)
	r.Rule("directory-sorted", "the tables are in the order of their tags before the entries are written", 16)
	r.Rule("checksum-adjustment", "the last thing written is 0xB1B0AFBA minus the sum of the whole file, at the place in the head table that was zero until then", 16)
	r.Rule("header", "the header gives the number of tables, and the entries and tables follow it without gaps", 16)
	r.Rule("woff2-lengths", "a WOFF2 file records its own length, that of its compressed data without padding and that of the font, and is padded with zeros", 4)
	r.Assumptions = append(r.Assumptions,
		"tags and versions have four characters; what a reader was asked for has the length asked for",
		"a list that is filled once for each table has as many entries as there are tables",
		"the tables are followed as one of them, which is not the first, at each of the four residues of its length; head or not head")
	writers := []layoutWriter{
		{name: "(*SFNT).Write", preset: []map[string]bool{{"IsTrueType": true, "IsCFF": false}, {"IsTrueType": false, "IsCFF": true}}},
		{name: "ParseWOFF", preset: []map[string]bool{nil}},
		{name: "ParseWOFF2", preset: []map[string]bool{nil}},
		{name: "FromGoFreetype", preset: []map[string]bool{nil}},
		{name: "(*SFNT).WriteWOFF2", preset: []map[string]bool{nil}, woff2: true},
	}
	byName := map[string]*ssa.Function{}
	for _, fn := range p.repoFuncs(fontPath) {
		byName[fnName(fn)] = fn
	}
	for _, w := range writers {
		fn := byName[w.name]
		if fn == nil {
			r.Bad("header", w.name, "?", "the writer does not exist")
			continue
		}
		for pi, preset := range w.preset {
			for res := int64(0); res < 4; res++ {
				var other map[string]*lstride
				kinds := []string{"head table", "other table", "no head table"}
				if w.woff2 {
					kinds = append(kinds, "DSIG table")
				}
				for _, kind := range kinds {
					l := newLayouter(p, fn, res, kind == "head table", preset)
					l.without, l.dsig = w.woff2, kind == "DSIG table"
					if l.none = kind == "no head table"; !l.none {
						l.other = other
					}
					fr := l.all()
					if l.head {
						other = l.known
					}
					key := fmt.Sprintf("%s, %s of length 4q+%d", w.name, kind, res)
					if len(w.preset) > 1 {
						key += fmt.Sprintf(", case %d", pi)
					}
					l.judge(r, w, key, fr)
				}
			}
		}
	}
}

func (l *layouter) judge(r *Report, w layoutWriter, key string, fr *lframe) {
	type verdict struct {
		ok     bool
		where  string
		detail string
	}
	rules := []string{"header", "directory-entry", "table-padded", "directory-sorted", "checksum-adjustment"}
	if w.woff2 {
		rules = []string{"woff2-lengths"}
	}
	found := map[string]*verdict{}
	start := l.p.where(l.fn.Pos())
	for _, k := range rules {
		found[k] = &verdict{true, start, ""}
	}
	bad := func(rule string, at ssa.Instruction, format string, args ...any) {
		if v := found[rule]; v != nil && v.ok {
			v.ok = false
			v.detail = fmt.Sprintf(format, args...)
			if at != nil {
				v.where = l.p.where(instrPos(at))
			}
		}
	}
	results := 0
	if l.dsig && l.fail == "" {
		for k, s := range l.known {
			i := strings.Index(k, "|")
			if !l.sawDSIG || !l.mapLoop[k[:i]] {
				continue
			}
			if c, ok := s.d.isConst(); s.bad || !ok || c != 0 {
				bad(rules[0], nil, "a table that is left out is counted: %s", k)
			}
		}
	} else if l.fail != "" {
		bad(rules[0], nil, "could not be followed: %s", l.fail)
	} else {
		for _, ret := range fr.rets {
			v := ret.val[0]
			if len(ret.val) > 1 && v.sl != nil && v.sl.obj == "nil" {
				continue
			}
			if v.key == "nil" && len(ret.val) > 1 {
				continue
			}
			if v.sl == nil || !strings.HasPrefix(v.sl.obj, "W:") {
				bad(rules[0], ret.at, "what is returned is not what was written: %s", v.key)
				continue
			}
			results++
			if os.Getenv("FONTCHECK_DEBUG") != "" {
				fmt.Println(key, "result", v.key)
				for _, e := range ret.st.events {
					fmt.Println("   ", e.kind, e.obj, avKey(e.pos), segsKey(e.segs))
				}
			}
			if w.woff2 {
				l.judgeWOFF2(ret, bad)
			} else {
				l.judgeSFNT(ret, bad)
			}
		}
		if results == 0 && !l.none && !l.dsig {
			bad(rules[0], nil, "no way through the writer returns what was written")
		}
	}
	for _, k := range rules {
		v := found[k]
		d := v.detail
		if v.ok {
			d = fmt.Sprintf("%d ways to write", results)
		}
		r.Add(k, key, v.where, v.ok, d)
	}
}

func hasAtom(a *aval, prefix string) bool {
	if a == nil || !a.num {
		return false
	}
	for k := range a.lin {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

func zerosAtEnd(ss []lseg) int64 {
	if len(ss) == 0 || ss[len(ss)-1].kind != 'z' {
		return 0
	}
	c, ok := ss[len(ss)-1].n.isConst()
	if !ok {
		return -1
	}
	return c
}

func (l *layouter) judgeSFNT(ret lret, bad func(string, ssa.Instruction, string, ...any)) {
	st := ret.st
	obj := ret.val[0].sl.obj
	var hdr, dir, tab, patches []*lev
	sortedAt, firstDir := -1, -1
	for i, e := range st.events {
		switch e.kind {
		case "sort":
			if firstDir < 0 {
				sortedAt = i
			}
		case "ordered":
			sortedAt = i
		}
		if e.obj != obj {
			continue
		}
		switch {
		case e.kind == "patch" && !hasAtom(e.pos, "#i"):
			patches = append(patches, e)
		case hasAtom(e.pos, "Sum<"):
			tab = append(tab, e)
		case hasAtom(e.pos, "#i"):
			dir = append(dir, e)
			if firstDir < 0 {
				firstDir = i
			}
		default:
			hdr = append(hdr, e)
		}
	}
	// the header
	at := map[int64]*lev{}
	end := constOf(0)
	for _, e := range hdr {
		if e.kind != "write" {
			bad("header", e.at, "the header is changed afterwards")
			continue
		}
		if c, ok := e.pos.isConst(); ok {
			at[c] = e
		}
		end = addAval(end, e.n, 1)
	}
	records := linAval(map[string]int64{"N": 16}, 12)
	first := linAval(map[string]int64{"#i": 16}, 12)
	if end.key != "+12" && end.key != records.key {
		bad("header", ret.at, "the header has %s bytes, not 12", end.key)
	}
	val := func(c int64, n int64) string {
		if e := at[c]; e != nil && len(e.segs) == 1 && e.n.key == constOf(n).key && e.val != nil {
			return e.val.key
		}
		return "?"
	}
	if val(4, 2) != "N" {
		bad("header", ret.at, "the number of tables is not at 4, but %s", val(4, 2))
	}
	if e, f := at[6], at[10]; e == nil || f == nil || at[8] == nil || e.val.n == nil || f.val.n == nil || addAval(e.val.n, f.val.n, 1).key != linAval(map[string]int64{"N": 16}, 0).key {
		bad("header", ret.at, "rangeShift is not 16 times the number of tables less searchRange")
	}
	if e := at[0]; e == nil || e.n.key != "+4" {
		bad("header", ret.at, "there is no version of four bytes")
	}
	// the table
	if len(tab) == 0 {
		bad("table-padded", ret.at, "no table is written in a loop over the tables")
		return
	}
	pos := tab[0].pos
	var segs []lseg
	next := pos
	for _, e := range tab {
		if e.kind != "write" || e.pos.key != next.key {
			bad("table-padded", e.at, "the parts of a table do not follow one another")
			return
		}
		segs = append(segs, e.segs...)
		next = addAval(e.pos, e.n, 1)
	}
	segs = canonSegs(segs)
	total := segsLen(segs)
	if c, ok := res4(total); !ok || c != 0 {
		bad("table-padded", tab[len(tab)-1].at, "the table with its padding has length %s", total.key)
	}
	m := int64(1)
	if c, ok := res4(total); ok && c == 0 {
		m = 4
	}
	order := ""
	for k := range pos.lin {
		if i := strings.LastIndex(k, ">"); strings.HasPrefix(k, "Sum<") && i > 0 {
			order = k[i+1:]
		}
	}
	if want := addAval(records, linAval(map[string]int64{"Sum<" + total.key + ">" + order: m}, 0), 1); pos.key != want.key {
		bad("header", tab[0].at, "the table is at %s, not after the directory and the tables before it: %s", pos.key, want.key)
	}
	if want := addAval(records, linAval(map[string]int64{"Total<" + total.key + ">": m}, 0), 1); ret.val[0].sl.hi.key != want.key || ret.val[0].sl.lo.key != "+0" {
		bad("header", ret.at, "what is returned is not all and only what was written: %s", ret.val[0].key)
	}
	pad := zerosAtEnd(segs)
	if pad != (4-l.r)%4 {
		bad("table-padded", tab[len(tab)-1].at, "a table of length 4q+%d is followed by %d zeros: %s", l.r, pad, segsKey(segs))
	}
	plain := addAval(total, constOf(pad), -1)
	// the entry
	field := map[int64]*lev{}
	for _, e := range dir {
		off := addAval(e.pos, first, -1)
		c, ok := off.isConst()
		if ok && c >= 0 && len(e.segs) == 1 && e.segs[0].kind == 'z' && len(field) == 0 {
			if n, isC := e.n.isConst(); isC && c+n <= 16 {
				continue // to be filled in
			}
		}
		if !ok || c < 0 || c > 12 || c%4 != 0 || e.n.key != "+4" || len(e.segs) != 1 {
			bad("directory-entry", e.at, "something is written at %s of the directory, %s bytes", e.pos.key, avKey(e.n))
			continue
		}
		field[c] = e
	}
	for c, what := range map[int64]string{0: "tag", 4: "checksum", 8: "offset", 12: "length"} {
		if field[c] == nil {
			bad("directory-entry", ret.at, "no %s is written", what)
		}
	}
	if e := field[0]; e != nil && !l.isTag(st, e) {
		bad("directory-entry", e.at, "the tag is not that of the table: %s", segsKey(e.segs))
	}
	if e := field[4]; e != nil {
		want := "sum[" + segsKey(segs) + "]"
		if k := e.val.k(); k != want && st.eq["="+k] != want && st.eq["="+want] != k {
			bad("directory-entry", e.at, "the checksum is %s, not %s", k, want)
		}
	}
	if e := field[8]; e != nil && e.val.k() != pos.key {
		bad("directory-entry", e.at, "the offset is %s, the table is at %s", e.val.k(), pos.key)
	}
	if e := field[12]; e != nil && e.val.k() != plain.key {
		bad("directory-entry", e.at, "the length is %s, that of the table is %s", e.val.k(), plain.key)
	}
	if c, ok := plain.isConst(); ok {
		bad("directory-entry", ret.at, "every table has %d bytes", c)
	}
	// the order
	if sortedAt < 0 || firstDir >= 0 && sortedAt > firstDir {
		bad("directory-sorted", ret.at, "nothing puts the tables in the order of their tags, or makes sure that they are, before the entries are written")
	}
	// the adjustment
	var adj *lev
	if n := len(patches); n > 1 {
		bad("checksum-adjustment", patches[1].at, "%d numbers are put into the file afterwards", n)
	} else if n == 1 {
		adj = patches[0]
	}
	if !l.head {
		switch {
		case adj == nil:
		case l.none:
			bad("checksum-adjustment", adj.at, "without a head table the adjustment is put at %s", adj.pos.key)
		case !adj.pos.num || len(adj.pos.lin) != 1 || adj.pos.c != 0 || !hasAtom(adj.pos, "?"):
			bad("checksum-adjustment", adj.at, "the place of the adjustment depends on a table other than head: %s", adj.pos.key)
		}
		return
	}
	if adj == nil {
		bad("checksum-adjustment", ret.at, "the adjustment is not written")
		return
	}
	if adj.pos.key != addAval(pos, constOf(8), 1).key {
		bad("checksum-adjustment", adj.at, "the adjustment is at %s, the head table at %s", adj.pos.key, pos.key)
	}
	if hole, ok := l.cut(segs, constOf(8), constOf(12)); !ok || len(hole) != 1 || hole[0].kind != 'z' || hole[0].n.key != "+4" {
		bad("checksum-adjustment", adj.at, "the adjustment is not zero when the checksums are made")
	}
	k := -1
	for i, e := range st.events {
		if e == adj {
			k = i
		}
	}
	for i, e := range st.events {
		if i > k && e.obj == obj {
			bad("checksum-adjustment", e.at, "something is written after the adjustment")
		}
	}
	want := linAval(map[string]int64{fmt.Sprintf("sumW@%d", k): -1}, 0xB1B0AFBA)
	if adj.n.key != "+4" || len(adj.segs) != 1 || strings.HasPrefix(adj.segs[0].src, "little") || adj.val.k() != want.key {
		bad("checksum-adjustment", adj.at, "the adjustment is %s, not 0xB1B0AFBA less the sum of the file as it is then (%s)", adj.val.k(), want.key)
	}
}

// isTag: the four bytes are the tag of the table.
func (l *layouter) isTag(st *lst, e *lev) bool {
	if len(e.segs) != 1 || strings.HasPrefix(e.segs[0].src, "little") {
		return false
	}
	src := e.segs[0].src
	if e.segs[0].kind == 'd' {
		if e.segs[0].lo.key != "+0" {
			return false
		}
	} else {
		s, ok := strings.CutPrefix(src, "be32(")
		if s, ok2 := strings.CutSuffix(s, "@+0)"); ok && ok2 {
			src = s
		} else {
			return false
		}
	}
	if strings.HasPrefix(src, "S:key ") || strings.Contains(src, "[*]") && !strings.Contains(src, "[?") {
		return true
	}
	for k, v := range st.heap { // what was found for this table, or kept in the list
		if strings.HasPrefix(k, "elem:") && strings.Contains(k, "[*]") && v.sl != nil && v.sl.obj == src {
			return true
		}
	}
	return false
}

func (l *layouter) judgeWOFF2(ret lret, bad func(string, ssa.Instruction, string, ...any)) {
	st := ret.st
	obj := ret.val[0].sl.obj
	at := map[int64]*lev{}
	var compressed *lev
	var after []lseg
	for _, e := range st.events {
		if e.obj != obj {
			continue
		}
		if c, ok := e.pos.isConst(); ok {
			at[c] = e
			if e.kind == "patch" && c != 8 && c != 20 {
				bad("woff2-lengths", e.at, "something is put at %d afterwards", c)
			}
		} else if e.kind == "patch" {
			bad("woff2-lengths", e.at, "something is put at %s afterwards", e.pos.key)
		}
		if compressed != nil && e.kind == "write" {
			after = append(after, e.segs...)
		}
		if e.kind == "write" && len(e.segs) == 1 && e.segs[0].src == "compressed" {
			compressed = e
		}
	}
	if compressed == nil {
		bad("woff2-lengths", ret.at, "no compressed data is written")
		return
	}
	total := ret.val[0].sl.hi
	val := func(c int64) string {
		if e := at[c]; e != nil && e.n.key == "+4" && len(e.segs) == 1 && !strings.HasPrefix(e.segs[0].src, "little") {
			return e.val.k()
		}
		return "?"
	}
	after = canonSegs(after)
	pad := (4 - l.r) % 4
	if zerosAtEnd(after) != pad || len(after) > 1 || pad == 0 && len(after) > 0 {
		bad("woff2-lengths", ret.at, "compressed data that ends at 4q+%d is followed by %s", l.r, segsKey(after))
	}
	if st.wpos[obj].key != total.key || ret.val[0].sl.lo.key != "+0" || val(8) != total.key {
		bad("woff2-lengths", ret.at, "the length at 8 is %s, the file has %s bytes", val(8), total.key)
	}
	if val(20) != compressed.n.key {
		bad("woff2-lengths", ret.at, "the length of the compressed data at 20 is %s, not %s", val(20), compressed.n.key)
	}
	e := at[12]
	if e == nil || e.n.key != "+2" || e.val.k() != "N" {
		bad("woff2-lengths", ret.at, "the number of tables is not at 12")
	}
	padded := linAval(map[string]int64{"len map:map[string][]byte[*]": 4}, 16+(l.r+3)/4*4)
	want := linAval(map[string]int64{"Total<" + padded.key + ">": 4}, 12)
	if val(16) != want.key {
		bad("woff2-lengths", ret.at, "the length of the font at 16 is %s, not %s", val(16), want.key)
	}
	sorted := false
	for _, e := range st.events {
		sorted = sorted || e.kind == "sort"
	}
	if !sorted {
		bad("woff2-lengths", ret.at, "the tables are not sorted")
	}

}
