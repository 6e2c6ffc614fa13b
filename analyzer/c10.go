package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a font writer puts where. The writer is followed over SSA with symbolic positions. Two partitions
// make its arithmetic decidable: the length of "the table under consideration" is 4q+r for r = 0..3, so that
// padding is a constant and loops that write padding are followed step by step, and that table is the head
// table or it is not. A loop over the tables is followed once, for that table; sums that such a loop carries
// (positions, offsets) are named by what is added for each table, so that two loops that
// add the same come to the same names.

type lseg struct {
	kind byte // 'd' a part of a source, 'z' zeros, 'v' a number
	src  string
	lo   *aval
	n    *aval
}

type lsl struct {
	obj    string
	lo, hi *aval
}

type lstruct struct {
	from string
	vals map[string]*lv
}

type lv struct {
	key string
	n   *aval
	sl  *lsl
	loc string
	str *string
	boo int // 1 false, 2 true
	tup []*lv
	st  *lstruct
}

type lev struct {
	kind string // write, patch, sort, ordered
	obj  string
	pos  *aval
	segs []lseg
	n    *aval
	val  *lv
	at   ssa.Instruction
}

type lst struct {
	env    map[ssa.Value]*lv
	heap   map[string]*lv
	objs   map[string][]lseg
	wpos   map[string]*aval
	events []*lev
	gen    map[string]int
	eq     map[string]string
}

func (s *lst) clone() *lst {
	t := &lst{map[ssa.Value]*lv{}, map[string]*lv{}, map[string][]lseg{}, map[string]*aval{}, s.events[:len(s.events):len(s.events)], map[string]int{}, map[string]string{}}
	for k, v := range s.env {
		t.env[k] = v
	}
	for k, v := range s.heap {
		t.heap[k] = v
	}
	for k, v := range s.objs {
		t.objs[k] = v
	}
	for k, v := range s.wpos {
		t.wpos[k] = v
	}
	for k, v := range s.gen {
		t.gen[k] = v
	}
	for k, v := range s.eq {
		t.eq[k] = v
	}
	return t
}

// heapKey: everything but the values of SSA.
func (s *lst) heapKey() string {
	var ks []string
	for k, v := range s.heap {
		ks = append(ks, "h"+k+"="+v.key)
	}
	for k, v := range s.objs {
		ks = append(ks, "o"+k+"="+segsKey(v))
	}
	for k, v := range s.wpos {
		ks = append(ks, "w"+k+"="+v.key)
	}
	for k, v := range s.gen {
		ks = append(ks, fmt.Sprint("g", k, v))
	}
	for k, v := range s.eq {
		ks = append(ks, "e"+k+"="+v)
	}
	sort.Strings(ks)
	for _, e := range s.events {
		ks = append(ks, e.kind+" "+e.obj+" "+avKey(e.pos)+" "+segsKey(e.segs)+" "+e.val.k())
	}
	return strings.Join(ks, "\n")
}

func (v *lv) k() string {
	if v == nil {
		return "-"
	}
	return v.key
}

func avKey(a *aval) string {
	if a == nil {
		return "-"
	}
	return a.key
}

func segsKey(ss []lseg) string {
	var out []string
	for _, s := range ss {
		switch s.kind {
		case 'z':
			out = append(out, "0*"+s.n.key)
		case 'd':
			out = append(out, s.src+"@"+s.lo.key+"+"+s.n.key)
		default:
			out = append(out, "v("+s.src+")*"+s.n.key)
		}
	}
	return strings.Join(out, " ")
}

func segsLen(ss []lseg) *aval {
	n := constOf(0)
	for _, s := range ss {
		n = addAval(n, s.n, 1)
	}
	return n
}

func canonSegs(ss []lseg) []lseg {
	var out []lseg
	for _, s := range ss {
		if c, ok := s.n.isConst(); ok && c == 0 {
			continue
		}
		if k := len(out) - 1; k >= 0 {
			l := out[k]
			if l.kind == 'z' && s.kind == 'z' {
				out[k] = lseg{kind: 'z', n: addAval(l.n, s.n, 1)}
				continue
			}
			if l.kind == 'd' && s.kind == 'd' && l.src == s.src && addAval(l.lo, l.n, 1).key == s.lo.key {
				out[k] = lseg{kind: 'd', src: l.src, lo: l.lo, n: addAval(l.n, s.n, 1)}
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// stride of a variable that a loop carries
type lstride struct {
	d   *aval
	bad bool
}

type layouter struct {
	p       *Prog
	fn      *ssa.Function
	r       int64
	head    bool
	none    bool                // there is no head table
	other   map[string]*lstride // for the head table
	preset  map[string]bool     // fields of the receiver
	known   map[string]*lstride
	next    map[string]*lstride
	alias   map[string]bool
	seq     map[string]int
	sums    map[string]*aval // what the atom of a sum adds up
	without bool             // the writer leaves out DSIG
	dsig    bool             // the table is DSIG
	sawDSIG bool
	mapLoop map[string]bool // loops over the map of tables
	dirty   map[string]bool // objects and places that a loop changes
	arrays  map[string]int64
	writing map[string]bool
	opaque  map[string]bool // by something other than a number
	again   bool
	changed bool
	steps   int
	fail    string
	a       *absint
	isSum   func(*ssa.Function) bool
}

func num(n *aval) *lv {
	if n == nil || !n.num {
		return &lv{key: avKey(n)}
	}
	return &lv{key: n.key, n: n}
}

func (l *layouter) first(key string) {
	if l.seq[key] == 0 {
		l.seq[key] = len(l.seq) + 1
	}
}

func (l *layouter) atom(key string) *aval {
	l.first(key)
	if l.alias[key] {
		key = "N"
	}
	return atomOf(key)
}

// len4 is an unknown number of the class r.
func (l *layouter) len4(key string) *aval {
	l.first(key)
	if l.alias[key] {
		return atomOf("N")
	}
	return linAval(map[string]int64{key: 4}, l.r)
}

func bslice(obj string, lo, hi *aval) *lv {
	return &lv{key: "[" + obj + "@" + lo.key + ":" + hi.key + "]", sl: &lsl{obj, lo, hi}}
}

func (l *layouter) data(name string) *lv { // unknown bytes
	return bslice("D:"+name, constOf(0), l.len4("len "+name))
}

func (l *layouter) initial(loc string, t types.Type) *lv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &lv{key: "S:" + loc, sl: &lsl{"S:" + loc, constOf(0), constOf(4)}}
		case u.Info()&types.IsInteger != 0:
			if w, _, _ := intWidth(t); w >= 4 && !strings.HasPrefix(loc, "idx[") {
				return num(l.len4(loc))
			}
			return num(l.atom(loc))
		case u.Info()&types.IsBoolean != 0:
			if b, ok := l.preset[loc[strings.LastIndexByte(loc, '.')+1:]]; ok && strings.Contains(loc, ".") {
				return boolLv(b)
			}
			return &lv{key: "B:" + loc}
		}
	case *types.Slice:
		if isBytes(t) {
			return l.data(loc)
		}
		return &lv{key: "L:" + loc}
	case *types.Pointer:
		return &lv{key: "&*" + loc, loc: "*" + loc}
	case *types.Struct:
		return &lv{key: "T:" + loc, st: &lstruct{loc, map[string]*lv{}}}
	}
	return &lv{key: "?:" + loc}
}

func boolLv(b bool) *lv {
	if b {
		return &lv{key: "true", boo: 2}
	}
	return &lv{key: "false", boo: 1}
}

func (l *layouter) load(st *lst, loc string, t types.Type) *lv {
	if _, ok := t.Underlying().(*types.Struct); ok {
		from := loc
		if o := st.heap[loc+".\x00"]; o != nil {
			from = o.key
		}
		s := &lstruct{from, map[string]*lv{}}
		key := "T:" + from
		var ks []string
		for k := range st.heap {
			if strings.HasPrefix(k, loc+".") && !strings.HasSuffix(k, "\x00") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			s.vals[k[len(loc)+1:]] = st.heap[k]
			key += "," + k[len(loc)+1:] + "=" + st.heap[k].key
		}
		return &lv{key: key, st: s}
	}
	if v := st.heap[loc]; v != nil {
		return v
	}
	for i := len(loc) - 1; i > 0; i-- {
		if loc[i] == '.' {
			if o := st.heap[loc[:i]+".\x00"]; o != nil {
				return l.initial(o.key+loc[i:], t)
			}
		}
	}
	if strings.HasPrefix(loc, "new:") { // zero
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				return num(constOf(0))
			}
			if u.Info()&types.IsBoolean != 0 {
				return boolLv(false)
			}
		}
		if nilable(t) {
			return &lv{key: "nil"}
		}
	}
	return l.initial(loc, t)
}

func (l *layouter) store(st *lst, loc string, v *lv) {
	if v.st != nil {
		for k := range st.heap {
			if strings.HasPrefix(k, loc+".") {
				delete(st.heap, k)
			}
		}
		st.heap[loc+".\x00"] = &lv{key: v.st.from}
		for k, x := range v.st.vals {
			st.heap[loc+"."+k] = x
		}
		return
	}
	st.heap[loc] = v
}

func (l *layouter) content(st *lst, s *lsl) []lseg {
	if s == nil {
		return []lseg{{kind: 'v', src: "?", n: unk()}}
	}
	var ss []lseg
	switch c, ok := st.objs[s.obj]; {
	case ok:
		ss = c
	case strings.HasPrefix(s.obj, "arr:"):
		n, ok := s.hi.isConst()
		if !ok || n > 64 {
			return []lseg{{kind: 'v', src: "?", n: addAval(s.hi, s.lo, -1)}}
		}
		for i := int64(0); i < n; i++ {
			x := st.heap[fmt.Sprintf("%s.[%d]", s.obj[4:], i)]
			if x == nil {
				ss = append(ss, lseg{kind: 'z', n: constOf(1)})
			} else {
				ss = append(ss, l.numSeg(x, 1))
			}
		}
		ss = canonSegs(ss)
	case strings.HasPrefix(s.obj, "W:"):
		// what was written between the two places
		var at *aval
		for _, e := range st.events {
			if e.kind != "write" || e.obj != s.obj {
				continue
			}
			if at == nil && e.pos.key == s.lo.key {
				at = s.lo
			}
			if at != nil && e.pos.key == at.key && at.key != s.hi.key {
				ss = append(ss, e.segs...)
				at = addAval(e.pos, e.n, 1)
			}
		}
		if at == nil || at.key != s.hi.key {
			return []lseg{{kind: 'v', src: "?" + s.obj + s.lo.key + ":" + s.hi.key, n: addAval(s.hi, s.lo, -1)}}
		}
		return canonSegs(ss)
	default:
		return []lseg{{kind: 'd', src: s.obj, lo: s.lo, n: addAval(s.hi, s.lo, -1)}}
	}
	if c, ok := s.lo.isConst(); ok && c == 0 && segsLen(ss).key == s.hi.key {
		return ss
	}
	if len(ss) == 1 && ss[0].kind != 'v' {
		x := ss[0]
		if x.kind == 'd' {
			x.lo = addAval(x.lo, s.lo, 1)
		}
		x.n = addAval(s.hi, s.lo, -1)
		return canonSegs([]lseg{x})
	}
	if out, ok := l.cut(ss, s.lo, s.hi); ok {
		return out
	}
	return []lseg{{kind: 'v', src: "?" + s.obj + s.lo.key + ":" + s.hi.key, n: addAval(s.hi, s.lo, -1)}}
}

// sign of a number made of lengths: 1 not negative, -1 negative, 0 unknown. The head table is known to be long enough.
func (l *layouter) sign(a *aval) int {
	if !a.num {
		return 0
	}
	pos, neg := true, true
	for _, n := range a.lin {
		pos = pos && n > 0
		neg = neg && n < 0
	}
	slack := int64(0)
	if l.head && len(a.lin) > 0 {
		slack = 53
	}
	switch {
	case pos && a.c >= -slack:
		return 1
	case neg && a.c < slack:
		return -1
	}
	return 0
}

// cut takes what lies between two places.
func (l *layouter) cut(ss []lseg, lo, hi *aval) ([]lseg, bool) {
	at := constOf(0)
	var out []lseg
	for i, x := range ss {
		end := addAval(at, x.n, 1)
		last := i == len(ss)-1
		a, b := at, end
		switch l.sign(addAval(addAval(lo, at, -1), constOf(1), -1)) { // lo > at
		case 1:
			a = lo
		case 0:
			if lo.key != at.key {
				if l.sign(addAval(at, lo, -1)) != 1 {
					return nil, false
				}
			}
		}
		switch l.sign(addAval(addAval(end, hi, -1), constOf(1), -1)) { // end > hi
		case 1:
			b = hi
		case 0:
			if end.key != hi.key && l.sign(addAval(hi, end, -1)) != 1 {
				if !last {
					return nil, false
				}
				b = hi // within bounds
			}
		}
		at = end
		n := addAval(b, a, -1)
		if c, ok := n.isConst(); ok && c <= 0 || l.sign(n) == -1 {
			continue
		} else if !ok && l.sign(n) != 1 {
			return nil, false
		}
		switch {
		case x.kind == 'd':
			out = append(out, lseg{kind: 'd', src: x.src, lo: addAval(x.lo, addAval(a, addAval(end, x.n, -1), -1), 1), n: n})
		case x.kind == 'z':
			out = append(out, lseg{kind: 'z', n: n})
		case n.key == x.n.key:
			out = append(out, x)
		default:
			return nil, false
		}
	}
	if segsLen(out).key != addAval(hi, lo, -1).key {
		return nil, false
	}
	return canonSegs(out), true
}

func (l *layouter) numSeg(v *lv, w int64) lseg {
	if v.n != nil {
		if c, ok := v.n.isConst(); ok && c == 0 {
			return lseg{kind: 'z', n: constOf(w)}
		}
	}
	return lseg{kind: 'v', src: v.key, n: constOf(w)}
}

// overwrite puts a number into an object.
func (l *layouter) overwrite(st *lst, s *lsl, x lseg) {
	ss := l.content(st, &lsl{s.obj, constOf(0), segsLen(l.whole(st, s))})
	at := constOf(0)
	for i, y := range ss {
		off := addAval(s.lo, at, -1)
		left := addAval(y.n, addAval(off, x.n, 1), -1)
		_, fixed := y.n.isConst()
		if c, ok := left.isConst(); ok && c < 0 {
			at = addAval(at, y.n, 1)
			continue
		} else if !ok && fixed {
			break
		}
		if y.kind == 'v' {
			break
		}
		a, b := y, y
		a.n = off
		b.n = left
		if y.kind == 'd' {
			b.lo = addAval(addAval(y.lo, off, 1), x.n, 1)
		}
		var out []lseg
		out = append(out, ss[:i]...)
		out = append(out, a, x, b)
		out = append(out, ss[i+1:]...)
		st.objs[s.obj] = canonSegs(out)
		return
	}
	st.objs[s.obj] = []lseg{{kind: 'v', src: "?" + s.obj, n: segsLen(ss)}}
}

func (l *layouter) whole(st *lst, s *lsl) []lseg {
	if c, ok := st.objs[s.obj]; ok {
		return c
	}
	if strings.HasPrefix(s.obj, "D:") {
		return []lseg{{kind: 'd', src: s.obj, lo: constOf(0), n: l.len4("len " + s.obj[2:])}}
	}
	return l.content(st, s)
}

func res4(a *aval) (int64, bool) {
	if a == nil || !a.num {
		return 0, false
	}
	for _, n := range a.lin {
		if n%4 != 0 {
			return 0, false
		}
	}
	return ((a.c % 4) + 4) % 4, true
}

// mapLoc names a map: those that are made here apart, the others by their type.
func mapLoc(m *lv, t types.Type) string {
	if m != nil && strings.HasPrefix(m.key, "map:") {
		return m.key
	}
	return "map:" + types.TypeString(t, nil)
}

// indexOf names the element that an index selects.
func (l *layouter) indexOf(v *lv) string {
	if v.n == nil {
		return "[?" + v.key + "]"
	}
	if c, ok := v.n.isConst(); ok {
		return fmt.Sprintf("[%d]", c)
	}
	if len(v.n.lin) == 1 {
		for k, n := range v.n.lin {
			if n == 1 && strings.HasPrefix(k, "idx[") && v.n.c == 0 {
				return k[3:]
			}
			if n == 1 && (k == "#i" || k == "#t") {
				if v.n.c == 0 {
					return "[*]"
				}
				return fmt.Sprintf("[*%+d]", v.n.c)
			}
		}
	}
	return "[?" + v.n.key + "]"
}

func (l *layouter) keyOf(v *lv) string {
	if v.str == nil {
		return "[*]"
	}
	if l.head && *v.str == "head" {
		return "[*]"
	}
	return "[" + *v.str + "]"
}

type lframe struct {
	fn    *ssa.Function
	ctx   string
	depth int
	rets  []lret
}

type lret struct {
	st  *lst
	val []*lv
	at  *ssa.Return
}

func (l *layouter) eval(fr *lframe, st *lst, v ssa.Value) *lv {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			if isBytes(t.Type()) {
				return bslice("nil", constOf(0), constOf(0))
			}
			return &lv{key: "nil"}
		}
		switch t.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(t.Value); ok {
				return num(constOf(n))
			}
		case constant.String:
			s := constant.StringVal(t.Value)
			o := fmt.Sprintf("%q", s)
			return &lv{key: o, str: &s, sl: &lsl{"S:" + o, constOf(0), constOf(int64(len(s)))}}
		case constant.Bool:
			return boolLv(constant.BoolVal(t.Value))
		}
		return &lv{key: t.Value.String()}
	case *ssa.Global:
		return &lv{key: "&g:" + t.Name(), loc: "g:" + t.Name()}
	case *ssa.Function:
		return &lv{key: "func:" + t.String()}
	}
	if x := st.env[v]; x != nil {
		return x
	}
	return l.initial(fr.ctx+fr.fn.Name()+"."+v.Name(), v.Type())
}

func (l *layouter) fresh(fr *lframe, v ssa.Value, what string) *lv {
	return l.initial(what+fr.ctx+fr.fn.Name()+"."+v.Name(), v.Type())
}

func counterName(st *lst) string {
	n := 0
	for _, g := range st.gen {
		if g == 1 {
			n++
		}
	}
	if n <= 1 {
		return "#i"
	}
	return fmt.Sprintf("#i%d", n)
}

// cell: a place in memory that is there before and after a turn of the loop.
func (l *layouter) cell(st *lst, loc string) bool {
	for _, p := range []string{"in:", "at:", "obj:", "own:", "was:", "fill:"} {
		if strings.HasPrefix(loc, p) {
			return false
		}
	}
	if strings.Contains(loc, "[*") {
		return false
	}
	for i := 0; i <= len(loc); i++ {
		if (i == len(loc) || loc[i] == '.') && st.heap["own:"+loc[:i]] != nil {
			return false
		}
	}
	return true
}

// cellsAtHead: what a loop changes in memory is, like what it carries in variables,
// what was there before and as much again for each table.
func (l *layouter) cellsAtHead(fr *lframe, s *lst, hk, order string) {
	var locs []string
	for loc := range s.heap {
		if l.cell(s, loc) {
			locs = append(locs, loc)
		}
	}
	for k := range l.dirty {
		if loc := strings.TrimPrefix(k, hk+"|H:"); loc != k && s.heap[loc] == nil && l.cell(s, loc) {
			if strings.HasPrefix(loc, "new:") {
				s.heap[loc] = num(constOf(0))
			}
			locs = append(locs, loc)
		}
	}
	sort.Strings(locs)
	for _, loc := range locs {
		k := hk + "|H:" + loc
		if v := s.heap[loc]; l.dirty[k] {
			switch {
			case v != nil && v.n != nil && !l.opaque[k]:
				s.heap["in:"+k] = v
				s.heap[loc] = num(l.carried(k, v.n, s, order))
				s.heap["at:"+k] = s.heap[loc]
			case v != nil && v.sl != nil:
				s.heap[loc] = l.data("?" + k)
			default:
				s.heap[loc] = &lv{key: "?" + k}
			}
		}
		s.heap["was:"+k] = s.heap[loc]
	}
}

func (l *layouter) cellsAfter(s *lst, hk string, outer bool) {
	var locs []string
	for loc := range s.heap {
		if l.cell(s, loc) {
			locs = append(locs, loc)
		}
	}
	sort.Strings(locs)
	for _, loc := range locs {
		k := hk + "|H:" + loc
		v, was := s.heap[loc], s.heap["was:"+k]
		if was != nil && was.key == v.key && !l.dirty[k] {
			continue
		}
		if !l.dirty[k] {
			l.dirty[k] = true
			l.again = true
		}
		cur, entry := s.heap["at:"+k], s.heap["in:"+k]
		switch {
		case cur == nil || entry == nil:
			if v.n != nil && was != nil && was.n == nil && !l.opaque[k] {
				l.opaque[k] = true
				l.again = true
			}
		case v.n != nil:
			l.learn(k, v.n, cur.n)
			s.heap[loc] = num(l.after(k, v.n, entry.n, s, outer))
		default:
			l.next[k] = &lstride{bad: true}
			if !l.opaque[k] {
				l.opaque[k] = true
				l.again = true
			}
		}
	}
}

// orderOf names the order in which a loop comes by the tables: that of the list
// that it takes them from or puts them into, and how often lists were sorted before.
func (l *layouter) orderOf(st *lst, hk string, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	tagged := func(t types.Type) string {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if isString(t) {
			return types.TypeString(t, nil)
		}
		if x, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < x.NumFields(); i++ {
				if isString(x.Field(i).Type()) {
					return types.TypeString(t, nil)
				}
			}
		}
		return ""
	}
	var from, into []string
	overMap := false
	for blk := range body {
		for _, in := range blk.Instrs {
			switch t := in.(type) {
			case *ssa.Next:
				if blk == b {
					overMap = true
					l.mapLoop[hk] = true
				}
			case *ssa.IndexAddr:
				i, _ := offsetOf(t.Index)
				if phi, ok := i.(*ssa.Phi); !ok || phi.Block() != b {
					continue
				}
				if sl, ok := t.X.Type().Underlying().(*types.Slice); ok {
					if n := tagged(sl.Elem()); n != "" {
						from = append(from, n)
					}
				}
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if sl, ok := t.Type().Underlying().(*types.Slice); ok {
						if n := tagged(sl.Elem()); n != "" {
							into = append(into, n)
						}
					}
				}
			}
		}
	}
	if len(from) == 0 {
		from = into
	}
	sort.Strings(from)
	n := ""
	switch {
	case len(from) > 0:
		n = from[0]
	case overMap:
		n = "map"
	}
	return fmt.Sprintf("%s/%d", n, l.sorts(st))
}

func (l *layouter) carried(k string, entry *aval, st *lst, order string) *aval {
	s := l.known[k]
	if s == nil && entry.num && strings.Contains(k, "|W:") {
		// a guess that the next pass has to confirm: multiples of four are added
		l.first("?" + k)
		return addAval(entry, linAval(map[string]int64{"?" + k: 4}, 0), 1)
	}
	if s == nil || s.bad || !entry.num {
		return l.atom("?" + k)
	}
	if c, ok := s.d.isConst(); ok {
		if c == 0 {
			if l.elsewhere(k) {
				return l.atom("?" + k)
			}
			return entry
		}
		return linAval(func() map[string]int64 {
			m := map[string]int64{counterName(st): c}
			for k, n := range entry.lin {
				m[k] += n
			}
			return m
		}(), entry.c)
	}
	name := "Sum<" + s.d.key + ">" + order
	l.sums[name] = s.d
	m := int64(1)
	if r, ok := res4(s.d); ok && r == 0 {
		m = 4
	}
	return addAval(entry, linAval(map[string]int64{name: m}, 0), 1)
}

// elsewhere: when the head table is considered, the variable changes.
func (l *layouter) elsewhere(k string) bool {
	x := l.other[k]
	if x == nil || x.bad {
		return x != nil
	}
	c, ok := x.d.isConst()
	return !ok || c != 0
}

func (l *layouter) after(k string, now, entry *aval, st *lst, outer bool) *aval {
	s := l.known[k]
	if s == nil || s.bad {
		return now
	}
	if c, ok := s.d.isConst(); ok {
		if c == 0 {
			if l.elsewhere(k) {
				return l.atom("?" + k)
			}
			return entry
		}
		cnt := "N"
		if !outer {
			cnt = "count " + k
		}
		return addAval(entry, linAval(map[string]int64{cnt: c}, 0), 1)
	}
	name := "Total<" + s.d.key + ">"
	l.sums[name] = s.d
	m := int64(1)
	if r, ok := res4(s.d); ok && r == 0 {
		m = 4
	}
	return addAval(entry, linAval(map[string]int64{name: m}, 0), 1)
}

func (l *layouter) learn(k string, now, before *aval) {
	d := addAval(now, before, -1)
	if d.num {
		for a := range d.lin {
			if strings.Contains(a, "?") || strings.HasPrefix(a, "#") {
				d = unk() // not the same for each table
				break
			}
		}
	}
	if os.Getenv("C10LEARN") != "" {
		fmt.Println("LEARN", k, d.key, avKey(now), avKey(before), l.known[k])
	}
	s := l.next[k]
	switch {
	case s == nil && d.num:
		l.next[k] = &lstride{d: d}
	case s == nil:
		l.next[k] = &lstride{bad: true}
	case !s.bad && (!d.num || d.key != s.d.key):
		s.bad = true
	}
}

func (l *layouter) run(fn *ssa.Function, ctx string, depth int, args []*lv, st *lst) *lframe {
	fr := &lframe{fn: fn, ctx: ctx, depth: depth}
	for i, q := range fn.Params {
		if i < len(args) && args[i] != nil {
			st.env[q] = args[i]
		}
	}
	type item struct {
		b, from *ssa.BasicBlock
		st      *lst
		n       int
	}
	bodies := l.a.loopBodies(fn)
	live := l.a.liveIn(fn)
	seen := map[*ssa.BasicBlock]map[string]*lst{}
	work := []item{{fn.Blocks[0], nil, st, 0}}
	order := blockOrder(fn)
	for len(work) > 0 {
		pick := len(work) - 1
		for i, w := range work {
			if order[w.b] < order[work[pick].b] {
				pick = i
			}
		}
		it := work[pick]
		work = append(work[:pick], work[pick+1:]...)
		if hk := fmt.Sprintf("%s%s.%d", ctx, fn.Name(), it.b.Index); bodies[it.b.Index] != nil && it.from != nil && !it.b.Dominates(it.from) {
			// what arrives at a loop over the tables
			same := []item{it}
			var rest []item
			for _, w := range work {
				if w.b == it.b && w.from != nil && !w.b.Dominates(w.from) {
					same = append(same, w)
				} else {
					rest = append(rest, w)
				}
			}
			phis := map[*lst]map[ssa.Value]*lv{}
			generic := true
			for _, w := range same {
				phis[w.st] = l.arrive(fr, w.st, w.b, w.from)
				probe := w.st.clone()
				delete(probe.gen, hk)
				for v, x := range phis[w.st] {
					probe.env[v] = x
				}
				generic = generic && !l.decided(fr, probe, it.b)
			}
			if generic {
				work = rest
				merged := l.mergeAll(fr, it.b, len(same), func(i int) (*lst, map[ssa.Value]*lv) { return same[i].st, phis[same[i].st] }, live[it.b])
				for _, m := range merged[1:] {
					work = append(work, item{it.b, nil, m, 0})
				}
				it = item{it.b, nil, merged[0], 0}
			}
		}
		l.steps++
		if l.steps > 60000 {
			l.fail = "too many ways through " + fnName(fn)
			return fr
		}
		b, s := it.b, it.st
		if it.from != nil || b != fn.Blocks[0] {
			vals := map[ssa.Value]*lv{}
			if it.from != nil {
				vals = l.arrive(fr, s, b, it.from)
			}
			isHead := false
			for _, p := range b.Preds {
				isHead = isHead || b.Dominates(p)
			}
			back := it.from != nil && b.Dominates(it.from)
			hk := fmt.Sprintf("%s%s.%d", ctx, fn.Name(), b.Index)
			if isHead && back && s.gen[hk] == 1 {
				outer := counterName(s) == "#i"
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					k := hk + "|" + phi.Name()
					cur, entry := s.heap["at:"+k], s.heap["in:"+k]
					if cur == nil || entry == nil {
						continue
					}
					if vals[phi].n != nil {
						l.learn(k, vals[phi].n, cur.n)
						vals[phi] = num(l.after(k, vals[phi].n, entry.n, s, outer))
					} else {
						l.next[k] = &lstride{bad: true}
					}
				}
				for w := range s.wpos {
					k := hk + "|" + w
					cur, entry := s.heap["at:"+k], s.heap["in:"+k]
					if cur == nil || entry == nil {
						continue
					}
					l.learn(k, s.wpos[w], cur.n)
					s.wpos[w] = l.after(k, s.wpos[w], entry.n, s, outer)
				}
				l.cellsAfter(s, hk, outer)
				for obj, c := range s.objs {
					was := s.heap["obj:"+hk+"|"+obj]
					if late := strings.HasPrefix(obj, "arr:") && s.heap["own:"+strings.TrimPrefix(obj, "arr:")] == nil || strings.HasPrefix(obj, "D:") && !strings.Contains(obj, "[*]"); was == nil && late && !strings.Contains(obj, "[*]") {
						was = &lv{key: "as it was"}
					} else if was == nil {
						s.heap["own:"+obj] = &lv{key: "own"}
					}
					if was != nil && was.key != segsKey(c) && !l.dirty[hk+"|"+obj] {
						l.dirty[hk+"|"+obj] = true
						l.again = true
					}
				}
				s.gen[hk] = 2
			} else if isHead && !back {
				delete(s.gen, hk)
			}
			for k, v := range vals {
				s.env[k] = v
			}
			if isHead && s.gen[hk] == 0 && !l.decided(fr, s, b) {
				// a loop over the tables
				s.gen[hk] = 1
				ord := l.orderOf(s, hk, b, bodies[b.Index])
				for k := range l.dirty {
					obj := strings.TrimPrefix(k, hk+"|")
					if strings.HasPrefix(obj, "arr:") && s.objs[obj] == nil {
						s.objs[obj] = []lseg{{kind: 'v', src: "?" + k, n: constOf(l.arrays[obj[4:]])}}
					} else if strings.HasPrefix(obj, "D:") && s.objs[obj] == nil {
						s.objs[obj] = l.whole(s, &lsl{obj: obj})
					}
				}
				for obj, c := range s.objs {
					if l.dirty[hk+"|"+obj] {
						s.objs[obj] = []lseg{{kind: 'v', src: "?" + hk + obj, n: segsLen(c)}}
					}
					if s.heap["own:"+obj] == nil && !strings.Contains(obj, "[*]") {
						s.heap["obj:"+hk+"|"+obj] = &lv{key: segsKey(s.objs[obj])}
					}
				}
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					v := s.env[phi]
					k := hk + "|" + phi.Name()
					if v.n != nil {
						s.heap["in:"+k] = v
						s.env[phi] = num(l.carried(k, v.n, s, ord))
						s.heap["at:"+k] = s.env[phi]
					} else if v.boo != 0 || v.sl != nil || v.key == "nil" {
						s.env[phi] = l.fresh(fr, phi, "?")
					}
				}
				l.cellsAtHead(fr, s, hk, ord)
				for w, p := range s.wpos {
					k := hk + "|" + w
					s.heap["in:"+k] = num(p)
					s.wpos[w] = l.carried(k, p, s, ord)
					s.heap["at:"+k] = num(s.wpos[w])
				}
			}
		}
		lvs := live[b]
		for v := range s.env {
			if !lvs[v] {
				delete(s.env, v)
			}
		}
		hkey := s.heapKey()
		if seen[b] == nil {
			seen[b] = map[string]*lst{}
		}
		if o := seen[b][hkey]; o != nil {
			same := true
			for v, x := range s.env {
				y := o.env[v]
				if y == nil || y.key != x.key {
					same = false
				}
			}
			if same {
				continue
			}
			isHeadGen := false
			j := s.clone()
			for v, x := range o.env {
				y := s.env[v]
				if y != nil && y.key != x.key {
					j.env[v] = l.joined(fr, v, x, y, b)
				}
			}
			same = true
			for v, x := range j.env {
				if y := o.env[v]; y == nil || y.key != x.key {
					same = false
				}
			}
			_ = isHeadGen
			if same {
				continue
			}
			s = j
		}
		seen[b][hkey] = s.clone()
		hk := fmt.Sprintf("%s%s.%d", ctx, fn.Name(), b.Index)
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				c := l.eval(fr, s, t.Cond)
				g := s.gen[hk]
				take := [2]bool{c.boo != 1, c.boo != 2}
				if body := bodies[b.Index]; body != nil && g != 0 {
					for k := range take {
						inside := body[b.Succs[k]]
						if g == 1 && !inside && body[b.Succs[1-k]] {
							take[k] = false
						}
						if g == 2 && inside {
							take[k] = false
						}
					}
					if g == 1 {
						l.bound(t.Cond, fr, s)
					}
				}
				for k := range take {
					if take[k] {
						n := s.clone()
						l.refine(fr, n, t.Cond, k == 0)
						work = append(work, item{b.Succs[k], b, n, 0})
					}
				}
			case *ssa.Jump:
				if s.gen[hk] == 2 && bodies[b.Index] != nil {
					break // a loop that is only left from within
				}
				work = append(work, item{b.Succs[0], b, s.clone(), 0})
			case *ssa.Return:
				r := lret{st: s, at: t}
				for _, v := range t.Results {
					r.val = append(r.val, l.eval(fr, s, v))
				}
				fr.rets = append(fr.rets, r)
			default:
				l.instr(fr, s, in)
			}
		}
	}
	return fr
}

// arrive: the values of the phis of a block, when it is entered from a predecessor.
func (l *layouter) arrive(fr *lframe, s *lst, b, from *ssa.BasicBlock) map[ssa.Value]*lv {
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[ssa.Value]*lv{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = l.eval(fr, s, phi.Edges[idx])
	}
	return vals
}

// mergeAll makes one state of those that have written the same.
func (l *layouter) mergeAll(fr *lframe, b *ssa.BasicBlock, n int, get func(int) (*lst, map[ssa.Value]*lv), live map[ssa.Value]bool) []*lst {
	var out []*lst
	keys := map[string]int{}
	for i := 0; i < n; i++ {
		g, phis := get(i)
		s := g.clone()
		for v := range s.env {
			if !live[v] {
				delete(s.env, v)
			}
		}
		for v, x := range phis {
			s.env[v] = x
		}
		var ks []string
		for k, v := range s.wpos {
			ks = append(ks, "w"+k+"="+v.key)
		}
		for k, v := range s.gen {
			ks = append(ks, fmt.Sprint("g", k, v))
		}
		sort.Strings(ks)
		for _, e := range s.events {
			ks = append(ks, e.kind+" "+e.obj+" "+avKey(e.pos)+" "+segsKey(e.segs)+" "+e.val.k())
		}
		k := strings.Join(ks, "\n")
		if j, ok := keys[k]; ok {
			l.mergeInto(fr, b, out[j], s)
		} else {
			keys[k] = len(out)
			out = append(out, s)
		}
	}
	for _, s := range out {
		for loc, v := range s.heap {
			if v.sl == nil || v.str != nil || !strings.Contains(loc, "[*]") {
				continue
			}
			if _, ok := res4(addAval(v.sl.hi, v.sl.lo, -1)); !ok {
				s.heap[loc] = l.data(fmt.Sprintf("at %d:%s%s:%s", b.Index, fr.ctx, fr.fn.Name(), loc))
			}
		}
	}
	return out
}

func (l *layouter) mergeInto(fr *lframe, b *ssa.BasicBlock, s, t *lst) {
	at := fmt.Sprintf("at %d:%s%s:", b.Index, fr.ctx, fr.fn.Name())
	value := func(name string, x, y *lv) *lv {
		switch {
		case x == nil || y == nil:
			if x == nil {
				x = y
			}
			switch {
			case x.n != nil:
				return num(atomOf(at + name))
			case x.sl != nil && strings.HasPrefix(x.sl.obj, "S:"):
				return bslice("S:"+at+name, constOf(0), constOf(4))
			case x.sl != nil:
				return l.data(at + name)
			case x.boo != 0:
				return &lv{key: "B:" + at + name}
			}
			return &lv{key: "?" + at + name}
		case x.key == y.key:
			return x
		case x.n != nil && y.n != nil:
			a, ok1 := res4(x.n)
			c, ok2 := res4(y.n)
			if ok1 && ok2 && a == c {
				return num(linAval(map[string]int64{at + name: 4}, a))
			}
			return num(atomOf(at + name))
		case x.sl != nil && y.sl != nil:
			if n := addAval(x.sl.hi, x.sl.lo, -1); n.key == addAval(y.sl.hi, y.sl.lo, -1).key {
				return bslice("D:"+at+name, constOf(0), n)
			}
			return l.data(at + name)
		case x.boo != 0 || strings.HasPrefix(x.key, "B:"):
			return &lv{key: "B:" + at + name}
		}
		return &lv{key: "?" + at + name}
	}
	for v, x := range s.env {
		y := t.env[v]
		if y == nil {
			delete(s.env, v)
			continue
		}
		s.env[v] = value(v.Name(), x, y)
	}
	for k, x := range s.heap {
		s.heap[k] = value(k, x, t.heap[k])
	}
	for k, y := range t.heap {
		if s.heap[k] == nil {
			s.heap[k] = value(k, nil, y)
		}
	}
	for k, x := range s.objs {
		if y, ok := t.objs[k]; ok && segsKey(x) != segsKey(y) {
			s.objs[k] = []lseg{{kind: 'v', src: "?" + at + k, n: segsLen(x)}}
		}
	}
	for k, y := range t.objs {
		if _, ok := s.objs[k]; !ok {
			s.objs[k] = y
		}
	}
	for k, x := range s.eq {
		if t.eq[k] != x {
			delete(s.eq, k)
		}
	}
}

func (l *layouter) joined(fr *lframe, v ssa.Value, x, y *lv, b *ssa.BasicBlock) *lv {
	name := fmt.Sprintf("join%d:%s%s.%s", b.Index, fr.ctx, fr.fn.Name(), v.Name())
	if x.n != nil && y.n != nil {
		a, ok1 := res4(x.n)
		c, ok2 := res4(y.n)
		if ok1 && ok2 && a == c {
			return num(linAval(map[string]int64{name: 4}, a))
		}
		return num(atomOf(name))
	}
	if x.boo != 0 && y.boo != 0 {
		return &lv{key: "B:" + name}
	}
	return l.initial(name, v.Type())
}

// bound: the count of a loop over the tables is the number of tables.
func (l *layouter) bound(cond ssa.Value, fr *lframe, st *lst) {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y := l.eval(fr, st, bo.X), l.eval(fr, st, bo.Y)
	for _, q := range [][2]*lv{{x, y}, {y, x}} {
		if q[0].n == nil || q[1].n == nil || q[0].n.lin["#i"] != 1 || len(q[0].n.lin) != 1 || len(q[1].n.lin) != 1 {
			continue
		}
		for k := range q[1].n.lin {
			if k != "N" && !strings.HasPrefix(k, "#") && !l.alias[k] {
				l.alias[k] = true
				l.changed = true
			}
		}
	}
}

// decided: the condition at the head of the loop is known, so that the loop is followed step by step.
func (l *layouter) decided(fr *lframe, s *lst, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	probe := s.clone()
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If:
		default:
			l.instr(fr, probe, in)
		}
	}
	return l.eval(fr, probe, iff.Cond).boo != 0
}

func (l *layouter) refine(fr *lframe, st *lst, cond ssa.Value, pol bool) {
	switch t := cond.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			l.refine(fr, st, t.X, !pol)
		}
	case *ssa.BinOp:
		x, y := l.eval(fr, st, t.X), l.eval(fr, st, t.Y)
		eq := t.Op == token.EQL && pol || t.Op == token.NEQ && !pol
		if eq && x.n != nil && y.n != nil {
			st.eq["="+x.n.key] = y.n.key
			st.eq["="+y.n.key] = x.n.key
			d := addAval(x.n, y.n, -1)
			if len(d.lin) == 2 && d.c == 0 {
				var ks []string
				sum := int64(0)
				for k, n := range d.lin {
					ks = append(ks, k)
					sum += n
				}
				if sum == 0 && ks[0] != "N" && ks[1] != "N" {
					if l.older(st, ks[0], ks[1]) {
						ks[0], ks[1] = ks[1], ks[0]
					}
					l.subst(st, ks[0], ks[1])
				}
			}
		}
		ordered := false
		if isString(t.X.Type()) && x.str == nil && y.str == nil {
			lt := x.key + "<" + y.key
			gt := y.key + "<" + x.key
			switch t.Op {
			case token.LSS, token.LEQ: // x < y
				if pol {
					ordered = strings.Contains(y.key, "[*]") || strings.Contains(x.key, "[*-1]")
				} else {
					ordered = strings.Contains(y.key, "[*-1]")
				}
			case token.GTR, token.GEQ:
				if pol {
					ordered = strings.Contains(y.key, "[*-1]")
				} else {
					ordered = strings.Contains(x.key, "[*-1]")
				}
			}
			_, _ = lt, gt
		}
		if ordered {
			st.events = append(st.events, &lev{kind: "ordered", at: t})
		}
	}
}

// older: x is what was written or added up already, rather than y, or it was known before y.
func (l *layouter) older(st *lst, x, y string) bool {
	used := func(k string) bool {
		for _, e := range st.events {
			if strings.Contains(avKey(e.pos)+segsKey(e.segs), "("+k+")") {
				return true
			}
		}
		for s := range l.sums {
			if strings.Contains(s, "("+k+")") {
				return true
			}
		}
		return false
	}
	if a, b := used(x), used(y); a != b {
		return a
	}
	a, b := l.seq[x], l.seq[y]
	return a < b || a == b && x < y
}

func (l *layouter) subst(st *lst, from, to string) {
	var av func(a *aval) *aval
	av = func(a *aval) *aval {
		if a == nil || !a.num || a.lin[from] == 0 {
			return a
		}
		m := map[string]int64{}
		for k, n := range a.lin {
			if k == from {
				m[to] += n
			} else {
				m[k] += n
			}
		}
		return linAval(m, a.c)
	}
	segs := func(ss []lseg) []lseg {
		var out []lseg
		for _, x := range ss {
			x.lo, x.n = av(x.lo), av(x.n)
			out = append(out, x)
		}
		return out
	}
	var val func(v *lv) *lv
	val = func(v *lv) *lv {
		if v == nil {
			return nil
		}
		switch {
		case v.n != nil:
			if a := av(v.n); a != v.n {
				return num(a)
			}
		case v.sl != nil && v.str == nil:
			lo, hi := av(v.sl.lo), av(v.sl.hi)
			if lo != v.sl.lo || hi != v.sl.hi {
				return bslice(v.sl.obj, lo, hi)
			}
		case v.tup != nil:
			c := *v
			c.tup = nil
			for _, x := range v.tup {
				c.tup = append(c.tup, val(x))
			}
			return &c
		case v.st != nil:
			s := &lstruct{v.st.from, map[string]*lv{}}
			key := "T:" + s.from
			var ks []string
			for k := range v.st.vals {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				s.vals[k] = val(v.st.vals[k])
				key += "," + k + "=" + s.vals[k].key
			}
			return &lv{key: key, st: s}
		}
		return v
	}
	for k, v := range st.env {
		st.env[k] = val(v)
	}
	for k, v := range st.heap {
		st.heap[k] = val(v)
	}
	for k, v := range st.objs {
		st.objs[k] = segs(v)
	}
	for k, v := range st.wpos {
		st.wpos[k] = av(v)
	}
	for i, e := range st.events {
		c := *e
		c.pos, c.n, c.segs, c.val = av(e.pos), av(e.n), segs(e.segs), val(e.val)
		st.events[i] = &c
	}
	st.eq[from] = to
}

func (l *layouter) instr(fr *lframe, st *lst, in ssa.Instruction) {
	set := func(v ssa.Value, x *lv) {
		if x != nil {
			st.env[v] = x
		} else {
			delete(st.env, v)
		}
	}
	name := func(v ssa.Value) string { return fr.ctx + fr.fn.Name() + "." + v.Name() }
	switch t := in.(type) {
	case *ssa.Alloc:
		loc := "new:" + name(t)
		if at, ok := t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			l.arrays[loc] = at.Len()
		}
		for k := range st.heap {
			if k == loc || strings.HasPrefix(k, loc+".") {
				delete(st.heap, k)
			}
		}
		delete(st.objs, "arr:"+loc)
		for _, g := range st.gen {
			if g == 1 {
				st.heap["own:"+loc] = &lv{key: "own"}
			}
		}
		set(t, &lv{key: "&" + loc, loc: loc})
	case *ssa.FieldAddr:
		if x := l.eval(fr, st, t.X); x.loc != "" {
			set(t, &lv{key: "&" + x.loc + "." + fieldNameOf(t), loc: x.loc + "." + fieldNameOf(t)})
		} else {
			set(t, nil)
		}
	case *ssa.Field:
		x := l.eval(fr, st, t.X)
		f := fieldName(t.X.Type(), t.Field)
		if x.st == nil {
			set(t, nil)
		} else if _, isSt := t.Type().Underlying().(*types.Struct); isSt {
			s := &lstruct{x.st.from + "." + f, map[string]*lv{}}
			for k, v := range x.st.vals {
				if strings.HasPrefix(k, f+".") {
					s.vals[k[len(f)+1:]] = v
				}
			}
			set(t, &lv{key: x.key + "." + f, st: s})
		} else if v := x.st.vals[f]; v != nil {
			set(t, v)
		} else {
			set(t, l.initial(x.st.from+"."+f, t.Type()))
		}
	case *ssa.IndexAddr:
		x, i := l.eval(fr, st, t.X), l.eval(fr, st, t.Index)
		loc := ""
		if x.loc != "" {
			loc = x.loc + "." + l.indexOf(i)
		} else if isBytes(t.X.Type()) {
			loc = "byte:" + x.key + l.indexOf(i)
		} else if sl, ok := t.X.Type().Underlying().(*types.Slice); ok {
			idx := l.indexOf(i)
			if i.n != nil && i.n.lin["#i"] != 0 && l.reordered(st, l.elemLoc(x, sl.Elem(), "")) {
				idx = "[?in another order]"
			}
			loc = l.elemLoc(x, sl.Elem(), idx)
		}
		if loc == "" {
			set(t, nil)
		} else {
			set(t, &lv{key: "&" + loc, loc: loc})
		}
	case *ssa.UnOp:
		x := l.eval(fr, st, t.X)
		switch t.Op {
		case token.MUL:
			if x.loc == "" {
				set(t, nil)
			} else {
				set(t, l.load(st, x.loc, t.Type()))
			}
		case token.NOT:
			if x.boo != 0 {
				set(t, boolLv(x.boo == 1))
			} else {
				set(t, &lv{key: "!" + x.key})
			}
		case token.SUB:
			if x.n != nil {
				set(t, num(addAval(constOf(0), x.n, -1)))
			} else {
				set(t, nil)
			}
		case token.XOR:
			if c, ok := constN(x); ok {
				set(t, num(constOf(^c)))
			} else {
				set(t, nil)
			}
		default:
			set(t, nil)
		}
	case *ssa.BinOp:
		set(t, l.binop(fr, st, t))
	case *ssa.Convert:
		x := l.eval(fr, st, t.X)
		w1, _, ok1 := intWidth(t.X.Type())
		w2, _, ok2 := intWidth(t.Type())
		switch {
		case ok1 && ok2 && x.n != nil:
			fits := w2 >= 4 || w2 >= w1
			if c, ok := x.n.isConst(); ok {
				lo, hi, a1, b1 := typeRange(t.Type())
				fits = !(a1 && c < lo || b1 && c > hi)
			} else if !fits {
				fits = true
				for k := range x.n.lin {
					if k != "N" && !strings.HasPrefix(k, "len L:") {
						fits = false
					}
				}
			}
			if fits {
				set(t, x)
			} else {
				set(t, num(l.atom("conv("+x.key+")")))
			}
		case x.sl != nil && (isString(t.Type()) || isBytes(t.Type())):
			set(t, x)
		default:
			set(t, l.fresh(fr, t, "conv "+x.key+" "))
		}
	case *ssa.ChangeType:
		set(t, l.eval(fr, st, t.X))
	case *ssa.ChangeInterface:
		set(t, l.eval(fr, st, t.X))
	case *ssa.MakeInterface:
		set(t, l.eval(fr, st, t.X))
	case *ssa.Extract:
		x := l.eval(fr, st, t.Tuple)
		if t.Index < len(x.tup) {
			set(t, x.tup[t.Index])
		} else {
			set(t, nil)
		}
	case *ssa.MakeSlice:
		if isBytes(t.Type()) {
			n := l.eval(fr, st, t.Len)
			ln := n.n
			if ln == nil {
				ln = l.len4("len " + name(t))
			}
			st.objs["M:"+name(t)] = canonSegs([]lseg{{kind: 'z', n: ln}})
			set(t, bslice("M:"+name(t), constOf(0), ln))
		} else {
			set(t, &lv{key: "L:" + name(t)})
		}
	case *ssa.MakeMap:
		set(t, &lv{key: "map:" + name(t)})
	case *ssa.Slice:
		x := l.eval(fr, st, t.X)
		if x.loc != "" { // an array
			if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					if isBytes(t.Type()) {
						hi := constOf(at.Len())
						if t.High != nil {
							if h := l.eval(fr, st, t.High); h.n != nil {
								hi = h.n
							}
						}
						set(t, bslice("arr:"+x.loc, constOf(0), hi))
					} else {
						set(t, &lv{key: "L:arr:" + x.loc})
					}
					return
				}
			}
		}
		if x.sl == nil {
			if !isBytes(t.X.Type()) && !isString(t.X.Type()) {
				set(t, x)
			} else {
				set(t, nil)
			}
			return
		}
		lo, hi := x.sl.lo, x.sl.hi
		if t.Low != nil {
			if v := l.eval(fr, st, t.Low); v.n != nil {
				lo = addAval(x.sl.lo, v.n, 1)
			} else {
				lo = unk()
			}
		}
		if t.High != nil {
			if v := l.eval(fr, st, t.High); v.n != nil {
				hi = addAval(x.sl.lo, v.n, 1)
			} else {
				hi = unk()
			}
		}
		set(t, bslice(x.sl.obj, lo, hi))
	case *ssa.Lookup:
		m, k := l.eval(fr, st, t.X), l.eval(fr, st, t.Index)
		if _, ok := t.X.Type().Underlying().(*types.Map); !ok {
			set(t, nil)
			return
		}
		et := lookupElem(t)
		loc := mapLoc(m, t.X.Type()) + l.keyOf(k)
		var v *lv
		if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && st.heap[loc] == nil {
			v = num(atomOf("idx" + l.keyOf(k)))
			if l.keyOf(k) == "[*]" {
				v = num(atomOf("#t"))
			}
		} else {
			v = l.load(st, loc, et)
		}
		if t.CommaOk {
			ok := &lv{key: "B:ok:" + loc}
			if l.none && k.str != nil && *k.str == "head" {
				ok = boolLv(false)
			} else if st.heap[loc] != nil && l.keyOf(k) == "[*]" {
				ok = boolLv(true)
			}
			set(t, &lv{key: "tuple", tup: []*lv{v, ok}})
		} else {
			set(t, v)
		}
	case *ssa.MapUpdate:
		k, v := l.eval(fr, st, t.Key), l.eval(fr, st, t.Value)
		if isString(t.Key.Type()) {
			if v.n != nil && v.n.key == atomOf("#i").key {
				v = num(atomOf("#t")) // where the table is in this list, in whatever order
			}
			l.store(st, mapLoc(l.eval(fr, st, t.Map), t.Map.Type())+l.keyOf(k), v)
		}
	case *ssa.Range:
		set(t, &lv{key: "range:" + mapLoc(l.eval(fr, st, t.X), t.X.Type())})
	case *ssa.Next:
		x := l.eval(fr, st, t.Iter)
		ts := strings.TrimPrefix(x.key, "range:")
		var vt types.Type
		if rg, ok := t.Iter.(*ssa.Range); ok {
			if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
				vt = mt.Elem()
			}
		}
		kv := &lv{key: "S:key " + ts, sl: &lsl{"S:key " + ts, constOf(0), constOf(4)}}
		vv := &lv{key: "?" + ts}
		if vt != nil {
			vv = l.load(st, ts+"[*]", vt)
		}
		set(t, &lv{key: "next", tup: []*lv{{key: "B:next " + name(t)}, kv, vv}})
	case *ssa.Store:
		addr, v := l.eval(fr, st, t.Addr), l.eval(fr, st, t.Val)
		if addr.loc == "" {
			return
		}
		if strings.HasPrefix(addr.loc, "byte:") {
			if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
				x, i := l.eval(fr, st, ia.X), l.eval(fr, st, ia.Index)
				if x.sl != nil && i.n != nil {
					l.put(st, &lsl{x.sl.obj, addAval(x.sl.lo, i.n, 1), x.sl.hi}, l.numSeg(v, 1), v, t)
				}
			}
			return
		}
		l.store(st, addr.loc, v)
		l.filled(st, addr.loc)
	case *ssa.Call:
		l.call(fr, st, t)
	case *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.DebugRef, *ssa.Send, *ssa.Panic:
	default:
		if v, ok := in.(ssa.Value); ok {
			delete(st.env, v)
		}
	}
}

func constN(v *lv) (int64, bool) {
	if v == nil || v.n == nil {
		return 0, false
	}
	return v.n.isConst()
}

// elemLoc: elements of lists of structs and strings are told apart by their type only, those of other lists by the list.
func (l *layouter) elemLoc(x *lv, et types.Type, idx string) string {
	switch et.Underlying().(type) {
	case *types.Struct, *types.Pointer:
		return "elem:" + types.TypeString(et, nil) + idx
	}
	if isString(et) {
		return "elem:string" + idx
	}
	return "elem:" + x.key + idx
}

// filled: the list has its elements in the order that the tables have now.
func (l *layouter) filled(st *lst, loc string) {
	if i := strings.Index(loc, "[*]"); strings.HasPrefix(loc, "elem:") && i > 0 {
		st.heap["fill:"+loc[:i]] = num(constOf(int64(l.sorts(st))))
	}
}

func (l *layouter) sorts(st *lst) int {
	n := 0
	for _, e := range st.events {
		if e.kind == "sort" {
			n++
		}
	}
	return n
}

// reordered: other lists were sorted after this one was filled.
func (l *layouter) reordered(st *lst, prefix string) bool {
	v := st.heap["fill:"+prefix]
	if v == nil {
		return false
	}
	c, ok := constN(v)
	return !ok || c != int64(l.sorts(st))
}

func (l *layouter) put(st *lst, s *lsl, x lseg, v *lv, at ssa.Instruction) {
	if strings.HasPrefix(s.obj, "W:") {
		st.events = append(st.events, &lev{kind: "patch", obj: s.obj, pos: s.lo, segs: []lseg{x}, n: x.n, val: v, at: at})
		return
	}
	l.overwrite(st, s, x)
}

var formatTags = map[string]bool{"ttcf": true, "OTTO": true, "true": true, "wOFF": true, "wOF2": true, "typ1": true, "": true}

func (l *layouter) binop(fr *lframe, st *lst, t *ssa.BinOp) *lv {
	x, y := l.eval(fr, st, t.X), l.eval(fr, st, t.Y)
	cmp := func(ok func(c int64) bool) *lv {
		if x.n != nil && y.n != nil {
			d := addAval(x.n, y.n, -1)
			if c, k := d.isConst(); k {
				return boolLv(ok(c))
			}
			pos, neg := d.c > 0, d.c < 0
			for _, n := range d.lin {
				pos = pos && n > 0
				neg = neg && n < 0
			}
			if d.num && (pos || neg) { // lengths and counts
				if neg {
					return boolLv(ok(-1))
				}
				return boolLv(ok(1))
			}
			if len(d.lin) == 1 && d.c == 0 { // this is not the first of the tables
				if n := d.lin["#i"]; n == 1 || n == -1 {
					return boolLv(ok(n))
				}
			}
		}
		return &lv{key: "B:(" + x.key + t.Op.String() + y.key + ")"}
	}
	opaque := func() *lv {
		if isInt(t.Type()) {
			return num(l.atom("(" + x.key + t.Op.String() + y.key + ")"))
		}
		return &lv{key: "(" + x.key + t.Op.String() + y.key + ")"}
	}
	xc, xok := constN(x)
	yc, yok := constN(y)
	switch t.Op {
	case token.EQL, token.NEQ:
		eq := t.Op == token.EQL
		if isString(t.X.Type()) {
			if x.str != nil && y.str != nil {
				return boolLv((*x.str == *y.str) == eq)
			}
			c := x.str
			if c == nil {
				c = y.str
			}
			if c != nil && !formatTags[*c] {
				if *c == "head" {
					return boolLv(l.head == eq)
				}
				if *c == "DSIG" && l.without {
					if l.dsig && (x.str != nil || strings.HasPrefix(strings.TrimPrefix(x.key, "["), "S:key")) && (y.str != nil || strings.HasPrefix(strings.TrimPrefix(y.key, "["), "S:key")) {
						l.sawDSIG = true
						return boolLv(eq)
					}
					return boolLv(!eq)
				}
				if l.head && len(*c) == 4 {
					return boolLv(!eq)
				}
			}
		}
		if x.key == "nil" && y.key == "nil" {
			return boolLv(eq)
		}
		return cmp(func(c int64) bool { return (c == 0) == eq })
	case token.LSS:
		return cmp(func(c int64) bool { return c < 0 })
	case token.LEQ:
		return cmp(func(c int64) bool { return c <= 0 })
	case token.GTR:
		return cmp(func(c int64) bool { return c > 0 })
	case token.GEQ:
		return cmp(func(c int64) bool { return c >= 0 })
	}
	if x.n == nil || y.n == nil || !isInt(t.Type()) {
		return opaque()
	}
	switch t.Op {
	case token.ADD:
		return num(addAval(x.n, y.n, 1))
	case token.SUB:
		return num(addAval(x.n, y.n, -1))
	case token.MUL:
		if xok {
			return num(addAval(constOf(0), y.n, xc))
		} else if yok {
			return num(addAval(constOf(0), x.n, yc))
		}
	case token.SHL:
		if yok && yc >= 0 && yc < 32 {
			return num(addAval(constOf(0), x.n, 1<<uint(yc)))
		}
	case token.SHR, token.QUO:
		d := yc
		if t.Op == token.SHR && yok && yc >= 0 && yc < 32 {
			d = 1 << uint(yc)
		}
		if yok && d > 0 {
			if xok && xc >= 0 {
				return num(constOf(xc / d))
			}
			m := map[string]int64{}
			fine := x.n.c >= 0
			for k, n := range x.n.lin {
				fine = fine && n%d == 0 && n > 0
				m[k] = n / d
			}
			if fine {
				return num(linAval(m, x.n.c/d))
			}
		}
	case token.AND, token.AND_NOT, token.REM:
		if xok && !yok && t.Op == token.AND {
			x, y, xc, yc, xok, yok = y, x, yc, xc, yok, xok
		}
		if xok && yok {
			switch {
			case t.Op == token.AND:
				return num(constOf(xc & yc))
			case t.Op == token.AND_NOT:
				return num(constOf(xc &^ yc))
			case yc != 0:
				return num(constOf(xc % yc))
			}
		}
		if r, ok := res4(x.n); ok && yok {
			pos := x.n.c >= 0
			for _, n := range x.n.lin {
				pos = pos && n > 0
			}
			switch {
			case t.Op == token.AND && yc == 3, t.Op == token.REM && yc == 4 && (pos || isUnsigned(t.Type())):
				return num(constOf(r))
			case t.Op == token.AND && (yc == 0xFFFFFFFC || yc == -4), t.Op == token.AND_NOT && yc == 3:
				return num(addAval(x.n, constOf(r), -1))
			}
		}
	case token.OR, token.XOR:
		if xok && yok {
			if t.Op == token.OR {
				return num(constOf(xc | yc))
			}
			return num(constOf(xc ^ yc))
		}
	}
	return opaque()
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (l *layouter) write(st *lst, w string, segs []lseg, v *lv, at ssa.Instruction) {
	segs = canonSegs(segs)
	n := segsLen(segs)
	st.events = append(st.events, &lev{kind: "write", obj: w, pos: st.wpos[w], segs: segs, n: n, val: v, at: at})
	st.wpos[w] = addAval(st.wpos[w], n, 1)
}

var layWidths = map[string]int64{"WriteUint8": 1, "WriteInt8": 1, "WriteByte": 1, "WriteUint16": 2, "WriteInt16": 2, "WriteUint24": 3, "WriteInt24": 3, "WriteUint32": 4, "WriteInt32": 4, "WriteUint64": 8, "WriteInt64": 8}

func (l *layouter) call(fr *lframe, st *lst, t *ssa.Call) {
	cc := t.Common()
	set := func(x *lv) {
		if x != nil {
			st.env[t] = x
		} else {
			delete(st.env, t)
		}
	}
	args := make([]*lv, len(cc.Args))
	for i, v := range cc.Args {
		args[i] = l.eval(fr, st, v)
	}
	id := fr.ctx + fr.fn.Name() + "." + t.Name()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap":
			if args[0].sl != nil {
				set(num(addAval(args[0].sl.hi, args[0].sl.lo, -1)))
			} else if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				set(num(l.atom("len L:map")))
			} else {
				if n, ok := l.soFar(fr, st, cc.Args[0]); ok {
					set(num(n))
					return
				}
				k := args[0].key
				if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					k = "list of " + types.TypeString(sl.Elem(), nil)
				}
				set(num(l.atom("len L:" + k)))
			}
		case "append":
			if isBytes(t.Type()) && len(args) == 2 {
				var segs []lseg
				segs = append(segs, l.content(st, args[0].sl)...)
				segs = append(segs, l.content(st, args[1].sl)...)
				segs = canonSegs(segs)
				obj := "A:" + id + "{" + segsKey(segs) + "}"
				st.objs[obj] = segs
				set(bslice(obj, constOf(0), segsLen(segs)))
				return
			}
			if sl, ok := t.Type().Underlying().(*types.Slice); ok && len(args) == 2 && strings.HasPrefix(args[1].key, "L:arr:") {
				loc := l.elemLoc(&lv{key: "L:" + id}, sl.Elem(), "[*]")
				l.store(st, loc, l.load(st, args[1].key[6:]+".[0]", sl.Elem()))
				l.filled(st, loc)
				for k := range st.heap { // the one before
					if p := l.elemLoc(&lv{key: "L:" + id}, sl.Elem(), "[*-1]"); strings.HasPrefix(k, p) {
						delete(st.heap, k)
					}
				}
			}
			set(&lv{key: "L:" + id})
		case "copy":
			if args[0].sl != nil && args[1].sl != nil {
				segs := l.content(st, args[1].sl)
				if strings.HasPrefix(args[0].sl.obj, "W:") {
					st.events = append(st.events, &lev{kind: "patch", obj: args[0].sl.obj, pos: args[0].sl.lo, segs: segs, n: segsLen(segs), val: args[1], at: t})
				} else if c, ok := args[0].sl.lo.isConst(); ok && c == 0 && addAval(args[0].sl.hi, args[0].sl.lo, -1).key == segsLen(segs).key {
					st.objs[args[0].sl.obj] = segs
				} else if whole := l.whole(st, args[0].sl); ok && c == 0 && len(whole) == 1 && whole[0].kind == 'z' {
					// into the front of a fresh buffer
					n := segsLen(segs)
					st.objs[args[0].sl.obj] = canonSegs(append(append([]lseg(nil), segs...), lseg{kind: 'z', n: addAval(whole[0].n, n, -1)}))
				} else {
					st.objs[args[0].sl.obj] = []lseg{{kind: 'v', src: "?" + id, n: addAval(args[0].sl.hi, args[0].sl.lo, -1)}}
				}
			}
			set(nil)
		default:
			set(nil)
		}
		return
	}
	g := cc.StaticCallee()
	if cc.IsInvoke() {
		name := cc.Method.Name()
		recv := l.eval(fr, st, cc.Value)
		if strings.HasPrefix(recv.loc, "W:") || strings.HasPrefix(recv.loc, "Z:") {
			l.writer(fr, st, t, name, recv, args, id)
			return
		}
		set(nil)
		return
	}
	if g == nil {
		set(nil)
		return
	}
	name := g.Name()
	if recv := g.Signature.Recv(); recv != nil && len(args) > 0 {
		if strings.HasPrefix(args[0].loc, "W:") || strings.HasPrefix(args[0].loc, "Z:") {
			l.writer(fr, st, t, name, args[0], args[1:], id)
			return
		}
		if strings.HasPrefix(g.String(), "(encoding/binary.") {
			w := int64(0)
			big := strings.HasPrefix(g.String(), "(encoding/binary.bigEndian)")
			switch strings.TrimPrefix(strings.TrimPrefix(name, "Put"), "Append") {
			case "Uint16":
				w = 2
			case "Uint32":
				w = 4
			case "Uint64":
				w = 8
			}
			if w > 0 && args[1].sl != nil {
				switch {
				case strings.HasPrefix(name, "Put"):
					x := l.numSeg(args[2], w)
					if !big {
						x.src = "little " + x.src
					}
					l.put(st, args[1].sl, x, args[2], t)
				case strings.HasPrefix(name, "Append"):
					segs := canonSegs(append(append([]lseg(nil), l.content(st, args[1].sl)...), l.numSeg(args[2], w)))
					obj := "A:" + id + "{" + segsKey(segs) + "}"
					st.objs[obj] = segs
					set(bslice(obj, constOf(0), segsLen(segs)))
				default:
					order := "be"
					if !big {
						order = "le"
					}
					set(num(l.atom(fmt.Sprintf("%s%d(%s@%s)", order, 8*w, args[1].sl.obj, args[1].sl.lo.key))))
				}
				return
			}
		}
	}
	switch {
	case name == "NewBinaryWriter" && len(args) == 1:
		w := "W:" + id
		st.wpos[w] = constOf(0)
		if args[0].sl != nil {
			segs := l.content(st, args[0].sl)
			if c, ok := segsLen(segs).isConst(); !ok || c != 0 {
				l.write(st, w, segs, args[0], t)
			}
		}
		set(&lv{key: "&" + w, loc: w})
		return
	case len(args) > 0 && strings.HasPrefix(args[0].loc, "W:") && g.Signature.Recv() == nil && !repoPkg(fnPkgPath(g)):
		// a filter in front of the writer
		set(&lv{key: "&Z:" + args[0].loc, loc: "Z:" + args[0].loc})
		return
	case g.String() == "sort.Strings" || g.String() == "(sort.StringSlice).Sort" || (g.String() == "sort.Sort" || g.String() == "sort.Stable") && ofStringSlice(cc.Args[0]) || strings.HasPrefix(g.String(), "slices.Sort["), (g.String() == "sort.Slice" || g.String() == "sort.SliceStable" || strings.HasPrefix(g.String(), "slices.SortFunc[")) && comparesStrings(cc.Args[1]):
		st.events = append(st.events, &lev{kind: "sort", at: t})
		at := cc.Args[0].Type()
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			at = mi.X.Type()
			if ct, ok := mi.X.(*ssa.ChangeType); ok {
				at = ct.X.Type()
			}
		}
		if sl, ok := at.Underlying().(*types.Slice); ok {
			l.filled(st, l.elemLoc(args[0], sl.Elem(), "[*]"))
		}
		set(nil)
		return
	case g.String() == "bytes.Clone" || strings.HasPrefix(g.String(), "slices.Clone["):
		if args[0].sl != nil {
			segs := l.content(st, args[0].sl)
			obj := "A:" + id + "{" + segsKey(segs) + "}"
			st.objs[obj] = segs
			set(bslice(obj, constOf(0), segsLen(segs)))
			return
		}
	}
	if (name == "ReadString" || name == "ReadBytes") && g.Signature.Recv() != nil && len(args) == 2 && args[1].n != nil {
		set(bslice("D:"+id, constOf(0), args[1].n)) // what was asked for
		return
	}
	if l.isSum(g) && len(args) == 1 && args[0].sl != nil {
		s := args[0].sl
		if c, ok := s.lo.isConst(); ok && c == 0 && strings.HasPrefix(s.obj, "W:") && s.hi.key == st.wpos[s.obj].key {
			set(num(atomOf(fmt.Sprintf("sumW@%d", len(st.events)))))
		} else {
			set(num(atomOf("sum[" + segsKey(l.content(st, s)) + "]")))
		}
		return
	}
	mc, _ := cc.Value.(*ssa.MakeClosure)
	if repoPkg(fnPkgPath(g)) && len(g.Blocks) > 0 && len(g.Blocks) <= 8 && fr.depth < 4 && (len(g.FreeVars) == 0 || mc != nil) && g != fr.fn {
		n := st.clone()
		n.env = map[ssa.Value]*lv{}
		for i, fv := range g.FreeVars {
			n.env[fv] = l.eval(fr, st, mc.Bindings[i])
		}
		sub := l.run(g, id+"/", fr.depth+1, args, n)
		if len(sub.rets) == 1 {
			r := sub.rets[0]
			st.heap, st.objs, st.wpos, st.events = r.st.heap, r.st.objs, r.st.wpos, r.st.events
			switch len(r.val) {
			case 0:
				set(nil)
			case 1:
				set(r.val[0])
			default:
				set(&lv{key: "tuple", tup: r.val})
			}
			return
		}
	}
	// bytes that it may change
	for i, x := range args {
		if x.sl == nil || !l.writesTo(g, i) {
			continue
		}
		if strings.HasPrefix(x.sl.obj, "W:") {
			st.events = append(st.events, &lev{kind: "patch", obj: x.sl.obj, pos: unk(), segs: []lseg{{kind: 'v', src: "call " + name, n: unk()}}, n: unk(), val: &lv{key: "?"}, at: t})
		} else {
			st.objs[x.sl.obj] = []lseg{{kind: 'v', src: "?" + id, n: segsLen(l.whole(st, x.sl))}}
		}
	}
	// a writer in the hands of something else
	for i, x := range args {
		if strings.HasPrefix(x.loc, "W:") {
			n := l.len4("by " + id)
			l.write(st, x.loc, []lseg{{kind: 'v', src: "call " + name, n: n}}, &lv{key: "call " + name, tup: append([]*lv(nil), args...)}, t)
			_ = i
		}
	}
	set(l.unknownResult(id, t))
}

func ofStringSlice(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	return ok && types.TypeString(mi.X.Type(), nil) == "sort.StringSlice"
}

// comparesStrings: the function that says what comes first goes by strings.
func comparesStrings(v ssa.Value) bool {
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	}
	if f == nil || len(f.Params) != 2 || len(f.Blocks) == 0 {
		return false
	}
	var path func(v ssa.Value, me int) string
	path = func(v ssa.Value, me int) string {
		switch x := v.(type) {
		case *ssa.Parameter:
			if x == f.Params[me] {
				return "me"
			}
			return "other"
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return "*" + path(x.X, me)
			}
		case *ssa.IndexAddr:
			return path(x.X, me) + "[" + path(x.Index, me) + "]"
		case *ssa.FieldAddr:
			return fmt.Sprintf("%s.%d", path(x.X, me), x.Field)
		case *ssa.Field:
			return fmt.Sprintf("%s.%d", path(x.X, me), x.Field)
		}
		return fmt.Sprintf("%s@%p", v.Name(), v)
	}
	// less: the strings of the two, in this order
	pair := func(x, y ssa.Value) int { // 1: first, second; -1: second, first
		if !isString(x.Type()) {
			return 0
		}
		px, py := path(x, 0), path(y, 0)
		switch {
		case strings.Contains(px, "me") && !strings.Contains(px, "other") && px == path(y, 1):
			return 1
		case strings.Contains(py, "me") && !strings.Contains(py, "other") && py == path(x, 1):
			return -1
		}
		return 0
	}
	var less func(v ssa.Value) bool
	less = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.BinOp:
			if c, ok := x.X.(*ssa.Call); ok && isZero(x.Y) && x.Op == token.LSS {
				return less(c)
			}
			return x.Op == token.LSS && pair(x.X, x.Y) == 1 || x.Op == token.GTR && pair(x.X, x.Y) == -1
		case *ssa.Call:
			n := calleeName(&x.Call)
			return (n == "strings.Compare" || strings.HasPrefix(n, "cmp.Compare[string") || strings.HasPrefix(n, "cmp.Less[string")) && pair(x.Call.Args[0], x.Call.Args[1]) == 1
		}
		return false
	}
	returns := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		returns++
		if less(ret.Results[0]) {
			continue
		}
		equal := false // or it is told what to do with equal strings
		for _, d := range f.Blocks {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if c, ok := iff.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) && pair(c.X, c.Y) != 0 {
				next := d.Succs[0]
				if c.Op == token.NEQ {
					next = d.Succs[1]
				}
				equal = equal || len(next.Preds) == 1 && next.Dominates(b)
			}
		}
		if !equal {
			return false
		}
	}
	return returns > 0
}

// soFar: the length of a list to which the current loop appends one for each table.
func (l *layouter) soFar(fr *lframe, st *lst, v ssa.Value) (*aval, bool) {
	add := int64(0)
	for {
		c, ok := v.(*ssa.Call)
		if !ok {
			break
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" || !appendsOne(c) {
			return nil, false
		}
		v = c.Call.Args[0]
		add++
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || st.gen[fmt.Sprintf("%s%s.%d", fr.ctx, fr.fn.Name(), phi.Block().Index)] != 1 {
		return nil, false
	}
	for i, p := range phi.Block().Preds {
		e := phi.Edges[i]
		if phi.Block().Dominates(p) {
			c, ok := e.(*ssa.Call)
			if !ok || len(c.Call.Args) == 0 || c.Call.Args[0] != ssa.Value(phi) {
				return nil, false
			}
			if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" || !appendsOne(c) {
				return nil, false
			}
		}
	}
	n := linAval(map[string]int64{counterName(st): 1}, add)
	return n, true
}

func appendsOne(c *ssa.Call) bool {
	s, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	pt, ok := s.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	return ok && at.Len() == 1
}

// writesTo: the function of the repository may write to the bytes of its argument,
// itself or through one that it calls.
func (l *layouter) writesTo(g *ssa.Function, i int) bool {
	if !repoPkg(fnPkgPath(g)) || i >= len(g.Params) || !isBytes(g.Params[i].Type()) {
		return false
	}
	k := fmt.Sprintf("%p %d", g, i)
	if v, ok := l.writing[k]; ok {
		return v
	}
	l.writing[k] = false
	from := map[ssa.Value]bool{g.Params[i]: true}
	work := []ssa.Value{g.Params[i]}
	writes := false
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.IndexAddr:
				if x := t.(ssa.Value); !from[x] {
					from[x] = true
					work = append(work, x)
				}
			case *ssa.Store:
				writes = writes || t.Addr == v
			case *ssa.Call:
				for j, a := range t.Call.Args {
					if a != v {
						continue
					}
					if bi, ok := t.Call.Value.(*ssa.Builtin); ok {
						writes = writes || j == 0 && (bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "clear")
					} else if h := t.Call.StaticCallee(); h == nil || strings.HasPrefix(h.Name(), "Put") && strings.Contains(h.String(), "encoding/binary") || l.writesTo(h, j) {
						writes = true
					}
				}
			}
		}
	}
	l.writing[k] = writes
	return writes
}

func (l *layouter) unknownResult(id string, t *ssa.Call) *lv {
	if tt, ok := t.Type().(*types.Tuple); ok {
		v := &lv{key: "tuple " + id}
		for i := 0; i < tt.Len(); i++ {
			v.tup = append(v.tup, l.initial(fmt.Sprintf("%s#%d", id, i), tt.At(i).Type()))
		}
		return v
	}
	return l.initial(id, t.Type())
}

func (l *layouter) writer(fr *lframe, st *lst, t *ssa.Call, name string, recv *lv, args []*lv, id string) {
	if strings.HasPrefix(recv.loc, "Z:") {
		w := recv.loc[2:]
		if name == "Close" {
			// so that the end is 4q+r
			end := l.len4("end of compressed " + w)
			l.write(st, w, []lseg{{kind: 'v', src: "compressed", n: addAval(end, st.wpos[w], -1)}}, &lv{key: "compressed"}, t)
			st.wpos[w] = end
		}
		st.env[t] = l.unknownResult(id, t)
		return
	}
	w := recv.loc
	if n, ok := layWidths[name]; ok && len(args) == 1 {
		l.write(st, w, []lseg{l.numSeg(args[0], n)}, args[0], t)
		delete(st.env, t)
		return
	}
	switch name {
	case "WriteBytes", "WriteString", "Write":
		l.write(st, w, l.content(st, args[0].sl), args[0], t)
		st.env[t] = l.unknownResult(id, t)
	case "Len":
		st.env[t] = num(st.wpos[w])
	case "Bytes":
		st.env[t] = bslice(w, constOf(0), st.wpos[w])
	default:
		l.fail = "what " + name + " does to the writer is not known"
		delete(st.env, t)
	}
}
