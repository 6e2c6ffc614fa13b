package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A forward dataflow analysis over SSA that knows at which byte offset of which table a reader or
// writer stands (constant propagation of positions, with a symbolic base inside of loops), where a
// value was read from, and which location of the heap it was stored to. States are joined at merge
// points; up to a limit, states that differ are kept apart (trace partitioning).

// aval is an abstract value. Values with equal keys are equal.
type aval struct {
	key  string
	num  bool // lin is valid
	lin  map[string]int64
	c    int64
	str  *string
	boo  int    // 1 false, 2 true
	prov string // where it comes from: a read or a location; "~" in front: computed from it
	loc  string // pointer: path of the location it points to
	sl   *aslice
	tup  []*aval
}

// aslice is a slice of bytes: a part of a source.
type aslice struct {
	src    string // "T:tag", "W:id" (content of a writer), "C:id" (private copy), "S:key"
	tagVal ssa.Value
	lo     *aval
	hi     *aval // nil: to the end
	of     *aslice
}

type aread struct {
	src    string
	off    *aval
	width  int
	signed bool
}

// awrite is one write into a writer or a private copy.
type awrite struct {
	dst   string
	pos   *aval // nil: unknown
	width int   // -1: a run of bytes
	val   *aval
	from  *aslice // run of bytes
	tag   string  // refined tag of the source
	at    ssa.Instruction
}

type aview struct { // store of a field of a parsed table
	path string
	val  *aval
	at   ssa.Instruction
}

type atable struct { // Tables[tag] = ...
	owner string
	tag   string
	val   *aval
	at    ssa.Instruction
}

type amapElem struct {
	m, k, v *aval
	at      ssa.Instruction
}

type aloop struct {
	entry, stride *aval
	bound         *aval
	ways          [][2]*aval // each way to come to the loop: position and bound
}

// variant fixes what a table looks like: its length and the values of some of its fields.
type variant struct {
	name  string
	tag   string
	len   int64 // -1 unknown
	reads map[string]int64
}

type absint struct {
	p       *Prog
	b       *bp
	limit   int
	v       *variant
	nfresh  int
	reads   map[string]*aread // by atom
	writes  []awrite
	views   []aview
	tables  []atable
	elems   []amapElem
	loops   map[string]*aloop
	inlines map[*ssa.Function]bool
	steps   int
	fail    string
	part    string             // iterations of loops, with those of the callers
	copies  map[string]*aslice // private copy -> content
	rets    []*astate          // states at successful returns of the root
	seenW   map[string]int

	file *afile // reading from an open file

	noInline map[*ssa.Function]bool
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	bodies   map[*ssa.Function]map[int]map[*ssa.BasicBlock]bool
}

type astate struct {
	env  map[ssa.Value]*aval
	heap map[string]*aval
}

func (s *astate) clone() *astate {
	t := &astate{env: make(map[ssa.Value]*aval, len(s.env)), heap: make(map[string]*aval, len(s.heap))}
	for k, v := range s.env {
		t.env[k] = v
	}
	for k, v := range s.heap {
		t.heap[k] = v
	}
	return t
}

func (s *astate) equal(t *astate) bool {
	if len(s.env) != len(t.env) || len(s.heap) != len(t.heap) {
		return false
	}
	for k, v := range s.env {
		if w := t.env[k]; w == nil || w.key != v.key {
			return false
		}
	}
	for k, v := range s.heap {
		if w := t.heap[k]; w == nil || w.key != v.key {
			return false
		}
	}
	return true
}

const unkKey = "?"

func unk() *aval { return &aval{key: unkKey} }

func atomOf(key string) *aval {
	return &aval{key: key, num: true, lin: map[string]int64{key: 1}}
}

func constOf(n int64) *aval { return linAval(nil, n) }

func linAval(l map[string]int64, c int64) *aval {
	m := map[string]int64{}
	var ks []string
	for k, n := range l {
		if n != 0 {
			m[k] = n
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	key := ""
	if len(ks) == 1 && m[ks[0]] == 1 && c == 0 {
		key = ks[0]
	} else {
		for _, k := range ks {
			key += fmt.Sprintf("%+d*(%s)", m[k], k)
		}
		key += fmt.Sprintf("%+d", c)
	}
	return &aval{key: key, num: true, lin: m, c: c}
}

func (a *aval) isConst() (int64, bool) {
	if a != nil && a.num && len(a.lin) == 0 {
		return a.c, true
	}
	return 0, false
}

func addAval(a, b *aval, f int64) *aval {
	if a == nil || b == nil || !a.num || !b.num {
		return unk()
	}
	l := map[string]int64{}
	for k, n := range a.lin {
		l[k] += n
	}
	for k, n := range b.lin {
		l[k] += f * n
	}
	return linAval(l, a.c+f*b.c)
}

func boolAval(v bool) *aval {
	if v {
		return &aval{key: "true", boo: 2}
	}
	return &aval{key: "false", boo: 1}
}

func strAval(s string) *aval { return &aval{key: fmt.Sprintf("%q", s), str: &s} }

func ptrAval(loc string) *aval { return &aval{key: "&" + loc, loc: loc} }

func sliceAval(s *aslice) *aval {
	k := "[" + s.src
	if s.lo != nil {
		k += "@" + s.lo.key
	}
	if s.hi != nil {
		k += ":" + s.hi.key
	}
	return &aval{key: k + "]", sl: s}
}

func joinAval(a, b *aval) *aval {
	if a == nil || b == nil {
		return nil
	}
	if a.key == b.key {
		if a.prov == b.prov {
			return a
		}
		c := *a
		c.prov = ""
		return &c
	}
	return nil
}

func newAbsint(p *Prog, limit int) *absint {
	return &absint{p: p, limit: limit, reads: map[string]*aread{}, loops: map[string]*aloop{}, inlines: map[*ssa.Function]bool{}, copies: map[string]*aslice{}, seenW: map[string]int{}}
}

// frame is one activation of a function.
type aframe struct {
	fn    *ssa.Function
	ctx   string
	depth int
	root  bool
	rets  []aret
}

type aret struct {
	st  *astate
	val []*aval
	at  *ssa.Return
}

func (a *absint) top(fr *aframe, v ssa.Value) *aval {
	return a.topTyped(fmt.Sprintf("%s%s.%s", fr.ctx, fr.fn.Name(), v.Name()), v.Type())
}

func (a *absint) topTyped(key string, t types.Type) *aval {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return ptrAval("*" + key)
	case *types.Slice:
		return sliceAval(&aslice{src: "S:" + key})
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsFloat) != 0 {
			return atomOf(key)
		}
	}
	return &aval{key: key}
}

func (a *absint) eval(fr *aframe, st *astate, v ssa.Value) *aval {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			if _, ok := t.Type().Underlying().(*types.Slice); ok {
				return &aval{key: "nil", sl: &aslice{src: "nil"}}
			}
			return &aval{key: "nil"}
		}
		switch t.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(t.Value); ok {
				return constOf(n)
			}
		case constant.String:
			return strAval(constant.StringVal(t.Value))
		case constant.Bool:
			return boolAval(constant.BoolVal(t.Value))
		}
		return &aval{key: t.Value.String()}
	case *ssa.Global:
		return ptrAval("global:" + t.Name())
	case *ssa.Function:
		return &aval{key: "func:" + t.String()}
	}
	if x := st.env[v]; x != nil {
		return x
	}
	return a.top(fr, v)
}

// load gives the content of a location.
func (a *absint) load(st *astate, loc string, t types.Type) *aval {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return &aval{key: "struct:" + loc, prov: "F:" + loc}
	}
	if v := st.heap[loc]; v != nil {
		return v
	}
	// a copy of a structure: look into what it was copied from
	for i := len(loc) - 1; i > 0; i-- {
		if loc[i] == '.' {
			if v := st.heap[loc[:i]]; v != nil {
				if strings.HasPrefix(v.key, "struct:") {
					return a.load(st, v.key[7:]+loc[i:], t)
				}
				return withProv(a.topTyped("part:"+v.key+loc[i:], t), deriv(v))
			}
		}
	}
	if strings.HasPrefix(loc, "new:") {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				return constOf(0)
			}
		}
	}
	var r *aval
	switch t.Underlying().(type) {
	case *types.Struct:
		return &aval{key: "struct:" + loc}
	case *types.Pointer:
		r = ptrAval(loc + "*")
	default:
		r = a.topTyped("in:"+loc, t)
	}
	r.prov = "F:" + loc
	return r
}

func (a *absint) store(st *astate, loc string, v *aval) {
	// what was copied from a structure that this location belongs to keeps the old value
	for k, w := range st.heap {
		if strings.HasPrefix(w.key, "struct:") && strings.HasPrefix(loc, w.key[7:]+".") {
			rest := loc[len(w.key)-7:]
			if st.heap[k+rest] == nil && k != loc {
				if old := st.heap[loc]; old != nil {
					st.heap[k+rest] = old
				} else {
					st.heap[k+rest] = a.load(st, loc, locType(v))
				}
			}
		}
	}
	type entry struct {
		k string
		v *aval
	}
	var add []entry
	src := ""
	if strings.HasPrefix(v.key, "struct:") {
		src = v.key[7:]
		for k, w := range st.heap {
			if strings.HasPrefix(k, src+".") {
				add = append(add, entry{loc + k[len(src):], w})
			}
		}
		if w := st.heap[src]; w != nil {
			v = w
		}
	}
	for k := range st.heap {
		if strings.HasPrefix(k, loc+".") {
			delete(st.heap, k)
		}
	}
	st.heap[loc] = v
	for _, e := range add {
		st.heap[e.k] = e.v
	}
}

func deriv(xs ...*aval) string {
	p := ""
	for _, x := range xs {
		if x == nil || x.prov == "" {
			continue
		}
		q := strings.TrimPrefix(x.prov, "~")
		if strings.HasPrefix(q, "F:global:") {
			continue
		}
		if p != "" && p != q {
			return ""
		}
		p = q
	}
	if p == "" || strings.HasPrefix(p, "F:global:") {
		return ""
	}
	return "~" + p
}

func withProv(v *aval, prov string) *aval {
	if prov == "" || v.prov == prov {
		return v
	}
	c := *v
	c.prov = prov
	return &c
}

func (a *absint) readAt(s *aslice, off *aval, width int, signed bool) *aval {
	if s == nil {
		return unk()
	}
	pos := off
	if s.lo != nil {
		pos = addAval(s.lo, off, 1)
	}
	sign := "u"
	if signed {
		sign = "s"
	}
	key := fmt.Sprintf("R:%s@%s:%d", s.src, pos.key, width)
	a.reads[key] = &aread{s.src, pos, width, signed}
	if a.v != nil && s.src == "T:"+a.v.tag {
		if n, ok := pos.isConst(); ok {
			if val, ok := a.v.reads[fmt.Sprintf("%d:%d", n, width)]; ok {
				return withProv(constOf(val), key+sign)
			}
		}
	}
	return withProv(atomOf(key), key+sign)
}

var readWidths = map[string]struct {
	w int
	s bool
}{
	"ReadUint8": {1, false}, "ReadByte": {1, false}, "ReadInt8": {1, true},
	"ReadUint16": {2, false}, "ReadInt16": {2, true}, "ReadUint24": {3, false}, "ReadInt24": {3, true},
	"ReadUint32": {4, false}, "ReadInt32": {4, true}, "ReadUint64": {8, false}, "ReadInt64": {8, true},
}

var writeWidths = map[string]int{
	"WriteByte": 1, "WriteUint8": 1, "WriteInt8": 1, "WriteUint16": 2, "WriteInt16": 2, "WriteUint24": 3, "WriteInt24": 3,
	"WriteUint32": 4, "WriteInt32": 4, "WriteUint64": 8, "WriteInt64": 8,
}

// run analyses fn from the given heap.
func (a *absint) run(fn *ssa.Function, ctx string, depth int, args []*aval, heap map[string]*aval) *aframe {
	fr := &aframe{fn: fn, ctx: ctx, depth: depth, root: depth == 0}
	st := &astate{env: map[ssa.Value]*aval{}, heap: map[string]*aval{}}
	for k, v := range heap {
		st.heap[k] = v
	}
	for i, q := range fn.Params {
		if i < len(args) && args[i] != nil {
			st.env[q] = args[i]
		}
	}
	// part tells apart the iterations of loops whose number of iterations is known
	type iter struct {
		head, n int
	}
	type item struct {
		b, from *ssa.BasicBlock
		st      *astate
		iters   []iter
	}
	type place struct {
		b    *ssa.BasicBlock
		part string
	}
	seen := map[place][]*astate{}
	joined := map[place]*astate{}
	bodies := a.loopBodies(fn)
	outer := a.part
	defer func() { a.part = outer }()
	work := []item{{fn.Blocks[0], nil, st, nil}}
	order := blockOrder(fn)
	for len(work) > 0 {
		pick := len(work) - 1
		if a.limit == 1 { // in the order of the blocks, so that states are joined early
			for i, w := range work {
				if order[w.b] < order[work[pick].b] || w.b == work[pick].b && len(w.iters) > len(work[pick].iters) {
					pick = i
				}
			}
		}
		it := work[pick]
		work = append(work[:pick], work[pick+1:]...)
		a.steps++
		if a.steps > 400000 {
			a.fail = "the analysis of " + fnName(fn) + " did not end"
			return fr
		}
		b, s := it.b, it.st
		// phis
		if it.from != nil {
			idx := -1
			for i, p := range b.Preds {
				if p == it.from {
					idx = i
				}
			}
			vals := map[ssa.Value]*aval{}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vals[phi] = a.eval(fr, s, phi.Edges[idx])
			}
			for k, v := range vals {
				s.env[k] = v
			}
		}
		back := it.from != nil && b.Dominates(it.from)
		isHead := false
		for _, p := range b.Preds {
			if b.Dominates(p) {
				isHead = true
			}
		}
		var its []iter
		for _, x := range it.iters {
			if bodies[x.head][b] {
				its = append(its, x)
			}
		}
		if isHead {
			if determ := a.headCond(fr, s, b); determ {
				if n := len(its); n > 0 && its[n-1].head == b.Index {
					its[n-1].n++
					if its[n-1].n > 64 {
						its = its[:n-1]
					}
				} else if !back {
					its = append(its, iter{b.Index, 0})
				}
			} else if n := len(its); n > 0 && its[n-1].head == b.Index {
				its = its[:n-1]
			}
		}
		pl := place{b, fmt.Sprint(its)}
		if isHead && a.limit > 1 {
			if back {
				if a.loopBack(fr, s, b) {
					continue
				}
			} else {
				a.loopEntry(fr, s, b)
			}
		}
		lv := a.liveIn(fn)[b]
		for v := range s.env {
			if !lv[v] && !isString(v.Type()) {
				delete(s.env, v)
			}
		}
		dup := false
		for _, o := range seen[pl] {
			if o.equal(s) {
				dup = true
			}
		}
		if dup {
			continue
		}
		if len(seen[pl]) >= a.limit {
			j := joined[pl]
			if j == nil {
				j = s
				for _, o := range seen[pl] {
					j = a.join(fr, j, o, b)
				}
			} else {
				j = a.join(fr, j, s, b)
			}
			if joined[pl] != nil && joined[pl].equal(j) {
				continue
			}
			joined[pl] = j
			s = j.clone()
		} else {
			seen[pl] = append(seen[pl], s.clone())
		}
		a.part = outer + pl.part
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				c := a.eval(fr, s, t.Cond)
				if c.boo != 1 {
					n := s.clone()
					a.refine(fr, n, t.Cond, true)
					work = append(work, item{b.Succs[0], b, n, its})
				}
				if c.boo != 2 {
					n := s.clone()
					a.refine(fr, n, t.Cond, false)
					work = append(work, item{b.Succs[1], b, n, its})
				}
			case *ssa.Jump:
				work = append(work, item{b.Succs[0], b, s, its})
			case *ssa.Return:
				r := aret{st: s, at: t}
				for _, v := range t.Results {
					r.val = append(r.val, a.eval(fr, s, v))
				}
				fr.rets = append(fr.rets, r)
			default:
				a.instr(fr, s, in)
			}
		}
	}
	return fr
}

// blockOrder numbers the blocks in reverse post order.
func blockOrder(fn *ssa.Function) map[*ssa.BasicBlock]int {
	order := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	n := len(fn.Blocks)
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				visit(b.Succs[i])
			}
		}
		n--
		order[b] = n
	}
	visit(fn.Blocks[0])
	return order
}

// liveIn gives, for each block, the values that are used there or later. Values of the block's own
// phis are included.
func (a *absint) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m := a.live[fn]; m != nil {
		return m
	}
	m := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		m[b] = map[ssa.Value]bool{}
	}
	for change := true; change; {
		change = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			set := m[b]
			n := len(set)
			for _, s := range b.Succs {
				own := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					own[phi] = true
					for k, p := range s.Preds {
						if p == b {
							set[phi.Edges[k]] = true
						}
					}
				}
				for v := range m[s] {
					if !own[v] {
						set[v] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					set[in.(ssa.Value)] = true
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						set[*op] = true
					}
				}
			}
			change = change || len(set) != n
		}
	}
	if a.live == nil {
		a.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	a.live[fn] = m
	return m
}

// join keeps what two states agree on. For phis of the block, a disagreement gives the phi itself.
func (a *absint) join(fr *aframe, x, y *astate, b *ssa.BasicBlock) *astate {
	r := &astate{env: map[ssa.Value]*aval{}, heap: map[string]*aval{}}
	for k, v := range x.env {
		w := y.env[k]
		if j := joinAval(v, w); j != nil {
			r.env[k] = j
		} else if w != nil {
			r.env[k] = a.top(fr, k)
		}
	}
	for k, v := range x.heap {
		w := y.heap[k]
		if w == nil {
			w = a.load(y, k, locType(v))
		}
		if j := joinAval(v, w); j != nil {
			r.heap[k] = j
		} else {
			r.heap[k] = a.joinTop(fr, b, k, v)
		}
	}
	for k, v := range y.heap {
		if x.heap[k] == nil {
			if j := joinAval(v, a.load(x, k, locType(v))); j != nil {
				r.heap[k] = j
			} else {
				r.heap[k] = a.joinTop(fr, b, k, v)
			}
		}
	}
	return r
}

func (a *absint) joinTop(fr *aframe, b *ssa.BasicBlock, k string, v *aval) *aval {
	key := fmt.Sprintf("join:%s%s.%d:%s", fr.ctx, fr.fn.Name(), b.Index, k)
	if strings.HasSuffix(k, ".pos") {
		return unk()
	}
	return a.topTyped(key, locType(v))
}

// locType gives a type that a value could have, to name unknown contents.
func locType(v *aval) types.Type {
	switch {
	case v.loc != "":
		return types.NewPointer(types.Typ[types.Int])
	case v.sl != nil:
		return types.NewSlice(types.Typ[types.Uint8])
	case v.num:
		return types.Typ[types.Int]
	case strings.HasPrefix(v.key, "struct:"):
		return types.NewStruct(nil, nil)
	}
	return types.Typ[types.String]
}

func (a *absint) loopKey(fr *aframe, b *ssa.BasicBlock) string {
	return fmt.Sprintf("L:%s%s.%d", fr.ctx, fr.fn.Name(), b.Index)
}

// loopBodies gives the blocks of each loop by the index of its head.
func (a *absint) loopBodies(fn *ssa.Function) map[int]map[*ssa.BasicBlock]bool {
	if m := a.bodies[fn]; m != nil {
		return m
	}
	m := map[int]map[*ssa.BasicBlock]bool{}
	for _, h := range fn.Blocks {
		for _, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			set := m[h.Index]
			if set == nil {
				set = map[*ssa.BasicBlock]bool{h: true}
				m[h.Index] = set
			}
			work := []*ssa.BasicBlock{p}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if set[x] {
					continue
				}
				set[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	if a.bodies == nil {
		a.bodies = map[*ssa.Function]map[int]map[*ssa.BasicBlock]bool{}
	}
	a.bodies[fn] = m
	return m
}

// headCond: it is known whether the loop goes on.
func (a *absint) headCond(fr *aframe, s *astate, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	probe := &astate{env: make(map[ssa.Value]*aval, len(s.env)), heap: s.heap}
	for k, v := range s.env {
		probe.env[k] = v
	}
	for _, in := range b.Instrs {
		switch t := in.(type) {
		case *ssa.Phi, *ssa.If:
		case *ssa.Store, *ssa.MapUpdate:
		case *ssa.Call:
			a.pureCall(fr, probe, t)
		case *ssa.BinOp, *ssa.Convert, *ssa.UnOp, *ssa.FieldAddr, *ssa.ChangeType:
			a.instr(fr, probe, in)
		}
	}
	return a.eval(fr, probe, iff.Cond).boo != 0
}

// loopEntry: when the number of iterations is not known, positions inside of the loop are relative
// to where the iteration started.
func (a *absint) loopEntry(fr *aframe, s *astate, b *ssa.BasicBlock) {
	probe := s.clone()
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If:
		case *ssa.Call, *ssa.Store:
			if c, ok := in.(*ssa.Call); ok {
				a.pureCall(fr, probe, c)
			}
		default:
			a.instr(fr, probe, in)
		}
	}
	c := a.eval(fr, probe, iff.Cond)
	if c.boo != 0 {
		return
	}
	key := a.loopKey(fr, b)
	var bound *aval
	cond := iff.Cond
	for {
		not, ok := cond.(*ssa.UnOp)
		if !ok || not.Op != token.NOT {
			break
		}
		cond = not.X
	}
	if bo, ok := cond.(*ssa.BinOp); ok {
		if counts(bo.Y, b) && !counts(bo.X, b) {
			bound = a.eval(fr, probe, bo.X)
		} else {
			bound = a.eval(fr, probe, bo.Y)
		}
	}
	for k, v := range s.heap {
		if strings.HasSuffix(k, ".pos") {
			if a.loops[key+k] == nil {
				a.loops[key+k] = &aloop{entry: v}
			} else if a.loops[key+k].entry.key != v.key {
				a.loops[key+k].entry = unk()
			}
			l := a.loops[key+k]
			l.bound = bound
			l.ways = append(l.ways, [2]*aval{v, bound})
			s.heap[k] = atomOf(key + k)
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s.env[phi] = a.top(fr, phi)
		if a.file != nil {
			a.file.phis[s.env[phi].key] = phi
		}
	}
}

func (a *absint) loopBack(fr *aframe, s *astate, b *ssa.BasicBlock) bool {
	key := a.loopKey(fr, b)
	sym := false
	for k, v := range s.heap {
		if l := a.loops[key+k]; l != nil {
			sym = true
			d := addAval(v, atomOf(key+k), -1)
			if l.stride == nil || l.stride.key == d.key {
				l.stride = d
			} else {
				l.stride = unk()
			}
		}
	}
	return sym
}

// counts: the value is computed from one that the loop with this head carries.
func counts(v ssa.Value, head *ssa.BasicBlock) bool {
	switch v := v.(type) {
	case *ssa.Phi:
		return v.Block() == head
	case *ssa.BinOp:
		return counts(v.X, head) || counts(v.Y, head)
	case *ssa.Convert:
		return counts(v.X, head)
	}
	return false
}

// refine records what a condition says about values.
func (a *absint) refine(fr *aframe, s *astate, cond ssa.Value, pol bool) {
	switch t := cond.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			a.refine(fr, s, t.X, !pol)
		}
	case *ssa.BinOp:
		if t.Op == token.EQL && pol || t.Op == token.NEQ && !pol {
			x, y := a.eval(fr, s, t.X), a.eval(fr, s, t.Y)
			if c, ok := t.Y.(*ssa.Const); ok && c.Value != nil && !isBool(c.Type()) {
				s.env[t.X] = withProv(y, x.prov)
			} else if c, ok := t.X.(*ssa.Const); ok && c.Value != nil && !isBool(c.Type()) {
				s.env[t.Y] = withProv(x, y.prov)
			}
		}
	}
}

// pureCall evaluates the calls that a loop condition can contain without any effect.
func (a *absint) pureCall(fr *aframe, s *astate, c *ssa.Call) {
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
		a.instr(fr, s, c)
		return
	}
	s.env[c] = a.top(fr, c)
}

func (a *absint) lenOf(st *astate, v *aval) *aval {
	if v.str != nil {
		return constOf(int64(len(*v.str)))
	}
	if v.sl == nil {
		return atomOf("len:" + v.key)
	}
	var end *aval
	if v.sl.hi != nil {
		end = v.sl.hi
	} else if a.v != nil && v.sl.src == "T:"+a.v.tag && a.v.len >= 0 {
		end = constOf(a.v.len)
	} else if v.sl.src == "nil" {
		end = constOf(0)
	} else {
		end = atomOf("len:" + v.sl.src)
	}
	if v.sl.lo != nil {
		return addAval(end, v.sl.lo, -1)
	}
	return end
}

func (a *absint) binop(t *ssa.BinOp, x, y *aval) *aval {
	cmp := func(ok func(c int64) bool) *aval {
		if x.num && y.num {
			if d, ok2 := addAval(x, y, -1).isConst(); ok2 {
				return boolAval(ok(d))
			}
		}
		return nil
	}
	var r *aval
	switch t.Op {
	case token.ADD:
		if x.str != nil && y.str != nil {
			return strAval(*x.str + *y.str)
		}
		if x.num && y.num && isInt(t.Type()) {
			r = addAval(x, y, 1)
		}
	case token.SUB:
		if x.num && y.num && isInt(t.Type()) {
			r = addAval(x, y, -1)
		}
	case token.MUL:
		if c, ok := x.isConst(); ok && y.num && isInt(t.Type()) {
			r = addAval(constOf(0), y, c)
		} else if c, ok := y.isConst(); ok && x.num && isInt(t.Type()) {
			r = addAval(constOf(0), x, c)
		}
	case token.EQL:
		if x.str != nil && y.str != nil {
			return boolAval(*x.str == *y.str)
		}
		if x.loc != "" && y.key == "nil" || y.loc != "" && x.key == "nil" {
			if strings.HasPrefix(x.loc+y.loc, "new:") {
				return boolAval(false)
			}
			return nil
		}
		return cmp(func(c int64) bool { return c == 0 })
	case token.NEQ:
		if x.str != nil && y.str != nil {
			return boolAval(*x.str != *y.str)
		}
		if x.key == "nil" && y.key == "nil" {
			return boolAval(false)
		}
		if strings.HasPrefix(x.loc+y.loc, "new:") && (x.key == "nil" || y.key == "nil") {
			return boolAval(true)
		}
		return cmp(func(c int64) bool { return c != 0 })
	case token.LSS:
		return cmp(func(c int64) bool { return c < 0 })
	case token.LEQ:
		return cmp(func(c int64) bool { return c <= 0 })
	case token.GTR:
		return cmp(func(c int64) bool { return c > 0 })
	case token.GEQ:
		return cmp(func(c int64) bool { return c >= 0 })
	case token.SHL:
		if c, ok := y.isConst(); ok && c >= 0 && c < 40 {
			if d, ok := x.isConst(); ok {
				r = constOf(d << uint(c))
			}
		}
	case token.AND:
		if c, ok := x.isConst(); ok {
			if d, ok := y.isConst(); ok {
				r = constOf(c & d)
			}
		}
	case token.OR:
		if c, ok := x.isConst(); ok {
			if d, ok := y.isConst(); ok {
				r = constOf(c | d)
			}
		}
	}
	return r
}

func (a *absint) instr(fr *aframe, st *astate, in ssa.Instruction) {
	set := func(v ssa.Value, x *aval) {
		if x != nil {
			st.env[v] = x
		} else {
			delete(st.env, v)
		}
	}
	switch t := in.(type) {
	case *ssa.Alloc:
		set(t, ptrAval(fmt.Sprintf("new:%s%s.%s", fr.ctx, fr.fn.Name(), t.Name())))
		loc := st.env[t].loc
		for k := range st.heap {
			if k == loc || strings.HasPrefix(k, loc+".") {
				delete(st.heap, k)
			}
		}
	case *ssa.FieldAddr:
		x := a.eval(fr, st, t.X)
		if x.loc != "" {
			set(t, ptrAval(x.loc+"."+fieldNameOf(t)))
		} else {
			set(t, nil)
		}
	case *ssa.Field:
		x := a.eval(fr, st, t.X)
		if strings.HasPrefix(x.key, "struct:") {
			s := t.X.Type().Underlying().(*types.Struct)
			set(t, a.load(st, x.key[7:]+"."+s.Field(t.Field).Name(), t.Type()))
		} else {
			set(t, nil)
		}
	case *ssa.IndexAddr:
		x := a.eval(fr, st, t.X)
		i := a.eval(fr, st, t.Index)
		if x.loc != "" {
			set(t, ptrAval(x.loc+".["+i.key+"]"))
		} else if x.sl != nil {
			off := i
			if x.sl.lo != nil {
				off = addAval(x.sl.lo, i, 1)
			}
			if strings.HasPrefix(x.sl.src, "A:") {
				set(t, ptrAval(x.sl.src[2:]+".["+off.key+"]"))
			} else {
				set(t, ptrAval("elem:"+x.sl.src+".["+off.key+"]"))
			}
		} else {
			set(t, nil)
		}
	case *ssa.UnOp:
		switch t.Op {
		case token.MUL:
			x := a.eval(fr, st, t.X)
			if x.loc == "" {
				set(t, nil)
				return
			}
			v := a.load(st, x.loc, t.Type())
			if ia, ok := t.X.(*ssa.IndexAddr); ok && (v.prov != "" || a.file != nil) && st.heap[x.loc] == nil {
				sl := a.eval(fr, st, ia.X).sl
				if a.file != nil {
					sl = a.filled(st, sl)
				}
				if sl != nil && strings.HasPrefix(sl.src, "T:") && isBytes(ia.X.Type()) {
					v = a.readAt(sl, a.eval(fr, st, ia.Index), 1, false)
				}
			}
			set(t, v)
		case token.NOT:
			x := a.eval(fr, st, t.X)
			if x.boo != 0 {
				set(t, boolAval(x.boo == 1))
			} else {
				set(t, nil)
			}
		case token.SUB:
			x := a.eval(fr, st, t.X)
			if x.num && isInt(t.Type()) {
				set(t, addAval(constOf(0), x, -1))
			} else {
				set(t, withProv(a.top(fr, t), deriv(x)))
			}
		default:
			set(t, nil)
		}
	case *ssa.BinOp:
		x, y := a.eval(fr, st, t.X), a.eval(fr, st, t.Y)
		r := a.binop(t, x, y)
		if a.file != nil {
			r = a.fileBinop(t, x, y, r)
		}
		if r == nil && !isBool(t.Type()) {
			r = a.topTyped(fmt.Sprintf("(%s %s %s)", x.key, t.Op, y.key), t.Type())
		}
		if r != nil {
			r = withProv(r, deriv(x, y))
		}
		set(t, r)
	case *ssa.Convert:
		x := a.eval(fr, st, t.X)
		if a.file != nil {
			a.file.converted(x, t.Type(), t)
			if x.sl != nil && isString(t.Type()) {
				x = sliceAval(a.filled(st, x.sl))
			}
		}
		set(t, a.convert(x, t.X.Type(), t.Type()))
	case *ssa.ChangeType:
		if a.file != nil {
			a.file.converted(a.eval(fr, st, t.X), t.Type(), t)
		}
		set(t, a.eval(fr, st, t.X))
	case *ssa.ChangeInterface:
		set(t, a.eval(fr, st, t.X))
	case *ssa.MakeInterface:
		set(t, a.eval(fr, st, t.X))
	case *ssa.TypeAssert, *ssa.MakeClosure:
		set(in.(ssa.Value), nil)
	case *ssa.Extract:
		x := a.eval(fr, st, t.Tuple)
		if t.Index < len(x.tup) {
			set(t, x.tup[t.Index])
		} else {
			set(t, withProv(a.top(fr, t), deriv(x)))
		}
	case *ssa.Slice:
		x := a.eval(fr, st, t.X)
		sl := x.sl
		if sl == nil && x.loc != "" {
			sl = &aslice{src: "A:" + x.loc}
			if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					sl.hi = constOf(at.Len())
				}
			}
		}
		if sl == nil {
			set(t, nil)
			return
		}
		n := &aslice{src: sl.src, tagVal: sl.tagVal, of: sl.of}
		base := constOf(0)
		if sl.lo != nil {
			base = sl.lo
		}
		n.lo = base
		if t.Low != nil {
			n.lo = addAval(base, a.eval(fr, st, t.Low), 1)
		}
		n.hi = sl.hi
		if t.High != nil {
			n.hi = addAval(base, a.eval(fr, st, t.High), 1)
		}
		set(t, withProv(sliceAval(n), x.prov))
	case *ssa.Lookup:
		m := a.eval(fr, st, t.X)
		k := a.eval(fr, st, t.Index)
		var v *aval
		if isTables(t.X.Type()) {
			if k.str != nil {
				v = sliceAval(&aslice{src: "T:" + *k.str, lo: constOf(0)})
				if w := st.heap["tables:"+m.key+"|"+*k.str]; w != nil {
					v = w
				}
			} else {
				v = sliceAval(&aslice{src: fmt.Sprintf("T:?%s%s.%s", fr.ctx, fr.fn.Name(), t.Index.Name()), lo: constOf(0), tagVal: t.Index})
			}
		} else {
			v = a.topTyped("lookup:"+m.key+"|"+k.key, lookupElem(t))
		}
		if t.CommaOk {
			ok := &aval{key: "ok:" + m.key + "|" + k.key}
			if a.v != nil && v.sl != nil && v.sl.src == "T:"+a.v.tag {
				ok = boolAval(true)
			}
			set(t, &aval{key: "tuple", tup: []*aval{v, ok}})
		} else {
			set(t, v)
		}
	case *ssa.MapUpdate:
		m, k, v := a.eval(fr, st, t.Map), a.eval(fr, st, t.Key), a.eval(fr, st, t.Value)
		a.elems = append(a.elems, amapElem{m, k, v, t})
		if isTables(t.Map.Type()) {
			tag := "?"
			if k.str != nil {
				tag = *k.str
			} else if v.sl != nil && v.sl.tagVal == t.Key {
				tag = "same"
			}
			if v.sl != nil && v.sl.of != nil {
				n := *v.sl
				n.of = a.resolve(fr, st, n.of)
				v = withProv(sliceAval(&n), v.prov)
			}
			a.recordTable(atable{m.key, tag, v, t})
			if k.str != nil {
				st.heap["tables:"+m.key+"|"+*k.str] = v
			}
		}
	case *ssa.MakeSlice:
		key := fmt.Sprintf("C:%s%s.%s", fr.ctx, fr.fn.Name(), t.Name())
		set(t, sliceAval(&aslice{src: key, lo: constOf(0), hi: a.eval(fr, st, t.Len)}))
	case *ssa.Store:
		addr := a.eval(fr, st, t.Addr)
		v := a.eval(fr, st, t.Val)
		if addr.loc == "" {
			return
		}
		a.store(st, addr.loc, v)
		if _, ok := t.Addr.(*ssa.FieldAddr); ok {
			a.recordView(aview{addr.loc, v, t})
		}
		if strings.HasPrefix(addr.loc, "elem:C:") {
			if ia, ok := t.Addr.(*ssa.IndexAddr); ok && isBytes(ia.X.Type()) {
				x := a.eval(fr, st, ia.X)
				pos := a.eval(fr, st, ia.Index)
				if x.sl != nil && x.sl.lo != nil {
					pos = addAval(x.sl.lo, pos, 1)
				}
				a.record(awrite{dst: x.sl.src, pos: pos, width: 1, val: v, at: t})
			}
		}
	case *ssa.Call:
		a.call(fr, st, t)
	case *ssa.Next, *ssa.Range:
		delete(st.env, in.(ssa.Value))
	default:
		if v, ok := in.(ssa.Value); ok {
			delete(st.env, v)
		}
	}
}

// isTables: a map from tags to the bytes of tables.
func isTables(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key()) && isBytes(m.Elem())
}

func lookupElem(t *ssa.Lookup) types.Type {
	if m, ok := t.X.Type().Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return types.Typ[types.Uint8]
}

func fieldNameOf(t *ssa.FieldAddr) string {
	return t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(t.Field).Name()
}

func intWidth(t types.Type) (int, bool, bool) { // bytes, signed, ok
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 1, true, true
	case types.Int16:
		return 2, true, true
	case types.Int32:
		return 4, true, true
	case types.Int64, types.Int:
		return 8, true, true
	case types.Uint8:
		return 1, false, true
	case types.Uint16:
		return 2, false, true
	case types.Uint32:
		return 4, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 8, false, true
	}
	return 0, false, false
}

func (a *absint) convert(x *aval, from, to types.Type) *aval {
	w1, _, ok1 := intWidth(from)
	w2, s2, ok2 := intWidth(to)
	if ok1 && ok2 {
		r := x
		if w2 == w1 && strings.HasPrefix(x.prov, "R:") {
			if rd := a.reads[x.prov[:len(x.prov)-1]]; rd != nil && rd.width == w2 {
				sign := "u"
				if s2 {
					sign = "s"
				}
				r = withProv(x, x.prov[:len(x.prov)-1]+sign)
			}
		} else if w2 < w1 && x.prov != "" {
			if rd := a.reads[strings.TrimRight(x.prov, "suSU")]; rd == nil || rd.width > w2 {
				r = withProv(x, deriv(x))
			}
		}
		if c, ok := x.isConst(); ok {
			if lo, hi, a1, b1 := typeRange(to); a1 && c < lo || b1 && c > hi {
				return withProv(atomOf("conv:"+to.String()+":"+x.key), deriv(x))
			}
		}
		return r
	}
	if x.sl != nil && isString(to) || x.str != nil {
		return &aval{key: "string:" + x.key, sl: x.sl, prov: x.prov}
	}
	if x.num {
		prov := x.prov
		if n := len(prov) - 1; ok1 && !ok2 && strings.HasPrefix(prov, "R:") {
			// a number of another kind: the sign is settled here
			prov = prov[:n] + strings.ToUpper(prov[n:])
		}
		return withProv(atomOf("conv:"+types.TypeString(to, nil)+":"+x.key), prov)
	}
	return withProv(&aval{key: "conv:" + types.TypeString(to, nil) + ":" + x.key, sl: x.sl}, x.prov)
}

// record keeps a write. When states are joined, the last record of a place is the one that holds for
// all ways to it.
func (a *absint) record(w awrite) {
	k := fmt.Sprintf("%s|%p|%d|%s|", w.dst, w.at, w.width, a.part)
	if a.limit > 1 {
		if w.pos != nil {
			k += w.pos.key
		}
		if w.val != nil {
			k += "|" + w.val.key
		}
		if w.from != nil {
			k += "|" + sliceAval(w.from).key
		}
		k += w.tag
	}
	if i, ok := a.seenW[k]; ok {
		a.writes[i] = w
		return
	}
	a.seenW[k] = len(a.writes)
	a.writes = append(a.writes, w)
}

func (a *absint) recordView(v aview) {
	k := fmt.Sprintf("view|%p|%s|%s", v.at, v.path, a.part)
	if a.limit > 1 {
		k += v.val.key + "|" + v.val.prov
	}
	if i, ok := a.seenW[k]; ok {
		a.views[i] = v
		return
	}
	a.seenW[k] = len(a.views)
	a.views = append(a.views, v)
}

func (a *absint) recordTable(v atable) {
	k := fmt.Sprintf("table|%p|%s|%s|%s", v.at, v.owner, v.tag, a.part)
	if a.limit > 1 {
		k += v.val.key
	}
	if i, ok := a.seenW[k]; ok {
		a.tables[i] = v
		return
	}
	a.seenW[k] = len(a.tables)
	a.tables = append(a.tables, v)
}

// resolve gives the slice with the tag that is known by now.
func (a *absint) resolve(fr *aframe, st *astate, s *aslice) *aslice {
	if s != nil && s.tagVal != nil && strings.HasPrefix(s.src, "T:?") {
		if v := st.env[s.tagVal]; v != nil && v.str != nil {
			n := *s
			n.src = "T:" + *v.str
			n.tagVal = nil
			return &n
		}
	}
	return s
}

func (a *absint) call(fr *aframe, st *astate, t *ssa.Call) {
	cc := t.Common()
	set := func(x *aval) {
		if x != nil {
			st.env[t] = x
		} else {
			delete(st.env, t)
		}
	}
	args := make([]*aval, len(cc.Args))
	for i, v := range cc.Args {
		args[i] = a.eval(fr, st, v)
	}
	id := fmt.Sprintf("%s%s.%s", fr.ctx, fr.fn.Name(), t.Name())
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			set(a.lenOf(st, args[0]))
		case "append":
			// append([]byte(nil), x...) is a private copy
			if len(args) == 2 && args[0].key == "nil" && args[1].sl != nil && isBytes(cc.Args[0].Type()) {
				src := a.resolve(fr, st, args[1].sl)
				key := "C:" + id
				a.copies[key] = src
				set(sliceAval(&aslice{src: key, lo: constOf(0), of: src}))
				return
			}
			set(nil)
		case "copy":
			if args[0].sl != nil && args[1].sl != nil {
				src := a.resolve(fr, st, args[1].sl)
				if strings.HasPrefix(args[0].sl.src, "A:") {
					loc := args[0].sl.src[2:]
					a.store(st, loc, withProv(sliceAval(src), ""))
					a.recordView(aview{loc, sliceAval(src), t})
				} else if strings.HasPrefix(args[0].sl.src, "C:") {
					pos := args[0].sl.lo
					a.record(awrite{dst: args[0].sl.src, pos: pos, width: -1, from: src, at: t})
				}
			}
			set(nil)
		case "max", "min":
			ks := []string{}
			for _, x := range args {
				ks = append(ks, x.key)
			}
			set(atomOf(bi.Name() + "(" + strings.Join(ks, ",") + ")"))
		default:
			set(nil)
		}
		return
	}
	g := cc.StaticCallee()
	if a.file != nil && a.fileCall(fr, st, t, g, args) {
		return
	}
	if g == nil {
		set(withProv(a.top(fr, t), deriv(args...)))
		return
	}
	name := g.Name()
	recv := g.Signature.Recv()
	if recv != nil && len(args) > 0 {
		switch bareName(recv.Type()) {
		case "binaryReader", "BinaryReader":
			if a.reader(fr, st, t, g, args) {
				return
			}
		case "BinaryWriter":
			if a.writer(fr, st, t, name, args) {
				return
			}
		}
		if strings.HasPrefix(g.String(), "(encoding/binary.") {
			w := 0
			switch strings.TrimPrefix(name, "Put") {
			case "Uint16":
				w = 2
			case "Uint32":
				w = 4
			case "Uint64":
				w = 8
			}
			if w > 0 && args[1].sl != nil {
				sl := a.resolve(fr, st, args[1].sl)
				if a.file != nil {
					sl = a.filled(st, sl)
				}
				if strings.HasPrefix(name, "Put") {
					a.record(awrite{dst: sl.src, pos: sl.lo, width: w, val: args[2], at: t})
				} else {
					set(a.readAt(sl, constOf(0), w, false))
				}
				return
			}
		}
	}
	switch {
	case strings.HasSuffix(name, "ewBinaryReader") && args[0].sl != nil:
		loc := "new:reader." + id
		st.heap[loc+".src"] = sliceAval(a.resolve(fr, st, args[0].sl))
		st.heap[loc+".pos"] = constOf(0)
		set(ptrAval(loc))
		return
	case name == "NewBinaryWriter":
		loc := "new:writer." + id
		st.heap[loc+".pos"] = constOf(0)
		if args[0].sl != nil && args[0].sl.hi != nil && args[0].sl.lo != nil {
			st.heap[loc+".pos"] = addAval(args[0].sl.hi, args[0].sl.lo, -1)
		}
		set(ptrAval(loc))
		return
	case (g.String() == "bytes.Clone" || strings.HasPrefix(g.String(), "slices.Clone")) && args[0].sl != nil:
		src := a.resolve(fr, st, args[0].sl)
		a.copies["C:"+id] = src
		set(sliceAval(&aslice{src: "C:" + id, lo: constOf(0), of: src}))
		return
	}
	if a.wantInline(fr, g, args, st) {
		a.inlines[g] = true
		for i, x := range args {
			if x.sl != nil {
				if sl := a.resolve(fr, st, x.sl); sl != x.sl {
					args[i] = withProv(sliceAval(sl), x.prov)
				}
			}
		}
		sub := a.run(g, id+"/", fr.depth+1, args, st.heap)
		if a.mergeReturn(fr, st, t, g, sub) {
			return
		}
	}
	a.havoc(st, g)
	var ds []*aval
	for _, x := range args {
		ds = append(ds, x)
	}
	set(a.resultTop(fr, t, g, ds))
}

func (a *absint) resultTop(fr *aframe, t *ssa.Call, g *ssa.Function, args []*aval) *aval {
	r := a.top(fr, t)
	if g != nil && len(args) > 0 {
		r = withProv(r, deriv(args...))
		if b := writerBytes(g, args); b != nil {
			return b
		}
	}
	return r
}

// writerBytes: the table that a method of a parsed table writes.
func writerBytes(g *ssa.Function, args []*aval) *aval {
	if g.Signature.Recv() == nil || args[0].loc == "" {
		return nil
	}
	if g.Signature.Results().Len() == 1 && isBytes(g.Signature.Results().At(0).Type()) {
		return sliceAval(&aslice{src: "M:" + fnName(g) + "|" + args[0].loc})
	}
	if g.Signature.Results().Len() == 2 && isBytes(g.Signature.Results().At(0).Type()) {
		return &aval{key: "tuple", tup: []*aval{sliceAval(&aslice{src: "M:" + fnName(g) + "|" + args[0].loc}), {key: "err"}}}
	}
	return nil
}

func (a *absint) wantInline(fr *aframe, g *ssa.Function, args []*aval, st *astate) bool {
	if a.noInline[g] {
		return false
	}
	if len(g.Blocks) == 0 || fr.depth >= 4 || !repoPkg(fnPkgPath(g)) || g == fr.fn {
		return false
	}
	if len(g.Blocks) > 60 || len(g.FreeVars) > 0 {
		return false
	}
	for _, x := range args {
		if x.key == fileKey {
			return true
		}
		if x.loc != "" && (strings.HasPrefix(x.loc, "new:") || a.limit > 1 && st.heap[x.loc] == nil && strings.HasSuffix(x.loc, "*")) {
			return true
		}
		if x.sl != nil && (strings.HasPrefix(x.sl.src, "T:") || strings.HasPrefix(x.sl.src, "C:")) {
			return true
		}
	}
	return false
}

func (a *absint) mergeReturn(fr *aframe, st *astate, t *ssa.Call, g *ssa.Function, sub *aframe) bool {
	if len(sub.rets) == 0 {
		return false
	}
	rets := sub.rets
	ei := -1
	if n := g.Signature.Results().Len(); n > 0 && isErr(g.Signature.Results().At(n-1).Type()) {
		ei = n - 1
		var okr []aret
		for _, r := range rets {
			if r.val[ei].key == "nil" {
				okr = append(okr, r)
			}
		}
		if len(okr) > 0 {
			rets = okr
		}
	}
	j := rets[0].st
	vals := append([]*aval(nil), rets[0].val...)
	for _, r := range rets[1:] {
		j = a.join(fr, j, r.st, t.Block())
		for i := range vals {
			if x := joinAval(vals[i], r.val[i]); x != nil {
				vals[i] = x
			} else {
				vals[i] = a.topTyped(fmt.Sprintf("%s%s.%s#%d", fr.ctx, fr.fn.Name(), t.Name(), i), g.Signature.Results().At(i).Type())
			}
		}
	}
	st.heap = map[string]*aval{}
	for k, v := range j.heap {
		st.heap[k] = v
	}
	if ei >= 0 && vals[ei].key == "nil" && len(rets) < len(sub.rets) {
		vals[ei] = &aval{key: "err:" + sub.ctx} // may have failed
	}
	switch len(vals) {
	case 0:
		delete(st.env, t)
	case 1:
		st.env[t] = vals[0]
	default:
		st.env[t] = &aval{key: "tuple", tup: vals}
	}
	return true
}

// havoc forgets what a call that is not followed may have changed.
func (a *absint) havoc(st *astate, g *ssa.Function) {
	if a.b == nil || len(g.Blocks) == 0 || !repoPkg(fnPkgPath(g)) {
		return
	}
	names := a.modNames(g)
	for k := range st.heap {
		if strings.HasPrefix(k, "tables:") || strings.HasPrefix(k, "new:reader.") || strings.HasPrefix(k, "new:writer.") {
			continue
		}
		f := k[strings.LastIndexByte(k, '.')+1:]
		if names[f] {
			delete(st.heap, k)
		}
	}
}

func (a *absint) reader(fr *aframe, st *astate, t *ssa.Call, g *ssa.Function, args []*aval) bool {
	loc := args[0].loc
	src := st.heap[loc+".src"]
	if src == nil {
		return false
	}
	pos := st.heap[loc+".pos"]
	set := func(x *aval) { st.env[t] = x }
	name := g.Name()
	if w, ok := readWidths[name]; ok {
		set(a.readAt(src.sl, pos, w.w, w.s))
		st.heap[loc+".pos"] = addAval(pos, constOf(int64(w.w)), 1)
		return true
	}
	switch name {
	case "ReadBytes", "ReadString":
		lo := pos
		if src.sl.lo != nil {
			lo = addAval(src.sl.lo, pos, 1)
		}
		x := sliceAval(&aslice{src: src.sl.src, lo: lo, hi: addAval(lo, args[1], 1)})
		x.prov = fmt.Sprintf("R:%s@%s:%ss", src.sl.src, lo.key, args[1].key)
		if c, ok := args[1].isConst(); ok {
			a.reads[x.prov[:len(x.prov)-1]] = &aread{src.sl.src, lo, int(c), true}
			if name == "ReadString" {
				x = &aval{key: "string:" + x.key, sl: x.sl, prov: x.prov}
				if n, ok := lo.isConst(); ok && a.v != nil {
					if v, ok := a.v.reads[fmt.Sprintf("%d:%d", n, c)]; ok {
						x = strAval(string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}))
					}
				}
			}
		} else if name == "ReadString" {
			x = &aval{key: "string:" + x.key, sl: x.sl, prov: x.prov}
		}
		set(x)
		st.heap[loc+".pos"] = addAval(pos, args[1], 1)
	case "Len":
		set(addAval(a.lenOf(st, src), pos, -1))
	case "Pos":
		set(pos)
	case "Seek", "SetPos":
		if len(args) == 3 {
			switch w, ok := args[2].isConst(); {
			case ok && w == 0:
				st.heap[loc+".pos"] = args[1]
			case ok && w == 1:
				st.heap[loc+".pos"] = addAval(pos, args[1], 1)
			case ok && w == 2:
				st.heap[loc+".pos"] = addAval(a.lenOf(st, src), args[1], 1)
			default:
				st.heap[loc+".pos"] = unk()
			}
		} else {
			st.heap[loc+".pos"] = args[1]
		}
		delete(st.env, t)
	case "Err", "EOF":
		delete(st.env, t)
	default:
		st.heap[loc+".pos"] = unk()
		delete(st.env, t)
	}
	return true
}

func (a *absint) writer(fr *aframe, st *astate, t *ssa.Call, name string, args []*aval) bool {
	loc := args[0].loc
	pos := st.heap[loc+".pos"]
	if pos == nil {
		return false
	}
	dst := "W:" + loc
	if w, ok := writeWidths[name]; ok {
		p := pos
		if !pos.num {
			p = nil
		}
		a.record(awrite{dst: dst, pos: p, width: w, val: args[1], at: t})
		st.heap[loc+".pos"] = addAval(pos, constOf(int64(w)), 1)
		delete(st.env, t)
		return true
	}
	switch name {
	case "WriteBytes", "WriteString", "Write":
		p := pos
		if !pos.num {
			p = nil
		}
		var sl *aslice
		if args[1].sl != nil {
			sl = a.resolve(fr, st, args[1].sl)
		}
		a.record(awrite{dst: dst, pos: p, width: -1, val: args[1], from: sl, at: t})
		if sl != nil {
			st.heap[loc+".pos"] = addAval(pos, a.lenOf(st, sliceAval(sl)), 1)
		} else {
			st.heap[loc+".pos"] = addAval(pos, a.lenOf(st, args[1]), 1)
		}
		delete(st.env, t)
	case "Bytes":
		st.env[t] = sliceAval(&aslice{src: dst, lo: constOf(0)})
	case "Len":
		st.env[t] = pos
	default:
		st.heap[loc+".pos"] = unk()
		delete(st.env, t)
	}
	return true
}

// modNames gives the names of the fields that a call can store to.
func (a *absint) modNames(g *ssa.Function) map[string]bool {
	ms := a.b.modOf(g)
	names := map[string]bool{}
	for f := range ms.fields {
		if s := a.structOf(f.st); s != nil && f.idx < s.NumFields() {
			names[s.Field(f.idx).Name()] = true
		}
	}
	for w := range ms.whole {
		if s := a.structOf(w); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				names[s.Field(i).Name()] = true
			}
		}
	}
	return names
}

func (a *absint) structOf(name string) *types.Struct {
	for _, pk := range []*ssa.Package{a.p.Font, a.p.Cmd} {
		if o := pk.Pkg.Scope().Lookup(name); o != nil {
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				return s
			}
		}
	}
	return nil
}

// bareName is the name of a named type or of what a pointer to one points to.
func bareName(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}
