package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A bounds prover over SSA: integer values become linear expressions over
// atoms (opaque values, lengths, fields of known version), facts come from
// dominating conditions, types, operations, function results and loop
// induction; goals are linear inequalities at a block. A goal that only speaks
// about parameters is passed on to all callers.

const maxLen = int64(1) << 47 // no object is larger than the address space

type akind uint8

const (
	aVal akind = iota
	aLen
	aCap
)

type atomKey struct {
	kind akind
	v    any // ssa.Value or *memVal
}

type memKind uint8

const (
	mEntry memKind = iota
	mKill
	mPhi
)

// memKey names a memory location of a function: a field path from a base pointer.
type memKey struct {
	base any // ssa.Value (canonical) or *memVal
	path string
}

// memVal is the unknown content of a location from one point on.
type memVal struct {
	fn    *ssa.Function
	key   memKey
	loc   *memLoc
	kind  memKind
	block *ssa.BasicBlock
	at    ssa.Instruction
}

type memLoc struct {
	key    memKey
	fields []fieldRef
	typ    types.Type
	fn     *ssa.Function
	// filled by prepare
	ready   bool
	affects map[*ssa.BasicBlock][]memEffect
	phis    map[*ssa.BasicBlock]*memVal
	entry   *memVal
	kills   map[ssa.Instruction]*memVal
}

type fieldRef struct {
	st  string
	idx int
}

type memEffect struct {
	at   ssa.Instruction
	val  ssa.Value // stored value, nil for a kill
	zero bool
}

type modSet struct {
	fields map[fieldRef]bool
	whole  map[string]bool
	dyn    bool
}

type bp struct {
	p        *Prog
	ids      map[atomKey]int
	atoms    []atomKey
	linMemo  map[ssa.Value]lin
	busy     map[ssa.Value]bool
	lenMemo  map[any]lin
	locs     map[*ssa.Function]map[memKey]*memLoc
	mods     map[*ssa.Function]*modSet
	df       map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock
	memo     map[string]bool
	open     map[string]bool
	openHits int
	assume   map[*ssa.BasicBlock][]lin
	nAssume  int
	callers  map[*ssa.Function][]ssa.CallInstruction
	closers  map[*ssa.Function][]*ssa.MakeClosure
	addrUse  map[*ssa.Function]bool // used as a value other than by closures
	roots    map[*ssa.Function]bool // called from outside
	taken    map[fieldRef]bool      // fields whose address is taken
	funcs    []*ssa.Function
	sumMemo  map[string]sumEntry
	sumBusy  map[string]bool
	sumCuts  int
	fuel     int
	held     map[string]bool
	canonB   map[ssa.Value]bool
	canonM   map[ssa.Value]any
	trace    bool

	shrinks  map[memSumKey]bool
	killMemo map[*memVal][]lin
	touched  map[fieldRef]map[*ssa.Function]*touch
	hull     map[*ssa.Phi]bool // known to be in [0, maxLen]
}

func newBP(p *Prog, funcs []*ssa.Function, roots map[*ssa.Function]bool) *bp {
	b := &bp{p: p, ids: map[atomKey]int{}, linMemo: map[ssa.Value]lin{}, busy: map[ssa.Value]bool{}, lenMemo: map[any]lin{},
		locs: map[*ssa.Function]map[memKey]*memLoc{}, mods: map[*ssa.Function]*modSet{}, df: map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock{},
		memo: map[string]bool{}, open: map[string]bool{}, assume: map[*ssa.BasicBlock][]lin{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		closers: map[*ssa.Function][]*ssa.MakeClosure{}, addrUse: map[*ssa.Function]bool{}, roots: roots, taken: map[fieldRef]bool{}, funcs: funcs,
		held: map[string]bool{}, sumMemo: map[string]sumEntry{}, sumBusy: map[string]bool{}, canonB: map[ssa.Value]bool{}, canonM: map[ssa.Value]any{},
		shrinks: map[memSumKey]bool{}, killMemo: map[*memVal][]lin{}, touched: map[fieldRef]map[*ssa.Function]*touch{}}
	for _, f := range funcs {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					if callee = ci.Common().StaticCallee(); callee != nil {
						b.callers[callee] = append(b.callers[callee], ci)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					b.closers[mc.Fn.(*ssa.Function)] = append(b.closers[mc.Fn.(*ssa.Function)], mc)
				}
				for i, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						if ci, isCall := in.(ssa.CallInstruction); isCall && i == 0 && ci.Common().Value == *op {
							continue
						}
						if _, isMC := in.(*ssa.MakeClosure); isMC {
							continue
						}
						b.addrUse[fn] = true
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					for _, u := range realRefs(fa) {
						switch u := u.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case *ssa.Store:
							if u.Val == fa {
								b.taken[refOf(fa)] = true
							}
						default:
							b.taken[refOf(fa)] = true
						}
					}
				}
			}
		}
	}
	return b
}

func structName(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.TypeString(t, nil)
}

func refOf(fa *ssa.FieldAddr) fieldRef { return fieldRef{structName(fa.X.Type()), fa.Field} }

// ---- memory ----

// addrKey resolves an address to a location.
func (b *bp) addrKey(addr ssa.Value) (memKey, []fieldRef, bool) {
	switch a := addr.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return memKey{a, ""}, nil, true
	case *ssa.FieldAddr:
		switch x := a.X.(type) {
		case *ssa.FieldAddr:
			k, fs, ok := b.addrKey(x)
			if !ok {
				return k, nil, false
			}
			return memKey{k.base, fmt.Sprintf("%s.%d", k.path, a.Field)}, append(append([]fieldRef{}, fs...), refOf(a)), true
		case *ssa.IndexAddr:
			return memKey{x, fmt.Sprintf(".%d", a.Field)}, []fieldRef{refOf(a)}, true
		default:
			return memKey{b.canon(a.X), fmt.Sprintf(".%d", a.Field)}, []fieldRef{refOf(a)}, true
		}
	}
	return memKey{}, nil, false
}

func (b *bp) loc(fn *ssa.Function, k memKey, fs []fieldRef, t types.Type) *memLoc {
	m := b.locs[fn]
	if m == nil {
		m = map[memKey]*memLoc{}
		b.locs[fn] = m
	}
	l := m[k]
	if l == nil {
		l = &memLoc{key: k, fields: fs, typ: t, fn: fn}
		m[k] = l
	}
	if !l.ready {
		l.ready = true
		b.prepare(fn, l)
	}
	return l
}

func (b *bp) modOf(f *ssa.Function) *modSet {
	if m := b.mods[f]; m != nil {
		return m
	}
	m := &modSet{fields: map[fieldRef]bool{}, whole: map[string]bool{}}
	b.mods[f] = m
	// transitive closure over the static call graph
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || g == nil {
			return
		}
		seen[g] = true
		if len(g.Blocks) == 0 {
			return
		}
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						m.fields[refOf(a)] = true
					case *ssa.Alloc:
						// own cell, or a struct under construction
					default:
						m.whole[structName(in.Addr.Type())] = true
					}
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := in.Common()
					if f := c.StaticCallee(); f != nil {
						if pp := fnPkgPath(f); pp == fontPath || pp == cmdPath {
							visit(f)
						}
					} else if _, ok := c.Value.(*ssa.Builtin); ok {
					} else if c.IsInvoke() {
						if !quietInvoke(c) {
							m.dyn = true
						}
					} else {
						m.dyn = true
					}
				}
			}
		}
	}
	visit(f)
	return m
}

// quietInvoke: interface calls that cannot reach code of the repository.
func quietInvoke(c *ssa.CallCommon) bool {
	if isErr(c.Value.Type()) {
		return true
	}
	if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "encoding/binary", "io", "hash", "io/fs", "os", "reflect":
			return true
		}
	}
	return false
}

func (b *bp) dominanceFrontier(fn *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	if d := b.df[fn]; d != nil {
		return d
	}
	d := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	for _, blk := range fn.Blocks {
		if len(blk.Preds) < 2 {
			continue
		}
		for _, p := range blk.Preds {
			for r := p; r != nil && r != blk.Idom(); r = r.Idom() {
				d[r] = append(d[r], blk)
			}
		}
	}
	b.df[fn] = d
	return d
}

func isLocalAlloc(v any) (*ssa.Alloc, bool) {
	a, ok := v.(*ssa.Alloc)
	return a, ok
}

// allocEscapes: the address of the allocation is used other than for loads,
// stores and field accesses in its own function.
func allocEscapes(a ssa.Value) bool {
	for _, u := range realRefs(a) {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Return:
		case *ssa.FieldAddr:
			for _, w := range realRefs(u) {
				switch w := w.(type) {
				case *ssa.UnOp, *ssa.IndexAddr:
				case *ssa.Store:
					if w.Val == u {
						return true
					}
				case *ssa.FieldAddr:
					if allocEscapes(w) {
						return true
					}
				default:
					return true
				}
			}
		case *ssa.Store:
			if u.Val == a {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// closureWrites: a captured cell is assigned in a closure.
func closureWrites(a *ssa.Alloc) bool {
	for _, u := range realRefs(a) {
		mc, ok := u.(*ssa.MakeClosure)
		if !ok {
			if c, ok := u.(ssa.CallInstruction); ok {
				_ = c
				return true
			}
			continue
		}
		f := mc.Fn.(*ssa.Function)
		for i, bnd := range mc.Bindings {
			if bnd != a {
				continue
			}
			fv := f.FreeVars[i]
			for _, w := range realRefs(fv) {
				switch w := w.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					return true
				case *ssa.MakeClosure:
					return true // nested: give up
				default:
					_ = w
					return true
				}
			}
		}
	}
	return false
}

func (b *bp) prepare(fn *ssa.Function, l *memLoc) {
	l.affects = map[*ssa.BasicBlock][]memEffect{}
	l.phis = map[*ssa.BasicBlock]*memVal{}
	l.kills = map[ssa.Instruction]*memVal{}
	l.entry = &memVal{fn: fn, key: l.key, loc: l, kind: mEntry}
	alloc, isAlloc := isLocalAlloc(l.key.base)
	private := isAlloc && !allocEscapes(alloc)
	cell := isAlloc && l.key.path == ""
	cellQuiet := cell && !private && !closureWrites(alloc)
	var types_ []string
	for _, f := range l.fields {
		types_ = append(types_, f.st)
	}
	vt := types.TypeString(l.typ, nil)
	last := fieldRef{}
	takenField := false
	if n := len(l.fields); n > 0 {
		last = l.fields[n-1]
		for _, f := range l.fields {
			takenField = takenField || b.taken[f]
		}
	}
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			kill := false
			switch in := in.(type) {
			case *ssa.Alloc:
				if isAlloc && in == alloc {
					l.affects[blk] = append(l.affects[blk], memEffect{at: in, zero: true})
				}
				continue
			case *ssa.Store:
				k, fs, ok := b.addrKey(in.Addr)
				if ok && k == l.key {
					l.affects[blk] = append(l.affects[blk], memEffect{at: in, val: in.Val})
					continue
				}
				_, otherAlloc := isLocalAlloc(k.base)
				switch {
				case ok && k.base == l.key.base:
					kill = strings.HasPrefix(l.key.path, k.path+".") || strings.HasPrefix(k.path, l.key.path+".") || k.path == "" || l.key.path == ""
				case ok && isAlloc && otherAlloc:
				case private:
				case ok && b.apart(k.base, l.key.base):
				case ok && len(fs) > 0:
					// another base: may be the same object
					for i := range l.fields {
						if fs[len(fs)-1] == l.fields[i] {
							kill = true
						}
					}
					if takenField && fs[len(fs)-1] == last {
						kill = true
					}
				default:
					et := structName(in.Addr.Type())
					if ok && otherAlloc {
						break // a cell of its own
					}
					for _, t := range types_ {
						if t == et {
							kill = true
						}
					}
					if _, isGlob := l.key.base.(*ssa.Global); l.key.path == "" && et == vt {
						if _, g2 := k.base.(*ssa.Global); !(ok && isGlob && g2) {
							kill = !cell || !cellQuiet || !ok
						}
					}
					if takenField && et == vt {
						kill = true
					}
				}
			case *ssa.MakeClosure:
				continue
			case ssa.CallInstruction:
				if _, ok := in.(*ssa.Defer); ok {
					continue
				}
				c := in.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if private || cellQuiet {
					continue
				}
				for _, a := range c.Args {
					if k, _, ok := b.addrKey(a); ok && k.base == l.key.base && (k.path == l.key.path || strings.HasPrefix(l.key.path, k.path+".")) && k.path != "" {
						kill = true
					}
				}
				if cell {
					kill = true
					break
				}
				if g, ok := l.key.base.(*ssa.Global); ok {
					kill = kill || !onlyInit(b.p, g)
					break
				}
				check := func(f *ssa.Function) {
					m := b.modOf(f)
					if m.dyn {
						kill = true
					}
					for _, fr := range l.fields {
						if (m.fields[fr] || m.whole[fr.st]) && b.touches(f, fr, c, l.key.base) {
							kill = true
						}
					}
					if takenField && m.whole[vt] {
						kill = true
					}
				}
				if f := c.StaticCallee(); f != nil {
					if pp := fnPkgPath(f); pp == fontPath || pp == cmdPath {
						check(f)
					} else {
						for _, a := range c.Args {
							switch a := a.(type) {
							case *ssa.MakeClosure:
								check(a.Fn.(*ssa.Function))
							case *ssa.Function:
								check(a)
							case *ssa.MakeInterface:
								if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
									if structName(a.X.Type()) == last.st {
										kill = true
									}
								}
							default:
								if _, ok := a.Type().Underlying().(*types.Signature); ok {
									kill = true
								}
							}
						}
					}
				} else if !(c.IsInvoke() && quietInvoke(c)) && !b.unshared(l.key.base) && !(c.IsInvoke() && plainArgs(c) && b.heldNowhere(last.st)) {
					kill = true
				}
			default:
				continue
			}
			if kill {
				l.affects[blk] = append(l.affects[blk], memEffect{at: in})
				l.kills[in] = &memVal{fn: fn, key: l.key, loc: l, kind: mKill, block: blk, at: in}
			}
		}
	}
	// iterated dominance frontier
	df := b.dominanceFrontier(fn)
	var work []*ssa.BasicBlock
	for _, blk := range fn.Blocks {
		if len(l.affects[blk]) > 0 {
			work = append(work, blk)
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, y := range df[x] {
			if l.phis[y] == nil {
				l.phis[y] = &memVal{fn: fn, key: l.key, loc: l, kind: mPhi, block: y}
				work = append(work, y)
			}
		}
	}
}

func onlyInit(p *Prog, g *ssa.Global) bool { return p.initStore(g) != nil }

// content is the value of a location: a stored SSA value, a *memVal, or zeroMark.
type zeroMark struct{}

func (b *bp) effectVal(l *memLoc, e memEffect) any {
	if e.zero {
		return zeroMark{}
	}
	if e.val != nil {
		return b.canonAny(e.val)
	}
	return l.kills[e.at]
}

func (b *bp) memOut(l *memLoc, blk *ssa.BasicBlock) any {
	if es := l.affects[blk]; len(es) > 0 {
		return b.effectVal(l, es[len(es)-1])
	}
	return b.memIn(l, blk)
}

func (b *bp) memIn(l *memLoc, blk *ssa.BasicBlock) any {
	for {
		if ph := l.phis[blk]; ph != nil {
			return ph
		}
		d := blk.Idom()
		if d == nil {
			return l.entry
		}
		if es := l.affects[d]; len(es) > 0 {
			return b.effectVal(l, es[len(es)-1])
		}
		blk = d
	}
}

func (b *bp) memAt(l *memLoc, at ssa.Instruction) any {
	blk := at.Block()
	es := l.affects[blk]
	if len(es) > 0 {
		// the last effect before at
		pos := map[ssa.Instruction]int{}
		for i, in := range blk.Instrs {
			pos[in] = i
		}
		for i := len(es) - 1; i >= 0; i-- {
			if pos[es[i].at] < pos[at] {
				return b.effectVal(l, es[i])
			}
		}
	}
	return b.memIn(l, blk)
}

// canonAny gives the representative of a value: an ssa.Value, *memVal or zeroMark.
func (b *bp) canonAny(v ssa.Value) any {
	if m, ok := b.canonM[v]; ok {
		return m
	}
	if b.canonB[v] {
		return v
	}
	b.canonB[v] = true
	r := b.canon1(v)
	delete(b.canonB, v)
	b.canonM[v] = r
	return r
}

func (b *bp) canon(v ssa.Value) any {
	r := b.canonAny(v)
	if _, ok := r.(zeroMark); ok {
		return v
	}
	return r
}

func (b *bp) canon1(v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.ChangeType:
		return b.canonAny(v.X)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return v
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			if w := b.freeVar(fv); w != nil {
				return w
			}
		}
		k, fs, ok := b.addrKey(v.X)
		if !ok {
			return v
		}
		if g, ok := k.base.(*ssa.Global); ok && k.path == "" {
			if st := b.p.initStore(g); st != nil {
				return b.canonAny(st.Val)
			}
		}
		return b.memAt(b.loc(v.Parent(), k, fs, v.Type()), v)
	case *ssa.Field:
		// field of a struct value that was loaded: the field of the location
		if ld, ok := v.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if k, fs, ok := b.addrKey(ld.X); ok {
				fr := fieldRef{structName(v.X.Type()), v.Field}
				k2 := memKey{k.base, fmt.Sprintf("%s.%d", k.path, v.Field)}
				return b.memAt(b.loc(v.Parent(), k2, append(append([]fieldRef{}, fs...), fr), v.Type()), ld)
			}
		}
	case *ssa.Phi:
		var one any
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			c := b.canonAny(e)
			if cc, ok := c.(*ssa.Const); ok {
				_ = cc
				return v
			}
			if one == nil {
				one = c
			} else if one != c {
				return v
			}
		}
		if one != nil {
			return one
		}
	}
	return v
}

// freeVar: the value of a captured variable that is assigned exactly once, before the closure is made.
func (b *bp) freeVar(fv *ssa.FreeVar) any {
	f := fv.Parent()
	mcs := b.closers[f]
	if len(mcs) != 1 {
		return nil
	}
	var bind ssa.Value
	for i, x := range f.FreeVars {
		if x == fv {
			bind = mcs[0].Bindings[i]
		}
	}
	for {
		if fv2, ok := bind.(*ssa.FreeVar); ok {
			if w := b.freeVar(fv2); w != nil {
				return w
			}
			return nil
		}
		break
	}
	a, ok := bind.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var st *ssa.Store
	for _, u := range realRefs(a) {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Val == a || st != nil {
				return nil
			}
			st = u
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
		default:
			return nil
		}
	}
	if st == nil || closureWrites(a) || !st.Block().Dominates(mcs[0].Block()) {
		return nil
	}
	return b.canonAny(st.Val)
}

// ---- atoms and linear forms ----

func (b *bp) atom(k akind, v any) int {
	key := atomKey{k, v}
	if id, ok := b.ids[key]; ok {
		return id
	}
	id := len(b.atoms)
	b.ids[key] = id
	b.atoms = append(b.atoms, key)
	return id
}

func (b *bp) atomType(id int) types.Type {
	switch v := b.atoms[id].v.(type) {
	case ssa.Value:
		return v.Type()
	case *memVal:
		return v.loc.typ
	}
	return nil
}

func (b *bp) atomName(id int) string {
	a := b.atoms[id]
	s := ""
	switch v := a.v.(type) {
	case ssa.Value:
		s = v.Name()
		if c, ok := v.(*ssa.Call); ok {
			s += "=" + calleeName(&c.Call)
		}
	case *memVal:
		s = b.memName(v)
	}
	switch a.kind {
	case aLen:
		return "len(" + s + ")"
	case aCap:
		return "cap(" + s + ")"
	}
	return s
}

func (b *bp) memName(v *memVal) string {
	base := ""
	switch x := v.key.base.(type) {
	case ssa.Value:
		base = x.Name()
	case *memVal:
		base = b.memName(x)
	}
	at := ""
	switch v.kind {
	case mKill:
		at = fmt.Sprintf("@k%d", v.block.Index)
	case mPhi:
		at = fmt.Sprintf("@%d", v.block.Index)
	}
	return base + v.key.path + at
}

func (b *bp) show(x lin) string {
	if x.bad {
		return "?"
	}
	var sb strings.Builder
	for _, a := range x.atoms() {
		fmt.Fprintf(&sb, "%+d*%s ", x.m[a], b.atomName(a))
	}
	fmt.Fprintf(&sb, "%+d", x.c)
	return sb.String()
}

// typeRange: bounds of an integer type; ok bits tell which bounds are usable.
func typeRange(t types.Type) (lo, hi int64, hasLo, hasHi bool) {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch bt.Kind() {
	case types.Uint8:
		return 0, math.MaxUint8, true, true
	case types.Uint16:
		return 0, math.MaxUint16, true, true
	case types.Uint32:
		return 0, math.MaxUint32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true, true
	}
	return
}

func isInt(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0
}

func wide(t types.Type) bool { // 64-bit signed
	bt, ok := t.Underlying().(*types.Basic)
	return ok && (bt.Kind() == types.Int || bt.Kind() == types.Int64)
}

// interval of a linear form from the types of its atoms.
func (b *bp) interval(x lin) (lo, hi int64, hasLo, hasHi bool) {
	if x.bad {
		return
	}
	lo, hi, hasLo, hasHi = x.c, x.c, true, true
	for a, k := range x.m {
		alo, ahi, hl, hh := b.atomRange(a)
		if k < 0 {
			alo, ahi, hl, hh = ahi, alo, hh, hl
		}
		add := func(acc int64, has bool, v int64, ok bool) (int64, bool) {
			if !has || !ok {
				return 0, false
			}
			t, ov := mulOv(v, k)
			if ov {
				return 0, false
			}
			s, ov := addOv(acc, t)
			return s, !ov
		}
		lo, hasLo = add(lo, hasLo, alo, hl)
		hi, hasHi = add(hi, hasHi, ahi, hh)
	}
	return
}

func (b *bp) atomRange(a int) (lo, hi int64, hasLo, hasHi bool) {
	k := b.atoms[a]
	if k.kind != aVal {
		return 0, maxLen, true, true
	}
	lo, hi, hasLo, hasHi = typeRange(b.atomType(a))
	if m, ok := k.v.(*memVal); ok {
		if n := len(m.loc.fields); n > 0 && strings.HasPrefix(m.loc.fields[n-1].st, "unicode.Range") && m.loc.fields[n-1].idx == 2 {
			return 1, hi, true, hasHi
		}
	}
	v, ok := k.v.(ssa.Value)
	if !ok {
		return
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Stride" && strings.HasPrefix(structName(fa.X.Type()), "unicode.Range") {
			return 1, hi, true, hasHi
		}
	}
	if f, ok := v.(*ssa.Field); ok && strings.HasPrefix(types.TypeString(f.X.Type(), nil), "unicode.Range") && f.X.Type().Underlying().(*types.Struct).Field(f.Field).Name() == "Stride" {
		return 1, hi, true, hasHi
	}
	switch v := v.(type) {
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok && v.Index == 1 && parsesDigits(&c.Call) {
			return 0, maxLen, true, true
		}
	case *ssa.Phi:
		if b.hull[v] {
			return 0, maxLen, true, true
		}
	case *ssa.BinOp:
		if c, ok := constInt(v.Y); ok {
			switch v.Op {
			case token.AND:
				if c >= 0 {
					return 0, c, true, true
				}
			case token.REM:
				if c > 0 {
					if xlo, _, hl, _ := b.interval(b.linOf(v.X)); hl && xlo >= 0 {
						return 0, c - 1, true, true
					}
					return -(c - 1), c - 1, true, true
				}
			case token.SHR, token.QUO:
				d := c
				if v.Op == token.SHR {
					if c > 62 || c < 0 {
						break
					}
					d = int64(1) << uint(c)
				}
				if d > 0 {
					xlo, xhi, hl, hh := b.interval(b.linOf(v.X))
					if hl && xlo >= 0 {
						if hh {
							return 0, xhi / d, true, true
						}
						return 0, math.MaxInt64 / d, true, true
					}
				}
			}
		}
	case *ssa.Convert:
		xlo, xhi, hl, hh := b.interval(b.linOf(v.X))
		if isInt(v.X.Type()) && hl && hh {
			tlo, thi, tl, th := typeRange(v.Type())
			if (!tl || tlo <= xlo) && (!th || xhi <= thi) {
				return xlo, xhi, true, true
			}
		}
	}
	return
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// fits: the mathematical value x is representable in t at block blk.
func (b *bp) fits(x lin, t types.Type, blk *ssa.BasicBlock) bool {
	if x.bad {
		return false
	}
	lo, hi, hl, hh := b.interval(x)
	tlo, thi, tl, th := typeRange(t)
	bt, _ := t.Underlying().(*types.Basic)
	if bt == nil {
		return false
	}
	if wide(t) {
		return hl && hh // representable as int64
	}
	okLo := !tl || hl && tlo <= lo
	okHi := th && hh && hi <= thi
	if !th { // uint, uint64
		okHi = hh
	}
	if okLo && okHi {
		return true
	}
	if !okLo && !b.prove(x.plus(-tlo), blk, 3) {
		return false
	}
	if !okHi {
		if !th {
			return false
		}
		return b.prove(lconst(thi).sub(x), blk, 3)
	}
	return true
}

func (b *bp) linAny(v any, t types.Type) lin {
	switch v := v.(type) {
	case zeroMark:
		return lconst(0)
	case *memVal:
		return latom(b.atom(aVal, v))
	case ssa.Value:
		return b.linOf(v)
	}
	return badLin
}

// linOf: the linear form of an integer value.
func (b *bp) linOf(v ssa.Value) lin {
	if c, ok := v.(*ssa.Const); ok {
		if n, ok := constInt(c); ok {
			return lconst(n)
		}
		return badLin
	}
	if x, ok := b.linMemo[v]; ok {
		return x
	}
	if b.busy[v] {
		return latom(b.atom(aVal, v))
	}
	b.busy[v] = true
	saved, n := b.assume, b.nAssume // the form must not depend on induction hypotheses
	b.assume, b.nAssume = map[*ssa.BasicBlock][]lin{}, 0
	fuel := b.fuel
	b.fuel = 1000 // of its own
	x := b.lin1(v)
	b.assume, b.nAssume, b.fuel = saved, n, fuel
	delete(b.busy, v)
	b.linMemo[v] = x
	return x
}

func (b *bp) lin1(v ssa.Value) lin {
	self := latom(b.atom(aVal, v))
	in, ok := v.(ssa.Instruction)
	if !ok || !isInt(v.Type()) {
		return self
	}
	blk := in.Block()
	switch v := v.(type) {
	case *ssa.BinOp:
		var x lin
		l, r := b.linOf(v.X), b.linOf(v.Y)
		switch v.Op {
		case token.ADD:
			x = l.add(r)
		case token.SUB:
			x = l.sub(r)
		case token.MUL:
			if l.isConst() {
				x = r.scale(l.c)
			} else if r.isConst() {
				x = l.scale(r.c)
			} else {
				return self
			}
		case token.SHL:
			if r.isConst() && 0 <= r.c && r.c < 62 {
				x = l.scale(int64(1) << uint(r.c))
			} else {
				return self
			}
		case token.QUO:
			if l.isConst() && r.isConst() && r.c != 0 {
				return lconst(l.c / r.c)
			}
			return self
		default:
			return self
		}
		if x.bad {
			return self
		}
		if wide(v.Type()) && (v.Op == token.ADD || v.Op == token.SUB) {
			// 64-bit counters: one operand is small, so overflow needs an infeasible number of steps
			small := func(y lin) bool {
				lo, hi, hl, hh := b.interval(y)
				return hl && hh && -maxLen <= lo && hi <= maxLen
			}
			if small(l) || small(r) {
				return x
			}
		}
		if b.fits(x, v.Type(), blk) {
			return x
		}
		return self
	case *ssa.UnOp:
		if v.Op == token.SUB {
			x := b.linOf(v.X).scale(-1)
			if b.fits(x, v.Type(), blk) {
				return x
			}
			return self
		}
		if v.Op == token.MUL {
			c := b.canonAny(v)
			if c != any(v) {
				return b.linAny(c, v.Type())
			}
		}
		return self
	case *ssa.Field:
		if c := b.canonAny(v); c != any(v) {
			return b.linAny(c, v.Type())
		}
	case *ssa.ChangeType:
		return b.linOf(v.X)
	case *ssa.Convert:
		if !isInt(v.X.Type()) {
			return self
		}
		x := b.linOf(v.X)
		if b.fitsFrom(x, v.X.Type(), v.Type(), blk) {
			return x
		}
		return self
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len":
				return b.lenOf(v.Call.Args[0])
			}
			return self
		}
		if f := v.Call.StaticCallee(); f != nil {
			if x, ok := b.inlineResult(v, f); ok {
				return x
			}
		}
		return self
	case *ssa.Phi:
		if c := b.canonAny(v); c != any(v) {
			return b.linAny(c, v.Type())
		}
		var one *lin
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			x := b.linOf(e)
			if one == nil {
				one = &x
			} else if !one.equal(x) {
				return self
			}
		}
		if one != nil && !one.bad && b.availAll(*one, blk) {
			return *one
		}
	}
	return self
}

// fitsFrom: like fits, with the range of the source type known.
func (b *bp) fitsFrom(x lin, from, to types.Type, blk *ssa.BasicBlock) bool {
	flo, fhi, fl, fh := typeRange(from)
	tlo, thi, tl, th := typeRange(to)
	if wide(from) && wide(to) {
		return true
	}
	if bt, ok := from.Underlying().(*types.Basic); ok {
		if bt2, ok2 := to.Underlying().(*types.Basic); ok2 && bt.Kind() == bt2.Kind() {
			return true
		}
	}
	if fl && fh {
		if wide(to) {
			return true
		}
		if (!tl || tlo <= flo) && (!th || fhi <= thi) && (th || tlo <= flo) {
			return true
		}
	}
	if wide(from) && tl && !th { // int -> uint64: needs to be non-negative
		lo, _, hl, _ := b.interval(x)
		return hl && lo >= 0 || b.prove(x, blk, 3)
	}
	if wide(to) && !fh && fl { // uint64 -> int
		_, hi, _, hh := b.interval(x)
		_ = hi
		return hh
	}
	return b.fits(x, to, blk)
}

// inlineResult: the result of a function with one return whose value is a linear
// form of the parameters and of the fields of parameters.
func (b *bp) inlineResult(c *ssa.Call, f *ssa.Function) (lin, bool) {
	if pp := fnPkgPath(f); pp != fontPath && pp != cmdPath {
		return lin{}, false
	}
	if len(f.Blocks) != 1 || f.Signature.Results().Len() != 1 {
		return lin{}, false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || !isInt(ret.Results[0].Type()) {
		return lin{}, false
	}
	return b.toCaller(b.linOf(ret.Results[0]), f, c)
}

// toCaller rewrites a form over the entry state of f to the state before call c.
func (b *bp) toCaller(x lin, f *ssa.Function, c ssa.CallInstruction) (lin, bool) {
	if x.bad {
		return x, false
	}
	r := lconst(x.c)
	for _, a := range x.atoms() {
		y, ok := b.atomToCaller(a, f, c)
		if !ok {
			return lin{}, false
		}
		r = r.addScaled(y, x.m[a])
	}
	return r, !r.bad
}

func (b *bp) valToCaller(v any, f *ssa.Function, c ssa.CallInstruction) (any, types.Type, bool) {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, q := range f.Params {
			if q == v && i < len(c.Common().Args) {
				w := c.Common().Args[i]
				return b.canonAny(w), w.Type(), true
			}
		}
	case *ssa.FreeVar:
		return nil, nil, false
	case ssa.Value:
		if in, ok := v.(ssa.Instruction); ok && in.Parent() != f {
			return v, v.Type(), true // of an enclosing function
		}
	case *memVal:
		if v.fn != f {
			return v, v.loc.typ, true
		}
		if v.kind != mEntry {
			return nil, nil, false
		}
		base, _, ok := b.valToCaller(v.key.base, f, c)
		if !ok {
			if _, isG := v.key.base.(*ssa.Global); !isG {
				return nil, nil, false
			}
			base = v.key.base
		}
		if _, z := base.(zeroMark); z {
			return nil, nil, false
		}
		l := b.loc(c.Parent(), memKey{base, v.key.path}, v.loc.fields, v.loc.typ)
		return b.memAt(l, c), v.loc.typ, true
	}
	return nil, nil, false
}

func (b *bp) atomToCaller(a int, f *ssa.Function, c ssa.CallInstruction) (lin, bool) {
	k := b.atoms[a]
	v, t, ok := b.valToCaller(k.v, f, c)
	if !ok {
		return lin{}, false
	}
	switch k.kind {
	case aVal:
		return b.linAny(v, t), true
	case aLen:
		return b.lenAny(v), true
	}
	return lin{}, false
}

func (b *bp) lenAny(v any) lin {
	switch v := v.(type) {
	case zeroMark:
		return lconst(0)
	case *memVal:
		if at, ok := arrayLen(v.loc.typ); ok {
			return lconst(at)
		}
		return latom(b.atom(aLen, v))
	case ssa.Value:
		return b.lenOf(v)
	}
	return badLin
}

func arrayLen(t types.Type) (int64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Len(), true
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Len(), true
		}
	}
	return 0, false
}

// lenOf: the length of a slice, string, array or map value.
func (b *bp) lenOf(v ssa.Value) lin {
	if n, ok := arrayLen(v.Type()); ok {
		return lconst(n)
	}
	if x, ok := b.lenMemo[v]; ok {
		return x
	}
	self := latom(b.atom(aLen, v))
	b.lenMemo[v] = self // for cycles
	x := b.len1(v, self)
	b.lenMemo[v] = x
	return x
}

func (b *bp) len1(v ssa.Value, self lin) lin {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return lconst(0)
		}
		if v.Value.Kind() == constant.String {
			return lconst(int64(len(constant.StringVal(v.Value))))
		}
	case *ssa.MakeSlice:
		x := b.linOf(v.Len)
		if x.bad {
			return self
		}
		return x
	case *ssa.Slice:
		var lo, hi lin
		if v.Low != nil {
			lo = b.linOf(v.Low)
		}
		if v.High != nil {
			hi = b.linOf(v.High)
		} else {
			hi = b.lenOf(v.X)
		}
		if x := hi.sub(lo); !x.bad {
			return x
		}
	case *ssa.Convert:
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok || isString(v.X.Type()) {
			if isBytes(v.X.Type()) || isBytes(v.Type()) || isString(v.Type()) && isString(v.X.Type()) {
				return b.lenOf(v.X)
			}
		}
	case *ssa.ChangeType:
		return b.lenOf(v.X)
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			x := b.lenOf(v.Call.Args[0])
			if len(v.Call.Args) > 1 {
				x = x.add(b.lenOf(v.Call.Args[1]))
			}
			if !x.bad {
				return x
			}
		}
		if n, ok := extLen(&v.Call); ok {
			return b.lenOf(n)
		}
	case *ssa.BinOp:
		if v.Op == token.ADD && isString(v.Type()) {
			if x := b.lenOf(v.X).add(b.lenOf(v.Y)); !x.bad {
				return x
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if c := b.canonAny(v); c != any(v) {
				return b.lenAny(c)
			}
		}
	case *ssa.Field:
		if c := b.canonAny(v); c != any(v) {
			return b.lenAny(c)
		}
	case *ssa.Phi:
		if c := b.canonAny(v); c != any(v) {
			return b.lenAny(c)
		}
		var one *lin
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			x := b.lenOf(e)
			if one == nil {
				one = &x
			} else if !one.equal(x) {
				return self
			}
		}
		if one != nil && !one.bad && b.availAll(*one, v.Block()) {
			return *one
		}
	}
	return self
}

func isString(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsString != 0
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	bt, ok := s.Elem().Underlying().(*types.Basic)
	return ok && bt.Kind() == types.Uint8
}

// extLen: library functions whose result is as long as an argument.
func extLen(c *ssa.CallCommon) (ssa.Value, bool) {
	switch calleeName(c) {
	case "strings.ToLower", "strings.ToUpper": // not for all Unicode text
		return nil, false
	case "slices.Clone", "bytes.Clone":
		return c.Args[0], true
	}
	return nil, false
}

// ---- availability ----

func (b *bp) defBlock(v any) (*ssa.BasicBlock, *ssa.Function) {
	switch v := v.(type) {
	case *ssa.Parameter:
		return nil, v.Parent()
	case *ssa.FreeVar:
		return nil, v.Parent()
	case *memVal:
		bb, f := b.defBlock(v.key.base)
		if f == nil {
			f = v.fn
		}
		if v.block != nil && (bb == nil || f == v.fn && bb.Dominates(v.block)) {
			return v.block, v.fn
		}
		if f != v.fn {
			return v.block, v.fn
		}
		return bb, v.fn
	case ssa.Instruction:
		return v.Block(), v.Parent()
	}
	return nil, nil
}

// avail: the atom is defined on entry to blk (phis of blk included).
func (b *bp) avail(a int, blk *ssa.BasicBlock) bool {
	v := b.atoms[a].v
	d, f := b.defBlock(v)
	if f != nil && f != blk.Parent() {
		return true // enclosing function
	}
	if d == nil {
		return true
	}
	if d == blk {
		switch v := v.(type) {
		case *ssa.Phi:
			return true
		case *memVal:
			return v.kind == mPhi && v.block == blk
		}
		return false
	}
	return d.Dominates(blk)
}

func (b *bp) availAll(x lin, blk *ssa.BasicBlock) bool {
	for _, a := range x.atoms() {
		if !b.avail(a, blk) {
			return false
		}
	}
	return true
}

// atEdge rewrites x, valid on entry to j, for the end of its predecessor number i.
func (b *bp) atEdge(x lin, j *ssa.BasicBlock, i int) (lin, bool) {
	r := lconst(x.c)
	for _, a := range x.atoms() {
		y := latom(a)
		k := b.atoms[a]
		switch v := k.v.(type) {
		case *ssa.Phi:
			if v.Block() == j {
				e := v.Edges[i]
				if k.kind == aLen {
					y = b.lenOf(e)
				} else if k.kind == aVal {
					y = b.linOf(e)
				} else {
					return lin{}, false
				}
			}
		case *memVal:
			if v.kind == mPhi && v.block == j {
				c := b.memOut(v.loc, j.Preds[i])
				if k.kind == aLen {
					y = b.lenAny(c)
				} else if k.kind == aVal {
					y = b.linAny(c, v.loc.typ)
				} else {
					return lin{}, false
				}
			}
		}
		if y.bad {
			return lin{}, false
		}
		r = r.addScaled(y, x.m[a])
	}
	return r, !r.bad
}

// ---- facts ----

type factSet struct {
	ge []lin // >= 0
	ne []lin // != 0
}

func (b *bp) cond(v ssa.Value, pol bool, fs *factSet, depth int) {
	if depth > 6 {
		return
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			b.cond(v.X, !pol, fs, depth+1)
		}
	case *ssa.Phi:
		// a short-circuit value: find the only edge it can have come from
		var alive []int
		for i, e := range v.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != pol {
				continue
			}
			alive = append(alive, i)
		}
		if len(alive) == 1 {
			i := alive[0]
			b.cond(v.Edges[i], pol, fs, depth+1)
			p := v.Block().Preds[i]
			if p != v.Block().Idom() {
				b.domFacts(p, v.Block().Idom(), fs)
			}
			b.edgeCond(p, v.Block(), fs)
		}
	case *ssa.BinOp:
		op := v.Op
		if !pol {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			default:
				return
			}
		}
		if !isInt(v.X.Type()) {
			if x, eq, ok := nilTest(v); ok {
				if !pol {
					eq = !eq
				}
				b.nilFact(x, eq, fs)
			} else if isString(v.X.Type()) && op == token.EQL {
				d := b.lenOf(v.X).sub(b.lenOf(v.Y))
				if !d.bad {
					fs.ge = append(fs.ge, d, d.scale(-1))
				}
			} else if isString(v.X.Type()) && op == token.NEQ {
				// x != "" has a length
				for _, xy := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
					if c, ok := xy[1].(*ssa.Const); ok && c.Value != nil && constant.StringVal(c.Value) == "" {
						fs.ge = append(fs.ge, b.lenOf(xy[0]).plus(-1))
					}
				}
			}
			return
		}
		x, y := b.linOf(v.X), b.linOf(v.Y)
		d := x.sub(y)
		if d.bad {
			return
		}
		switch op {
		case token.LSS:
			fs.ge = append(fs.ge, d.scale(-1).plus(-1))
		case token.LEQ:
			fs.ge = append(fs.ge, d.scale(-1))
		case token.GTR:
			fs.ge = append(fs.ge, d.plus(-1))
		case token.GEQ:
			fs.ge = append(fs.ge, d)
		case token.EQL:
			fs.ge = append(fs.ge, d, d.scale(-1))
			// x&c == k etc. say nothing more
		case token.NEQ:
			fs.ne = append(fs.ne, d)
		}
	}
}

// nilFact: x == nil (eq) or x != nil.
func (b *bp) nilFact(x ssa.Value, eq bool, fs *factSet) {
	if isErr(x.Type()) {
		if eq {
			b.successFacts(x, fs)
		}
		return
	}
	if _, ok := x.Type().Underlying().(*types.Slice); ok && eq {
		l := b.lenOf(x)
		fs.ge = append(fs.ge, l.scale(-1))
	}
}

// edgeCond adds the condition under which control goes from p to j.
func (b *bp) edgeCond(p, j *ssa.BasicBlock, fs *factSet) {
	if len(p.Instrs) == 0 {
		return
	}
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return
	}
	b.cond(iff.Cond, p.Succs[0] == j, fs, 0)
}

// domFacts collects the conditions that hold on entry to blk, up to (not including) stop.
func (b *bp) domFacts(blk, stop *ssa.BasicBlock, fs *factSet) {
	for d := blk; d != nil && d != stop; d = d.Idom() {
		fs.ge = append(fs.ge, b.assume[d]...)
		if len(d.Preds) == 1 {
			b.edgeCond(d.Preds[0], d, fs)
		}
	}
}

// atomFacts: what is known about an atom by its definition.
func (b *bp) atomFacts(a int, fs *factSet) {
	self := latom(a)
	lo, hi, hl, hh := b.atomRange(a)
	if hl {
		fs.ge = append(fs.ge, self.plus(-lo))
	}
	if hh {
		fs.ge = append(fs.ge, lconst(hi).sub(self))
	}
	k := b.atoms[a]
	if m, ok := k.v.(*memVal); ok && m.kind == mKill {
		b.killFacts(m, k.kind, self, fs)
		return
	}
	v, ok := k.v.(ssa.Value)
	if !ok {
		return
	}
	if k.kind == aLen {
		switch v := v.(type) {
		case *ssa.Call:
			b.callFacts(v, 0, a, fs)
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				b.callFacts(c, v.Index, a, fs)
			}
		}
		return
	}
	if k.kind != aVal {
		return
	}
	nonneg := func(x lin, blk *ssa.BasicBlock) bool {
		lo, _, hl, _ := b.interval(x)
		return hl && lo >= 0 || b.prove(x, blk, 2)
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		x, y := b.linOf(v.X), b.linOf(v.Y)
		switch v.Op {
		case token.AND:
			if nonneg(x, v.Block()) && !x.bad {
				fs.ge = append(fs.ge, x.sub(self), self)
			}
			if nonneg(y, v.Block()) && !y.bad {
				fs.ge = append(fs.ge, y.sub(self), self)
			}
		case token.OR, token.XOR:
			if nonneg(x, v.Block()) && nonneg(y, v.Block()) {
				fs.ge = append(fs.ge, x.add(y).sub(self), self)
				if v.Op == token.OR {
					fs.ge = append(fs.ge, self.sub(x), self.sub(y))
				}
			}
		case token.REM:
			if nonneg(x, v.Block()) {
				fs.ge = append(fs.ge, self, x.sub(self))
				if nonneg(y, v.Block()) {
					fs.ge = append(fs.ge, y.sub(self).plus(-1))
				}
			}
		case token.QUO, token.SHR:
			d := y
			if v.Op == token.SHR {
				if !y.isConst() || y.c < 0 || y.c > 61 {
					if nonneg(x, v.Block()) {
						fs.ge = append(fs.ge, self, x.sub(self))
					}
					return
				}
				d = lconst(int64(1) << uint(y.c))
			}
			if d.isConst() && d.c > 0 && nonneg(x, v.Block()) {
				fs.ge = append(fs.ge, x.sub(self.scale(d.c)), self.scale(d.c).plus(d.c-1).sub(x))
			} else if nonneg(x, v.Block()) && nonneg(y, v.Block()) {
				fs.ge = append(fs.ge, self, x.sub(self))
			}
		case token.SUB:
			// wrapped: nothing
		case token.MUL:
			// x*y with y >= 1 and x >= 0, when it does not overflow
			if wide(v.Type()) && nonneg(x, v.Block()) && nonneg(y, v.Block()) {
				_, xh, _, xhh := b.interval(x)
				_, yh, _, yhh := b.interval(y)
				if xhh && yhh {
					if t, ov := mulOv(xh, yh); !ov {
						fs.ge = append(fs.ge, self, lconst(t).sub(self))
					}
				}
			}
		}
	case *ssa.Convert:
		if isInt(v.X.Type()) {
			x := b.linOf(v.X)
			if lo, _, hl, _ := typeRange(v.Type()); hl && lo == 0 && !x.bad && nonneg(x, v.Block()) {
				fs.ge = append(fs.ge, x.sub(self)) // truncation only removes
			}
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "min":
				for _, y := range v.Call.Args {
					fs.ge = append(fs.ge, b.linOf(y).sub(self))
				}
			case "max":
				for _, y := range v.Call.Args {
					fs.ge = append(fs.ge, self.sub(b.linOf(y)))
				}
			case "cap":
				fs.ge = append(fs.ge, self.sub(b.lenOf(v.Call.Args[0])))
			case "copy":
				fs.ge = append(fs.ge, self, b.lenOf(v.Call.Args[0]).sub(self), b.lenOf(v.Call.Args[1]).sub(self))
			}
			return
		}
		b.callFacts(v, 0, a, fs)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			b.callFacts(t, v.Index, a, fs)
		case *ssa.Next:
			// index of a string iteration
			if t.IsString && v.Index == 1 {
				if rg, ok := t.Iter.(*ssa.Range); ok {
					fs.ge = append(fs.ge, self, b.lenOf(rg.X).sub(self).plus(-1))
				}
			}
		}
	case *ssa.Phi:
		b.phiFacts(v, a, fs)
	}
}

// phiFacts: an induction variable stays above its start when it only grows, and
// the reverse.
func (b *bp) phiFacts(v *ssa.Phi, a int, fs *factSet) {
	j := v.Block()
	up, down := true, true
	var init *lin
	single := true
	for i, e := range v.Edges {
		if e == v {
			continue
		}
		if j.Dominates(j.Preds[i]) {
			x := b.linOf(e)
			d := x.sub(latom(a))
			if d.isConst() {
				up = up && d.c >= 0
				down = down && d.c <= 0
				continue
			}
			lo, hi, hl, hh := b.interval(d)
			up = up && !d.bad && hl && lo >= 0
			down = down && !d.bad && hh && hi <= 0
		} else {
			x := b.linOf(e)
			if init != nil && !init.equal(x) {
				single = false
			}
			init = &x
		}
	}
	if init == nil || !single || init.bad || up == down || !b.availAll(*init, j) {
		return
	}
	if up {
		fs.ge = append(fs.ge, latom(a).sub(*init))
	} else {
		fs.ge = append(fs.ge, init.sub(latom(a)))
	}
}

// ---- proving ----

// prove: x >= 0 on every arrival in blk.
func (b *bp) prove(x lin, blk *ssa.BasicBlock, depth int) bool {
	if x.bad {
		return false
	}
	if x.isConst() {
		return x.c >= 0
	}
	if lo, _, hl, _ := b.interval(x); hl && lo >= 0 {
		return true
	}
	if depth <= 0 {
		return b.direct(x, blk, nil)
	}
	key := ""
	if b.nAssume == 0 {
		key = fmt.Sprintf("%p/%d/%d/%s", blk.Parent(), blk.Index, depth, x.key())
		if r, ok := b.memo[key]; ok {
			if b.open[key] {
				b.openHits++
			}
			return r
		}
		b.memo[key], b.open[key] = false, true
	}
	r, hits := false, b.openHits
	if b.fuel <= 0 {
		b.openHits++
	} else {
		b.fuel--
		r = b.direct(x, blk, nil) || b.split(x, blk, depth)
	}
	if key != "" {
		delete(b.open, key)
		if b.memo[key] = r; !r && hits != b.openHits {
			delete(b.memo, key) // may be provable where the question is not open
		}
	}
	return r
}

// proveEdge: x >= 0 whenever control goes from p to j.
func (b *bp) proveEdge(x lin, p, j *ssa.BasicBlock, depth int) bool {
	if x.isConst() && x.c >= 0 {
		return true
	}
	var fs factSet
	b.edgeCond(p, j, &fs)
	if b.direct(x, p, &fs) {
		return true
	}
	return b.splitWith(x, p, depth, &fs)
}

func (b *bp) direct(x lin, blk *ssa.BasicBlock, extra *factSet) bool {
	var fs factSet
	if extra != nil {
		fs.ge = append(fs.ge, extra.ge...)
		fs.ne = append(fs.ne, extra.ne...)
	}
	b.domFacts(blk, nil, &fs)
	return b.entails(fs, x)
}

// entails selects the facts that matter for x and asks for infeasibility of their conjunction with x < 0.
func (b *bp) entails(fs factSet, x lin) bool {
	if x.bad {
		return false
	}
	rel := map[int]bool{}
	var todo []int
	addAtoms := func(y lin) {
		for _, a := range y.atoms() {
			if !rel[a] {
				rel[a] = true
				todo = append(todo, a)
			}
		}
	}
	addAtoms(x)
	used := make([]bool, len(fs.ge))
	usedNe := make([]bool, len(fs.ne))
	cs := []lin{x.scale(-1).plus(-1)}
	var nes []lin
	for round := 0; round < 4; round++ {
		// definitions of the new atoms
		var defs factSet
		for len(todo) > 0 {
			a := todo[0]
			todo = todo[1:]
			b.atomFacts(a, &defs)
		}
		for _, y := range defs.ge {
			if !y.bad {
				cs = append(cs, y)
			}
		}
		before := len(cs)
		for i, y := range fs.ge {
			if used[i] || y.bad {
				continue
			}
			touch := false
			for a := range y.m {
				touch = touch || rel[a]
			}
			if touch || len(y.m) == 0 {
				used[i] = true
				cs = append(cs, y)
			}
		}
		for i, y := range fs.ne {
			if usedNe[i] || y.bad {
				continue
			}
			touch := false
			for a := range y.m {
				touch = touch || rel[a]
			}
			if touch || len(y.m) == 0 {
				usedNe[i] = true
				nes = append(nes, y)
			}
		}
		for _, y := range cs[before:] {
			addAtoms(y)
		}
		for _, y := range defs.ge {
			if !y.bad {
				addAtoms(y)
			}
		}
		if len(todo) == 0 || len(cs) > 80 {
			break
		}
	}
	var defs factSet
	for _, a := range todo {
		b.simpleFacts(a, &defs)
	}
	cs = append(cs, defs.ge...)
	if infeasible(cs) {
		return true
	}
	// use x != 0 where one side is excluded
	if len(nes) > 0 && len(nes) < 12 {
		changed := false
		for _, n := range nes {
			switch {
			case n.isConst():
				if n.c == 0 {
					return true
				}
			case infeasible(append(append([]lin{}, cs...), n.plus(-1))): // n <= 0
				cs = append(cs, n.scale(-1).plus(-1))
				changed = true
			case infeasible(append(append([]lin{}, cs...), n.scale(-1).plus(-1))): // n >= 0
				cs = append(cs, n.plus(-1))
				changed = true
			}
		}
		return changed && infeasible(cs)
	}
	return false
}

func (b *bp) simpleFacts(a int, fs *factSet) {
	self := latom(a)
	lo, hi, hl, hh := b.atomRange(a)
	if hl {
		fs.ge = append(fs.ge, self.plus(-lo))
	}
	if hh {
		fs.ge = append(fs.ge, lconst(hi).sub(self))
	}
}

func (b *bp) split(x lin, blk *ssa.BasicBlock, depth int) bool {
	return b.splitWith(x, blk, depth, nil)
}

// splitWith goes up the dominator tree to joins and loop heads and proves x there on every incoming edge; at the entry the callers are asked.
func (b *bp) splitWith(x lin, blk *ssa.BasicBlock, depth int, extra *factSet) bool {
	if depth <= 0 {
		return false
	}
	tried := 0
	for j := blk; j != nil; j = j.Idom() {
		if !b.availAll(x, j) {
			return false
		}
		if len(j.Preds) >= 2 {
			// only worthwhile when a phi of j or a condition above matters
			if b.overEdges(x, j, depth-1) {
				return true
			}
			if tried++; tried >= 4 {
				break
			}
		}
	}
	if b.availAll(x, blk.Parent().Blocks[0]) {
		return b.atCallers(x, blk.Parent(), depth-1)
	}
	return false
}

func (b *bp) overEdges(x lin, j *ssa.BasicBlock, depth int) bool {
	back := false
	for _, p := range j.Preds {
		back = back || j.Dominates(p)
	}
	for _, y := range b.assume[j] {
		if y.equal(x) {
			return true
		}
	}
	if back && len(b.assume[j]) >= 3 {
		return false
	}
	// entry edges first
	for i, p := range j.Preds {
		if j.Dominates(p) {
			continue
		}
		y, ok := b.atEdge(x, j, i)
		if !ok || !b.proveEdge(y, p, j, depth) {
			return false
		}
	}
	if !back {
		return true
	}
	old := b.assume[j]
	b.assume[j] = append(append([]lin{}, old...), x)
	b.nAssume++
	defer func() { b.assume[j] = old; b.nAssume-- }()
	for i, p := range j.Preds {
		if !j.Dominates(p) {
			continue
		}
		y, ok := b.atEdge(x, j, i)
		if !ok || !b.proveEdge(y, p, j, depth) {
			return false
		}
	}
	return true
}

// atCallers: x holds on entry to f because it holds at every call.
func (b *bp) atCallers(x lin, f *ssa.Function, depth int) bool {
	if depth <= 0 || b.roots[f] || b.addrUse[f] {
		return false
	}
	// forms of the enclosing function hold where the closure is made
	if mcs := b.closers[f]; len(mcs) > 0 {
		for _, a := range x.atoms() {
			if _, fn := b.defBlock(b.atoms[a].v); fn == f {
				if b.closureOnlyCalled(f) == nil {
					return false
				}
			}
		}
		own := false
		for _, a := range x.atoms() {
			if _, fn := b.defBlock(b.atoms[a].v); fn == f {
				own = true
			}
		}
		if !own {
			for _, mc := range mcs {
				if !b.prove(x, mc.Block(), depth) {
					return false
				}
			}
			return true
		}
		for _, c := range b.closureOnlyCalled(f) {
			y, ok := b.toCaller(x, f, c)
			if !ok || !b.prove(y, c.Block(), depth) {
				return false
			}
		}
		return true
	}
	cs := b.callers[f]
	if len(cs) == 0 {
		return false
	}
	// assumptions of blocks do not hold in other functions' activations
	saved, n := b.assume, b.nAssume
	if n > 0 {
		b.assume, b.nAssume = map[*ssa.BasicBlock][]lin{}, 0
		defer func() { b.assume, b.nAssume = saved, n }()
	}
	for _, c := range cs {
		y, ok := b.toCaller(x, f, c)
		if !ok {
			return false
		}
		if !b.prove(y, c.Block(), depth) {
			return false
		}
	}
	return true
}

// closureOnlyCalled: the calls of a closure that is kept in one local variable and only called.
func (b *bp) closureOnlyCalled(f *ssa.Function) []ssa.CallInstruction {
	mcs := b.closers[f]
	if len(mcs) != 1 {
		return nil
	}
	var calls []ssa.CallInstruction
	for _, u := range realRefs(mcs[0]) {
		ci, ok := u.(ssa.CallInstruction)
		if !ok || ci.Common().Value != ssa.Value(mcs[0]) {
			return nil
		}
		calls = append(calls, ci)
	}
	return calls
}

// ---- function results ----

// sumFact is an inequality between a result (as the pseudo atom -1) and entry values of the callee.
type sumFact struct {
	x       lin // over callee entry atoms; coefficient of the result in k
	k       int64
	success bool // only when the error result is nil
}

func (b *bp) successFacts(errv ssa.Value, fs *factSet) {
	ex, ok := errv.(*ssa.Extract)
	if !ok {
		return
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return
	}
	for _, u := range realRefs(c) {
		e2, ok := u.(*ssa.Extract)
		if !ok || e2.Index == ex.Index {
			continue
		}
		if isInt(e2.Type()) {
			b.resultFacts(c, e2.Index, latom(b.atom(aVal, e2)), true, fs)
		} else if hasLen(e2.Type()) {
			b.resultFacts(c, e2.Index, b.lenOf(e2), true, fs)
		}
	}
}

func hasLen(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return isString(t)
}

func (b *bp) callFacts(c *ssa.Call, idx, a int, fs *factSet) {
	b.resultFacts(c, idx, latom(a), false, fs)
	b.extFacts(c, idx, latom(a), fs)
}

// parsesDigits: a function of the companion module that gives a number and the count of bytes it took.
func parsesDigits(c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "github.com/tdewolff/parse/v2/strconv.ParseInt", "github.com/tdewolff/parse/v2/strconv.ParseUint", "github.com/tdewolff/parse/v2/strconv.ParseDecimal", "github.com/tdewolff/parse/v2/strconv.ParseFloat":
		return true
	}
	return false
}

// extFacts: results of library functions.
func (b *bp) extFacts(c *ssa.Call, idx int, self lin, fs *factSet) {
	args := c.Call.Args
	if idx == 1 && parsesDigits(&c.Call) {
		fs.ge = append(fs.ge, self, b.lenOf(args[0]).sub(self))
	}
	switch calleeName(&c.Call) {
	case "strings.Index", "strings.IndexByte", "strings.LastIndexByte", "bytes.IndexByte", "strings.IndexRune":
		fs.ge = append(fs.ge, self.plus(1), b.lenOf(args[0]).sub(self).plus(-1))
		if calleeName(&c.Call) == "strings.Index" {
			fs.ge = fs.ge[:len(fs.ge)-1]
			fs.ge = append(fs.ge, b.lenOf(args[0]).sub(self))
		}
	case "sort.Search":
		fs.ge = append(fs.ge, self, b.linOf(args[0]).sub(self))
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		if idx == 1 {
			fs.ge = append(fs.ge, self, b.lenOf(args[0]).sub(self), lconst(4).sub(self))
		}
	case "math/bits.Len", "math/bits.Len32", "math/bits.Len64", "math/bits.TrailingZeros32", "math/bits.OnesCount32":
		fs.ge = append(fs.ge, self, lconst(64).sub(self))
	case "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight":
		fs.ge = append(fs.ge, b.lenOf(args[0]).sub(self))
	}
}

func (b *bp) resultFacts(c *ssa.Call, idx int, res lin, success bool, fs *factSet) {
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	if pp := fnPkgPath(f); pp != fontPath && pp != cmdPath {
		return
	}
	for _, s := range b.summary(f, idx, success) {
		y, ok := b.toCaller(s.x, f, c)
		if ok {
			fs.ge = append(fs.ge, y.addScaled(res, s.k))
		}
	}
}

type sumEntry struct {
	facts []sumFact
	depth int
	cut   bool
}

// summary: inequalities between result idx of f and its parameters, on all (or all successful) returns.
func (b *bp) summary(f *ssa.Function, idx int, success bool) []sumFact {
	key := fmt.Sprintf("%p/%d/%v", f, idx, success)
	// what was found where the depth was cut is found again where there is more room: the order of the
	// questions does not matter
	depth := len(b.sumBusy)
	if s, ok := b.sumMemo[key]; ok && (!s.cut || s.depth <= depth) {
		if s.cut {
			b.sumCuts++
		}
		return s.facts
	}
	if b.sumBusy[key] || depth > 6 {
		b.sumCuts++
		return nil
	}
	cuts, fuel := b.sumCuts, b.fuel
	b.fuel = 3000 // of its own: what is found does not depend on who asks
	defer func() { b.fuel = fuel }()
	b.sumBusy[key] = true
	defer delete(b.sumBusy, key)
	saved, n := b.assume, b.nAssume
	b.assume, b.nAssume = map[*ssa.BasicBlock][]lin{}, 0
	defer func() { b.assume, b.nAssume = saved, n }()

	ei := errIndex(f.Signature)
	type rv struct {
		x   lin
		blk *ssa.BasicBlock
	}
	var rets []rv
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if success && ei >= 0 && nonNilErr(ret.Results[ei], blk, map[ssa.Value]bool{}, 0) {
			continue
		}
		v := ret.Results[idx]
		if isInt(v.Type()) {
			rets = append(rets, rv{b.linOf(v), blk})
		} else {
			rets = append(rets, rv{b.lenOf(v), blk})
		}
	}
	var out []sumFact
	if len(rets) > 0 && len(rets) <= 12 {
		all := func(x lin, k int64) bool {
			for _, r := range rets {
				g := x.addScaled(r.x, k)
				if !b.prove(g, r.blk, 3) {
					return false
				}
			}
			return true
		}
		var cands []lin // result >= cand, result <= cand
		consts := map[int64]bool{0: true, 1: true}
		for _, r := range rets {
			if r.x.isConst() {
				consts[r.x.c] = true
			}
		}
		var cl []int64
		for c := range consts {
			cl = append(cl, c)
		}
		sort.Slice(cl, func(i, j int) bool { return cl[i] < cl[j] })
		for i := len(cl) - 1; i >= 0; i-- { // the largest lower bound
			if all(lconst(-cl[i]), 1) {
				out = append(out, sumFact{x: lconst(-cl[i]), k: 1})
				break
			}
		}
		for _, c := range cl { // the smallest upper bound
			if all(lconst(c), -1) {
				out = append(out, sumFact{x: lconst(c), k: -1})
				break
			}
		}
		for _, q := range f.Params {
			if isInt(q.Type()) {
				cands = append(cands, b.linOf(q))
			} else if hasLen(q.Type()) {
				cands = append(cands, b.lenOf(q))
			}
		}
		// forms over entry values that one of the returns has
		for _, r := range rets {
			if !r.x.isConst() && !r.x.bad && b.availAll(r.x, f.Blocks[0]) && len(cands) < 10 {
				cands = append(cands, r.x, r.x.plus(1))
			}
		}
		seen := map[string]bool{}
		for _, x := range cands {
			if x.bad || x.isConst() || seen[x.key()] {
				continue
			}
			seen[x.key()] = true
			if all(x.scale(-1), 1) {
				out = append(out, sumFact{x: x.scale(-1), k: 1})
			}
			if all(x, -1) {
				out = append(out, sumFact{x: x, k: -1})
			}
		}
	}
	b.sumMemo[key] = sumEntry{out, depth, b.sumCuts != cuts}
	return out
}
