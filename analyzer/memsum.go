package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a call does to the length of a slice, or the value of an integer, that is
// kept in a field of an object it is given (a reader's remaining data).

type memCase struct {
	conds []lin // hold on entry of the function when this return is taken
	val   lin   // the content at the return, in terms of the entry state
	fails bool  // an error has been stored in the object
}

type memSumKey struct {
	f    *ssa.Function
	par  int
	path string
}

// argOf: the argument of the call that is the base of the location.
func (b *bp) argOf(c ssa.CallInstruction, base any) int {
	for i, a := range c.Common().Args {
		if b.canonAny(a) == base {
			return i
		}
	}
	return -1
}

func (b *bp) repoCallee(c ssa.CallInstruction) *ssa.Function {
	f := c.Common().StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	if pp := fnPkgPath(f); pp != fontPath && pp != cmdPath {
		return nil
	}
	return f
}

func (b *bp) content(v any, l *memLoc) lin {
	if hasLen(l.typ) {
		return b.lenAny(v)
	}
	return b.linAny(v, l.typ)
}

// neverGrows: every effect of f on the location leaves its length the same or shorter.
func (b *bp) neverGrows(f *ssa.Function, par int, l0 *memLoc) bool {
	key := memSumKey{f, par, l0.key.path}
	if r, ok := b.shrinks[key]; ok {
		return r
	}
	fuel := b.fuel
	b.fuel = 5000
	defer func() { b.fuel = fuel }()
	b.shrinks[key] = true // holds for recursive calls when it holds for the rest
	l := b.loc(f, memKey{f.Params[par], l0.key.path}, l0.fields, l0.typ)
	ok := hasLen(l.typ)
	for _, blk := range f.Blocks {
		for _, e := range l.affects[blk] {
			if !ok {
				break
			}
			before := b.memAt(l, e.at)
			if e.zero {
				ok = false
			} else if e.val != nil {
				d := b.content(before, l).sub(b.lenOf(e.val))
				ok = !d.bad && b.prove(d, blk, 2)
			} else if c, isCall := e.at.(ssa.CallInstruction); isCall {
				ok = b.callShrinks(c, l)
			} else {
				ok = false
			}
		}
	}
	b.shrinks[key] = ok
	return ok
}

// callShrinks: the call leaves the length at the location the same or shorter.
func (b *bp) callShrinks(c ssa.CallInstruction, l *memLoc) bool {
	i := b.argOf(c, l.key.base)
	if i < 0 {
		return false
	}
	if g := b.repoCallee(c); g != nil {
		return i < len(g.Params) && b.neverGrows(g, i, l)
	}
	gs := b.callbacks(c.Common().Value)
	for _, g := range gs {
		if i >= len(g.Params) || !b.neverGrows(g, i, l) {
			return false
		}
	}
	return len(gs) > 0
}

// memCases: the content of the location at each return of f.
func (b *bp) memCases(f *ssa.Function, par int, l0 *memLoc, depth int) []memCase {
	if depth > 4 {
		return nil
	}
	l := b.loc(f, memKey{f.Params[par], l0.key.path}, l0.fields, l0.typ)
	var out []memCase
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var fs factSet
		b.domFacts(blk, nil, &fs)
		var conds []lin
		for _, x := range fs.ge {
			if b.entryOnly(x, f) {
				conds = append(conds, x)
			}
		}
		fails := b.storesErr(f.Params[par], blk)
		v := b.memAt(l, ret)
		if m, isMem := v.(*memVal); isMem && m.kind == mKill {
			c, isCall := m.at.(ssa.CallInstruction)
			if !isCall {
				return nil
			}
			g := b.repoCallee(c)
			i := b.argOf(c, l.key.base)
			if g == nil || i < 0 {
				return nil
			}
			inner := b.memCases(g, i, l, depth+1)
			if inner == nil {
				return nil
			}
			for _, in := range inner {
				val, ok := b.toCaller(in.val, g, c)
				if !ok || !b.entryOnly(val, f) {
					return nil
				}
				mc := memCase{val: val, conds: conds, fails: fails || in.fails}
				for _, x := range in.conds {
					if y, ok := b.toCaller(x, g, c); ok && b.entryOnly(y, f) {
						mc.conds = append(append([]lin{}, mc.conds...), y)
					}
				}
				out = append(out, mc)
			}
			continue
		}
		val := b.content(v, l)
		if val.bad || !b.entryOnly(val, f) {
			return nil
		}
		out = append(out, memCase{conds, val, fails})
	}
	if len(out) > 8 {
		return nil
	}
	return out
}

// storesErr: an error was stored in a field of the object when the block is reached.
func (b *bp) storesErr(obj ssa.Value, blk *ssa.BasicBlock) bool {
	for d := blk; d != nil; d = d.Idom() {
		for _, in := range d.Instrs {
			if st, ok := in.(*ssa.Store); ok && isErr(st.Val.Type()) {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && b.canonAny(fa.X) == any(obj) && !isNilConst(st.Val) {
					return true
				}
			}
		}
	}
	return false
}

// entryOnly: the form speaks about the parameters and the memory on entry only.
func (b *bp) entryOnly(x lin, f *ssa.Function) bool {
	if x.bad {
		return false
	}
	for _, a := range x.atoms() {
		switch v := b.atoms[a].v.(type) {
		case *ssa.Parameter:
			if v.Parent() != f {
				return false
			}
		case *memVal:
			p, ok := v.key.base.(*ssa.Parameter)
			if v.kind != mEntry || !ok || p.Parent() != f {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// killFacts: how the content after a call relates to the content before.
func (b *bp) killFacts(v *memVal, kind akind, self lin, fs *factSet) {
	if (kind == aLen) != hasLen(v.loc.typ) || kind == aCap || strings.Count(v.key.path, ".") > 3 {
		return
	}
	if out, ok := b.killMemo[v]; ok {
		fs.ge = append(fs.ge, out...)
		return
	}
	c, ok := v.at.(ssa.CallInstruction)
	if !ok {
		return
	}
	par := b.argOf(c, v.key.base)
	if par < 0 {
		return
	}
	b.killMemo[v] = nil
	before := b.content(b.memAt(v.loc, c), v.loc)
	var out []lin
	if kind == aLen && !before.bad && b.callShrinks(c, v.loc) {
		out = append(out, before.sub(self))
		b.killMemo[v] = out
	}
	f := b.repoCallee(c)
	if f == nil || par >= len(f.Params) {
		fs.ge = append(fs.ge, out...)
		return
	}
	cases := b.memCases(f, par, v.loc, 0)
	type tc struct {
		val   lin
		extra factSet
	}
	var tcs []tc
	for _, mc := range cases {
		t := tc{}
		var ok bool
		if t.val, ok = b.toCaller(mc.val, f, c); !ok {
			tcs = nil
			break
		}
		for _, x := range mc.conds {
			if y, ok := b.toCaller(x, f, c); ok {
				t.extra.ge = append(t.extra.ge, y)
			}
		}
		tcs = append(tcs, t)
	}
	if len(tcs) > 0 {
		try := func(cand func(after lin) lin) {
			for i := range tcs {
				x := cand(tcs[i].val)
				if x.bad || !b.direct(x, c.Block(), &tcs[i].extra) {
					return
				}
			}
			out = append(out, cand(self))
		}
		for i := range tcs {
			if tcs[i].val.isConst() {
				continue
			}
			try(func(after lin) lin { return tcs[i].val.sub(after) })
			try(func(after lin) lin { return after.sub(tcs[i].val) })
		}
		try(func(after lin) lin { return before.sub(after).plus(-1) })
	}
	b.killMemo[v] = out
	fs.ge = append(fs.ge, out...)
}

// fresh: the value is an object that did not exist before it was computed.
func (b *bp) fresh(v any) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		f := b.repoCallee(v)
		return f != nil && f.Signature.Results().Len() == 1 && b.makes(f, 0)
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		f := b.repoCallee(c)
		return f != nil && b.makes(f, v.Index)
	}
	return false
}

// makes: result n of f is always an object that f has made, or nil.
func (b *bp) makes(f *ssa.Function, n int) bool {
	if _, ok := f.Signature.Results().At(n).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	key := memSumKey{f, n, "makes"}
	if r, ok := b.shrinks[key]; ok {
		return r
	}
	b.shrinks[key] = true
	var own func(v ssa.Value, d int) bool
	own = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Alloc:
			return true
		case *ssa.Call:
			g := b.repoCallee(v)
			return g != nil && g.Signature.Results().Len() == 1 && b.makes(g, 0)
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				g := b.repoCallee(c)
				return g != nil && b.makes(g, v.Index)
			}
		case *ssa.Phi:
			if d > 3 {
				return false
			}
			for _, e := range v.Edges {
				if e != ssa.Value(v) && !own(e, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	r := true
	for _, blk := range f.Blocks {
		if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			r = r && own(ret.Results[n], 0)
		}
	}
	b.shrinks[key] = r
	return r
}

// apart: the two bases are different objects.
func (b *bp) apart(x, y any) bool {
	if x == y {
		return false
	}
	if b.fresh(x) && b.fresh(y) {
		return true
	}
	// an object that no one else knows
	for _, p := range [][2]any{{x, y}, {y, x}} {
		if a, ok := p[0].(*ssa.Alloc); ok && !allocEscapes(a) {
			if _, isPhi := p[1].(*ssa.Phi); !isPhi {
				return true
			}
		}
	}
	return false
}

// touches: the call may change the field of the object.
func (b *bp) touches(f *ssa.Function, fr fieldRef, c *ssa.CallCommon, base any) bool {
	t := b.touchOf(f, fr)
	if t.any {
		return true
	}
	for i := range t.params {
		if i >= len(c.Args) {
			return true
		}
		if !b.apart(b.canonAny(c.Args[i]), base) {
			return true
		}
	}
	return false
}

type touch struct {
	params map[int]bool
	any    bool
}

// touchOf: through which of its parameters f changes the field of an object that existed before.
func (b *bp) touchOf(f *ssa.Function, fr fieldRef) *touch {
	m := b.touched[fr]
	if m == nil {
		m = map[*ssa.Function]*touch{}
		b.touched[fr] = m
	}
	if t := m[f]; t != nil {
		return t
	}
	// all functions that f reaches, until nothing changes
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if g == nil || seen[g] || len(g.Blocks) == 0 {
			return
		}
		if pp := fnPkgPath(g); pp != fontPath && pp != cmdPath {
			return
		}
		seen[g] = true
		if m[g] == nil {
			m[g] = &touch{params: map[int]bool{}}
			fns = append(fns, g)
		}
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				} else if ci, ok := in.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
			}
		}
	}
	visit(f)
	for changed := true; changed; {
		changed = false
		for _, g := range fns {
			t := m[g]
			add := func(base any) {
				switch v := base.(type) {
				case *ssa.Parameter:
					for i, p := range g.Params {
						if p == v && !t.params[i] {
							t.params[i] = true
							changed = true
						}
					}
					return
				}
				if b.fresh(base) {
					return
				}
				if !t.any {
					t.any = true
					changed = true
				}
			}
			for _, blk := range g.Blocks {
				for _, in := range blk.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						switch a := in.Addr.(type) {
						case *ssa.FieldAddr:
							if refOf(a) == fr {
								k, _, ok := b.addrKey(a)
								if !ok {
									add(nil)
								} else {
									add(k.base)
								}
							}
						case *ssa.Alloc:
						default:
							if structName(in.Addr.Type()) == fr.st {
								add(b.canonAny(in.Addr))
							}
						}
					case *ssa.MakeClosure:
						if tt := m[in.Fn.(*ssa.Function)]; tt != nil && (tt.any || len(tt.params) > 0) {
							add(nil)
						}
					case ssa.CallInstruction:
						if h := in.Common().StaticCallee(); h != nil && m[h] != nil {
							if m[h].any {
								add(nil)
							}
							for i := range m[h].params {
								if i < len(in.Common().Args) {
									add(b.canonAny(in.Common().Args[i]))
								} else {
									add(nil)
								}
							}
						}
					}
				}
			}
		}
	}
	return m[f]
}

// callbacks: the functions that a parameter of function type can stand for.
func (b *bp) callbacks(v ssa.Value) []*ssa.Function {
	p, ok := v.(*ssa.Parameter)
	if !ok {
		return nil
	}
	f := p.Parent()
	if b.roots[f] || b.addrUse[f] {
		return nil
	}
	n := -1
	for i, q := range f.Params {
		if q == p {
			n = i
		}
	}
	var out []*ssa.Function
	for _, c := range b.callers[f] {
		if n >= len(c.Common().Args) {
			return nil
		}
		switch a := c.Common().Args[n].(type) {
		case *ssa.MakeClosure:
			out = append(out, a.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, a)
		case *ssa.Const:
		default:
			return nil
		}
	}
	return out
}

// unshared: a new object that nothing but the function itself, and what it calls for as long as the call lasts, knows of.
func (b *bp) unshared(v any) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return b.kept(v, map[ssa.Value]bool{})
	case *ssa.Call:
		if !b.fresh(v) || !b.kept(v, map[ssa.Value]bool{}) {
			return false
		}
		g := b.repoCallee(v)
		for _, blk := range g.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
				if _, isC := ret.Results[0].(*ssa.Const); !isC && !b.unshared(ret.Results[0]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// kept: no copy of the pointer is left anywhere.
func (b *bp) kept(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, u := range realRefs(v) {
		switch u := u.(type) {
		case *ssa.FieldAddr:
			if !b.kept(u, seen) {
				return false
			}
		case *ssa.UnOp, *ssa.BinOp:
		case *ssa.Return:
			if _, ok := v.(*ssa.Parameter); ok {
				return false
			}
		case *ssa.Store:
			if u.Val == v {
				return false
			}
		case *ssa.Call:
			g := b.repoCallee(u)
			if g == nil || u.Call.Value == v {
				return false
			}
			for i, a := range u.Call.Args {
				if a == v && (i >= len(g.Params) || !b.kept(g.Params[i], seen)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// heldNowhere: no field and no package variable has room for an object of the type, which other packages can not name; so only those that are handed one know of it.
func (b *bp) heldNowhere(st string) bool {
	if r, ok := b.held[st]; ok {
		return r
	}
	i := strings.LastIndex(st, ".")
	if i < 0 || i+1 >= len(st) || st[i+1] < 'a' || st[i+1] > 'z' {
		return false
	}
	var mentions func(t types.Type, d int) bool
	mentions = func(t types.Type, d int) bool {
		if d > 6 {
			return true
		}
		if types.TypeString(t, nil) == st {
			return true
		}
		switch u := t.(type) {
		case *types.Named:
			return false
		case *types.Pointer:
			return mentions(u.Elem(), d+1)
		case *types.Slice:
			return mentions(u.Elem(), d+1)
		case *types.Array:
			return mentions(u.Elem(), d+1)
		case *types.Chan:
			return mentions(u.Elem(), d+1)
		case *types.Map:
			return mentions(u.Elem(), d+1) || mentions(u.Key(), d+1)
		}
		return false
	}
	ok := true
	for _, pkg := range []*ssa.Package{b.p.Font, b.p.Cmd} {
		if pkg == nil {
			continue
		}
		for _, m := range pkg.Members {
			switch m := m.(type) {
			case *ssa.Type:
				s, isS := m.Type().Underlying().(*types.Struct)
				if !isS {
					ok = ok && !mentions(m.Type().Underlying(), 0)
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					ok = ok && !mentions(s.Field(i).Type(), 0)
				}
			case *ssa.Global:
				ok = ok && !mentions(m.Type(), 0)
			}
		}
	}
	b.held[st] = ok
	return ok
}

// plainArgs: only numbers, truth values and texts are handed over.
func plainArgs(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if _, ok := a.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}
