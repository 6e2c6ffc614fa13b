package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conditional propagation of small sets of constants: a forward dataflow analysis whose abstract value is a finite set
// of constants (or "anything"), with branches whose condition cannot hold cut off, values refined on the edges of a
// branch, and calls of repository functions analysed in the context of their argument sets.

type cv struct {
	c   constant.Value
	sym string // "nil", "nonnil"
}

func (v cv) key() string {
	if v.c == nil {
		return "#" + v.sym
	}
	return fmt.Sprint(v.c.Kind()) + v.c.ExactString()
}

type cset struct {
	top bool
	m   map[string]cv
}

const csetMax = 64

func topSet() cset { return cset{top: true} }
func setOf(vs ...cv) cset {
	s := cset{m: map[string]cv{}}
	for _, v := range vs {
		s.m[v.key()] = v
	}
	return s
}
func strSet(xs ...string) cset {
	s := cset{m: map[string]cv{}}
	for _, x := range xs {
		v := cv{c: constant.MakeString(x)}
		s.m[v.key()] = v
	}
	return s
}
func intSet(xs ...int64) cset {
	s := cset{m: map[string]cv{}}
	for _, x := range xs {
		v := cv{c: constant.MakeInt64(x)}
		s.m[v.key()] = v
	}
	return s
}
func boolSet(xs ...bool) cset {
	s := cset{m: map[string]cv{}}
	for _, x := range xs {
		v := cv{c: constant.MakeBool(x)}
		s.m[v.key()] = v
	}
	return s
}

var symNil, symNon = cv{sym: "nil"}, cv{sym: "nonnil"}

func (s cset) bottom() bool { return !s.top && len(s.m) == 0 }
func (s cset) list() []cv {
	var ks []string
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []cv
	for _, k := range ks {
		out = append(out, s.m[k])
	}
	return out
}
func (s cset) strs() []string {
	var out []string
	for _, v := range s.list() {
		if v.c == nil {
			out = append(out, v.sym)
		} else if v.c.Kind() == constant.String {
			out = append(out, constant.StringVal(v.c))
		} else {
			out = append(out, v.c.ExactString())
		}
	}
	return out
}
func (s cset) String() string {
	if s.top {
		return "{anything}"
	}
	return fmt.Sprintf("%q", s.strs())
}
func (s cset) may(v cv) bool {
	if s.top {
		return true
	}
	_, ok := s.m[v.key()]
	return ok
}
func (s cset) is(v cv) bool { return !s.top && len(s.m) == 1 && s.may(v) }
func (s cset) join(t cset) cset {
	if s.top || t.top {
		return topSet()
	}
	if len(t.m) == 0 {
		return s
	}
	if len(s.m) == 0 {
		return t
	}
	r := cset{m: map[string]cv{}}
	for k, v := range s.m {
		r.m[k] = v
	}
	for k, v := range t.m {
		r.m[k] = v
	}
	if len(r.m) > csetMax {
		return topSet()
	}
	return r
}
func (s cset) equal(t cset) bool {
	if s.top != t.top || len(s.m) != len(t.m) {
		return false
	}
	for k := range s.m {
		if _, ok := t.m[k]; !ok {
			return false
		}
	}
	return true
}

type setEnv map[ssa.Value]cset

type setRun struct {
	p      *Prog
	fn     *ssa.Function
	bind   map[ssa.Value]cset // values fixed by the client
	in     map[*ssa.BasicBlock]setEnv
	tuples map[ssa.Value][]cset
	mem    map[*ssa.Alloc]cset
	depth  int
	rets   []setRet
	calls  map[ssa.CallInstruction]bool
	free   map[*ssa.FreeVar]cset
}

type setRet struct {
	ret  *ssa.Return
	vals []cset
}

func newSetRun(p *Prog, fn *ssa.Function, bind map[ssa.Value]cset, depth int) *setRun {
	return &setRun{p: p, fn: fn, bind: bind, in: map[*ssa.BasicBlock]setEnv{}, tuples: map[ssa.Value][]cset{}, mem: map[*ssa.Alloc]cset{}, depth: depth, calls: map[ssa.CallInstruction]bool{}}
}

func runSets(p *Prog, fn *ssa.Function, bind map[ssa.Value]cset) *setRun {
	r := newSetRun(p, fn, bind, 0)
	r.solve()
	return r
}

func (r *setRun) solve() {
	if len(r.fn.Blocks) == 0 {
		return
	}
	start := setEnv{}
	bind := map[ssa.Value]cset{}
	for v, s := range r.bind {
		if _, ok := v.(*ssa.Parameter); ok {
			start[v] = s
		} else {
			bind[v] = s
		}
	}
	r.bind = bind
	r.in[r.fn.Blocks[0]] = start
	work := []*ssa.BasicBlock{r.fn.Blocks[0]}
	queued := map[*ssa.BasicBlock]bool{}
	steps := 0
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		queued[b] = false
		steps++
		if steps > 20000 {
			break
		}
		memBefore := r.memSig()
		env := r.block(b, nil)
		for _, s := range b.Succs {
			if r.flow(b, s, env) && !queued[s] {
				queued[s] = true
				work = append(work, s)
			}
		}
		if r.memSig() != memBefore {
			for x := range r.in {
				if !queued[x] {
					queued[x] = true
					work = append(work, x)
				}
			}
		}
	}
	for _, b := range r.fn.Blocks {
		if r.in[b] == nil {
			continue
		}
		env := r.block(b, nil)
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			var vs []cset
			for _, x := range ret.Results {
				vs = append(vs, r.get(env, x))
			}
			r.rets = append(r.rets, setRet{ret, vs})
		}
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				r.calls[c] = true
			}
		}
	}
}

func (r *setRun) memSig() int {
	n := 0
	for _, s := range r.mem {
		n += len(s.m)
		if s.top {
			n += 1000
		}
	}
	return n
}

func (r *setRun) reached(b *ssa.BasicBlock) bool { return r.in[b] != nil }

// envAt returns the environment at the end of a block.
func (r *setRun) envAt(b *ssa.BasicBlock) setEnv {
	if r.in[b] == nil {
		return nil
	}
	return r.block(b, nil)
}

func (r *setRun) results() []cset {
	var out []cset
	for _, t := range r.rets {
		for i, v := range t.vals {
			if i >= len(out) {
				out = append(out, v)
			} else {
				out[i] = out[i].join(v)
			}
		}
	}
	return out
}

func (r *setRun) get(env setEnv, v ssa.Value) cset {
	if s, ok := r.bind[v]; ok {
		return s
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if nilable(v.Type()) {
				return setOf(symNil)
			}
			return topSet()
		}
		return setOf(cv{c: v.Value})
	case *ssa.Function:
		return setOf(symNon)
	case *ssa.Parameter:
		if s, ok := env[v]; ok {
			return s
		}
		return topSet()
	case *ssa.FreeVar:
		return topSet()
	case *ssa.Global:
		return setOf(symNon)
	case *ssa.Builtin:
		return topSet()
	}
	if s, ok := env[v]; ok {
		return s
	}
	return cset{} // not evaluated yet
}

func (r *setRun) flow(a, b *ssa.BasicBlock, env setEnv) bool {
	e := env
	if iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If); ok && a.Succs[0] != a.Succs[1] {
		want := b == a.Succs[0]
		cond := r.get(env, iff.Cond)
		if !cond.may(cv{c: constant.MakeBool(want)}) {
			return false
		}
		if !want && r.exhausted(a, b, env) {
			return false
		}
		e = r.refine(env, iff.Cond, want)
		if e == nil {
			return false
		}
	}
	n := setEnv{}
	for k, v := range e {
		n[k] = v
	}
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		s := cset{}
		for k, pr := range b.Preds {
			if pr == a {
				s = s.join(r.get(e, ph.Edges[k]))
			}
		}
		if bs, ok := r.bind[ph]; ok {
			s = bs
		}
		n[ph] = s
	}
	old := r.in[b]
	if old == nil {
		r.in[b] = n
		return true
	}
	changed := false
	for k, v := range n {
		if o, ok := old[k]; ok {
			j := o.join(v)
			if ph, ok := k.(*ssa.Phi); ok && r.p.setModels != nil && len(j.m) > 6 && ph.Block() == b {
				j = topSet() // counters are of no interest under assumptions
			}
			if !j.equal(o) {
				old[k] = j
				changed = true
			}
		} else {
			old[k] = v
			changed = true
		}
	}
	return changed
}

func (r *setRun) block(b *ssa.BasicBlock, over setEnv) setEnv {
	env := setEnv{}
	for k, v := range r.in[b] {
		env[k] = v
	}
	for _, i := range b.Instrs {
		switch i := i.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Store:
			if al, ok := i.Addr.(*ssa.Alloc); ok {
				r.mem[al] = r.mem[al].join(r.get(env, i.Val))
			}
			continue
		case ssa.Value:
			if s, ok := r.bind[i]; ok {
				env[i] = s
				continue
			}
			env[i] = r.eval(env, i, nil)
		}
	}
	return env
}

// exhausted: leaving a loop over an array of constants although, for one of the elements, the loop surely breaks out.
func (r *setRun) exhausted(head, exit *ssa.BasicBlock, env setEnv) bool {
	if head.Comment != "rangeindex.loop" && head.Comment != "for.loop" {
		return false
	}
	inLoop := loopOf(head)
	if inLoop == nil || inLoop[exit] {
		return false
	}
	// an element load in the loop, tested by a branch that leaves the loop
	for b := range inLoop {
		if r.in[b] == nil {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == head {
			continue
		}
		for k, s := range b.Succs {
			if inLoop[s] || !loopAlways(head, b, inLoop) {
				continue
			}
			for x := range inLoop {
				for _, i := range x.Instrs {
					ld, ok := i.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						continue
					}
					ia, ok := ld.X.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					el, ok := r.arrayElems(env, ia.X)
					if !ok {
						continue
					}
					benv := r.block(b, nil)
					for _, e := range el.list() {
						got := r.evalWith(benv, iff.Cond, map[ssa.Value]cset{ld: setOf(e)}, 0)
						if got.is(cv{c: constant.MakeBool(k == 0)}) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// loopOf returns the natural loop of a header.
func loopOf(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var in map[*ssa.BasicBlock]bool
	for _, p := range head.Preds {
		if head.Dominates(p) {
			if in == nil {
				in = map[*ssa.BasicBlock]bool{head: true}
			}
			st := []*ssa.BasicBlock{p}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if in[x] {
					continue
				}
				in[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	return in
}

// loopAlways: every iteration that goes on to the next passes through b.
func loopAlways(head, b *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	for _, p := range head.Preds {
		if in[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// refine narrows the values that the condition depends on to those with which it can have the wanted outcome.
func (r *setRun) refine(env setEnv, cond ssa.Value, want bool) setEnv {
	cone := map[ssa.Value]bool{}
	var collect func(v ssa.Value, d int)
	collect = func(v ssa.Value, d int) {
		if d > 4 || cone[v] {
			return
		}
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return
		}
		cone[v] = true
		switch i := v.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.Index:
			for _, op := range i.(ssa.Instruction).Operands(nil) {
				if *op != nil {
					collect(*op, d+1)
				}
			}
		}
	}
	collect(cond, 0)
	out := setEnv{}
	for k, v := range env {
		out[k] = v
	}
	w := cv{c: constant.MakeBool(want)}
	for v := range cone {
		if v == cond {
			out[v] = setOf(w)
			continue
		}
		if _, fixed := r.bind[v]; fixed {
			continue
		}
		s := r.get(env, v)
		if s.top {
			// x == c on the true edge
			if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && want || bo.Op == token.NEQ && !want) {
				if bo.X == v {
					out[v] = r.get(env, bo.Y)
				} else if bo.Y == v {
					out[v] = r.get(env, bo.X)
				}
			} else if ok && (bo.Op == token.NEQ || bo.Op == token.EQL) && (bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
				out[v] = setOf(symNon)
			}
			continue
		}
		n := cset{m: map[string]cv{}}
		for k, e := range s.m {
			if r.evalWith(env, cond, map[ssa.Value]cset{v: setOf(e)}, 0).may(w) {
				n.m[k] = e
			}
		}
		if len(n.m) == 0 {
			return nil
		}
		out[v] = n
	}
	return out
}

func (r *setRun) evalWith(env setEnv, v ssa.Value, sub map[ssa.Value]cset, d int) cset {
	if s, ok := sub[v]; ok {
		return s
	}
	if d > 5 {
		return r.get(env, v)
	}
	if _, ok := r.bind[v]; ok {
		return r.bind[v]
	}
	switch i := v.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.Index, *ssa.Slice:
		dep := false
		e2 := setEnv{}
		for k, x := range env {
			e2[k] = x
		}
		for _, op := range i.(ssa.Instruction).Operands(nil) {
			if *op == nil {
				continue
			}
			if _, isC := (*op).(*ssa.Const); isC {
				continue
			}
			n := r.evalWith(env, *op, sub, d+1)
			if !n.equal(r.get(env, *op)) {
				dep = true
				e2[*op] = n
			}
		}
		if !dep {
			return r.get(env, v)
		}
		return r.eval(e2, v, nil)
	}
	return r.get(env, v)
}

func (r *setRun) cross(a, b cset, f func(x, y cv) (cv, bool)) cset {
	if a.bottom() || b.bottom() {
		return cset{}
	}
	if a.top || b.top || len(a.m)*len(b.m) > 4096 {
		return topSet()
	}
	out := cset{m: map[string]cv{}}
	for _, x := range a.m {
		for _, y := range b.m {
			v, ok := f(x, y)
			if !ok {
				return topSet()
			}
			if v.c == nil && v.sym == "" {
				continue // combination impossible
			}
			out.m[v.key()] = v
		}
	}
	if len(out.m) > csetMax {
		return topSet()
	}
	return out
}

func (r *setRun) map1(a cset, f func(x cv) (cv, bool)) cset {
	if a.top {
		return topSet()
	}
	out := cset{m: map[string]cv{}}
	for _, x := range a.m {
		v, ok := f(x)
		if !ok {
			return topSet()
		}
		if v.c == nil && v.sym == "" {
			continue
		}
		out.m[v.key()] = v
	}
	return out
}

func truncConst(c constant.Value, t types.Type) (constant.Value, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		if c.Kind() == constant.Float {
			f, _ := constant.Float64Val(c)
			c = constant.MakeInt64(int64(math.Trunc(f)))
		}
		c = constant.ToInt(c)
		if c.Kind() != constant.Int {
			return nil, false
		}
		bits := map[types.BasicKind]uint{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32}[b.Kind()]
		if bits == 0 {
			if i, exact := constant.Int64Val(c); exact {
				if b.Info()&types.IsUnsigned != 0 && i < 0 {
					return constant.MakeUint64(uint64(i)), true
				}
				return c, true
			}
			return c, b.Info()&types.IsUnsigned != 0
		}
		i, exact := constant.Int64Val(c)
		if !exact {
			u, ok := constant.Uint64Val(c)
			if !ok {
				return nil, false
			}
			i = int64(u)
		}
		m := int64(1)<<bits - 1
		i &= m
		if b.Info()&types.IsUnsigned == 0 && i > m>>1 {
			i -= m + 1
		}
		return constant.MakeInt64(i), true
	case b.Info()&types.IsFloat != 0:
		return constant.ToFloat(c), true
	case b.Info()&types.IsString != 0:
		if c.Kind() == constant.Int {
			i, _ := constant.Int64Val(c)
			return constant.MakeString(string(rune(i))), true
		}
		return c, c.Kind() == constant.String
	case b.Info()&types.IsBoolean != 0:
		return c, true
	}
	return nil, false
}

func (r *setRun) eval(env setEnv, v ssa.Value, _ []cset) cset {
	g := func(x ssa.Value) cset { return r.get(env, x) }
	switch v := v.(type) {
	case *ssa.BinOp:
		x, y := g(v.X), g(v.Y)
		// comparisons with nil of something known
		return r.cross(x, y, func(a, b cv) (cv, bool) {
			if a.c == nil || b.c == nil {
				if a.c == nil && b.c == nil && (v.Op == token.EQL || v.Op == token.NEQ) {
					if a.sym == "nil" && b.sym == "nil" {
						return cv{c: constant.MakeBool(v.Op == token.EQL)}, true
					}
					if a.sym != b.sym {
						return cv{c: constant.MakeBool(v.Op == token.NEQ)}, true
					}
				}
				return cv{}, false
			}
			switch v.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return cv{c: constant.MakeBool(constant.Compare(a.c, v.Op, b.c))}, true
			case token.SHL, token.SHR:
				n, ok := constant.Uint64Val(b.c)
				if !ok || n > 63 {
					return cv{}, false
				}
				c, ok := truncConst(constant.Shift(a.c, v.Op, uint(n)), v.Type())
				return cv{c: c}, ok
			}
			op := v.Op
			if (op == token.QUO || op == token.REM) && b.c.Kind() == constant.Int && constant.Sign(b.c) == 0 {
				return cv{}, true
			}
			if op == token.QUO && isIntType(v.Type()) {
				op = token.QUO_ASSIGN
			}
			c, ok := truncConst(constant.BinaryOp(a.c, op, b.c), v.Type())
			return cv{c: c}, ok
		})
	case *ssa.UnOp:
		switch v.Op {
		case token.NOT, token.SUB, token.XOR:
			return r.map1(g(v.X), func(a cv) (cv, bool) {
				if a.c == nil {
					return cv{}, false
				}
				c, ok := truncConst(constant.UnaryOp(v.Op, a.c, 0), v.Type())
				return cv{c: c}, ok
			})
		case token.MUL:
			return r.load(env, v)
		}
		return topSet()
	case *ssa.Convert:
		return r.map1(g(v.X), func(a cv) (cv, bool) {
			if a.c == nil {
				return cv{}, false
			}
			c, ok := truncConst(a.c, v.Type())
			return cv{c: c}, ok
		})
	case *ssa.ChangeType:
		return g(v.X)
	case *ssa.ChangeInterface:
		return g(v.X)
	case *ssa.MakeInterface:
		return r.map1(g(v.X), func(a cv) (cv, bool) { return a, true })
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeChan:
		return setOf(symNon)
	case *ssa.Slice:
		x := g(v.X)
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			lo, hi := intSet(0), cset{}
			if v.Low != nil {
				lo = g(v.Low)
			}
			if v.High != nil {
				hi = g(v.High)
			} else {
				hi = intSet(-1)
			}
			pairs := r.cross(lo, hi, func(a, b cv) (cv, bool) {
				return cv{c: constant.MakeString(a.c.ExactString() + ":" + b.c.ExactString())}, true
			})
			return r.cross(x, pairs, func(a, pr cv) (cv, bool) {
				s := constant.StringVal(a.c)
				var l, h int
				fmt.Sscanf(constant.StringVal(pr.c), "%d:%d", &l, &h)
				if h == -1 && v.High == nil {
					h = len(s)
				}
				if l < 0 || h > len(s) || l > h {
					return cv{}, true // would panic: no such path
				}
				return cv{c: constant.MakeString(s[l:h])}, true
			})
		}
		return topSet()
	case *ssa.Index:
		return r.strIndex(g(v.X), g(v.Index))
	case *ssa.Lookup:
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return r.strIndex(g(v.X), g(v.Index))
		}
		m, zero, ok := r.constMap(v.X)
		if !ok {
			if v.CommaOk {
				r.tuples[v] = nil
			}
			return topSet()
		}
		key := g(v.Index)
		if key.bottom() {
			return cset{}
		}
		val, has := cset{}, cset{}
		if key.top {
			for _, e := range m {
				val = val.join(e)
			}
			val, has = val.join(zero), boolSet(true, false)
		} else {
			for k := range key.m {
				if e, ok := m[k]; ok {
					val, has = val.join(e), has.join(boolSet(true))
				} else {
					val, has = val.join(zero), has.join(boolSet(false))
				}
			}
		}
		if v.CommaOk {
			r.tuples[v] = []cset{val, has}
			return topSet()
		}
		return val
	case *ssa.Extract:
		if _, isCall := v.Tuple.(*ssa.Call); isCall {
			_ = g(v.Tuple)
		}
		if t, ok := r.tuples[v.Tuple]; ok && t != nil {
			if _, ok := v.Tuple.(*ssa.Lookup); ok {
				_ = r.eval(env, v.Tuple, nil)
				t = r.tuples[v.Tuple]
			}
			if v.Index < len(t) {
				return t[v.Index]
			}
			return cset{}
		}
		return topSet()
	case *ssa.Call:
		return r.call(env, v)
	}
	return topSet()
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (r *setRun) strIndex(x, i cset) cset {
	return r.cross(x, i, func(a, b cv) (cv, bool) {
		if a.c == nil || a.c.Kind() != constant.String {
			return cv{}, false
		}
		s := constant.StringVal(a.c)
		n, _ := constant.Int64Val(b.c)
		if n < 0 || n >= int64(len(s)) {
			return cv{}, true
		}
		return cv{c: constant.MakeInt64(int64(s[n]))}, true
	})
}

// arrayElems: the constants stored in a local array that is only ever indexed and sliced
func (r *setRun) arrayElems(env setEnv, base ssa.Value) (cset, bool) {
	if sl, ok := base.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		base = sl.X
	}
	if ld, ok := base.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if g, ok := ld.X.(*ssa.Global); ok {
			return r.globalElems(g)
		}
	}
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return cset{}, false
	}
	out := cset{}
	for _, ref := range realRefs(al) {
		switch ref := ref.(type) {
		case *ssa.IndexAddr:
			for _, rr := range realRefs(ref) {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ref {
					if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
						out = out.join(setOf(cv{c: c.Value}))
					} else {
						return cset{}, false
					}
				} else if ld, ok := rr.(*ssa.UnOp); !ok || ld.Op != token.MUL {
					return cset{}, false
				}
			}
		case *ssa.Slice:
			for _, rr := range realRefs(ref) {
				switch rr := rr.(type) {
				case *ssa.IndexAddr:
					for _, r3 := range realRefs(rr) {
						if ld, ok := r3.(*ssa.UnOp); !ok || ld.Op != token.MUL {
							return cset{}, false
						}
					}
				case *ssa.Call:
					if b, ok := rr.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
						return cset{}, false
					}
				default:
					return cset{}, false
				}
			}
		case *ssa.UnOp:
		default:
			return cset{}, false
		}
	}
	return out, !out.bottom()
}

// globalElems: elements of a package-level slice literal of constants that is only assigned by initialisation
func (r *setRun) globalElems(g *ssa.Global) (cset, bool) {
	st := r.p.initStore(g)
	if st == nil {
		return cset{}, false
	}
	sl, ok := st.Val.(*ssa.Slice)
	if !ok {
		return cset{}, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return cset{}, false
	}
	out := cset{}
	for _, ref := range realRefs(al) {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, rr := range realRefs(ia) {
				if s2, ok := rr.(*ssa.Store); ok {
					c, ok := s2.Val.(*ssa.Const)
					if !ok || c.Value == nil {
						return cset{}, false
					}
					out = out.join(setOf(cv{c: c.Value}))
				}
			}
		}
	}
	return out, !out.bottom()
}

// initStore returns the only store to a global, if it is in package initialisation.
func (p *Prog) initStore(g *ssa.Global) *ssa.Store {
	if p.gstores == nil {
		p.gstores = map[*ssa.Global][]*ssa.Store{}
		for fn := range p.allFuncs() {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							p.gstores[g] = append(p.gstores[g], st)
						}
					}
				}
			}
		}
	}
	ss := p.gstores[g]
	if len(ss) != 1 || !strings.HasPrefix(ss[0].Parent().Name(), "init") {
		return nil
	}
	return ss[0]
}

// constMap: contents of a map that is filled with constants where it is made and not changed afterwards
func (r *setRun) constMap(m ssa.Value) (map[string]cset, cset, bool) {
	mt, ok := m.Type().Underlying().(*types.Map)
	if !ok {
		return nil, cset{}, false
	}
	zero := zeroSet(mt.Elem())
	if ld, ok := m.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if g, ok := ld.X.(*ssa.Global); ok {
			st := r.p.initStore(g)
			if st == nil {
				return nil, zero, false
			}
			if r.p.globalMapUpdated(g) {
				return nil, zero, false
			}
			m = st.Val
		}
	}
	mm, ok := m.(*ssa.MakeMap)
	if !ok {
		return nil, zero, false
	}
	out := map[string]cset{}
	for _, ref := range realRefs(mm) {
		switch ref := ref.(type) {
		case *ssa.MapUpdate:
			if ref.Map != mm {
				return nil, zero, false
			}
			k, ok1 := ref.Key.(*ssa.Const)
			if !ok1 || k.Value == nil {
				return nil, zero, false
			}
			v := topSet()
			if c, ok := ref.Value.(*ssa.Const); ok && c.Value != nil {
				v = setOf(cv{c: c.Value})
			}
			out[cv{c: k.Value}.key()] = v
		case *ssa.Lookup, *ssa.Store, *ssa.Range:
		default:
			return nil, zero, false
		}
	}
	return out, zero, true
}

func zeroSet(t types.Type) cset {
	if nilable(t) {
		return setOf(symNil)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return strSet("")
		case b.Info()&types.IsNumeric != 0:
			return intSet(0)
		case b.Info()&types.IsBoolean != 0:
			return boolSet(false)
		}
	}
	return topSet()
}

func (r *setRun) load(env setEnv, v *ssa.UnOp) cset {
	switch a := v.X.(type) {
	case *ssa.FieldAddr:
		if s, ok := r.p.setFields[fieldName(a.X.Type(), a.Field)]; ok {
			return s
		}
		if s, ok := r.p.setFields["option "+fieldName(a.X.Type(), a.Field)]; ok && isOption(a) {
			return s
		}
	case *ssa.IndexAddr:
		if s, ok := r.arrayElems(env, a.X); ok {
			return s
		}
	case *ssa.Alloc:
		if !cellEscapes(a) && !isAggregate(a) {
			s := r.mem[a]
			// a variable starts as zero
			if len(realRefs(a)) > 0 && !storeDominatesAll(a, v) {
				s = s.join(zeroSet(a.Type().Underlying().(*types.Pointer).Elem()))
			}
			return s
		}
	case *ssa.Global:
		if isErr(v.Type()) {
			return setOf(symNon)
		}
		if st := r.p.initStore(a); st != nil {
			if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
				return setOf(cv{c: c.Value})
			}
		}
	}
	return topSet()
}

func isAggregate(a *ssa.Alloc) bool {
	switch a.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func storeDominatesAll(a *ssa.Alloc, ld *ssa.UnOp) bool {
	for _, ref := range realRefs(a) {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			if st.Block() == ld.Block() {
				for _, i := range st.Block().Instrs {
					if i == st {
						return true
					}
					if i == ld {
						break
					}
				}
			} else if st.Block().Dominates(ld.Block()) {
				return true
			}
		}
	}
	return false
}

func (r *setRun) call(env setEnv, c *ssa.Call) cset {
	var args []cset
	for _, a := range c.Call.Args {
		s := r.get(env, a)
		args = append(args, s)
	}
	str2 := func(f func(a, b string) cv) cset {
		return r.cross(args[0], args[1], func(a, b cv) (cv, bool) {
			if a.c == nil || b.c == nil {
				return cv{}, false
			}
			return f(constant.StringVal(a.c), constant.StringVal(b.c)), true
		})
	}
	if m, ok := r.p.setModels[calleeName(&c.Call)]; ok {
		if len(m) == 1 {
			return m[0]
		}
		r.tuples[c] = m
		return topSet()
	}
	mkb := func(b bool) cv { return cv{c: constant.MakeBool(b)} }
	mks := func(s string) cv { return cv{c: constant.MakeString(s)} }
	switch calleeName(&c.Call) {
	case "len":
		if b, ok := c.Call.Args[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return r.map1(args[0], func(a cv) (cv, bool) {
				if a.c == nil {
					return cv{}, false
				}
				return cv{c: constant.MakeInt64(int64(len(constant.StringVal(a.c))))}, true
			})
		}
		return topSet()
	case "strings.HasSuffix":
		return str2(func(a, b string) cv { return mkb(strings.HasSuffix(a, b)) })
	case "strings.HasPrefix":
		return str2(func(a, b string) cv { return mkb(strings.HasPrefix(a, b)) })
	case "strings.Contains":
		return str2(func(a, b string) cv { return mkb(strings.Contains(a, b)) })
	case "strings.EqualFold":
		return str2(func(a, b string) cv { return mkb(strings.EqualFold(a, b)) })
	case "strings.TrimSuffix":
		return str2(func(a, b string) cv { return mks(strings.TrimSuffix(a, b)) })
	case "strings.TrimRight":
		return str2(func(a, b string) cv { return mks(strings.TrimRight(a, b)) })
	case "strings.TrimPrefix":
		return str2(func(a, b string) cv { return mks(strings.TrimPrefix(a, b)) })
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		n := c.Call.StaticCallee().Name()
		return r.map1(args[0], func(a cv) (cv, bool) {
			if a.c == nil {
				return cv{}, false
			}
			s := constant.StringVal(a.c)
			switch n {
			case "TrimSpace":
				return mks(strings.TrimSpace(s)), true
			case "ToLower":
				return mks(strings.ToLower(s)), true
			}
			return mks(strings.ToUpper(s)), true
		})
	case "strings.CutSuffix":
		if args[0].top || args[1].top {
			r.tuples[c] = nil
			return topSet()
		}
		a := str2(func(a, b string) cv { s, _ := strings.CutSuffix(a, b); return mks(s) })
		b := str2(func(a, b string) cv { _, ok := strings.CutSuffix(a, b); return mkb(ok) })
		r.tuples[c] = []cset{a, b}
		return topSet()
	case "math.Round", "math.Floor", "math.Trunc":
		n := c.Call.StaticCallee().Name()
		return r.map1(args[0], func(a cv) (cv, bool) {
			if a.c == nil {
				return cv{}, false
			}
			f, _ := constant.Float64Val(constant.ToFloat(a.c))
			switch n {
			case "Round":
				f = math.Round(f)
			case "Floor":
				f = math.Floor(f)
			default:
				f = math.Trunc(f)
			}
			return cv{c: constant.ToFloat(constant.MakeFloat64(f))}, true
		})
	case "fmt.Errorf", "errors.New":
		return setOf(symNon)
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || r.depth >= 4 || !(fnPkgPath(f) == fontPath || fnPkgPath(f) == cmdPath) || f == r.fn {
		r.tuples[c] = nil
		return topSet()
	}
	for _, a := range args {
		if a.bottom() {
			return cset{}
		}
	}
	// only worth it when something is known about the arguments or the function is small
	known := len(args) == 0
	for _, a := range args {
		for _, e := range a.m {
			if e.c != nil {
				known = true
			}
		}
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	if r.p.setModels != nil && fnPkgPath(f) != cmdPath || !known && n > 60 && r.p.setModels == nil || n > 1500 {
		r.tuples[c] = nil
		return topSet()
	}
	bind := map[ssa.Value]cset{}
	sig := f.String()
	for i, pa := range f.Params {
		if i < len(args) {
			bind[pa] = args[i]
			sig += "|" + args[i].String()
		}
	}
	if r.p.setMemo == nil {
		r.p.setMemo = map[string][]cset{}
	}
	if res, ok := r.p.setMemo[sig]; ok {
		if len(res) == 1 {
			return res[0]
		}
		r.tuples[c] = res
		return topSet()
	}
	sub := newSetRun(r.p, f, bind, r.depth+1)
	sub.solve()
	res := sub.results()
	if sub.depth <= 2 {
		r.p.setMemo[sig] = res
	}
	if len(res) == 1 {
		return res[0]
	}
	r.tuples[c] = res
	return topSet()
}

// globalMapUpdated: a map held by a global is updated, through the global, somewhere.
func (p *Prog) globalMapUpdated(g *ssa.Global) bool {
	if p.gmaps == nil {
		p.gmaps = map[*ssa.Global]bool{}
		for fn := range p.allFuncs() {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if mu, ok := i.(*ssa.MapUpdate); ok {
						if l2, ok := mu.Map.(*ssa.UnOp); ok {
							if g, ok := l2.X.(*ssa.Global); ok {
								p.gmaps[g] = true
							}
						}
					}
				}
			}
		}
	}
	return p.gmaps[g]
}
