package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Interval analysis of a function of one number, with the domain partitioned: a state is an
// interval of that number together with the constants that hold for it. A comparison with a
// constant that the interval does not decide splits the state. Everything else has to be a
// constant; what is not makes the analysis give up (and the check that asked fail).

type rint int64
type rstr string
type rbool bool
type rnil struct{}
type raff struct { // the number plus c, passed on in a type that can hold it
	c int64
}
type rptr struct {
	obj  int
	path string // one byte pair per step
}
type rslice struct {
	obj           int
	path          string
	off, len, cap int
}
type ragg struct{ e []rval } // array or structure
type rfn struct {
	fn    *ssa.Function
	binds []rval
}
type rtop struct{}
type rval interface{}

type rframe struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	idx   int
	env   map[ssa.Value]rval
	call  *ssa.Call // in the caller

	// a call made by sort.Search
	search   rfn
	slo, shi int
}

type rstate struct {
	lo, hi int64
	mem    map[int]rval
	stack  []*rframe
}

type rleaf struct {
	lo, hi  int64
	results []rval
	mem     map[int]rval
}

type ranger struct {
	p       *Prog
	next    int
	globals map[*ssa.Global]int
	base    map[int]rval
	steps   int
	why     string
	whyPos  string
}

func newRanger(p *Prog) *ranger {
	return &ranger{p: p, globals: map[*ssa.Global]int{}, base: map[int]rval{}}
}

func (s *rstate) clone() *rstate {
	c := &rstate{lo: s.lo, hi: s.hi, mem: make(map[int]rval, len(s.mem)), stack: make([]*rframe, len(s.stack))}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for i, f := range s.stack {
		g := *f
		g.env = make(map[ssa.Value]rval, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		c.stack[i] = &g
	}
	return c
}

func rzero(t types.Type) rval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return rint(0)
		case u.Info()&types.IsString != 0:
			return rstr("")
		case u.Info()&types.IsBoolean != 0:
			return rbool(false)
		}
		return rtop{}
	case *types.Array:
		if u.Len() > 1<<16 {
			return rtop{}
		}
		a := ragg{make([]rval, u.Len())}
		for i := range a.e {
			a.e[i] = rzero(u.Elem())
		}
		return a
	case *types.Struct:
		a := ragg{make([]rval, u.NumFields())}
		for i := range a.e {
			a.e[i] = rzero(u.Field(i).Type())
		}
		return a
	case *types.Slice:
		return rslice{obj: -1}
	}
	return rnil{}
}

func rstep(path string, i int) string {
	return path + string([]byte{byte(i >> 16), byte(i >> 8), byte(i)})
}

func rget(v rval, path string) rval {
	for len(path) > 0 {
		i := int(path[0])<<16 | int(path[1])<<8 | int(path[2])
		path = path[3:]
		a, ok := v.(ragg)
		if !ok || len(a.e) <= i {
			return rtop{}
		}
		v = a.e[i]
	}
	return v
}

func rset(v rval, path string, x rval) rval {
	if len(path) == 0 {
		return x
	}
	i := int(path[0])<<16 | int(path[1])<<8 | int(path[2])
	a, ok := v.(ragg)
	if !ok || len(a.e) <= i {
		return rtop{}
	}
	c := ragg{append([]rval(nil), a.e...)}
	c.e[i] = rset(c.e[i], path[3:], x)
	return c
}

// rwrap truncates a constant to the type.
func rwrap(i int64, t types.Type) rval {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return rtop{}
	}
	switch b.Kind() {
	case types.Int8:
		return rint(int8(i))
	case types.Int16:
		return rint(int16(i))
	case types.Int32:
		return rint(int32(i))
	case types.Uint8:
		return rint(uint8(i))
	case types.Uint16:
		return rint(uint16(i))
	case types.Uint32:
		return rint(uint32(i))
	case types.Uint64, types.Uint, types.Uintptr:
		if i < 0 {
			return rtop{}
		}
	}
	return rint(i)
}

func (g *ranger) fail(instr ssa.Instruction, format string, args ...interface{}) {
	if g.why == "" {
		g.why = fmt.Sprintf(format, args...)
		g.whyPos = g.p.where(instrPos(instr))
	}
}

// global gives the memory of a package variable that is only written by its initialiser.
func (g *ranger) global(gl *ssa.Global) int {
	if id, ok := g.globals[gl]; ok {
		return id
	}
	g.next++
	id := g.next
	g.globals[gl] = id
	g.base[id] = rtop{}
	if gl.Pkg == nil {
		return id
	}
	st := g.p.initStore(gl)
	if st == nil {
		return id
	}
	// the initialiser is a straight piece of the init function
	init := st.Parent()
	f := &rframe{fn: init, block: st.Block(), env: map[ssa.Value]rval{}}
	s := &rstate{mem: g.base, stack: []*rframe{f}}
	for _, in := range st.Block().Instrs {
		switch in := in.(type) {
		case *ssa.Alloc, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp:
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if _, ok := u.X.(*ssa.Global); ok {
					continue
				}
			}
			v, _ := g.value(s, f, in.(ssa.Value))
			if v == nil {
				v = rtop{}
			}
			f.env[in.(ssa.Value)] = v
			g.why = ""
		case *ssa.Store:
			if og, ok := in.Addr.(*ssa.Global); ok {
				if og == gl {
					g.base[id] = g.operand(s, f, in.Val)
				}
				continue
			}
			if pt, ok := g.operand(s, f, in.Addr).(rptr); ok {
				if _, ok := g.base[pt.obj]; ok {
					g.base[pt.obj] = rset(g.base[pt.obj], pt.path, g.operand(s, f, in.Val))
				}
			}
		}
	}
	return id
}

func (g *ranger) operand(s *rstate, f *rframe, v ssa.Value) rval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return rzero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Int:
			if i, ok := constant.Int64Val(v.Value); ok {
				return rint(i)
			}
		case constant.String:
			return rstr(constant.StringVal(v.Value))
		case constant.Bool:
			return rbool(constant.BoolVal(v.Value))
		}
		return rtop{}
	case *ssa.Global:
		return rptr{obj: g.global(v)}
	case *ssa.Function:
		return rfn{fn: v}
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return rtop{}
}

func (g *ranger) load(s *rstate, id int) rval {
	if v, ok := s.mem[id]; ok {
		return v
	}
	if v, ok := g.base[id]; ok {
		return v
	}
	return rtop{}
}

// value computes an instruction; split is set when the interval has to be cut at that number
// (the first number of the upper half) before the instruction has one answer.
func (g *ranger) value(s *rstate, f *rframe, v ssa.Value) (rval, *int64) {
	op := func(x ssa.Value) rval { return g.operand(s, f, x) }
	switch v := v.(type) {
	case *ssa.Alloc:
		g.next++
		s.mem[g.next] = rzero(v.Type().Underlying().(*types.Pointer).Elem())
		return rptr{obj: g.next}, nil
	case *ssa.IndexAddr:
		i, ok := op(v.Index).(rint)
		if !ok {
			return rtop{}, nil
		}
		switch x := op(v.X).(type) {
		case rptr:
			return rptr{x.obj, rstep(x.path, int(i))}, nil
		case rslice:
			if i < 0 || int(i) >= x.len {
				return rtop{}, nil
			}
			return rptr{x.obj, rstep(x.path, x.off+int(i))}, nil
		}
		return rtop{}, nil
	case *ssa.Index:
		i, ok := op(v.Index).(rint)
		a, ok2 := op(v.X).(ragg)
		if ok && ok2 && 0 <= i && int(i) < len(a.e) {
			return a.e[i], nil
		}
		return rtop{}, nil
	case *ssa.FieldAddr:
		if x, ok := op(v.X).(rptr); ok {
			return rptr{x.obj, rstep(x.path, v.Field)}, nil
		}
		return rtop{}, nil
	case *ssa.Field:
		if a, ok := op(v.X).(ragg); ok {
			return a.e[v.Field], nil
		}
		return rtop{}, nil
	case *ssa.Slice:
		lo, hi := 0, -1
		if v.Low != nil {
			i, ok := op(v.Low).(rint)
			if !ok {
				return rtop{}, nil
			}
			lo = int(i)
		}
		if v.High != nil {
			i, ok := op(v.High).(rint)
			if !ok {
				return rtop{}, nil
			}
			hi = int(i)
		}
		switch x := op(v.X).(type) {
		case rptr:
			at, ok := v.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return rtop{}, nil
			}
			arr, ok := at.Elem().Underlying().(*types.Array)
			if !ok {
				return rtop{}, nil
			}
			n := int(arr.Len())
			if hi < 0 {
				hi = n
			}
			if lo > hi || hi > n {
				return rtop{}, nil
			}
			return rslice{x.obj, x.path, lo, hi - lo, n - lo}, nil
		case rslice:
			if hi < 0 {
				hi = x.len
			}
			if lo > hi || hi > x.cap {
				return rtop{}, nil
			}
			return rslice{x.obj, x.path, x.off + lo, hi - lo, x.cap - lo}, nil
		}
		return rtop{}, nil
	case *ssa.UnOp:
		x := op(v.X)
		switch v.Op {
		case token.MUL:
			if pt, ok := x.(rptr); ok {
				return rget(g.load(s, pt.obj), pt.path), nil
			}
		case token.NOT:
			if b, ok := x.(rbool); ok {
				return !b, nil
			}
		case token.SUB:
			if i, ok := x.(rint); ok {
				return rwrap(-int64(i), v.Type()), nil
			}
		case token.XOR:
			if i, ok := x.(rint); ok {
				return rwrap(^int64(i), v.Type()), nil
			}
		}
		return rtop{}, nil
	case *ssa.Convert:
		return g.convert(s, op(v.X), v.X.Type(), v.Type()), nil
	case *ssa.ChangeType:
		return op(v.X), nil
	case *ssa.MakeClosure:
		c := rfn{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			c.binds = append(c.binds, op(b))
		}
		return c, nil
	case *ssa.Extract:
		if a, ok := op(v.Tuple).(ragg); ok {
			return a.e[v.Index], nil
		}
		return rtop{}, nil
	case *ssa.BinOp:
		return g.binop(s, v, op(v.X), op(v.Y))
	}
	return rtop{}, nil
}

func (g *ranger) convert(s *rstate, x rval, from, to types.Type) rval {
	switch x := x.(type) {
	case rint:
		if isIntType(to) {
			return rwrap(int64(x), to)
		}
	case raff:
		if fitsAll(s.lo+x.c, s.hi+x.c, to) {
			return x
		}
	case rstr:
		if isString(to) {
			return x
		}
	}
	return rtop{}
}

func fitsAll(lo, hi int64, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Kind() {
	case types.Int8:
		return -1<<7 <= lo && hi < 1<<7
	case types.Int16:
		return -1<<15 <= lo && hi < 1<<15
	case types.Int32:
		return -1<<31 <= lo && hi < 1<<31
	case types.Uint8:
		return 0 <= lo && hi < 1<<8
	case types.Uint16:
		return 0 <= lo && hi < 1<<16
	case types.Uint32:
		return 0 <= lo && hi < 1<<32
	case types.Uint64, types.Uint, types.Uintptr:
		return 0 <= lo
	}
	return true
}

func cut(x int64) *int64 { return &x }

func (g *ranger) binop(s *rstate, v *ssa.BinOp, x, y rval) (rval, *int64) {
	// one interval value and one constant
	ax, okx := x.(raff)
	ay, oky := y.(raff)
	ix, ikx := x.(rint)
	iy, iky := y.(rint)
	switch {
	case okx && s.lo == s.hi:
		return g.binop(s, v, rint(s.lo+ax.c), y)
	case oky && s.lo == s.hi:
		return g.binop(s, v, x, rint(s.lo+ay.c))
	case okx && oky:
		switch v.Op {
		case token.SUB:
			return rwrap(ax.c-ay.c, v.Type()), nil
		case token.EQL, token.LSS, token.GTR, token.LEQ, token.GEQ, token.NEQ:
			return compare(v.Op, ax.c, ay.c), nil
		}
		return rtop{}, nil
	case okx && iky:
		lo, hi, k := s.lo+ax.c, s.hi+ax.c, int64(iy)
		switch v.Op {
		case token.ADD, token.SUB:
			c := ax.c + k
			if v.Op == token.SUB {
				c = ax.c - k
			}
			if fitsAll(s.lo+c, s.hi+c, v.Type()) {
				return raff{c}, nil
			}
			// cut where the result leaves the type
			if k > 0 && v.Op == token.SUB && lo < k && k <= hi {
				return nil, cut(k - ax.c)
			}
			if lo == hi || hi < k {
				if lo != hi {
					return nil, cut((s.lo + s.hi + 1) / 2)
				}
			}
			return rtop{}, nil
		case token.LSS, token.GEQ:
			if hi < k || k <= lo {
				return compare(v.Op, lo, k), nil
			}
			return nil, cut(k - ax.c)
		case token.LEQ, token.GTR:
			if hi <= k || k < lo {
				return compare(v.Op, lo, k), nil
			}
			return nil, cut(k + 1 - ax.c)
		case token.EQL, token.NEQ:
			if k < lo || hi < k {
				return rbool(v.Op == token.NEQ), nil
			}
			if lo < k {
				return nil, cut(k - ax.c)
			}
			return nil, cut(k + 1 - ax.c)
		case token.SHR, token.QUO:
			d := k
			if v.Op == token.SHR {
				if k < 0 || k > 32 {
					return rtop{}, nil
				}
				d = 1 << uint(k)
			}
			if d <= 0 || lo < 0 {
				return rtop{}, nil
			}
			if lo/d == hi/d {
				return rint(lo / d), nil
			}
			return nil, cut((lo/d+1)*d - ax.c)
		case token.AND_NOT, token.AND:
			// a mask of the low or of the high bits
			if lo < 0 {
				return rtop{}, nil
			}
			m := k
			if v.Op == token.AND_NOT {
				m = ^k & (1<<32 - 1)
			}
			low := ^m & (1<<32 - 1)
			switch {
			case low&(low+1) == 0: // keeps the high bits
				if lo&^low == hi&^low {
					return rint(lo & m), nil
				}
				return nil, cut(lo&^low + low + 1 - ax.c)
			case m&(m+1) == 0: // keeps the low bits
				if lo&^m == hi&^m {
					return raff{ax.c - lo&^m}, nil
				}
				return nil, cut(lo&^m + m + 1 - ax.c)
			}
		}
		return rtop{}, nil
	case ikx && oky:
		switch v.Op {
		case token.LSS:
			return g.swapped(s, v, token.GTR, y, x)
		case token.GTR:
			return g.swapped(s, v, token.LSS, y, x)
		case token.LEQ:
			return g.swapped(s, v, token.GEQ, y, x)
		case token.GEQ:
			return g.swapped(s, v, token.LEQ, y, x)
		case token.EQL, token.NEQ, token.ADD, token.AND:
			return g.swapped(s, v, v.Op, y, x)
		}
		return rtop{}, nil
	case ikx && iky:
		a, b := int64(ix), int64(iy)
		switch v.Op {
		case token.ADD:
			return rwrap(a+b, v.Type()), nil
		case token.SUB:
			return rwrap(a-b, v.Type()), nil
		case token.MUL:
			if a > 1<<31 || b > 1<<31 || a < -1<<31 || b < -1<<31 {
				return rtop{}, nil
			}
			return rwrap(a*b, v.Type()), nil
		case token.QUO:
			if b != 0 {
				return rwrap(a/b, v.Type()), nil
			}
		case token.REM:
			if b != 0 {
				return rwrap(a%b, v.Type()), nil
			}
		case token.AND:
			return rwrap(a&b, v.Type()), nil
		case token.OR:
			return rwrap(a|b, v.Type()), nil
		case token.XOR:
			return rwrap(a^b, v.Type()), nil
		case token.AND_NOT:
			return rwrap(a&^b, v.Type()), nil
		case token.SHL:
			if b < 0 {
				return rtop{}, nil
			} else if b > 62 {
				return rwrap(0, v.Type()), nil
			}
			return rwrap(a<<uint(b), v.Type()), nil
		case token.SHR:
			if b < 0 {
				return rtop{}, nil
			} else if b > 63 {
				b = 63
			}
			return rwrap(a>>uint(b), v.Type()), nil
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return compare(v.Op, a, b), nil
		}
		return rtop{}, nil
	}
	if sx, ok := x.(rstr); ok {
		if sy, ok := y.(rstr); ok {
			switch v.Op {
			case token.EQL:
				return rbool(sx == sy), nil
			case token.NEQ:
				return rbool(sx != sy), nil
			}
		}
	}
	if bx, ok := x.(rbool); ok {
		if by, ok := y.(rbool); ok {
			switch v.Op {
			case token.EQL:
				return bx == by, nil
			case token.NEQ:
				return bx != by, nil
			}
		}
	}
	if ptrish(x) && ptrish(y) && (v.Op == token.EQL || v.Op == token.NEQ) {
		if !rIsNil(x) && !rIsNil(y) {
			return rtop{}, nil
		}
		return rbool((rIsNil(x) && rIsNil(y)) == (v.Op == token.EQL)), nil
	}
	return rtop{}, nil
}

func ptrish(x rval) bool {
	switch x.(type) {
	case rnil, rptr, rslice:
		return true
	}
	return false
}

func rIsNil(x rval) bool {
	if s, ok := x.(rslice); ok {
		return s.obj == -1
	}
	_, ok := x.(rnil)
	return ok
}

func compare(op token.Token, a, b int64) rbool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

func (g *ranger) swapped(s *rstate, v *ssa.BinOp, op token.Token, x, y rval) (rval, *int64) {
	w := *v
	w.Op = op
	return g.binop(s, &w, x, y)
}

// run analyses fn for numbers in [lo, hi]; args and mem give the arguments.
func (g *ranger) run(fn *ssa.Function, args []rval, mem map[int]rval, lo, hi int64) []rleaf {
	f := &rframe{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]rval{}}
	for i, prm := range fn.Params {
		f.env[prm] = args[i]
	}
	s := &rstate{lo: lo, hi: hi, mem: mem, stack: []*rframe{f}}
	work := []*rstate{s}
	var leaves []rleaf
	for len(work) > 0 && g.why == "" {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for g.why == "" {
			more, leaf := g.step(s)
			if leaf != nil {
				leaves = append(leaves, *leaf)
				break
			}
			if more != nil {
				work = append(work, more)
			}
		}
	}
	return leaves
}

// step does one instruction of s. When the interval has to be cut, s keeps the lower half and
// the upper half is returned.
func (g *ranger) step(s *rstate) (*rstate, *rleaf) {
	f := s.stack[len(s.stack)-1]
	in := f.block.Instrs[f.idx]
	g.steps++
	if g.steps > 20000000 {
		g.fail(in, "the analysis takes too long")
		return nil, nil
	}
	jump := func(to *ssa.BasicBlock) {
		from := f.block
		k := 0
		for i, pr := range to.Preds {
			if pr == from {
				k = i
			}
		}
		vals := map[*ssa.Phi]rval{}
		n := 0
		for _, x := range to.Instrs {
			phi, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = g.operand(s, f, phi.Edges[k])
			n++
		}
		for ph, v := range vals {
			f.env[ph] = v
		}
		f.prev, f.block, f.idx = from, to, n
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Jump:
		jump(f.block.Succs[0])
	case *ssa.If:
		b, ok := g.operand(s, f, in.Cond).(rbool)
		if !ok {
			g.fail(in, "a condition is not decided by the number alone")
			return nil, nil
		}
		if b {
			jump(f.block.Succs[0])
		} else {
			jump(f.block.Succs[1])
		}
	case *ssa.Return:
		var rs []rval
		for _, x := range in.Results {
			rs = append(rs, g.operand(s, f, x))
		}
		if len(s.stack) == 1 {
			return nil, &rleaf{s.lo, s.hi, rs, s.mem}
		}
		call := f.call
		s.stack = s.stack[:len(s.stack)-1]
		if f.search.fn != nil {
			b, ok := rs[0].(rbool)
			if !ok {
				g.fail(in, "the condition of a search is not decided by the number alone")
				return nil, nil
			}
			h := (f.slo + f.shi) / 2
			lo, hi := f.slo, f.shi
			if b {
				hi = h
			} else {
				lo = h + 1
			}
			g.searchStep(s, s.stack[len(s.stack)-1], call, f.search, lo, hi)
			return nil, nil
		}
		f = s.stack[len(s.stack)-1]
		switch len(rs) {
		case 0:
		case 1:
			f.env[call] = rs[0]
		default:
			f.env[call] = ragg{rs}
		}
		f.idx++
	case *ssa.Store:
		pt, ok := g.operand(s, f, in.Addr).(rptr)
		if !ok {
			g.fail(in, "a store through an unknown pointer")
			return nil, nil
		}
		s.mem[pt.obj] = rset(g.load(s, pt.obj), pt.path, g.operand(s, f, in.Val))
		f.idx++
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			f.env[in] = rtop{}
			if b.Name() == "len" || b.Name() == "cap" {
				switch x := g.operand(s, f, in.Call.Args[0]).(type) {
				case rslice:
					f.env[in] = rint(x.len)
					if b.Name() == "cap" {
						f.env[in] = rint(x.cap)
					}
				case rstr:
					f.env[in] = rint(len(x))
				case ragg:
					f.env[in] = rint(len(x.e))
				case rptr:
					if a, ok := rget(g.load(s, x.obj), x.path).(ragg); ok {
						f.env[in] = rint(len(a.e))
					}
				}
			}
			f.idx++
			return nil, nil
		}
		if in.Call.IsInvoke() {
			g.fail(in, "a call through an interface")
			return nil, nil
		}
		c, ok := g.operand(s, f, in.Call.Value).(rfn)
		if !ok {
			g.fail(in, "a call of an unknown function")
			return nil, nil
		}
		if fnPkgPath(c.fn) == "sort" && c.fn.Name() == "Search" {
			n, ok := g.operand(s, f, in.Call.Args[0]).(rint)
			pred, ok2 := g.operand(s, f, in.Call.Args[1]).(rfn)
			if !ok || !ok2 || len(pred.fn.Blocks) == 0 {
				g.fail(in, "a search with an unknown length or condition")
				return nil, nil
			}
			g.searchStep(s, f, in, pred, 0, int(n))
			return nil, nil
		}
		if len(c.fn.Blocks) == 0 || len(s.stack) > 30 {
			g.fail(in, "a call of %s, which has no body to analyse", c.fn.Name())
			return nil, nil
		}
		nf := &rframe{fn: c.fn, block: c.fn.Blocks[0], env: map[ssa.Value]rval{}, call: in}
		for i, prm := range c.fn.Params {
			nf.env[prm] = g.operand(s, f, in.Call.Args[i])
		}
		for i, fv := range c.fn.FreeVars {
			if i < len(c.binds) {
				nf.env[fv] = c.binds[i]
			}
		}
		s.stack = append(s.stack, nf)
	case ssa.Value:
		v, at := g.value(s, f, in)
		if at != nil {
			if *at <= s.lo || s.hi < *at {
				g.fail(f.block.Instrs[f.idx], "internal: bad cut")
				return nil, nil
			}
			up := s.clone()
			up.lo = *at
			s.hi = *at - 1
			return up, nil
		}
		f.env[in] = v
		f.idx++
	default:
		g.fail(in, "an instruction the analysis does not know: %T", in)
	}
	return nil, nil
}

// searchStep goes on with a binary search between lo and hi.
func (g *ranger) searchStep(s *rstate, f *rframe, call *ssa.Call, pred rfn, lo, hi int) {
	if lo >= hi {
		f.env[call] = rint(lo)
		f.idx++
		return
	}
	nf := &rframe{fn: pred.fn, block: pred.fn.Blocks[0], env: map[ssa.Value]rval{}, call: call, search: pred, slo: lo, shi: hi}
	nf.env[pred.fn.Params[0]] = rint((lo + hi) / 2)
	for i, fv := range pred.fn.FreeVars {
		nf.env[fv] = pred.binds[i]
	}
	s.stack = append(s.stack, nf)
}
