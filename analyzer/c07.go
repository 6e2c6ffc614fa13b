package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C07"] = checkC07 }

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errorType) }

// errResults returns the index of the error in a call's results (-1: none).
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErr(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "function value " + c.Value.Name()
}

// calls whose error cannot occur, or is documented to be nil
func errorCannotHappen(c *ssa.CallCommon) bool {
	n := calleeName(c)
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).Write") {
		return true
	}
	if strings.HasPrefix(n, "fmt.Fprint") && len(c.Args) > 0 {
		// to memory or to the standard streams
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			t := types.TypeString(mi.X.Type(), nil)
			if t == "*strings.Builder" || t == "*bytes.Buffer" {
				return true
			}
			if ld, ok := mi.X.(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
					return true
				}
			}
		}
	}
	if strings.HasPrefix(n, "(*github.com/tdewolff/parse/v2.BinaryWriter)") {
		return true // in-memory writer
	}
	return false
}

// stickyWriter: writes to a bufio.Writer whose Flush is called in the same function.
func stickyWriter(c *ssa.CallCommon, fn *ssa.Function) bool {
	n := calleeName(c)
	var w ssa.Value
	if strings.HasPrefix(n, "(*bufio.Writer).Write") {
		w = c.Args[0]
	} else if strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" {
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok && types.TypeString(mi.X.Type(), nil) == "*bufio.Writer" {
			w = mi.X
		}
	}
	if w == nil {
		return false
	}
	if _, isParam := w.(*ssa.Parameter); isParam {
		return true // the owner flushes
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "(*bufio.Writer).Flush" && sameVal(ci.Common().Args[0], w) {
				return true
			}
		}
	}
	return false
}

// nonNilErr: the value is an error that is certainly not nil at the given block.
func nonNilErr(v ssa.Value, at *ssa.BasicBlock, known map[ssa.Value]bool, depth int) bool {
	if depth > 12 || v == nil {
		return false
	}
	if known[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return nonNilErr(v.X, at, known, depth+1)
	case *ssa.Call:
		n := calleeName(&v.Call)
		if n == "fmt.Errorf" || n == "errors.New" {
			return true
		}
		if f := v.Call.StaticCallee(); f != nil && f.Blocks != nil && f.Signature.Results().Len() == 1 {
			if alwaysError(f, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok && isErr(v.Type()) {
				_ = g
				return true // package error values are never nil; see global check
			}
			if c := canon(v); c != v {
				if nonNilErr(c, at, known, depth+1) {
					return true
				}
			}
		}
	case *ssa.Phi:
		if guardedNonNil(v, at) {
			return true
		}
		for i, e := range v.Edges {
			if e == v {
				continue
			}
			if !nonNilErr(e, v.Block().Preds[i], known, depth+1) && !guardedNonNil(e, v.Block().Preds[i]) {
				return false
			}
		}
		return true
	}
	return guardedNonNil(v, at)
}

func alwaysError(f *ssa.Function, depth int) bool {
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !nonNilErr(ret.Results[len(ret.Results)-1], b, nil, depth) {
				return false
			}
		}
	}
	return true
}

// nilTest decodes a comparison of v with nil: eq reports "v == nil".
func nilTest(cond ssa.Value) (v ssa.Value, eq bool, ok bool) {
	neg := false
	for {
		u, isU := cond.(*ssa.UnOp)
		if !isU || u.Op != token.NOT {
			break
		}
		neg = !neg
		cond = u.X
	}
	bo, isB := cond.(*ssa.BinOp)
	if !isB || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return nil, false, false
	}
	eq = (bo.Op == token.EQL) != neg
	if c, isC := bo.Y.(*ssa.Const); isC && c.IsNil() {
		return bo.X, eq, true
	}
	if c, isC := bo.X.(*ssa.Const); isC && c.IsNil() {
		return bo.Y, eq, true
	}
	return nil, false, false
}

// edgeDominates: every path to block b uses the edge from -> to.
func edgeDominates(from, to, b *ssa.BasicBlock) bool {
	if !to.Dominates(b) {
		return false
	}
	for _, p := range to.Preds {
		if p == from {
			n := 0
			for _, s := range from.Succs {
				if s == to {
					n++
				}
			}
			if n > 1 {
				return false
			}
			continue
		}
		if !to.Dominates(p) {
			return false
		}
	}
	return true
}

// guardedNonNil: b is only reached over the non-nil branch of a test of v.
func guardedNonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, eq, ok := nilTest(iff.Cond)
		if ok && sameVal(x, v) {
			s := d.Succs[0]
			if eq {
				s = d.Succs[1]
			}
			if edgeDominates(d, s, b) {
				return true
			}
		}
		// err == ErrX or err == io.EOF: equal to a package error value
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (sameVal(bo.X, v) || sameVal(bo.Y, v)) {
			o := bo.Y
			if sameVal(bo.Y, v) {
				o = bo.X
			}
			if ld, ok := o.(*ssa.UnOp); ok {
				if _, isG := ld.X.(*ssa.Global); isG {
					s := d.Succs[0]
					if bo.Op == token.NEQ {
						s = d.Succs[1]
					}
					if edgeDominates(d, s, b) {
						return true
					}
				}
			}
		}
	}
	return false
}

func sameVal(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	return canon(x) == canon(y)
}

// realRefs lists the uses of a value other than debug information.
func realRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

type c07 struct {
	p    *Prog
	r    *Report
	fns  []*ssa.Function
	seen map[string]int
}

// failures that are answered in another way than by an error, with the reason
var toleratedErrors = []struct {
	match func(fn *ssa.Function, v ssa.Value, callee string, start *ssa.BasicBlock) bool
	why   string
}{
	{func(fn *ssa.Function, v ssa.Value, callee string, start *ssa.BasicBlock) bool {
		return callee == "os.Stat" || callee == "os.Lstat"
	}, "existence probe, the failure is the answer (C13 decides what follows from it)"},
	{func(fn *ssa.Function, v ssa.Value, callee string, start *ssa.BasicBlock) bool {
		if callee != "(*glyfTable).Contour" {
			return false
		}
		for _, i := range start.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci.Common()), "glyfTable).Get") {
				return true
			}
		}
		return false
	}, "a glyph that cannot be decoded is copied as it is"},
	{func(fn *ssa.Function, v ssa.Value, callee string, start *ssa.BasicBlock) bool {
		_, isParam := v.(*ssa.Parameter)
		return isWalkDirFunc(fn.Signature) && !isParam
	}, "a directory scan skips files that cannot be read or parsed; errors of the walk itself are returned"},
}

func isWalkDirFunc(s *types.Signature) bool {
	return s.Params().Len() == 3 && s.Results().Len() == 1 && isErr(s.Results().At(0).Type()) && isErr(s.Params().At(2).Type()) &&
		types.TypeString(s.Params().At(1).Type(), nil) == "io/fs.DirEntry"
}

func checkC07(p *Prog, r *Report) {
	r.Rule("error-examined", "the error of every call is used: compared with nil, returned, or handed on; it is never left unread or overwritten before being read", 150)
	r.Rule("error-propagated", "on the branch where an error is known to be non-nil, every path out of the function returns a non-nil error", 90)
	r.Rule("error-built-is-used", "an error that is constructed is returned or handed on", 150)
	c := &c07{p: p, r: r, fns: p.liveFuncs(), seen: map[string]int{}}
	for _, fn := range c.fns {
		c.fn(fn)
	}
}

func (c *c07) key(fn *ssa.Function, what string) string {
	k := fnName(fn) + ": " + what
	return k
}

// sinks follows an error value through phis, conversions and local cells and reports how it is used.
type errUse struct {
	tests   []*ssa.If
	compare bool
	ret     bool
	handed  bool
}

func (c *c07) uses(v ssa.Value, u *errUse, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	for _, in := range realRefs(v) {
		switch in := in.(type) {
		case *ssa.Return:
			u.ret = true
		case *ssa.BinOp:
			u.compare = true
			for _, rr := range realRefs(in) {
				c.condUses(rr, in, u, 0)
			}
		case *ssa.Phi:
			c.uses(in, u, seen)
		case *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.ChangeType:
			c.uses(in.(ssa.Value), u, seen)
			if _, ok := in.(*ssa.TypeAssert); ok {
				u.compare = true
			}
		case *ssa.Store:
			if in.Val != v {
				continue
			}
			switch addr := in.Addr.(type) {
			case *ssa.Alloc:
				// loads that this store may reach
				for _, ld := range reachedLoads(in, addr) {
					c.uses(ld, u, seen)
				}
				if cellEscapes(addr) {
					u.handed = true
				}
			case *ssa.FreeVar:
				u.handed = true
			default:
				u.handed = true // element of a variadic slice, struct field
			}
		case ssa.CallInstruction:
			u.handed = true
		case *ssa.Extract:
			c.uses(in, u, seen)
		default:
			u.handed = true
		}
	}
}

func (c *c07) condUses(in ssa.Instruction, v ssa.Value, u *errUse, depth int) {
	if depth > 4 {
		return
	}
	switch in := in.(type) {
	case *ssa.If:
		u.tests = append(u.tests, in)
	case *ssa.UnOp, *ssa.Phi, *ssa.BinOp:
		for _, rr := range realRefs(in.(ssa.Value)) {
			c.condUses(rr, in.(ssa.Value), u, depth+1)
		}
	case *ssa.Return, *ssa.Store, ssa.CallInstruction:
		u.handed = true
	}
}

func cellEscapes(al *ssa.Alloc) bool {
	for _, r := range realRefs(al) {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == al {
				return true
			}
		case *ssa.UnOp:
		default:
			return true
		}
	}
	return false
}

// reachedLoads lists loads of the cell that the store reaches without another store in between.
func reachedLoads(st *ssa.Store, al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for _, in := range b.Instrs[i:] {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == al {
					return
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && in.X == al {
					out = append(out, in)
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, in := range st.Block().Instrs {
		if in == st {
			walk(st.Block(), i+1)
		}
	}
	return out
}

// errValue: the error that a call returns, nil if nothing takes it.
func errValue(cv *ssa.Call, idx int) ssa.Value {
	if cv.Call.Signature().Results().Len() == 1 {
		if len(realRefs(cv)) == 0 {
			return nil
		}
		return cv
	}
	for _, rr := range realRefs(cv) {
		if ex, ok := rr.(*ssa.Extract); ok && ex.Index == idx {
			return ex
		}
		if _, ok := rr.(*ssa.Return); ok {
			return cv
		}
	}
	return nil
}

// mayFailSilently: this Close has nothing to report that is not reported otherwise: it closes no compressor
// (whose Close writes what is left), or the function is on its way out with another error.
func mayFailSilently(com *ssa.CallCommon, fn *ssa.Function, at *ssa.BasicBlock) bool {
	v := com.Value
	if !com.IsInvoke() {
		if len(com.Args) == 0 {
			return true
		}
		v = com.Args[0]
	}
	if !isCompressor(v, 0) {
		return true
	}
	if at == nil || errIndex(fn.Signature) < 0 {
		return false
	}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		x, eq, ok := nilTest(iff.Cond)
		if !ok || !isErr(x.Type()) {
			continue
		}
		s := b.Succs[0]
		if eq {
			s = b.Succs[1]
		}
		if edgeDominates(b, s, at) && mustReturnError(nil, fn, b, s, x) == "" {
			return true
		}
	}
	return false
}

func isCompressor(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	t := types.TypeString(v.Type(), nil)
	if strings.HasSuffix(t, ".Writer") && (strings.Contains(t, "compress/") || strings.Contains(t, "brotli")) {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return isCompressor(v.X, d+1)
	case *ssa.ChangeInterface:
		return isCompressor(v.X, d+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) && isCompressor(e, d+1) {
				return true
			}
		}
	case *ssa.Extract:
		return isCompressor(v.Tuple, d+1)
	}
	return false
}

func (c *c07) fn(fn *ssa.Function) {
	if isWalkDirFunc(fn.Signature) {
		c.propagate(fn, fn.Params[len(fn.Params)-1], "error parameter", c.p.where(fn.Pos()))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := call.Common()
			if _, isB := com.Value.(*ssa.Builtin); isB {
				continue
			}
			idx := errIndex(com.Signature())
			if idx < 0 || errorCannotHappen(com) {
				continue
			}
			name := calleeName(com)
			short := strings.ReplaceAll(strings.ReplaceAll(name, fontPath+"/cmd/fontcmd.", ""), fontPath+".", "")
			where := c.p.where(instrPos(in))
			if stickyWriter(com, fn) {
				c.r.OK("error-examined", c.key(fn, short), where, "bufio.Writer keeps the error for Flush, which this function calls")
				continue
			}
			if name == fontPath+".MediaType" && fnPkgPath(fn) != fontPath {
				c.r.OK("error-examined", c.key(fn, short), where, "an unknown type is an empty type; opening the font reports it")
				continue
			}
			rule := "error-examined"
			if name == "fmt.Errorf" || name == "errors.New" {
				rule = "error-built-is-used"
			}
			if strings.HasSuffix(name, ".Close") && mayFailSilently(com, fn, in.Block()) {
				if _, isCall := in.(*ssa.Call); !isCall || errValue(in.(*ssa.Call), idx) == nil {
					continue // C12 decides which closes of files may fail silently
				}
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				c.r.Bad(rule, c.key(fn, "deferred "+short), where, "the error of a deferred call is lost")
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				c.r.Bad(rule, c.key(fn, "go "+short), where, "the error of a goroutine is lost")
				continue
			}
			cv := in.(*ssa.Call)
			ev := errValue(cv, idx)
			if ev == nil {
				c.r.Bad(rule, c.key(fn, short), where, "the error result is discarded")
				continue
			}
			u := &errUse{}
			c.uses(ev, u, map[ssa.Value]bool{})
			if !u.compare && !u.ret && !u.handed {
				if strings.HasSuffix(name, ".Close") && mayFailSilently(com, fn, in.Block()) {
					continue
				}
				c.r.Bad(rule, c.key(fn, short), where, "the error is assigned but never looked at")
				continue
			}
			c.r.OK(rule, c.key(fn, short), where, fmt.Sprintf("compared=%v returned=%v handed on=%v", u.compare, u.ret, u.handed))
			if rule == "error-built-is-used" {
				continue
			}
			c.propagate(fn, ev, short, where)
		}
	}
}

// propagate: from each non-nil branch of a test of ev, every return carries a non-nil error.
func (c *c07) propagate(fn *ssa.Function, ev ssa.Value, short, where string) {
	if errIndex(fn.Signature) < 0 {
		return
	}
	seen := map[ssa.Value]bool{}
	var vals []ssa.Value
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		vals = append(vals, v)
		for _, in := range realRefs(v) {
			if ph, ok := in.(*ssa.Phi); ok {
				collect(ph)
			}
			if st, ok := in.(*ssa.Store); ok && st.Val == v {
				if al, ok := st.Addr.(*ssa.Alloc); ok {
					for _, ld := range reachedLoads(st, al) {
						collect(ld)
					}
				}
			}
		}
	}
	collect(ev)
	for _, v := range vals {
		for _, in := range realRefs(v) {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, rr := range realRefs(bo) {
				if ph, ok := rr.(*ssa.Phi); ok {
					// the test is one part of a condition
					if x, _, ok := nilTest(bo); ok && x == v {
						for k, e := range ph.Edges {
							if e == ssa.Value(bo) {
								c.checkBranch(fn, ph.Block().Preds[k], ph.Block(), v, short, where)
							}
						}
					}
				}
				iff, ok := rr.(*ssa.If)
				if !ok {
					continue
				}
				x, eq, ok := nilTest(iff.Cond)
				if !ok || x != v {
					continue
				}
				s := iff.Block().Succs[0]
				if eq {
					s = iff.Block().Succs[1]
				}
				c.checkBranch(fn, iff.Block(), s, v, short, where)
			}
		}
	}
}

// checkBranch: forward must-analysis ("known non-nil" facts) from the edge on which v is non-nil; every
// return that is reached must carry a value known to be non-nil. Edges that contradict the facts are not taken.
func (c *c07) checkBranch(fn *ssa.Function, from, start *ssa.BasicBlock, v ssa.Value, short, where string) {
	bad := ""
	tol := ""
	for _, t := range toleratedErrors {
		if t.match(fn, v, short, start) {
			tol = t.why
		}
	}
	if tol == "" {
		bad = mustReturnError(c.p, fn, from, start, v)
	}
	c.r.Add("error-propagated", c.key(fn, short), where, bad == "", func() string {
		if tol != "" {
			return "by design: " + tol
		}
		if bad == "" {
			return "all returns on the failing branch carry an error"
		}
		return "the failing branch can reach the return at " + bad + ", which may report success"
	}())
}

type facts map[ssa.Value]bool

func mustReturnError(p *Prog, fn *ssa.Function, from, start *ssa.BasicBlock, v ssa.Value) string {
	idx := errIndex(fn.Signature)
	in := map[*ssa.BasicBlock]facts{}
	work := []*ssa.BasicBlock{}
	clone := func(f facts) facts {
		g := facts{}
		for k := range f {
			g[k] = true
		}
		return g
	}
	// the booleans whose value is known when a block is entered
	bools := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	var boolOf func(x ssa.Value, at *ssa.BasicBlock, f facts, known map[ssa.Value]bool) (val, ok bool)
	boolOf = func(x ssa.Value, at *ssa.BasicBlock, f facts, known map[ssa.Value]bool) (val, ok bool) {
		if val, ok := known[x]; ok {
			return val, true
		}
		switch t := x.(type) {
		case *ssa.Const:
			return constant.BoolVal(t.Value), true
		case *ssa.UnOp:
			if t.Op == token.NOT {
				val, ok := boolOf(t.X, at, f, known)
				return !val, ok
			}
		case *ssa.BinOp:
			if x, eq, ok := nilTest(t); ok && isErr(x.Type()) && nonNilErr(x, at, f, 0) {
				return !eq, true
			}
		}
		return false, false
	}
	flow := func(a, b *ssa.BasicBlock, f facts) {
		f = clone(f)
		known := map[ssa.Value]bool{}
		for k, val := range bools[a] {
			known[k] = val
		}
		if iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If); ok && a.Succs[0] != a.Succs[1] {
			if val, ok := boolOf(iff.Cond, a, f, known); ok && val != (b == a.Succs[0]) {
				return // contradicts what is known
			}
			known[iff.Cond] = b == a.Succs[0]
		}
		phis := map[ssa.Value]bool{}
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == a && isBool(ph.Type()) {
					if val, ok := boolOf(ph.Edges[k], a, f, known); ok {
						phis[ph] = val
					}
				}
			}
		}
		for _, i := range b.Instrs {
			if val, ok := i.(ssa.Value); ok {
				delete(known, val)
			}
		}
		for k, val := range phis {
			known[k] = val
		}
		if iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If); ok && a.Succs[0] != a.Succs[1] {
			if x, eq, ok := nilTest(iff.Cond); ok && isErr(x.Type()) {
				nonNilEdge := a.Succs[0]
				if eq {
					nonNilEdge = a.Succs[1]
				}
				if b == nonNilEdge {
					f[x] = true
				} else if nonNilErr(x, a, f, 0) {
					return // contradicts what is known
				}
			}
		}
		upd := map[*ssa.Phi]bool{}
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !isErr(ph.Type()) {
				continue
			}
			for k, pr := range b.Preds {
				if pr == a {
					upd[ph] = nonNilErr(ph.Edges[k], a, f, 0)
				}
			}
		}
		for ph, ok := range upd {
			if ok {
				f[ph] = true
			} else {
				delete(f, ph)
			}
		}
		old, ok := in[b]
		if !ok {
			in[b], bools[b] = f, known
			work = append(work, b)
			return
		}
		changed := false
		for k, val := range bools[b] {
			if v2, ok := known[k]; !ok || v2 != val {
				delete(bools[b], k)
				changed = true
			}
		}
		for k := range old {
			if !f[k] {
				delete(old, k)
				changed = true
			}
		}
		if changed {
			work = append(work, b)
		}
	}
	out := func(b *ssa.BasicBlock) (facts, *ssa.Return) {
		f := clone(in[b])
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Return:
				return f, i
			case *ssa.Store:
				if al, ok := i.Addr.(*ssa.Alloc); ok && isErr(i.Val.Type()) {
					if nonNilErr(i.Val, b, f, 0) {
						f[al] = true
					} else {
						delete(f, al)
					}
				}
				continue
			case *ssa.UnOp:
				delete(f, i)
				if al, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL && f[al] {
					f[i] = true
				}
				continue
			}
			if _, ok := i.(ssa.CallInstruction); ok {
				for k := range f {
					if al, ok := k.(*ssa.Alloc); ok && cellEscapes(al) {
						delete(f, al)
					}
				}
			}
			if val, ok := i.(ssa.Value); ok {
				delete(f, val)
			}
		}
		return f, nil
	}
	flow(from, start, facts{v: true})
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		f, ret := out(b)
		if ret != nil {
			continue
		}
		for _, s := range b.Succs {
			flow(b, s, f)
		}
	}
	for b := range in {
		f, ret := out(b)
		if ret != nil && !nonNilErr(ret.Results[idx], b, f, 0) {
			if p == nil {
				return "?"
			}
			return p.where(instrPos(ret))
		}
	}
	return ""
}
