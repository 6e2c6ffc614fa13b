package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// exits gives, for each exit test that is passed in every iteration, the condition and whether it holds when the loop goes on.
func exits(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, f func(blk *ssa.BasicBlock, cond ssa.Value, stay bool) bool) bool {
	for _, blk := range head.Parent().Blocks {
		if !in[blk] || !everyTime(blk, head, in) {
			continue
		}
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || in[blk.Succs[0]] == in[blk.Succs[1]] {
			continue
		}
		cond, stay := iff.Cond, in[blk.Succs[0]]
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, stay = u.X, !stay
		}
		if f(blk, cond, stay) {
			return true
		}
	}
	return false
}

// scans: the loop goes on as long as a scanner has another token.
func (t *termination) scans(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	return exits(head, in, func(blk *ssa.BasicBlock, cond ssa.Value, stay bool) bool {
		c, ok := cond.(*ssa.Call)
		return ok && stay && in[c.Block()] && calleeName(&c.Call) == "(*bufio.Scanner).Scan"
	})
}

// aligns: bytes are written until the length is a multiple of a number.
func (t *termination) aligns(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	return exits(head, in, func(blk *ssa.BasicBlock, cond ssa.Value, stay bool) bool {
		bo, ok := cond.(*ssa.BinOp)
		if !ok || !(bo.Op == token.NEQ && stay || bo.Op == token.EQL && !stay) {
			return false
		}
		left, right := bo.X, bo.Y
		if isZero(left) {
			left, right = right, left
		}
		if !isZero(right) {
			return false
		}
		rem, ok := left.(*ssa.BinOp)
		if !ok {
			return false
		}
		n, isC := constInt(rem.Y)
		if !isC || n <= 0 || !(rem.Op == token.REM || rem.Op == token.AND && n&(n+1) == 0) {
			return false
		}
		l, ok := rem.X.(*ssa.Call)
		if !ok || len(l.Call.Args) == 0 || l.Call.StaticCallee() == nil || fnPkgPath(l.Call.StaticCallee()) != parsePath || l.Call.StaticCallee().Name() != "Len" {
			return false
		}
		written := 0
		for _, b := range sortedBlocks(in) {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					return false
				case ssa.CallInstruction:
					if i == ssa.CallInstruction(l) {
						continue
					}
					f := i.Common().StaticCallee()
					if f == nil || f.Signature.Recv() == nil || i.Common().Args[0] != l.Call.Args[0] || !everyTime(b, head, in) {
						return false
					}
					switch f.Name() {
					case "WriteByte", "WriteUint8", "WriteInt8":
						written++
					default:
						return false
					}
				}
			}
		}
		return written == 1
	})
}

// cellCounter: a counter that is captured, and so has a cell of its own in each iteration.
func (t *termination) cellCounter(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	for _, i := range head.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if pt, ok := phi.Type().Underlying().(*types.Pointer); !ok || !isInt(pt.Elem()) {
			continue
		}
		if t.cell(phi, head, in) {
			return true
		}
	}
	return false
}

func (t *termination) cell(phi *ssa.Phi, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	// only the stores that make the next value
	for _, u := range realRefs(phi) {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for n, bnd := range u.Bindings {
				if bnd != ssa.Value(phi) {
					continue
				}
				for _, w := range realRefs(u.Fn.(*ssa.Function).FreeVars[n]) {
					if _, ok := w.(*ssa.UnOp); !ok {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	isCur := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == ssa.Value(phi)
	}
	for n, e := range phi.Edges {
		a, ok := e.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, u := range realRefs(a) {
			switch u := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef, *ssa.Phi:
			case *ssa.Store:
				if u.Val == ssa.Value(a) {
					return false
				}
			default:
				return false
			}
		}
		if !in[head.Preds[n]] {
			continue
		}
		// follow the stores in the block of the allocation
		cur := int64(0)
		known := false
		for _, i := range a.Block().Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(a) {
				continue
			}
			v, add := st.Val, int64(0)
			if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if k, ok := constInt(bo.Y); ok {
					v, add = bo.X, k
				}
			}
			switch {
			case isCur(v):
				cur, known = add, true
			case known:
				u, ok := v.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(a) {
					return false
				}
				cur += add
			default:
				return false
			}
		}
		for _, u := range realRefs(a) {
			if st, ok := u.(*ssa.Store); ok && st.Block() != a.Block() {
				return false
			}
		}
		if !known || cur != 1 {
			return false
		}
	}
	return exits(head, in, func(blk *ssa.BasicBlock, cond ssa.Value, stay bool) bool {
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if !isCur(x) {
			x, y, op = y, x, mirror(op)
		}
		if !stay {
			op = negate(op)
		}
		if !isCur(x) || op != token.LSS {
			return false
		}
		if _, hi, _, hh := typeRange(x.Type()); hh && hi <= 1<<32 {
			return true
		}
		l := t.b.linOf(y)
		if l.bad {
			return false
		}
		for _, a := range l.atoms() {
			if !t.unchanged(a, head, in, 0) {
				return false
			}
		}
		return true
	})
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

// A skipper is a function (b, i) that returns the first position from i on where a test of b[i] has the given outcome.
type skipper struct {
	pred *ssa.Function
	stop bool // the outcome at which it stops
	res  int  // the result that is the position
}

func skipperOf(f *ssa.Function) (skipper, bool) {
	var sk skipper
	if f == nil || len(f.Blocks) == 0 || len(f.Params) != 2 {
		return sk, false
	}
	var head *ssa.BasicBlock
	var in map[*ssa.BasicBlock]bool
	for _, b := range f.Blocks {
		if l := loopOf(b); l != nil {
			if head != nil {
				return sk, false
			}
			head, in = b, l
		}
	}
	if head == nil {
		return sk, false
	}
	var phi *ssa.Phi
	for _, i := range head.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			if phi != nil {
				return sk, false
			}
			phi = p
		}
	}
	if phi == nil {
		return sk, false
	}
	for n, e := range phi.Edges {
		if !in[head.Preds[n]] {
			if e != ssa.Value(f.Params[1]) {
				return sk, false
			}
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if k, isC := int64(0), false; ok {
			k, isC = constInt(bo.Y)
			ok = isC && k == 1 && bo.Op == token.ADD && bo.X == ssa.Value(phi)
		}
		if !ok {
			return sk, false
		}
	}
	for _, b := range sortedBlocks(in) {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if in[b.Succs[0]] == in[b.Succs[1]] {
			return sk, false
		}
		if c, ok := iff.Cond.(*ssa.Call); ok {
			if c.Call.StaticCallee() == nil || len(c.Call.Args) != 1 || sk.pred != nil {
				return sk, false
			}
			ld, ok := c.Call.Args[0].(*ssa.UnOp)
			if !ok {
				return sk, false
			}
			ix, ok := ld.X.(*ssa.IndexAddr)
			if !ok || ix.X != ssa.Value(f.Params[0]) || ix.Index != ssa.Value(phi) {
				return sk, false
			}
			sk.pred, sk.stop = c.Call.StaticCallee(), !in[b.Succs[0]]
		} else if x, y, ok := belowOn(iff.Cond, in[b.Succs[0]]); ok {
			l, isLen := y.(*ssa.Call)
			if !isLen || x != ssa.Value(phi) {
				return sk, false
			}
			if bi, ok := l.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || l.Call.Args[0] != ssa.Value(f.Params[0]) {
				return sk, false
			}
		} else {
			return sk, false
		}
	}
	if sk.pred == nil {
		return sk, false
	}
	sk.res = -1
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for n, v := range ret.Results {
				if v == ssa.Value(phi) {
					sk.res = n
				}
			}
		}
	}
	return sk, sk.res >= 0
}

// skips: each iteration skips what passes a test and then what does not, so that the position moves on.
func (t *termination) skips(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	pos := func(v ssa.Value) (*ssa.Call, skipper, bool) {
		n := 0
		if ex, ok := v.(*ssa.Extract); ok {
			v, n = ex.Tuple, ex.Index
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil, skipper{}, false
		}
		sk, ok := skipperOf(c.Call.StaticCallee())
		return c, sk, ok && sk.res == n
	}
	b := t.b
	for _, blk := range sortedBlocks(in) {
		if !everyTime(blk, head, in) {
			continue
		}
		for _, i := range blk.Instrs {
			c2, s2, ok := pos(resultOf(i))
			if !ok {
				continue
			}
			c1, s1, ok := pos(c2.Call.Args[1])
			if !ok || s1.pred != s2.pred || s1.stop == s2.stop || c1.Call.Args[0] != c2.Call.Args[0] || definedIn(c1Arg(c1), in) {
				continue
			}
			phi, ok := c1.Call.Args[1].(*ssa.Phi)
			if !ok || phi.Block() != head {
				continue
			}
			// within the limit, what stops at the one outcome and then at the other has moved
			room := b.lenOf(c1Arg(c1)).sub(b.linOf(phi)).plus(-1)
			b.fuel = 5000
			if room.bad || !b.prove(room, c1.Block(), 4) {
				continue
			}
			old := b.assume[blk]
			b.assume[blk] = append(append([]lin{}, old...), b.linOf(resultOf(i)).sub(b.linOf(phi)).plus(-1))
			b.nAssume++
			good := t.decreases(room, false, head, in)
			b.assume[blk] = old
			b.nAssume--
			if good {
				return true
			}
		}
	}
	return false
}

// resultOf: the instruction as a value.
func resultOf(i ssa.Instruction) ssa.Value {
	v, _ := i.(ssa.Value)
	return v
}

func c1Arg(c *ssa.Call) ssa.Value {
	if c == nil || len(c.Call.Args) == 0 {
		return nil
	}
	return c.Call.Args[0]
}

func definedIn(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	i, ok := v.(ssa.Instruction)
	return ok && in[i.Block()]
}

// withHull tries again with the integers of the loop known to stay in a range that additions do not leave, when that is so.
func (t *termination) withHull(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, try func() bool) bool {
	old := t.b
	nb := old.fork()
	var phis []*ssa.Phi
	for _, i := range head.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInt(phi.Type()) || !wide(phi.Type()) {
			continue
		}
		ok = true
		for n, e := range phi.Edges {
			if !in[head.Preds[n]] {
				x := old.linOf(e)
				old.fuel = 1000
				ok = ok && !x.bad && old.proveEdge(x, head.Preds[n], head, 3) && old.proveEdge(lconst(maxLen).sub(x), head.Preds[n], head, 3)
			}
		}
		if ok {
			phis = append(phis, phi)
			nb.hull[phi] = true
		}
	}
	if len(phis) == 0 {
		return false
	}
	for _, phi := range phis {
		for n, e := range phi.Edges {
			if !in[head.Preds[n]] {
				continue
			}
			x := nb.linOf(e)
			nb.fuel = 2000
			if x.bad || !nb.proveEdge(x, head.Preds[n], head, 4) || !nb.proveEdge(lconst(maxLen).sub(x), head.Preds[n], head, 4) {
				return false
			}
		}
	}
	t.b = nb
	defer func() { t.b = old }()
	return try()
}

// fork: the same program with fresh results.
func (b *bp) fork() *bp {
	n := *b
	n.ids, n.atoms = map[atomKey]int{}, nil
	n.linMemo, n.busy, n.lenMemo = map[ssa.Value]lin{}, map[ssa.Value]bool{}, map[any]lin{}
	n.memo, n.open, n.assume = map[string]bool{}, map[string]bool{}, map[*ssa.BasicBlock][]lin{}
	n.sumMemo, n.sumBusy = map[string]sumEntry{}, map[string]bool{}
	n.shrinks, n.killMemo = map[memSumKey]bool{}, map[*memVal][]lin{}
	n.hull = map[*ssa.Phi]bool{}
	return &n
}

// fixpoint: the loop puts F(x) for x until nothing changes, where F only ever gives more for more and stays below a limit, starting from below F(start).
func (t *termination) fixpoint(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	return exits(head, in, func(blk *ssa.BasicBlock, cond ssa.Value, stay bool) bool {
		bo, ok := cond.(*ssa.BinOp)
		if !ok || blk != head || !(bo.Op == token.NEQ && stay || bo.Op == token.EQL && !stay) {
			return false
		}
		x, ok1 := bo.X.(*ssa.Phi)
		p, ok2 := bo.Y.(*ssa.Phi)
		if !ok1 || !ok2 || x.Block() != head || p.Block() != head {
			return false
		}
		try := func(x, p *ssa.Phi) bool {
			for n, pred := range head.Preds {
				if !in[pred] {
					// F is nowhere negative, so that it starts by going up from zero
					if c, ok := constInt(x.Edges[n]); !ok || c > 0 {
						return false
					}
					continue
				}
				if p.Edges[n] != ssa.Value(x) || !t.positive(x.Edges[n], x, p, in, pred, 0) || !t.rises(x.Edges[n], x, in, true, 0) {
					return false
				}
			}
			return true
		}
		return try(x, p) || try(p, x)
	})
}

// positive: v is not below zero when x is not.
func (t *termination) positive(v ssa.Value, x, p *ssa.Phi, in map[*ssa.BasicBlock]bool, blk *ssa.BasicBlock, depth int) bool {
	if v == ssa.Value(x) {
		return true
	}
	if depth > 20 {
		return false
	}
	l := t.b.linOf(v)
	t.b.fuel = 3000
	if !l.bad && t.b.prove(l, blk, 3) {
		return true
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == x.Block() || loopOf(v.Block()) != nil {
			return false
		}
		for n, e := range v.Edges {
			if !t.positive(e, x, p, in, v.Block().Preds[n], depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return t.positive(v.X, x, p, in, blk, depth+1) && t.positive(v.Y, x, p, in, blk, depth+1)
		case token.MUL:
			c, ok := constInt(v.X)
			d, ok2 := constInt(v.Y)
			return ok && c >= 0 && t.positive(v.Y, x, p, in, blk, depth+1) || ok2 && d >= 0 && t.positive(v.X, x, p, in, blk, depth+1)
		case token.SUB:
			// the same rising function of more
			c, ok1 := v.X.(*ssa.Call)
			d, ok2 := v.Y.(*ssa.Call)
			if !ok1 || !ok2 || c.Call.StaticCallee() == nil || c.Call.StaticCallee() != d.Call.StaticCallee() || len(c.Call.Args) != 1 || !rising(c.Call.StaticCallee(), false) {
				return false
			}
			// the addends of the one are among those of the other
			var left []ssa.Value
			k := addends(c.Call.Args[0], &left)
			var less []ssa.Value
			k -= addends(d.Call.Args[0], &less)
			for _, w := range less {
				found := false
				for i := range left {
					if left[i] == w {
						left = append(left[:i:i], left[i+1:]...)
						found = true
						break
					}
				}
				if !found {
					return false
				}
			}
			for _, w := range left {
				if !t.positive(w, x, p, in, blk, depth+1) {
					return false
				}
			}
			return k >= 0
		}
	case *ssa.Convert:
		return isInt(v.X.Type()) && wide(v.Type()) && wide(v.X.Type()) && t.positive(v.X, x, p, in, blk, depth+1)
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			if g.Name() == "Len" && fnPkgPath(g) == parsePath {
				return true
			}
			cuts := map[int64]bool{}
			if steps(g, cuts, 0) {
				for c := range cuts {
					for _, a := range []int64{c - 1, c, c + 1} {
						if r, ok := stepAt(g, a, 0); !ok || r < 0 {
							return false
						}
					}
				}
				return true
			}
		}
	}
	return false
}

// addends splits a sum into its parts and its constant.
func addends(v ssa.Value, out *[]ssa.Value) int64 {
	if c, ok := constInt(v); ok {
		return c
	}
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		return addends(bo.X, out) + addends(bo.Y, out)
	}
	*out = append(*out, v)
	return 0
}

// rising: a function of few values that does not give less for more.
func rising(g *ssa.Function, positive bool) bool {
	cuts := map[int64]bool{}
	if !steps(g, cuts, 0) {
		return false
	}
	at := []int64{0, math.MaxInt64 >> 1, math.MinInt64 >> 1}
	for c := range cuts {
		at = append(at, c-1, c, c+1)
	}
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	last, some := int64(0), false
	for _, a := range at {
		if positive && a < 0 {
			continue
		}
		r, ok := stepAt(g, a, 0)
		if !ok || some && r < last {
			return false
		}
		last, some = r, true
	}
	return true
}

// rises: v does not get smaller when x gets larger; outer: and x has a limited influence on it.
func (t *termination) rises(v ssa.Value, x *ssa.Phi, in map[*ssa.BasicBlock]bool, outer bool, depth int) bool {
	if v == ssa.Value(x) {
		return !outer
	}
	if !definedIn(v, in) {
		return true
	}
	if depth > 20 {
		return false
	}
	up := func(w ssa.Value, o bool) bool { return t.rises(w, x, in, o, depth+1) }
	fixed := func(w ssa.Value) bool { return !definedIn(w, in) }
	switch v := v.(type) {
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return up(v.X, outer) && up(v.Y, outer)
		case token.SUB:
			return up(v.X, outer) && fixed(v.Y)
		case token.MUL:
			if c, ok := constInt(v.X); ok && c >= 0 {
				return up(v.Y, outer)
			}
			c, ok := constInt(v.Y)
			return ok && c >= 0 && up(v.X, outer)
		}
	case *ssa.Phi:
		// which of the values it is does not depend on x
		for _, e := range v.Edges {
			if !up(e, outer) {
				return false
			}
		}
		for _, d := range sortedBlocks(in) {
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || !d.Dominates(v.Block()) && d != v.Block() {
				continue
			}
			if d.Dominates(v.Block()) && d != x.Block() {
				c := iff.Cond
				if cb, ok := c.(*ssa.BinOp); ok && definedIn(c, in) {
					if !fixed(cb.X) || !fixed(cb.Y) {
						return false
					}
				} else if definedIn(c, in) {
					return false
				}
			}
		}
		return v.Block() != x.Block()
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || len(v.Call.Args) != 1 || !up(v.Call.Args[0], false) {
			return false
		}
		return rising(g, false) || rising(g, true) && t.positive(v.Call.Args[0], x, nil, in, v.Block(), 0)
	}
	return false
}

// steps: a function of an integer that only compares it with constants and returns constants, or what such a function gives for it.
func steps(f *ssa.Function, cuts map[int64]bool, depth int) bool {
	if depth > 4 || len(f.Blocks) == 0 || len(f.Params) != 1 || f.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.BinOp:
				if !isBool(i.Type()) {
					return false
				}
				cx, okx := constInt(i.X)
				cy, oky := constInt(i.Y)
				switch {
				case i.X == ssa.Value(f.Params[0]) && oky:
					cuts[cy] = true
				case i.Y == ssa.Value(f.Params[0]) && okx:
					cuts[cx] = true
				default:
					return false
				}
			case *ssa.Call:
				g := i.Call.StaticCallee()
				if g == nil || len(i.Call.Args) != 1 || i.Call.Args[0] != ssa.Value(f.Params[0]) || !steps(g, cuts, depth+1) {
					return false
				}
			case *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.DebugRef, *ssa.Return:
			default:
				return false
			}
		}
	}
	return true
}

// stepAt: the constant that a function for which steps holds gives in the interval of a.
func stepAt(f *ssa.Function, a int64, depth int) (int64, bool) {
	if depth > 4 {
		return 0, false
	}
	var prev *ssa.BasicBlock
	blk := f.Blocks[0]
	vals := map[ssa.Value]int64{f.Params[0]: a}
	get := func(v ssa.Value) (int64, bool) {
		if c, ok := constInt(v); ok {
			return c, true
		}
		x, ok := vals[v]
		return x, ok
	}
	for n := 0; n < 200; n++ {
		var next *ssa.BasicBlock
		for _, i := range blk.Instrs {
			switch i := i.(type) {
			case *ssa.Phi:
				for k, p := range blk.Preds {
					if p == prev {
						if c, ok := i.Edges[k].(*ssa.Const); ok && isBool(c.Type()) {
							if constant.BoolVal(c.Value) {
								vals[i] = 1
							} else {
								vals[i] = 0
							}
						} else if x, ok := get(i.Edges[k]); ok {
							vals[i] = x
						}
					}
				}
			case *ssa.BinOp:
				x, ok1 := get(i.X)
				y, ok2 := get(i.Y)
				if !ok1 || !ok2 {
					return 0, false
				}
				if constant.Compare(constant.MakeInt64(x), i.Op, constant.MakeInt64(y)) {
					vals[i] = 1
				} else {
					vals[i] = 0
				}
			case *ssa.Call:
				r, ok := stepAt(i.Call.StaticCallee(), a, depth+1)
				if !ok {
					return 0, false
				}
				vals[i] = r
			case *ssa.If:
				c, ok := vals[i.Cond]
				if !ok {
					return 0, false
				}
				next = blk.Succs[1-c]
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Return:
				return get(i.Results[0])
			}
		}
		if next == nil {
			return 0, false
		}
		prev, blk = blk, next
	}
	return 0, false
}

// A field that holds the error of a reader: it is only ever set to an error.
func (t *termination) sticky(fr fieldRef) bool {
	if v, ok := t.stick[fr]; ok {
		return v
	}
	r := true
	for _, f := range t.p.repoFuncs(fontPath, cmdPath) {
		eachInstr(f, func(i ssa.Instruction) {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && refOf(fa) == fr {
					ld, isLd := st.Val.(*ssa.UnOp)
					if isLd {
						_, isLd = ld.X.(*ssa.Global)
					}
					r = r && isLd
				}
			}
		})
	}
	t.stick[fr] = r
	return r
}

// errOf: the reader whose error the value is.
func (t *termination) errOf(v ssa.Value) (any, bool) {
	b := t.b
	field := func(v ssa.Value) (*ssa.FieldAddr, bool) {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil, false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return fa, ok && isErr(u.Type()) && t.sticky(refOf(fa))
	}
	if fa, ok := field(v); ok {
		return b.canonAny(fa.X), true
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	f := b.repoCallee(c)
	if f == nil || len(f.Blocks) != 1 || len(f.Params) != 1 {
		return nil, false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil, false
	}
	fa, ok := field(ret.Results[0])
	if !ok || fa.X != ssa.Value(f.Params[0]) {
		return nil, false
	}
	return b.canonAny(c.Call.Args[0]), true
}

// readerErr: each iteration reads from a reader, and the loop ends when that fails.
func (t *termination) readerErr(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	return exits(head, in, func(blk *ssa.BasicBlock, cond ssa.Value, stay bool) bool {
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if !stay {
			op = negate(op)
		}
		r, ok := t.errOf(x)
		if !ok {
			x, y = y, x
			if r, ok = t.errOf(x); !ok {
				return false
			}
		}
		switch {
		case isNilConst(y) && op == token.EQL:
		case op == token.NEQ && isGlobalLoad(y):
			// the only error that is stored
			if !t.onlyErr(y) {
				return false
			}
		default:
			return false
		}
		if i, ok := r.(ssa.Instruction); ok && in[i.Block()] {
			return false
		}
		// the reads of this iteration before the test
		for _, d := range head.Parent().Blocks {
			if !in[d] || !d.Dominates(blk) {
				continue
			}
			for _, i := range d.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if n := t.consumes(c, r); n && t.onlyForward(r, c, head, in) {
					return true
				}
			}
		}
		return false
	})
}

func isGlobalLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.Global)
	return ok
}

// onlyErr: the readers of the repository store no other error.
func (t *termination) onlyErr(y ssa.Value) bool {
	g := y.(*ssa.UnOp).X
	ok := true
	for fr, s := range t.stick {
		if !s {
			continue
		}
		for _, f := range t.p.repoFuncs(fontPath, cmdPath) {
			eachInstr(f, func(i ssa.Instruction) {
				if st, isSt := i.(*ssa.Store); isSt {
					if fa, isF := st.Addr.(*ssa.FieldAddr); isF && refOf(fa) == fr {
						ok = ok && st.Val.(*ssa.UnOp).X == g
					}
				}
			})
		}
	}
	return ok
}

// slicesOf: the locations of slices in fields of the object that the function knows about.
func (t *termination) slicesOf(f *ssa.Function, obj any) []*memLoc {
	var pt types.Type
	switch v := obj.(type) {
	case ssa.Value:
		pt = v.Type()
	case *memVal:
		pt = v.loc.typ
	default:
		return nil
	}
	p, ok := pt.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*memLoc
	for i := 0; i < st.NumFields(); i++ {
		if isBytes(st.Field(i).Type()) {
			out = append(out, t.b.loc(f, memKey{obj, fmt.Sprintf(".%d", i)}, []fieldRef{{structName(pt), i}}, st.Field(i).Type()))
		}
	}
	return out
}

// consumes: the call makes the rest of the reader at least one byte shorter or stores an error in it.
func (t *termination) consumes(c ssa.CallInstruction, r any) bool {
	b := t.b
	f := b.repoCallee(c)
	par := b.argOf(c, r)
	if f == nil || par < 0 || par >= len(f.Params) {
		return false
	}
	for _, l := range t.slicesOf(c.Parent(), r) {
		cases := b.memCases(f, par, l, 0)
		if len(cases) == 0 {
			continue
		}
		good := true
		before := b.content(b.memAt(l, c), l)
		some := false
		for _, mc := range cases {
			if mc.fails {
				some = true
				continue
			}
			val, ok := b.toCaller(mc.val, f, c)
			var fs factSet
			for _, x := range mc.conds {
				if y, ok := b.toCaller(x, f, c); ok {
					fs.ge = append(fs.ge, y)
				}
			}
			d := before.sub(val).plus(-1)
			good = good && ok && !d.bad && b.direct(d, c.Block(), &fs)
		}
		if good && some {
			return true
		}
	}
	return false
}

// onlyForward: what is left in the reader never gets longer in the loop.
func (t *termination) onlyForward(r any, c ssa.CallInstruction, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	b := t.b
	for _, l := range t.slicesOf(head.Parent(), r) {
		if b.content(b.memAt(l, c), l).bad {
			continue
		}
		if len(b.memCases(b.repoCallee(c), b.argOf(c, r), l, 0)) == 0 {
			continue
		}
		moves := false
		good := true
		for _, blk := range sortedBlocks(in) {
			for _, e := range l.affects[blk] {
				if e.at == ssa.Instruction(c) {
					moves = true
				}
				ci, ok := e.at.(ssa.CallInstruction)
				good = good && ok && e.val == nil && !e.zero && b.callShrinks(ci, l)
			}
		}
		if good && moves {
			return true
		}
	}
	return false
}

// readerStack: the loop reads from the reader at the top of a stack of limited height; each iteration takes bytes from it, and then may put another on top, or takes it off.
func (t *termination) readerStack(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	b := t.b
	var rs, ss []*ssa.Phi
	for _, i := range head.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := phi.Type().Underlying().(*types.Pointer); ok {
			rs = append(rs, phi)
		}
		if _, ok := phi.Type().Underlying().(*types.Slice); ok {
			ss = append(ss, phi)
		}
	}
	for _, r := range rs {
		for _, s := range ss {
			if !types.Identical(s.Type().Underlying().(*types.Slice).Elem(), r.Type()) {
				continue
			}
			for _, l := range t.slicesOf(head.Parent(), b.canonAny(r)) {
				if t.stackOn(r, s, l, head, in) {
					return true
				}
			}
		}
	}
	return false
}

const stackLimit = 1000

func (t *termination) stackOn(r, s *ssa.Phi, l *memLoc, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	b := t.b
	round, ok := t.untaken(l, head, in)
	if !ok {
		return false
	}
	for n, p := range head.Preds {
		if !in[p] {
			continue
		}
		rv, sv := r.Edges[n], s.Edges[n]
		consumed := func() bool { return !round[p] }
		if rv == ssa.Value(r) && sv == ssa.Value(s) {
			if !consumed() {
				return false
			}
			continue
		}
		switch sv := sv.(type) {
		case *ssa.Slice: // taken off
			if sv.X != ssa.Value(s) || sv.Low != nil || sv.High == nil {
				return false
			}
			d := b.lenOf(s).sub(b.linOf(sv.High)).plus(-1)
			if d.bad || !b.prove(d, p, 3) {
				return false
			}
			ld, ok := rv.(*ssa.UnOp)
			if !ok {
				return false
			}
			ix, ok := ld.X.(*ssa.IndexAddr)
			if !ok || ix.X != ssa.Value(s) {
				return false
			}
			e := b.linOf(ix.Index).sub(b.linOf(sv.High))
			if e.bad || !e.isConst() || e.c != 0 {
				return false
			}
		case *ssa.Call: // put on top
			bi, ok := sv.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" || sv.Call.Args[0] != ssa.Value(s) || !holdsOnly(sv.Call.Args[1], r) || !b.fresh(b.canonAny(rv)) {
				return false
			}
			b.fuel = 3000
			if !consumed() || !b.prove(lconst(stackLimit).sub(b.lenOf(s)), p, 4) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// holdsOnly: the slice of one element that is v.
func holdsOnly(sl ssa.Value, v ssa.Value) bool {
	x, ok := sl.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := x.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	if n, ok := arrayLen(a.Type()); !ok || n != 1 {
		return false
	}
	for _, u := range realRefs(a) {
		if ix, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range realRefs(ix) {
				if st, ok := w.(*ssa.Store); ok && st.Val != v {
					return false
				}
			}
		}
	}
	return true
}

// drains: the loop reads from a reader; nothing in it makes what is left longer, and in each iteration some call takes at least one byte off it.
func (t *termination) drains(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	b := t.b
	var locs []*memLoc
	for _, blk := range head.Parent().Blocks {
		if !in[blk] {
			continue
		}
		for _, i := range blk.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, a := range c.Common().Args {
				if v, isI := b.canonAny(a).(ssa.Instruction); isI && in[v.Block()] {
					continue
				}
				for _, l := range t.slicesOf(head.Parent(), b.canonAny(a)) {
					locs = append(locs, l)
				}
			}
		}
	}
	done := map[*memLoc]bool{}
	for _, l := range locs {
		if done[l] {
			continue
		}
		done[l] = true
		if round, ok := t.untaken(l, head, in); ok && len(round) == 0 {
			return true
		}
	}
	return false
}

// untaken: the latches to which the loop has a way on which nothing is taken off the location; not when something in the loop may make it longer.
func (t *termination) untaken(l *memLoc, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) (map[*ssa.BasicBlock]bool, bool) {
	takers := map[*ssa.BasicBlock]bool{}
	for _, blk := range sortedBlocks(in) {
		for _, e := range l.affects[blk] {
			c, ok := e.at.(ssa.CallInstruction)
			if !ok || e.val != nil || e.zero || !t.b.callShrinks(c, l) {
				return nil, false
			}
			if t.takes(c, l) {
				takers[blk] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	round := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock)
	walk = func(blk *ssa.BasicBlock) {
		if takers[blk] || seen[blk] {
			return
		}
		seen[blk] = true
		for _, s := range blk.Succs {
			if s == head {
				round[blk] = true
			} else if in[s] {
				walk(s)
			}
		}
	}
	walk(head)
	return round, true
}

// takes: the call makes the content of the location at least one shorter.
func (t *termination) takes(c ssa.CallInstruction, l *memLoc) bool {
	b := t.b
	f := b.repoCallee(c)
	par := b.argOf(c, l.key.base)
	if f == nil || par < 0 || par >= len(f.Params) {
		return false
	}
	cases := b.memCases(f, par, l, 0)
	before := b.content(b.memAt(l, c), l)
	for _, mc := range cases {
		val, ok := b.toCaller(mc.val, f, c)
		if !ok {
			return false
		}
		var fs factSet
		for _, x := range mc.conds {
			if y, ok := b.toCaller(x, f, c); ok {
				fs.ge = append(fs.ge, y)
			}
		}
		d := before.sub(val).plus(-1)
		if d.bad || !b.direct(d, c.Block(), &fs) {
			return false
		}
	}
	return len(cases) > 0
}

// belowOn: the condition having the value means x < y.
func belowOn(cond ssa.Value, val bool) (x, y ssa.Value, ok bool) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return belowOn(c.X, !val)
		}
	case *ssa.BinOp:
		switch {
		case c.Op == token.LSS && val, c.Op == token.GEQ && !val:
			return c.X, c.Y, true
		case c.Op == token.GTR && val, c.Op == token.LEQ && !val:
			return c.Y, c.X, true
		}
	}
	return nil, nil, false
}
