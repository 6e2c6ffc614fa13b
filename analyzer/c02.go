package main

import (
	"fmt"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C02"] = checkC02 }

type termination struct {
	p *Prog
	r *Report
	b *bp
	e *extent

	stick map[fieldRef]bool
}

func checkC02(p *Prog, r *Report) {
	r.Rule("loop", "every loop has a measure that each iteration moves towards the exit without wrapping around", 150)
	r.Rule("recursion", "a cycle of calls has a parameter that each round makes larger and a fixed limit to it", 2)
	fns := p.liveFuncs(fontPath, cmdPath)
	roots := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if fn.Object() == nil || fn.Object().Exported() {
			roots[fn] = true
		}
	}
	t := &termination{p, r, newBP(p, fns, roots), nil, map[fieldRef]bool{}}
	t.e = newExtent(t.b, fns)
	for _, fn := range fns {
		n := 0
		for _, b := range fn.Blocks {
			in := loopOf(b)
			if in == nil {
				continue
			}
			n++
			msg := t.loop(fn, b, in)
			key := fmt.Sprintf("%s loop %d", fnName(fn), n)
			r.Add("loop", key, p.where(loopPos(b, in)), msg == "", msg)
		}
	}
	t.recursions(fns)
}

func loopPos(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) token.Pos {
	for _, i := range head.Instrs {
		if i.Pos().IsValid() {
			if _, ok := i.(*ssa.Phi); !ok {
				return i.Pos()
			}
		}
	}
	best := token.NoPos
	for _, b := range sortedBlocks(in) {
		for _, i := range b.Instrs {
			if _, phi := i.(*ssa.Phi); !phi && i.Pos().IsValid() && (best == token.NoPos || i.Pos() < best) {
				best = i.Pos()
			}
		}
	}
	return best
}

// latches are the blocks from which the next iteration starts
func latches(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, p := range head.Preds {
		if in[p] {
			out = append(out, p)
		}
	}
	return out
}

func (t *termination) loop(fn *ssa.Function, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) string {
	for _, i := range head.Instrs {
		if _, ok := i.(*ssa.Next); ok {
			return ""
		}
	}
	if t.scans(head, in) || t.aligns(head, in) || t.cellCounter(head, in) || t.skips(head, in) || t.drains(head, in) {
		return ""
	}
	tried := map[string]bool{}
	var names []string
	try := func() bool {
		for _, m := range t.measures(head, in) {
			if t.decreases(m.lin, m.index, head, in) && t.small(m.lin, head, in) {
				return true
			}
			if s := t.b.show(m.lin); !tried[s] {
				tried[s] = true
				names = append(names, s)
			}
		}
		return t.readerErr(head, in) || t.readerStack(head, in)
	}
	if try() || t.withHull(head, in, try) || t.fixpoint(head, in) {
		return ""
	}
	return fmt.Sprintf("no measure found (tried %q)", names)
}

type measure struct {
	lin
	index bool // not below zero because something was indexed
}

// measures: expressions that an exit test of the loop bounds from below.
func (t *termination) measures(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) []measure {
	b := t.b
	var out []measure
	seen := map[string]bool{}
	index := false
	add := func(x lin) {
		if x.bad || x.isConst() || seen[x.key()] {
			return
		}
		if x = t.atHead(x, head, in); x.bad || x.isConst() || seen[x.key()] {
			return
		}
		seen[x.key()] = true
		out = append(out, measure{x, index})
	}
	for _, i := range head.Instrs {
		// a counter of limited width, as far as it goes
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if isInt(phi.Type()) {
			lo, hi, hl, hh := typeRange(phi.Type())
			if hl && hh && hi <= 1<<32 && lo >= -1<<31 {
				add(lconst(hi).sub(b.linOf(phi)))
				add(b.linOf(phi).plus(-lo))
			}
		}
	}
	for _, blk := range head.Parent().Blocks {
		if !in[blk] {
			continue
		}
		if everyTime(blk, head, in) {
			// an index that is not within the limits ends the loop as well
			index = true
			for _, i := range blk.Instrs {
				switch i := i.(type) {
				case *ssa.IndexAddr:
					if _, ok := arrayLen(i.X.Type()); !ok {
						add(b.lenOf(i.X).sub(b.linOf(i.Index)).plus(-1))
					}
				}
			}
			index = false
		}
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || in[blk.Succs[0]] && in[blk.Succs[1]] {
			continue
		}
		var fs factSet
		b.cond(iff.Cond, in[blk.Succs[0]], &fs, 3)
		for _, x := range fs.ge {
			add(x)
		}
		for _, x := range fs.ne {
			add(x)
			add(x.scale(-1))
		}
	}
	return out
}

// everyTime: the block is passed in each iteration.
func everyTime(blk, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	for _, l := range latches(head, in) {
		if !blk.Dominates(l) {
			return false
		}
	}
	return true
}

// atHead replaces the values that differ between iterations and are not known at the head by their limits, so that the result is at least x.
func (t *termination) atHead(x lin, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) lin {
	b := t.b
	for round := 0; round < 4; round++ {
		changed := false
		for _, a := range x.atoms() {
			if b.avail(a, head) || t.unchanged(a, head, in, 0) {
				continue
			}
			changed = true
			k := x.m[a]
			var fs factSet
			b.atomFacts(a, &fs)
			found := false
			// prefer a limit in terms of other values
			for pass := 0; pass < 2 && !found; pass++ {
				for _, f := range fs.ge {
					if c := f.m[a]; c*k < 0 && (c == 1 || c == -1) && f.isConst() == false && (len(f.m) > 1) == (pass == 0) {
						kk := k
						if kk < 0 {
							kk = -kk
						}
						y := x.add(f.scale(kk))
						if !y.bad && !y.has(a) && t.fine(f, a, head, in) {
							x, found = y, true
							break
						}
					}
				}
			}
			if !found {
				return badLin
			}
		}
		if !changed {
			return x
		}
	}
	return badLin
}

func (t *termination) fine(f lin, a int, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	for _, o := range f.atoms() {
		if o != a && !t.b.avail(o, head) && !t.unchanged(o, head, in, 0) {
			return false
		}
	}
	return true
}

// unchanged: an atom that is computed in the loop, from values that stay the same.
func (t *termination) unchanged(a int, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool, depth int) bool {
	b := t.b
	if depth > 6 {
		return false
	}
	all := func(vs ...ssa.Value) bool {
		for _, v := range vs {
			x := b.linOf(v)
			if x.bad {
				return false
			}
			for _, a := range x.atoms() {
				if !t.unchanged(a, head, in, depth+1) {
					return false
				}
			}
		}
		return true
	}
	switch v := b.atoms[a].v.(type) {
	case *ssa.BinOp:
		return !in[v.Block()] || all(v.X, v.Y)
	case *ssa.Convert:
		return !in[v.Block()] || isInt(v.X.Type()) && all(v.X)
	case *memVal:
		d, _ := b.defBlock(v)
		return d == nil || !in[d]
	case *ssa.UnOp:
		if !in[v.Block()] {
			return true
		}
		if ix, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL && !t.writes(in) {
			x := b.lenOf(ix.X)
			if x.bad {
				return false
			}
			for _, a := range x.atoms() {
				if !t.unchanged(a, head, in, depth+1) {
					return false
				}
			}
			return all(ix.Index)
		}
		return false
	case ssa.Instruction:
		return !in[v.Block()]
	}
	return true
}

func (t *termination) decreases(m lin, index bool, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	b := t.b
	for i, l := range head.Preds {
		if !in[l] {
			continue
		}
		next, ok := b.atEdge(m, head, i)
		if !ok {
			return false
		}
		if index { // known once the index was found to be good
			old := b.assume[l]
			b.assume[l] = append(append([]lin{}, old...), m)
			b.nAssume++
			defer func() { b.assume[l] = old; b.nAssume-- }()
		}
		b.fuel = 20000
		if !b.proveEdge(m.sub(next).plus(-1), l, head, 6) {
			return false
		}
		b.fuel = 20000
		if !b.proveEdge(m, l, head, 6) {
			return false
		}
	}
	return true
}

// small: a loop that does not use up any of the data may not be told by the file how long it goes on, unless
// by a number of at most 32 bits or one compared with the data: 2^62 rounds are as bad as endless ones.
func (t *termination) small(m lin, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	b := t.b
	if t.e.small(m) {
		return true
	}
	for i, l := range head.Preds {
		if in[l] {
			continue
		}
		first, ok := b.atEdge(m, head, i)
		if !ok {
			return false
		}
		b.fuel = 20000
		if !b.proveEdge(lconst(4*maxLen).sub(first), l, head, 6) {
			return false
		}
	}
	return true
}

// writes: something in the loop may change memory.
func (t *termination) writes(in map[*ssa.BasicBlock]bool) bool {
	for _, blk := range sortedBlocks(in) {
		for _, i := range blk.Instrs {
			switch i := i.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
				return true
			case ssa.CallInstruction:
				if b, ok := i.Common().Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return true
				}
			}
		}
	}
	return false
}

// sortedBlocks: one order, so that what is found does not depend on the order of a map.
func sortedBlocks(in map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b, ok := range in {
		if ok {
			out = append(out, b)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}
