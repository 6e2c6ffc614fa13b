package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type recEdge struct {
	from, to *ssa.Function
	at       ssa.Instruction
	call     ssa.CallInstruction // nil when the callee is only handed over, or called by a library
}

const levelLimit = 1000

// recursions: each cycle of calls carries a level that each round makes larger, up to a fixed limit.
func (t *termination) recursions(fns []*ssa.Function) {
	own := map[*ssa.Function]bool{}
	for _, f := range fns {
		own[f] = true
	}
	taken := map[string][]*ssa.Function{} // functions used as values, by signature
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			var ops [16]*ssa.Value
			for n, op := range i.Operands(ops[:0]) {
				var g *ssa.Function
				switch v := (*op).(type) {
				case *ssa.Function:
					g = v
				case *ssa.MakeClosure:
					g = v.Fn.(*ssa.Function)
				}
				if c, ok := i.(ssa.CallInstruction); ok && n == 0 && !c.Common().IsInvoke() {
					continue
				}
				if g != nil && own[g] {
					k := sigOf(g.Signature)
					taken[k] = append(taken[k], g)
				}
			}
		})
	}
	// the types that an interface value can have
	made := map[string][]types.Type{}
	var allMade []types.Type
	cast := map[string]bool{}
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			switch i := i.(type) {
			case *ssa.MakeInterface:
				k := types.TypeString(i.Type(), nil)
				made[k] = append(made[k], i.X.Type())
				allMade = append(allMade, i.X.Type())
			case *ssa.ChangeInterface:
				cast[types.TypeString(i.Type(), nil)] = true
			case *ssa.TypeAssert:
				cast[types.TypeString(i.AssertedType, nil)] = true
			}
		})
	}
	edges := map[*ssa.Function][]recEdge{}
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			to := func(g *ssa.Function, direct bool) {
				if g == nil || !own[g] {
					return
				}
				e := recEdge{from: f, to: g, at: i}
				if direct {
					e.call = c
				}
				edges[f] = append(edges[f], e)
			}
			com := c.Common()
			if g := com.StaticCallee(); g != nil {
				if own[g] {
					to(g, true)
					return
				}
				// a library function calls what it is handed, and prints with the methods for printing
				for _, a := range com.Args {
					t.handed(a, func(h *ssa.Function) { to(h, false) }, 0)
				}
				return
			}
			if com.IsInvoke() {
				k := types.TypeString(com.Value.Type(), nil)
				ts := made[k]
				if cast[k] {
					ts = allMade
				}
				for _, tt := range ts {
					if sel := t.p.SSA.MethodSets.MethodSet(tt).Lookup(com.Method.Pkg(), com.Method.Name()); sel != nil {
						to(t.p.SSA.MethodValue(sel), false)
					}
				}
				return
			}
			if _, ok := com.Value.(*ssa.Builtin); ok {
				return
			}
			gs := t.b.callbacks(com.Value)
			if len(gs) == 0 {
				gs = taken[sigOf(com.Signature())]
			}
			for _, g := range gs {
				to(g, true)
			}
		})
	}
	// strongly connected parts
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, e := range edges[f] {
			self = self || e.to == f
			if index[e.to] == 0 {
				visit(e.to)
			}
			if on[e.to] && low[e.to] < low[f] {
				low[f] = low[e.to]
			}
		}
		if low[f] != index[f] {
			return
		}
		var part []*ssa.Function
		for {
			g := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[g] = false
			part = append(part, g)
			if g == f {
				break
			}
		}
		if len(part) == 1 && !self {
			return
		}
		in := map[*ssa.Function]bool{}
		var names []string
		for _, g := range part {
			in[g] = true
			names = append(names, fnName(g))
		}
		sort.Strings(names)
		var es []recEdge
		for _, g := range part {
			for _, e := range edges[g] {
				if in[e.to] {
					es = append(es, e)
				}
			}
		}
		msg := t.levelled(part, es)
		t.r.Add("recursion", strings.Join(names, ", "), t.p.where(es[0].at.Pos()), msg == "", msg)
	}
	for _, f := range fns {
		if index[f] == 0 {
			visit(f)
		}
	}
}

func sigOf(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// handed: the functions that a library function can call because of an argument.
func (t *termination) handed(v ssa.Value, f func(*ssa.Function), depth int) {
	if depth > 4 {
		return
	}
	switch v := v.(type) {
	case *ssa.Function:
		f(v)
	case *ssa.MakeClosure:
		f(v.Fn.(*ssa.Function))
	case *ssa.MakeInterface:
		for _, tt := range []types.Type{v.X.Type(), types.NewPointer(v.X.Type())} {
			ms := t.p.SSA.MethodSets.MethodSet(tt)
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i)
				if it, ok := v.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
					switch m.Obj().Name() { // that libraries look for
					case "String", "Error", "GoString", "Format", "Write", "Read", "Close", "Unwrap", "Is", "As":
					default:
						if !strings.Contains(m.Obj().Name(), "arshal") && !strings.HasPrefix(m.Obj().Name(), "Gob") {
							continue
						}
					}
				} else if o, _, _ := types.LookupFieldOrMethod(v.Type(), false, m.Obj().Pkg(), m.Obj().Name()); o == nil {
					continue
				}
				if g := t.p.SSA.MethodValue(m); g != nil {
					f(g)
				}
			}
		}
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, u := range realRefs(a) {
				if ix, ok := u.(*ssa.IndexAddr); ok {
					for _, w := range realRefs(ix) {
						if st, ok := w.(*ssa.Store); ok {
							t.handed(st.Val, f, depth+1)
						}
					}
				}
			}
		}
	case *ssa.ChangeType:
		t.handed(v.X, f, depth+1)
	case *ssa.ChangeInterface:
		t.handed(v.X, f, depth+1)
	}
}

// levelled finds a parameter for each of the functions such that no call makes it smaller, each cycle has a call that makes it larger, and no such call is made above a fixed limit.
func (t *termination) levelled(part []*ssa.Function, es []recEdge) string {
	b := t.b
	pick := map[*ssa.Function]int{}
	why := ""
	var choose func(n int) bool
	choose = func(n int) bool {
		if n < len(part) {
			f := part[n]
			for i, q := range f.Params {
				if isInt(q.Type()) {
					pick[f] = i
					if choose(n + 1) {
						return true
					}
				}
			}
			return false
		}
		flat := map[*ssa.Function][]*ssa.Function{}
		for _, e := range es {
			if e.call == nil {
				why = fmt.Sprintf("%s can reach itself through a library call", fnName(e.from))
				return false
			}
			args := e.call.Common().Args
			if pick[e.to] >= len(args) {
				return false
			}
			level := b.linOf(e.from.Params[pick[e.from]])
			next := b.linOf(args[pick[e.to]])
			blk := e.at.Block()
			b.fuel = 5000
			switch {
			case level.bad || next.bad:
				return false
			case b.prove(next.sub(level).plus(-1), blk, 4):
				b.fuel = 5000
				if !b.prove(lconst(levelLimit).sub(level), blk, 4) {
					why = fmt.Sprintf("the call of %s in %s makes %s larger, but it is not cut off at a fixed limit", fnName(e.to), fnName(e.from), e.to.Params[pick[e.to]].Name())
					return false
				}
			case b.prove(next.sub(level), blk, 4):
				flat[e.from] = append(flat[e.from], e.to)
			default:
				why = fmt.Sprintf("the call of %s in %s does not make %s larger", fnName(e.to), fnName(e.from), e.to.Params[pick[e.to]].Name())
				return false
			}
		}
		// no cycle among the calls that leave it the same
		state := map[*ssa.Function]int{}
		var round func(f *ssa.Function) bool
		round = func(f *ssa.Function) bool {
			if state[f] != 0 {
				return state[f] == 1
			}
			state[f] = 1
			for _, g := range flat[f] {
				if round(g) {
					return true
				}
			}
			state[f] = 2
			return false
		}
		for _, f := range part {
			if round(f) {
				why = "a cycle of calls leaves the level the same"
				return false
			}
		}
		return true
	}
	if choose(0) {
		return ""
	}
	if why == "" {
		why = "no parameter counts the depth of the recursion"
	}
	return why
}
