package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C26"] = checkC26 }

// resState is what is known on one path after a call that gave a value and an error.
type resState struct {
	vals, errs   map[ssa.Value]bool // the values and errors of this call, under all their names
	cells, ecell map[ssa.Value]bool // variables that hold them
	consts       map[ssa.Value]bool // boolean phis with a known value
	conds        map[ssa.Value]ssa.Value
	failed       bool // the error is known to be set
}

func (s *resState) clone() *resState {
	cp := func(m map[ssa.Value]bool) map[ssa.Value]bool {
		o := make(map[ssa.Value]bool, len(m))
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	n := &resState{vals: cp(s.vals), errs: cp(s.errs), cells: cp(s.cells), ecell: cp(s.ecell), consts: cp(s.consts), conds: map[ssa.Value]ssa.Value{}, failed: s.failed}
	for k, v := range s.conds {
		n.conds[k] = v
	}
	return n
}

func (s *resState) key(b *ssa.BasicBlock) string {
	var parts []string
	for i, m := range []map[ssa.Value]bool{s.vals, s.errs, s.cells, s.ecell, s.consts} {
		for k, v := range m {
			parts = append(parts, fmt.Sprintf("%d%s%v", i, k.Name(), v))
		}
	}
	for k, v := range s.conds {
		parts = append(parts, k.Name()+"="+v.Name())
	}
	sort.Strings(parts)
	return fmt.Sprintf("%d %v %s", b.Index, s.failed, strings.Join(parts, ","))
}

type resWalk struct {
	p    *Prog
	call *ssa.Call
	seen map[string]bool
	bad  map[ssa.Instruction]string
	uses int
}

// varCell: a local variable, or a field of the same base, by which a value is named.
func varCell(a ssa.Value) ssa.Value {
	switch x := a.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return x
	}
	return nil
}

// unsafeUse: the instruction needs the value to be there.
func (w *resWalk) unsafeUse(in ssa.Instruction, st *resState) string {
	has := func(v ssa.Value) bool { return st.vals[v] }
	switch t := in.(type) {
	case *ssa.FieldAddr:
		if has(t.X) {
			return "field " + fieldName(t.X.Type(), t.Field)
		}
	case *ssa.IndexAddr:
		if has(t.X) {
			return "element"
		}
	case *ssa.Index:
		if has(t.X) {
			return "element"
		}
	case *ssa.Slice:
		if has(t.X) && (t.Low != nil || t.High != nil) {
			return "part of it"
		}
	case *ssa.UnOp:
		if t.Op == token.MUL && has(t.X) {
			return "what it points to"
		}
	case *ssa.Store:
		if has(t.Addr) {
			return "what it points to"
		}
	case *ssa.MapUpdate:
		if has(t.Map) {
			return "an entry is set"
		}
	case *ssa.TypeAssert:
		if has(t.X) && !t.CommaOk {
			return "its type is asserted"
		}
	case *ssa.Range:
		return ""
	case ssa.CallInstruction:
		c := t.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			_ = b
			return ""
		}
		if has(c.Value) {
			if c.IsInvoke() {
				return "method " + c.Method.Name()
			}
			return "it is called"
		}
		withErr := false
		for _, a := range c.Args {
			withErr = withErr || st.errs[a]
		}
		if withErr {
			return ""
		}
		for _, a := range c.Args {
			if has(a) {
				return "passed to " + calleeName(c)
			}
		}
	}
	return ""
}

func (w *resWalk) block(b *ssa.BasicBlock, from int, st *resState, depth int) {
	if depth > 400 {
		return
	}
	for _, in := range b.Instrs[from:] {
		if in == ssa.Instruction(w.call) {
			return // made again
		}
		if what := w.unsafeUse(in, st); what != "" {
			w.bad[in] = what
			return
		}
		switch t := in.(type) {
		case *ssa.ChangeType:
			if st.vals[t.X] {
				st.vals[t] = true
			}
			if st.errs[t.X] {
				st.errs[t] = true
			}
		case *ssa.ChangeInterface:
			if st.vals[t.X] {
				st.vals[t] = true
			}
			if st.errs[t.X] {
				st.errs[t] = true
			}
		case *ssa.MakeInterface:
			if st.vals[t.X] {
				st.vals[t] = true
			}
		case *ssa.Convert:
			if st.vals[t.X] {
				st.vals[t] = true
			}
		case *ssa.Store:
			if c := varCell(t.Addr); c != nil {
				delete(st.cells, c)
				delete(st.ecell, c)
				if st.vals[t.Val] {
					st.cells[c] = true
				}
				if st.errs[t.Val] {
					st.ecell[c] = true
				}
			}
		case *ssa.UnOp:
			if t.Op == token.MUL {
				delete(st.vals, t)
				delete(st.errs, t)
				if c := varCell(t.X); c != nil && st.cells[c] {
					st.vals[t] = true
				} else if c != nil && st.ecell[c] {
					st.errs[t] = true
				}
			}
		case *ssa.Return, *ssa.Panic:
			return
		case *ssa.If:
			yes, no := w.split(t.Cond, st, false)
			if yes != nil {
				w.edge(b, b.Succs[0], yes, depth)
			}
			if no != nil {
				w.edge(b, b.Succs[1], no, depth)
			}
			return
		case *ssa.Jump:
			w.edge(b, b.Succs[0], st, depth)
			return
		}
	}
}

// split gives the states on the two sides of a condition; nil where the value is there, or the side cannot be taken.
func (w *resWalk) split(cond ssa.Value, st *resState, neg bool) (yes, no *resState) {
	if c, ok := st.conds[cond]; ok {
		cond = c
	}
	if k, ok := st.consts[cond]; ok {
		if k {
			return st, nil
		}
		return nil, st
	}
	failed := func() *resState { n := st.clone(); n.failed = true; return n }
	switch t := cond.(type) {
	case *ssa.Const:
		if t.Value != nil && constant.BoolVal(t.Value) {
			return st, nil
		}
		return nil, st
	case *ssa.UnOp:
		if t.Op == token.NOT {
			no, yes = w.split(t.X, st, !neg)
			return yes, no
		}
	case *ssa.BinOp:
		if t.Op != token.EQL && t.Op != token.NEQ {
			break
		}
		x, y := t.X, t.Y
		if isNilConst(x) {
			x, y = y, x
		}
		var onEq, onNe *resState
		switch {
		case st.errs[x] && isNilConst(y):
			if !st.failed {
				onEq = nil // the error is ruled out
			}
			onNe = failed()
		case st.vals[x] && isNilConst(y):
			onEq, onNe = st, nil // the value is there
		case st.errs[x] || st.errs[y]:
			onEq, onNe = failed(), st // equal to a particular error
		default:
			return st.clone(), st
		}
		if t.Op == token.EQL {
			return onEq, onNe
		}
		return onNe, onEq
	case *ssa.Call:
		n := calleeName(&t.Call)
		if n == "errors.Is" || n == "errors.As" || strings.HasPrefix(n, "os.Is") {
			if len(t.Call.Args) > 0 && st.errs[t.Call.Args[0]] {
				return failed(), st
			}
		}
	}
	return st.clone(), st
}

func (w *resWalk) edge(from, to *ssa.BasicBlock, st *resState, depth int) {
	st = st.clone()
	idx := -1
	for i, q := range to.Preds {
		if q == from {
			idx = i
		}
	}
	type upd struct {
		phi      *ssa.Phi
		val, err bool
		k        *bool
		cond     ssa.Value
	}
	var us []upd
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			continue
		}
		e := phi.Edges[idx]
		u := upd{phi: phi, val: st.vals[e], err: st.errs[e]}
		if isBool(phi.Type()) {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil {
				b := constant.BoolVal(c.Value)
				u.k = &b
			} else if b, ok := st.consts[e]; ok {
				u.k = &b
			} else {
				switch e.(type) {
				case *ssa.BinOp, *ssa.UnOp, *ssa.Call:
					u.cond = e
				}
			}
		}
		us = append(us, u)
	}
	for _, u := range us {
		delete(st.vals, u.phi)
		delete(st.errs, u.phi)
		delete(st.consts, u.phi)
		delete(st.conds, u.phi)
		if u.val {
			st.vals[u.phi] = true
		}
		if u.err {
			st.errs[u.phi] = true
		}
		if u.k != nil {
			st.consts[u.phi] = *u.k
		}
		if u.cond != nil {
			st.conds[u.phi] = u.cond
		}
	}
	k := st.key(to)
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	n := 0
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	w.block(to, n, st, depth+1)
}

func needsValue(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Slice:
		return !isErrorType(t)
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func checkC26(p *Prog, r *Report) {
	r.Rule("used-after-check", "a pointer, interface, function, map or list that a call returned together with an error is dereferenced, called, indexed or passed on only where the error was found to be nil (or the value was found not to be nil)", 60)
	r.Rule("error-taken", "the error of such a call is not dropped while its value is used", 60)
	for _, fn := range p.liveFuncs(fontPath, cmdPath) {
		eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			tup, ok := c.Type().(*types.Tuple)
			if !ok || tup.Len() < 2 || !isErrorType(tup.At(tup.Len()-1).Type()) {
				return
			}
			need := false
			for i := 0; i < tup.Len()-1; i++ {
				need = need || needsValue(tup.At(i).Type())
			}
			if !need {
				return
			}
			w := &resWalk{p: p, call: c, seen: map[string]bool{}, bad: map[ssa.Instruction]string{}}
			st := &resState{vals: map[ssa.Value]bool{}, errs: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, ecell: map[ssa.Value]bool{}, consts: map[ssa.Value]bool{}, conds: map[ssa.Value]ssa.Value{}}
			hasErr := false
			for _, u := range *c.Referrers() {
				if e, ok := u.(*ssa.Extract); ok {
					if e.Index == tup.Len()-1 {
						if len(realRefs(e)) > 0 {
							hasErr = true
						}
						st.errs[e] = true
					} else if needsValue(e.Type()) {
						st.vals[e] = true
					}
				}
			}
			name := fnName(fn) + ": " + calleeName(&c.Call)
			if len(st.vals) == 0 {
				return
			}
			for i, x := range c.Block().Instrs {
				if x == in {
					w.block(c.Block(), i+1, st, 0)
				}
			}
			rule := "used-after-check"
			if !hasErr {
				rule = "error-taken"
			} else {
				r.OK("error-taken", name, p.where(instrPos(in)), "")
			}
			if len(w.bad) == 0 {
				r.OK(rule, name, p.where(instrPos(in)), fmt.Sprintf("%d state(s) on the paths with an error", len(w.seen)))
			}
			for u, what := range w.bad {
				r.Bad(rule, name+" "+what, p.where(instrPos(u)), fmt.Sprintf("%s, although the error of the call at %s may be set", what, p.where(instrPos(in))))
			}
		})
	}
}
