package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// extent decides whether a number is known to be no larger than the data at hand or a number of 32 bits: made from
// lengths, constants, numbers of small types and the sums, quotients and so on of these, also through the fields,
// parameters and results that pass them on. A number that a file or the user writes out in digits is not.
type extent struct {
	b      *bp
	seen   map[any]bool
	stores map[fieldRef][]ssa.Value
}

func newExtent(b *bp, fns []*ssa.Function) *extent {
	e := &extent{b: b, stores: map[fieldRef][]ssa.Value{}}
	for _, f := range fns {
		eachInstr(f, func(i ssa.Instruction) {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					fr := fieldRef{structName(fa.X.Type()), fa.Field}
					e.stores[fr] = append(e.stores[fr], st.Val)
				}
			}
		})
	}
	return e
}

// small: every number that m is made of is.
func (e *extent) small(m lin) bool {
	for _, a := range m.atoms() {
		if !e.atom(a) {
			return false
		}
	}
	return true
}

func (e *extent) atom(a int) bool {
	e.seen = map[any]bool{}
	k := e.b.atoms[a]
	if k.kind != aVal {
		return true
	}
	switch v := k.v.(type) {
	case ssa.Value:
		return e.value(v, 0)
	case *memVal:
		if narrow(v.loc.typ) {
			return true
		}
		if n := len(v.loc.fields); n > 0 {
			return e.field(v.loc.fields[n-1])
		}
	}
	return false
}

func narrow(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32, types.Bool:
		return true
	}
	return false
}

func (e *extent) field(fr fieldRef) bool {
	if len(fr.st) > 6 && fr.st[:6] == "image." {
		return true // the size of a picture in memory
	}
	if e.seen[fr] {
		return true
	}
	e.seen[fr] = true
	for _, v := range e.stores[fr] {
		if !e.value(v, 1) {
			return false
		}
	}
	return len(e.stores[fr]) > 0
}

func (e *extent) value(v ssa.Value, depth int) bool {
	if narrow(v.Type()) {
		return true
	}
	if _, ok := v.(*ssa.Const); ok || e.seen[v] {
		return true
	}
	if depth > 40 {
		return false
	}
	e.seen[v] = true
	switch v := v.(type) {
	case *ssa.Convert:
		return e.value(v.X, depth+1)
	case *ssa.ChangeType:
		return e.value(v.X, depth+1)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !e.value(x, depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return e.value(v.X, depth+1) && e.value(v.Y, depth+1)
	case *ssa.UnOp:
		switch x := v.X.(type) {
		case *ssa.FieldAddr:
			return e.field(fieldRef{structName(x.X.Type()), x.Field})
		case *ssa.Alloc:
			ok := v.Op.String() == "*"
			for _, r := range realRefs(x) {
				if st, is := r.(*ssa.Store); is {
					ok = ok && st.Addr == x && e.value(st.Val, depth+1)
				} else if ld, is := r.(*ssa.UnOp); !is || ld.X != x {
					return false
				}
			}
			return ok
		}
		return v.Op.String() != "*" && e.value(v.X, depth+1)
	case *ssa.Field:
		return e.field(fieldRef{structName(v.X.Type()), v.Field})
	case *ssa.Parameter:
		f := v.Parent()
		for n, q := range f.Params {
			if q != v {
				continue
			}
			for _, c := range e.b.callers[f] {
				if as := c.Common().Args; n < len(as) && !e.value(as[n], depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return e.result(c, v.Index, depth)
		}
		_, ok := v.Tuple.(*ssa.Next)
		return ok
	case *ssa.Call:
		return e.result(v, 0, depth)
	}
	return false
}

// result: what a call returns.
func (e *extent) result(c *ssa.Call, n, depth int) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy" {
			return true
		}
		for _, a := range c.Call.Args { // min, max
			if !e.value(a, depth+1) {
				return false
			}
		}
		return true
	}
	f := c.Call.StaticCallee()
	switch calleeName(&c.Call) {
	case "strconv.ParseInt", "strconv.ParseUint":
		bits, ok := constInt(c.Call.Args[2])
		return ok && bits > 0 && bits <= 32
	}
	if parsesDigits(&c.Call) {
		return n == 1
	}
	if f == nil || len(f.Blocks) == 0 || !repoPkg(fnPkgPath(f)) {
		// sizes and positions of the library's own data
		return f != nil && n == 0 && isInt(c.Type()) && f.Signature.Recv() != nil && (f.Name() == "Len" || f.Name() == "Pos" || f.Name() == "Size")
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && n < len(ret.Results) && !e.value(ret.Results[n], depth+1) {
			return false
		}
	}
	return true
}
