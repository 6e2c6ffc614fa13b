package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C16"] = checkC16 }

func isNilConst(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil && nilable(v.Type())
	case *ssa.ChangeType:
		return isNilConst(v.X)
	case *ssa.ChangeInterface:
		return isNilConst(v.X)
	case *ssa.MakeInterface:
		return isNilConst(v.X) // a typed nil in an interface is no better
	}
	return false
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// retTuple is what one path returns: the values, the block control comes from and the facts known there.
type retTuple struct {
	ret  *ssa.Return
	at   *ssa.BasicBlock
	vals []ssa.Value
}

// returnTuples expands the phis of returned values along incoming edges, so that values that belong to one path are
// seen together.
func returnTuples(fn *ssa.Function) []retTuple {
	var out []retTuple
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var expand func(at *ssa.BasicBlock, vals []ssa.Value, seen map[*ssa.BasicBlock]int)
		expand = func(at *ssa.BasicBlock, vals []ssa.Value, seen map[*ssa.BasicBlock]int) {
			if idx := errIndex(fn.Signature); idx >= 0 && nonNilErr(vals[idx], at, map[ssa.Value]bool{}, 0) {
				out = append(out, retTuple{ret, at, vals})
				return
			}
			// the nearest block, going up a chain without side entries, that has a phi among the values
			pb := at
			for {
				has := false
				for _, v := range vals {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == pb {
						has = true
					}
				}
				if has {
					break
				}
				if len(pb.Preds) != 1 {
					out = append(out, retTuple{ret, at, vals})
					return
				}
				pb = pb.Preds[0]
			}
			if seen[pb] > 0 || len(seen) > 20 {
				out = append(out, retTuple{ret, at, vals})
				return
			}
			s2 := map[*ssa.BasicBlock]int{pb: 1}
			for k := range seen {
				s2[k] = 1
			}
			for i, pr := range pb.Preds {
				nv := append([]ssa.Value{}, vals...)
				for j, v := range vals {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == pb {
						nv[j] = ph.Edges[i]
					}
				}
				expand(pr, nv, s2)
			}
		}
		expand(b, ret.Results, map[*ssa.BasicBlock]int{})
	}
	return out
}

func checkC16(p *Prog, r *Report) {
	r.Rule("nil-result-needs-error", "on every path on which a function with an error result returns nil for another result, the error is certainly not nil", 150)
	r.Rule("success-has-result", "on every path on which nil is returned for the error, the other results are not the nil constant", 35)
	checkViews(p, r)
	for _, fn := range p.liveFuncs() {
		idx := errIndex(fn.Signature)
		if idx < 0 || fn.Signature.Results().Len() < 2 {
			continue
		}
		for _, t := range returnTuples(fn) {
			e := t.vals[idx]
			for i, v := range t.vals {
				if i == idx || !nilable(v.Type()) {
					continue
				}
				key := fmt.Sprintf("%s result %d", fnName(fn), i)
				where := p.where(instrPos(t.ret))
				if isNilConst(v) {
					if isNilConst(e) {
						r.Bad("success-has-result", key, where, "nil is returned together with a nil error")
					} else {
						ok := nonNilErr(e, t.at, map[ssa.Value]bool{}, 0)
						r.Add("nil-result-needs-error", key, where, ok, map[bool]string{true: "the error is not nil here", false: "the error may be nil although the result is"}[ok])
					}
				} else if isNilConst(e) {
					r.OK("success-has-result", key, where, "")
				}
			}
		}
	}
}

// sfntField reports the SFNT pointer field that the address denotes.
func sfntField(v ssa.Value) (string, ssa.Value, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return "", nil, false
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return "", nil, false
	}
	named, ok := pt.Elem().(*types.Named)
	if !ok || named.Obj().Name() != "SFNT" || named.Obj().Pkg() == nil || named.Obj().Pkg().Path() != fontPath {
		return "", nil, false
	}
	return named.Underlying().(*types.Struct).Field(fa.Field).Name(), fa.X, true
}

// tablesLookup: v is a lookup in the Tables map of an SFNT under a constant tag
func tablesLookup(in ssa.Instruction) (tag string, font ssa.Value, ok bool) {
	lk, isL := in.(*ssa.Lookup)
	if !isL {
		return "", nil, false
	}
	f, font, isF := tablesMap(lk.X)
	if !isF || f != "Tables" {
		return "", nil, false
	}
	c, isC := lk.Index.(*ssa.Const)
	if !isC || c.Value == nil {
		return "", nil, false
	}
	return constString(c), font, true
}

func tablesMap(v ssa.Value) (string, ssa.Value, bool) {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return "", nil, false
	}
	return sfntField(ld.X)
}

// storesField: does the instruction, or everything it calls, surely store field f of the font?
func storesField(in ssa.Instruction, f string, font ssa.Value, depth int) bool {
	switch in := in.(type) {
	case *ssa.Store:
		n, x, ok := sfntField(in.Addr)
		return ok && n == f && x == font && !isNilConst(in.Val)
	case *ssa.Call:
		g := in.Call.StaticCallee()
		if g == nil || g.Blocks == nil || depth > 3 {
			return false
		}
		for i, a := range in.Call.Args {
			if a == font && i < len(g.Params) && missesStore(g, f, g.Params[i], depth+1) == nil {
				return true
			}
		}
	}
	return false
}

// missesStore returns a return instruction that reports success and that a path reaches without storing the field.
func missesStore(fn *ssa.Function, f string, font ssa.Value, depth int) *ssa.Return {
	idx := errIndex(fn.Signature)
	seen := map[*ssa.BasicBlock]bool{}
	var bad *ssa.Return
	var walk func(b, from *ssa.BasicBlock)
	walk = func(b, from *ssa.BasicBlock) {
		if seen[b] || bad != nil {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if storesField(in, f, font, depth) {
				return
			}
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if idx >= 0 && nonNilErr(ret.Results[idx], b, map[ssa.Value]bool{}, 0) {
				return
			}
			bad = ret
			return
		}
		for _, s := range b.Succs {
			walk(s, b)
		}
	}
	walk(fn.Blocks[0], nil)
	return bad
}

// viewOf maps each parsing method of SFNT to the tag it reads first and the parsed fields it sets.
type tableView struct {
	fn     *ssa.Function
	tag    string
	fields []string
}

func tableViews(p *Prog) []tableView {
	var out []tableView
	for _, fn := range p.liveFuncs(fontPath) {
		s := fn.Signature
		if s.Recv() == nil || s.Params().Len() != 0 || s.Results().Len() != 1 || !isErr(s.Results().At(0).Type()) {
			continue
		}
		tag := ""
		stored := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if t, x, ok := tablesLookup(in); ok && tag == "" && x == fn.Params[0] {
					tag = t
				}
				if st, ok := in.(*ssa.Store); ok {
					if f, x, ok := sfntField(st.Addr); ok && x == fn.Params[0] && nilable(st.Val.Type()) && !stored[f] {
						stored[f] = true
					}
				}
			}
		}
		if tag != "" {
			v := tableView{fn: fn, tag: tag}
			for f := range stored {
				v.fields = append(v.fields, f)
			}
			sort.Strings(v.fields)
			out = append(out, v)
		}
	}
	return out
}

func checkViews(p *Prog, r *Report) {
	r.Rule("success-sets-view", "a method that parses a table and reports success has stored the parsed form in the font on every path", 12)
	r.Rule("tag-reaches-its-parser", "where the parsing method of a table is selected by comparing a tag, the tag is that of the table the method reads", 10)
	r.Rule("parser-is-called", "the parsing method of every table is called when a font is parsed", 12)
	r.Rule("present-table-is-parsed", "once the tag of a table selected its parser, the parser is called on every path on which parsing goes on", 10)
	views := tableViews(p)
	for _, v := range views {
		for _, f := range v.fields {
			ret := missesStore(v.fn, f, v.fn.Params[0], 0)
			detail := "stored on every successful path"
			where := p.where(v.fn.Pos())
			if ret != nil {
				where = p.where(instrPos(ret))
				detail = "success is reported although " + f + " was not set"
			}
			r.Add("success-sets-view", fnName(v.fn)+" "+f, where, ret == nil, detail)
		}
		calls := 0
		for _, fn := range p.liveFuncs(fontPath) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.StaticCallee() != v.fn {
						continue
					}
					calls++
					if tag, head, ok := guardingTag(b); ok {
						skip := bypasses(head, v.fn)
						r.Add("present-table-is-parsed", fnName(v.fn)+" under "+tag, p.where(instrPos(in)), !skip, "parser called on every path for this tag")
						r.Add("tag-reaches-its-parser", fnName(v.fn)+" under "+tag, p.where(instrPos(in)), tag == v.tag, fmt.Sprintf("selected for %q, reads %q", tag, v.tag))
					}
				}
			}
		}
		r.Add("parser-is-called", fnName(v.fn), p.where(v.fn.Pos()), calls > 0, fmt.Sprintf("%d call(s)", calls))
	}
}

// guardingTag: the block is entered only over an edge on which a string equals a constant (nearest such test).
func guardingTag(b *ssa.BasicBlock) (string, *ssa.BasicBlock, bool) {
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL {
			continue
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok {
			c, ok = bo.X.(*ssa.Const)
		}
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			continue
		}
		if edgeDominates(d, d.Succs[0], b) {
			return constString(c), d.Succs[0], true
		}
	}
	return "", nil, false
}

// bypasses: from head a path leaves the blocks it dominates, or returns without an error, without calling fn.
func bypasses(head *ssa.BasicBlock, fn *ssa.Function) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{head}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if !head.Dominates(b) {
			return true
		}
		called := false
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
				called = true
			}
		}
		if called {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) == 0 || !nonNilErr(ret.Results[len(ret.Results)-1], b, nil, 0) {
				return true
			}
		}
		work = append(work, b.Succs...)
	}
	return false
}

func constString(c *ssa.Const) string {
	if c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}
