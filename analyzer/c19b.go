package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rawFields: the field of a parsed form that the parser gives the bytes of the table itself.
func (s *syncer) rawFields() map[string]string {
	if s.raw != nil {
		return s.raw
	}
	s.raw = map[string]string{}
	for fn, v := range s.parsers {
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isBytes(st.Val.Type()) || !s.tableBytes(st.Val, v.tag, nil) {
				return
			}
			for _, f := range v.fields {
				if n := viewStruct(s.p, f); n != nil && bareName(fa.X.Type()) == n.Obj().Name() {
					s.raw[f] = fieldName(fa.X.Type(), fa.Field)
				}
			}
		})
	}
	return s.raw
}

// tableBytes: the value is the entry of Tables under the tag, of the given font if any
func (s *syncer) tableBytes(v ssa.Value, tag string, font ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	lk, ok := v.(*ssa.Lookup)
	if !ok {
		return false
	}
	t, f, ok := tablesLookup(lk)
	return ok && t == tag && (font == nil || canonFont(f) == font)
}

type tableUpdate struct {
	base ssa.Value
	tags []string
	val  ssa.Value
	in   ssa.Instruction
}

// updates lists where the function sets the bytes of tables.
func (s *syncer) updates(fn *ssa.Function) []tableUpdate {
	var out []tableUpdate
	for _, b := range fn.Blocks {
		ms := s.c.musts[fn][b]
		if ms == nil {
			continue
		}
		f := ms.clone()
		for _, i := range b.Instrs {
			if up, ok := i.(*ssa.MapUpdate); ok {
				if name, font, ok := tablesMap(up.Map); ok && name == "Tables" {
					out = append(out, tableUpdate{canonFont(font), s.tagsOf(f, up.Key, b), up.Value, up})
				}
			}
			s.c.transfer(fn, f, nfacts{}, i, nil)
		}
	}
	return out
}

// viewObject: the font and field that an object made in the function is stored in
func viewObject(v ssa.Value) (string, ssa.Value, bool) {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return "", nil, false
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(al) {
			if f, b, ok := sfntField(st.Addr); ok {
				return f, canonFont(b), true
			}
		}
	}
	return "", nil, false
}

func sameBytes(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 || x.Call.StaticCallee() == nil || x.Call.StaticCallee() != y.Call.StaticCallee() || x.Call.StaticCallee().Name() != "Bytes" {
		return false
	}
	w := x.Call.Args[0]
	if w != y.Call.Args[0] {
		return false
	}
	first, second := ssa.Instruction(x), ssa.Instruction(y)
	if !after(first, second, nil) {
		first, second = second, first
	}
	same := true
	for _, r := range *w.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || r == first || r == second {
			continue
		}
		if cal := c.Common().StaticCallee(); cal != nil && (cal.Name() == "Bytes" || cal.Name() == "Len") {
			continue
		}
		def := w.(ssa.Instruction).Block()
		if w.(ssa.Instruction).Block() == first.Block() {
			def = nil
		}
		if after(first, r, def) && after(r, second, def) && !(r.Block() == first.Block() && first.Block() == second.Block() && !between(first, r, second)) {
			same = false
		}
	}
	return same
}

func between(a, r, b ssa.Instruction) bool {
	n := 0
	for _, i := range a.Block().Instrs {
		switch i {
		case a:
			n = 1
		case r:
			return n == 1
		case b:
			return false
		}
	}
	return false
}

func (s *syncer) sameData(fn *ssa.Function) {
	raw := s.rawFields()
	type rawStore struct {
		base  ssa.Value
		field string
		st    *ssa.Store
	}
	var stores []rawStore
	eachInstr(fn, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !isBytes(st.Val.Type()) {
			return
		}
		name := fieldName(fa.X.Type(), fa.Field)
		field, base, ok := viewLoad(fa.X)
		if !ok {
			field, base, ok = viewObject(fa.X)
		}
		if ok && raw[field] == name {
			stores = append(stores, rawStore{base, field, st})
		}
	})
	ups := s.updates(fn)
	for _, u := range ups {
		for _, tag := range u.tags {
			for _, field := range s.c.views[tag] {
				if raw[field] == "" {
					continue
				}
				ok := false
				for _, r := range stores {
					ok = ok || r.base == u.base && r.field == field && (sameBytes(r.st.Val, u.val) || s.tableBytes(r.st.Val, tag, u.base))
				}
				// parsed again
				eachInstr(fn, func(in ssa.Instruction) {
					c, isC := in.(*ssa.Call)
					if !isC || c.Call.StaticCallee() == nil {
						return
					}
					if v, isP := s.parsers[c.Call.StaticCallee()]; isP && v.tag == tag && canonFont(c.Call.Args[0]) == u.base && after(u.in, c, nil) {
						ok = true
					}
				})
				s.r.Add("same-data", s.c.key("same-data:" + fnName(fn) + " " + tag)[10:], s.p.where(instrPos(u.in)), ok, "the bytes of the table are not the "+raw[field]+" of the parsed form "+field)
			}
		}
	}
	for _, u := range ups {
		obj, _ := made(u.val)
		if obj == nil {
			continue
		}
		for _, tag := range u.tags {
			for _, field := range s.c.views[tag] {
				same, stores := false, 0
				eachInstr(fn, func(in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok || isNilConst(st.Val) {
						return
					}
					f, base, ok := sfntField(st.Addr)
					if !ok || f != field || canonFont(base) != u.base || !types.Identical(st.Val.Type(), obj.Type()) {
						return
					}
					stores++
					same = same || sameVal(st.Val, obj)
				})
				if f, base, ok := viewLoad(obj); ok && f == field && canonFont(base) == u.base || stores == 0 {
					continue
				}
				s.r.Add("same-data", s.c.key("same-data:" + fnName(fn) + " " + tag + " made from the parsed form")[10:], s.p.where(instrPos(u.in)), same, "the bytes of the table are not made from the parsed form that the font gets in "+field)
			}
		}
	}
	for _, r := range stores {
		tag := s.fields[r.field]
		ok := s.tableBytes(r.st.Val, tag, r.base)
		for _, u := range ups {
			for _, t := range u.tags {
				ok = ok || t == tag && u.base == r.base && sameBytes(r.st.Val, u.val)
			}
		}
		s.r.Add("same-data", s.c.key("same-data:" + fnName(fn) + " " + r.field)[10:], s.p.where(instrPos(r.st)), ok, "the "+raw[r.field]+" of the parsed form is not what the bytes of the table are set to")
	}
}

// crossFields: the parser gives a field of one parsed form the value of a field of another
func (s *syncer) crossFields() [][4]string {
	var out [][4]string
	for fn, v := range s.parsers {
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			ld, ok := st.Val.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return
			}
			g, _, path, ok := s.viewOf(ld.X)
			if h, _, whole := viewLoad(ld); whole {
				g, path = h, "" // the parsed form itself
			} else if !ok || path == "" {
				return
			}
			for _, f := range v.fields {
				if n := viewStruct(s.p, f); n != nil && f != g && bareName(fa.X.Type()) == n.Obj().Name() {
					out = append(out, [4]string{f, "." + fieldName(fa.X.Type(), fa.Field), g, path})
				}
			}
		})
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// cross checks that fields that the parser makes equal stay equal
func (s *syncer) cross(fn *ssa.Function) {
	stores := func(field, path string) map[ssa.Value][]*ssa.Store {
		out := map[ssa.Value][]*ssa.Store{}
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if f, base, ok := sfntField(st.Addr); ok && f == field && path == "" && !isNilConst(st.Val) {
				out[canonFont(base)] = append(out[canonFont(base)], st)
			} else if f, base, p, ok := s.viewOf(st.Addr); ok && f == field && p == path {
				out[base] = append(out[base], st)
			} else if fa, ok := st.Addr.(*ssa.FieldAddr); ok && "."+fieldName(fa.X.Type(), fa.Field) == path {
				if f, base, ok := viewObject(fa.X); ok && f == field {
					out[base] = append(out[base], st)
				}
			}
		})
		return out
	}
	for _, x := range s.crossFields() {
		as, bs := stores(x[0], x[1]), stores(x[2], x[3])
		one := func(field, path string, from, to map[ssa.Value][]*ssa.Store, other string) {
			for base, list := range from {
				for _, st := range list {
					ok := false
					for _, o := range to[base] {
						ok = ok || s.exprKey(st.Val, 0) == s.exprKey(o.Val, 0)
					}
					// or it is read from the other
					if ld, isL := st.Val.(*ssa.UnOp); isL && ld.Op == token.MUL {
						if f, b, isV := viewLoad(ld); isV && b == base && f == other {
							ok = true
						}
						if f, b, p, isV := s.viewOf(ld.X); isV && b == base && f+p == other {
							ok = true
						}
					}
					s.r.Add("same-field", s.c.key("same-field:" + fnName(fn) + " " + field + path)[11:], s.p.where(instrPos(st)), ok, "after parsing "+field+path+" is "+other+", but only the one is set to this value here")
				}
			}
		}
		one(x[0], x[1], as, bs, x[2]+x[3])
		one(x[2], x[3], bs, as, x[0]+x[1])
	}
}

// exprKey describes how a value is computed, so that two computations of the same value compare equal.
func (s *syncer) exprKey(v ssa.Value, depth int) string {
	if depth > 12 {
		return fmt.Sprintf("%p", v)
	}
	v = s.actual(v)
	k := func(x ssa.Value) string { return s.exprKey(x, depth+1) }
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Convert:
		return k(x.X)
	case *ssa.ChangeType:
		return k(x.X)
	case *ssa.BinOp:
		if phi, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD {
			// the index of a range loop starts at -1 and is added to first
			if init, step := induction(phi); init != nil && x.Y == ssa.Value(step) && x.Block() == phi.Block() {
				if c, ok := init.(*ssa.Const); ok && c.Int64() == -1 && step.Int64() == 1 {
					return "ind(0:" + phi.Type().String() + "," + step.String() + ")"
				}
			}
		}
		a, b, op := k(x.X), k(x.Y), x.Op
		switch op {
		case token.GTR, token.GEQ:
			a, b, op = b, a, mirror(op)
		case token.ADD, token.MUL, token.AND, token.OR, token.EQL, token.NEQ:
			if b < a {
				a, b = b, a
			}
		}
		return "(" + a + op.String() + b + ")"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				return k(a.X) + "[" + k(a.Index) + "]"
			case *ssa.FieldAddr:
				return k(a.X) + "." + fieldName(a.X.Type(), a.Field)
			case *ssa.Alloc:
				if st := onlyStore(a); st != nil {
					return k(st.Val)
				}
			}
			return fmt.Sprintf("%p", v)
		}
		return x.Op.String() + k(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + k(x.Call.Args[0]) + ")"
		}
		cal := x.Call.StaticCallee()
		if cal == nil || cal.Signature.Results().Len() != 1 || fnPkgPath(cal) != fontPath {
			return fmt.Sprintf("%p", v)
		}
		out := cal.String()
		for i, a := range x.Call.Args {
			if pointerLike(a.Type()) && i < len(cal.Params) && s.mutates(cal, i) {
				return fmt.Sprintf("%p", v)
			}
			out += "," + k(a)
		}
		return out
	case *ssa.Phi:
		if init, step := induction(x); init != nil {
			return "ind(" + k(init) + "," + step.String() + ")"
		}
	}
	return fmt.Sprintf("%p", v)
}

// induction: the variable starts at a value and is increased by a constant in each iteration
func induction(x *ssa.Phi) (ssa.Value, *ssa.Const) {
	if len(x.Edges) != 2 || !isInt(x.Type()) {
		return nil, nil
	}
	for n, e := range x.Edges {
		inc, ok := e.(*ssa.BinOp)
		if !ok || inc.Op != token.ADD || inc.X != ssa.Value(x) {
			continue
		}
		if c, ok := inc.Y.(*ssa.Const); ok {
			return x.Edges[1-n], c
		}
	}
	return nil, nil
}

type guardKey struct {
	cond string
	yes  bool
}

// guards: the conditions within the innermost loop under which the block is run, with or without that
// of the loop
func (s *syncer) guards(b *ssa.BasicBlock, loop bool) map[guardKey]bool {
	out := map[guardKey]bool{}
	for d := b.Idom(); d != nil; d = d.Idom() {
		in := loopOf(d)
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && (!in[b] || loop) {
			for n, succ := range d.Succs {
				if len(succ.Preds) == 1 && succ.Dominates(b) {
					out[s.condKey(iff.Cond, n == 0)] = true
				}
			}
		}
		if in[b] {
			break
		}
	}
	return out
}

func (s *syncer) condKey(c ssa.Value, yes bool) guardKey {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, yes = u.X, !yes
	}
	if b, ok := c.(*ssa.BinOp); ok {
		x, y := s.exprKey(b.X, 0), s.exprKey(b.Y, 0)
		switch b.Op {
		case token.LSS:
			return guardKey{x + "<" + y, yes}
		case token.GTR:
			return guardKey{y + "<" + x, yes}
		case token.LEQ:
			return guardKey{y + "<" + x, !yes}
		case token.GEQ:
			return guardKey{x + "<" + y, !yes}
		case token.EQL, token.NEQ:
			if y < x {
				x, y = y, x
			}
			return guardKey{x + "==" + y, yes == (b.Op == token.EQL)}
		}
	}
	return guardKey{s.exprKey(c, 0), yes}
}

// covered: whenever the one happens, one of the others happens too
func covered(one map[guardKey]bool, others []map[guardKey]bool) bool {
	sub := func(o map[guardKey]bool, but guardKey) bool {
		for g := range o {
			if g != but && !one[g] {
				return false
			}
		}
		return true
	}
	for i, o := range others {
		if sub(o, guardKey{}) {
			return true
		}
		for g := range o {
			if !sub(o, g) {
				continue
			}
			for j, q := range others {
				neg := guardKey{g.cond, !g.yes}
				if i != j && q[neg] && sub(q, neg) {
					return true
				}
			}
		}
	}
	return false
}

func bytesOfWriter(v ssa.Value) (ssa.Value, bool) {
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "Bytes" || len(c.Call.Args) != 1 || bareName(c.Call.Args[0].Type()) != "BinaryWriter" {
		return nil, false
	}
	return c.Call.Args[0], true
}

func (s *syncer) sameValues(fn *ssa.Function) {
	type item struct {
		in      ssa.Instruction
		key     string
		inner   map[guardKey]bool // conditions within the loop
		looping map[guardKey]bool // with that of the loop
	}
	ups := s.updates(fn)
	done := map[string]bool{}
	for _, u := range ups {
		w, ok := bytesOfWriter(u.val)
		if !ok {
			continue
		}
		for _, tag := range u.tags {
			for _, field := range s.c.views[tag] {
				var lists, writes []item
				alias := map[string]bool{}
				union := func(a, b map[guardKey]bool) map[guardKey]bool {
					out := map[guardKey]bool{}
					for k := range a {
						out[k] = true
					}
					for k := range b {
						out[k] = true
					}
					return out
				}
				// walk goes through the function and the helpers that get the font or the writer
				var walk func(fn *ssa.Function, inner, looping map[guardKey]bool, depth int)
				walk = func(fn *ssa.Function, inner, looping map[guardKey]bool, depth int) {
					mk := func(in ssa.Instruction, val ssa.Value) item {
						it := item{in: in, key: s.exprKey(val, 0), inner: s.guards(in.Block(), false), looping: s.guards(in.Block(), true)}
						if !inLoop(in.Block()) {
							it.inner, it.looping = union(it.inner, inner), union(it.looping, looping)
						}
						return it
					}
					eachInstr(fn, func(in ssa.Instruction) {
						switch x := in.(type) {
						case *ssa.Store:
							f, base, path, ok := s.viewOf(x.Addr)
							if !ok || f != field || s.actual(base) != u.base {
								return
							}
							if strings.Contains(path, "[]") && isInt(x.Val.Type()) {
								lists = append(lists, mk(x, x.Val))
							} else if sl, ok := x.Val.(*ssa.Slice); ok && strings.Count(path, ".") == 1 {
								if _, isAl := sl.X.(*ssa.Alloc); !isAl {
									alias[s.exprKey(sl.X, 0)] = true
								}
							}
						case *ssa.Call:
							cal := x.Call.StaticCallee()
							if cal == nil {
								return
							}
							if len(x.Call.Args) == 2 && s.actual(x.Call.Args[0]) == w && strings.HasPrefix(cal.Name(), "Write") && isInt(x.Call.Args[1].Type()) {
								writes = append(writes, mk(x, x.Call.Args[1]))
								return
							}
							if depth >= 3 || !repoPkg(fnPkgPath(cal)) || len(cal.Blocks) == 0 {
								return
							}
							use := false
							for _, arg := range x.Call.Args {
								use = use || s.actual(arg) == w || s.actual(arg) == u.base
							}
							for _, q := range cal.Params {
								if _, busy := s.subst[q]; busy {
									return
								}
							}
							if !use {
								return
							}
							at := mk(x, x.Call.Args[0])
							for i, q := range cal.Params {
								s.subst[q] = s.actual(x.Call.Args[i])
							}
							walk(cal, at.inner, at.looping, depth+1)
							for _, q := range cal.Params {
								delete(s.subst, q)
							}
						}
					})
				}
				walk(fn, nil, nil, 0)
				if len(lists) == 0 {
					continue
				}
				key := fnName(fn) + " " + tag
				if done[key] {
					continue
				}
				done[key] = true
				check := func(what string, from, to []item, useAlias bool) {
					for _, a := range from {
						ka := a.key
						var gs []map[guardKey]bool
						some := false
						for _, b := range to {
							if b.key == ka {
								some = true
								if useAlias {
									gs = append(gs, b.looping)
								} else {
									gs = append(gs, b.inner)
								}
							}
						}
						ok := covered(a.looping, gs)
						if useAlias && !ok {
							if i := strings.LastIndex(ka, "["); i > 0 && alias[ka[:i]] {
								ok = true
							}
						}
						msg := "no such value is " + what
						if some {
							msg = "the value is not always " + what
						}
						s.r.Add("same-values", s.c.key("same-values:" + key)[12:], s.p.where(instrPos(a.in)), ok, msg)
					}
				}
				check("written to the bytes of "+tag, lists, writes, false)
				check("put in the lists of "+field, writes, lists, true)
			}
		}
	}
}

// actual is the argument that the parameter of a helper that is being looked into stands for.
func (s *syncer) actual(v ssa.Value) ssa.Value {
	for {
		r, ok := s.subst[v]
		if !ok {
			return v
		}
		v = r
	}
}

// tables with an entry for each glyph
var perGlyph = []string{"glyf", "loca", "CFF ", "hmtx", "vmtx", "cmap", "post"}

// tables that refer to glyphs or that count them
var glyphRelated = map[string]bool{"glyf": true, "loca": true, "CFF ": true, "hmtx": true, "vmtx": true, "cmap": true, "post": true, "kern": true, "maxp": true, "hhea": true, "vhea": true}

const (
	cNone     = 1 << iota // neither
	cCount                // the number of glyphs was changed
	cRewrite              // the table was rewritten, or the font does not have it
	cBoth                 // both
	cOldStale             // SFNT.Length is out of date
	cOldFresh             // SFNT.Length is up to date
)

// counts checks glyph-count and length for the fonts that a function changes.
func (s *syncer) counts(fn *ssa.Function) {
	if !s.c.api(fn) {
		return
	}
	ups := s.updates(fn)
	bases := map[ssa.Value]bool{}
	byIn := map[ssa.Instruction]tableUpdate{}
	for _, u := range ups {
		bases[u.base] = true
		byIn[u.in] = u
	}
	// fonts that callees change
	eachInstr(fn, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			if cal := c.Common().StaticCallee(); cal != nil && fnPkgPath(cal) == fontPath {
				for i, a := range c.Common().Args {
					if isFont(a.Type()) && (s.setsTables(cal, i) || s.setsCount(cal, i)) {
						bases[canonFont(a)] = true
					}
				}
			}
		}
	})
	var order []ssa.Value
	for b := range bases {
		order = append(order, b)
	}
	sort.Slice(order, func(i, j int) bool { return s.c.id(order[i]) < s.c.id(order[j]) })
	for n, base := range order {
		name := fnName(fn)
		if n > 0 {
			name += fmt.Sprintf(" (font %d)", n+1)
		}
		al, fresh := base.(*ssa.Alloc)
		if fresh {
			for _, u := range ups {
				if u.base != base {
					continue
				}
				for _, tag := range u.tags {
					if !glyphRelated[tag] {
						continue
					}
					v := u.val
					if ex, ok := v.(*ssa.Extract); ok {
						v = ex.Tuple
					}
					ok := true
					if lk, isL := v.(*ssa.Lookup); isL {
						if name, _, isT := tablesMap(lk.X); isT && name == "Tables" {
							ok = false
						}
					}
					s.r.Add("glyph-count", s.c.key("glyph-count:" + name + " " + tag)[12:], s.p.where(instrPos(u.in)), ok, "the table of another font is taken over as it is, it has that font's glyphs")
				}
			}
		} else {
			// is the number of glyphs changed?
			for _, tag := range perGlyph {
				out := s.flow(fn, cNone, func(i ssa.Instruction, st int) int {
					changed, rewritten := s.countEvent(i, base, tag, byIn)
					return mapStates(st, func(b int) int {
						if changed && b == cNone {
							b = cCount
						} else if changed && b == cRewrite {
							b = cBoth
						}
						if rewritten && b == cNone {
							b = cRewrite
						} else if rewritten && b == cCount {
							b = cBoth
						}
						return b
					})
				}, func(cond ssa.Value, yes bool, st int) int {
					if !s.absent(cond, yes, base, tag) {
						return st
					}
					return mapStates(st, func(b int) int {
						switch b {
						case cNone:
							return cRewrite
						case cCount:
							return cBoth
						}
						return b
					})
				})
				if out.all&(cCount|cBoth) == 0 {
					continue
				}
				s.r.Add("glyph-count", "keep "+name+" "+tag, out.where, out.all&cCount == 0, "the number of glyphs is changed but not the table, which the font may have")
			}
		}
		// length
		out := s.flow(fn, cOldFresh, func(i ssa.Instruction, st int) int {
			if u, ok := byIn[i]; ok && u.base == base {
				return cOldStale
			}
			if s.setsLength(i, base) {
				return cOldFresh
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				if cal := c.Common().StaticCallee(); cal != nil && fnPkgPath(cal) == fontPath {
					for j, a := range c.Common().Args {
						if isFont(a.Type()) && canonFont(a) == base && s.setsTables(cal, j) && !s.c.api(cal) {
							return cOldStale
						}
					}
				}
			}
			return st
		}, nil)
		_ = al
		s.r.Add("length", name, out.where, out.all&cOldStale == 0, "tables are replaced after the length of the font was set")
	}
}

type flowOut struct {
	all   int
	where string
}

// flow runs a dataflow analysis of a small set of states to the successful ends of a function.
func (s *syncer) flow(fn *ssa.Function, start int, event func(ssa.Instruction, int) int, edge func(ssa.Value, bool, int) int) flowOut {
	in := map[*ssa.BasicBlock]int{fn.Blocks[0]: start}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	res := flowOut{where: s.p.where(fn.Pos())}
	idx := errIndex(fn.Signature)
	outs := map[*ssa.BasicBlock]int{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := in[b]
		for _, i := range b.Instrs {
			st = event(i, st)
		}
		outs[b] = st
		for n, succ := range b.Succs {
			o := st
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && edge != nil && b.Succs[0] != b.Succs[1] {
				o = edge(iff.Cond, n == 0, o)
			}
			if in[succ]|o != in[succ] {
				in[succ] |= o
				work = append(work, succ)
			}
		}
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || in[b] == 0 {
			continue
		}
		if idx >= 0 && nonNilErr(ret.Results[idx], b, map[ssa.Value]bool{}, 0) {
			continue
		}
		res.all |= outs[b]
	}
	return res
}

func (s *syncer) countEvent(i ssa.Instruction, base ssa.Value, tag string, ups map[ssa.Instruction]tableUpdate) (changed, rewritten bool) {
	if u, ok := ups[i]; ok && u.base == base {
		for _, t := range u.tags {
			rewritten = rewritten || t == tag && len(u.tags) == 1
		}
		return
	}
	switch x := i.(type) {
	case *ssa.Store:
		if f, b, path, ok := s.viewOf(x.Addr); ok && f == "Maxp" && b == base && path == ".NumGlyphs" {
			changed = true
		}
		if f, b, ok := sfntField(x.Addr); ok && f == "Maxp" && canonFont(b) == base {
			changed = true
		}
	case ssa.CallInstruction:
		cal := x.Common().StaticCallee()
		if cal == nil || fnPkgPath(cal) != fontPath {
			return
		}
		if _, parser := s.parsers[cal]; parser {
			return
		}
		for j, a := range x.Common().Args {
			if !isFont(a.Type()) || canonFont(a) != base {
				continue
			}
			if s.setsCount(cal, j) {
				changed = true
			}
			if s.surelySets(cal, j, tag) {
				rewritten = true
			}
		}
	}
	return
}

// setsTables: the function may set the bytes of a table of the font that is its parameter
func (s *syncer) setsTables(fn *ssa.Function, param int) bool {
	return s.may(fn, param, "tables", func(i ssa.Instruction, base ssa.Value) bool {
		up, ok := i.(*ssa.MapUpdate)
		if !ok {
			return false
		}
		name, font, ok := tablesMap(up.Map)
		return ok && name == "Tables" && canonFont(font) == base
	})
}

func (s *syncer) setsCount(fn *ssa.Function, param int) bool {
	if _, parser := s.parsers[fn]; parser {
		return false
	}
	return s.may(fn, param, "count", func(i ssa.Instruction, base ssa.Value) bool {
		x, ok := i.(*ssa.Store)
		if !ok {
			return false
		}
		f, b, path, ok := s.viewOf(x.Addr)
		return ok && f == "Maxp" && b == base && path == ".NumGlyphs"
	})
}

func (s *syncer) may(fn *ssa.Function, param int, what string, test func(ssa.Instruction, ssa.Value) bool) bool {
	k := fmt.Sprint(fnName(fn), " ", param, " ", what)
	if v, ok := s.mays[k]; ok {
		return v
	}
	s.mays[k] = false
	if param >= len(fn.Params) {
		return false
	}
	base := ssa.Value(fn.Params[param])
	res := false
	eachInstr(fn, func(i ssa.Instruction) {
		if res {
			return
		}
		if test(i, base) {
			res = true
			return
		}
		if c, ok := i.(ssa.CallInstruction); ok {
			if cal := c.Common().StaticCallee(); cal != nil && fnPkgPath(cal) == fontPath {
				for j, a := range c.Common().Args {
					if isFont(a.Type()) && canonFont(a) == base && s.may(cal, j, what, test) {
						res = true
					}
				}
			}
		}
	})
	s.mays[k] = res
	return res
}

// surelySets: every successful way through the function sets the bytes of the table or finds it absent
func (s *syncer) surelySets(fn *ssa.Function, param int, tag string) bool {
	k := fmt.Sprint(fnName(fn), " ", param, " surely ", tag)
	if v, ok := s.mays[k]; ok {
		return v
	}
	s.mays[k] = false
	if param >= len(fn.Params) || len(fn.Blocks) == 0 {
		return false
	}
	base := ssa.Value(fn.Params[param])
	byIn := map[ssa.Instruction]tableUpdate{}
	for _, u := range s.updates(fn) {
		byIn[u.in] = u
	}
	out := s.flow(fn, cNone, func(i ssa.Instruction, st int) int {
		if _, re := s.countEvent(i, base, tag, byIn); re {
			return cRewrite
		}
		return st
	}, func(cond ssa.Value, yes bool, st int) int {
		if s.absent(cond, yes, base, tag) {
			return cRewrite
		}
		return st
	})
	s.mays[k] = out.all == cRewrite
	return s.mays[k]
}

// absent: with this outcome of the condition the font does not have the table, or its table has no glyphs
func (s *syncer) absent(cond ssa.Value, yes bool, base ssa.Value, tag string) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, yes = u.X, !yes
	}
	switch x := cond.(type) {
	case *ssa.Extract:
		lk, ok := x.Tuple.(*ssa.Lookup)
		if !ok || x.Index != 1 || yes {
			return false
		}
		t, f, ok := tablesLookup(lk)
		return ok && t == tag && canonFont(f) == base
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		f, b, ok := sfntField(x.X)
		if !ok || canonFont(b) != base {
			return false
		}
		switch f {
		case "IsTrueType":
			return !yes && (tag == "glyf" || tag == "loca") || yes && tag == "CFF "
		case "IsCFF":
			return !yes && tag == "CFF " || yes && (tag == "glyf" || tag == "loca")
		}
	case *ssa.BinOp:
		a, b, op := x.X, x.Y, x.Op
		if _, ok := a.(*ssa.Const); ok {
			a, b, op = b, a, mirror(op)
		}
		k, ok := b.(*ssa.Const)
		if !ok {
			return false
		}
		if k.IsNil() {
			if op != token.EQL && op != token.NEQ || yes != (op == token.EQL) {
				return false
			}
			f, fb, ok := viewLoad(a)
			return ok && fb == base && s.fields[f] == tag
		}
		if tag != "post" || !isInt(k.Type()) || k.Int64() != 0 {
			return false
		}
		zero := op == token.EQL && yes || op == token.NEQ && !yes || op == token.GTR && !yes || op == token.LEQ && yes
		ld, ok := a.(*ssa.UnOp)
		if !zero || !ok || ld.Op != token.MUL {
			return false
		}
		f, fb, path, ok := s.viewOf(ld.X)
		return ok && f == "Post" && fb == base && path == ".NumGlyphs"
	}
	return false
}

// setsLength: the instruction, or the function it calls, sets the length of the font
func (s *syncer) setsLength(i ssa.Instruction, base ssa.Value) bool {
	switch x := i.(type) {
	case *ssa.Store:
		f, b, ok := sfntField(x.Addr)
		return ok && f == "Length" && canonFont(b) == base
	case *ssa.Call:
		cal := x.Call.StaticCallee()
		if cal == nil || fnPkgPath(cal) != fontPath || len(cal.Blocks) == 0 {
			return false
		}
		for j, a := range x.Call.Args {
			if !isFont(a.Type()) || canonFont(a) != base {
				continue
			}
			p := ssa.Value(cal.Params[j])
			ok := false
			eachInstr(cal, func(k ssa.Instruction) {
				if st, isS := k.(*ssa.Store); isS {
					if f, b, isF := sfntField(st.Addr); isF && f == "Length" && canonFont(b) == p && st.Block() == cal.Blocks[0] {
						ok = true
					}
				}
			})
			if ok {
				return true
			}
		}
	}
	return false
}

// cache: what is worked out once from fields of an object
func (s *syncer) cache(fn *ssa.Function) {
	for _, c := range s.caches() {
		if fn == c.fn || fn.Parent() != nil && fn.Parent() == c.fn.Parent() {
			continue
		}
		type spot struct {
			obj ssa.Value
			in  ssa.Instruction
		}
		var srcs, drops []spot
		eachInstr(fn, func(in ssa.Instruction) {
			obj, field, ok := c.touches(in)
			if !ok || s.freshObject(obj, 0) {
				return
			}
			if c.sources[field] {
				srcs = append(srcs, spot{obj, in})
			} else if c.filled[field] || field == c.guard {
				drops = append(drops, spot{obj, in})
			}
		})
		for _, x := range srcs {
			ok := false
			for _, d := range drops {
				if s.exprKey(x.obj, 0) == s.exprKey(d.obj, 0) && innermost(x.in.Block()) == innermost(d.in.Block()) {
					ok = ok || x.in.Block() == d.in.Block() || after(x.in, d.in, innermost(x.in.Block())) || after(d.in, x.in, innermost(x.in.Block()))
				}
			}
			_, f, _ := c.touches(x.in)
			s.r.Add("cache", s.c.key("cache:" + fnName(fn) + " " + c.typ + "." + f)[6:], s.p.where(instrPos(x.in)), ok, "what "+fnName(c.fn)+" works out once from "+f+" is not updated or dropped")
		}
	}
}

type onceCache struct {
	typ             string
	guard           string
	fn              *ssa.Function
	sources, filled map[string]bool
}

func (c *onceCache) touches(in ssa.Instruction) (ssa.Value, string, bool) {
	var addr ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		addr = x.Addr
	case *ssa.MapUpdate:
		addr = x.Map
	default:
		return nil, "", false
	}
	for i := 0; i < 10; i++ {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			if bareName(a.X.Type()) == c.typ {
				return a.X, fieldName(a.X.Type(), a.Field), true
			}
			addr = a.X
		case *ssa.IndexAddr:
			addr = a.X
		case *ssa.UnOp:
			addr = a.X
		default:
			return nil, "", false
		}
	}
	return nil, "", false
}

// freshObject: the object was made here, or in the functions that hand it over
func (s *syncer) freshObject(v ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FreeVar:
		fn := x.Parent()
		n, found := 0, false
		for i, f := range fn.FreeVars {
			if f == x {
				n = i
			}
		}
		ok := true
		eachInstr(fn.Parent(), func(in ssa.Instruction) {
			if m, isM := in.(*ssa.MakeClosure); isM && m.Fn == ssa.Value(fn) {
				found = true
				ok = ok && s.freshObject(m.Bindings[n], depth+1)
			}
		})
		return found && ok
	case *ssa.Parameter:
		fn := x.Parent()
		n := 0
		for i, f := range fn.Params {
			if f == x {
				n = i
			}
		}
		found, ok := false, true
		for _, g := range s.p.liveFuncs(fontPath) {
			eachInstr(g, func(in ssa.Instruction) {
				c, isC := in.(ssa.CallInstruction)
				if !isC || c.Common().StaticCallee() != fn {
					return
				}
				found = true
				ok = ok && s.freshObject(c.Common().Args[n], depth+1)
			})
		}
		return found && ok && !token.IsExported(fn.Name())
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !s.freshObject(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			st := onlyStore(a)
			return st != nil && s.freshObject(st.Val, depth+1)
		case *ssa.FreeVar:
			// a variable of the enclosing function
			if !s.freshObject(a, depth+1) {
				return false
			}
			ok := false
			eachInstr(x.Parent().Parent(), func(in ssa.Instruction) {
				if m, isM := in.(*ssa.MakeClosure); isM && m.Fn == ssa.Value(x.Parent()) {
					for i, f := range x.Parent().FreeVars {
						if al, isA := m.Bindings[i].(*ssa.Alloc); f == a && isA {
							st := onlyStore(al)
							ok = st != nil && s.freshObject(st.Val, depth+1)
						}
					}
				}
			})
			return ok
		case *ssa.FieldAddr:
			// the view that was set to a new object before, in the same block or one that dominates
			f1, b1, ok := sfntField(a)
			if !ok {
				return false
			}
			return s.freshField(x, f1, b1, depth)
		}
	}
	return false
}

// freshField: the field of the font was set to a new object before the instruction, here or in all callers
func (s *syncer) freshField(at ssa.Instruction, field string, font ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	var last *ssa.Store
	count := 0
	fn := at.Parent()
	eachInstr(fn, func(in ssa.Instruction) {
		st, isS := in.(*ssa.Store)
		if !isS {
			return
		}
		if f2, b2, ok := sfntField(st.Addr); ok && field == f2 && canonFont(font) == canonFont(b2) {
			count++
			if dominatedBy([]ssa.Instruction{st}, at) {
				last = st
			}
		}
	})
	q, isP := canonFont(font).(*ssa.Parameter)
	if count > 0 || !isP || token.IsExported(fn.Name()) {
		return last != nil && count == 1 && s.freshObject(last.Val, depth+1)
	}
	found, ok := false, true
	for _, g := range s.p.liveFuncs(fontPath) {
		eachInstr(g, func(in ssa.Instruction) {
			c, isC := in.(ssa.CallInstruction)
			if !isC || c.Common().StaticCallee() != fn {
				return
			}
			for n, p := range fn.Params {
				if p == q {
					found = true
					ok = ok && s.freshField(in, field, c.Common().Args[n], depth+1)
				}
			}
		})
	}
	return found && ok
}

func innermost(b *ssa.BasicBlock) *ssa.BasicBlock {
	for d := b; d != nil; d = d.Idom() {
		if loopOf(d)[b] {
			return d
		}
	}
	return nil
}

func (s *syncer) caches() []*onceCache {
	if s.once != nil {
		return *s.once
	}
	var out []*onceCache
	for _, fn := range s.p.liveFuncs(fontPath) {
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g, f, ok := onceDo(ci)
			if !ok {
				return
			}
			c := &onceCache{guard: g.field, fn: f, sources: map[string]bool{}, filled: map[string]bool{}}
			fa := ci.Common().Args[0].(*ssa.FieldAddr)
			c.typ = bareName(fa.X.Type())
			seen := map[*ssa.Function]bool{}
			var scan func(f *ssa.Function)
			scan = func(f *ssa.Function) {
				if seen[f] {
					return
				}
				seen[f] = true
				eachInstr(f, func(i ssa.Instruction) {
					if _, field, ok := c.touches(i); ok {
						c.filled[field] = true
					}
					if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && bareName(fa.X.Type()) == c.typ {
							c.sources[fieldName(fa.X.Type(), fa.Field)] = true
						}
					}
					if ci, ok := i.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil && fnPkgPath(cal) == fontPath && cal.Signature.Recv() != nil && bareName(cal.Signature.Recv().Type()) == c.typ {
							scan(cal)
						}
					}
				})
			}
			scan(f)
			for k := range c.filled {
				delete(c.sources, k)
			}
			if len(c.filled) > 0 {
				out = append(out, c)
			}
		})
	}
	s.once = &out
	return out
}

var _ types.Type
