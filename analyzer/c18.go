package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: the operator tables of CFF DICT readers and writers. The reader's table is computed by binding the operator
// parameter of the callback to each operator and collecting the fields stored on the blocks that stay reachable; the
// writer's table by resolving the operator and operands of each entry call through helper functions.

func init() { checkers["C18"] = checkC18 }

type dictVal struct {
	kind  string // int, float, sid, bool, flag, list, array, const, len, other
	field string
	idx   int // operand index (reader), element index (writer)
	c     constant.Value
}

func (d dictVal) String() string {
	s := d.kind
	if d.field != "" {
		s += " " + d.field
	}
	return fmt.Sprintf("%s[%d]", s, d.idx)
}

type dictRead struct {
	field string
	val   dictVal
	float bool
}

type dictEntry struct {
	op    int64
	known bool
	vals  []dictVal
	site  ssa.Instruction
	conds []dictCond
}

type dictCond struct {
	field   string
	def     string // the value for which nothing is written
	unknown string
}

// valCtx binds the parameters of a helper to values of its caller.
type valCtx struct {
	up   *valCtx
	bind map[ssa.Value]ssa.Value
	fn   *ssa.Function
	site *ssa.Call
}

func (c *valCtx) resolve(v ssa.Value) (ssa.Value, *valCtx) {
	for c != nil {
		x, ok := c.bind[v]
		if !ok {
			return v, c
		}
		v, c = x, c.up
	}
	return v, c
}

func isDictPtr(t types.Type, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == name
}

// dictField: v is the address of a field of the named struct.
func dictField(v ssa.Value, typ string) (string, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || !isDictPtr(fa.X.Type(), typ) {
		return "", false
	}
	return fieldName(fa.X.Type(), fa.Field), true
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

// ---- reader

func dictCallbacks(p *Prog, fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && cbParams(f) != nil {
			out = append(out, f)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				case *ssa.Function:
					if _, isCall := in.(*ssa.MakeClosure); !isCall {
						if c, ok := in.(*ssa.Call); !ok || c.Call.Value != x {
							add(x)
						}
					}
				}
			}
		}
	}
	return out
}

// cbParams finds the operator, integer operand and real operand parameters by type.
func cbParams(f *ssa.Function) []*ssa.Parameter {
	var op, is, fs *ssa.Parameter
	for _, q := range f.Params {
		switch q.Type().String() {
		case "int":
			op = q
		case "[]int":
			is = q
		case "[]float64":
			fs = q
		}
	}
	if op == nil || is == nil || fs == nil {
		return nil
	}
	return []*ssa.Parameter{op, is, fs}
}

type readCollector struct {
	p   *Prog
	typ string
	out []dictRead
}

func (rc *readCollector) val(v ssa.Value, is, fs ssa.Value, depth int) dictVal {
	if depth > 8 {
		return dictVal{kind: "other"}
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if ia, ok := v.X.(*ssa.IndexAddr); ok {
				if k, ok := ia.Index.(*ssa.Const); ok {
					n, _ := constant.Int64Val(k.Value)
					if ia.X == is {
						return dictVal{kind: "int", idx: int(n)}
					} else if ia.X == fs {
						return dictVal{kind: "float", idx: int(n)}
					}
				}
			}
		}
	case *ssa.Convert:
		return rc.val(v.X, is, fs, depth+1)
	case *ssa.ChangeType:
		return rc.val(v.X, is, fs, depth+1)
	case *ssa.Const:
		return dictVal{kind: "flag", c: v.Value}
	case *ssa.BinOp:
		if v.Op == token.NEQ {
			operand, zero := v.X, v.Y
			if _, ok := operand.(*ssa.Const); ok {
				operand, zero = zero, operand
			}
			x := rc.val(operand, is, fs, depth+1)
			if c, ok := zero.(*ssa.Const); ok && (x.kind == "int" || x.kind == "float") && constant.Sign(constant.ToFloat(c.Value)) == 0 {
				x.kind = "bool"
				return x
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && len(v.Call.Args) == 2 && (v.Call.Args[1] == is || v.Call.Args[1] == fs) {
				k := 0
				if v.Call.Args[1] == fs {
					k = 1
				}
				return dictVal{kind: "list", idx: k}
			}
			return dictVal{kind: "other"}
		}
		if f := v.Call.StaticCallee(); f != nil {
			if bs, ok := v.Type().Underlying().(*types.Basic); ok && bs.Kind() == types.String {
				for _, a := range v.Call.Args {
					if x := rc.val(a, is, fs, depth+1); x.kind == "int" {
						return dictVal{kind: "sid", idx: x.idx}
					}
				}
			}
			if (f.String() == "slices.Clone" || strings.HasPrefix(f.String(), "slices.Clone[")) && len(v.Call.Args) == 1 {
				if v.Call.Args[0] == is {
					return dictVal{kind: "list"}
				} else if v.Call.Args[0] == fs {
					return dictVal{kind: "list", idx: 1}
				}
			}
		}
	case *ssa.MakeSlice:
		for _, ref := range realRefs(v) {
			if c, ok := ref.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == v {
					if c.Call.Args[1] == is {
						return dictVal{kind: "list"}
					} else if c.Call.Args[1] == fs {
						return dictVal{kind: "list", idx: 1}
					}
				}
			}
		}
	}
	return dictVal{kind: "other"}
}

func (rc *readCollector) collect(run *setRun, is, fs ssa.Value, depth int) {
	for _, b := range run.fn.Blocks {
		if !run.reached(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if f, ok := dictField(in.Addr, rc.typ); ok {
					rc.out = append(rc.out, dictRead{field: f, val: rc.val(in.Val, is, fs, 0)})
				} else if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					if f, ok := dictField(ia.X, rc.typ); ok {
						x := rc.val(in.Val, is, fs, 0)
						if k, ok := ia.Index.(*ssa.Const); ok {
							n, _ := constant.Int64Val(k.Value)
							if (x.kind == "int" || x.kind == "float") && x.idx == int(n) {
								rc.out = append(rc.out, dictRead{field: f, val: dictVal{kind: "array", idx: map[string]int{"int": 0, "float": 1}[x.kind]}})
								continue
							}
						}
						rc.out = append(rc.out, dictRead{field: f, val: dictVal{kind: "other"}})
					}
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" {
						if sl, ok := in.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
							if f, ok := dictField(sl.X, rc.typ); ok {
								k := "other"
								n := 0
								if in.Call.Args[1] == is {
									k = "array"
								} else if in.Call.Args[1] == fs {
									k, n = "array", 1
								}
								rc.out = append(rc.out, dictRead{field: f, val: dictVal{kind: k, idx: n}})
							}
						}
					}
					continue
				}
				f := in.Call.StaticCallee()
				if f == nil || f.Blocks == nil || depth > 3 {
					continue
				}
				if fnPkgPath(f) != fontPath {
					continue
				}
				// a helper that sets fields of the dictionary
				takes := false
				bind := map[ssa.Value]cset{}
				var his, hfs ssa.Value
				env := run.envAt(b)
				for i, a := range in.Call.Args {
					if isDictPtr(a.Type(), rc.typ) {
						takes = true
					}
					if a == is {
						his = f.Params[i]
					} else if a == fs {
						hfs = f.Params[i]
					} else if s := run.get(env, a); !s.top {
						bind[f.Params[i]] = s
					}
				}
				if takes {
					rc.collect(runSets(rc.p, f, bind), his, hfs, depth+1)
				}
			}
		}
	}
}

// dictReads: for each operator the callback accepts, the fields it sets.
func dictReads(p *Prog, cb *ssa.Function, typ string) map[int64][]dictRead {
	out := map[int64][]dictRead{}
	q := cbParams(cb)
	ops := []int64{}
	for i := int64(0); i < 25; i++ {
		ops = append(ops, i)
	}
	for i := int64(256); i < 300; i++ {
		ops = append(ops, i)
	}
	for _, op := range ops {
		run := runSets(p, cb, map[ssa.Value]cset{q[0]: intSet(op)})
		res := run.results()
		if len(res) == 1 && !res[0].may(cv{c: constant.MakeBool(true)}) {
			continue // refused
		}
		rc := &readCollector{p: p, typ: typ}
		rc.collect(run, q[1], q[2], 0)
		seen := map[string]bool{}
		reads := []dictRead{}
		for _, x := range rc.out {
			k := x.field + x.val.String()
			if !seen[k] {
				seen[k] = true
				reads = append(reads, x)
			}
		}
		out[op] = reads
	}
	return out
}

// dictDefaults: constants stored in the fields of the dictionary the parser returns, before its entries are read.
func dictDefaults(fn *ssa.Function, typ string) map[string]string {
	out := map[string]string{}
	arr := map[string]map[int64]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if f, ok := dictField(st.Addr, typ); ok {
				if c, ok := st.Val.(*ssa.Const); ok {
					out[f] = constKey(c)
				} else if a, ok := arrayConst(st.Val); ok {
					out[f] = a
				} else {
					out[f] = "?"
				}
			} else if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				if f, ok := dictField(ia.X, typ); ok {
					k, ok1 := ia.Index.(*ssa.Const)
					c, ok2 := st.Val.(*ssa.Const)
					if ok1 && ok2 {
						n, _ := constant.Int64Val(k.Value)
						if arr[f] == nil {
							arr[f] = map[int64]string{}
						}
						arr[f][n] = constKey(c)
					} else {
						out[f] = "?"
					}
				}
			}
		}
	}
	for f, m := range arr {
		out[f] = arrayKey(m)
	}
	return out
}

func arrayKey(m map[int64]string) string {
	var ks []int64
	for k, v := range m {
		if v != "0" {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	s := "["
	for _, k := range ks {
		s += fmt.Sprintf("%d:%s ", k, m[k])
	}
	return s + "]"
}

func constKey(c *ssa.Const) string {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Array); ok {
			return "[]"
		}
		return "empty"
	}
	switch c.Value.Kind() {
	case constant.String:
		if constant.StringVal(c.Value) == "" {
			return "empty"
		}
		return c.Value.ExactString()
	case constant.Bool:
		return c.Value.ExactString()
	}
	f, _ := constant.Float64Val(constant.ToFloat(c.Value))
	return fmt.Sprint(f)
}

// arrayConst: an array value loaded from a local literal.
func arrayConst(v ssa.Value) (string, bool) {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			if _, ok := c.Type().Underlying().(*types.Array); ok {
				return "[]", true
			}
		}
		return "", false
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		if g, ok := ld.X.(*ssa.Global); ok {
			return globalArrayConst(g)
		}
		return "", false
	}
	m := map[int64]string{}
	for _, ref := range realRefs(al) {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			if ref == ssa.Instruction(ld) {
				continue
			}
			if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
				continue
			}
			return "", false
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return "", false
		}
		n, _ := constant.Int64Val(k.Value)
		for _, r2 := range realRefs(ia) {
			st, ok := r2.(*ssa.Store)
			if !ok {
				return "", false
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok {
				return "", false
			}
			m[n] = constKey(c)
		}
	}
	return arrayKey(m), true
}

func globalArrayConst(g *ssa.Global) (string, bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return "", false
	}
	m := map[int64]string{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == g {
				k, ok1 := ia.Index.(*ssa.Const)
				c, ok2 := st.Val.(*ssa.Const)
				if !ok1 || !ok2 {
					return "", false
				}
				n, _ := constant.Int64Val(k.Value)
				m[n] = constKey(c)
			}
		}
	}
	return arrayKey(m), len(m) > 0
}

// ---- writer

type dictWriter struct {
	p     *Prog
	typ   string
	entry *ssa.Function
	out   []dictEntry
}

// entryParams: operator and operand-list parameters of the function that writes one entry.
func entryParams(f *ssa.Function) (op, vals int) {
	op, vals = -1, -1
	for i, q := range f.Params {
		switch q.Type().String() {
		case "int":
			op = i
		case "[]any", "[]interface{}":
			vals = i
		}
	}
	return
}

func (w *dictWriter) walk(fn *ssa.Function, ctx *valCtx, conds []dictCond, depth int) {
	if depth > 4 || fn.Blocks == nil {
		return
	}
	oi, vi := entryParams(w.entry)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil {
				continue
			}
			if f == w.entry {
				e := dictEntry{site: c}
				ov, _ := ctx.resolve(c.Call.Args[oi])
				if k, ok := ov.(*ssa.Const); ok {
					e.op, _ = constant.Int64Val(k.Value)
					e.known = true
				}
				e.vals = w.operands(c.Call.Args[vi], ctx)
				e.conds = append(append([]dictCond{}, conds...), w.conds(b, ctx)...)
				w.out = append(w.out, e)
				continue
			}
			if fnPkgPath(f) != fontPath || f == fn {
				continue
			}
			// helpers that are given the writer and end in an entry
			if reachesCall(f, w.entry, 0) {
				bind := map[ssa.Value]ssa.Value{}
				for i, a := range c.Call.Args {
					bind[f.Params[i]] = a
				}
				w.walk(f, &valCtx{up: ctx, bind: bind, fn: f, site: c}, append(append([]dictCond{}, conds...), w.conds(b, ctx)...), depth+1)
			}
		}
	}
}

func reachesCall(f, target *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				g := c.Call.StaticCallee()
				if g == target || g != nil && g != f && fnPkgPath(g) == fontPath && g.Blocks != nil && reachesCall(g, target, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// operands lists the values of a variadic operand list.
func (w *dictWriter) operands(v ssa.Value, ctx *valCtx) []dictVal {
	v, ctx = ctx.resolve(v)
	if sl, ok := v.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if ok {
				out := make([]dictVal, at.Len())
				for i := range out {
					out[i].kind = "other"
				}
				for _, ref := range realRefs(al) {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					k, ok := ia.Index.(*ssa.Const)
					if !ok {
						return []dictVal{{kind: "other"}}
					}
					n, _ := constant.Int64Val(k.Value)
					for _, r2 := range realRefs(ia) {
						if st, ok := r2.(*ssa.Store); ok {
							out[n] = w.val(st.Val, ctx, 0)
						}
					}
				}
				return out
			}
		}
	}
	return []dictVal{{kind: "other"}}
}

func (w *dictWriter) val(v ssa.Value, ctx *valCtx, depth int) dictVal {
	if depth > 10 {
		return dictVal{kind: "other"}
	}
	v, ctx = ctx.resolve(v)
	kindOf := func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsFloat != 0 {
				return "float"
			} else if u.Info()&types.IsInteger != 0 {
				return "int"
			} else if u.Info()&types.IsString != 0 {
				return "string"
			} else if u.Info()&types.IsBoolean != 0 {
				return "bool"
			}
		case *types.Slice:
			return "list"
		case *types.Array:
			return "array"
		}
		return "other"
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		switch v.X.Type().Underlying().String() {
		case "int", "float64", "[]int", "[]float64":
			return w.val(v.X, ctx, depth+1)
		}
		return dictVal{kind: "other"} // refused as an operand
	case *ssa.ChangeType:
		return w.val(v.X, ctx, depth+1)
	case *ssa.Convert:
		return w.val(v.X, ctx, depth+1)
	case *ssa.Const:
		return dictVal{kind: "const", c: v.Value}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		if f, ok := dictField(v.X, w.typ); ok {
			return dictVal{kind: kindOf(v.Type()), field: f, idx: -1}
		}
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			if f, ok := dictField(ia.X, w.typ); ok {
				if k, ok := ia.Index.(*ssa.Const); ok {
					n, _ := constant.Int64Val(k.Value)
					return dictVal{kind: kindOf(v.Type()), field: f, idx: int(n)}
				}
			}
		}
	case *ssa.Slice:
		if f, ok := dictField(v.X, w.typ); ok && v.Low == nil && v.High == nil {
			return dictVal{kind: "list", field: f, idx: -1}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				return dictVal{kind: "len", idx: -1}
			}
			break
		}
		if f := v.Call.StaticCallee(); f != nil && kindOf(v.Type()) == "int" {
			for _, a := range v.Call.Args {
				if x := w.val(a, ctx, depth+1); x.kind == "string" {
					x.kind = "sid"
					return x
				} else if x.kind == "bool" {
					return x
				}
			}
		}
	}
	return dictVal{kind: "other"}
}

// conds: tests on which the block depends, apart from those whose other side only reports an error.
func (w *dictWriter) conds(b *ssa.BasicBlock, ctx *valCtx) []dictCond {
	var out []dictCond
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range d.Succs {
			if d.Succs[0] == d.Succs[1] || !edgeDominates(d, s, b) {
				continue
			}
			if onlyErrors(d.Succs[1-k]) {
				continue
			}
			out = append(out, w.cond(iff.Cond, k == 0, ctx))
		}
	}
	return out
}

// onlyErrors: from this block every return reports an error.
func onlyErrors(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) == 0 {
				return false
			}
			e := ret.Results[len(ret.Results)-1]
			if !isErr(e.Type()) || !nonNilErr(e, x, nil, 0) {
				return false
			}
		}
		work = append(work, x.Succs...)
	}
	return true
}

// cond interprets a test that holds (sense) where an entry is written.
func (w *dictWriter) cond(v ssa.Value, sense bool, ctx *valCtx) dictCond {
	v, ctx = ctx.resolve(v)
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return w.cond(v.X, !sense, ctx)
		}
		x := w.val(v, ctx, 0)
		if x.kind == "bool" {
			return dictCond{field: x.field, def: fmt.Sprint(!sense)}
		}
	case *ssa.BinOp:
		op := v.Op
		x, y := v.X, v.Y
		if !sense {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			}
		}
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
		}
		rx, cx := ctx.resolve(x)
		ry, cy := ctx.resolve(y)
		if isConstLike(rx) && !isConstLike(ry) {
			rx, ry, cx, cy = ry, rx, cy, cx
			if op == token.LSS || op == token.LEQ { // c < x
				c, ok := ry.(*ssa.Const)
				l, isLen := lenArg(rx)
				if ok && isLen {
					n, _ := constant.Int64Val(c.Value)
					if op == token.LSS && n == 0 || op == token.LEQ && n == 1 {
						if f := w.val(l, cx, 0); f.field != "" {
							return dictCond{field: f.field, def: "empty"}
						}
					}
				}
				break
			}
		}
		if op == token.NEQ {
			if l, isLen := lenArg(rx); isLen {
				if c, ok := ry.(*ssa.Const); ok && constKey(c) == "0" {
					if f := w.val(l, cx, 0); f.field != "" {
						return dictCond{field: f.field, def: "empty"}
					}
				}
			}
			if f := w.val(rx, cx, 0); f.field != "" && f.idx == -1 {
				if a, ok := arrayConst(ry); ok {
					return dictCond{field: f.field, def: a}
				}
				if c, ok := ry.(*ssa.Const); ok {
					return dictCond{field: f.field, def: constKey(c)}
				}
			}
		}
	}
	return dictCond{unknown: v.String()}
}

func isConstLike(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, ok := u.X.(*ssa.Alloc); ok {
			_, ok := arrayConst(v)
			return ok
		}
		if _, ok := u.X.(*ssa.Global); ok {
			return true
		}
	}
	return false
}

func lenArg(v ssa.Value) (ssa.Value, bool) {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0], true
		}
	}
	return nil, false
}

// refusals: fields for which the writer reports an error unless they have one value.
func (w *dictWriter) refusals(fn *ssa.Function) map[string]string {
	out := map[string]string{}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		for k := range b.Succs {
			if onlyErrors(b.Succs[k]) {
				if c := w.cond(iff.Cond, k == 0, nil); c.unknown == "" {
					out[c.field] = c.def
				}
			}
		}
	}
	return out
}

var dictLocated = map[int64]bool{15: true, 16: true, 17: true, 18: true, 19: true}

func dictExempt(op int64) bool {
	return dictLocated[op] || op >= 256+30 && op <= 256+38 || op >= 22 && op <= 24
}

func opName(op int64) string {
	if op >= 256 {
		return fmt.Sprintf("12 %d", op-256)
	}
	return fmt.Sprint(op)
}

func zeroKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return "false"
		} else if u.Info()&types.IsString != 0 {
			return "empty"
		}
		return "0"
	case *types.Array:
		return "[]"
	}
	return "empty"
}

func checkC18(p *Prog, r *Report) {
	r.Rule("operator-written", "each operator that the reader understands is written from the fields, in the operand order and with the kind of operand with which it is read", 30)
	r.Rule("default-agrees", "an entry is left out only when its field has the value the reader assumes for a missing entry", 30)
	r.Rule("operator-read", "each operator that the writer writes is understood by the reader", 30)
	r.Rule("operand-count", "the reader takes as many operands as the writer writes", 30)
	r.Rule("real-operand", "an operator that is read into a real number can be written with a real operand", 15)
	r.Rule("opcode", "the bytes written for an operator are those from which the reader forms that operator", 40)
	r.Rule("located-entry", "operators that locate other parts of the file are written when these parts are placed, in the operand order of the reader", 4)
	r.Rule("string-id", "string identifiers are offset by the number of standard strings in both directions", 2)

	entry := p.pkgFunc(fontPath, "writeDICTEntry")
	parse := p.pkgFunc(fontPath, "parseDICT")
	if entry == nil || parse == nil {
		r.Bad("operator-written", "anchors", "", "the functions that read and write one dictionary are not there any more")
		return
	}
	if oi, vi := entryParams(entry); oi < 0 || vi < 0 {
		r.Bad("operator-written", "anchors", "", "writeDICTEntry has no operator or operand parameter")
		return
	}
	dicts := []struct{ typ, parse string }{{"cffTopDICT", "parseTopDICT"}, {"cffPrivateDICT", "parsePrivateDICT"}}
	floats := map[int64]string{}
	allOps := map[int64]bool{}
	readTop := map[int64][]dictRead{}
	for _, d := range dicts {
		pf := p.pkgFunc(fontPath, d.parse)
		wf := p.method(fontPath, d.typ, "Write")
		if pf == nil || wf == nil {
			r.Bad("operator-written", d.typ, "", "reader or writer not found")
			continue
		}
		var reads map[int64][]dictRead
		for _, cb := range dictCallbacks(p, pf) {
			reads = dictReads(p, cb, d.typ)
		}
		if reads == nil {
			r.Bad("operator-written", d.typ, p.where(pf.Pos()), "no callback that reads entries was found")
			continue
		}
		if d.typ == "cffTopDICT" {
			readTop = reads
		}
		defs := dictDefaults(pf, d.typ)
		st := p.pkgs[fontPath].Types.Scope().Lookup(d.typ).Type().Underlying().(*types.Struct)
		ftype := map[string]types.Type{}
		for i := 0; i < st.NumFields(); i++ {
			ftype[st.Field(i).Name()] = st.Field(i).Type()
		}
		w := &dictWriter{p: p, typ: d.typ, entry: entry}
		w.walk(wf, nil, nil, 0)
		refuse := w.refusals(wf)
		byOp := map[int64][]dictEntry{}
		for _, e := range w.out {
			if !e.known {
				r.Bad("operator-read", d.typ+" "+p.where(instrPos(e.site)), p.where(instrPos(e.site)), "operator is not a constant")
				continue
			}
			byOp[e.op] = append(byOp[e.op], e)
			_, ok := reads[e.op]
			r.Add("operator-read", d.typ+" "+opName(e.op), p.where(instrPos(e.site)), ok, "operator "+opName(e.op)+" is written; the reader of "+d.typ+" must accept it")
		}
		var ops []int64
		for op := range reads {
			ops = append(ops, op)
		}
		sort.Slice(ops, func(i, j int) bool { return ops[i] < ops[j] })
		for _, op := range ops {
			allOps[op] = true
			var rs []dictRead
			for _, x := range reads[op] {
				if x.val.kind != "flag" || len(reads[op]) == 1 {
					rs = append(rs, x)
				}
			}
			key := d.typ + " " + opName(op)
			where := p.where(pf.Pos())
			if dictExempt(op) {
				continue
			}
			if len(rs) != 1 {
				r.Bad("operator-written", key, where, fmt.Sprintf("read into %d fields: %v", len(rs), rs))
				continue
			}
			rd := rs[0]
			es := byOp[op]
			if len(es) == 0 {
				if v, ok := refuse[rd.field]; ok && v == defs[rd.field] {
					r.OK("operator-written", key, where, "not written, but writing is refused unless "+rd.field+" has the default "+v)
				} else {
					r.Bad("operator-written", key, where, "operator is read into "+rd.field+" but never written")
				}
				continue
			}
			if len(es) > 1 {
				r.Bad("operator-written", key, p.where(instrPos(es[1].site)), "operator is written twice")
				continue
			}
			e := es[0]
			site := p.where(instrPos(e.site))
			bad := matchOperands(rd, e, ftype[rd.field])
			r.Add("operator-written", key, site, bad == "", orStr(bad, "read into and written from "+rd.field))
			// default
			def, ok := defs[rd.field]
			if !ok {
				def = zeroKey(ftype[rd.field])
			}
			msg := ""
			for _, c := range e.conds {
				if c.unknown != "" {
					msg = "written only under a condition that is not about the field: " + c.unknown
				} else if c.field != rd.field {
					msg = "written only depending on " + c.field + ", not " + rd.field
				} else if c.def != def {
					msg = fmt.Sprintf("left out when %s is %s, but the reader assumes %s", rd.field, c.def, def)
				}
			}
			r.Add("default-agrees", key, site, msg == "", orStr(msg, "left out at most for the reader's default "+def))
			// operand count
			n := len(e.vals)
			if n == 1 && (e.vals[0].kind == "list" || e.vals[0].kind == "array") {
				n = -1
				if at, ok := ftype[rd.field].Underlying().(*types.Array); ok {
					n = int(at.Len())
				}
			}
			size, ok := dictArity(p, parse, op)
			r.Add("operand-count", key, site, ok && size == n, fmt.Sprintf("reader takes %s operands, writer writes %s", arity(size, ok), arity(n, true)))
			isFloat := rd.val.kind == "float" || (rd.val.kind == "list" || rd.val.kind == "array") && rd.val.idx == 1
			if isFloat {
				floats[op] = key + " " + rd.field
			}
		}
	}
	// real operands
	var fops []int64
	for op := range floats {
		fops = append(fops, op)
	}
	sort.Slice(fops, func(i, j int) bool { return fops[i] < fops[j] })
	oi, _ := entryParams(entry)
	for _, op := range fops {
		ok := writesByte(p, entry, map[ssa.Value]cset{entry.Params[oi]: intSet(op)}, 30, 0)
		r.Add("real-operand", floats[op], p.where(entry.Pos()), ok, "the branch that writes a real operand must be reachable for operator "+opName(op))
	}
	for _, op := range []int64{15, 17, 18, 19} {
		ok := !writesByte(p, entry, map[ssa.Value]cset{entry.Params[oi]: intSet(op)}, 30, 0)
		r.Add("real-operand", "offset "+opName(op), p.where(entry.Pos()), ok, "offsets and sizes are written as integers, as their length is computed for integers")
	}
	// opcodes
	var ops []int64
	for op := range allOps {
		if op < 22 || op >= 256 {
			ops = append(ops, op)
		}
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i] < ops[j] })
	for _, op := range ops {
		want := []int64{op}
		if op >= 256 {
			want = []int64{12, op - 256}
		}
		var got []string
		tailBytes(p, entry, map[ssa.Value]cset{entry.Params[oi]: intSet(op)}, &got, 0)
		var ws []string
		for _, x := range want {
			ws = append(ws, fmt.Sprint(x))
		}
		r.Add("opcode", "write "+opName(op), p.where(entry.Pos()), strings.Join(got, " ") == strings.Join(ws, " "), fmt.Sprintf("writes %v, want %v", got, ws))
		g := dictOpRead(p, parse, want)
		r.Add("opcode", "read "+opName(op), p.where(parse.Pos()), g == fmt.Sprint(op), fmt.Sprintf("bytes %v give operator %s", want, g))
	}
	checkLocated(p, r, entry, readTop)
	checkSID(p, r)
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func arity(n int, ok bool) string {
	if !ok {
		return "an unknown number of"
	}
	if n < 0 {
		return "all"
	}
	return fmt.Sprint(n)
}

// matchOperands compares how an operator is read and written.
func matchOperands(rd dictRead, e dictEntry, ft types.Type) string {
	for _, v := range e.vals {
		if v.kind == "other" {
			return "an operand is written from something else than a number held in a field"
		}
		if v.kind != "const" && v.field != rd.field {
			return fmt.Sprintf("read into %s but written from %s", rd.field, orStr(v.field, v.kind))
		}
	}
	if len(e.vals) == 0 {
		return "written without operands"
	}
	v := e.vals[0]
	switch rd.val.kind {
	case "sid":
		if v.kind != "sid" || rd.val.idx != 0 || len(e.vals) != 1 {
			return "read as a string identifier but written as " + v.String()
		}
	case "int", "float":
		if v.kind != rd.val.kind || v.idx != -1 || rd.val.idx != 0 || len(e.vals) != 1 {
			return fmt.Sprintf("read as %v but written as %v", rd.val, e.vals)
		}
	case "bool":
		if v.kind == "bool" && len(e.vals) == 1 {
			return ""
		}
		if v.kind != "const" || v.c == nil || constKeyVal(v.c) == "0" || len(e.vals) != 1 {
			return fmt.Sprintf("read as a truth value but written as %v", e.vals)
		}
		for _, c := range e.conds {
			if c.field == rd.field {
				return ""
			}
		}
		return "the truth value is written although the field is not set"
	case "list", "array":
		if len(e.vals) == 1 && (v.kind == "list" || v.kind == "array") {
			return ""
		}
		at, ok := ft.Underlying().(*types.Array)
		if !ok || int(at.Len()) != len(e.vals) {
			return fmt.Sprintf("%d operands are written", len(e.vals))
		}
		for i, x := range e.vals {
			if x.idx != i {
				return fmt.Sprintf("operand %d is written from element %d", i, x.idx)
			}
		}
	default:
		return fmt.Sprintf("%s is read from something else than the operands", rd.field)
	}
	return ""
}

func constKeyVal(c constant.Value) string {
	if c.Kind() == constant.Int || c.Kind() == constant.Float {
		f, _ := constant.Float64Val(constant.ToFloat(c))
		return fmt.Sprint(f)
	}
	return c.ExactString()
}

// dictArity evaluates the reader's operand count of an operator: the constant map that is looked up with the operator.
func dictArity(p *Prog, fn *ssa.Function, op int64) (int, bool) {
	n, found := 1, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				continue
			}
			mt, ok := lk.X.Type().Underlying().(*types.Map)
			if !ok || mt.Key().String() != "int" || mt.Elem().String() != "int" {
				continue
			}
			run := newSetRun(p, fn, nil, 0)
			m, _, ok := run.constMap(lk.X)
			if !ok {
				return 0, false
			}
			found = true
			if s, ok := m[cv{c: constant.MakeInt64(op)}.key()]; ok {
				if s.top || len(s.m) != 1 {
					return 0, false
				}
				v, _ := constant.Int64Val(s.list()[0].c)
				n = int(v)
			}
		}
	}
	if found {
		return n, true
	}
	// a function of the operator
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || fnPkgPath(c.Call.StaticCallee()) != fontPath {
				continue
			}
			f := c.Call.StaticCallee()
			if len(f.Params) >= 1 && f.Params[0].Type().String() == "int" && f.Signature.Results().Len() == 1 && f.Signature.Results().At(0).Type().String() == "int" {
				res := runSets(p, f, map[ssa.Value]cset{f.Params[0]: intSet(op)}).results()
				if len(res) == 1 && !res[0].top {
					if len(res[0].m) == 1 {
						v, _ := constant.Int64Val(res[0].list()[0].c)
						return int(v), true
					}
				} else {
					return -1, true
				}
			}
		}
	}
	return 0, false
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func byteWrite(c *ssa.Call) (ssa.Value, bool) {
	switch calleeName(&c.Call) {
	case "(*github.com/tdewolff/parse/v2.BinaryWriter).WriteUint8", "(*github.com/tdewolff/parse/v2.BinaryWriter).WriteByte":
		return c.Call.Args[1], true
	}
	return nil, false
}

// anyCounters lets every value that a loop carries be anything.
func anyCounters(fn *ssa.Function, bind map[ssa.Value]cset) map[ssa.Value]cset {
	out := map[ssa.Value]cset{}
	for k, v := range bind {
		out[k] = v
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && loopHeader(b) {
				out[ph] = topSet()
			}
		}
	}
	return out
}

func loopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// writesByte: with the binding, a call that writes the given byte can be reached (also in helpers).
func writesByte(p *Prog, fn *ssa.Function, bind map[ssa.Value]cset, want int64, depth int) bool {
	run := runSets(p, fn, anyCounters(fn, bind))
	for _, b := range fn.Blocks {
		if !run.reached(b) {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			env := run.envAt(b)
			if v, ok := byteWrite(c); ok {
				if run.get(env, v).is(cv{c: constant.MakeInt64(want)}) {
					return true
				}
			} else if f := c.Call.StaticCallee(); f != nil && fnPkgPath(f) == fontPath && f.Blocks != nil && depth < 3 {
				sub := map[ssa.Value]cset{}
				for i, a := range c.Call.Args {
					if s := run.get(env, a); !s.top {
						sub[f.Params[i]] = s
					}
				}
				if writesByte(p, f, sub, want, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// tailBytes: the bytes written outside of loops, in order, for a bound operator.
func tailBytes(p *Prog, fn *ssa.Function, bind map[ssa.Value]cset, out *[]string, depth int) {
	run := runSets(p, fn, anyCounters(fn, bind))
	// blocks in order of dominance
	for _, b := range fn.DomPreorder() {
		if !run.reached(b) || inLoop(b) {
			continue
		}
		env := run.envAt(b)
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if v, ok := byteWrite(c); ok {
				s := run.get(env, v)
				if s.top || len(s.m) != 1 {
					*out = append(*out, "?")
				} else {
					*out = append(*out, s.strs()[0])
				}
			} else if f := c.Call.StaticCallee(); f != nil && fnPkgPath(f) == fontPath && f.Blocks != nil && depth < 3 {
				sub := map[ssa.Value]cset{}
				takesOp := false
				for i, a := range c.Call.Args {
					if s := run.get(env, a); !s.top {
						sub[f.Params[i]] = s
						takesOp = true
					}
				}
				if takesOp {
					tailBytes(p, f, sub, out, depth+1)
				}
			}
		}
	}
}

// dictOpRead: the operator the reader passes to its callback for the given first bytes.
func dictOpRead(p *Prog, fn *ssa.Function, bytes []int64) string {
	// byte reads in order of dominance, in the loop
	var reads []*ssa.Call
	for _, b := range fn.DomPreorder() {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && (f.Name() == "ReadUint8" || f.Name() == "ReadByte") {
					reads = append(reads, c)
				}
			}
		}
	}
	if len(reads) == 0 {
		return "unknown"
	}
	bind := map[ssa.Value]cset{reads[0]: intSet(bytes[0])}
	for _, x := range reads[1:] {
		if len(bytes) > 1 {
			bind[x] = intSet(bytes[1])
		}
	}
	run := runSets(p, fn, bind)
	got := cset{m: map[string]cv{}}
	for _, b := range fn.Blocks {
		if !run.reached(b) {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != nil || c.Call.IsInvoke() {
				continue
			}
			if _, ok := c.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			for _, a := range c.Call.Args {
				if a.Type().String() == "int" {
					got = got.join(run.get(run.envAt(b), a))
				}
			}
		}
	}
	if got.top || len(got.m) != 1 {
		return got.String()
	}
	return got.strs()[0]
}

// checkLocated: charset, CharStrings and Private in the Top DICT, Subrs in the Private DICT.
func checkLocated(p *Prog, r *Report, entry *ssa.Function, readTop map[int64][]dictRead) {
	w := &dictWriter{p: p, typ: "cffTopDICT", entry: entry}
	type site struct {
		e  dictEntry
		wr string
	}
	byOp := map[int64][]dictEntry{}
	for _, fn := range p.liveFuncs(fontPath) {
		if fn.Signature.Recv() != nil && (isDictPtr(fn.Signature.Recv().Type(), "cffTopDICT") || isDictPtr(fn.Signature.Recv().Type(), "cffPrivateDICT")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != entry {
					continue
				}
				oi, vi := entryParams(entry)
				if k, ok := c.Call.Args[oi].(*ssa.Const); ok {
					op, _ := constant.Int64Val(k.Value)
					byOp[op] = append(byOp[op], dictEntry{op: op, known: true, site: c, vals: w.operands(c.Call.Args[vi], nil)})
				}
			}
		}
	}
	for _, op := range []int64{15, 17, 18, 19} {
		es := byOp[op]
		if len(es) == 0 {
			r.Bad("located-entry", opName(op), "", "operator "+opName(op)+" is not written when the parts of the file are placed")
			continue
		}
		for _, e := range es {
			ok := len(e.vals) == 1
			msg := "one operand"
			if op == 18 {
				var off, ln = -1, -1
				for _, x := range readTop[18] {
					if strings.Contains(x.field, "Offset") {
						off = x.val.idx
					} else if strings.Contains(x.field, "Length") {
						ln = x.val.idx
					}
				}
				ok = len(e.vals) == 2 && off >= 0 && ln >= 0 && off != ln && off < 2 && ln < 2 && e.vals[ln].kind == "len" && e.vals[off].kind != "len"
				msg = fmt.Sprintf("size is operand %d and offset operand %d in the reader; written as %v", ln, off, e.vals)
			}
			r.Add("located-entry", opName(op), p.where(instrPos(e.site)), ok, msg)
		}
	}
	// the font dictionaries of CID-keyed fonts read the same operator in the same order
	if pf := p.pkgFunc(fontPath, "parseFontDICT"); pf != nil {
		for _, cb := range dictCallbacks(p, pf) {
			reads := dictReads(p, cb, "cffFontDICT")
			a, b := map[string]int{}, map[string]int{}
			for _, x := range reads[18] {
				a[x.field] = x.val.idx
			}
			for _, x := range readTop[18] {
				b[x.field] = x.val.idx
			}
			r.Add("located-entry", "18 in Font DICT", p.where(cb.Pos()), len(a) == 2 && fmt.Sprint(a) == fmt.Sprint(b), fmt.Sprintf("%v, Top DICT: %v", a, b))
		}
	}
}

// checkSID: AddSID adds, and GetSID subtracts, the number of standard strings.
func checkSID(p *Prog, r *Report) {
	g := p.SSA.ImportedPackage(fontPath)
	if g == nil {
		return
	}
	std, _ := g.Members["cffStandardStrings"].(*ssa.Global)
	isStdLen := func(v ssa.Value) bool {
		if a, ok := lenArg(v); ok {
			if ld, ok := a.(*ssa.UnOp); ok && ld.X == std {
				return true
			}
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(c.Value)
			return n == 391
		}
		return false
	}
	get := p.method(fontPath, "cffINDEX", "GetSID")
	add := p.method(fontPath, "cffINDEX", "AddSID")
	if get == nil || add == nil || std == nil {
		r.Bad("string-id", "anchors", "", "GetSID, AddSID or cffStandardStrings not found")
		return
	}
	// AddSID: each result is an index into the standard strings or biased
	for _, b := range add.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range flattenPhi(ret.Results[0]) {
			biased := false
			if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && (isStdLen(bo.X) || isStdLen(bo.Y)) {
				biased = true
			}
			// the index of the loop over the standard strings: compared with their number
			std := false
			for _, ref := range realRefs(v) {
				if bo, ok := ref.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.GEQ) && isStdLen(bo.Y) {
					std = true
				}
			}
			if e, ok := v.(*ssa.Extract); ok {
				if lk, ok := e.Tuple.(*ssa.Lookup); ok {
					_ = lk
					std = true
				}
			}
			r.Add("string-id", "AddSID returns "+map[bool]string{true: "a new string", false: "a standard string"}[biased]+" "+p.where(instrPos(ret)), p.where(instrPos(ret)), biased || std, "the identifier is the index of a standard string, or is offset by their number")
		}
	}
	ok := false
	for _, b := range get.Blocks {
		for _, in := range b.Instrs {
			if bo, isb := in.(*ssa.BinOp); isb && bo.Op == token.SUB && bo.X == get.Params[1] && isStdLen(bo.Y) {
				ok = true
			}
		}
	}
	r.Add("string-id", "GetSID", p.where(get.Pos()), ok, "identifiers beyond the standard strings are lowered by the number of standard strings")
}

func flattenPhi(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok && !inLoop(ph.Block()) {
			for _, e := range ph.Edges {
				rec(e)
			}
			return
		}
		out = append(out, v)
	}
	rec(v)
	return out
}
