package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C08"] = checkC08 }

// Facts that hold on every path to a point:
//
//	f:base:Field     the field of the font is not nil
//	v:value          the pointer is not nil
//	h:base:tag       the table map of the font has the tag (a constant in quotes, or a value)
//	e:value:"tag"    the string is this constant
//	n:value:"tag"    the string is not this constant
//	b:base:Kind      the flag of the font is set
//	x:base:Kind      the flag of the font is not set
//	c:base:Kind|f    the fact f holds if the flag is set
//	t:value          the parameter is true
//	u:value          the parameter is false
//
// and facts that may hold (some path):
//
//	p:base:Field     a table was stored whose parsed form was not
type nfacts map[string]bool

func (f nfacts) clone() nfacts {
	g := make(nfacts, len(f))
	for k := range f {
		g[k] = true
	}
	return g
}

type nreq struct {
	param int    // parameter, or -1-i for the captured variable i
	field string // "" for the pointer itself
	cond  string // the field that says which kind of outlines the font has, when the use depends on it
	flags string // the yes-or-no parameters that are known at the use, as in "+1-2"
}

type nsum struct {
	done  bool
	req   map[nreq]string // what has to be not nil, and where it is used
	ens   map[nreq]bool   // what is not nil when the function reports success
	res   map[string]bool // fields of the returned font that are not nil
	zero  map[nreq]bool   // the result is zero when this is nil
	nilst map[string]bool // fields that the function may set to nil
	pend  map[[2]int]bool // parameters: a table put into the font for the tag, whose parsed form the caller sees to
	pendf map[nreq]bool   // the same, of a known tag
	told  map[bool]nfacts // what the outcome of a yes-or-no function tells, of its parameters by number
}

type nilcheck struct {
	p       *Prog
	r       *Report
	sums    map[*ssa.Function]*nsum
	views   map[string][]string // tag to fields
	ids     map[ssa.Value]string
	count   map[string]int
	callers map[*ssa.Function]int
	musts   map[*ssa.Function]map[*ssa.BasicBlock]nfacts
	plains  map[*ssa.Function]bool            // its result is a parsed font
	exempt  map[*ssa.Function]*ssa.BasicBlock // parse by tag: the loop over the tables establishes presence
}

func checkC08(p *Prog, r *Report) {
	r.Rule("not-nil", "where a parsed table of a font is used through its pointer, the pointer is not nil on any path: it was tested, just set, or the table is known to be present", 100)
	r.Rule("caller-provides", "a function that uses a parsed table without a test of its own is only called where the table is known to be there", 2)
	r.Rule("present-has-view", "a function that puts a table into a font also gives the font the parsed form, so that a present table always has one", 15)
	r.Rule("required-list", "the tables whose parsed form the rest of the code takes for granted in a parsed font are among those that the parse asks for", 8)
	r.Rule("every-table-parsed", "each table that has a parser is parsed in every font that has the table", 12)
	r.Rule("parse-before-return", "a parsed font is only returned after the loop that parses every table it has", 1)

	c := newNilcheck(p, r)
	for _, fn := range p.liveFuncs() {
		c.parseLoop(fn)
	}
	live := p.liveFuncs()
	for _, fn := range live {
		c.sum(fn)
	}
	// the fonts that users have are in any of the states the library can leave them in: exported
	// functions get no promises
	for _, fn := range live {
		s := c.sums[fn]
		if s == nil || !c.api(fn) {
			continue
		}
		var rs []nreq
		for q := range s.req {
			rs = append(rs, q)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].field < rs[j].field })
		for _, q := range rs {
			if q.field == "" {
				continue // a nil font, or a table that the user took out of it
			}
			r.Bad("not-nil", fnName(fn)+" "+q.field, s.req[q], fmt.Sprintf("%s uses %s without knowing that it is there", fnName(fn), q.field))
		}
	}
}

func newNilcheck(p *Prog, r *Report) *nilcheck {
	c := &nilcheck{p: p, r: r, sums: map[*ssa.Function]*nsum{}, views: map[string][]string{}, ids: map[ssa.Value]string{}, count: map[string]int{}, musts: map[*ssa.Function]map[*ssa.BasicBlock]nfacts{}, callers: map[*ssa.Function]int{}, plains: map[*ssa.Function]bool{}, exempt: map[*ssa.Function]*ssa.BasicBlock{}}
	for _, v := range tableViews(p) {
		c.views[v.tag] = append(c.views[v.tag], v.fields...)
	}
	return c
}

func (c *nilcheck) api(fn *ssa.Function) bool {
	if fn.Parent() != nil || fnPkgPath(fn) != fontPath || !ast.IsExported(fn.Name()) {
		return false
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		nt, ok := t.(*types.Named)
		return ok && nt.Obj().Exported()
	}
	return true
}

// parseLoop looks for the loop over the tables that calls the parser of each.
func (c *nilcheck) parseLoop(fn *ssa.Function) {
	isParser := map[*ssa.Function]bool{}
	for _, v := range tableViews(c.p) {
		isParser[v.fn] = true
	}
	var heads []*ssa.BasicBlock
	eachInstr(fn, func(i ssa.Instruction) {
		if call, ok := i.(*ssa.Call); ok && isParser[call.Call.StaticCallee()] {
			if _, head, ok := guardingTag(call.Block()); ok {
				heads = append(heads, head)
			}
		}
	})
	if len(heads) < 5 {
		return
	}
	var loop *ssa.BasicBlock
	for d := heads[0]; d != nil; d = d.Idom() {
		all := true
		for _, h := range heads {
			if !d.Dominates(h) {
				all = false
			}
		}
		back := false
		for _, pr := range d.Preds {
			if d.Dominates(pr) {
				back = true
			}
		}
		if all && back {
			loop = d
			break
		}
	}
	if loop == nil {
		return
	}
	c.exempt[fn] = loop
	c.required(fn)
	done := map[string]bool{}
	for _, v := range tableViews(c.p) {
		if done[v.tag] {
			continue
		}
		done[v.tag] = true
		inLoop, ok := false, false
		eachInstr(fn, func(i ssa.Instruction) {
			call, isCall := i.(*ssa.Call)
			if !isCall || call.Call.StaticCallee() != v.fn {
				return
			}
			if tag, head, guarded := guardingTag(call.Block()); guarded && tag == v.tag && loop.Dominates(head) {
				inLoop = true
				ok = !bypasses(head, v.fn)
			}
		})
		if !inLoop {
			ok = c.parsedOrAbsent(fn, v.fn, v.tag, loop)
		}
		c.r.Add("every-table-parsed", v.tag, c.p.where(fn.Pos()), ok, fnName(v.fn)+" is called for every font with the table, or not")
	}
	idx := errIndex(fn.Signature)
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx < 0 || nonNilErr(ret.Results[idx], b, map[ssa.Value]bool{}, 0) {
			continue
		}
		c.r.Add("parse-before-return", c.key(fnName(fn)+" return"), c.p.where(instrPos(ret)), loop.Dominates(b), "the font is returned although its tables were not all parsed, or all were")
	}
}

// parsedOrAbsent: no path leads to the loop without a call of the parser, but where the table is not there
func (c *nilcheck) parsedOrAbsent(fn, parser *ssa.Function, tag string, loop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == loop {
			return false
		}
		called := false
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == parser {
				called = true
			}
		}
		if called {
			continue
		}
		iff, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, succ := range b.Succs {
			if iff != nil && absent(iff.Cond, tag, i == 0) {
				continue
			}
			work = append(work, succ)
		}
	}
	return true
}

// absent: the outcome of the condition says that the tag is not in a map of tables
func absent(cond ssa.Value, tag string, yes bool) bool {
	if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
		return absent(n.X, tag, !yes)
	}
	ex, ok := cond.(*ssa.Extract)
	if !ok || yes || ex.Index != 1 {
		return false
	}
	lk, ok := ex.Tuple.(*ssa.Lookup)
	if !ok {
		return false
	}
	k, ok := lk.Index.(*ssa.Const)
	return ok && constString(k) == tag
}

func (c *nilcheck) key(s string) string {
	c.count[s]++
	if n := c.count[s]; n > 1 {
		return fmt.Sprintf("%s #%d", s, n)
	}
	return s
}

func (c *nilcheck) id(v ssa.Value) string {
	if s, ok := c.ids[v]; ok {
		return s
	}
	s := fmt.Sprintf("%d", len(c.ids))
	c.ids[v] = s
	return s
}

// base follows a font through cells that are written once.
func canonFont(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return v
		}
		switch x := u.X.(type) {
		case *ssa.FreeVar:
			return x
		case *ssa.Alloc:
			s := onlyStore(x)
			if s == nil {
				return v
			}
			v = s.Val
		default:
			return v
		}
	}
	return v
}

func onlyStore(a *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, ref := range *a.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
			if st != nil {
				return nil
			}
			st = s
		}
	}
	return st
}

// viewLoad: v is a load of a pointer field of a font
func viewLoad(v ssa.Value) (string, ssa.Value, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", nil, false
	}
	f, x, ok := sfntField(u.X)
	if !ok || !isViewPtr(u.Type()) {
		return "", nil, false
	}
	return f, canonFont(x), true
}

func isViewPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Struct)
	return ok
}

// tracked: a view pointer, or a choice between some
func (c *nilcheck) tracked(v ssa.Value, depth int) bool {
	if _, _, ok := viewLoad(v); ok {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if depth > 3 {
			return false
		}
		for _, e := range x.Edges {
			if c.tracked(e, depth+1) {
				return true
			}
		}
	case *ssa.Parameter:
		return isViewType(x.Type())
	}
	return false
}

// isViewType: the type of a pointer field of SFNT
func isViewType(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := pt.Elem().(*types.Named)
	return ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == fontPath && strings.HasSuffix(nt.Obj().Name(), "Table")
}

func isFont(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := pt.Elem().(*types.Named)
	return ok && nt.Obj().Name() == "SFNT" && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == fontPath
}

func (c *nilcheck) addField(f nfacts, base ssa.Value, field string) {
	f["f:"+c.id(base)+":"+field] = true
}

func (c *nilcheck) addTag(f nfacts, base ssa.Value, tag string) {
	for _, field := range c.views[tag] {
		c.addField(f, base, field)
	}
}

// derive adds what follows from h: and e: facts together.
func (c *nilcheck) derive(f nfacts) {
	var add [][2]string
	for k := range f {
		if !strings.HasPrefix(k, "h:") {
			continue
		}
		p := strings.SplitN(k, ":", 3)
		if strings.HasPrefix(p[2], "\"") {
			add = append(add, [2]string{p[1], strings.Trim(p[2], "\"")})
			continue
		}
		for e := range f {
			if strings.HasPrefix(e, "e:"+p[2]+":") {
				q := strings.SplitN(e, ":", 3)
				add = append(add, [2]string{p[1], strings.Trim(q[2], "\"")})
			}
		}
	}
	for _, a := range add {
		for _, field := range c.views[a[1]] {
			f["f:"+a[0]+":"+field] = true
		}
	}
}

func (c *nilcheck) known(f nfacts, v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar:
		return true
	case *ssa.Const:
		return x.Value != nil
	case *ssa.UnOp:
		if f["v:"+c.id(v)] {
			return true
		}
		if field, base, ok := viewLoad(v); ok {
			return f["f:"+c.id(base)+":"+field]
		}
		return !isViewType(v.Type()) // not a table of a font
	case *ssa.Parameter:
		return f["v:"+c.id(v)]
	case *ssa.Phi:
		return f["v:"+c.id(v)]
	case *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.TypeAssert:
		return !isViewType(v.Type()) || f["v:"+c.id(v)] || depth == 0
	}
	return true
}

// assume adds what the outcome of a condition tells.
func (c *nilcheck) assume(f nfacts, cond ssa.Value, yes bool) {
	c.assume1(f, cond, yes)
	c.derive(f)
}

func (c *nilcheck) assume1(f nfacts, cond ssa.Value, yes bool) {
	switch x := cond.(type) {
	case *ssa.Parameter:
		if yes {
			f["t:"+c.id(x)] = true
		} else {
			f["u:"+c.id(x)] = true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			c.assume(f, x.X, !yes)
		}
		if x.Op == token.MUL {
			if kind, base, ok := sfntField(x.X); ok && kinds[kind] != nil {
				c.flag(f, canonFont(base), kind, yes)
			}
		}
	case *ssa.Call:
		c.heard(f, x, yes)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && x.Index == call.Call.Signature().Results().Len()-1 {
			c.heard(f, call, yes)
		}
		lk, ok := x.Tuple.(*ssa.Lookup)
		if !ok || !yes || x.Index != 1 {
			return
		}
		c.present(f, lk)
	case *ssa.BinOp:
		op := x.Op
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
			op = mirror(op)
		}
		k, isC := b.(*ssa.Const)
		switch {
		case op == token.EQL || op == token.NEQ:
			eq := (op == token.EQL) == yes
			if !isC {
				return
			}
			if k.Value == nil { // nil
				if !eq {
					f["v:"+c.id(a)] = true
					if field, base, ok := viewLoad(a); ok {
						c.addField(f, base, field)
					}
					if lk, ok := a.(*ssa.Lookup); ok {
						c.present(f, lk)
					}
					if ex, ok := a.(*ssa.Extract); ok && ex.Index == 0 {
						if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
							c.present(f, lk)
						}
					}
				} else if call, idx := errCall(a); call != nil {
					_ = idx
					c.success(f, call)
				}
				return
			}
			if s := constString(k); s != "" || isString(k.Type()) {
				if eq {
					f["e:"+c.id(a)+":\""+s+"\""] = true
				} else {
					f["n:"+c.id(a)+":\""+s+"\""] = true
				}
				return
			}
			if isIntType(k.Type()) && k.Int64() == 0 && !eq {
				c.nonzero(f, a)
			}
		case isC && isIntType(k.Type()):
			n := k.Int64()
			switch {
			case op == token.LSS && !yes && n >= 1, op == token.LEQ && !yes && n >= 0, op == token.GTR && yes && n >= 0, op == token.GEQ && yes && n >= 1:
				c.nonzero(f, a)
			}
		}
	case *ssa.Phi:
		// a && b: the value is a constant on the other edge
		var only ssa.Value
		n := 0
		for _, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && (k.Value.String() == "true") != yes {
				continue
			}
			only = e
			n++
		}
		if n == 1 {
			if _, ok := only.(*ssa.Const); !ok {
				c.assume(f, only, yes)
			}
			// and the conditions that lead to that edge
			for i, e := range x.Edges {
				if e == only {
					c.edge(f, x.Block().Preds[i], x.Block(), 0)
				}
			}
		}
	}
}

// dead: the path cannot be taken
const dead = "!::"

// flag: the kind of outlines of the font is known
func (c *nilcheck) flag(f nfacts, base ssa.Value, kind string, yes bool) {
	key := c.id(base) + ":" + kind
	if !yes {
		if f["b:"+key] {
			f[dead] = true
		}
		f["x:"+key] = true
		return
	}
	if f["x:"+key] {
		f[dead] = true
	}
	f["b:"+key] = true
	for k := range f {
		if q, ok := strings.CutPrefix(k, "c:"+key+"|"); ok {
			f[q] = true
		}
	}
}

// meet keeps of a what also holds in b. A fact that holds on one side where the other side is a font
// of another kind remains as a fact about the fonts of that kind.
func meet(a, b nfacts) nfacts {
	r := nfacts{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	implied := func(f nfacts, kind, k string) bool { return f[k] || f["x:"+kind] || f["c:"+kind+"|"+k] }
	one := func(a, b nfacts) {
		for k := range a {
			switch {
			case strings.HasPrefix(k, "c:"):
				kind, q, _ := strings.Cut(k[2:], "|")
				if implied(b, kind, q) {
					r[k] = true
				}
			case strings.HasPrefix(k, "f:") && !b[k]:
				for x := range b {
					if kind, ok := strings.CutPrefix(x, "x:"); ok {
						r["c:"+kind+"|"+k] = true
					}
				}
			}
		}
	}
	one(a, b)
	one(b, a)
	return r
}

func same(a, b nfacts) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// unset removes what is known of the field in any font.
func unset(f nfacts, field string) {
	for k := range f {
		if (strings.HasPrefix(k, "f:") || strings.HasPrefix(k, "c:")) && strings.HasSuffix(k, ":"+field) {
			delete(f, k)
		}
	}
}

// tell records what holds when the function gives the outcome.
func (c *nilcheck) tell(fn *ssa.Function, s *nsum, f nfacts, ret *ssa.Return) {
	n := len(ret.Results)
	if n == 0 || !isBool(ret.Results[n-1].Type()) {
		return
	}
	v := ret.Results[n-1]
	num := map[string]string{}
	for i, p := range fn.Params {
		num[c.id(p)] = fmt.Sprintf("#%d", i)
	}
	for _, yes := range []bool{true, false} {
		g := f.clone()
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			if (k.Value.String() == "true") != yes {
				continue
			}
		} else {
			c.assume(g, v, yes)
		}
		out := nfacts{}
		for k := range g {
			p := strings.SplitN(k, ":", 3)
			i, ok := num[p[1]]
			if !ok || p[0] != "f" && p[0] != "h" {
				continue
			}
			if p[0] == "h" && !strings.HasPrefix(p[2], "\"") {
				if p[2], ok = num[p[2]]; !ok {
					continue
				}
			}
			out[p[0]+":"+i+":"+p[2]] = true
		}
		if s.told[yes] == nil {
			s.told[yes] = out
		} else {
			s.told[yes] = meet(s.told[yes], out)
		}
	}
}

// heard adds what the outcome of the call tells.
func (c *nilcheck) heard(f nfacts, call *ssa.Call, yes bool) {
	callee := call.Call.StaticCallee()
	if callee == nil || len(callee.Blocks) == 0 {
		return
	}
	arg := func(s string) ssa.Value {
		i, err := strconv.Atoi(strings.TrimPrefix(s, "#"))
		if err != nil || i >= len(call.Call.Args) {
			return nil
		}
		return call.Call.Args[i]
	}
	for k := range c.sum(callee).told[yes] {
		p := strings.SplitN(k, ":", 3)
		font := arg(p[1])
		if font == nil {
			continue
		}
		base := c.id(canonFont(font))
		if p[0] == "h" && strings.HasPrefix(p[2], "#") {
			tag := arg(p[2])
			if tag == nil {
				continue
			}
			if k, ok := tag.(*ssa.Const); ok {
				p[2] = "\"" + constString(k) + "\""
			} else {
				p[2] = c.id(tag)
			}
		}
		f[p[0]+":"+base+":"+p[2]] = true
	}
}

// edge adds the conditions of the branches that lead straight to the edge.
func (c *nilcheck) edge(f nfacts, from, to *ssa.BasicBlock, depth int) {
	if depth > 6 {
		return
	}
	if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		c.assume(f, iff.Cond, from.Succs[0] == to)
	}
	if len(from.Preds) == 1 {
		c.edge(f, from.Preds[0], from, depth+1)
	}
}

func (c *nilcheck) present(f nfacts, lk *ssa.Lookup) {
	name, font, ok := tablesMap(lk.X)
	if !ok || name != "Tables" {
		return
	}
	base := canonFont(font)
	if k, ok := lk.Index.(*ssa.Const); ok {
		f["h:"+c.id(base)+":\""+constString(k)+"\""] = true
	} else {
		f["h:"+c.id(base)+":"+c.id(lk.Index)] = true
	}
	c.derive(f)
}

// nonzero: the number is not zero, so what makes the function give zero is not so
func (c *nilcheck) nonzero(f nfacts, v ssa.Value) {
	v = bareInt(v)
	call, ok := v.(*ssa.Call)
	if !ok {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.MUL || b.Op == token.AND || b.Op == token.QUO || b.Op == token.SHR) {
			c.nonzero(f, b.X)
		}
		return
	}
	callee := call.Call.StaticCallee()
	if callee == nil || len(callee.Blocks) == 0 {
		return
	}
	for q := range c.sum(callee).zero {
		if q.param < 0 || q.param >= len(call.Call.Args) {
			continue
		}
		a := call.Call.Args[q.param]
		if q.field == "" {
			f["v:"+c.id(a)] = true
			if field, base, ok := viewLoad(a); ok {
				c.addField(f, base, field)
			}
		} else {
			c.addField(f, canonFont(a), q.field)
		}
	}
}

// errCall: the call whose error v is
func errCall(v ssa.Value) (*ssa.Call, int) {
	if !isErr(v.Type()) {
		return nil, 0
	}
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return call, x.Index
		}
	}
	return nil, 0
}

// success adds what a call ensures when it reports no error.
func (c *nilcheck) success(f nfacts, call *ssa.Call) {
	callee := call.Call.StaticCallee()
	if callee == nil || len(callee.Blocks) == 0 {
		return
	}
	s := c.sum(callee)
	for q := range s.ens {
		if 0 <= q.param && q.param < len(call.Call.Args) && q.field != "" {
			c.addField(f, canonFont(call.Call.Args[q.param]), q.field)
			delete(f, "p:"+c.id(canonFont(call.Call.Args[q.param]))+":"+q.field)
		}
	}
	// the returned font
	if len(s.res) > 0 {
		var res ssa.Value
		if _, ok := call.Type().(*types.Tuple); ok {
			for _, ref := range *call.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && isFont(ex.Type()) {
					res = ex
				}
			}
		} else if isFont(call.Type()) {
			res = call
		}
		if res != nil {
			for field := range s.res {
				c.addField(f, res, field)
			}
		}
	}
}

func (c *nilcheck) sum(fn *ssa.Function) *nsum {
	if s, ok := c.sums[fn]; ok {
		return s
	}
	s := &nsum{req: map[nreq]string{}, ens: map[nreq]bool{}, res: map[string]bool{}, zero: map[nreq]bool{}, nilst: map[string]bool{}, pend: map[[2]int]bool{}, pendf: map[nreq]bool{}, told: map[bool]nfacts{}}
	c.sums[fn] = s
	if len(fn.Blocks) == 0 || !repoPkg(fnPkgPath(fn)) {
		return s
	}
	c.analyse(fn, s)
	s.done = true
	return s
}

// root of a base: a parameter or a captured variable
func rootParam(fn *ssa.Function, base ssa.Value) (int, bool) {
	for i, p := range fn.Params {
		if p == base {
			return i, true
		}
	}
	for i, p := range fn.FreeVars {
		if p == base {
			return -1 - i, true
		}
	}
	return 0, false
}

func (c *nilcheck) analyse(fn *ssa.Function, s *nsum) {
	must := map[*ssa.BasicBlock]nfacts{}
	may := map[*ssa.BasicBlock]nfacts{}
	entry := fn.Blocks[0]
	must[entry] = nfacts{}
	may[entry] = nfacts{}
	// a parameter that is a table: within its own method the receiver is the caller's business
	work := []*ssa.BasicBlock{entry}
	for steps := 0; len(work) > 0; steps++ {
		if steps > 50000 {
			c.r.Bad("not-nil", fnName(fn)+" not analysed", c.p.where(fn.Pos()), "the facts do not settle")
			return
		}
		b := work[0]
		work = work[1:]
		f, m := must[b].clone(), may[b].clone()
		for _, in := range b.Instrs {
			c.transfer(fn, f, m, in, nil)
		}
		for i, succ := range b.Succs {
			g := f.clone()
			h := m.clone()
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				c.assume(g, iff.Cond, i == 0)
				if g[dead] {
					continue
				}
			}
			for k := range g {
				if strings.HasPrefix(k, "f:") {
					delete(h, "p:"+k[2:])
				}
			}
			// choices
			for _, in := range succ.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for j, pr := range succ.Preds {
					if pr != b {
						continue
					}
					e := phi.Edges[j]
					id := c.id(phi)
					dropValue(g, id)
					if isViewPtr(phi.Type()) && c.known(g, e, 1) {
						g["v:"+id] = true
					}
				}
			}
			old, ok := must[succ]
			if !ok {
				must[succ], may[succ] = g, h
				work = append(work, succ)
				continue
			}
			changed := false
			if r := meet(old, g); !same(old, r) {
				must[succ] = r
				changed = true
			}
			for k := range h {
				if !may[succ][k] {
					may[succ][k] = true
					changed = true
				}
			}
			if changed {
				work = append(work, succ)
			}
		}
	}
	c.musts[fn] = must
	// obligations, with the facts at hand
	first := true
	for _, b := range fn.Blocks {
		f, m := must[b], may[b]
		if f == nil {
			continue
		}
		f, m = f.clone(), m.clone()
		for _, in := range b.Instrs {
			c.transfer(fn, f, m, in, s)
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			c.atReturn(fn, s, f, m, ret, &first)
		}
	}
}

func dropValue(f nfacts, id string) {
	for k := range f {
		if kind, q, ok := strings.Cut(k, "|"); ok && strings.HasPrefix(k, "c:") {
			if strings.Split(kind, ":")[1] == id || strings.Split(q, ":")[1] == id {
				delete(f, k)
			}
			continue
		}
		p := strings.SplitN(k, ":", 3)
		if p[1] == id && p[0] != "f" || len(p) == 3 && p[2] == id || p[0] == "f" && p[1] == id {
			delete(f, k)
		}
	}
}

func (c *nilcheck) atReturn(fn *ssa.Function, s *nsum, f, m nfacts, ret *ssa.Return, first *bool) {
	c.tell(fn, s, f, ret)
	// zero when nil
	if len(ret.Results) == 1 && isIntType(ret.Results[0].Type()) {
		for i, p := range fn.Params {
			if !isFont(p.Type()) {
				continue
			}
			for _, fields := range c.views {
				for _, field := range fields {
					q := nreq{param: i, field: field}
					ok := f["f:"+c.id(p)+":"+field] || isZero(ret.Results[0])
					if *first {
						if ok {
							s.zero[q] = true
						}
					} else if !ok {
						delete(s.zero, q)
					}
				}
			}
		}
	}
	idx := errIndex(fn.Signature)
	if idx >= 0 && nonNilErr(ret.Results[idx], ret.Block(), map[ssa.Value]bool{}, 0) {
		if len(ret.Results) == 1 && isIntType(ret.Results[0].Type()) {
			*first = false
		}
		return
	}
	g := f
	if idx >= 0 {
		if call, _ := errCall(ret.Results[idx]); call != nil {
			g = f.clone()
			c.success(g, call)
			for k := range g {
				if strings.HasPrefix(k, "f:") {
					delete(m, "p:"+k[2:])
				}
			}
		}
	}
	for k := range m {
		if p := strings.Split(k, ":"); p[0] == "q" {
			q := [2]int{-1, -1}
			for i, par := range fn.Params {
				if c.id(par) == p[1] {
					q[0] = i
				}
				if c.id(par) == p[2] {
					q[1] = i
				}
			}
			s.pend[q] = true
		}
	}
	if c.exempt[fn] == nil {
		var ps []string
		for k := range m {
			if strings.HasPrefix(k, "p:") {
				ps = append(ps, k)
			}
		}
		sort.Strings(ps)
		for _, k := range ps {
			field := k[strings.LastIndexByte(k, ':')+1:]
			left := false
			for i, par := range fn.Params {
				if c.id(par) == strings.Split(k, ":")[1] && !c.api(fn) {
					s.pendf[nreq{param: i, field: field}] = true
					left = true
				}
			}
			if left {
				continue
			}
			c.r.Bad("present-has-view", c.key(fnName(fn)+" "+field+" at return"), c.p.where(instrPos(ret)), "a table was put into the font, but "+field+" may still be nil when the function returns")
		}
	}
	cur := map[nreq]bool{}
	for i, p := range fn.Params {
		if !isFont(p.Type()) {
			continue
		}
		for k := range g {
			if strings.HasPrefix(k, "f:"+c.id(p)+":") {
				cur[nreq{param: i, field: k[strings.LastIndexByte(k, ':')+1:]}] = true
			}
		}
	}
	res := map[string]bool{}
	for _, v := range ret.Results {
		if isFont(v.Type()) {
			for k := range g {
				if strings.HasPrefix(k, "f:"+c.id(canonFont(v))+":") {
					res[k[strings.LastIndexByte(k, ':')+1:]] = true
				}
			}
		}
	}
	if *first {
		s.ens, s.res = cur, res
		*first = false
		return
	}
	for q := range s.ens {
		if !cur[q] {
			delete(s.ens, q)
		}
	}
	for q := range s.res {
		if !res[q] {
			delete(s.res, q)
		}
	}
}

func (c *nilcheck) transfer(fn *ssa.Function, f, m nfacts, in ssa.Instruction, s *nsum) {
	if v, ok := in.(ssa.Value); ok {
		if _, isPhi := in.(*ssa.Phi); !isPhi {
			if id, ok := c.ids[v]; ok && len(f) > 0 {
				dropValue(f, id)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if field, base, ok := viewLoad(x); ok && f["f:"+c.id(base)+":"+field] {
			f["v:"+c.id(x)] = true
		}
		if x.Op == token.MUL && c.tracked(x.X, 0) {
			c.use(fn, f, x.X, in, s, "read")
		}
	case *ssa.FieldAddr:
		if c.tracked(x.X, 0) {
			c.use(fn, f, x.X, in, s, "field "+fieldName(x.X.Type(), x.Field))
		}
	case *ssa.Store:
		if c.tracked(x.Addr, 0) {
			c.use(fn, f, x.Addr, in, s, "write")
		}
		if kind, _, ok := sfntField(x.Addr); ok && kinds[kind] != nil {
			for k := range f {
				if (k[0] == 'b' || k[0] == 'x' || k[0] == 'c') && strings.Contains(k, ":"+kind) {
					delete(f, k)
				}
			}
		}
		if field, base, ok := sfntField(x.Addr); ok && isViewPtr(x.Val.Type()) {
			base = canonFont(base)
			if c.known(f, x.Val, 1) {
				// two names may be the same font, which only makes more fonts have the table
				c.addField(f, base, field)
				delete(m, "p:"+c.id(base)+":"+field)
			} else {
				unset(f, field)
				if s != nil {
					s.nilst[field] = true
				}
			}
		}
	case *ssa.MapUpdate:
		c.update(fn, f, m, x, s)
	case *ssa.MakeClosure:
		if s != nil {
			sub := c.sum(x.Fn.(*ssa.Function))
			for q, where := range sub.req {
				if q.param < 0 && q.field != "" {
					b := x.Bindings[-1-q.param]
					if al, ok := b.(*ssa.Alloc); ok {
						if st := onlyStore(al); st != nil {
							b = canonFont(st.Val)
						}
					}
					c.demand(fn, f, b, q.field, in, s, "caller-provides", fnName(fn)+" function literal "+q.field, where, q.cond)
				}
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		callee := cc.StaticCallee()
		if callee == nil || len(callee.Blocks) == 0 || !repoPkg(fnPkgPath(callee)) {
			return
		}
		if callee == fn {
			return
		}
		sub := c.sum(callee)
		if s != nil {
			var qs []nreq
			for q := range sub.req {
				qs = append(qs, q)
			}
			sort.Slice(qs, func(i, j int) bool { return qs[i].param*100+len(qs[i].field) < qs[j].param*100+len(qs[j].field) })
			for _, q := range qs {
				if q.param < 0 || q.param >= len(cc.Args) || q.field != "" && c.api(callee) {
					continue // of an exported function it is reported there
				}
				a := cc.Args[q.param]
				g := f
				if q.flags != "" {
					// only when the arguments are so
					g = f.clone()
					if !c.withFlags(g, q.flags, cc.Args) {
						continue
					}
				}
				if q.field == "" {
					if c.tracked(a, 0) {
						c.use(fn, g, a, in, s, "call of "+fnName(callee))
					}
					continue
				}
				c.demand(fn, g, canonFont(a), q.field, in, s, "caller-provides", fnName(fn)+" calls "+fnName(callee)+" "+q.field, sub.req[q], q.cond)
			}
			for field := range sub.nilst {
				s.nilst[field] = true
			}
		}
		for field := range sub.nilst {
			unset(f, field)
		}
		for q := range sub.pendf {
			if q.param < len(cc.Args) {
				if base := canonFont(cc.Args[q.param]); !f["f:"+c.id(base)+":"+q.field] {
					m["p:"+c.id(base)+":"+q.field] = true
				}
			}
		}
		for q := range sub.pend {
			if q[0] < len(cc.Args) && q[1] < len(cc.Args) {
				c.put(fn, f, m, canonFont(cc.Args[q[0]]), cc.Args[q[1]])
			}
		}
		if call, ok := in.(*ssa.Call); ok && errIndex(callee.Signature) < 0 {
			c.success(f, call)
			for k := range f {
				if strings.HasPrefix(k, "f:") {
					delete(m, "p:"+k[2:])
				}
			}
		}
	}
}

// flags lists the yes-or-no parameters whose value is known.
func (c *nilcheck) flags(fn *ssa.Function, f nfacts) string {
	out := ""
	for i, p := range fn.Params {
		if isBool(p.Type()) && f["t:"+c.id(p)] {
			out += fmt.Sprintf("+%d", i)
		} else if isBool(p.Type()) && f["u:"+c.id(p)] {
			out += fmt.Sprintf("-%d", i)
		}
	}
	return out
}

// withFlags assumes that the arguments are as listed, or tells that they are not.
func (c *nilcheck) withFlags(f nfacts, flags string, args []ssa.Value) bool {
	for i, a := range args {
		for _, yes := range []bool{false, true} {
			sign := "-"
			if yes {
				sign = "+"
			}
			if !strings.Contains(flags+"+", sign+strconv.Itoa(i)+"+") && !strings.Contains(flags+"-", sign+strconv.Itoa(i)+"-") {
				continue
			}
			if k, ok := a.(*ssa.Const); ok {
				if constant.BoolVal(k.Value) != yes {
					return false
				}
				continue
			}
			c.assume(f, a, yes)
		}
	}
	return true
}

// use is a use of a table through its pointer.
func (c *nilcheck) use(fn *ssa.Function, f nfacts, v ssa.Value, in ssa.Instruction, s *nsum, how string) {
	if s == nil {
		// after the use the pointer is not nil
		f["v:"+c.id(v)] = true
		if field, base, ok := viewLoad(v); ok {
			c.addField(f, base, field)
		}
		return
	}
	where := c.p.where(instrPos(in))
	if p, ok := v.(*ssa.Parameter); ok {
		if !f["v:"+c.id(v)] {
			i, _ := rootParam(fn, p)
			s.req[nreq{param: i, flags: c.flags(fn, f)}] = where
		}
		f["v:"+c.id(v)] = true
		return
	}
	field, base, isView := viewLoad(v)
	name := field
	if !isView {
		name = "chosen table"
	}
	if c.known(f, v, 1) {
		c.r.OK("not-nil", c.key(fnName(fn)+" "+name), where, how)
		f["v:"+c.id(v)] = true
		return
	}
	if isView {
		c.demand(fn, f, base, field, in, s, "not-nil", fnName(fn)+" "+name, where, "")
		f["v:"+c.id(v)] = true
		return
	}
	c.r.Bad("not-nil", c.key(fnName(fn)+" "+name), where, "one of the tables this may be can be nil ("+how+")")
	f["v:"+c.id(v)] = true
}

func (c *nilcheck) demand(fn *ssa.Function, f nfacts, base ssa.Value, field string, in ssa.Instruction, s *nsum, rule, key, where, cond string) {
	if cond == "" {
		for kind, tags := range kinds {
			for _, tag := range tags {
				for _, v := range c.views[tag] {
					if v == field && f["b:"+c.id(base)+":"+kind] {
						cond = kind
					}
				}
			}
		}
	}
	at := c.p.where(instrPos(in))
	if f["f:"+c.id(base)+":"+field] {
		c.r.OK(rule, c.key(key), at, field+" is known to be there")
		return
	}
	if i, ok := rootParam(fn, base); ok {
		q := nreq{param: i, field: field, cond: cond, flags: c.flags(fn, f)}
		if _, has := s.req[q]; !has {
			s.req[q] = where
		}
		if !c.api(fn) {
			c.r.OK(rule, c.key(key), at, field+" is required of the callers")
		}
		c.addField(f, base, field)
		return
	}
	if c.plainParse(base) && plainViews[field] {
		c.r.OK(rule, c.key(key), at, field+" is there in every font that the plain parse returns")
		c.addField(f, base, field)
		return
	}
	if cond != "" && (c.plainParse(base) || c.parsedBefore(fn, in)) {
		c.r.OK(rule, c.key(key), at, field+" is there in every parsed font that is "+cond)
		c.addField(f, base, field)
		return
	}
	c.r.Bad(rule, c.key(key), at, fmt.Sprintf("%s may be nil (used at %s)", field, where))
	c.addField(f, base, field)
}

// plainViews are the parsed forms of the tables that a font needs to be accepted.
var plainViews = map[string]bool{"Cmap": true, "Head": true, "Hhea": true, "Hmtx": true, "Maxp": true, "Name": true, "Post": true}

// kinds are the tables that a font needs because of the outlines it says it has.
var kinds = map[string][]string{"IsTrueType": {"glyf", "loca"}, "IsCFF": {"CFF "}}

// parsedBefore: the instruction comes after the loop that parses the tables of the font
func (c *nilcheck) parsedBefore(fn *ssa.Function, in ssa.Instruction) bool {
	loop := c.exempt[fn]
	return loop != nil && loop.Dominates(in.Block()) && !reachable(in.Block(), loop)
}

// required: the lists of tables that the parse asks for name those that the other rules count on
func (c *nilcheck) required(fn *ssa.Function) {
	named := map[string]bool{}
	c.asked(fn, fn, map[*ssa.Function]bool{}, named)
	var tags []string
	for tag, fields := range c.views {
		need := false
		for _, f := range fields {
			need = need || plainViews[f]
		}
		for _, ts := range kinds {
			for _, t := range ts {
				need = need || t == tag
			}
		}
		if need {
			tags = append(tags, tag)
		}
	}
	sort.Strings(tags)
	for _, tag := range tags {
		c.r.Add("required-list", tag, c.p.where(fn.Pos()), named[tag], "the table is among those that "+fnName(fn)+" asks for, or not")
	}
}

// asked collects the constants in lists and the tags looked up in the function and those it calls,
// leaving out what is only done for embedded fonts.
func (c *nilcheck) asked(top, fn *ssa.Function, seen map[*ssa.Function]bool, named map[string]bool) {
	if seen[fn] || len(seen) > 100 || fnPkgPath(fn) != fontPath {
		return
	}
	seen[fn] = true
	list := func(base ssa.Value, x *ssa.Store) {
		k, isC := x.Val.(*ssa.Const)
		ia, isElem := x.Addr.(*ssa.IndexAddr)
		if isC && isElem && (base == nil || ia.X == base) {
			named[constString(k)] = true
		}
	}
	eachInstr(fn, func(i ssa.Instruction) {
		if c.embedded(fn, i.Block()) {
			return
		}
		switch x := i.(type) {
		case *ssa.Store:
			list(nil, x)
		case *ssa.Lookup:
			if k, isC := x.Index.(*ssa.Const); isC {
				named[constString(k)] = true
			}
		case *ssa.MapUpdate:
			if k, isC := x.Key.(*ssa.Const); isC {
				named[constString(k)] = true
			}
		case *ssa.UnOp: // lists in variables of the package
			g, ok := x.X.(*ssa.Global)
			if !ok || x.Op != token.MUL {
				return
			}
			if st := c.p.initStore(g); st != nil {
				if sl, ok := st.Val.(*ssa.Slice); ok {
					eachInstr(st.Parent(), func(i ssa.Instruction) {
						if el, ok := i.(*ssa.Store); ok {
							list(sl.X, el)
						}
					})
				}
			}
		case *ssa.Call:
			// a helper that gives the list; the parsers of the tables have results of other kinds
			callee := x.Call.StaticCallee()
			if callee == nil || len(callee.Blocks) == 0 {
				return
			}
			res := callee.Signature.Results()
			for j := 0; j < res.Len(); j++ {
				if sl, ok := res.At(j).Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
					c.asked(top, callee, seen, named)
				}
			}
		}
	})
}

// embedded: the block is only reached for embedded fonts
func (c *nilcheck) embedded(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for d := b; d.Idom() != nil; d = d.Idom() {
		iff, ok := d.Idom().Instrs[len(d.Idom().Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		cond, yes := iff.Cond, d.Idom().Succs[0] == d
		if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
			cond, yes = n.X, !yes
		}
		if p, ok := cond.(*ssa.Parameter); ok && isBool(p.Type()) {
			if val, ok := c.plainFlag(fn, p, 0); ok && val != yes {
				return true
			}
		}
	}
	return false
}

// plainFlag is the value that the parameter has when the plain parse is called.
func (c *nilcheck) plainFlag(fn *ssa.Function, p *ssa.Parameter, depth int) (val, known bool) {
	i, _ := rootParam(fn, p)
	for _, caller := range c.p.liveFuncs() {
		if fnPkgPath(caller) != fontPath || depth > 3 {
			continue
		}
		eachInstr(caller, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != fn {
				return
			}
			switch a := call.Call.Args[i].(type) {
			case *ssa.Const:
				if a.Value != nil && caller.Name() == "ParseSFNT" {
					val, known = a.Value.String() == "true", true
				}
			case *ssa.Parameter:
				if v, ok := c.plainFlag(caller, a, depth+1); ok {
					val, known = v, true
				}
			}
		})
	}
	return val, known
}

// plainParse: the font comes out of ParseSFNT or a function that returns its result.
func (c *nilcheck) plainParse(v ssa.Value) bool { return c.plain(v, 0) }

func (c *nilcheck) plain(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	v = canonFont(v)
	i := 0
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !c.plain(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		i = x.Index
		v = x.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	callee := call.Call.StaticCallee()
	if callee == nil || !repoPkg(fnPkgPath(callee)) || len(callee.Blocks) == 0 {
		return false
	}
	if fnPkgPath(callee) == fontPath && (callee.Name() == "ParseSFNT" || callee.Name() == "ParseFont") {
		return true
	}
	if ok, done := c.plains[callee]; done {
		return ok
	}
	c.plains[callee] = false
	idx := errIndex(callee.Signature)
	n := 0
	for _, b := range callee.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= 0 && nonNilErr(ret.Results[idx], b, map[ssa.Value]bool{}, 0) {
			continue
		}
		if i >= len(ret.Results) || !c.plain(ret.Results[i], depth+1) {
			return false
		}
		n++
	}
	c.plains[callee] = n > 0
	return n > 0
}

// update is a table put into a font.
func (c *nilcheck) update(fn *ssa.Function, f, m nfacts, x *ssa.MapUpdate, s *nsum) {
	name, font, ok := tablesMap(x.Map)
	if !ok || name != "Tables" {
		return
	}
	open := c.put(fn, f, m, canonFont(font), x.Key)
	if s != nil {
		c.r.OK("present-has-view", c.key(fnName(fn)+" puts a table"), c.p.where(instrPos(x)), fmt.Sprintf("%d parsed form(s) to follow", open))
	}
}

// put is a table of the given tag put into the font: its parsed forms have to follow.
func (c *nilcheck) put(fn *ssa.Function, f, m nfacts, base, key ssa.Value) int {
	id := c.id(base)
	tags := map[string]bool{}
	if k, ok := key.(*ssa.Const); ok {
		tags[constString(k)] = true
	} else {
		kid := c.id(key)
		one := ""
		for e := range f {
			if strings.HasPrefix(e, "e:"+kid+":") {
				one = strings.Trim(strings.SplitN(e, ":", 3)[2], "\"")
			}
		}
		if _, isParam := key.(*ssa.Parameter); isParam && one == "" && !c.api(fn) {
			if _, ok := rootParam(fn, base); ok {
				m["q:"+id+":"+kid] = true // the callers know the tag
				return 1
			}
		}
		for tag := range c.views {
			if one != "" && one != tag || f["n:"+kid+":\""+tag+"\""] {
				continue
			}
			tags[tag] = true
		}
	}
	open := 0
	for tag := range tags {
		for _, field := range c.views[tag] {
			if !f["f:"+id+":"+field] {
				m["p:"+id+":"+field] = true
				open++
			}
		}
	}
	return open
}
