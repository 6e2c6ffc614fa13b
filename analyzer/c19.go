package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C19"] = checkC19 }

// What happened to a table of a font, as far as it matters for its bytes (B) and its parsed form (V)
// being in step. A set of these holds what may have happened on the paths to a point.
const (
	untouched  = 1 << iota // nothing, or the one was made from the other since
	both                   // each was replaced or changed
	bytesOnly              // the bytes are new, the parsed form is not
	viewOnly               // the parsed form is new, the bytes are not
	serialised             // the bytes were made from the changed parsed form, but they are not stored yet
	viewFilled             // as viewOnly, and a list of the parsed form has an element
)

type syncstate map[string]int // by base and field; absent is untouched

func (s syncstate) get(k string) int {
	if v, ok := s[k]; ok {
		return v
	}
	return untouched
}

func (s syncstate) clone() syncstate {
	r := make(syncstate, len(s))
	for k, v := range s {
		r[k] = v
	}
	return r
}

// mapStates applies a function to each of the states.
func mapStates(v int, f func(int) int) int {
	r := 0
	for b := 1; b <= viewFilled; b <<= 1 {
		if v&b != 0 {
			r |= f(b)
		}
	}
	return r
}

type syncEvent struct {
	base  ssa.Value
	field string
	kind  int // bytesOnly, viewOnly, insync
	obj   ssa.Value
	in    ssa.Instruction
	what  string
}

type syncer struct {
	c       *nilcheck
	p       *Prog
	r       *Report
	fields  map[string]string // parsed field to tag
	parsers map[*ssa.Function]tableView
	sums    map[*ssa.Function]map[nreq]int // exit states by parameter and field
	muts    map[*ssa.Function]map[int]int  // 1 the object of the parameter is changed, 2 not, 0 being looked at
	raw     map[string]string
	mays    map[string]bool
	once    *[]*onceCache
	subst   map[ssa.Value]ssa.Value // arguments of the helpers that are being looked into
}

func checkC19(p *Prog, r *Report) {
	r.Rule("bytes-and-view", "a function that replaces the bytes of a table of a font replaces or changes the parsed form too before it returns, and the reverse; bytes made from the parsed form are made after its last change", 20)
	r.Rule("same-data", "where both the bytes and the parsed form are given the data of the table, it is the same data", 2)
	r.Rule("same-values", "a list of the parsed form that is filled next to the writing of the bytes gets the values that are written, and the reverse", 4)
	r.Rule("same-field", "a field that the parser takes from another parsed form is set together with it, to the same value", 4)
	r.Rule("glyph-count", "when the number of glyphs of a font changes, every table with an entry for each glyph is rewritten, unless the font does not have it", 5)
	r.Rule("length", "the length of the font is brought up to date after the bytes of a table were replaced", 3)
	r.Rule("patch-value", "a field that is written over in the bytes of a table gets the value that the parsed form gets, and each changed field of the parsed form is written", 10)
	r.Rule("cache", "what was worked out once from a parsed form is updated or dropped when the parsed form changes", 1)

	c := newNilcheck(p, &Report{})
	for _, fn := range p.liveFuncs() {
		c.parseLoop(fn)
	}
	s := &syncer{c: c, p: p, r: r, fields: map[string]string{}, parsers: map[*ssa.Function]tableView{}, sums: map[*ssa.Function]map[nreq]int{}, muts: map[*ssa.Function]map[int]int{}, mays: map[string]bool{}, subst: map[ssa.Value]ssa.Value{}}
	for _, v := range tableViews(p) {
		s.parsers[v.fn] = v
		for _, f := range v.fields {
			s.fields[f] = v.tag
		}
	}
	live := p.liveFuncs(fontPath)
	for _, fn := range live {
		c.sum(fn)
	}
	for _, fn := range live {
		s.sum(fn)
	}
	for _, fn := range live {
		if _, parser := s.parsers[fn]; parser || c.exempt[fn] != nil || len(fn.Blocks) == 0 || fnPkgPath(fn) != fontPath {
			continue
		}
		s.sameData(fn)
		s.sameValues(fn)
		s.cross(fn)
		s.counts(fn)
		s.cache(fn)
	}
	q := newReport(r.Prop, r.Tier)
	checkC09(p, q)
	for _, o := range q.Obs {
		if o.Rule == "patch-value" {
			r.Add(o.Rule, o.Key, o.Where, o.OK, o.Detail)
		}
	}
}

// mutates: the function may change what its parameter points to.
func (s *syncer) mutates(fn *ssa.Function, param int) bool {
	if len(fn.Blocks) == 0 || !repoPkg(fnPkgPath(fn)) {
		return false
	}
	m := s.muts[fn]
	if m == nil {
		m = map[int]int{}
		s.muts[fn] = m
	}
	if v, ok := m[param]; ok {
		return v == 1
	}
	m[param] = 0
	root := ssa.Value(fn.Params[param])
	res := false
	eachInstr(fn, func(i ssa.Instruction) {
		switch x := i.(type) {
		case *ssa.Store:
			if _, direct := x.Addr.(*ssa.Alloc); !direct && underRoot(x.Addr, root) {
				res = true
			}
		case *ssa.MapUpdate:
			if underRoot(x.Map, root) {
				res = true
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "delete") && underRoot(cc.Args[0], root) {
				res = true
			}
			if callee := cc.StaticCallee(); callee != nil {
				for j, a := range cc.Args {
					if j < len(callee.Params) && pointerLike(a.Type()) && underRoot(a, root) && s.mutates(callee, j) {
						res = true
					}
				}
			}
		}
	})
	m[param] = 2
	if res {
		m[param] = 1
	}
	return res
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// underRoot: the address is reached from the root by selecting fields, elements and following pointers
func underRoot(v, root ssa.Value) bool {
	for i := 0; i < 30; i++ {
		if v == root {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			st := onlyStore(x)
			if st == nil || !pointerLike(st.Val.Type()) {
				return false
			}
			v = st.Val
		default:
			return false
		}
	}
	return false
}

// viewOf: the address lies in the parsed form of a table of a font
func (s *syncer) viewOf(v ssa.Value) (string, ssa.Value, string, bool) {
	path := ""
	for i := 0; i < 30; i++ {
		if field, base, ok := viewLoad(v); ok && s.fields[field] != "" {
			return field, base, path, true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			path = "." + fieldName(x.X.Type(), x.Field) + path
			v = x.X
		case *ssa.IndexAddr:
			path = "[]" + path
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return "", nil, "", false
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			st := onlyStore(x)
			if st == nil || !pointerLike(st.Val.Type()) {
				return "", nil, "", false
			}
			v = st.Val
		default:
			return "", nil, "", false
		}
	}
	return "", nil, "", false
}

func (s *syncer) key(base ssa.Value, field string) string { return s.c.id(base) + ":" + field }

// made: the bytes are the result of a method of the object
func made(v ssa.Value) (ssa.Value, *ssa.Call) {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	callee := call.Call.StaticCallee()
	if callee == nil || callee.Signature.Recv() == nil || fnPkgPath(callee) != fontPath || len(call.Call.Args) == 0 {
		return nil, nil
	}
	return call.Call.Args[0], call
}

// tagsOf: the tags that the key of an update may be, from what is known there
func (s *syncer) tagsOf(f nfacts, key ssa.Value, b *ssa.BasicBlock) []string {
	if k, ok := key.(*ssa.Const); ok {
		return []string{constString(k)}
	}
	kid := s.c.id(key)
	for e := range f {
		if strings.HasPrefix(e, "e:"+kid+":") {
			return []string{strings.Trim(strings.SplitN(e, ":", 3)[2], "\"")}
		}
	}
	var out []string
	for tag := range s.c.views {
		if !f["n:"+kid+":\""+tag+"\""] {
			out = append(out, tag)
		}
	}
	sort.Strings(out)
	return out
}

func (s *syncer) sum(fn *ssa.Function) map[nreq]int {
	if r, ok := s.sums[fn]; ok {
		return r
	}
	res := map[nreq]int{}
	s.sums[fn] = res
	if len(fn.Blocks) == 0 || fnPkgPath(fn) != fontPath {
		return res
	}
	if v, ok := s.parsers[fn]; ok {
		for _, f := range v.fields {
			res[nreq{param: 0, field: f}] = both // made from the bytes
		}
		return res
	}
	if s.c.exempt[fn] != nil {
		return res // the parse: the parsed forms come from the bytes
	}
	s.analyse(fn, res)
	return res
}

func (s *syncer) analyse(fn *ssa.Function, res map[nreq]int) {
	ms := s.c.musts[fn]
	in := map[*ssa.BasicBlock]syncstate{fn.Blocks[0]: {}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	step := func(b *ssa.BasicBlock, visit func(ssa.Instruction, syncstate)) syncstate {
		st := in[b].clone()
		f := ms[b].clone()
		for _, i := range b.Instrs {
			if visit != nil {
				visit(i, st)
			}
			var pre syncstate
			if debug19 {
				pre = st.clone()
			}
			s.transfer(fn, f, st, i)
			if debug19 {
				for k, v := range st {
					if pre.get(k) != v {
						fmt.Println(s.p.where(instrPos(i)), k, pre.get(k), "->", v, i)
					}
				}
			}
			s.c.transfer(fn, f, nfacts{}, i, nil)
		}
		return st
	}
	for steps := 0; len(work) > 0; steps++ {
		if steps > 20000 {
			s.r.Bad("bytes-and-view", fnName(fn)+" not analysed", s.p.where(fn.Pos()), "the states do not settle")
			return
		}
		b := work[0]
		work = work[1:]
		out := step(b, nil)
		for n, succ := range b.Succs {
			if ms[succ] == nil {
				continue // cannot be reached
			}
			o := out.clone()
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				s.assume(o, iff.Cond, n == 0)
			}
			old, ok := in[succ]
			if !ok {
				in[succ] = o
				work = append(work, succ)
				continue
			}
			changed := false
			for k := range o {
				if _, ok := old[k]; !ok {
					old[k] = untouched
				}
			}
			for k, v := range old {
				if n := v | o.get(k); n != v {
					old[k] = n
					changed = true
				}
			}
			if changed {
				work = append(work, succ)
			}
		}
	}
	idx := errIndex(fn.Signature)
	touched := map[string]bool{}
	bad := map[string]string{}
	where := map[string]string{}
	for _, b := range fn.Blocks {
		if in[b] == nil || ms[b] == nil {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		st := step(b, nil)
		if idx >= 0 && nonNilErr(ret.Results[idx], b, map[ssa.Value]bool{}, 0) {
			continue
		}
		for k, v := range st {
			if v == untouched {
				continue
			}
			touched[k] = true
			id, field, _ := strings.Cut(k, ":")
			param := -1
			for i, p := range fn.Params {
				if s.c.ids[p] == id {
					param = i
				}
			}
			if param >= 0 {
				q := nreq{param: param, field: field}
				if res[q] == 0 {
					res[q] = v
				} else {
					res[q] |= v
				}
				if !s.c.api(fn) {
					continue // seen to by the callers
				}
			}
			if v&bytesOnly != 0 {
				bad[k], where[k] = "the bytes of "+s.fields[field]+" are replaced, the parsed form "+field+" is not", s.p.where(instrPos(ret))
			}
			if v&(viewOnly|viewFilled|serialised) != 0 {
				bad[k], where[k] = "the parsed form "+field+" is changed, the bytes of "+s.fields[field]+" are not replaced afterwards", s.p.where(instrPos(ret))
			}
		}
	}
	var ks []string
	for k := range touched {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		_, a, _ := strings.Cut(ks[i], ":")
		_, b, _ := strings.Cut(ks[j], ":")
		return a < b
	})
	for _, k := range ks {
		_, field, _ := strings.Cut(k, ":")
		name := s.c.key(fnName(fn) + " " + field)
		if bad[k] != "" {
			s.r.Bad("bytes-and-view", name, where[k], bad[k])
		} else {
			s.r.OK("bytes-and-view", name, s.p.where(fn.Pos()), "in step on every path")
		}
	}
}

// assume uses what the outcome of a condition tells: a list to which something was added is not empty
func (s *syncer) assume(st syncstate, cond ssa.Value, yes bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y, op := b.X, b.Y, b.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y, op = y, x, mirror(op)
	}
	k, ok := y.(*ssa.Const)
	if !ok || !isIntType(k.Type()) || k.Int64() != 0 {
		return
	}
	empty := op == token.GTR && !yes || op == token.EQL && yes || op == token.NEQ && !yes || op == token.LEQ && yes
	call, ok := x.(*ssa.Call)
	if !ok || !empty {
		return
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return
	}
	if field, base, _, ok := s.viewOf(call.Call.Args[0]); ok {
		key := s.key(base, field)
		if v := st.get(key); v&viewFilled != 0 {
			if v &^= viewFilled; v == 0 {
				v = untouched // cannot be reached
			}
			st[key] = v
		}
	}
}

func (s *syncer) bytes(st syncstate, key string, how int) {
	st[key] = mapStates(st.get(key), func(b int) int {
		if how == serialised { // made from the parsed form in the font
			switch b {
			case viewOnly, viewFilled:
				return viewOnly // changed after it was made into bytes
			}
			return untouched
		}
		switch b {
		case untouched, bytesOnly:
			return bytesOnly
		}
		return both
	})
}

func (s *syncer) view(st syncstate, key string, filled bool) {
	st[key] = mapStates(st.get(key), func(b int) int {
		switch b {
		case bytesOnly, both:
			return both
		case viewFilled:
			return viewFilled
		}
		if filled {
			return viewFilled
		}
		return viewOnly
	})
}

func (s *syncer) transfer(fn *ssa.Function, f nfacts, st syncstate, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if name, font, ok := tablesMap(x.Map); ok && name == "Tables" {
			base := canonFont(font)
			for _, tag := range s.tagsOf(f, x.Key, x.Block()) {
				for _, field := range s.c.views[tag] {
					key := s.key(base, field)
					how := bytesOnly
					if obj, call := made(x.Value); obj != nil {
						if g, b, ok := viewLoad(obj); ok && g == field && b == base {
							how = serialised
						} else if s.staleObject(fn, base, field, obj, call) {
							s.view(st, key, false)
							continue // the parsed form is changed after the bytes were made from it
						}
					}
					s.bytes(st, key, how)
				}
			}
			return
		}
		if field, base, _, ok := s.viewOf(x.Map); ok {
			s.view(st, s.key(base, field), false)
		}
	case *ssa.Store:
		if field, base, ok := sfntField(x.Addr); ok && s.fields[field] != "" {
			base = canonFont(base)
			key := s.key(base, field)
			if isNilConst(x.Val) && st.get(key) == untouched {
				return
			}
			s.view(st, key, false)
			return
		}
		if field, base, _, ok := s.viewOf(x.Addr); ok {
			s.view(st, s.key(base, field), grows(x.Val))
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "copy":
				if field, base, _, ok := s.viewOf(cc.Args[0]); ok {
					s.view(st, s.key(base, field), false)
				}
			case "delete":
				if name, font, ok := tablesMap(cc.Args[0]); ok && name == "Tables" {
					for _, tag := range s.tagsOf(f, cc.Args[1], in.Block()) {
						for _, field := range s.c.views[tag] {
							s.bytes(st, s.key(canonFont(font), field), bytesOnly)
						}
					}
				}
			}
			return
		}
		callee := cc.StaticCallee()
		if callee == nil || len(callee.Blocks) == 0 || !repoPkg(fnPkgPath(callee)) || callee == fn {
			return
		}
		// bytes made from the parsed form, to be stored later
		if call, ok := in.(*ssa.Call); ok && len(cc.Args) > 0 {
			if obj, _ := made(call); obj != nil {
				if field, base, ok := viewLoad(obj); ok && s.fields[field] != "" && bytesResult(callee) && (s.storedLater(call, base, field) || !s.mutates(callee, 0)) {
					key := s.key(base, field)
					if s.storedLater(call, base, field) {
						st[key] = mapStates(st.get(key), func(b int) int {
							if b == untouched {
								return b
							}
							return serialised
						})
					}
					return
				}
			}
		}
		for i, a := range cc.Args {
			if i >= len(callee.Params) {
				break
			}
			if isFont(a.Type()) {
				sub := s.sum(callee)
				for q, exit := range sub {
					if q.param != i {
						continue
					}
					key := s.key(canonFont(a), q.field)
					old := st.get(key)
					r := 0
					if exit&untouched != 0 {
						r |= old
					}
					if exit&both != 0 {
						r |= untouched
					}
					if exit&bytesOnly != 0 {
						t := syncstate{key: old}
						s.bytes(t, key, bytesOnly)
						r |= t[key]
					}
					if exit&(viewOnly|viewFilled|serialised) != 0 {
						t := syncstate{key: old}
						s.view(t, key, false)
						r |= t[key]
					}
					st[key] = r
				}
				continue
			}
			if !pointerLike(a.Type()) {
				continue
			}
			if field, base, _, ok := s.viewOf(a); ok && s.mutates(callee, i) {
				s.view(st, s.key(base, field), false)
			}
		}
	}
}

func bytesResult(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() > 0 && isBytes(res.At(0).Type())
}

// grows: append of at least one element
func grows(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(call.Call.Args) < 2 {
		return false
	}
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return false
	}
	pt, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	return ok && at.Len() > 0
}

// storedLater: the result of the call becomes the bytes of the table of the parsed form
func (s *syncer) storedLater(call *ssa.Call, base ssa.Value, field string) bool {
	vals := map[ssa.Value]bool{call: true}
	if refs := call.Referrers(); refs != nil {
		for _, r := range *refs {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
				vals[ex] = true
			}
		}
	}
	for v := range vals {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if up, ok := r.(*ssa.MapUpdate); ok && up.Value == v {
				if name, font, ok := tablesMap(up.Map); ok && name == "Tables" && canonFont(font) == base {
					return true
				}
			}
		}
	}
	return false
}

// staleObject: the object is stored as the parsed form, and may be changed after the bytes were made of it
func (s *syncer) staleObject(fn *ssa.Function, base ssa.Value, field string, obj ssa.Value, call *ssa.Call) bool {
	al, ok := obj.(*ssa.Alloc)
	if !ok {
		return false
	}
	stored := false
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == obj {
			if g, b, ok := sfntField(st.Addr); ok && g == field && canonFont(b) == base {
				stored = true
			}
		}
	}
	return stored && s.changedAfter(fn, al, call)
}

// changedAfter: the object may be changed after the call
func (s *syncer) changedAfter(fn *ssa.Function, al *ssa.Alloc, call *ssa.Call) bool {
	bad := false
	eachInstr(fn, func(i ssa.Instruction) {
		change := false
		switch x := i.(type) {
		case *ssa.Store:
			change = underRoot(x.Addr, al)
		case *ssa.MapUpdate:
			change = underRoot(x.Map, al)
		case ssa.CallInstruction:
			callee := x.Common().StaticCallee()
			if callee == nil || i == ssa.Instruction(call) {
				return
			}
			for j, a := range x.Common().Args {
				if j < len(callee.Params) && pointerLike(a.Type()) && underRoot(a, al) && s.mutates(callee, j) {
					change = true
				}
			}
		}
		if change && after(call, i, al.Block()) {
			bad = true
		}
	})
	return bad
}

// after: b comes after a on a path that does not pass the block in which the object is made
func after(a, b ssa.Instruction, fresh *ssa.BasicBlock) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || x == fresh {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

var debug19 = os.Getenv("FONTCHECK_DEBUG") != ""
