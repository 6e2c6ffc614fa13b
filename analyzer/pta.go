package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Inclusion-based points-to analysis: field sensitive, with a bounded call string as context, run
// per plan of entry calls over synthetic arguments. Objects reachable from an argument are
// materialised lazily and carry the argument's label, so that every write can be attributed.

type Obj struct {
	id        int
	typ       types.Type // type of the memory block at path ""
	site      string
	root      string // label of the synthetic root, "" for memory allocated in the analysed code
	sroot     string // root of a synthetic object, protected or not
	apath     string // access path from the root
	synthetic bool
	box       bool // interface box: typ is the dynamic type
	fn        *ssa.Function
	bindings  []ssa.Value
	bctx      int
	depth     int
	entry     int // plan entry that allocated the object
}

func (o *Obj) String() string {
	if o.root != "" {
		return o.root + o.apath
	}
	return o.site
}

type Loc struct {
	o      *Obj
	path   string
	capped bool // slice whose capacity equals its length: append must reallocate
}

type Node struct {
	pts   map[Loc]bool
	order []Loc
	succ  []*Node
	succS map[*Node]bool
	trig  []func(Loc)
	done  int
	queue bool
}

type nodeKey struct {
	ctx  int
	v    ssa.Value
	path string
}
type cellKey struct {
	o    *Obj
	path string
}

type Effect struct {
	ctx    int
	fn     *ssa.Function
	instr  ssa.Instruction
	kind   string
	target *Node
	suffix string
}

type PTA struct {
	p        *Prog
	k        int
	vals     map[nodeKey]*Node
	cells    map[cellKey]*Node
	objs     map[string]*Obj
	nobj     int
	ctxs     map[string]int
	ctxStr   []string
	ctxCall  [][]ssa.CallInstruction
	ctxEntry []int
	entries  []string
	prot     map[int]string // entries whose allocations are protected, with their label
	cur      int            // entry being processed
	reached  map[string]bool
	reachFn  map[*ssa.Function]bool
	rets     map[string][]*Node
	work     []*Node
	effects  []*Effect
	effSeen  map[string]bool
	pathMemo map[string][]leaf
	maxDepth int
	opaque   map[string]bool
	ncons    int
	analyse  func(fn *ssa.Function) bool
}

type leaf struct {
	path string
	typ  types.Type
}

func newPTA(p *Prog, k int) *PTA {
	a := &PTA{p: p, k: k, vals: map[nodeKey]*Node{}, cells: map[cellKey]*Node{}, objs: map[string]*Obj{}, ctxs: map[string]int{}, reached: map[string]bool{}, reachFn: map[*ssa.Function]bool{}, rets: map[string][]*Node{}, effSeen: map[string]bool{}, pathMemo: map[string][]leaf{}, maxDepth: 12, opaque: map[string]bool{}}
	a.ctx(0, nil)
	return a
}

// ctx interns a context: the plan entry that is being executed and the last k call sites.
func (a *PTA) ctx(entry int, calls []ssa.CallInstruction) int {
	if len(calls) > a.k {
		calls = calls[len(calls)-a.k:]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:", entry)
	for _, c := range calls {
		fmt.Fprintf(&sb, "%p;", c)
	}
	s := sb.String()
	if id, ok := a.ctxs[s]; ok {
		return id
	}
	id := len(a.ctxStr)
	a.ctxs[s] = id
	a.ctxStr = append(a.ctxStr, s)
	a.ctxCall = append(a.ctxCall, append([]ssa.CallInstruction{}, calls...))
	a.ctxEntry = append(a.ctxEntry, entry)
	return id
}

func (a *PTA) push(ctx int, c ssa.CallInstruction) int {
	return a.ctx(a.ctxEntry[ctx], append(append([]ssa.CallInstruction{}, a.ctxCall[ctx]...), c))
}

func (a *PTA) newNode() *Node { return &Node{pts: map[Loc]bool{}, succS: map[*Node]bool{}} }

func (a *PTA) addLoc(n *Node, l Loc) {
	if n.pts[l] {
		return
	}
	if l.path != "" && typeAt(l.o.typ, l.path) == nil && !strings.HasPrefix(l.o.root, "memory behind") {
		return // type-inconsistent: cannot arise
	}
	if len(l.path) > 40 {
		panic("points-to: unbounded access path " + l.o.String() + l.path)
	}
	n.pts[l] = true
	n.order = append(n.order, l)
	if !n.queue {
		n.queue = true
		a.work = append(a.work, n)
	}
}

func (a *PTA) edge(from, to *Node) {
	if from == nil || to == nil || from == to || from.succS[to] {
		return
	}
	from.succS[to] = true
	from.succ = append(from.succ, to)
	a.ncons++
	for _, l := range from.order {
		a.addLoc(to, l)
	}
}

func (a *PTA) on(n *Node, f func(Loc)) {
	if n == nil {
		return
	}
	n.trig = append(n.trig, f)
	for i := 0; i < n.done; i++ {
		f(n.order[i])
	}
	if n.done < len(n.order) && !n.queue {
		n.queue = true
		a.work = append(a.work, n)
	}
}

func (a *PTA) solve() {
	for len(a.work) > 0 {
		n := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		n.queue = false
		for n.done < len(n.order) {
			l := n.order[n.done]
			n.done++
			for i := 0; i < len(n.succ); i++ {
				a.addLoc(n.succ[i], l)
			}
			for i := 0; i < len(n.trig); i++ {
				n.trig[i](l)
			}
		}
	}
}

func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// leaves enumerates the pointer-carrying sub-paths of a value of type t.
func (a *PTA) leaves(t types.Type) []leaf {
	if t == nil {
		return nil
	}
	key := types.TypeString(t, nil)
	if l, ok := a.pathMemo[key]; ok {
		return l
	}
	var out []leaf
	var rec func(t types.Type, path string, depth int)
	rec = func(t types.Type, path string, depth int) {
		if isPtrLike(t) {
			out = append(out, leaf{path, t})
			return
		}
		if depth > 8 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), path+"."+strconv.Itoa(i), depth+1)
			}
		case *types.Array:
			rec(u.Elem(), path+"[]", depth+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(u.At(i).Type(), path+"#"+strconv.Itoa(i), depth+1)
			}
		}
	}
	if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			rec(tup.At(i).Type(), "#"+strconv.Itoa(i), 0)
		}
	} else {
		rec(t, "", 0)
	}
	a.pathMemo[key] = out
	return out
}

// typeAt resolves a sub-path inside a block of type t.
func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		switch path[0] {
		case '.':
			j := 1
			for j < len(path) && path[j] >= '0' && path[j] <= '9' {
				j++
			}
			i, _ := strconv.Atoi(path[1:j])
			st, ok := t.Underlying().(*types.Struct)
			if !ok || i >= st.NumFields() {
				return nil
			}
			t = st.Field(i).Type()
			path = path[j:]
		case '[':
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
			path = path[2:]
		case '{':
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			if strings.HasPrefix(path, "{k}") {
				t = m.Key()
			} else {
				t = m.Elem()
			}
			path = path[3:]
		default:
			return nil
		}
	}
	return t
}

// describe renders a numeric path with field names.
func describe(t types.Type, path string) string {
	s := ""
	for path != "" && t != nil {
		switch path[0] {
		case '.':
			j := 1
			for j < len(path) && path[j] >= '0' && path[j] <= '9' {
				j++
			}
			i, _ := strconv.Atoi(path[1:j])
			st, ok := t.Underlying().(*types.Struct)
			if !ok || i >= st.NumFields() {
				return s + path
			}
			s += "." + st.Field(i).Name()
			t = st.Field(i).Type()
			path = path[j:]
		case '[':
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return s + path
			}
			s += "[]"
			path = path[2:]
		case '{':
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return s + path
			}
			s += "[key]"
			if strings.HasPrefix(path, "{k}") {
				t = m.Key()
			} else {
				t = m.Elem()
			}
			path = path[3:]
		default:
			return s + path
		}
	}
	return s
}

func (a *PTA) obj(key string, typ types.Type, site string) *Obj {
	if o, ok := a.objs[key]; ok {
		return o
	}
	a.nobj++
	o := &Obj{id: a.nobj, typ: typ, site: site, entry: a.cur}
	a.objs[key] = o
	return o
}

func blockOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return types.NewArray(u.Elem(), 1<<20)
	case *types.Map:
		return t
	case *types.Chan:
		return types.NewArray(u.Elem(), 1<<20)
	}
	return t
}

// synth returns the synthetic locations that a pointer-like value of type t holds when it comes from
// outside: one fresh object per access path, boxes per implementing type for interfaces.
func (a *PTA) synth(root, apath string, t types.Type, depth int, protected bool) []Loc {
	mk := func(suffix string, typ types.Type) *Obj {
		ap := apath + suffix
		key := "S|" + root + "|" + ap
		if depth > a.maxDepth {
			key = "S|" + root + "|" + types.TypeString(typ, nil)
		}
		o := a.obj(key, typ, root+ap)
		if !o.synthetic {
			o.synthetic = true
			o.sroot = root
			if protected {
				o.root = root
			}
			o.apath = ap
			o.depth = depth
		}
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []Loc{{o: mk("", u.Elem())}}
	case *types.Slice, *types.Map, *types.Chan:
		return []Loc{{o: mk("", blockOf(t))}}
	case *types.Interface:
		var out []Loc
		if u.NumMethods() == 0 {
			o := mk("", t)
			return []Loc{{o: o}}
		}
		// named types of the repository (and parse) that implement the interface
		for _, sp := range []*ssa.Package{a.p.Font, a.p.Parse} {
			scope := sp.Pkg.Scope()
			for _, name := range scope.Names() {
				tn, ok := scope.Lookup(name).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				if nm, ok := tn.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
					continue
				}
				for _, cand := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if types.Implements(cand, u) {
						o := mk("<"+types.TypeString(cand, func(*types.Package) string { return "" })+">", cand)
						o.box = true
						out = append(out, Loc{o: o})
						break
					}
				}
			}
		}
		if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == fontPath && !named.Obj().Exported() {
			return out // closed set of implementations
		}
		o := mk("<opaque>", t)
		return append(out, Loc{o: o})
	}
	return nil
}

func (a *PTA) cell(o *Obj, path string) *Node {
	k := cellKey{o, path}
	if n, ok := a.cells[k]; ok {
		return n
	}
	n := a.newNode()
	a.cells[k] = n
	if o.synthetic {
		if t := typeAt(o.typ, path); t != nil && isPtrLike(t) {
			for _, l := range a.synth(rootOf(o), o.apath+describe(o.typ, path), t, o.depth+1, o.root != "") {
				a.addLoc(n, l)
			}
		}
	}
	return n
}

func rootOf(o *Obj) string {
	if o.sroot != "" {
		return o.sroot
	}
	if o.root != "" {
		return o.root
	}
	return "ext:" + o.site
}

func (a *PTA) val(ctx int, v ssa.Value, path string) *Node {
	switch v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global, *ssa.Function:
		ctx = 0
	}
	k := nodeKey{ctx, v, path}
	if n, ok := a.vals[k]; ok {
		return n
	}
	n := a.newNode()
	a.vals[k] = n
	switch v := v.(type) {
	case *ssa.Global:
		if path == "" {
			o := a.obj("G|"+v.String(), v.Type().(*types.Pointer).Elem(), "package variable "+v.Name())
			o.synthetic = true
			o.root = "package variable " + v.Pkg.Pkg.Name() + "." + v.Name()
			a.addLoc(n, Loc{o: o})
		}
	case *ssa.Function:
		if path == "" {
			o := a.obj("F|"+v.String(), v.Type(), "func "+v.String())
			o.fn = v
			a.addLoc(n, Loc{o: o})
		}
	}
	return n
}

func (a *PTA) copyVal(t types.Type, from func(string) *Node, to func(string) *Node) {
	for _, l := range a.leaves(t) {
		f, g := from(l.path), to(l.path)
		if f != nil && g != nil {
			a.edge(f, g)
		}
	}
}

func (a *PTA) vf(ctx int, v ssa.Value, prefix string) func(string) *Node {
	return func(p string) *Node { return a.val(ctx, v, prefix+p) }
}

func (a *PTA) load(t types.Type, ptr *Node, suffix string, to func(string) *Node) {
	lv := a.leaves(t)
	if len(lv) == 0 || ptr == nil {
		return
	}
	a.on(ptr, func(l Loc) {
		if l.o.fn != nil {
			return
		}
		for _, s := range lv {
			a.edge(a.cell(l.o, l.path+suffix+s.path), to(s.path))
		}
	})
}

func (a *PTA) store(t types.Type, ptr *Node, suffix string, from func(string) *Node) {
	lv := a.leaves(t)
	if len(lv) == 0 || ptr == nil {
		return
	}
	a.on(ptr, func(l Loc) {
		if l.o.fn != nil {
			return
		}
		for _, s := range lv {
			if f := from(s.path); f != nil {
				a.edge(f, a.cell(l.o, l.path+suffix+s.path))
			}
		}
	})
}

func (a *PTA) effect(ctx int, fn *ssa.Function, in ssa.Instruction, kind string, target *Node, suffix string) {
	if target == nil {
		return
	}
	a.effects = append(a.effects, &Effect{ctx, fn, in, kind, target, suffix})
}

var analysablePkgs = map[string]bool{
	fontPath: true, cmdPath: true, parsePath: true, "sort": true, "slices": true, "maps": true, "bytes": true, "strings": true,
	"encoding/binary": true, "math": true, "math/bits": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "bufio": true, "io": true, "cmp": true, "iter": true,
	"container/list": true, "container/heap": true,
}

// packages whose functions only read the memory their arguments point to (beyond objects they own)
var readonlyPkgs = map[string]bool{
	"fmt": true, "errors": true, "strconv": true, "math": true, "time": true, "log": true, "os": true, "io/ioutil": true, "path": true, "path/filepath": true, "io/fs": true,
	"compress/zlib": true, "github.com/andybalholm/brotli": true, "reflect": true, "golang.org/x/text/transform": true, "golang.org/x/text/encoding": true,
	"golang.org/x/text/encoding/unicode": true, "golang.org/x/text/encoding/charmap": true, "sync": true, "internal/bytealg": true, "internal/stringslite": true, "unsafe": true, "runtime": true,
	"math/bits": true, "unicode/utf8": true, "unicode": true, "strings": true, "bytes": true, "encoding/hex": true, "encoding/base64": true, "hash/crc32": true, "hash/adler32": true, "encoding/gob": true, "sort": true, "encoding/binary": true,
	"internal/byteorder": true, "image": true, "image/color": true, "image/draw": true,
}

func (a *PTA) analysable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if a.analyse != nil && !a.analyse(fn) {
		return false
	}
	pk := fnPkgPath(fn)
	if pk == "encoding/binary" {
		// the reflective entry points are opaque
		switch fn.Name() {
		case "Read", "Write", "Append", "Encode", "Decode", "Size":
			return false
		}
	}
	return analysablePkgs[pk] || pk == ""
}

func isOnceDo(fn *ssa.Function) bool {
	return fn.Name() == "Do" && fn.Signature.Recv() != nil && types.TypeString(fn.Signature.Recv().Type(), nil) == "*sync.Once"
}

// function literals or functions that run under a sync.Once
func (a *PTA) reach(ctx int, fn *ssa.Function) {
	key := strconv.Itoa(ctx) + "|" + fmt.Sprintf("%p", fn)
	if a.reached[key] {
		return
	}
	a.reached[key] = true
	a.reachFn[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(ctx, fn, in)
		}
	}
}

func (a *PTA) retNode(ctx int, fn *ssa.Function, path string) *Node {
	return a.val2("ret", ctx, fn, path)
}

// nodes for return values: keyed by function pointer with a distinct path prefix
func (a *PTA) val2(kind string, ctx int, fn *ssa.Function, path string) *Node {
	k := nodeKey{ctx, fn, "!" + kind + path}
	if n, ok := a.vals[k]; ok {
		return n
	}
	n := a.newNode()
	a.vals[k] = n
	return n
}

func (a *PTA) instr(ctx int, fn *ssa.Function, in ssa.Instruction) {
	a.cur = a.ctxEntry[ctx]
	defer func() { a.cur = 0 }()
	siteKey := func() string { return fmt.Sprintf("A|%d|%p", ctx, in) }
	site := func() string { return fnName(fn) + " " + a.p.where(instrPos(in)) }
	switch in := in.(type) {
	case *ssa.Alloc:
		o := a.obj(siteKey(), in.Type().(*types.Pointer).Elem(), "alloc "+site())
		a.addLoc(a.val(ctx, in, ""), Loc{o: o})
	case *ssa.MakeSlice:
		o := a.obj(siteKey(), blockOf(in.Type()), "make "+site())
		a.addLoc(a.val(ctx, in, ""), Loc{o: o})
	case *ssa.MakeMap:
		o := a.obj(siteKey(), in.Type(), "make "+site())
		a.addLoc(a.val(ctx, in, ""), Loc{o: o})
	case *ssa.MakeChan:
		o := a.obj(siteKey(), blockOf(in.Type()), "make "+site())
		a.addLoc(a.val(ctx, in, ""), Loc{o: o})
	case *ssa.MakeClosure:
		o := a.obj(siteKey(), in.Type(), "closure "+site())
		o.fn = in.Fn.(*ssa.Function)
		o.bindings = in.Bindings
		o.bctx = ctx
		a.addLoc(a.val(ctx, in, ""), Loc{o: o})
	case *ssa.MakeInterface:
		o := a.obj(siteKey(), in.X.Type(), "box "+site())
		o.box = true
		for _, l := range a.leaves(in.X.Type()) {
			if n := a.val(ctx, in.X, l.path); n != nil {
				a.edge(n, a.cell(o, l.path))
			}
		}
		a.addLoc(a.val(ctx, in, ""), Loc{o: o})
	case *ssa.TypeAssert:
		prefix := ""
		if in.CommaOk {
			prefix = "#0"
		}
		src := a.val(ctx, in.X, "")
		if types.IsInterface(in.AssertedType) {
			a.on(src, func(l Loc) {
				if l.o.box && !types.AssignableTo(l.o.typ, in.AssertedType) {
					return
				}
				a.addLoc(a.val(ctx, in, prefix), l)
			})
		} else {
			lv := a.leaves(in.AssertedType)
			a.on(src, func(l Loc) {
				if l.o.box {
					if !types.Identical(l.o.typ, in.AssertedType) {
						return
					}
					for _, s := range lv {
						a.edge(a.cell(l.o, l.path+s.path), a.val(ctx, in, prefix+s.path))
					}
				} else if l.o.synthetic {
					// opaque interface content: invent the asserted value below the same root
					for _, s := range lv {
						for _, nl := range a.synth(rootOf(l.o), l.o.apath+"<"+types.TypeString(in.AssertedType, func(*types.Package) string { return "" })+">"+s.path, s.typ, l.o.depth+1, l.o.root != "") {
							a.addLoc(a.val(ctx, in, prefix+s.path), nl)
						}
					}
				}
			})
		}
	case *ssa.ChangeType:
		a.copyVal(in.Type(), a.vf(ctx, in.X, ""), a.vf(ctx, in, ""))
	case *ssa.ChangeInterface:
		if n := a.val(ctx, in.X, ""); n != nil {
			a.edge(n, a.val(ctx, in, ""))
		}
	case *ssa.MultiConvert:
		a.copyVal(in.Type(), a.vf(ctx, in.X, ""), a.vf(ctx, in, ""))
	case *ssa.SliceToArrayPointer:
		if n := a.val(ctx, in.X, ""); n != nil {
			a.edge(n, a.val(ctx, in, ""))
		}
	case *ssa.Convert:
		if isPtrLike(in.Type()) {
			if isPtrLike(in.X.Type()) {
				if n := a.val(ctx, in.X, ""); n != nil {
					a.edge(n, a.val(ctx, in, ""))
				}
			} else if _, ok := in.Type().Underlying().(*types.Slice); ok {
				o := a.obj(siteKey(), blockOf(in.Type()), "conversion "+site())
				a.addLoc(a.val(ctx, in, ""), Loc{o: o})
			} else {
				// uintptr to unsafe.Pointer: memory of unknown ownership
				o := a.obj(siteKey(), in.Type(), "unsafe "+site())
				o.root = "memory behind an unsafe pointer"
				a.addLoc(a.val(ctx, in, ""), Loc{o: o})
			}
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			e := e
			a.copyVal(in.Type(), a.vf(ctx, e, ""), a.vf(ctx, in, ""))
		}
	case *ssa.Extract:
		pre := "#" + strconv.Itoa(in.Index)
		a.copyVal(in.Type(), a.vf(ctx, in.Tuple, pre), a.vf(ctx, in, ""))
	case *ssa.Field:
		a.copyVal(in.Type(), a.vf(ctx, in.X, "."+strconv.Itoa(in.Field)), a.vf(ctx, in, ""))
	case *ssa.FieldAddr:
		dst := a.val(ctx, in, "")
		suf := "." + strconv.Itoa(in.Field)
		a.on(a.val(ctx, in.X, ""), func(l Loc) {
			if l.o.fn == nil {
				a.addLoc(dst, Loc{o: l.o, path: l.path + suf})
			}
		})
	case *ssa.IndexAddr:
		dst := a.val(ctx, in, "")
		a.on(a.val(ctx, in.X, ""), func(l Loc) { a.addLoc(dst, Loc{o: l.o, path: l.path + "[]"}) })
	case *ssa.Index:
		a.copyVal(in.Type(), a.vf(ctx, in.X, "[]"), a.vf(ctx, in, ""))
	case *ssa.Slice:
		dst := a.val(ctx, in, "")
		capped3 := in.Max != nil && (in.Max == in.High || sameExpr(in.Max, in.High, 4))
		a.on(a.val(ctx, in.X, ""), func(l Loc) {
			c := capped3 || (l.capped && in.High == nil && in.Max == nil)
			a.addLoc(dst, Loc{o: l.o, path: l.path, capped: c})
		})
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if fv := forwardedStore(in); fv != nil {
				a.copyVal(in.Type(), a.vf(ctx, fv, ""), a.vf(ctx, in, ""))
				return
			}
			a.load(in.Type(), a.val(ctx, in.X, ""), "", a.vf(ctx, in, ""))
		case token.ARROW:
			pre := ""
			t := in.Type()
			if in.CommaOk {
				pre = "#0"
				t = t.(*types.Tuple).At(0).Type()
			}
			a.load(t, a.val(ctx, in.X, ""), "[]", a.vf(ctx, in, pre))
		}
	case *ssa.Store:
		a.effect(ctx, fn, in, "store", a.val(ctx, in.Addr, ""), "")
		from := a.vf(ctx, in.Val, "")
		if al, ok := in.Addr.(*ssa.Alloc); ok {
			if stt, ok := in.Val.Type().Underlying().(*types.Struct); ok {
				dead := map[int]bool{}
				for f := 0; f < stt.NumFields(); f++ {
					if len(a.leaves(stt.Field(f).Type())) == 0 {
						continue
					}
					if gone, pre := deadLeaf(in, al, f); gone {
						dead[f] = true
						for _, ld := range pre {
							a.copyVal(ld.Type(), a.vf(ctx, in.Val, "."+strconv.Itoa(f)), a.vf(ctx, ld, ""))
						}
					}
				}
				if len(dead) > 0 {
					from = func(p string) *Node {
						j := 1
						for j < len(p) && p[j] >= '0' && p[j] <= '9' {
							j++
						}
						if f, err := strconv.Atoi(p[1:j]); err == nil && dead[f] {
							return nil
						}
						return a.val(ctx, in.Val, p)
					}
				}
			}
		}
		a.store(in.Val.Type(), a.val(ctx, in.Addr, ""), "", from)
	case *ssa.Send:
		a.store(in.X.Type(), a.val(ctx, in.Chan, ""), "[]", a.vf(ctx, in.X, ""))
	case *ssa.MapUpdate:
		a.effect(ctx, fn, in, "map update", a.val(ctx, in.Map, ""), "{v}")
		m := in.Map.Type().Underlying().(*types.Map)
		a.store(m.Key(), a.val(ctx, in.Map, ""), "{k}", a.vf(ctx, in.Key, ""))
		a.store(m.Elem(), a.val(ctx, in.Map, ""), "{v}", a.vf(ctx, in.Value, ""))
	case *ssa.Lookup:
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			pre := ""
			if in.CommaOk {
				pre = "#0"
			}
			a.load(m.Elem(), a.val(ctx, in.X, ""), "{v}", a.vf(ctx, in, pre))
		}
	case *ssa.Range:
		if n := a.val(ctx, in.X, ""); n != nil && isPtrLike(in.X.Type()) {
			a.edge(n, a.val(ctx, in, ""))
		}
	case *ssa.Next:
		if !in.IsString {
			if rng, ok := in.Iter.(*ssa.Range); ok {
				if m, ok := rng.X.Type().Underlying().(*types.Map); ok {
					a.load(m.Key(), a.val(ctx, in.Iter, ""), "{k}", a.vf(ctx, in, "#1"))
					a.load(m.Elem(), a.val(ctx, in.Iter, ""), "{v}", a.vf(ctx, in, "#2"))
				}
			}
		}
	case *ssa.Return:
		for i, r := range in.Results {
			pre := ""
			if len(in.Results) > 1 {
				pre = "#" + strconv.Itoa(i)
			}
			for _, l := range a.leaves(r.Type()) {
				if n := a.val(ctx, r, l.path); n != nil {
					a.edge(n, a.retNode(ctx, fn, pre+l.path))
				}
			}
		}
	case *ssa.Call:
		a.call(ctx, fn, in, &in.Call, in)
	case *ssa.Defer:
		a.call(ctx, fn, in, &in.Call, nil)
	case *ssa.Go:
		a.call(ctx, fn, in, &in.Call, nil)
	}
}

// singleStore returns the only value ever stored to a local cell (a captured parameter, typically).
func singleStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	var scan func(addr ssa.Value) bool
	scan = func(addr ssa.Value) bool {
		refs := addr.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != addr {
					return false // address escapes
				}
				n++
				val = r.Val
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return false
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == addr && !scan(f.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !scan(al) || n != 1 {
		return nil
	}
	return val
}

// canon looks through loads of cells that only ever hold one value.
func canon(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return v
		}
		addr := ld.X
		if fv, ok := addr.(*ssa.FreeVar); ok {
			if b := bindingOf(fv); b != nil {
				addr = b
			}
		}
		al, ok := addr.(*ssa.Alloc)
		if !ok {
			return v
		}
		s := singleStore(al)
		if s == nil {
			return v
		}
		v = s
	}
	return v
}

// bindingOf finds what a free variable is bound to, when its closure is made at one place.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	var out ssa.Value
	if par := fn.Parent(); par != nil && idx >= 0 {
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					if out != nil {
						return nil
					}
					out = mc.Bindings[idx]
				}
			}
		}
	}
	if f2, ok := out.(*ssa.FreeVar); ok {
		return bindingOf(f2)
	}
	return out
}

// forwardedStore: the value a load must yield because the same address was stored to earlier in the
// block with no write in between that could reach it.
func forwardedStore(ld *ssa.UnOp) ssa.Value {
	instrs := ld.Block().Instrs
	i := 0
	for ; i < len(instrs); i++ {
		if instrs[i] == ld {
			break
		}
	}
	for i--; i >= 0; i-- {
		switch in := instrs[i].(type) {
		case *ssa.Store:
			if in.Addr == ld.X {
				return in.Val
			}
			x, ok1 := in.Addr.(*ssa.FieldAddr)
			y, ok2 := ld.X.(*ssa.FieldAddr)
			if ok1 && ok2 {
				if canon(x.X) == canon(y.X) && x.Field == y.Field {
					return in.Val
				}
				if x.Field != y.Field && types.Identical(x.X.Type(), y.X.Type()) {
					continue // another field of the same struct type
				}
			}
			switch in.Val.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return nil // may contain the loaded location
			}
			if !types.Identical(in.Val.Type(), ld.Type()) {
				continue
			}
			return nil
		case *ssa.MapUpdate, *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.RunDefers:
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
			}
			return nil
		}
	}
	return nil
}

// localBuffer: memory made in this function (padding buffers and the like).
func localBuffer(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeSlice, *ssa.Alloc, *ssa.Const:
		return true
	case *ssa.Slice:
		return localBuffer(v.X)
	case *ssa.Convert:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != v && localBuffer(e) {
				return true
			}
		}
	case *ssa.Global:
		return true
	case *ssa.UnOp:
		return localBuffer(v.X)
	}
	return false
}

// sameExpr: structurally equal pure expressions.
func sameExpr(x, y ssa.Value, depth int) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil || depth == 0 {
		return false
	}
	switch x := x.(type) {
	case *ssa.Const:
		y, ok := y.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString() && types.Identical(x.Type(), y.Type())
	case *ssa.BinOp:
		y, ok := y.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, depth-1) && sameExpr(x.Y, y.Y, depth-1)
	case *ssa.Convert:
		y, ok := y.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && sameExpr(x.X, y.X, depth-1)
	case *ssa.UnOp:
		y, ok := y.(*ssa.UnOp)
		if !ok || x.Op != y.Op || x.Block() != y.Block() || !sameExpr(x.X, y.X, depth-1) {
			return false
		}
		if x.Op == token.MUL { // no write between the two loads
			in := false
			for _, i := range x.Block().Instrs {
				if i == x || i == y {
					if in {
						return true
					}
					in = true
					continue
				}
				if in {
					switch i := i.(type) {
					case *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go:
						return false
					case *ssa.Call:
						if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
							return false
						}
					}
				}
			}
		}
		return true
	case *ssa.FieldAddr:
		y, ok := y.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, depth-1)
	case *ssa.Field:
		y, ok := y.(*ssa.Field)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, depth-1)
	}
	return false
}

// deadLeaf reports whether field f of a struct that is stored whole into alloc by st is overwritten, or
// known to be nil, on every path before it is copied or passed on; pre lists the loads of the field that
// may still see the copied value.
func deadLeaf(st *ssa.Store, al *ssa.Alloc, f int) (dead bool, pre []*ssa.UnOp) {
	isField := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && fa.X == al && fa.Field == f
	}
	// memory may already have escaped before st: then any call could observe
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == al && r.Block().Dominates(st.Block()) {
				return false, nil
			}
		default:
			if r.Block() != st.Block() && r.Block().Dominates(st.Block()) {
				return false, nil
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	gone := false
	var walk func(b *ssa.BasicBlock, start int) bool
	walk = func(b *ssa.BasicBlock, start int) bool {
		for _, in := range b.Instrs[start:] {
			switch i := in.(type) {
			case *ssa.FieldAddr:
				if isField(i) {
					for _, r := range *i.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr != i {
								return false
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return false
						}
					}
				}
				if i.X == al {
					continue
				}
			case *ssa.Store:
				if i.Val == al {
					return false
				}
				if isField(i.Addr) || i.Addr == al {
					gone = true
					return true
				}
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok && fa.X == al {
					continue
				}
			case *ssa.UnOp:
				if isField(i.X) {
					pre = append(pre, i)
					continue
				}
				if fa, ok := i.X.(*ssa.FieldAddr); ok && fa.X == al {
					continue
				}
			case *ssa.DebugRef:
				continue
			case *ssa.If:
				// the branch on which the field is nil
				bo, ok := i.Cond.(*ssa.BinOp)
				if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || bo.Block() != b {
					break
				}
				x, y := bo.X, bo.Y
				if _, ok := x.(*ssa.Const); ok {
					x, y = y, x
				}
				ld, ok := x.(*ssa.UnOp)
				c, ok2 := y.(*ssa.Const)
				if !ok || !ok2 || !c.IsNil() || !isField(ld.X) || ld.Block() != b {
					break
				}
				gone = true
				nilEdge := 0
				if bo.Op == token.NEQ {
					nilEdge = 1
				}
				s := b.Succs[1-nilEdge]
				if !seen[s] {
					seen[s] = true
					return walk(s, 0)
				}
				return true
			}
			var ops [16]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op == al {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !walk(s, 0) {
					return false
				}
			}
		}
		return true
	}
	idx := 0
	for i, in := range st.Block().Instrs {
		if in == st {
			idx = i
		}
	}
	return walk(st.Block(), idx+1) && gone, pre
}

func (a *PTA) bindCall(ctx int, ci ssa.CallInstruction, callee *ssa.Function, args []func(string) *Node, argT []types.Type, res ssa.Value) {
	nctx := a.push(ctx, ci)
	for i, prm := range callee.Params {
		if i >= len(args) || args[i] == nil {
			continue
		}
		for _, l := range a.leaves(prm.Type()) {
			if n := args[i](l.path); n != nil {
				a.edge(n, a.val(nctx, prm, l.path))
			}
		}
	}
	a.reach(nctx, callee)
	if res != nil {
		for _, l := range a.leaves(res.Type()) {
			a.edge(a.retNode(nctx, callee, l.path), a.val(ctx, res, l.path))
		}
	}
}

func (a *PTA) call(ctx int, fn *ssa.Function, ci ssa.CallInstruction, c *ssa.CallCommon, res ssa.Value) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(ctx, fn, ci, c, b, res)
		return
	}
	args := make([]func(string) *Node, 0, len(c.Args)+1)
	var argT []types.Type
	if c.IsInvoke() {
		args = append(args, nil)
		argT = append(argT, c.Value.Type())
	}
	for _, x := range c.Args {
		args = append(args, a.vf(ctx, x, ""))
		argT = append(argT, x.Type())
	}
	if c.IsInvoke() {
		recv := a.val(ctx, c.Value, "")
		seen := map[*Obj]bool{}
		a.on(recv, func(l Loc) {
			if seen[l.o] {
				return
			}
			seen[l.o] = true
			if !l.o.box {
				a.opaqueCall(ctx, fn, ci, "dynamic method "+c.Method.Name()+" of an external value", "", c.Args, res)
				return
			}
			if nm := types.Unalias(l.o.typ); nm == nil {
				return
			}
			m := a.p.SSA.LookupMethod(l.o.typ, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				return
			}
			as := append([]func(string) *Node{}, args...)
			as[0] = func(p string) *Node { return a.cell(l.o, l.path+p) }
			a.invokeFn(ctx, fn, ci, m, as, argT, c.Args, res)
		})
		return
	}
	if callee := c.StaticCallee(); callee != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			nctx := a.push(ctx, ci)
			for i, b := range mc.Bindings {
				a.copyVal(b.Type(), a.vf(ctx, b, ""), a.vf(nctx, callee.FreeVars[i], ""))
			}
		}
		a.invokeFn(ctx, fn, ci, callee, args, argT, c.Args, res)
		return
	}
	// function value
	a.on(a.val(ctx, c.Value, ""), func(l Loc) {
		if l.o.fn == nil {
			a.opaqueCall(ctx, fn, ci, "external function value", "", c.Args, res)
			return
		}
		a.callObj(ctx, fn, ci, l.o, args, argT, c.Args, res)
	})
}

func (a *PTA) callObj(ctx int, fn *ssa.Function, ci ssa.CallInstruction, o *Obj, args []func(string) *Node, argT []types.Type, raw []ssa.Value, res ssa.Value) {
	nctx := a.push(ctx, ci)
	for i, b := range o.bindings {
		a.copyVal(b.Type(), a.vf(o.bctx, b, ""), a.vf(nctx, o.fn.FreeVars[i], ""))
	}
	a.invokeFn(ctx, fn, ci, o.fn, args, argT, raw, res)
}

func (a *PTA) invokeFn(ctx int, fn *ssa.Function, ci ssa.CallInstruction, callee *ssa.Function, args []func(string) *Node, argT []types.Type, raw []ssa.Value, res ssa.Value) {
	pk := fnPkgPath(callee)
	name := callee.String()
	// models
	switch {
	case isOnceDo(callee):
		if n := args[1](""); n != nil {
			a.on(n, func(l Loc) {
				if l.o.fn != nil {
					a.callObj(ctx, fn, ci, l.o, nil, nil, nil, nil)
				}
			})
		}
		return
	case name == "sort.Slice" || name == "sort.SliceStable":
		if n := args[0](""); n != nil {
			tgt := a.val2("sort"+fmt.Sprintf("%p", ci), ctx, fn, "")
			a.on(n, func(l Loc) {
				if l.o.box {
					a.edge(a.cell(l.o, l.path), tgt)
				}
			})
			a.effect(ctx, fn, ci, "sort", tgt, "[]")
		}
		if n := args[1](""); n != nil {
			a.on(n, func(l Loc) {
				if l.o.fn != nil {
					a.callObj(ctx, fn, ci, l.o, nil, nil, nil, nil)
				}
			})
		}
		return
	}
	if a.analysable(callee) {
		a.bindCall(ctx, ci, callee, args, argT, res)
		return
	}
	// callbacks passed to opaque functions run
	for i, t := range argT {
		if args[i] == nil {
			continue
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			if n := args[i](""); n != nil {
				a.on(n, func(l Loc) {
					if l.o.fn != nil {
						a.callObj(ctx, fn, ci, l.o, nil, nil, nil, nil)
					}
				})
			}
		}
	}
	a.opaqueCall(ctx, fn, ci, name, pk, raw, res)
}

// functions outside the analysed packages that write through an argument: name to argument indices
var externalWrites = map[string][]int{
	"(*encoding/base64.Encoding).Encode": {1},
	"(*encoding/base64.Encoding).Decode": {1},
	"encoding/hex.Encode":                {0},
	"encoding/hex.Decode":                {0},
	"(*encoding/gob.Decoder).Decode":     {1},
	"(*os.File).Read":                    {1},
	"(*os.File).ReadAt":                  {1},
	"io.ReadFull":                        {1},
	"io.ReadAtLeast":                     {1},
	"encoding/binary.Read":               {2},
	"crypto/rand.Read":                   {0},
	"math/rand.Read":                     {0},
}

func (a *PTA) opaqueCall(ctx int, fn *ssa.Function, ci ssa.CallInstruction, name, pk string, raw []ssa.Value, res ssa.Value) {
	key := fmt.Sprintf("%d|%p|%s", ctx, ci, name)
	if a.effSeen[key] {
		return
	}
	a.effSeen[key] = true
	a.opaque[name] = true
	if idx, ok := externalWrites[name]; ok {
		for _, i := range idx {
			if i < len(raw) {
				a.effect(ctx, fn, ci, "call of "+name, a.val(ctx, raw[i], ""), "[]")
			}
		}
	} else if !readonlyPkgs[pk] {
		for _, x := range raw {
			if isPtrLike(x.Type()) {
				if _, ok := x.Type().Underlying().(*types.Interface); !ok {
					if _, ok := x.Type().Underlying().(*types.Signature); !ok {
						a.effect(ctx, fn, ci, "unknown code in "+name, a.val(ctx, x, ""), "[]")
					}
				}
			}
		}
	}
	if res == nil {
		return
	}
	for _, l := range a.leaves(res.Type()) {
		dst := a.val(ctx, res, l.path)
		if _, ok := l.typ.Underlying().(*types.Signature); ok {
			continue
		}
		for _, nl := range a.synth(fmt.Sprintf("ext:%s|%d|%p", name, ctx, ci), l.path, l.typ, 0, false) {
			a.addLoc(dst, nl)
		}
		if pk == "reflect" || pk == "unsafe" || strings.HasPrefix(pk, "internal/") {
			deep := a.val2(fmt.Sprintf("deep%p", ci), ctx, fn, "")
			for _, x := range raw {
				for _, xl := range a.leaves(x.Type()) {
					if n := a.val(ctx, x, xl.path); n != nil {
						a.edge(n, deep)
					}
				}
			}
			a.on(deep, func(l Loc) {
				if l.o.fn != nil || l.o.depth > 4 {
					return
				}
				t := typeAt(l.o.typ, l.path)
				for _, s := range a.leaves(t) {
					a.edge(a.cell(l.o, l.path+s.path), deep)
				}
				if t != nil {
					if ar, ok := t.Underlying().(*types.Array); ok {
						_ = ar
					}
				}
			})
			a.edge(deep, dst)
		}
	}
}

func (a *PTA) builtin(ctx int, fn *ssa.Function, ci ssa.CallInstruction, c *ssa.CallCommon, b *ssa.Builtin, res ssa.Value) {
	switch b.Name() {
	case "append":
		t := c.Args[0].Type()
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return
		}
		x := a.val(ctx, c.Args[0], "")
		a.cur = a.ctxEntry[ctx]
		fresh := a.obj(fmt.Sprintf("A|%d|%p", ctx, ci), blockOf(t), "append "+fnName(fn)+" "+a.p.where(instrPos(ci)))
		if res != nil {
			dst := a.val(ctx, res, "")
			a.addLoc(dst, Loc{o: fresh})
			if x != nil {
				a.on(x, func(l Loc) {
					if !l.capped || len(c.Args) < 2 {
						a.addLoc(dst, Loc{o: l.o, path: l.path})
					} else if localBuffer(c.Args[1]) && !atLeastOne(c.Args[1]) {
						a.addLoc(dst, l) // append of nothing returns the slice itself
					}
				})
			}
		}
		if x != nil {
			a.load(sl.Elem(), x, "[]", func(p string) *Node { return a.cell(fresh, "[]"+p) })
			a.effect(ctx, fn, ci, "append", x, "[]")
		}
		if len(c.Args) > 1 {
			if _, isSlice := c.Args[1].Type().Underlying().(*types.Slice); isSlice {
				y := a.val(ctx, c.Args[1], "")
				if y != nil {
					a.load(sl.Elem(), y, "[]", func(p string) *Node { return a.cell(fresh, "[]"+p) })
					if x != nil {
						lv := a.leaves(sl.Elem())
						if len(lv) > 0 {
							a.on(x, func(l Loc) {
								if l.capped {
									return
								}
								a.load(sl.Elem(), y, "[]", func(p string) *Node { return a.cell(l.o, l.path+"[]"+p) })
							})
						}
					}
				}
			}
		}
	case "copy":
		x := a.val(ctx, c.Args[0], "")
		a.effect(ctx, fn, ci, "copy", x, "[]")
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && x != nil {
			if _, isSlice := c.Args[1].Type().Underlying().(*types.Slice); isSlice {
				y := a.val(ctx, c.Args[1], "")
				if y != nil && len(a.leaves(sl.Elem())) > 0 {
					a.on(x, func(l Loc) {
						a.load(sl.Elem(), y, "[]", func(p string) *Node { return a.cell(l.o, l.path+"[]"+p) })
					})
				}
			}
		}
	case "delete":
		a.effect(ctx, fn, ci, "delete", a.val(ctx, c.Args[0], ""), "{v}")
	case "clear":
		a.effect(ctx, fn, ci, "clear", a.val(ctx, c.Args[0], ""), "[]")
	}
}

// ---- plans ----

// Plan entry: call fn with synthetic or given arguments.
type planArg struct {
	label     string // synthetic root
	protected bool
	from      func(path string) *Node // or an existing value
}

type planVal struct{ node func(path string) *Node }

func (a *PTA) enter(tag string, fn *ssa.Function, args []planArg) planVal {
	a.entries = append(a.entries, tag)
	id := a.ctx(len(a.entries), nil)
	for i, prm := range fn.Params {
		if i >= len(args) {
			break
		}
		for _, l := range a.leaves(prm.Type()) {
			dst := a.val(id, prm, l.path)
			if args[i].from != nil {
				if n := args[i].from(l.path); n != nil {
					a.edge(n, dst)
				}
				continue
			}
			for _, nl := range a.synth(args[i].label, describe(prm.Type(), l.path), l.typ, 0, args[i].protected) {
				a.addLoc(dst, nl)
			}
		}
	}
	a.reach(id, fn)
	return planVal{func(path string) *Node { return a.val2("ret", id, fn, path) }}
}

type Hit struct {
	eff    *Effect
	loc    Loc
	where  string
	detail string
	fn     *ssa.Function // innermost repository function on the call path
}

// inOnce reports whether fn is (nested in) a literal passed to sync.Once.Do.
func inOnce(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Parent() == nil {
			return false
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok || mc.Fn != f {
					continue
				}
				for _, r := range *mc.Referrers() {
					if call, ok := r.(ssa.CallInstruction); ok {
						if cal := call.Common().StaticCallee(); cal != nil && isOnceDo(cal) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// hits evaluates the recorded effects against a filter on written locations.
func (a *PTA) hits(filter func(e *Effect, l Loc) bool) (hits []Hit, sites int) {
	seen := map[string]bool{}
	siteSet := map[ssa.Instruction]bool{}
	for _, e := range a.effects {
		siteSet[e.instr] = true
		for _, l := range e.target.order {
			if l.o.fn != nil {
				continue
			}
			if e.kind == "append" && l.capped {
				continue
			}
			ll := Loc{o: l.o, path: l.path + e.suffix}
			if l.o.root == "" {
				lab := a.prot[l.o.entry]
				if lab == "" || a.prot[a.ctxEntry[e.ctx]] == lab {
					continue
				}
				o := *l.o
				o.root = lab + " "
				o.apath = types.TypeString(o.typ, func(*types.Package) string { return "" })
				l.o, ll.o = &o, &o
			}
			if !filter(e, ll) {
				continue
			}
			key := fmt.Sprintf("%p|%s|%s", e.instr, l.o.root, describe(l.o.typ, ll.path))
			if seen[key] {
				continue
			}
			seen[key] = true
			rf, rpos := e.fn, instrPos(e.instr)
			for i := len(a.ctxCall[e.ctx]) - 1; i >= 0 && fnPkgPath(rf) != fontPath && fnPkgPath(rf) != cmdPath; i-- {
				rf, rpos = a.ctxCall[e.ctx][i].Parent(), a.ctxCall[e.ctx][i].Pos()
			}
			h := Hit{eff: e, loc: ll, where: a.p.where(rpos), detail: a.chain(e), fn: rf}
			hk := fmt.Sprintf("%s|%s|%s|%s", h.where, fnName(rf), l.o, describe(l.o.typ, ll.path))
			if seen[hk] {
				continue
			}
			seen[hk] = true
			hits = append(hits, h)
		}
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].where < hits[j].where })
	return hits, len(siteSet)
}

func (a *PTA) chain(e *Effect) string {
	var parts []string
	if n := a.ctxEntry[e.ctx]; n > 0 {
		parts = append(parts, a.entries[n-1])
	}
	for _, c := range a.ctxCall[e.ctx] {
		parts = append(parts, fnName(c.Parent())+" ("+a.p.where(c.Pos())+")")
	}
	parts = append(parts, fnName(e.fn)+" ("+a.p.where(instrPos(e.instr))+")")
	return strings.Join(parts, " -> ")
}

// atLeastOne: the variadic slice of an append with explicit elements.
func atLeastOne(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return false
	}
	pt, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	ar, ok := pt.Elem().Underlying().(*types.Array)
	return ok && ar.Len() > 0
}
