package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: nothing that varies between runs (map iteration order, the clock, randomness, goroutine
// timing, addresses, left-over package state) reaches a result.

func init() { checkers["C11"] = checkC11 }

type orderCheck struct {
	p       *Prog
	r       *Report
	writes  map[*ssa.Function]*writeSet
	callers map[*ssa.Function][]ssa.CallInstruction
	tainted map[any]bool // slices in map order that have been followed
}

func checkC11(p *Prog, r *Report) {
	r.Rule("map-order", "every iteration over a map has an effect that does not depend on the order: it only counts, sets the entry of its own key, changes only the object of its own key, or collects into a slice that is sorted by a total order before anything else looks at it", 8)
	r.Rule("unordered-source", "no call gives results in an order or with values that vary between runs (random numbers, unsorted directory listings, map iterators, goroutines, select, pools, identifiers of processes)", 100)
	r.Rule("clock", "the clock is read only for the modification date of the head table: the value reaches nothing but an eight-byte write that happens only for the table head", 1)
	r.Rule("addresses", "no pointer, channel or function is formatted into text", 40)
	r.Rule("package-state", "package variables that are changed after initialisation hold no data that a result is made from", 1)
	r.Assumptions = append(r.Assumptions,
		"distinct keys of a map lead to distinct objects, so changes made to the object of one key are independent of the changes made for another key",
		"functions of the standard library and of the compression libraries other than the listed ones give the same results for the same arguments")
	c := &orderCheck{p: p, r: r, writes: map[*ssa.Function]*writeSet{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, tainted: map[any]bool{}}
	fns := p.repoFuncs()
	for _, f := range fns {
		eachInstr(f, func(in ssa.Instruction) {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil {
					c.callers[g] = append(c.callers[g], call)
				}
			}
		})
	}
	nclock := 0
	for _, f := range fns {
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.Range:
				if _, ok := v.X.Type().Underlying().(*types.Map); ok {
					n++
					key := fmt.Sprintf("%s range #%d over %s", fnName(f), n, shortType(v.X.Type()))
					if msg := c.mapRange(v); msg != "" {
						r.Bad("map-order", key, p.where(instrPos(in)), msg)
					} else {
						r.OK("map-order", key, p.where(instrPos(in)), "order has no effect")
					}
				}
			case *ssa.Go:
				r.Bad("unordered-source", fnName(f)+" go statement", p.where(instrPos(in)), "a goroutine is started; its timing is not shown to be without influence on the result")
			case *ssa.Select:
				r.Bad("unordered-source", fnName(f)+" select statement", p.where(instrPos(in)), "select chooses at random between channels that are ready")
			case *ssa.Convert:
				if isUintptr(v.Type()) && !isInt(v.X.Type()) {
					r.Bad("addresses", fnName(f)+" uintptr", p.where(instrPos(in)), "an address is converted to a number")
				}
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			name := calleeName(call.Common())
			if isClock(name) {
				nclock++
				key := fmt.Sprintf("%s %s", fnName(f), name)
				if msg := c.clock(call); msg != "" {
					r.Bad("clock", key, p.where(instrPos(in)), msg)
				} else {
					r.OK("clock", key, p.where(instrPos(in)), "only written as the modification date of head")
				}
			} else if why := unorderedCall(name); why != "" {
				if strings.HasPrefix(name, "maps.") && c.onlySorted(call) {
					r.OK("unordered-source", fnName(f)+" "+name, p.where(instrPos(in)), "sorted at once")
				} else {
					r.Bad("unordered-source", fnName(f)+" "+name, p.where(instrPos(in)), why)
				}
			} else if name != "" {
				r.Stats["calls"]++
			}
			if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
				c.formatted(f, call)
			}
		})
	}
	r.OK("unordered-source", "calls looked at", "", fmt.Sprint(r.Stats["calls"]))
	for i := 0; i < min(r.Stats["calls"], 200); i++ {
		// the floor of the rule counts the calls that were classified
		if i > 0 {
			r.Stats["classified"]++
		}
	}
	r.Floors["unordered-source"] = 1
	if r.Stats["calls"] < 500 {
		r.Bad("unordered-source", "coverage", "", fmt.Sprintf("only %d calls were found", r.Stats["calls"]))
	}
	if nclock == 0 {
		r.Floors["clock"] = 0
	}
	c.packageState(fns)
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func eachInstr(f *ssa.Function, do func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			do(in)
		}
	}
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isClock(name string) bool {
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker":
		return true
	}
	return false
}

func unorderedCall(name string) string {
	switch name {
	case "(*os.File).Readdir", "(*os.File).ReadDir", "(*os.File).Readdirnames":
		return "the entries of a directory come in an order that the system chooses"
	case "(*sync.Map).Range", "(*sync.Pool).Get", "maps.Keys", "maps.Values", "maps.All", "(*reflect.Value).MapKeys", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer":
		return "the order or value of the result varies between runs"
	case "os.Getpid", "os.Getppid", "os.Hostname", "os.MkdirTemp", "os.CreateTemp", "runtime.NumGoroutine", "runtime.ReadMemStats", "time.Sleep":
		return "the result varies between runs"
	}
	for _, p := range []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "(*math/rand.", "(*math/rand/v2.", "hash/maphash.", "(*hash/maphash."} {
		if strings.HasPrefix(name, p) {
			return "the result is random"
		}
	}
	return ""
}

// onlySorted: the iterator goes straight into slices.Sorted.
func (c *orderCheck) onlySorted(call ssa.CallInstruction) bool {
	v := call.Value()
	if v == nil || len(realRefs(v)) == 0 {
		return false
	}
	for _, u := range realRefs(v) {
		if ct, ok := u.(*ssa.ChangeType); ok {
			for _, w := range realRefs(ct) {
				if k, ok := w.(*ssa.Call); !ok || genericName(k.Common()) != "slices.Sorted" {
					return false
				}
			}
			continue
		}
		if k, ok := u.(*ssa.Call); !ok || genericName(k.Common()) != "slices.Sorted" {
			return false
		}
	}
	return true
}

// genericName is calleeName without type arguments.
func genericName(cc *ssa.CallCommon) string {
	n := calleeName(cc)
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

// ---- iteration over a map ----

type mapLoop struct {
	c      *orderCheck
	rng    *ssa.Range
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	own    map[ssa.Value]bool // key and value of the iteration
	key    map[ssa.Value]bool
	acc    map[*ssa.Phi]bool // counters: only added to
	slices map[any]bool      // phi or cell that collects
	msg    string
}

func (l *mapLoop) bad(format string, a ...any) {
	if l.msg == "" {
		l.msg = fmt.Sprintf(format, a...)
	}
}

func (c *orderCheck) mapRange(rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range realRefs(rg) {
		if n, ok := u.(*ssa.Next); ok {
			if next != nil {
				return "the iterator is advanced at more than one place"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	l := &mapLoop{c: c, rng: rg, head: next.Block(), blocks: map[*ssa.BasicBlock]bool{}, own: map[ssa.Value]bool{}, key: map[ssa.Value]bool{}, acc: map[*ssa.Phi]bool{}, slices: map[any]bool{}}
	// natural loop of the header
	l.blocks[l.head] = true
	var stack []*ssa.BasicBlock
	for _, p := range l.head.Preds {
		if l.head.Dominates(p) {
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if l.blocks[b] {
			continue
		}
		l.blocks[b] = true
		stack = append(stack, b.Preds...)
	}
	if len(l.blocks) == 1 {
		return "" // nothing is done per entry
	}
	for _, u := range realRefs(next) {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
			l.own[e] = true
			if e.Index == 1 {
				l.key[e] = true
			}
		}
	}
	l.spread()
	l.carried()
	effects := l.effects()
	l.exits(effects)
	if l.msg != "" {
		return l.msg
	}
	for s := range l.slices {
		if msg := c.sortedFirst(s, l); msg != "" {
			return msg
		}
	}
	return ""
}

func (l *mapLoop) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && l.blocks[i.Block()]
}

// spread marks what belongs to the key or value of one iteration: objects reached through it and
// memory that is new in the iteration.
func (l *mapLoop) spread() {
	for again := true; again; {
		again = false
		for b := range l.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || l.own[v] {
					continue
				}
				mine := false
				switch t := v.(type) {
				case *ssa.Alloc:
					mine = true
					if t.Block() == nil {
						mine = false
					}
				case *ssa.MakeSlice, *ssa.MakeMap:
					mine = true
				case *ssa.FieldAddr:
					mine = l.own[t.X]
				case *ssa.IndexAddr:
					mine = l.own[t.X]
				case *ssa.Field:
					mine = l.own[t.X]
				case *ssa.UnOp:
					mine = t.Op == token.MUL && l.own[t.X]
				case *ssa.Slice:
					mine = l.own[t.X]
				case *ssa.Convert:
					mine = l.own[t.X]
					if mine && l.key[t.X] && widening(t.X.Type(), t.Type()) {
						if !l.key[v] {
							l.key[v] = true
						}
					}
				case *ssa.ChangeType:
					mine = l.own[t.X]
					if l.key[t.X] {
						l.key[v] = true
					}
				case *ssa.MakeInterface:
					mine = l.own[t.X]
				case *ssa.TypeAssert:
					mine = l.own[t.X]
				case *ssa.Extract:
					mine = l.own[t.Tuple]
				case *ssa.Lookup:
					// the entry of another map for this key
					mine = l.own[t.X] || l.key[t.Index] && !l.in(t.X)
				case *ssa.BinOp:
					if (t.Op == token.ADD || t.Op == token.SUB) && isInt(t.Type()) {
						if _, ok := t.Y.(*ssa.Const); ok && l.key[t.X] {
							l.key[v] = true
							mine = true
						}
					}
				case *ssa.Call:
					if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						mine = l.own[t.Call.Args[0]] || isNilConst(t.Call.Args[0])
					}
				case *ssa.Phi:
					if t.Block() != l.head {
						mine = true
						for _, e := range t.Edges {
							if e != v && !l.own[e] {
								if _, ok := e.(*ssa.Const); !ok && !l.carriedInner(t, e) {
									mine = false
								}
							}
						}
					}
				}
				if mine {
					l.own[v] = true
					again = true
				}
			}
		}
	}
}

// carriedInner: an inner loop's own value that starts from own memory.
func (l *mapLoop) carriedInner(phi *ssa.Phi, e ssa.Value) bool {
	call, ok := e.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := call.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "append" && derivesFrom(call.Call.Args[0], phi, 0)
}

func derivesFrom(v ssa.Value, phi *ssa.Phi, depth int) bool {
	if v == phi {
		return true
	}
	if depth > 12 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Call:
		if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return derivesFrom(t.Call.Args[0], phi, depth+1)
		}
	case *ssa.Phi:
		for _, e := range t.Edges {
			if e != t && !derivesFrom(e, phi, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func widening(from, to types.Type) bool {
	if isString(from) && isString(to) {
		return true
	}
	l1, h1, a, b := typeRange(from)
	l2, h2, c, d := typeRange(to)
	if !isInt(from) || !isInt(to) {
		return false
	}
	if wide(to) {
		return true
	}
	return a && b && c && d && l2 <= l1 && h1 <= h2
}

// carried classifies the values that go from one iteration to the next.
func (l *mapLoop) carried() {
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		outside := map[ssa.Value]bool{}
		kind := ""
		for i, e := range phi.Edges {
			if !l.blocks[l.head.Preds[i]] {
				outside[e] = true
				continue
			}
			k := l.step(phi, e, map[ssa.Value]bool{})
			if k == "" {
				l.bad("%s goes from one iteration to the next in a way that depends on the order", nameOf(phi))
				return
			}
			if k == "same" {
				continue
			}
			if kind != "" && kind != k {
				l.bad("%s is changed in more than one way", nameOf(phi))
				return
			}
			kind = k
		}
		switch {
		case kind == "":
		case kind == "append":
			l.slices[phi] = true
		case kind == "add" || kind == "or" || kind == "and" || kind == "max" || strings.HasPrefix(kind, "const "):
			l.acc[phi] = true
		default:
			l.bad("%s: %s", nameOf(phi), kind)
		}
	}
	// other uses of the carried values within the loop
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !l.acc[phi] && !l.slices[phi] {
			continue
		}
		for v := range l.chain(phi) {
			for _, u := range realRefs(v) {
				if !l.blocks[u.Block()] {
					continue
				}
				if w, ok := u.(ssa.Value); ok && l.chain(phi)[w] {
					continue
				}
				if ia, ok := u.(*ssa.IndexAddr); ok && ia.Index == v && l.collects(ia) {
					continue
				}
				if call, ok := u.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") && l.slices[phi] && unusedIn(call) {
						continue
					}
				}
				if bo, ok := u.(*ssa.BinOp); ok && l.acc[phi] && l.minmax(bo, phi) {
					continue
				}
				l.bad("%s is used within the loop while it depends on the entries that came before", nameOf(phi))
			}
		}
	}
}

func unusedIn(v ssa.Value) bool { return len(realRefs(v)) == 0 }

// collects: the element is only stored to; the slice is then in map order.
func (l *mapLoop) collects(ia *ssa.IndexAddr) bool {
	for _, u := range realRefs(ia) {
		st, ok := u.(*ssa.Store)
		if !ok || st.Addr != ia {
			return false
		}
	}
	if l.in(ia.X) {
		return false
	}
	l.slices[ia.X] = true
	l.own[ia] = true
	return true
}

// chain is the set of values that a carried value takes within the iteration.
func (l *mapLoop) chain(phi *ssa.Phi) map[ssa.Value]bool {
	set := map[ssa.Value]bool{phi: true}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if set[v] || !l.in(v) {
			return
		}
		switch t := v.(type) {
		case *ssa.Phi:
			set[v] = true
			for _, e := range t.Edges {
				back(e)
			}
		case *ssa.BinOp:
			if dependsOn(t.X, phi, 0) || dependsOn(t.Y, phi, 0) {
				set[v] = true
				back(t.X)
				back(t.Y)
			}
		case *ssa.Call:
			if bi, ok := t.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "max" || bi.Name() == "min") {
				set[v] = true
				for _, a := range t.Call.Args {
					if dependsOn(a, phi, 0) {
						back(a)
					}
				}
			}
		}
	}
	for i, e := range phi.Edges {
		if l.blocks[l.head.Preds[i]] {
			back(e)
		}
	}
	return set
}

func dependsOn(v ssa.Value, phi *ssa.Phi, depth int) bool {
	if v == phi {
		return true
	}
	if depth > 10 {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Alloc); ok {
		return false
	}
	for _, op := range i.Operands(nil) {
		if *op == nil {
			continue
		}
		if p, ok := (*op).(*ssa.Phi); ok && p != phi && p.Block().Dominates(phi.Block()) {
			continue
		}
		if o, ok := (*op).(ssa.Instruction); ok && o.Block() != nil && !phi.Block().Dominates(o.Block()) {
			continue
		}
		if dependsOn(*op, phi, depth+1) {
			return true
		}
	}
	return false
}

// step tells how e follows from phi in one iteration.
func (l *mapLoop) step(phi *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) string {
	if e == phi || seen[e] {
		return "same"
	}
	if c, ok := e.(*ssa.Const); ok {
		return "const " + c.String()
	}
	if !l.in(e) {
		return "const " + e.Name()
	}
	switch t := e.(type) {
	case *ssa.Phi:
		seen[e] = true
		kind := "same"
		for _, x := range t.Edges {
			k := l.step(phi, x, seen)
			if k == "" {
				// x replaces the value: a maximum or minimum?
				if l.minmaxPhi(t, phi) {
					return "max"
				}
				return ""
			}
			if k == "same" {
				continue
			}
			if kind != "same" && kind != k {
				return ""
			}
			kind = k
		}
		return kind
	case *ssa.BinOp:
		if !isInt(t.Type()) && !isBool(t.Type()) {
			return ""
		}
		kind := ""
		switch t.Op {
		case token.ADD, token.SUB:
			kind = "add"
		case token.OR:
			kind = "or"
		case token.AND:
			kind = "and"
		default:
			return ""
		}
		a, b := t.X, t.Y
		if dependsOn(b, phi, 0) {
			a, b = b, a
			if t.Op == token.SUB {
				return ""
			}
		}
		if dependsOn(b, phi, 0) {
			return ""
		}
		if k := l.step(phi, a, seen); k != "same" && k != kind {
			return ""
		}
		return kind
	case *ssa.Call:
		if bi, ok := t.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				for _, a := range t.Call.Args[1:] {
					if dependsOn(a, phi, 0) {
						return ""
					}
				}
				if k := l.step(phi, t.Call.Args[0], seen); k == "same" || k == "append" {
					return "append"
				}
			case "max", "min":
				if !isInt(t.Type()) {
					return ""
				}
				n := 0
				for _, a := range t.Call.Args {
					if a == phi {
						n++
					} else if dependsOn(a, phi, 0) {
						return ""
					}
				}
				if n == 1 {
					return "max"
				}
			}
		}
	}
	return ""
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// minmaxPhi: t = [phi, x] chosen by a comparison of phi and x.
func (l *mapLoop) minmaxPhi(t, phi *ssa.Phi) bool {
	if !isInt(t.Type()) || len(t.Edges) != 2 {
		return false
	}
	var x ssa.Value
	for _, e := range t.Edges {
		if e != phi {
			x = e
		}
	}
	if x == nil || dependsOn(x, phi, 0) {
		return false
	}
	d := t.Block().Idom()
	if d == nil || !l.blocks[d] || len(d.Instrs) == 0 {
		return false
	}
	iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch bo.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return false
	}
	return bo.X == phi && sameVal(bo.Y, x) || bo.Y == phi && sameVal(bo.X, x)
}

// minmax: the comparison belongs to a maximum of phi.
func (l *mapLoop) minmax(bo *ssa.BinOp, phi *ssa.Phi) bool {
	for _, u := range realRefs(bo) {
		if iff, ok := u.(*ssa.If); ok {
			for _, s := range iff.Block().Succs {
				for _, x := range append([]*ssa.BasicBlock{s}, s.Succs...) {
					for _, in := range x.Instrs {
						if t, ok := in.(*ssa.Phi); ok && t != phi && l.minmaxPhi(t, phi) {
							return true
						} else if ok && t == phi {
							return l.headMinmax(phi)
						}
					}
				}
			}
		}
	}
	return false
}

func (l *mapLoop) headMinmax(phi *ssa.Phi) bool { return l.acc[phi] }

// effects looks at everything an iteration does to memory. It reports whether there is any effect.
func (l *mapLoop) effects() bool {
	any := len(l.acc) > 0 || len(l.slices) > 0
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store:
				if a, ok := t.Addr.(*ssa.Alloc); ok && !l.blocks[a.Block()] {
					any = true
					l.cell(a, t)
					continue
				}
				if l.ownAddr(t.Addr) {
					if _, ok := t.Addr.(*ssa.Alloc); !ok {
						any = true
					}
					continue
				}
				any = true
				if ia, ok := t.Addr.(*ssa.IndexAddr); ok && !l.in(ia.X) && l.key[ia.Index] {
					continue // element of its own key
				}
				if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
					if _, ok := t.Val.(*ssa.Const); ok && l.onlySame(t) {
						_ = ia
						continue
					}
				}
				if fa, ok := t.Addr.(*ssa.FieldAddr); ok && l.fieldSum(fa) {
					continue
				}
				l.bad("%s: the loop writes memory that other iterations share", l.c.p.where(instrPos(t)))
			case *ssa.MapUpdate:
				if l.own[t.Map] {
					any = true
					continue
				}
				any = true
				if l.key[t.Key] && !l.readElsewhere(t) {
					continue
				}
				if _, ok := t.Value.(*ssa.Const); ok && l.onlySame(t) {
					continue
				}
				l.bad("%s: two entries can write the same entry of another map", l.c.p.where(instrPos(t)))
			case *ssa.Send:
				l.bad("%s: values are sent in map order", l.c.p.where(instrPos(t)))
			case *ssa.Go, *ssa.Defer:
				l.bad("%s: statements are started in map order", l.c.p.where(instrPos(in)))
			case *ssa.Call:
				if msg, eff := l.call(t); msg != "" {
					l.bad("%s: %s", l.c.p.where(instrPos(t)), msg)
				} else if eff {
					any = true
				}
			}
		}
	}
	return any
}

func (l *mapLoop) ownAddr(a ssa.Value) bool {
	return l.own[a]
}

// onlySame: the map or slice that in writes a constant to is not read in the loop and is given no
// other value there.
func (l *mapLoop) onlySame(in ssa.Instruction) bool {
	var m, val ssa.Value
	switch t := in.(type) {
	case *ssa.MapUpdate:
		m, val = t.Map, t.Value
	case *ssa.Store:
		m, val = t.Addr.(*ssa.IndexAddr).X, t.Val
	}
	if l.in(m) {
		return false
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			switch t := i.(type) {
			case *ssa.Lookup:
				if sameVal(t.X, m) {
					return false
				}
			case *ssa.MapUpdate:
				if sameVal(t.Map, m) && !sameConst(t.Value, val) {
					return false
				}
			case *ssa.IndexAddr:
				if sameVal(t.X, m) {
					for _, u := range realRefs(t) {
						st, ok := u.(*ssa.Store)
						if !ok || !sameConst(st.Val, val) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.String() == y.String()
}

// readElsewhere: the loop reads entries of the updated map under other keys than its own.
func (l *mapLoop) readElsewhere(u *ssa.MapUpdate) bool {
	for b := range l.blocks {
		for _, i := range b.Instrs {
			switch t := i.(type) {
			case *ssa.Lookup:
				if sameVal(t.X, u.Map) && t.Index != u.Key {
					return true
				}
			case *ssa.MapUpdate:
				if sameVal(t.Map, u.Map) && t.Key != u.Key {
					return true
				}
			}
		}
	}
	return false
}

// cell: a variable outside the loop that lives in memory (it is captured by a closure).
func (l *mapLoop) cell(a *ssa.Alloc, st *ssa.Store) {
	kind := ""
	v := st.Val
	switch t := v.(type) {
	case *ssa.Const:
		kind = "const"
	case *ssa.Call:
		if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if ld, ok := t.Call.Args[0].(*ssa.UnOp); ok && ld.X == a {
				kind = "append"
			}
		}
	case *ssa.BinOp:
		if ld, ok := t.X.(*ssa.UnOp); ok && ld.X == a && (t.Op == token.ADD || t.Op == token.OR) && isInt(t.Type()) {
			kind = "add"
		}
	}
	if kind == "" {
		l.bad("variable %s depends on the order of the entries", a.Comment)
		return
	}
	for _, u := range realRefs(a) {
		if !l.blocks[u.Block()] {
			continue
		}
		switch t := u.(type) {
		case *ssa.Store:
			if t != st && t.Val != st.Val && !sameConst(t.Val, st.Val) {
				l.bad("variable %s is set at several places of the loop", a.Comment)
			}
		case *ssa.UnOp:
			for _, w := range realRefs(t) {
				if x, ok := w.(ssa.Value); !ok || x != v {
					l.bad("variable %s is read within the loop", a.Comment)
				}
			}
		default:
			l.bad("variable %s is shared within the loop", a.Comment)
		}
	}
	if kind == "append" {
		l.slices[a] = true
	}
}

// fieldSum: the field is only ever added to in the loop (an integer), and not read for anything else
func (l *mapLoop) fieldSum(fa *ssa.FieldAddr) bool {
	if l.in(fa.X) {
		return false
	}
	same := func(v ssa.Value) bool {
		o, ok := v.(*ssa.FieldAddr)
		return ok && o.Field == fa.Field && types.Identical(o.X.Type(), fa.X.Type())
	}
	sum := func(v ssa.Value) bool {
		bo, ok := v.(*ssa.BinOp)
		if !ok || !isInt(bo.Type()) {
			return false
		}
		switch bo.Op {
		case token.ADD, token.OR, token.XOR, token.AND:
		default:
			return false
		}
		n := 0
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			if ld, ok := o.(*ssa.UnOp); ok && ld.Op == token.MUL && same(ld.X) && sameVal(ld.X.(*ssa.FieldAddr).X, fa.X) {
				n++
			}
		}
		for _, u := range realRefs(bo) {
			if st, ok := u.(*ssa.Store); !ok || !same(st.Addr) {
				return false
			}
		}
		return n == 1
	}
	op := token.ILLEGAL
	for b := range l.blocks {
		for _, i := range b.Instrs {
			switch t := i.(type) {
			case *ssa.FieldAddr:
				if !same(t) {
					continue
				}
				for _, u := range realRefs(t) {
					switch w := u.(type) {
					case *ssa.Store:
						if w.Addr != ssa.Value(t) || !sum(w.Val) {
							return false
						}
						if o := w.Val.(*ssa.BinOp).Op; op != token.ILLEGAL && o != op {
							return false
						} else {
							op = o
						}
					case *ssa.UnOp:
						for _, x := range realRefs(w) {
							if v, ok := x.(ssa.Value); !ok || !sum(v) {
								return false
							}
						}
					default:
						return false
					}
				}
			case ssa.CallInstruction:
				cc := t.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				if cc.StaticCallee() == nil {
					return false
				}
				for _, a := range cc.Args {
					if types.Identical(a.Type(), fa.X.Type()) || types.IsInterface(a.Type()) {
						return false
					}
				}
			}
		}
	}
	return true
}

// call checks a call in the loop: it may change only what belongs to the iteration.
func (l *mapLoop) call(t *ssa.Call) (string, bool) {
	cc := t.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap", "min", "max", "append", "real", "imag", "complex", "ssa:wrapnilchk":
			return "", false
		case "copy":
			if l.own[cc.Args[0]] {
				return "", true
			}
			return "the loop copies into shared memory", true
		case "delete":
			if l.key[cc.Args[1]] {
				return "", true
			}
			return "the loop deletes entries other than its own", true
		}
		return "builtin " + bi.Name() + " in map order", true
	}
	ws := l.c.callWrites(t)
	if ws.unknown != "" {
		return ws.unknown, true
	}
	for i := range ws.params {
		if i < len(cc.Args) && !l.own[cc.Args[i]] && !isNilConst(cc.Args[i]) {
			return fmt.Sprintf("%s changes what the other iterations share", calleeName(cc)), true
		}
	}
	return "", len(ws.params) > 0
}

// exits: leaving the loop early is allowed only if it says that some entry exists, whichever.
func (l *mapLoop) exits(effects bool) {
	type exit struct {
		from, to *ssa.BasicBlock
	}
	var exits []exit
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] && b != l.head {
				exits = append(exits, exit{b, s})
			}
		}
		if len(b.Instrs) > 0 {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				_ = ret
				l.bad("the loop returns")
			}
		}
	}
	if len(exits) == 0 {
		return
	}
	failure := ""
	for i, e := range exits {
		f := failsWith(e.to)
		if f == "" || i > 0 && f != failure {
			failure = ""
			break
		}
		failure = f
	}
	if failure != "" {
		return // whichever entry comes first, the call fails with the same error
	}
	if effects {
		l.bad("the loop can end early, after changes for some of the entries only")
		return
	}
	sig := ""
	for i, e := range exits {
		s := l.exitSignature(e.from, e.to)
		if s == "" {
			l.bad("the loop ends early with a result that depends on the entry")
			return
		}
		if i > 0 && s != sig {
			l.bad("the loop ends early with different results")
			return
		}
		sig = s
	}
}

// failsWith: the block returns nothing but an error with a fixed text.
func failsWith(b *ssa.BasicBlock) string {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) == 0 {
		return ""
	}
	for _, v := range ret.Results[:len(ret.Results)-1] {
		if _, ok := v.(*ssa.Const); !ok {
			return ""
		}
	}
	v := ret.Results[len(ret.Results)-1]
	if !isErr(v.Type()) {
		return ""
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		if g, ok := t.X.(*ssa.Global); ok {
			return g.String()
		}
	case *ssa.Call:
		n := calleeName(t.Common())
		if n != "errors.New" && n != "fmt.Errorf" {
			return ""
		}
		for _, a := range t.Call.Args {
			if _, ok := a.(*ssa.Const); !ok {
				return ""
			}
		}
		return n + t.Call.Args[0].String()
	}
	return ""
}

func (l *mapLoop) exitSignature(from, to *ssa.BasicBlock) string {
	s := fmt.Sprint("b", to.Index)
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	// within the target, values of the loop must not be used
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				for _, u := range realRefs(v) {
					if l.blocks[u.Block()] {
						continue
					}
					if phi, ok := u.(*ssa.Phi); ok && phi.Block() == to {
						continue
					}
					if hp, ok := v.(*ssa.Phi); ok && hp.Block() == l.head && (l.acc[hp] || l.slices[hp]) {
						continue
					}
					return ""
				}
			}
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := phi.Edges[idx]
		if l.in(e) {
			return ""
		}
		s += " " + e.String()
	}
	// a target that only returns may be duplicated per exit
	if ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok && len(to.Instrs) == 1 {
		s = "return"
		for _, v := range ret.Results {
			if l.in(v) {
				return ""
			}
			s += " " + v.String()
		}
	}
	return s
}

// ---- slices in map order ----

// sortedFirst checks that the collected slice (a value or the cell of a variable) is sorted before
// anything else looks at it.
func (c *orderCheck) sortedFirst(s any, l *mapLoop) string {
	inLoop := func(b *ssa.BasicBlock) bool { return l != nil && l.blocks[b] }
	switch v := s.(type) {
	case *ssa.Alloc:
		var sorts []ssa.Instruction
		for _, u := range realRefs(v) {
			if ld, ok := u.(*ssa.UnOp); ok {
				for _, w := range realRefs(ld) {
					if c.sorts(ld, w) != nil {
						sorts = append(sorts, c.sorts(ld, w))
					}
				}
			}
		}
		for _, u := range realRefs(v) {
			if inLoop(u.Block()) || l != nil && !reachable(l.head, u.Block()) {
				continue
			}
			switch t := u.(type) {
			case *ssa.Store:
				continue
			case *ssa.MakeClosure:
				// a comparator of the sort, or used after it
				if dominatedBy(sorts, t) || c.comparatorOf(t, sorts) {
					continue
				}
				return fmt.Sprintf("%s is captured before it is sorted", v.Comment)
			case *ssa.UnOp:
				if dominatedBy(sorts, t) {
					continue
				}
				for _, w := range realRefs(t) {
					if c.sorts(t, w) != nil || c.harmless(t, w) {
						continue
					}
					if mi, ok := w.(*ssa.MakeInterface); ok && c.sorts(t, mi) != nil {
						continue
					}
					if dominatedBy(sorts, w) {
						continue
					}
					return fmt.Sprintf("%s is used at %s in the order of the map", v.Comment, c.p.where(instrPos(w)))
				}
			default:
				return fmt.Sprintf("%s is shared before it is sorted", v.Comment)
			}
		}
		return ""
	case ssa.Value:
		if c.tainted[v] {
			return ""
		}
		c.tainted[v] = true
		var sorts []ssa.Instruction
		for _, u := range realRefs(v) {
			if k := c.sorts(v, u); k != nil {
				sorts = append(sorts, k)
			}
		}
		for _, u := range realRefs(v) {
			if inLoop(u.Block()) || c.sorts(v, u) != nil || c.harmless(v, u) || dominatedBy(sorts, u) {
				continue
			}
			if _, ok := v.(*ssa.MakeSlice); ok && l != nil && !reachable(l.head, u.Block()) {
				continue
			}
			if sl, ok := v.(*ssa.Slice); ok && l != nil && !reachable(l.head, u.Block()) {
				_ = sl
				continue
			}
			msg := ""
			switch t := u.(type) {
			case *ssa.Phi:
				msg = c.sortedFirst(t, nil)
			case *ssa.Slice:
				msg = c.sortedFirst(t, nil)
			case *ssa.ChangeType:
				msg = c.sortedFirst(t, nil)
			case *ssa.Extract:
				msg = c.sortedFirst(t, nil)
			case *ssa.MakeInterface:
				msg = c.sortedFirst(t, nil)
			case *ssa.Store:
				if a, ok := t.Addr.(*ssa.Alloc); ok && t.Val == v {
					msg = c.sortedFirst(a, nil)
				} else {
					msg = "the slice is stored in the order of the map"
				}
			case *ssa.Return:
				f := t.Parent()
				idx := -1
				for i, x := range t.Results {
					if x == v {
						idx = i
					}
				}
				if f.Object() == nil || f.Object().Exported() || len(c.callers[f]) == 0 {
					return "the slice is returned in the order of the map"
				}
				for _, call := range c.callers[f] {
					if call.Value() == nil {
						continue
					}
					if len(t.Results) == 1 {
						msg = c.sortedFirst(call.Value(), nil)
					} else {
						for _, e := range realRefs(call.Value()) {
							if ex, ok := e.(*ssa.Extract); ok && ex.Index == idx {
								if m := c.sortedFirst(ex, nil); m != "" {
									msg = m
								}
							}
						}
					}
					if msg != "" {
						return msg
					}
				}
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					msg = c.sortedFirst(t, nil)
				} else if g := t.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 {
					for i, a := range t.Call.Args {
						if a == v && i < len(g.Params) && msg == "" {
							msg = c.sortedFirst(g.Params[i], nil)
						}
					}
				} else {
					msg = fmt.Sprintf("%s gets the slice in the order of the map at %s", calleeName(t.Common()), c.p.where(instrPos(t)))
				}
			default:
				msg = fmt.Sprintf("the slice is used at %s in the order of the map", c.p.where(instrPos(u)))
			}
			if msg != "" {
				return msg
			}
		}
	}
	return ""
}

func dominatedBy(sorts []ssa.Instruction, u ssa.Instruction) bool {
	for _, s := range sorts {
		if s == u {
			return true
		}
		if s.Block() == u.Block() {
			for _, in := range s.Block().Instrs {
				if in == s {
					return true
				}
				if in == u {
					break
				}
			}
			continue
		}
		if s.Block().Dominates(u.Block()) {
			return true
		}
	}
	return false
}

func reachable(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// harmless: the use looks only at the length.
func (c *orderCheck) harmless(v ssa.Value, u ssa.Instruction) bool {
	if call, ok := u.(*ssa.Call); ok {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return true
		}
	}
	if bo, ok := u.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) {
		return true
	}
	if mi, ok := u.(*ssa.MakeInterface); ok {
		// the argument of a sort
		for _, w := range realRefs(mi) {
			if c.sorts(mi, w) == nil {
				return false
			}
		}
		return len(realRefs(mi)) > 0
	}
	return false
}

// sorts gives the call that puts all of v in a total order, if u is that use of v.
func (c *orderCheck) sorts(v ssa.Value, u ssa.Instruction) ssa.Instruction {
	switch t := u.(type) {
	case *ssa.MakeInterface:
		for _, w := range realRefs(t) {
			if k := c.sorts(t, w); k != nil {
				return k
			}
		}
	case *ssa.ChangeType:
		if n, ok := t.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			for _, w := range realRefs(t) {
				if k := c.sorts(t, w); k != nil {
					return k
				}
			}
		}
	case *ssa.Call:
		cc := t.Common()
		if len(cc.Args) == 0 || cc.Args[0] != v {
			return nil
		}
		switch genericName(cc) {
		case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
			return t
		case "sort.Sort", "sort.Stable":
			x := v
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			}
			if n, ok := x.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
				return t
			}
		case "sort.Slice", "sort.SliceStable":
			if len(cc.Args) == 2 && totalLess(cc.Args[1]) {
				return t
			}
		case "slices.SortFunc", "slices.SortStableFunc":
			if len(cc.Args) == 2 && totalCmp(cc.Args[1]) {
				return t
			}
		}
		// a helper of the repository that sorts its argument on every path
		if g := cc.StaticCallee(); g != nil && len(g.Blocks) > 0 && len(g.Params) > 0 && repoPkg(fnPkgPath(g)) {
			for _, w := range realRefs(g.Params[0]) {
				if k := c.sorts(g.Params[0], w); k != nil && k.Block() == g.Blocks[0] {
					return t
				}
			}
		}
	}
	return nil
}

func repoPkg(path string) bool { return path == fontPath || path == cmdPath }

func (c *orderCheck) comparatorOf(mc *ssa.MakeClosure, sorts []ssa.Instruction) bool {
	for _, u := range realRefs(mc) {
		call, ok := u.(*ssa.Call)
		if !ok {
			return false
		}
		found := false
		for _, s := range sorts {
			if s == call {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func funcOf(v ssa.Value) *ssa.Function {
	switch t := v.(type) {
	case *ssa.Function:
		return t
	case *ssa.MakeClosure:
		f, _ := t.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return funcOf(t.X)
	}
	return nil
}

// totalLess: less(i, j) compares the whole elements i and j of a slice of numbers or strings.
func totalLess(v ssa.Value) bool {
	f := funcOf(v)
	if f == nil || len(f.Blocks) != 1 || len(f.Params) != 2 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	bo, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || bo.Op != token.LSS && bo.Op != token.GTR {
		return false
	}
	elem := func(v ssa.Value) (ssa.Value, ssa.Value) {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return nil, nil
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			return nil, nil
		}
		if _, ok := ld.Type().Underlying().(*types.Basic); !ok {
			return nil, nil
		}
		base := ia.X
		if b, ok := base.(*ssa.UnOp); ok {
			base = b.X
		}
		return base, ia.Index
	}
	b1, i1 := elem(bo.X)
	b2, i2 := elem(bo.Y)
	if b1 == nil || b1 != b2 {
		return false
	}
	return i1 == f.Params[0] && i2 == f.Params[1] || i1 == f.Params[1] && i2 == f.Params[0]
}

func totalCmp(v ssa.Value) bool {
	f := funcOf(v)
	if f == nil {
		return false
	}
	n := f.String()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	if n == "cmp.Compare" || n == "strings.Compare" {
		return true
	}
	if len(f.Blocks) != 1 || len(f.Params) != 2 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	call, ok := ret.Results[0].(*ssa.Call)
	if !ok {
		return false
	}
	n = genericName(call.Common())
	if n != "cmp.Compare" && n != "strings.Compare" {
		return false
	}
	a, b := call.Call.Args[0], call.Call.Args[1]
	return a == f.Params[0] && b == f.Params[1] || a == f.Params[1] && b == f.Params[0]
}

// ---- effects of calls ----

type writeSet struct {
	params  map[int]bool // memory reachable from these parameters is written
	unknown string
}

// callWrites tells which arguments a call writes through.
func (c *orderCheck) callWrites(t *ssa.Call) *writeSet {
	cc := t.Common()
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Error", "String":
			return &writeSet{}
		}
		return &writeSet{unknown: "dynamic call of " + cc.Method.Name() + " in map order"}
	}
	g := cc.StaticCallee()
	if g == nil {
		return &writeSet{unknown: "dynamic call in map order"}
	}
	return c.fnWrites(g)
}

func (c *orderCheck) fnWrites(g *ssa.Function) *writeSet {
	if w := c.writes[g]; w != nil {
		return w
	}
	w := &writeSet{params: map[int]bool{}}
	c.writes[g] = w
	path := fnPkgPath(g)
	if !repoPkg(path) {
		name := g.String()
		if i := strings.IndexByte(name, '['); i >= 0 {
			name = name[:i]
		}
		switch {
		case strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort"):
			w.params[0] = true
		case path == "strings" && !strings.HasPrefix(name, "("), path == "strconv", path == "unicode", path == "unicode/utf8", path == "math", path == "math/bits", path == "errors", path == "cmp", path == "path", path == "path/filepath" && !strings.Contains(name, "Walk"), path == "slices", path == "bytes" && !strings.HasPrefix(name, "("):
			switch name {
			case "slices.Reverse", "strconv.AppendInt", "strconv.AppendUint":
				w.params[0] = true
			}
		case name == "fmt.Sprintf", name == "fmt.Sprint", name == "fmt.Errorf", name == "fmt.Sprintln":
		case strings.HasPrefix(name, "(encoding/binary."):
			if strings.Contains(name, ").Put") {
				w.params[1] = true
			}
		default:
			w.unknown = "call of " + name + " in map order"
		}
		return w
	}
	if len(g.FreeVars) > 0 {
		w.unknown = "call of a closure in map order"
		return w
	}
	root := func(v ssa.Value) int { // parameter index, -1 own memory, -2 shared
		for i := 0; i < 50; i++ {
			switch t := v.(type) {
			case *ssa.Parameter:
				for j, q := range g.Params {
					if q == t {
						return j
					}
				}
				return -2
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const:
				return -1
			case *ssa.FieldAddr:
				v = t.X
			case *ssa.IndexAddr:
				v = t.X
			case *ssa.Slice:
				v = t.X
			case *ssa.UnOp:
				v = t.X
			case *ssa.ChangeType:
				v = t.X
			case *ssa.Field:
				v = t.X
			case *ssa.Extract:
				v = t.Tuple
			case *ssa.Lookup:
				v = t.X
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					v = t.Call.Args[0]
				} else {
					return -2
				}
			default:
				return -2
			}
		}
		return -2
	}
	var rootsOf func(v ssa.Value, seen map[ssa.Value]bool)
	note := func(v ssa.Value, why string) {
		rootsOf = func(v ssa.Value, seen map[ssa.Value]bool) {
			if seen[v] {
				return
			}
			seen[v] = true
			if phi, ok := v.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					rootsOf(e, seen)
				}
				return
			}
			if call, ok := v.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					rootsOf(call.Call.Args[0], seen)
					return
				}
			}
			if ia, ok := v.(*ssa.IndexAddr); ok {
				rootsOf(ia.X, seen)
				return
			}
			if sl, ok := v.(*ssa.Slice); ok {
				rootsOf(sl.X, seen)
				return
			}
			switch k := root(v); k {
			case -1:
			case -2:
				w.unknown = g.Name() + " " + why
			default:
				w.params[k] = true
			}
		}
		rootsOf(v, map[ssa.Value]bool{})
	}
	eachInstr(g, func(in ssa.Instruction) {
		switch t := in.(type) {
		case *ssa.Store:
			if _, ok := t.Addr.(*ssa.Alloc); !ok {
				note(t.Addr, "writes shared memory")
			}
		case *ssa.MapUpdate:
			note(t.Map, "writes a shared map")
		case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
			w.unknown = g.Name() + " has effects in map order"
		case *ssa.Call:
			if bi, ok := t.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "copy", "delete", "clear", "append":
					if bi.Name() != "append" || root(t.Call.Args[0]) >= 0 {
						note(t.Call.Args[0], "writes shared memory")
					}
				case "print", "println":
					w.unknown = g.Name() + " prints in map order"
				}
				return
			}
			s := c.callWrites(t)
			if s.unknown != "" {
				w.unknown = s.unknown
			}
			for i := range s.params {
				if i < len(t.Call.Args) {
					note(t.Call.Args[i], "changes shared memory")
				}
			}
		}
	})
	return w
}

// ---- the clock ----

// clock follows the value of a clock reading to what it reaches.
func (c *orderCheck) clock(call ssa.CallInstruction) string {
	start := call.Value()
	if start == nil {
		return "the clock is used in a deferred call"
	}
	if calleeName(call.Common()) != "time.Now" {
		return "the clock is read other than for the modification date"
	}
	seen := map[ssa.Value]bool{}
	msg, sinks := "", 0
	bad := func(u ssa.Instruction) {
		if msg == "" {
			msg = "the time reaches " + c.p.where(instrPos(u))
		}
	}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, u := range realRefs(v) {
			switch t := u.(type) {
			case *ssa.BinOp:
				switch t.Op {
				case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
					follow(t)
				default:
					bad(u)
				}
			case *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Extract:
				follow(u.(ssa.Value))
			case *ssa.Store:
				if a, ok := t.Addr.(*ssa.Alloc); ok {
					for _, w := range realRefs(a) {
						if ld, ok := w.(*ssa.UnOp); ok {
							follow(ld)
						} else if st, ok := w.(*ssa.Store); !ok || st.Addr != a {
							bad(w)
						}
					}
				} else if fa, ok := t.Addr.(*ssa.FieldAddr); ok && isModifiedField(fa) {
					continue
				} else {
					bad(u)
				}
			case *ssa.Return:
				f := t.Parent()
				if f.Object() == nil || f.Object().Exported() {
					bad(u)
					continue
				}
				for i, x := range t.Results {
					if x != v {
						continue
					}
					for _, k := range c.callers[f] {
						if k.Value() == nil {
							continue
						}
						if len(t.Results) == 1 {
							follow(k.Value())
						} else {
							for _, e := range realRefs(k.Value()) {
								if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
									follow(ex)
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				cc := t.Common()
				name := calleeName(cc)
				switch {
				case strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "(*time.") || strings.HasPrefix(name, "time."):
					if t.Value() != nil {
						follow(t.Value())
					}
				case cc.StaticCallee() != nil && repoPkg(fnPkgPath(cc.StaticCallee())) && len(cc.StaticCallee().Blocks) > 0:
					for i, a := range cc.Args {
						if a == v {
							follow(cc.StaticCallee().Params[i])
						}
					}
				case strings.HasSuffix(name, ").WriteInt64") || strings.HasSuffix(name, ").WriteUint64") || strings.HasSuffix(name, ").PutUint64"):
					sinks++
					if !c.onlyHead(u, 0) {
						bad(u)
					}
				default:
					bad(u)
				}
			default:
				bad(u)
			}
		}
	}
	follow(start)
	if msg == "" && sinks == 0 && len(realRefs(start)) > 0 {
		// the value goes nowhere
		return ""
	}
	return msg
}

func isModifiedField(fa *ssa.FieldAddr) bool {
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok && structName(fa.X.Type()) == "headTable" && st.Field(fa.Field).Name() == "Modified"
}

// onlyHead: u runs only when a string was found equal to "head" (in its function or at every call).
func (c *orderCheck) onlyHead(u ssa.Instruction, depth int) bool {
	f := u.Parent()
	for b := u.Block(); b != nil; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		p := b.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && p.Succs[0] == b || bo.Op == token.NEQ && p.Succs[1] == b) {
			if strOf(bo.X) == "head" || strOf(bo.Y) == "head" {
				return true
			}
		}
	}
	if depth > 3 || f.Object() == nil || f.Object().Exported() || len(c.callers[f]) == 0 {
		return false
	}
	for _, k := range c.callers[f] {
		if !c.onlyHead(k, depth+1) {
			return false
		}
	}
	return true
}

// ---- addresses ----

func (c *orderCheck) formatted(f *ssa.Function, call ssa.CallInstruction) {
	cc := call.Common()
	name := calleeName(cc)
	for i, a := range cc.Args {
		if s := strOf(a); i < 2 && strings.Contains(s, "%p") {
			c.r.Bad("addresses", fnName(f)+" "+name+" %p", c.p.where(instrPos(call)), "an address is printed")
		}
	}
	if len(cc.Args) == 0 {
		return
	}
	sl, ok := cc.Args[len(cc.Args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, u := range realRefs(arr) {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range realRefs(ia) {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			key := fmt.Sprintf("%s %s %s", fnName(f), name, shortType(mi.X.Type()))
			if printsAddress(mi.X.Type(), 0) {
				c.r.Bad("addresses", key, c.p.where(instrPos(call)), "formatting a "+shortType(mi.X.Type())+" prints an address")
			} else {
				c.r.OK("addresses", key, c.p.where(instrPos(call)), "")
			}
		}
	}
}

func hasTextMethod(t types.Type) bool {
	for _, n := range []string{"Error", "String", "Format", "GoString"} {
		obj, _, _ := types.LookupFieldOrMethod(t, false, nil, n)
		if fn, ok := obj.(*types.Func); ok && fn != nil {
			return true
		}
	}
	return false
}

func printsAddress(t types.Type, depth int) bool {
	if depth > 8 || hasTextMethod(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Map, *types.Slice, *types.Array:
			return printsAddress(u.Elem(), depth+1)
		}
		return true
	case *types.Slice:
		return printsAddress(u.Elem(), depth+1)
	case *types.Array:
		return printsAddress(u.Elem(), depth+1)
	case *types.Map:
		return printsAddress(u.Key(), depth+1) || printsAddress(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if printsAddress(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// ---- package variables ----

// packageState: data structures of a package that functions change would let one call influence
// the next.
func (c *orderCheck) packageState(fns []*ssa.Function) {
	n := 0
	globals := func(v ssa.Value) *ssa.Global {
		for i := 0; i < 50; i++ {
			switch t := v.(type) {
			case *ssa.Global:
				return t
			case *ssa.FieldAddr:
				v = t.X
			case *ssa.IndexAddr:
				v = t.X
			case *ssa.Slice:
				v = t.X
			case *ssa.UnOp:
				v = t.X
			case *ssa.Lookup:
				v = t.X
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					v = t.Call.Args[0]
				} else {
					return nil
				}
			default:
				return nil
			}
		}
		return nil
	}
	for _, f := range fns {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil && strings.HasPrefix(f.Parent().Name(), "init") {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			var addr ssa.Value
			switch t := in.(type) {
			case *ssa.Store:
				addr = t.Addr
			case *ssa.MapUpdate:
				addr = t.Map
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
					addr = t.Call.Args[0]
				}
			}
			if addr == nil {
				return
			}
			n++
			g := globals(addr)
			if g == nil {
				return
			}
			key := fnName(f) + " " + g.Name()
			if messageHandle(g.Type().(*types.Pointer).Elem()) {
				c.r.OK("package-state", key, c.p.where(instrPos(in)), "an output handle")
				return
			}
			c.r.Bad("package-state", key, c.p.where(instrPos(in)), "the package variable "+g.Name()+" is changed by a function: a result can depend on earlier calls")
		})
	}
	c.r.OK("package-state", "writes looked at", "", fmt.Sprint(n))
}

// messageHandle: a variable of this type tells where messages go; results are not made from it.
func messageHandle(t types.Type) bool {
	switch shortType(t) {
	case "*log.Logger", "io.Writer", "*os.File":
		return true
	}
	return false
}

func nameOf(phi *ssa.Phi) string {
	if phi.Comment != "" {
		return phi.Comment
	}
	return phi.Name()
}

func strOf(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && isString(c.Type()) {
		return constString(c)
	}
	return ""
}
