package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checkers["C04"] = checkC04
	checkers["C05"] = checkC05
	checkers["C06"] = checkC06
}

// exportedEntries lists exported functions of the library, and exported methods of its exported types
// and of the table types that are reachable through exported fields of those.
func exportedEntries(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	scope := p.Font.Pkg.Scope()
	seenT := map[*types.Named]bool{}
	var addType func(t types.Type)
	addType = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			addType(u.Elem())
			return
		case *types.Slice:
			addType(u.Elem())
			return
		case *types.Array:
			addType(u.Elem())
			return
		case *types.Map:
			addType(u.Elem())
			return
		}
		named, ok := types.Unalias(t).(*types.Named)
		if !ok || named.Obj().Pkg() == nil || named.Obj().Pkg().Path() != fontPath || seenT[named] {
			return
		}
		seenT[named] = true
		for i := 0; i < named.NumMethods(); i++ {
			if m := named.Method(i); m.Exported() {
				if fn := p.SSA.FuncValue(m); fn != nil && fn.Blocks != nil {
					out = append(out, fn)
				}
			}
		}
		if st, ok := named.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() {
					addType(st.Field(i).Type())
				}
			}
		}
		// implementations of closed interfaces
		if it, ok := named.Underlying().(*types.Interface); ok {
			for _, n := range scope.Names() {
				if tn, ok := scope.Lookup(n).(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
					if types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it) {
						addType(tn.Type())
					}
				}
			}
		}
	}
	for _, name := range scope.Names() {
		switch o := scope.Lookup(name).(type) {
		case *types.Func:
			if o.Exported() {
				if fn := p.SSA.FuncValue(o); fn != nil && fn.Blocks != nil {
					out = append(out, fn)
				}
			}
		case *types.TypeName:
			if o.Exported() {
				addType(o.Type())
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func paramLabel(fn *ssa.Function, i int) string {
	if i == 0 && fn.Signature.Recv() != nil {
		return "receiver"
	}
	return "argument " + fn.Params[i].Name()
}

func isByteBlock(o *Obj, path string) bool {
	t := typeAt(o.typ, path)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8 && strings.HasSuffix(path, "[]")
}

const ptaK = 3

var sfntType = func(p *Prog) types.Type {
	return types.NewPointer(p.Font.Pkg.Scope().Lookup("SFNT").Type())
}

func isByteParam(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// recvRoot finds the value path from a parsed font to a receiver of type t: nil when the type is not part of a parsed font.
func fontParts(p *Prog, a *PTA, font planVal) map[string][]*Node {
	// nodes that hold pointers to each named table type, found by walking the fields of the font
	out := map[string][]*Node{}
	seen := map[string]bool{}
	var rec func(t types.Type, ptr *Node, depth int)
	rec = func(t types.Type, ptr *Node, depth int) {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok || depth > 5 || ptr == nil {
			return
		}
		key := types.TypeString(t, nil)
		out[key] = append(out[key], ptr)
		if seen[key] {
			return
		}
		seen[key] = true
		for _, l := range a.leaves(pt.Elem()) {
			n := a.newNode()
			l := l
			a.on(ptr, func(loc Loc) { a.edge(a.cell(loc.o, loc.path+l.path), n) })
			switch u := l.typ.Underlying().(type) {
			case *types.Pointer:
				rec(l.typ, n, depth+1)
			case *types.Slice:
				// elements that are pointers, or structs addressed in place, or interface boxes
				if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
					en := a.newNode()
					a.load(u.Elem(), n, "[]", func(string) *Node { return en })
					rec(u.Elem(), en, depth+1)
				} else if types.IsInterface(u.Elem()) {
					en := a.newNode()
					a.load(u.Elem(), n, "[]", func(string) *Node { return en })
					out[types.TypeString(u.Elem(), nil)] = append(out[types.TypeString(u.Elem(), nil)], en)
				} else {
					en := a.newNode()
					a.on(n, func(loc Loc) { a.addLoc(en, Loc{o: loc.o, path: loc.path + "[]"}) })
					rec(types.NewPointer(u.Elem()), en, depth+1)
				}
			}
		}
	}
	rec(sfntType(p), font.node(""), 0)
	return out
}

func pick(v planVal, prefix string) planVal {
	return planVal{func(p string) *Node { return v.node(prefix + p) }}
}

func lookupFn(p *Prog, name string) *ssa.Function {
	return p.Font.Func(name)
}

func lookupMethod(p *Prog, t types.Type, name string) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(p.Font.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

func checkC04(p *Prog, r *Report) {
	r.Rule("no-write-to-caller-bytes", "no store, copy, append into spare capacity, sort or external write reachable from an exported function targets a byte array that aliases the bytes its caller passed in (directly, or through a font parsed from them)", 40)
	entries := exportedEntries(p)
	filter := func(e *Effect, l Loc) bool {
		return isByteBlock(l.o, l.path) && !strings.HasPrefix(l.o.root, "package variable")
	}
	report := func(a *PTA, name string, pos token.Pos) {
		hits, n := a.hits(filter)
		r.Stats["writing_instructions_checked"] += n
		r.Stats["functions_reached_max"] = max(r.Stats["functions_reached_max"], len(a.reachFn))
		if len(hits) == 0 {
			r.OK("no-write-to-caller-bytes", name, p.where(pos), fmt.Sprintf("%d functions reached, %d writing instructions", len(a.reachFn), n))
		}
		for _, h := range hits {
			r.Bad("no-write-to-caller-bytes", fmt.Sprintf("%s: %s in %s writes %s%s", name, h.eff.kind, fnName(h.fn), h.loc.o, describe(h.loc.o.typ, h.loc.path)), h.where, "call path: "+name+" => "+h.detail)
		}
	}
	// 1. functions that take bytes, or foreign font structures
	for _, fn := range entries {
		if fn.Signature.Recv() != nil {
			continue
		}
		a := newPTA(p, ptaK)
		takes := false
		var args []planArg
		for i := range fn.Params {
			if len(a.leaves(fn.Params[i].Type())) > 0 {
				takes = true
			}
			args = append(args, planArg{label: paramLabel(fn, i), protected: true})
		}
		if !takes {
			continue
		}
		a.enter(fnName(fn), fn, args)
		a.solve()
		report(a, fnName(fn), fn.Pos())
	}
	// 2. every method, on fonts parsed from caller bytes by each parser, in any order: one solution
	// holds all methods applied to the same two fonts, and to the fonts that Subset derives from them
	for _, parser := range []string{"ParseSFNT", "ParseEmbeddedSFNT"} {
		pf := lookupFn(p, parser)
		if pf == nil {
			r.Bad("no-write-to-caller-bytes", parser, "", "parser not found")
			continue
		}
		a := newPTA(p, ptaK)
		font := a.enter(parser+" first font", pf, []planArg{{label: "bytes of the font", protected: true}, {}})
		other := a.enter(parser+" second font", pf, []planArg{{label: "bytes of the other font", protected: true}, {}})
		f0, o0 := pick(font, "#0"), pick(other, "#0")
		parts := fontParts(p, a, f0)
		var used []*ssa.Function
		for _, fn := range entries {
			if fn.Signature.Recv() == nil {
				continue
			}
			rt := types.TypeString(fn.Signature.Recv().Type(), nil)
			nodes := parts[rt]
			if len(nodes) == 0 {
				// boxed implementations of the closed interfaces
				nodes = boxedParts(a, parts, fn.Signature.Recv().Type())
			}
			if len(nodes) == 0 {
				continue
			}
			used = append(used, fn)
			args := []planArg{{from: func(path string) *Node {
				n := a.newNode()
				for _, x := range nodes {
					if path == "" {
						a.edge(x, n)
					}
				}
				return n
			}}}
			for i := 1; i < len(fn.Params); i++ {
				if types.Identical(fn.Params[i].Type(), sfntType(p)) {
					args = append(args, planArg{from: o0.node})
				} else {
					args = append(args, planArg{label: paramLabel(fn, i) + " of " + fnName(fn), protected: false})
				}
			}
			ret := a.enter(fnName(fn), fn, args)
			if fn.Name() == "Subset" && fn.Signature.Results().Len() > 0 && types.Identical(fn.Signature.Results().At(0).Type(), sfntType(p)) {
				// the subset is a font parsed from the same bytes: feed it back
				for _, n := range parts[rt] {
					if sub := ret.node("#0"); sub != nil {
						a.edge(sub, n)
					}
				}
			}
		}
		a.solve()
		hits, n := a.hits(filter)
		r.Stats["writing_instructions_checked"] += n
		r.Stats["functions_reached_max"] = max(r.Stats["functions_reached_max"], len(a.reachFn))
		badEntry := map[string]bool{}
		for _, h := range hits {
			en := a.entries[a.ctxEntry[h.eff.ctx]-1]
			badEntry[en] = true
			r.Bad("no-write-to-caller-bytes", fmt.Sprintf("%s then %s: %s in %s writes %s%s", parser, en, h.eff.kind, fnName(h.fn), h.loc.o, describe(h.loc.o.typ, h.loc.path)), h.where, "call path: "+h.detail)
		}
		for _, fn := range used {
			if !badEntry[fnName(fn)] {
				r.OK("no-write-to-caller-bytes", parser+" then "+fnName(fn), p.where(fn.Pos()), "")
			}
		}
	}
	r.Stats["entry_points"] = len(entries)
	r.Assumptions = append(r.Assumptions, "functions of the standard library and of third-party decoders outside sort, slices, bytes, strings, bufio, io and encoding/binary only write to memory they own or that the model lists (gob and base64 decode targets, file reads)")
}

// boxedParts: pointers to values of the named type t held in interface boxes of the font.
func boxedParts(a *PTA, parts map[string][]*Node, t types.Type) []*Node {
	var out []*Node
	for key, ns := range parts {
		_ = key
		for _, n := range ns {
			bn := a.newNode()
			a.on(n, func(l Loc) {
				if l.o.box && types.Identical(l.o.typ, t) {
					a.edge(a.cell(l.o, l.path), bn)
				}
			})
			out = append(out, bn)
		}
	}
	return out
}

// mutators are the exported operations that are documented to change their receiver.
var mutators = map[string]string{
	"(*SFNT).Merge":             "merges in place by contract",
	"(*SFNT).SetGlyphNames":     "renames in place by contract",
	"(*SystemFonts).Add":        "adds in place by contract",
	"(*cffTable).Write":         "completes a table under construction in place; not a query of a font",
	"(*cffTable).SetGlyphNames": "renames in place by contract",
	"(*cffTable).SetGlyphName":  "renames in place by contract",
	"(*cffTable).ReindexSubrs":  "rebuilds subroutine tables in place by contract",
}

func checkC05(p *Prog, r *Report) {
	r.Rule("query-writes-nothing-shared", "no write reachable from a query targets memory reachable from its receiver or a package variable, except inside a function literal run by sync.Once.Do", 45)
	r.Rule("once-cache-read-after-guard", "each field written under a sync.Once is read only where a call of that Once's Do, or of a function that always performs it, dominates the read", 2)
	entries := exportedEntries(p)
	// bboxPather is a writer object private to one call
	n := 0
	for _, fn := range entries {
		name := fnName(fn)
		if fn.Signature.Recv() != nil {
			if _, ok := mutators[name]; ok {
				continue
			}
			if strings.Contains(name, "bboxPather") {
				continue
			}
		}
		a := newPTA(p, ptaK)
		var args []planArg
		ptr := false
		for i := range fn.Params {
			if len(a.leaves(fn.Params[i].Type())) > 0 {
				ptr = true
			}
			args = append(args, planArg{label: paramLabel(fn, i), protected: true})
		}
		_ = ptr
		a.enter(name, fn, args)
		a.solve()
		n++
		hits, k := a.hits(func(e *Effect, l Loc) bool {
			if inOnce(e.fn) {
				return false
			}
			if strings.HasPrefix(l.o.root, "argument") {
				return false // C04 and C06
			}
			return true
		})
		r.Stats["writing_instructions_checked"] += k
		if len(hits) == 0 {
			r.OK("query-writes-nothing-shared", name, p.where(fn.Pos()), fmt.Sprintf("%d functions reached, %d writing instructions", len(a.reachFn), k))
		}
		for _, h := range hits {
			r.Bad("query-writes-nothing-shared", fmt.Sprintf("%s: %s in %s writes %s%s", name, h.eff.kind, fnName(h.fn), h.loc.o, describe(h.loc.o.typ, h.loc.path)), h.where, "call path: "+name+" => "+h.detail)
		}
	}
	r.Stats["query_entry_points"] = n
	onceGuards(p, r)
}

// C06: histories around Subset and Merge.
func checkC06(p *Prog, r *Report) {
	const rule = "operand-left-untouched"
	r.Rule(rule, "in each history, no write reachable from Subset, Merge or the later operation on their result targets memory of the operand that must stay untouched (source font, other font, glyph list, option lists, name list), except once-guarded caches", 10)
	T := sfntType(p)
	m := func(name string) *ssa.Function {
		fn := lookupMethod(p, T, name)
		if fn == nil {
			r.Bad(rule, name, "", "method not found: the rule's anchor no longer resolves")
		}
		return fn
	}
	subset, merge, rename, write := m("Subset"), m("Merge"), m("SetGlyphNames"), m("Write")
	if subset == nil || merge == nil || rename == nil || write == nil {
		return
	}
	// arguments of a call on existing or synthetic values: fonts are taken from the list in order
	args := func(fn *ssa.Function, tag string, fonts ...planArg) []planArg {
		var out []planArg
		k := 0
		for i, prm := range fn.Params {
			if types.Identical(prm.Type(), T) && k < len(fonts) {
				out = append(out, fonts[k])
				k++
				continue
			}
			out = append(out, planArg{label: tag + " " + paramLabel(fn, i), protected: true})
		}
		return out
	}
	val := func(v planVal) planArg { return planArg{from: v.node} }
	finish := func(name string, a *PTA) {
		a.solve()
		hits, n := a.hits(func(e *Effect, l Loc) bool {
			return !inOnce(e.fn) && !strings.HasPrefix(l.o.root, "package variable")
		})
		r.Stats["writing_instructions_checked"] += n
		r.Stats["functions_reached_max"] = max(r.Stats["functions_reached_max"], len(a.reachFn))
		bad := map[string]bool{}
		for _, h := range hits {
			en := a.entries[a.ctxEntry[h.eff.ctx]-1]
			bad[en] = true
			r.Bad(rule, fmt.Sprintf("%s: %s: %s in %s writes %s%s", name, en, h.eff.kind, fnName(h.fn), h.loc.o, describe(h.loc.o.typ, h.loc.path)), h.where, "call path: "+h.detail)
		}
		for _, en := range a.entries {
			if !bad[en] {
				r.OK(rule, name+": "+en, "", fmt.Sprintf("%d functions reached, %d writing instructions", len(a.reachFn), n))
			}
		}
	}
	for _, parser := range []string{"ParseSFNT", "ParseEmbeddedSFNT"} {
		pf := lookupFn(p, parser)
		if pf == nil {
			r.Bad(rule, parser, "", "parser not found")
			continue
		}
		parse := func(a *PTA, label string) planArg {
			if label != "" {
				a.prot[len(a.entries)+1] = label
			}
			v := pick(a.enter("parse "+label, pf, []planArg{{label: "bytes of " + label, protected: true}, {}}), "#0")
			return planArg{from: v.node}
		}
		// history 1: R = S.Subset(ids, opts); R.SetGlyphNames(names); R.Merge(O); R.Subset; R.Write: S, ids, opts, names, O stay
		{
			a := newPTA(p, ptaK)
			a.prot = map[int]string{}
			S, O := parse(a, "the source font"), parse(a, "the other font")
			R := val(pick(a.enter("R = S.Subset(ids, options)", subset, args(subset, "Subset", S)), "#0"))
			a.enter("R.SetGlyphNames(names)", rename, args(rename, "SetGlyphNames", R))
			a.enter("R.Merge(O, options)", merge, args(merge, "Merge", R, O))
			a.enter("R.Subset(ids2, options2)", subset, args(subset, "second Subset", R))
			a.enter("R.Write()", write, args(write, "Write", R))
			finish(parser+", subset then change the subset", a)
		}
		// history 2: A.Merge(B); A.Merge(C); A.SetGlyphNames(names); A.Subset; A.Write: B, C, names, ids stay
		{
			a := newPTA(p, ptaK)
			a.prot = map[int]string{}
			A, B, C := parse(a, ""), parse(a, "the other font"), parse(a, "the third font")
			a.enter("A.Merge(B, options)", merge, args(merge, "Merge", A, B))
			a.enter("A.Merge(C, options)", merge, args(merge, "second Merge", A, C))
			a.enter("A.SetGlyphNames(names)", rename, args(rename, "SetGlyphNames", A))
			a.enter("A.Subset(ids, options)", subset, args(subset, "Subset", A))
			a.enter("A.Write()", write, args(write, "Write", A))
			finish(parser+", merge then change the result", a)
		}
	}
	r.Assumptions = append(r.Assumptions, "memory is modelled per access path and allocation site with 3 call sites of context; distinct fonts are assumed not to share tables at the start of a history")
}
