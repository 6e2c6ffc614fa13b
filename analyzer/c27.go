package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C27"] = checkC27 }

// reachedCall is a call that a command can come to under assumptions about its options.
type reachedCall struct {
	name string
	ci   ssa.CallInstruction
	args []cset
	at   string
	bare bool // it can be come to without encoding anything first
}

// reachedCalls evaluates a command under assumed option values, through the functions of the tool, and lists the calls
// that can be reached.
func (p *Prog) reachedCalls(cmd *ssa.Function, opts map[string]cset) []reachedCall {
	fields := map[string]cset{}
	for k, v := range opts {
		fields["option "+k] = v
	}
	var out []reachedCall
	seen := map[string]bool{}
	var visit func(fn *ssa.Function, bind map[ssa.Value]cset, bare bool, depth int)
	visit = func(fn *ssa.Function, bind map[ssa.Value]cset, bare bool, depth int) {
		sig := fmt.Sprint(fn, bare)
		for _, q := range fn.Params {
			if s, ok := bind[q]; ok {
				sig += "|" + s.String()
			} else {
				sig += "|"
			}
		}
		if depth > 8 || seen[sig] {
			return
		}
		seen[sig] = true
		run := runSets(p, fn, bind)
		before := map[ssa.Instruction]bool{}
		if bare {
			before = unencoded(fn, run)
		}
		for _, b := range fn.Blocks {
			if !run.reached(b) {
				continue
			}
			env := run.envAt(b)
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil && fnPkgPath(g) == cmdPath && g.Parent() != nil {
							visit(g, map[ssa.Value]cset{}, before[in], depth+1)
						}
					}
					continue
				}
				c := ci.Common()
				rc := reachedCall{name: calleeName(c), ci: ci, at: p.where(instrPos(in)), bare: before[in]}
				for _, a := range c.Args {
					rc.args = append(rc.args, run.get(env, a))
				}
				out = append(out, rc)
				g := c.StaticCallee()
				if g == nil || g.Blocks == nil || fnPkgPath(g) != cmdPath {
					continue
				}
				sub := map[ssa.Value]cset{}
				for i := range c.Args {
					if i < len(g.Params) && !rc.args[i].top {
						sub[g.Params[i]] = rc.args[i]
					}
				}
				visit(g, sub, before[in], depth+1)
			}
		}
	}
	p.withModels(map[string][]cset{"": nil}, fields, func() { visit(cmd, map[ssa.Value]cset{}, true, 0) })
	return out
}

// encodes: the call encodes, itself or in a function of the tool.
func encodes(c *ssa.CallCommon, depth int) bool {
	n := calleeName(c)
	if strings.Contains(n, "encoding/base64.") && strings.Contains(n, "ncode") && !strings.Contains(n, "EncodedLen") {
		return true
	}
	g := c.StaticCallee()
	if g == nil || g.Blocks == nil || fnPkgPath(g) != cmdPath || depth > 3 {
		return false
	}
	found, writes := false, false
	eachCall(g, func(ci ssa.CallInstruction) {
		found = found || encodes(ci.Common(), depth+1)
		_, d := fileDestroyers[calleeName(ci.Common())]
		writes = writes || d
	})
	return found && !writes
}

// unencoded lists the instructions that can be come to from the beginning of a function without encoding anything.
func unencoded(fn *ssa.Function, run *setRun) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !run.reached(b) {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			out[in] = true
			if ci, ok := in.(ssa.CallInstruction); ok && encodes(ci.Common(), 0) {
				return
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			s := run.get(run.envAt(b), iff.Cond)
			if s.is(cv{c: constant.MakeBool(true)}) {
				walk(b.Succs[0])
				return
			} else if s.is(cv{c: constant.MakeBool(false)}) {
				walk(b.Succs[1])
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(fn.Blocks[0])
	return out
}

// creates: the call opens a file so that it is written; whether it appends, and whether it replaces.
func (c reachedCall) creates() (ok, appends, replaces bool) {
	if _, d := fileDestroyers[c.name]; d {
		return true, false, true
	}
	if c.name == "os.OpenFile" {
		s := c.args[1]
		if s.top {
			return true, true, true
		}
		for _, v := range s.list() {
			f, _ := constant.Int64Val(v.c)
			if f&3 == 0 {
				continue
			}
			ok = true
			if f&0x400 != 0 {
				appends = true
			}
			if f&0x200 != 0 {
				replaces = true
			}
		}
	}
	return
}

func isStdout(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Global:
			return x.String() == "os.Stdout"
		default:
			return false
		}
	}
	return false
}

func (c reachedCall) printsOut() bool {
	cc := c.ci.Common()
	return strings.HasPrefix(c.name, "fmt.Print") || strings.HasPrefix(c.name, "fmt.Fprint") && len(cc.Args) > 0 && isStdout(cc.Args[0])
}

// depWalk collects what a value can be made from: options, calls and constants, through data (not through decisions).
type depWalk struct {
	p    *Prog
	seen map[ssa.Value]bool
	opts map[string]bool
	fns  map[string]bool
	from map[string]bool // members and package variables of other packages
}

func (p *Prog) depsOf(vs ...ssa.Value) *depWalk {
	d := &depWalk{p: p, seen: map[ssa.Value]bool{}, opts: map[string]bool{}, fns: map[string]bool{}, from: map[string]bool{}}
	for _, v := range vs {
		d.walk(v)
	}
	return d
}

func (d *depWalk) walk(v ssa.Value) {
	if v == nil || d.seen[v] {
		return
	}
	d.seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		fn := x.Parent()
		for i, q := range fn.Params {
			if q != x {
				continue
			}
			for _, ci := range d.p.callersOf(fn) {
				if a := ci.Common().Args; i < len(a) {
					d.walk(a[i])
				}
			}
		}
		return
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, f := range fn.FreeVars {
			if f != x || fn.Parent() == nil {
				continue
			}
			eachInstr(fn.Parent(), func(in ssa.Instruction) {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					d.walk(mc.Bindings[i])
				}
			})
		}
	case *ssa.Global:
		d.from[x.String()] = true
	case *ssa.FieldAddr:
		d.from[typeName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
		if isOption(x) {
			name := fieldName(x.X.Type(), x.Field)
			d.opts[name] = true
			// what the command itself puts there
			for _, fn := range d.p.repoFuncs(cmdPath) {
				eachInstr(fn, func(in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isOption(fa) && fieldName(fa.X.Type(), fa.Field) == name && typeName(fa.X.Type()) == typeName(x.X.Type()) {
							d.walk(st.Val)
						}
					}
				})
			}
			return
		}
	case *ssa.Call:
		d.fns[calleeName(&x.Call)] = true
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && fnPkgPath(g) == cmdPath {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, r := range ret.Results {
						d.walk(r)
					}
				}
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil {
				if _, ok := (*op).(*ssa.Const); !ok {
					d.walk(*op)
				}
			}
		}
	}
	// a variable: every use of what it holds, also in function literals
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.UnOp:
				d.walk(t)
			case *ssa.MakeClosure:
				for i, b := range t.Bindings {
					if b == v {
						d.walk(t.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	// what is put into it
	switch v.Type().Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Array, *types.Struct:
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.Store:
				if t.Addr == v {
					d.walk(t.Val)
				}
			case *ssa.MapUpdate:
				if t.Map == v {
					d.walk(t.Key)
					d.walk(t.Value)
				}
			case *ssa.IndexAddr:
				if t.X == v {
					d.stores(t)
				}
			case *ssa.FieldAddr:
				if t.X == v {
					d.stores(t)
				}
			case *ssa.MakeInterface:
				d.into(t)
			case ssa.CallInstruction:
				d.filled(v, t)
			}
		}
	}
}

func (d *depWalk) into(v ssa.Value) {
	for _, u := range realRefs(v) {
		if ci, ok := u.(ssa.CallInstruction); ok {
			d.filled(v, ci)
		}
	}
}

// filled: a call that is given the object may put its other arguments in it.
func (d *depWalk) filled(v ssa.Value, ci ssa.CallInstruction) {
	c := ci.Common()
	n := calleeName(c)
	if _, ok := v.Type().Underlying().(*types.Pointer); ok && strings.Contains(n, "/font.") {
		return // the library does not make its fonts from what is asked about them
	}
	d.fns[n] = true
	for _, a := range c.Args {
		d.walk(a)
	}
}

func (d *depWalk) stores(addr ssa.Value) {
	for _, u := range *addr.Referrers() {
		switch t := u.(type) {
		case *ssa.Store:
			if t.Addr == addr {
				d.walk(t.Val)
			}
		case *ssa.FieldAddr:
			d.stores(t)
		case *ssa.IndexAddr:
			d.stores(t)
		}
	}
}

func optionsOf(cmd *ssa.Function) map[string]types.Type {
	out := map[string]types.Type{}
	t := cmd.Signature.Recv().Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			out[st.Field(i).Name()] = st.Field(i).Type()
		}
	}
	return out
}

func checkC27(p *Prog, r *Report) {
	r.Rule("read", "every option of a command, and of Subset and Merge, is read", 30)
	r.Rule("index", "the font that is parsed is the one at the index of the option, and the first one for commands that have none", 4)
	r.Rule("forced", "when forced, no question is asked and the file is created", 4)
	r.Rule("quiet", "when quiet, nothing but font data goes to standard output and warnings are discarded before the first one; otherwise they are not discarded", 6)
	r.Rule("append", "when appending, the file is opened for appending and not replaced; otherwise it is replaced and not appended to", 2)
	r.Rule("encoding", "an unknown encoding is refused before any file is written, base64 is applied to what is written, and no encoding when none is asked for", 6)
	r.Rule("type", "an explicit type decides what is written whatever the file is called, and an unknown one is refused before any file is written", 6)
	r.Rule("selection", "each way to name glyphs contributes to the glyphs that are kept or drawn", 8)
	r.Rule("names", "the pattern for glyph names makes the names that are set, and none are set without it; the selector makes the style sheet", 3)
	r.Rule("passed-on", "options of Merge, sizes and ratios reach what they are for, unchanged where they are switches", 5)

	loads := map[string]bool{}
	for _, fn := range p.liveFuncs(fontPath, cmdPath) {
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				for _, u := range *x.Referrers() {
					if st, ok := u.(*ssa.Store); !ok || st.Addr != ssa.Value(x) {
						loads[typeName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
					}
				}
			case *ssa.Field:
				loads[typeName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
			}
		})
	}
	for _, n := range []string{"SubsetOptions", "MergeOptions"} {
		if o := p.Font.Pkg.Scope().Lookup(n); o != nil {
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					r.Add("read", n+"."+st.Field(i).Name(), p.where(st.Field(i).Pos()), loads[n+"."+st.Field(i).Name()], "")
				}
			}
		}
	}
	lib := func(s string) string { return "(*" + fontPath + ".SFNT)." + s }
	cmds := commands(p)
	for _, cmd := range cmds {
		name := typeName(cmd.Signature.Recv().Type())
		opts := optionsOf(cmd)
		where := p.where(cmd.Pos())
		var on []string
		for o := range opts {
			on = append(on, o)
		}
		sort.Strings(on)
		for _, o := range on {
			r.Add("read", name+"."+o, where, loads[name+"."+o], "")
		}
		find := func(cs []reachedCall, names ...string) *reachedCall {
			for i := range cs {
				for _, n := range names {
					if cs[i].name == n {
						return &cs[i]
					}
				}
			}
			return nil
		}
		at := func(c *reachedCall) string {
			if c == nil {
				return ""
			}
			return "reaches " + c.name + " at " + c.at
		}
		creating := func(cs []reachedCall) *reachedCall {
			for i := range cs {
				if ok, _, _ := cs[i].creates(); ok {
					return &cs[i]
				}
			}
			return nil
		}
		if _, ok := opts["Force"]; ok {
			cs := p.reachedCalls(cmd, map[string]cset{"Force": boolSet(true)})
			q := find(cs, "github.com/tdewolff/prompt.YesNo")
			r.Add("forced", name, where, q == nil && creating(cs) != nil, at(q))
		}
		if _, ok := opts["Quiet"]; ok {
			cs := p.reachedCalls(cmd, map[string]cset{"Quiet": boolSet(true)})
			var pr *reachedCall
			for i := range cs {
				if cs[i].printsOut() {
					pr = &cs[i]
				}
			}
			r.Add("quiet", name+" standard output", where, pr == nil, at(pr))
			bad := p.warningsDiscarded(cmd)
			r.Add("quiet", name+" warnings", where, bad == "", bad)
		}
		if _, ok := opts["Append"]; ok {
			for _, v := range []bool{true, false} {
				bad, n := "", 0
				for _, c := range p.reachedCalls(cmd, map[string]cset{"Append": boolSet(v)}) {
					ok, app, rep := c.creates()
					if !ok {
						continue
					}
					n++
					if v && (rep || !app) || !v && (app || !rep) {
						bad = at(&c)
					}
				}
				if n == 0 {
					bad = "no file is opened"
				}
				r.Add("append", fmt.Sprintf("%s %v", name, v), where, bad == "", bad)
			}
		}
		if _, ok := opts["Encoding"]; ok {
			cs := p.reachedCalls(cmd, map[string]cset{"Encoding": strSet("rot13")})
			c := creating(cs)
			r.Add("encoding", name+" unknown", where, c == nil, at(c))
			for _, e := range []string{"", "base64"} {
				cs := p.reachedCalls(cmd, map[string]cset{"Encoding": strSet(e)})
				var enc *reachedCall
				for i := range cs {
					if strings.Contains(cs[i].name, "encoding/base64.") && strings.Contains(cs[i].name, "ncode") && !strings.Contains(cs[i].name, "EncodedLen") {
						enc = &cs[i]
					}
				}
				if e == "" {
					r.Add("encoding", name+" none", where, enc == nil && creating(cs) != nil, at(enc))
					continue
				}
				ok := enc != nil && creating(cs) != nil
				detail := at(enc)
				// what is written is made by it
				n := 0
				for _, c := range cs {
					if data := writtenData(c); data != nil {
						n++
						d := p.depsOf(data)
						made := false
						for f := range d.fns {
							made = made || strings.Contains(f, "encoding/base64.") && strings.Contains(f, "ncode") && !strings.Contains(f, "EncodedLen")
						}
						if c.bare {
							ok, detail = false, "what is written at "+c.at+" may not have been encoded"
						} else if !made {
							ok, detail = false, "what is written at "+c.at+" is not encoded"
						}
					}
				}
				r.Add("encoding", name+" base64", where, ok && n > 0, detail)
			}
		}
		if _, ok := opts["Type"]; ok {
			for t, want := range map[string]string{"font/woff2": "WriteWOFF2", "font/truetype": "Write", "font/opentype": "Write", "font/unknown": ""} {
				cs := p.reachedCalls(cmd, map[string]cset{"Type": strSet(t)})
				bad := ""
				for _, m := range []string{"Write", "WriteWOFF2"} {
					c := find(cs, lib(m))
					if m == want && c == nil {
						bad = m + " is not reached"
					} else if m != want && c != nil {
						bad = at(c)
					}
				}
				if want == "" && bad == "" {
					if c := creating(cs); c != nil {
						bad = at(c)
					}
				}
				r.Add("type", name+" "+t, where, bad == "", bad)
			}
		}
		// what goes into the calls of the library
		all := p.reachedCalls(cmd, nil)
		for _, c := range all {
			cc := c.ci.Common()
			has := func(rule, key string, d *depWalk, want ...string) {
				for _, w := range want {
					if _, ok := opts[w]; ok {
						r.Add(rule, name+" "+w+" "+key, c.at, d.opts[w], "made from "+strings.Join(sortedKeys(d.opts), ", "))
					}
				}
			}
			switch c.name {
			case lib("Subset"):
				d := p.depsOf(cc.Args[1])
				has("selection", "kept", d, "Glyphs", "Chars", "Names", "Unicodes", "UnicodeRanges")
				if _, ok := opts["UnicodeRanges"]; ok {
					for _, w := range []string{"RangeTable.R16", "RangeTable.R32", "unicode.Categories", "unicode.Scripts"} {
						r.Add("selection", name+" "+w, c.at, d.from[w] || strings.HasPrefix(w, "Range") && (d.fns["unicode.Is"] || d.fns["unicode.In"]), "")
					}
				}
			case lib("SetGlyphNames"):
				has("names", "set", p.depsOf(cc.Args[1]), "GlyphName")
			case lib("GlyphPath"):
				has("selection", "drawn", p.depsOf(cc.Args[2]), "GlyphID", "Char", "Unicode")
				has("passed-on", "size", p.depsOf(cc.Args[3]), "PPEM", "Width")
			case lib("Merge"):
				l := &leafWalk{p: p, seen: map[ssa.Value]bool{}}
				l.structField(cc.Args[2], "RearrangeCmap")
				r.Add("passed-on", name+" RearrangeCmap", c.at, len(l.bad) == 0 && len(l.good) == 1 && l.good["option RearrangeCmap"], strings.Join(append(sortedKeys(l.good), l.bad...), ", "))
			case "image/png.Encode", "image/jpeg.Encode", "image/gif.Encode":
				has("passed-on", "in "+c.name, p.depsOf(cc.Args[1]), "Scale", "Ratio")
			}
			if strings.HasPrefix(c.name, "fmt.Fprint") && !isStdout(cc.Args[0]) {
				if _, ok := opts["Selector"]; ok && c.ci.Parent() == cmd {
					has("names", "in the style sheet", p.depsOf(cc.Args[1:]...), "Selector")
				}
			}
		}
		if _, ok := opts["GlyphName"]; ok {
			c := find(p.reachedCalls(cmd, map[string]cset{"GlyphName": strSet("")}), lib("SetGlyphNames"))
			r.Add("names", name+" none", where, c == nil && find(all, lib("SetGlyphNames")) != nil, at(c))
		}
		// which font of a collection
		for _, c := range all {
			if c.name != fontPath+".ParseSFNT" && c.name != fontPath+".ParseEmbeddedSFNT" && c.name != fontPath+".ParseFont" {
				continue
			}
			cc := c.ci.Common()
			for _, s := range p.argSites(cc.Args[1], c.ci.Parent(), 0) {
				in := s.fn
				for in.Parent() != nil {
					in = in.Parent()
				}
				if in != cmd && in.Signature.Recv() != nil {
					continue // another command
				}
				l := &leafWalk{p: p, seen: map[ssa.Value]bool{}}
				ok := false
				if _, has := opts["Index"]; has {
					l.leaves(s.v, 0)
					ok = len(l.bad) == 0 && len(l.good) == 1 && l.good["option Index"]
				} else if k, isC := s.v.(*ssa.Const); isC && k.Value != nil && k.Value.ExactString() == "0" {
					ok = true
				}
				r.Add("index", name, p.where(s.v.Pos()), ok, strings.Join(append(sortedKeys(l.good), l.bad...), ", "))
			}
		}
	}
}

// writtenData: the bytes that a call writes to a file, if it does.
func writtenData(c reachedCall) ssa.Value {
	cc := c.ci.Common()
	switch {
	case cc.IsInvoke() && cc.Method.Name() == "Write" && len(cc.Args) == 1:
		return cc.Args[0]
	case c.name == "(*os.File).Write" || c.name == "(*bufio.Writer).Write":
		return cc.Args[1]
	case c.name == "os.WriteFile" || c.name == "io/ioutil.WriteFile":
		return cc.Args[1]
	}
	return nil
}

// structField follows one member of a structure that is passed as a value.
func (l *leafWalk) structField(v ssa.Value, field string) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, u := range *a.Referrers() {
				switch t := u.(type) {
				case *ssa.FieldAddr:
					if fieldName(t.X.Type(), t.Field) == field {
						for _, w := range *t.Referrers() {
							if st, ok := w.(*ssa.Store); ok {
								n++
								l.leaves(st.Val, 0)
							}
						}
					}
				case *ssa.Store:
					if t.Addr == ssa.Value(a) {
						n++
						l.structField(t.Val, field)
					}
				}
			}
			if n == 0 {
				l.no("%s is not set", field)
			}
			return
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				l.structField(e, field)
			}
		}
		return
	}
	l.no("options %s", v)
}

// warningsDiscarded: with Quiet the logger of warnings is replaced, or its output discarded, before it is used; without
// Quiet it is left alone.
func (p *Prog) warningsDiscarded(cmd *ssa.Function) string {
	isDiscard := func(v ssa.Value) bool {
		for i := 0; i < 5; i++ {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.Global:
				return x.Name() == "Discard"
			default:
				return false
			}
		}
		return false
	}
	isWarning := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Name() == "Warning"
	}
	discards := func(in ssa.Instruction) bool {
		switch t := in.(type) {
		case *ssa.Store:
			if g, ok := t.Addr.(*ssa.Global); ok && g.Name() == "Warning" {
				if c, ok := t.Val.(*ssa.Call); ok && calleeName(&c.Call) == "log.New" {
					return isDiscard(c.Call.Args[0])
				}
			}
		case *ssa.Call:
			if calleeName(&t.Call) == "(*log.Logger).SetOutput" && isWarning(t.Call.Args[0]) {
				return isDiscard(t.Call.Args[1])
			}
			// a helper that does so
			if g := t.Call.StaticCallee(); g != nil && g.Blocks != nil && fnPkgPath(g) == cmdPath {
				found := false
				eachInstr(g, func(in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok {
						if gl, ok := st.Addr.(*ssa.Global); ok && gl.Name() == "Warning" {
							found = true
						}
					}
				})
				return found && len(g.Blocks) == 1
			}
		}
		return false
	}
	res := ""
	for _, quiet := range []bool{true, false} {
		p.withModels(map[string][]cset{"": nil}, map[string]cset{"option Quiet": boolSet(quiet)}, func() {
			run := runSets(p, cmd, nil)
			// whether a warning can be given, or the end be reached, before the output is discarded
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				if seen[b] || !run.reached(b) || res != "" {
					return
				}
				seen[b] = true
				for _, in := range b.Instrs {
					if discards(in) {
						if !quiet {
							res = "warnings are discarded although not quiet, at " + p.where(instrPos(in))
						}
						return
					}
					if c, ok := in.(*ssa.Call); ok && quiet {
						n := calleeName(&c.Call)
						if strings.HasPrefix(n, "(*log.Logger).Print") && isWarning(c.Call.Args[0]) {
							res = "a warning is given at " + p.where(instrPos(in))
							return
						}
					}
				}
				last := b.Instrs[len(b.Instrs)-1]
				if iff, ok := last.(*ssa.If); ok {
					s := run.get(run.envAt(b), iff.Cond)
					if s.is(cv{c: constant.MakeBool(true)}) {
						walk(b.Succs[0])
						return
					} else if s.is(cv{c: constant.MakeBool(false)}) {
						walk(b.Succs[1])
						return
					}
				}
				for _, s := range b.Succs {
					walk(s)
				}
			}
			walk(cmd.Blocks[0])
		})
	}
	return res
}
