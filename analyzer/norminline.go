package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type normFunc struct {
	fd   *ast.FuncDecl
	file string
	obj  *types.Func
	key  string
	refs int // references other than calls
	uses int
	call map[*types.Func]bool // added functions that it mentions
}

type normSite struct {
	file  string
	call  *ast.CallExpr
	f     *normFunc
	stack []ast.Node // from the file to the parent of the call
}

func (n *normPkg) off(p token.Pos) int { return n.fset.File(p).Offset(p) }

func (n *normPkg) src(file string, a, b token.Pos) string { return n.text[file][n.off(a):n.off(b)] }

func (n *normPkg) line(p token.Pos) string {
	q := n.fset.Position(p)
	return fmt.Sprintf("\n//line %s:%d\n", q.Filename, q.Line)
}

func (n *normPkg) fresh(s string) string {
	n.n++
	return fmt.Sprintf("%s_n%d", s, n.n)
}

// inlinable: the body of the function can be put somewhere else.
func (n *normPkg) inlinable(f *normFunc) bool {
	if f.fd.Body == nil || f.fd.Type.TypeParams != nil || f.call[f.obj] || f.fd.Name.Name == "init" || f.fd.Name.Name == "main" || token.IsExported(f.fd.Name.Name) && f.fd.Recv == nil {
		return false
	}
	if f.fd.Recv != nil {
		if t := f.obj.Type().(*types.Signature).Recv().Type(); strings.Contains(t.String(), "[") {
			return false
		}
	}
	ok := true
	ast.Inspect(f.fd.Body, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.DeferStmt:
			ok = false
		case *ast.BranchStmt:
			if m.Tok == token.GOTO {
				ok = false
			}
		case *ast.Ident:
			if m.Name == "recover" {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (n *normPkg) changes() []normChange {
	// old names first
	var names []normChange
	for _, name := range n.names {
		for _, d := range n.files[name].Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || n.renamed[funcKey(fd)] == "" || n.failed["name "+funcKey(fd)] {
				continue
			}
			was := n.renamed[funcKey(fd)]
			was = was[strings.IndexByte(was, '.')+1:]
			o := n.info.Defs[fd.Name]
			c := normChange{id: "name " + funcKey(fd)}
			for _, m := range []map[*ast.Ident]types.Object{n.info.Defs, n.info.Uses} {
				for id, x := range m {
					if x == o && o != nil {
						p := n.fset.File(id.Pos()).Name()
						c.edits = append(c.edits, textEdit{p, n.off(id.Pos()), n.off(id.End()), was})
					}
				}
			}
			names = append(names, c)
		}
	}
	for o, was := range n.oldNames(n.types) {
		if n.failed["name "+o.Name()+" "+was] {
			continue
		}
		c := normChange{id: "name " + o.Name() + " " + was}
		for _, m := range []map[*ast.Ident]types.Object{n.info.Defs, n.info.Uses} {
			for id, x := range m {
				if x == o {
					c.edits = append(c.edits, textEdit{n.fset.File(id.Pos()).Name(), n.off(id.Pos()), n.off(id.End()), was})
				}
			}
		}
		names = append(names, c)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].id < names[j].id })
	if len(names) > 0 {
		return names
	}
	funcs := map[*types.Func]*normFunc{}
	for name, f := range n.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				k := funcKey(fd)
				if _, known := n.base[k]; known || n.renamed[k] != "" {
					continue
				}
				if o, ok := n.info.Defs[fd.Name].(*types.Func); ok {
					funcs[o] = &normFunc{fd: fd, file: name, obj: o, key: k, call: map[*types.Func]bool{}}
				}
			}
		}
	}
	if len(funcs) == 0 {
		return nil
	}
	for _, f := range funcs {
		ast.Inspect(f.fd, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok {
				if o, ok := n.info.Uses[id].(*types.Func); ok && funcs[o] != nil {
					f.call[o] = true
				}
			}
			return true
		})
	}
	for id, o := range n.info.Uses {
		_ = id
		if fo, ok := o.(*types.Func); ok && funcs[fo] != nil {
			funcs[fo].uses++
		}
	}
	// sites
	var sites []normSite
	for _, name := range n.names {
		f := n.files[name]
		var stack []ast.Node
		ast.Inspect(f, func(m ast.Node) bool {
			if m == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			if c, ok := m.(*ast.CallExpr); ok {
				var id *ast.Ident
				switch fun := ast.Unparen(c.Fun).(type) {
				case *ast.Ident:
					id = fun
				case *ast.SelectorExpr:
					id = fun.Sel
				}
				if id != nil {
					if o, ok := n.info.Uses[id].(*types.Func); ok && funcs[o] != nil {
						sites = append(sites, normSite{name, c, funcs[o], append([]ast.Node{}, stack...)})
					}
				}
			}
			stack = append(stack, m)
			return true
		})
	}
	// changes for the calls of functions that have no such calls themselves
	var out []normChange
	for _, all := range []bool{false, true} {
		for _, s := range sites {
			if !n.inlinable(s.f) {
				continue
			}
			ready := true
			for o := range s.f.call {
				if n.inlinable(funcs[o]) {
					ready = false
				}
			}
			if !ready && (!all || n.reaches(funcs, s.f.obj, s.f.obj, map[*types.Func]bool{})) {
				continue
			}
			in := s.inFunc()
			if in == nil {
				continue
			}
			p := n.fset.Position(s.call.Pos())
			id := fmt.Sprintf("%s in %s at %s:%d:%d", s.f.key, funcKey(in), p.Filename, p.Line, len(s.stack))
			if n.failed[id] {
				continue
			}
			if c := n.inline(s); c != nil {
				c.id = id
				out = append(out, *c)
			}
		}
		if len(out) > 0 {
			break
		}
	}
	// functions that are not used any more
	for _, f := range funcs {
		if f.uses == 0 && !token.IsExported(f.fd.Name.Name) && n.inlinable(f) && !n.failed["drop "+f.key] && n.used(f) {
			start := f.fd.Pos()
			if f.fd.Doc != nil {
				start = f.fd.Doc.Pos()
			}
			t := n.src(f.file, start, f.fd.End())
			out = append(out, normChange{"drop " + f.key, []textEdit{{f.file, n.off(start), n.off(f.fd.End()), strings.Repeat("\n", strings.Count(t, "\n"))}}})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// used: the function had calls, which are gone now.
func (n *normPkg) used(f *normFunc) bool {
	for _, t := range n.orig {
		if i := strings.Count(t, f.fd.Name.Name+"("); i > 1 || i == 1 && !strings.Contains(t, "func "+f.fd.Name.Name+"(") && !strings.Contains(t, ") "+f.fd.Name.Name+"(") {
			return true
		}
	}
	return false
}

func (n *normPkg) reaches(funcs map[*types.Func]*normFunc, from, to *types.Func, seen map[*types.Func]bool) bool {
	if seen[from] {
		return false
	}
	seen[from] = true
	for o := range funcs[from].call {
		if o == to || n.reaches(funcs, o, to, seen) {
			return true
		}
	}
	return false
}

func (s *normSite) inFunc() *ast.FuncDecl {
	for _, m := range s.stack {
		if fd, ok := m.(*ast.FuncDecl); ok {
			return fd
		}
	}
	return nil
}

// render gives the text of a part of a file with replacements.
func (n *normPkg) render(file string, a, b token.Pos, edits []textEdit) string {
	lo, hi := n.off(a), n.off(b)
	var es []textEdit
	for _, e := range edits {
		if lo <= e.start && e.end <= hi {
			es = append(es, e)
		}
	}
	// an outer replacement hides inner ones
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].start != es[j].start {
			return es[i].start < es[j].start
		}
		return es[i].end > es[j].end
	})
	var sb strings.Builder
	pos := lo
	for _, e := range es {
		if e.start < pos {
			continue
		}
		sb.WriteString(n.text[file][pos:e.start])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.WriteString(n.text[file][pos:hi])
	return sb.String()
}

func inList(parent ast.Node, st ast.Node) ([]ast.Stmt, int) {
	var list []ast.Stmt
	switch p := parent.(type) {
	case *ast.BlockStmt:
		list = p.List
	case *ast.CaseClause:
		list = p.Body
	case *ast.CommClause:
		list = p.Body
	}
	for i, x := range list {
		if ast.Node(x) == st {
			return list, i
		}
	}
	return nil, -1
}

func within(outer, inner ast.Node) bool {
	return outer != nil && outer.Pos() <= inner.Pos() && inner.End() <= outer.End()
}

func (n *normPkg) inline(s normSite) *normChange {
	if e := n.inlineExpr(s); e != nil {
		return e
	}
	// the innermost statement in a list
	at := -1
	var list []ast.Stmt
	idx := -1
	for i := len(s.stack) - 1; i > 0; i-- {
		if _, ok := s.stack[i].(*ast.FuncLit); ok {
			return nil // an expression that is not in a statement
		}
		if l, k := inList(s.stack[i-1], s.stack[i]); k >= 0 {
			at, list, idx = i, l, k
			break
		}
	}
	if at < 0 {
		return nil
	}
	st := s.stack[at].(ast.Stmt)
	c := s.call
	edit := func(es ...textEdit) *normChange { return &normChange{edits: es} }
	ins := func(p token.Pos, t string) textEdit { return textEdit{s.file, n.off(p), n.off(p), t} }
	repl := func(a, b token.Pos, t string) textEdit { return textEdit{s.file, n.off(a), n.off(b), t} }
	// an else if
	for i := len(s.stack) - 1; i > at; i-- {
		if el, ok := s.stack[i].(*ast.IfStmt); ok {
			if p, ok := s.stack[i-1].(*ast.IfStmt); ok && p.Else == ast.Stmt(el) {
				return edit(ins(el.Pos(), "{ "), ins(el.End(), " }"))
			}
		}
	}
	switch x := st.(type) {
	case *ast.ExprStmt:
		if ast.Unparen(x.X) == ast.Expr(c) {
			return n.inlineStmt(s, st, list, idx, nil, nil)
		}
		return n.hoist(s, st, x.X)
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 && ast.Unparen(x.Rhs[0]) == ast.Expr(c) && (x.Tok == token.ASSIGN || x.Tok == token.DEFINE) {
			return n.inlineStmt(s, st, list, idx, x.Lhs, nil)
		}
		return n.hoist(s, st, append(append([]ast.Expr{}, x.Lhs...), x.Rhs...)...)
	case *ast.ReturnStmt:
		if len(x.Results) == 1 && ast.Unparen(x.Results[0]) == ast.Expr(c) {
			return n.inlineStmt(s, st, list, idx, nil, x)
		}
		return n.hoist(s, st, x.Results...)
	case *ast.IncDecStmt:
		return n.hoist(s, st, x.X)
	case *ast.SendStmt:
		return n.hoist(s, st, x.Chan, x.Value)
	case *ast.GoStmt:
		if x.Call != c {
			return n.hoist(s, st, x.Call.Args...)
		}
	case *ast.DeferStmt:
		if x.Call != c {
			return n.hoist(s, st, x.Call.Args...)
		}
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR || len(gd.Specs) != 1 {
			return nil
		}
		vs := gd.Specs[0].(*ast.ValueSpec)
		if vs.Type == nil && !gd.Lparen.IsValid() {
			// var x = f() is x := f()
			var names []string
			for _, id := range vs.Names {
				if id.Name == "_" {
					return nil
				}
				names = append(names, id.Name)
			}
			return edit(repl(gd.Pos(), vs.Values[0].Pos(), strings.Join(names, ", ")+" := "))
		}
		return n.hoist(s, st, vs.Values...)
	case *ast.IfStmt:
		if x.Init != nil && (within(x.Init, c) || within(x.Cond, c)) {
			return edit(ins(x.Pos(), "{ "+n.src(s.file, x.Init.Pos(), x.Init.End())+"; "), repl(x.Init.Pos(), x.Cond.Pos(), ""), ins(x.End(), " }"))
		}
		if within(x.Cond, c) {
			return n.hoist(s, st, x.Cond)
		}
	case *ast.SwitchStmt:
		if x.Init != nil && (within(x.Init, c) || x.Tag != nil && within(x.Tag, c)) {
			end := x.Body.Pos()
			if x.Tag != nil {
				end = x.Tag.Pos()
			}
			return edit(ins(x.Pos(), "{ "+n.src(s.file, x.Init.Pos(), x.Init.End())+"; "), repl(x.Init.Pos(), end, ""), ins(x.End(), " }"))
		}
		if x.Tag != nil && within(x.Tag, c) {
			return n.hoist(s, st, x.Tag)
		}
	case *ast.RangeStmt:
		if within(x.X, c) {
			return n.hoist(s, st, x.X)
		}
	case *ast.ForStmt:
		if x.Init != nil && within(x.Init, c) {
			return edit(ins(x.Pos(), "{ "+n.src(s.file, x.Init.Pos(), x.Init.End())+"; "), repl(x.Init.Pos(), x.Init.End(), ""), ins(x.End(), " }"))
		}
		if x.Cond != nil && within(x.Cond, c) {
			return edit(repl(x.Cond.Pos(), x.Cond.End(), ""), ins(x.Body.Lbrace+1, " if !("+n.src(s.file, x.Cond.Pos(), x.Cond.End())+") { break };"))
		}
	}
	return nil
}

// hoist evaluates the call before the statement, and what comes before the call too.
func (n *normPkg) hoist(s normSite, st ast.Stmt, exprs ...ast.Expr) *normChange {
	var edits []textEdit
	var pre strings.Builder
	fail, found := false, false
	var walk func(e ast.Node)
	take := func(e ast.Expr) string {
		t := n.fresh("t")
		pre.WriteString(t + " := " + n.render(s.file, e.Pos(), e.End(), edits) + "; ")
		edits = append(edits, textEdit{s.file, n.off(e.Pos()), n.off(e.End()), t})
		return t
	}
	hasCall := func(e ast.Node) bool {
		has := false
		ast.Inspect(e, func(m ast.Node) bool {
			if c, ok := m.(*ast.CallExpr); ok && n.realCall(c) {
				has = true
			}
			return !has
		})
		return has
	}
	walk = func(e ast.Node) {
		if e == nil || found || fail {
			return
		}
		switch x := e.(type) {
		case *ast.FuncLit:
			return
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR {
				if within(x.Y, s.call) {
					walk(x.X)
					t := n.fresh("t")
					pre.WriteString(t + " := " + n.render(s.file, x.X.Pos(), x.X.End(), edits) + "; if ")
					if x.Op == token.LOR {
						pre.WriteString("!")
					}
					pre.WriteString(t + " { ")
					walk(x.Y)
					pre.WriteString(t + " = " + n.render(s.file, x.Y.Pos(), x.Y.End(), edits) + " }; ")
					edits = append(edits, textEdit{s.file, n.off(x.Pos()), n.off(x.End()), t})
					return
				}
				if within(x.X, s.call) {
					walk(x.X)
					return
				}
				if hasCall(x) {
					take(x)
				}
				return
			}
		}
		for _, k := range children(e) {
			walk(k)
		}
		if found || fail {
			return
		}
		if c, ok := e.(*ast.CallExpr); ok && n.realCall(c) {
			if _, isTuple := n.info.TypeOf(c).(*types.Tuple); isTuple {
				fail = true
				return
			}
			take(c)
			if c == s.call {
				found = true
			}
		}
	}
	for _, e := range exprs {
		walk(e)
	}
	if fail || !found {
		return nil
	}
	pre.WriteString("")
	out := []textEdit{{s.file, n.off(st.Pos()), n.off(st.Pos()), pre.String()}}
	// only the outermost replacements
	for _, e := range edits {
		inner := false
		for _, o := range edits {
			if o != e && o.start <= e.start && e.end <= o.end {
				inner = true
			}
		}
		if !inner {
			if e.start == out[0].start {
				out[0].text += e.text
				out[0].end = e.end
				continue
			}
			out = append(out, e)
		}
	}
	return &normChange{edits: out}
}

func children(e ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(e, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		out = append(out, m)
		return false
	})
	return out
}

// realCall: not a conversion or a built-in
func (n *normPkg) realCall(c *ast.CallExpr) bool {
	tv := n.info.Types[c.Fun]
	return !tv.IsType() && !tv.IsBuiltin()
}

type normParam struct {
	obj  *types.Var
	typ  string
	text string   // the argument
	expr ast.Expr // the argument, when it is one expression
}

// bind pairs the parameters with the arguments.
func (n *normPkg) bind(s normSite) ([]normParam, bool) {
	var out []normParam
	fd := s.f.fd
	if fd.Recv != nil {
		sel, ok := ast.Unparen(s.call.Fun).(*ast.SelectorExpr)
		if !ok {
			return nil, false
		}
		se := n.info.Selections[sel]
		if se == nil || se.Kind() != types.MethodVal || len(se.Index()) != 1 {
			return nil, false
		}
		p := normParam{typ: n.src(s.f.file, fd.Recv.List[0].Type.Pos(), fd.Recv.List[0].Type.End()), text: n.src(s.file, sel.X.Pos(), sel.X.End()), expr: sel.X}
		if len(fd.Recv.List[0].Names) == 1 {
			p.obj, _ = n.info.Defs[fd.Recv.List[0].Names[0]].(*types.Var)
		}
		_, want := s.f.obj.Type().(*types.Signature).Recv().Type().(*types.Pointer)
		_, have := n.info.TypeOf(sel.X).Underlying().(*types.Pointer)
		if want && !have {
			p.text, p.expr = "&"+p.text, nil
		} else if !want && have {
			p.text, p.expr = "*"+p.text, nil
		}
		out = append(out, p)
	}
	sig := s.f.obj.Type().(*types.Signature)
	args := s.call.Args
	k := 0
	if len(args) == 1 && sig.Params().Len() > 1 {
		if _, ok := n.info.TypeOf(args[0]).(*types.Tuple); ok {
			return nil, false
		}
	}
	for _, f := range fd.Type.Params.List {
		names := f.Names
		cnt := len(names)
		if cnt == 0 {
			cnt = 1
		}
		for i := 0; i < cnt; i++ {
			p := normParam{}
			if i < len(names) {
				p.obj, _ = n.info.Defs[names[i]].(*types.Var)
			}
			if el, ok := f.Type.(*ast.Ellipsis); ok {
				p.typ = "[]" + n.src(s.f.file, el.Elt.Pos(), el.Elt.End())
				if s.call.Ellipsis.IsValid() {
					p.text, p.expr = n.src(s.file, args[k].Pos(), args[k].End()), args[k]
				} else if k >= len(args) {
					p.text = "nil"
				} else {
					p.text = p.typ + "{" + n.src(s.file, args[k].Pos(), args[len(args)-1].End()) + "}"
				}
				k = len(args)
			} else {
				p.typ = n.src(s.f.file, f.Type.Pos(), f.Type.End())
				if k >= len(args) {
					return nil, false
				}
				p.text, p.expr = n.src(s.file, args[k].Pos(), args[k].End()), args[k]
				k++
			}
			out = append(out, p)
		}
	}
	return out, true
}

// scopes checks that the names that the function uses mean the same where the call is; otherwise it gives what has to be
// changed first.
func (n *normPkg) scopes(s normSite) (ok bool, first *normChange) {
	scope := n.types.Scope().Innermost(s.call.Pos())
	if scope == nil {
		return false, nil
	}
	for _, id := range n.idents(s.f.fd) {
		o := n.info.Uses[id]
		if o == nil || n.isLocal(o) {
			continue
		}
		if v, isV := o.(*types.Var); isV && v.IsField() {
			continue
		}
		if f, isF := o.(*types.Func); isF && f.Type().(*types.Signature).Recv() != nil {
			continue
		}
		pk, isPkg := o.(*types.PkgName)
		if !isPkg && o.Pkg() != nil && o.Pkg() != n.types {
			continue // selected from a package
		}
		_, have := scope.LookupParent(id.Name, s.call.Pos())
		if have == o {
			continue
		}
		if isPkg {
			if h, ok := have.(*types.PkgName); ok && h.Imported() == pk.Imported() {
				continue
			}
			if have == nil {
				f := n.files[s.file]
				return false, &normChange{edits: []textEdit{{s.file, n.off(f.Name.End()), n.off(f.Name.End()), fmt.Sprintf("; import %s %q", pk.Name(), pk.Imported().Path())}}}
			}
		}
		if have == nil || !n.isLocal(have) {
			return false, nil
		}
		// a variable of the caller has the name
		name := n.fresh(have.Name())
		c := &normChange{}
		for _, m := range []map[*ast.Ident]types.Object{n.info.Defs, n.info.Uses} {
			for id, o := range m {
				if o == have {
					c.edits = append(c.edits, textEdit{s.file, n.off(id.Pos()), n.off(id.End()), name})
				}
			}
		}
		return false, c
	}
	return true, nil
}

func (n *normPkg) idents(fd *ast.FuncDecl) []*ast.Ident {
	var out []*ast.Ident
	add := func(m ast.Node) {
		if m == nil {
			return
		}
		ast.Inspect(m, func(k ast.Node) bool {
			if id, ok := k.(*ast.Ident); ok && id.Name != "_" {
				out = append(out, id)
			}
			return true
		})
	}
	if fd.Recv != nil {
		add(fd.Recv)
	}
	add(fd.Type)
	add(fd.Body)
	return out
}

func (n *normPkg) isLocal(o types.Object) bool {
	switch o := o.(type) {
	case *types.Label:
		return true
	case *types.PkgName:
		return false
	case *types.Var:
		if o.IsField() {
			return false
		}
	}
	return o.Parent() != nil && o.Parent() != n.types.Scope() && o.Parent() != types.Universe && o.Pkg() == n.types
}

// renames gives the edits that make the function's own names fresh; parameters get what is given for them.
func (n *normPkg) renames(f *normFunc, given map[types.Object]string) []textEdit {
	suffix := n.fresh("")
	sw := map[*ast.Ident]bool{}
	ast.Inspect(f.fd, func(m ast.Node) bool {
		if ts, ok := m.(*ast.TypeSwitchStmt); ok {
			if as, ok := ts.Assign.(*ast.AssignStmt); ok {
				sw[as.Lhs[0].(*ast.Ident)] = true
			}
		}
		return true
	})
	var out []textEdit
	for _, id := range n.idents(f.fd) {
		o := n.info.Defs[id]
		if o == nil {
			o = n.info.Uses[id]
		}
		if sw[id] {
			out = append(out, textEdit{f.file, n.off(id.Pos()), n.off(id.End()), id.Name + suffix})
			continue
		}
		if o == nil || !n.isLocal(o) {
			continue
		}
		t, ok := given[o]
		if !ok {
			t = id.Name + suffix
		}
		out = append(out, textEdit{f.file, n.off(id.Pos()), n.off(id.End()), t})
	}
	return out
}

// simple: evaluating the expression again or later gives the same and has no effect.
func (n *normPkg) simple(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return n.simple(x.X)
	case *ast.StarExpr:
		return n.simple(x.X)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && x.Op != token.AND && n.simple(x.X)
	case *ast.BinaryExpr:
		return n.simple(x.X) && n.simple(x.Y)
	case *ast.IndexExpr:
		return n.simple(x.X) && n.simple(x.Index)
	case *ast.CallExpr:
		if n.realCall(x) || len(x.Args) != 1 {
			return false
		}
		if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && n.info.Types[x.Fun].IsBuiltin() && id.Name != "len" && id.Name != "cap" {
			return false
		}
		return n.simple(x.Args[0])
	case *ast.SliceExpr:
		return n.simple(x.X) && (x.Low == nil || n.simple(x.Low)) && (x.High == nil || n.simple(x.High)) && x.Max == nil
	}
	return false
}

// inlineExpr puts the returned expression in the place of the call.
func (n *normPkg) inlineExpr(s normSite) *normChange {
	fd := s.f.fd
	if len(fd.Body.List) != 1 || fd.Type.Results == nil || len(fd.Type.Results.List) != 1 || len(fd.Type.Results.List[0].Names) > 0 {
		return nil
	}
	ret, ok := fd.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(ret.Results) != 1 {
		return nil
	}
	bad := false
	ast.Inspect(ret, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit:
			bad = true
		case *ast.UnaryExpr:
			bad = bad || m.Op == token.AND
		}
		return true
	})
	params, ok := n.bind(s)
	if bad || !ok {
		return nil
	}
	given := map[types.Object]string{}
	for i, p := range params {
		if p.expr == nil || !n.simple(p.expr) {
			return nil
		}
		t := p.text
		var pt types.Type
		sig := s.f.obj.Type().(*types.Signature)
		k := i
		if fd.Recv != nil {
			k--
		}
		if k < 0 {
			pt = sig.Recv().Type()
		} else {
			pt = sig.Params().At(k).Type()
		}
		tv := n.info.Types[p.expr]
		if tv.Value != nil || !types.Identical(tv.Type, pt) {
			t = "(" + p.typ + ")(" + t + ")"
		} else if _, isID := ast.Unparen(p.expr).(*ast.Ident); !isID {
			t = "(" + t + ")"
		}
		if p.obj != nil {
			given[p.obj] = t
		}
	}
	ok, first := n.scopes(s)
	if !ok {
		return first
	}
	t := n.render(s.f.file, ret.Results[0].Pos(), ret.Results[0].End(), n.renames(s.f, given))
	tv := n.info.Types[ret.Results[0]]
	if rt := s.f.obj.Type().(*types.Signature).Results().At(0).Type(); tv.Value != nil || !types.Identical(tv.Type, rt) {
		t = "(" + n.src(s.f.file, fd.Type.Results.List[0].Type.Pos(), fd.Type.Results.List[0].Type.End()) + ")(" + t + ")"
	} else {
		t = "(" + t + ")"
	}
	if strings.Contains(t, "//") || strings.Contains(t, "\n") {
		return nil
	}
	// a call as a statement
	if st, ok := s.stack[len(s.stack)-1].(*ast.ExprStmt); ok && st.X == ast.Expr(s.call) {
		t = "_ = " + t
	}
	return &normChange{edits: []textEdit{{s.file, n.off(s.call.Pos()), n.off(s.call.End()), t}}}
}

// assigned: the parameter may be changed or its address taken
func (n *normPkg) assigned(fd *ast.FuncDecl, v *types.Var) bool {
	found := false
	is := func(e ast.Expr) bool {
		// a part of a struct or an array is part of the variable
		for {
			e = ast.Unparen(e)
			switch x := e.(type) {
			case *ast.SelectorExpr:
				if _, ok := n.info.TypeOf(x.X).Underlying().(*types.Struct); ok {
					e = x.X
					continue
				}
			case *ast.IndexExpr:
				if _, ok := n.info.TypeOf(x.X).Underlying().(*types.Array); ok {
					e = x.X
					continue
				}
			}
			break
		}
		id, ok := e.(*ast.Ident)
		return ok && n.info.Uses[id] == types.Object(v)
	}
	ast.Inspect(fd.Body, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit:
			found = true
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				found = found || is(l)
			}
		case *ast.IncDecStmt:
			found = found || is(m.X)
		case *ast.RangeStmt:
			found = found || m.Key != nil && is(m.Key) || m.Value != nil && is(m.Value)
		case *ast.UnaryExpr:
			found = found || m.Op == token.AND && is(m.X)
		case *ast.SliceExpr:
			if _, ok := n.info.TypeOf(m.X).Underlying().(*types.Array); ok {
				found = found || is(m.X)
			}
		case *ast.SelectorExpr:
			if se := n.info.Selections[m]; se != nil && se.Kind() == types.MethodVal && is(m.X) {
				_, ptr := n.info.TypeOf(m.X).Underlying().(*types.Pointer)
				_, iface := n.info.TypeOf(m.X).Underlying().(*types.Interface)
				found = found || !ptr && !iface
			}
		}
		return true
	})
	return found
}

// small statements at the end of which the function or the loop is left
func leavesAfter(b *ast.BlockStmt) bool {
	if len(b.List) == 0 || len(b.List) > 6 {
		return false
	}
	bad := false
	ast.Inspect(b, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit, *ast.LabeledStmt:
			bad = true
		case *ast.BranchStmt:
			if m.Tok == token.GOTO || m.Tok == token.FALLTHROUGH {
				bad = true
			}
		}
		return true
	})
	if bad {
		return false
	}
	switch l := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := l.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func (n *normPkg) inlineStmt(s normSite, st ast.Stmt, list []ast.Stmt, idx int, lhs []ast.Expr, ret *ast.ReturnStmt) *normChange {
	fd := s.f.fd
	sig := s.f.obj.Type().(*types.Signature)
	params, ok := n.bind(s)
	if !ok {
		return nil
	}
	if ok, first := n.scopes(s); !ok {
		return first
	}
	lit, fnParam := false, false
	ast.Inspect(fd.Body, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			lit = true
		}
		return true
	})
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok {
			fnParam = true
		}
	}
	_ = lit
	given := map[types.Object]string{}
	var head, body strings.Builder
	var later []normParam
	for _, p := range params {
		if id, ok := p.expr.(*ast.Ident); ok && p.obj != nil && !fnParam && !n.assigned(fd, p.obj) {
			if v, ok := n.info.Uses[id].(*types.Var); ok && n.isLocal(v) && types.Identical(v.Type(), p.obj.Type()) {
				given[p.obj] = id.Name
				continue
			}
		}
		later = append(later, p)
	}
	edits := n.renames(s.f, given)
	nameOf := func(o types.Object, def *ast.Ident) string {
		return n.render(s.f.file, def.Pos(), def.End(), edits)
	}
	// parameters
	defs := map[types.Object]*ast.Ident{}
	for _, id := range n.idents(fd) {
		if o := n.info.Defs[id]; o != nil {
			defs[o] = id
		}
	}
	var binds []string
	for _, p := range later {
		if p.obj == nil || p.obj.Name() == "_" {
			binds = append(binds, "var _ "+p.typ+" = "+p.text)
			continue
		}
		name := nameOf(p.obj, defs[p.obj])
		binds = append(binds, "var "+name+" "+p.typ+" = "+p.text+"; _ = "+name)
	}
	// results
	var types_ []string
	var named []string
	if fd.Type.Results != nil {
		for _, f := range fd.Type.Results.List {
			t := n.src(s.f.file, f.Type.Pos(), f.Type.End())
			if len(f.Names) == 0 {
				types_ = append(types_, t)
			}
			for _, id := range f.Names {
				types_ = append(types_, t)
				if id.Name == "_" {
					name := n.fresh("r")
					named = append(named, name)
				} else {
					named = append(named, nameOf(nil, id))
				}
				binds = append(binds, "var "+named[len(named)-1]+" "+t+"; _ = "+named[len(named)-1])
			}
		}
	}
	if lhs != nil && len(lhs) != len(types_) {
		return nil
	}
	// targets
	var targets []string
	var after string
	as, _ := st.(*ast.AssignStmt)
	for i, l := range lhs {
		id, isID := l.(*ast.Ident)
		switch {
		case isID && id.Name == "_":
			targets = append(targets, "_")
		case isID:
			if as.Tok == token.DEFINE && n.info.Defs[id] != nil {
				head.WriteString("var " + id.Name + " " + types_[i] + "; _ = " + id.Name + "; ")
			}
			targets = append(targets, id.Name)
		default:
			t := n.fresh("r")
			head.WriteString("var " + t + " " + types_[i] + "; ")
			targets = append(targets, t)
			after += n.src(s.file, l.Pos(), l.End()) + " = " + t + "; "
		}
	}
	// what follows the call looks at a result right away
	end := st.End()
	var follow *ast.IfStmt
	which, negate, isNil := -1, false, false
	var extra []textEdit
	followBody := ""
	if lhs != nil && after == "" && idx+1 < len(list) {
		if iff, ok := list[idx+1].(*ast.IfStmt); ok && iff.Init == nil && iff.Else == nil && leavesAfter(iff.Body) {
			cond := ast.Unparen(iff.Cond)
			var id *ast.Ident
			if u, ok := cond.(*ast.UnaryExpr); ok && u.Op == token.NOT {
				id, _ = ast.Unparen(u.X).(*ast.Ident)
				negate = true
			} else if b, ok := cond.(*ast.BinaryExpr); ok && b.Op == token.NEQ {
				if y, ok := b.Y.(*ast.Ident); ok && y.Name == "nil" {
					id, _ = b.X.(*ast.Ident)
					isNil = true
				}
			} else if x, ok := cond.(*ast.Ident); ok {
				id = x
			}
			if id != nil {
				for i, l := range lhs {
					if lid, ok := l.(*ast.Ident); ok && lid.Name == id.Name && id.Name != "_" {
						which, follow = i, iff
					}
				}
			}
			if follow != nil {
				t, more, ok := n.outOf(s, iff.Body)
				if !ok {
					follow = nil
				} else {
					followBody, extra = t, more
					end = iff.End()
				}
			}
		}
	}
	// the returns
	label := n.fresh("L")
	useLabel := false
	last := ast.Stmt(nil)
	if k := len(fd.Body.List); k > 0 {
		last = fd.Body.List[k-1]
	}
	failed := false
	var stack []ast.Node
	ast.Inspect(fd.Body, func(m ast.Node) bool {
		if m == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, m)
		if _, ok := m.(*ast.FuncLit); ok {
			stack = stack[:len(stack)-1]
			return false
		}
		r, ok := m.(*ast.ReturnStmt)
		if !ok {
			return true
		}
		var exprs []string
		tuple := len(r.Results) == 1 && len(types_) > 1
		for i, e := range r.Results {
			t := n.render(s.f.file, e.Pos(), e.End(), edits)
			if !tuple {
				// of the result's type, if the target has another
				var want types.Type
				if ret != nil {
					want = nil
					if out := n.resultTypes(s); out != nil && i < len(out) {
						want = out[i]
					}
				} else if lhs != nil {
					want = n.info.TypeOf(lhs[i])
				}
				if lhs != nil && targets[i] == "_" || lhs == nil && ret == nil {
					want = nil
					t = "(" + types_[i] + ")(" + t + ")"
				} else if want != nil && !types.Identical(want, sig.Results().At(i).Type()) {
					t = "(" + types_[i] + ")(" + t + ")"
				}
			}
			exprs = append(exprs, t)
		}
		if len(r.Results) == 0 {
			exprs = append(exprs, named...)
		}
		var t string
		switch {
		case ret != nil:
			t = "return " + strings.Join(exprs, ", ")
		case len(types_) == 0:
		case lhs == nil:
			blanks := strings.TrimSuffix(strings.Repeat("_, ", len(types_)), ", ")
			t = blanks + " = " + strings.Join(exprs, ", ")
		default:
			t = strings.Join(targets, ", ") + " = " + strings.Join(exprs, ", ")
		}
		if ret == nil {
			left := false
			if follow != nil {
				yes, known := false, false // the condition after the call
				if !tuple && which < len(r.Results) {
					e := r.Results[which]
					tv := n.info.Types[e]
					if isNil {
						if tv.IsNil() {
							known = true
						} else if n.surelyError(e, stack) {
							yes, known = true, true
						}
					} else if tv.Value != nil && tv.Value.Kind() == constant.Bool {
						yes, known = constant.BoolVal(tv.Value) != negate, true
					}
				}
				switch {
				case known && yes:
					t += ";" + followBody + n.line(r.End())
					left = true
				case !known:
					t += "; if " + n.src(s.file, follow.Cond.Pos(), follow.Cond.End()) + " {" + followBody + "}" + n.line(r.End())
				}
			}
			if !left && ast.Stmt(r) != last {
				t += "; break " + label
				useLabel = true
			}
		}
		edits = append(edits, textEdit{s.f.file, n.off(r.Pos()), n.off(r.End()), strings.TrimPrefix(t, "; ")})
		return true
	})
	if failed {
		return nil
	}
	if follow != nil && last != nil {
		if _, ok := last.(*ast.ReturnStmt); !ok {
			// every path ends in one of the returns
		}
	}
	inner := n.render(s.f.file, fd.Body.Lbrace+1, fd.Body.Rbrace, edits)
	body.WriteString(head.String())
	body.WriteString("{ ")
	for _, b := range binds {
		body.WriteString(b + "; ")
	}
	if useLabel {
		body.WriteString(label + ": for { ")
	}
	body.WriteString(n.line(fd.Body.Lbrace))
	body.WriteString(inner)
	if useLabel {
		body.WriteString("\nbreak " + label + " }")
	}
	body.WriteString("\n}; " + after)
	body.WriteString(n.line(end))
	edit := textEdit{s.file, n.off(st.Pos()), n.off(end), body.String()}
	return &normChange{edits: append([]textEdit{edit}, extra...)}
}

// resultTypes of the function that the call is in
func (n *normPkg) resultTypes(s normSite) []types.Type {
	for i := len(s.stack) - 1; i >= 0; i-- {
		var t types.Type
		switch f := s.stack[i].(type) {
		case *ast.FuncLit:
			t = n.info.TypeOf(f)
		case *ast.FuncDecl:
			t = n.info.Defs[f.Name].Type()
		default:
			continue
		}
		var out []types.Type
		res := t.(*types.Signature).Results()
		for k := 0; k < res.Len(); k++ {
			out = append(out, res.At(k).Type())
		}
		return out
	}
	return nil
}

// surelyError: an error that was just made, or one that was just found not to be nil
func (n *normPkg) surelyError(e ast.Expr, stack []ast.Node) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok {
				return id.Name+"."+sel.Sel.Name == "fmt.Errorf" || id.Name+"."+sel.Sel.Name == "errors.New"
			}
		}
	case *ast.Ident:
		o := n.info.Uses[x]
		if o != nil && o.Parent() == n.types.Scope() && strings.HasPrefix(o.Name(), "Err") {
			return true
		}
		for i := len(stack) - 1; i > 0; i-- {
			if blk, ok := stack[i].(*ast.BlockStmt); ok {
				iff, ok := stack[i-1].(*ast.IfStmt)
				if !ok || iff.Body != blk {
					return false
				}
				for _, st := range blk.List {
					if as, ok := st.(*ast.AssignStmt); ok {
						for _, l := range as.Lhs {
							if id, ok := l.(*ast.Ident); ok && id.Name == x.Name {
								return false
							}
						}
					}
				}
				b, ok := iff.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.NEQ {
					return false
				}
				id, ok := b.X.(*ast.Ident)
				y, ok2 := b.Y.(*ast.Ident)
				return ok && ok2 && y.Name == "nil" && n.info.Uses[id] == o
			}
		}
	}
	return false
}

// outOf gives the text of statements so that it can stand in a loop: a break or continue names the loop.
func (n *normPkg) outOf(s normSite, b *ast.BlockStmt) (string, []textEdit, bool) {
	var edits, extra []textEdit
	ok := true
	labels := map[ast.Node]string{}
	// the statements around the call, with their labels
	find := func(tok token.Token) string {
		for i := len(s.stack) - 1; i > 0; i-- {
			m := s.stack[i]
			switch m.(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				return ""
			case *ast.ForStmt, *ast.RangeStmt:
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				if tok == token.CONTINUE {
					continue
				}
			default:
				continue
			}
			if l, ok := s.stack[i-1].(*ast.LabeledStmt); ok {
				return l.Label.Name
			}
			if labels[m] == "" {
				labels[m] = n.fresh("L")
				extra = append(extra, textEdit{s.file, n.off(m.Pos()), n.off(m.Pos()), labels[m] + ": "})
			}
			return labels[m]
		}
		return ""
	}
	var walk func(m ast.Node, loop, sw bool)
	walk = func(m ast.Node, loop, sw bool) {
		for _, k := range children(m) {
			switch k := k.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				walk(k, true, sw)
				continue
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(k, loop, true)
				continue
			case *ast.BranchStmt:
				if k.Label == nil && (k.Tok == token.CONTINUE && !loop || k.Tok == token.BREAK && !loop && !sw) {
					l := find(k.Tok)
					if l == "" {
						ok = false
						return
					}
					edits = append(edits, textEdit{s.file, n.off(k.Pos()), n.off(k.End()), k.Tok.String() + " " + l})
				}
			}
			walk(k, loop, sw)
		}
	}
	walk(b, false, false)
	if !ok {
		return "", nil, false
	}
	return n.line(b.Lbrace) + n.render(s.file, b.Lbrace+1, b.Rbrace, edits) + "\n", extra, true
}
