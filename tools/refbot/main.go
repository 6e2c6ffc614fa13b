// refbot rewrites all code of a copy of the repository in one behaviour-preserving way, to see that the checks stay quiet.
// usage: refbot DIR TRANSFORMATION
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type bot struct {
	renamed map[types.Object]bool
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	n       int
	count   int
	added   []ast.Decl

	imported map[string]bool
}

func main() {
	dir, kind := os.Args[1], os.Args[2]
	for _, sub := range []string{".", "cmd/fontcmd"} {
		cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: filepath.Join(dir, sub), Fset: token.NewFileSet(),
			ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
				return parser.ParseFile(fset, name, src, parser.SkipObjectResolution) // comments are dropped
			}}
		pkgs, err := packages.Load(cfg, ".")
		if err != nil || len(pkgs) != 1 || len(pkgs[0].Errors) > 0 {
			fmt.Fprintln(os.Stderr, err, pkgs[0].Errors)
			os.Exit(2)
		}
		p := pkgs[0]
		b := &bot{fset: cfg.Fset, info: p.TypesInfo, pkg: p.Types}
		for i, f := range p.Syntax {
			name := p.GoFiles[i]
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			b.added = nil
			b.imported = map[string]bool{}
			for _, im := range f.Imports {
				if im.Name == nil {
					b.imported[strings.Trim(im.Path.Value, "\"")] = true
				}
			}
			before := b.count
			b.file(f, kind)
			if strings.HasPrefix(kind, "rename") && kind != "rename" {
				continue
			}
			f.Decls = append(f.Decls, b.added...)
			if b.count == before {
				continue
			}
			// positions would let the printer put lines in odd places
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				fmt.Fprintln(os.Stderr, name, err)
				os.Exit(2)
			}
			out := buf.Bytes()
			if o, err := format.Source(out); err == nil {
				out = o
			}
			// keep build constraints
			src, _ := os.ReadFile(name)
			var head []byte
			for _, l := range strings.SplitAfter(string(src), "\n") {
				if strings.HasPrefix(l, "//go:build") {
					head = append(head, l+"\n"...)
				} else if strings.HasPrefix(l, "package ") {
					break
				}
			}
			os.WriteFile(name, append(head, out...), 0o644)
		}
		if strings.HasPrefix(kind, "rename") && kind != "rename" {
			for i, f := range p.Syntax {
				if strings.HasSuffix(p.GoFiles[i], "_test.go") {
					continue
				}
				src, _ := os.ReadFile(p.GoFiles[i])
				var at []int
				ast.Inspect(f, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok && (b.renamed[b.info.Defs[id]] || b.renamed[b.info.Uses[id]]) {
						at = append(at, b.fset.Position(id.End()).Offset)
					}
					return true
				})
				sort.Sort(sort.Reverse(sort.IntSlice(at)))
				for _, o := range at {
					src = append(src[:o:o], append([]byte("Z"), src[o:]...)...)
				}
				os.WriteFile(p.GoFiles[i], src, 0o644)
			}
		}
		fmt.Println(kind, sub, b.count)
	}
}

func (b *bot) name(s string) *ast.Ident {
	b.n++
	return ast.NewIdent(fmt.Sprintf("%sQ%d", s, b.n))
}

func (b *bot) text(n ast.Node) string {
	var buf bytes.Buffer
	format.Node(&buf, b.fset, n)
	return buf.String()
}

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// errs: returns may be there, when they report an error
var errs func(r *ast.ReturnStmt) bool

// leaves: break, continue (of an outer statement), return, goto, labels, defer in the node.
func leaves(n ast.Node, inLoop, inSwitch bool) bool {
	found := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, true, sw)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(m, loop, true)
				return false
			case *ast.ReturnStmt:
				found = found || errs == nil || !errs(m)
			case *ast.DeferStmt, *ast.LabeledStmt:
				found = true
			case *ast.BranchStmt:
				switch {
				case m.Label != nil, m.Tok == token.GOTO, m.Tok == token.FALLTHROUGH:
					found = true
				case m.Tok == token.BREAK:
					found = found || !loop && !sw
				case m.Tok == token.CONTINUE:
					found = found || !loop
				}
			}
			return true
		})
	}
	walk(n, inLoop, inSwitch)
	return found
}

func hasContinue(body *ast.BlockStmt) bool {
	found := false
	ast.Inspect(body, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
			return false
		case *ast.BranchStmt:
			if m.Tok == token.CONTINUE || m.Label != nil || m.Tok == token.GOTO {
				found = true
			}
		}
		return true
	})
	return found
}

func labels(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.LabeledStmt:
			found = true
		case *ast.BranchStmt:
			found = found || m.Label != nil
		}
		return true
	})
	return found
}

func (b *bot) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv := b.info.Types[n.Fun]; tv.IsType() || tv.IsBuiltin() {
				return true
			}
			ok = false
		case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && n.Op != token.ARROW
		case *ast.BinaryExpr:
			ok = ok && n.Op != token.QUO && n.Op != token.REM
		}
		return ok
	})
	return ok
}

func (b *bot) file(f *ast.File, kind string) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if labels(fd) {
			continue
		}
		switch kind {
		case "rename":
			b.rename(fd)
			continue
		case "extract":
			b.extract(fd, 0)
			continue
		case "extractloop":
			b.extract(fd, 1)
			continue
		case "extractfor": // whole loops
			b.extract(fd, 2)
			continue
		case "extractcase": // clauses of a switch
			b.extract(fd, 3)
			continue
		case "extractif": // whole ifs
			b.extract(fd, 4)
			continue
		case "returns":
			b.returns(fd)
			continue
		case "renamefn":
			if fd.Recv == nil && !token.IsExported(fd.Name.Name) && fd.Name.Name != "init" && fd.Name.Name != "main" || fd.Recv != nil && !token.IsExported(fd.Name.Name) {
				if b.renamed == nil {
					b.renamed = map[types.Object]bool{}
				}
				b.renamed[b.info.Defs[fd.Name]] = true
				b.count++
			}
			continue
		case "renamefield":
			for _, name := range b.pkg.Scope().Names() {
				if st, ok := b.pkg.Scope().Lookup(name).Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); !f.Exported() && !f.Embedded() {
							if b.renamed == nil {
								b.renamed = map[types.Object]bool{}
							}
							b.renamed[f] = true
							b.count++
						}
					}
				}
			}
			continue
		case "extractcond", "extractexpr":
			b.extractExpr(fd, kind == "extractexpr")
			continue
		}
		astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
			switch n := c.Node().(type) {
			case *ast.ForStmt:
				switch kind {
				case "loopcond":
					if n.Cond != nil {
						n.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(n.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, n.Body.List...)
						n.Cond = nil
						b.count++
					}
				case "while":
					if n.Init != nil && n.Post != nil && !hasContinue(n.Body) {
						n.Body.List = append(n.Body.List, n.Post)
						blk := &ast.BlockStmt{List: []ast.Stmt{n.Init, n}}
						n.Init, n.Post = nil, nil
						c.Replace(blk)
						b.count++
					}
				case "downcond": // i < n as !(i >= n)
					if be, ok := n.Cond.(*ast.BinaryExpr); ok {
						if op, ok := map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[be.Op]; ok && isInteger(b.info.TypeOf(be.X)) {
							be.Op = op
							n.Cond = not(be)
							b.count++
						}
					}
				}
			case *ast.RangeStmt:
				if kind == "range" {
					b.rng(c, n)
				}
			case *ast.IfStmt:
				switch kind {
				case "invert":
					if n.Else != nil && n.Init == nil {
						els, ok := n.Else.(*ast.BlockStmt)
						if !ok {
							els = &ast.BlockStmt{List: []ast.Stmt{n.Else}}
						}
						n.Cond = not(n.Cond)
						n.Body, n.Else = els, n.Body
						b.count++
					}
				case "ifinit":
					if n.Init != nil {
						if _, isElse := c.Parent().(*ast.IfStmt); isElse && c.Name() == "Else" {
							break
						}
						blk := &ast.BlockStmt{List: []ast.Stmt{n.Init, n}}
						n.Init = nil
						c.Replace(blk)
						b.count++
					}
				case "splitand":
					if be, ok := n.Cond.(*ast.BinaryExpr); ok && be.Op == token.LAND && n.Else == nil {
						n.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: be.Y, Body: n.Body}}}
						n.Cond = be.X
						b.count++
					}
				case "condvar": // the condition in a variable
					if _, isElse := c.Parent().(*ast.IfStmt); isElse && c.Name() == "Else" {
						break
					}
					if n.Init == nil {
						v := b.name("cond")
						blk := &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{n.Cond}}, n}}
						n.Cond = ast.NewIdent(v.Name)
						c.Replace(blk)
						b.count++
					}
				case "elseafter": // if c { ...return } else { rest } loses the else
					if n.Else != nil && n.Init == nil && c.Index() >= 0 && len(n.Body.List) > 0 {
						if _, ok := n.Body.List[len(n.Body.List)-1].(*ast.ReturnStmt); ok {
							els := n.Else
							n.Else = nil
							c.InsertAfter(els)
							b.count++
						}
					}
				}
			case *ast.BlockStmt:
				switch c.Parent().(type) {
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					return true
				}
				if kind == "elsereturn" {
					b.elseReturn(n)
				}
				if kind == "noop" && len(n.List) > 0 {
					v := b.name("unused")
					n.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}}}, n.List...)
					b.count++
				}
				if kind == "swapdecl" {
					b.swap(n)
				}
			case *ast.BinaryExpr:
				if kind == "swapcmp" {
					op, ok := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[n.Op]
					if ok {
						n.X, n.Y, n.Op = n.Y, n.X, op
						b.count++
					}
				}
				if kind == "demorgan" && (n.Op == token.LAND || n.Op == token.LOR) {
					op := token.LAND
					if n.Op == token.LAND {
						op = token.LOR
					}
					c.Replace(not(&ast.BinaryExpr{X: not(n.X), Op: op, Y: not(n.Y)}))
					b.count++
				}
			case *ast.AssignStmt:
				if kind == "opassign" && n.Tok != token.ASSIGN && n.Tok != token.DEFINE {
					op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[n.Tok]
					if op != 0 && b.pureLhs(n.Lhs[0]) {
						n.Rhs[0] = &ast.BinaryExpr{X: n.Lhs[0], Op: op, Y: &ast.ParenExpr{X: n.Rhs[0]}}
						n.Tok = token.ASSIGN
						b.count++
					}
				}
				if kind == "temps" && n.Tok == token.ASSIGN && len(n.Lhs) == 1 && len(n.Rhs) == 1 && c.Index() >= 0 {
					// the value first goes to a variable of its own
					t := b.info.TypeOf(n.Lhs[0])
					if _, isC := n.Rhs[0].(*ast.BasicLit); !isC && t != nil && b.info.Types[n.Rhs[0]].Value == nil && b.pureLhs(n.Lhs[0]) && !types.Identical(b.info.TypeOf(n.Rhs[0]), types.Typ[types.UntypedNil]) && types.Identical(t, b.info.TypeOf(n.Rhs[0])) && b.info.Types[n.Rhs[0]].IsValue() {
						v := b.name("tmp")
						c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{n.Rhs[0]}})
						n.Rhs[0] = ast.NewIdent(v.Name)
						b.count++
					}
				}
			case *ast.IncDecStmt:
				if kind == "opassign" && b.pureLhs(n.X) {
					op := token.ADD
					if n.Tok == token.DEC {
						op = token.SUB
					}
					c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{n.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: n.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
					b.count++
				}
			case *ast.SwitchStmt:
				if kind == "switch" {
					b.sw(c, n)
				}
			}
			return true
		})
	}
}

func isInteger(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0
}

func (b *bot) pureLhs(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return b.pureLhs(e.X)
	}
	return false
}

func (b *bot) rng(c *astutil.Cursor, n *ast.RangeStmt) {
	if n.Tok == token.ASSIGN || n.X == nil {
		return
	}
	if _, ok := b.info.TypeOf(n.X).Underlying().(*types.Slice); !ok || hasContinueOuter(n) {
		return
	}
	xs, i := b.name("list"), b.name("idx")
	if id, ok := n.Key.(*ast.Ident); ok && id.Name != "_" {
		i = id
	}
	body := n.Body
	// the index must not be changed in the body
	changed := false
	ast.Inspect(body, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == i.Name {
					changed = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := m.X.(*ast.Ident); ok && id.Name == i.Name {
				changed = true
			}
		}
		return true
	})
	if changed {
		return
	}
	if id, ok := n.Value.(*ast.Ident); ok && id.Name != "_" {
		body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(xs.Name), Index: ast.NewIdent(i.Name)}}}}, body.List...)
	}
	loop := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(i.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
		Cond: &ast.BinaryExpr{X: ast.NewIdent(i.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent(xs.Name)}}},
		Post: &ast.IncDecStmt{X: ast.NewIdent(i.Name), Tok: token.INC},
		Body: body,
	}
	c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{xs}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}, loop}})
	b.count++
}

func hasContinueOuter(n *ast.RangeStmt) bool { return false }

// sw: a switch becomes a chain of ifs.
func (b *bot) sw(c *astutil.Cursor, n *ast.SwitchStmt) {
	bad := false
	ast.Inspect(n.Body, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.FuncLit:
			ast.Inspect(m, func(k ast.Node) bool {
				if br, ok := k.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					bad = true
				}
				return true
			})
			return false
		case *ast.BranchStmt:
			if m.Tok == token.BREAK || m.Tok == token.FALLTHROUGH {
				bad = true
			}
		}
		return true
	})
	if bad || n.Init != nil {
		return
	}
	var pre ast.Stmt
	var tag ast.Expr
	if n.Tag != nil {
		v := b.name("tag")
		pre = &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{n.Tag}}
		if b.info.Types[n.Tag].Value != nil {
			return
		}
		tag = ast.NewIdent(v.Name)
	}
	var def *ast.BlockStmt
	var first, last *ast.IfStmt
	for _, s := range n.Body.List {
		cc := s.(*ast.CaseClause)
		blk := &ast.BlockStmt{List: cc.Body}
		if cc.List == nil {
			def = blk
			continue
		}
		var cond ast.Expr
		for _, e := range cc.List {
			var one ast.Expr = &ast.ParenExpr{X: e}
			if tag != nil {
				one = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
			}
			if cond == nil {
				cond = one
			} else {
				cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: one}
			}
		}
		i := &ast.IfStmt{Cond: cond, Body: blk}
		if last == nil {
			first = i
		} else {
			last.Else = i
		}
		last = i
	}
	if first == nil {
		return
	}
	if def != nil {
		last.Else = def
	}
	l := []ast.Stmt{first}
	if pre != nil {
		l = []ast.Stmt{pre, first}
	}
	c.Replace(&ast.BlockStmt{List: l})
	b.count++
}

// elseReturn: if c { ...return } rest becomes if c { ...return } else { rest }, at the end of a block that does not end in the end of the function.
func (b *bot) elseReturn(n *ast.BlockStmt) {
	for i := 0; i < len(n.List)-1; i++ {
		s, ok := n.List[i].(*ast.IfStmt)
		if !ok || s.Else != nil || len(s.Body.List) == 0 {
			continue
		}
		br, ok := s.Body.List[len(s.Body.List)-1].(*ast.BranchStmt)
		if !ok || br.Tok != token.CONTINUE {
			if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ok {
				continue
			}
		}
		s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, n.List[i+1:]...)}
		n.List = n.List[:i+1]
		b.count++
		return
	}
}

// swap: two definitions next to each other that do not depend on one another, without calls.
func (b *bot) swap(n *ast.BlockStmt) {
	for i := 0; i+1 < len(n.List); i++ {
		x, ok1 := n.List[i].(*ast.AssignStmt)
		y, ok2 := n.List[i+1].(*ast.AssignStmt)
		if !ok1 || !ok2 || len(x.Lhs) != 1 || len(y.Lhs) != 1 || len(x.Rhs) != 1 || len(y.Rhs) != 1 {
			continue
		}
		if !b.pure(x.Rhs[0]) || !b.pure(y.Rhs[0]) || !b.pureLhs(x.Lhs[0]) || !b.pureLhs(y.Lhs[0]) {
			continue
		}
		tx, ty := b.text(x.Lhs[0]), b.text(y.Lhs[0])
		if tx == ty || strings.Contains(b.text(y), tx) || strings.Contains(b.text(x), ty) {
			continue
		}
		n.List[i], n.List[i+1] = y, x
		b.count++
		i++
	}
}

func (b *bot) rename(fd *ast.FuncDecl) {
	if fd.Type.Results != nil {
		for _, r := range fd.Type.Results.List {
			if len(r.Names) > 0 {
				return
			}
		}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if ts, ok := n.(*ast.TypeSwitchStmt); ok {
			_ = ts
		}
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := b.info.Defs[id]
		if o == nil {
			o = b.info.Uses[id]
		}
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Parent() == b.pkg.Scope() || v.Pkg() != b.pkg || v.Pos() < fd.Body.Pos() || v.Pos() > fd.End() {
			return true
		}
		if id.Name != "_" && !b.typeSwitchVar(fd, v) {
			id.Name += "Renamed"
			b.count++
		}
		return true
	})
}

func (b *bot) typeSwitchVar(fd *ast.FuncDecl, v *types.Var) bool {
	found := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if ts, ok := n.(*ast.TypeSwitchStmt); ok {
			for _, s := range ts.Body.List {
				if b.info.Implicits[s] == v {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// returns: results go through variables of their own.
func (b *bot) returns(fd *ast.FuncDecl) {
	sig := b.info.Defs[fd.Name].Type().(*types.Signature)
	if sig.Results().Len() == 0 {
		return
	}
	names := map[string]bool{}
	ast.Inspect(fd, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok {
			if v, ok := b.info.Defs[id].(*types.Var); ok {
				names[v.Name()] = true
			}
		}
		return true
	})
	for i := 0; i < sig.Results().Len(); i++ {
		for _, w := range strings.FieldsFunc(b.typeText(sig.Results().At(i).Type()), func(r rune) bool { return strings.ContainsRune("*[].", r) }) {
			if names[w] {
				return
			}
		}
	}
	astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
		_, lit := c.Node().(*ast.FuncLit)
		return !lit
	}, func(c *astutil.Cursor) bool {
		r, ok := c.Node().(*ast.ReturnStmt)
		if !ok || len(r.Results) != sig.Results().Len() || c.Index() < 0 {
			return true
		}
		for i, e := range r.Results {
			v := b.name("res")
			te, err := parser.ParseExpr(b.typeText(sig.Results().At(i).Type()))
			if err != nil {
				return true
			}
			clean(te)
			c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{v}, Type: te, Values: []ast.Expr{e}}}}})
			r.Results[i] = ast.NewIdent(v.Name)
		}
		b.count++
		return true
	})
}

// extractExpr turns conditions (or other computations) into functions.
func (b *bot) extractExpr(fd *ast.FuncDecl, any bool) {
	if fd.Type.TypeParams != nil {
		return
	}
	astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
		e, ok := c.Node().(*ast.BinaryExpr)
		if !ok {
			return true
		}
		tv := b.info.Types[e]
		if tv.Value != nil {
			return false
		}
		isB := types.Identical(tv.Type.Underlying(), types.Typ[types.Bool]) || types.Identical(tv.Type.Underlying(), types.Typ[types.UntypedBool])
		if isB == any {
			return true
		}
		if !isB && !isInteger(tv.Type) {
			return true
		}
		bad := false
		var params []*types.Var
		seen := map[*types.Var]bool{}
		ast.Inspect(e, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				bad = true
			case *ast.UnaryExpr:
				bad = bad || m.Op == token.AND
			case *ast.Ident:
				switch o := b.info.Uses[m].(type) {
				case *types.Var:
					if !o.IsField() && o.Parent() != b.pkg.Scope() && o.Pkg() == b.pkg && !seen[o] {
						seen[o] = true
						params = append(params, o)
					}
				case *types.Const:
					bad = bad || o.Pkg() == b.pkg && o.Parent() != b.pkg.Scope()
				case *types.TypeName:
					bad = bad || o.Pkg() == b.pkg && o.Parent() != b.pkg.Scope()
				}
			}
			return true
		})
		for _, v := range params {
			switch v.Type().Underlying().(type) {
			case *types.Basic, *types.Pointer, *types.Slice, *types.Map:
			default:
				bad = true
			}
			if strings.Contains(v.Type().String(), "struct{") || strings.Contains(v.Type().String(), "func(") {
				bad = true
			}
			types.TypeString(v.Type(), func(p *types.Package) string {
				if p != b.pkg && !b.imported[p.Path()] {
					bad = true
				}
				return ""
			})
		}
		if bad || len(params) == 0 || len(params) > 5 {
			return true
		}
		name := b.name("calc")
		rt := "bool"
		if !isB {
			rt = b.typeText(tv.Type)
		}
		ft := &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent(rt)}}}}
		call := &ast.CallExpr{Fun: ast.NewIdent(name.Name)}
		for _, v := range params {
			ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: ast.NewIdent(b.typeText(v.Type()))})
			call.Args = append(call.Args, ast.NewIdent(v.Name()))
		}
		b.added = append(b.added, &ast.FuncDecl{Name: name, Type: ft, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}}}})
		c.Replace(call)
		b.count++
		return false
	}, nil)
}

func clean(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok {
			id.NamePos = 0
		}
		return true
	})
}

func (b *bot) typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == b.pkg {
			return ""
		}
		return p.Name()
	})
}

// extract moves the bodies of ifs (or of loops) into functions of their own, with what they use as parameters and what they change as results.
func (b *bot) extract(fd *ast.FuncDecl, mode int) {
	if fd.Recv == nil && fd.Name.Name == "init" || fd.Type.TypeParams != nil {
		return
	}
	pos := token.NoPos
	astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
		if _, ok := c.Node().(*ast.FuncLit); ok {
			return false
		}
		var body *ast.BlockStmt
		whole := false
		switch n := c.Node().(type) {
		case *ast.IfStmt:
			if mode == 0 {
				body = n.Body
			} else if mode == 4 && c.Index() >= 0 && len(n.Body.List) > 1 {
				body, whole = &ast.BlockStmt{List: []ast.Stmt{n}, Lbrace: n.Pos(), Rbrace: n.End()}, true
			}
		case *ast.ForStmt:
			if mode == 1 {
				body = n.Body
			} else if mode == 2 && c.Index() >= 0 {
				body, whole = &ast.BlockStmt{List: []ast.Stmt{n}, Lbrace: n.Pos(), Rbrace: n.End()}, true
			}
		case *ast.RangeStmt:
			if mode == 1 {
				body = n.Body
			} else if mode == 2 && c.Index() >= 0 {
				body, whole = &ast.BlockStmt{List: []ast.Stmt{n}, Lbrace: n.Pos(), Rbrace: n.End()}, true
			}
		case *ast.CaseClause:
			if mode == 3 && len(n.Body) > 0 {
				body = &ast.BlockStmt{List: n.Body, Lbrace: n.Colon, Rbrace: n.End()}
			}
		}
		if body == nil || len(body.List) == 0 || mode != 2 && mode != 4 && len(body.List) < 2 || body.Pos() < pos {
			return true
		}
		returns := false
		errs = func(r *ast.ReturnStmt) bool {
			if fd.Type.Results == nil || len(fd.Type.Results.List) != len(r.Results) || len(r.Results) == 0 || fd.Type.Results.List[0].Names != nil {
				return false
			}
			for i, e := range r.Results {
				t := b.text(e)
				if i == len(r.Results)-1 {
					tv := b.info.TypeOf(e)
					if t == "nil" || tv == nil || tv.String() != "error" && !strings.Contains(tv.String(), "rror") {
						return false
					}
				} else if t != "nil" && t != "0" && t != "\"\"" && t != "false" {
					return false
				}
			}
			returns = true
			return true
		}
		if _, ok := c.Parent().(*ast.IfStmt); ok && whole {
			return true // else if
		}
		if leaves(body, false, false) {
			return true
		}
		var params, outs []*types.Var
		seen := map[*types.Var]bool{}
		assigned := map[*types.Var]bool{}
		bad := false
		local := func(v *types.Var) bool {
			return !v.IsField() && v.Parent() != b.pkg.Scope() && v.Pkg() == b.pkg && (v.Pos() < body.Pos() || v.Pos() > body.End())
		}
		mark := func(e ast.Expr) {
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.SelectorExpr: // a field of a struct variable
					if _, ok := b.info.TypeOf(x.X).Underlying().(*types.Struct); ok {
						e = x.X
						continue
					}
				case *ast.IndexExpr:
					if _, ok := b.info.TypeOf(x.X).Underlying().(*types.Array); ok {
						e = x.X
						continue
					}
				case *ast.Ident:
					o := b.info.Uses[x]
					if v, ok := o.(*types.Var); ok && local(v) {
						assigned[v] = true
					}
				}
				return
			}
		}
		ast.Inspect(body, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				bad = true
			case *ast.UnaryExpr:
				if m.Op == token.AND {
					before := len(assigned)
					mark(m.X)
					bad = bad || len(assigned) != before
				}
			case *ast.AssignStmt:
				for _, l := range m.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(m.X)
			case *ast.RangeStmt:
				if m.Tok == token.ASSIGN {
					bad = true
				}
			case *ast.SelectorExpr:
				// a method with a pointer receiver on a variable
				if s := b.info.Selections[m]; s != nil && s.Kind() == types.MethodVal {
					if _, ptr := s.Recv().Underlying().(*types.Pointer); !ptr {
						if r := s.Obj().(*types.Func).Type().(*types.Signature).Recv(); r != nil {
							if _, ok := r.Type().Underlying().(*types.Pointer); ok {
								bad = true
							}
						}
					}
				}
			case *ast.Ident:
				if v, ok := b.info.Uses[m].(*types.Var); ok && local(v) && !seen[v] {
					seen[v] = true
					params = append(params, v)
				}
				if tn, ok := b.info.Uses[m].(*types.TypeName); ok && tn.Pkg() == b.pkg && tn.Parent() != b.pkg.Scope() {
					bad = true
				}
				if cn, ok := b.info.Uses[m].(*types.Const); ok && cn.Pkg() == b.pkg && cn.Parent() != b.pkg.Scope() && (cn.Pos() < body.Pos() || cn.Pos() > body.End()) {
					bad = true
				}
			}
			return true
		})
		// a variable of a type that a closure elsewhere captures would see other changes; such a function is left alone
		ast.Inspect(fd.Body, func(m ast.Node) bool {
			if fl, ok := m.(*ast.FuncLit); ok {
				ast.Inspect(fl, func(k ast.Node) bool {
					if id, ok := k.(*ast.Ident); ok {
						if v, ok := b.info.Uses[id].(*types.Var); ok && (assigned[v]) {
							bad = true
						}
					}
					return true
				})
			}
			if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.AND {
				if id, ok := u.X.(*ast.Ident); ok {
					if v, ok := b.info.Uses[id].(*types.Var); ok && assigned[v] {
						bad = true
					}
				}
			}
			return true
		})
		for _, v := range params {
			if strings.Contains(v.Type().String(), "interface{") || strings.Contains(v.Type().String(), "struct{") {
				bad = true
			}
			if n, ok := v.Type().(*types.Named); ok {
				if _, ok := n.Underlying().(*types.Struct); ok {
					bad = true
				}
			}
			types.TypeString(v.Type(), func(p *types.Package) string {
				if p != b.pkg && !b.imported[p.Path()] {
					bad = true
				}
				return ""
			})
			if n, ok := v.Type().(*types.Named); ok && n.Obj().Parent() != nil && n.Obj().Pkg() == b.pkg && n.Obj().Parent() != b.pkg.Scope() {
				bad = true
			}
			if assigned[v] {
				outs = append(outs, v)
			}
		}
		if bad || len(params) > 12 || len(outs) > 5 {
			return true
		}
		name := b.name("part")
		ft := &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{}}
		call := &ast.CallExpr{Fun: ast.NewIdent(name.Name)}
		typ := func(v *types.Var) ast.Expr {
			te, err := parser.ParseExpr(b.typeText(v.Type()))
			if err != nil {
				return nil
			}
			clean(te)
			return ast.NewIdent(b.typeText(v.Type()))
		}
		for _, v := range params {
			te := typ(v)
			if te == nil {
				return true
			}
			ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: te})
			call.Args = append(call.Args, ast.NewIdent(v.Name()))
		}
		var zeros *ast.ReturnStmt
		if returns {
			ast.Inspect(body, func(m ast.Node) bool {
				if r, ok := m.(*ast.ReturnStmt); ok {
					if zeros == nil {
						zeros = &ast.ReturnStmt{Results: append([]ast.Expr{}, r.Results...)}
					}
					last := r.Results[len(r.Results)-1]
					r.Results = nil
					for _, v := range outs {
						r.Results = append(r.Results, ast.NewIdent(v.Name()))
					}
					r.Results = append(r.Results, last)
				}
				_, lit := m.(*ast.FuncLit)
				return !lit
			})
		}
		list := []ast.Stmt{&ast.BlockStmt{List: body.List}}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if returns {
			// the outcome goes to a variable of its own
			ev := b.name("err")
			as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{call}}
			ret := &ast.ReturnStmt{}
			for _, v := range outs {
				ft.Results.List = append(ft.Results.List, &ast.Field{Type: typ(v)})
				as.Lhs = append(as.Lhs, ast.NewIdent(v.Name()))
				ret.Results = append(ret.Results, ast.NewIdent(v.Name()))
			}
			ft.Results.List = append(ft.Results.List, &ast.Field{Type: ast.NewIdent("error")})
			as.Lhs = append(as.Lhs, ast.NewIdent(ev.Name))
			ret.Results = append(ret.Results, ast.NewIdent("nil"))
			list = append(list, ret)
			zeros.Results[len(zeros.Results)-1] = ast.NewIdent(ev.Name)
			decl := &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(ev.Name)}, Type: ast.NewIdent("error")}}}}
			iff := &ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(ev.Name), Op: token.NEQ, Y: ast.NewIdent("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{zeros}}}
			if len(outs) == 0 {
				as.Tok = token.DEFINE
				iff.Init = as
				st = iff
			} else {
				st = &ast.BlockStmt{List: []ast.Stmt{decl, as, iff}}
			}
		} else if len(outs) > 0 {
			as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{call}}
			ret := &ast.ReturnStmt{}
			for _, v := range outs {
				ft.Results.List = append(ft.Results.List, &ast.Field{Type: typ(v)})
				as.Lhs = append(as.Lhs, ast.NewIdent(v.Name()))
				ret.Results = append(ret.Results, ast.NewIdent(v.Name()))
			}
			list = append(list, ret)
			st = as
		}
		b.added = append(b.added, &ast.FuncDecl{Name: name, Type: ft, Body: &ast.BlockStmt{List: list}})
		if whole {
			c.Replace(st)
		} else if cc, ok := c.Node().(*ast.CaseClause); ok {
			cc.Body = []ast.Stmt{st}
		} else {
			body.List = []ast.Stmt{st}
		}
		b.count++
		return false
	}, nil)
}
