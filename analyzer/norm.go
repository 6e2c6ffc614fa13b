package main

// Normal form of the source: functions that the pinned tree does not have are put back into the functions that call
// them, so that code reads the same to the rules whether or not part of it was moved to a helper. On a tree without such
// functions nothing changes. When anything about a call is out of the ordinary it is left as it is.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

//go:embed base_funcs.txt
var baseFuncs string

type normPkg struct {
	path    string
	names   []string // file names
	text    map[string]string
	orig    map[string]string
	imp     types.Importer
	fset    *token.FileSet
	files   map[string]*ast.File
	info    *types.Info
	types   *types.Package
	base    map[string]string // function to signature
	n       int               // fresh names
	failed  map[string]bool   // edits that did not type check
	sizes   types.Sizes
	words   map[string][]string
	order   []string          // the keys of base as listed
	renamed map[string]string // new names of functions of the pinned tree, and the old ones
}

type textEdit struct {
	file       string
	start, end int
	text       string
}

// a change is made as a whole or not at all
type normChange struct {
	id    string
	edits []textEdit
}

type mapImporter map[string]*types.Package

func (m mapImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not loaded", path)
}

func funcKey(fd *ast.FuncDecl) string {
	recv := ""
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			recv = id.Name
		}
	}
	return recv + "." + fd.Name.Name
}

func sigText(info *types.Info, fd *ast.FuncDecl) string {
	o, ok := info.Defs[fd.Name].(*types.Func)
	if !ok {
		return ""
	}
	sig := o.Type().(*types.Signature)
	q := func(p *types.Package) string { return p.Name() }
	var sb strings.Builder
	for i := 0; i < sig.Params().Len(); i++ {
		sb.WriteString(types.TypeString(sig.Params().At(i).Type(), q) + ",")
	}
	sb.WriteString(fmt.Sprint("|", sig.Variadic(), "|"))
	for i := 0; i < sig.Results().Len(); i++ {
		sb.WriteString(types.TypeString(sig.Results().At(i).Type(), q) + ",")
	}
	return sb.String()
}

type member struct {
	key, typ string
	obj      types.Object
}

// members lists the variables, constants and fields of the package that are not exported.
func members(pkg *types.Package) []member {
	q := func(p *types.Package) string { return p.Name() }
	var out []member
	for _, name := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(name)
		switch o := o.(type) {
		case *types.Var, *types.Const:
			if !o.Exported() {
				out = append(out, member{"=" + name, types.TypeString(o.Type(), q), o})
			}
		case *types.TypeName:
			st, ok := o.Type().Underlying().(*types.Struct)
			if !ok || o.IsAlias() {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); !f.Exported() && !f.Embedded() && f.Name() != "_" {
					out = append(out, member{name + "/" + f.Name(), types.TypeString(f.Type(), q), f})
				}
			}
		}
	}
	return out
}

// oldNames pairs the members that the pinned tree does not have with those that are gone.
func (n *normPkg) oldNames(pkg *types.Package) map[types.Object]string {
	have := map[string]bool{}
	group := func(key, typ string) string { return strings.TrimRight(key[:strings.IndexAny(key, "=/")+1], "") + typ }
	added := map[string][]member{}
	for _, m := range members(pkg) {
		have[m.key] = true
		if _, ok := n.base[m.key]; !ok {
			g := group(m.key, m.typ)
			added[g] = append(added[g], m)
		}
	}
	gone := map[string][]string{}
	for _, k := range n.order {
		if strings.ContainsAny(k, "=/") && !have[k] {
			g := group(k, n.base[k])
			gone[g] = append(gone[g], k)
		}
	}
	out := map[types.Object]string{}
	for g, ks := range gone {
		ms := added[g]
		if len(ms) != len(ks) {
			continue
		}
		if strings.HasPrefix(g, "=") && len(ks) > 1 {
			continue
		}
		for i, k := range ks { // fields are listed in their order
			out[ms[i].obj] = k[strings.IndexAny(k, "=/")+1:]
		}
	}
	return out
}

// words of the body by which a function is recognized when it has another name
func words(fd *ast.FuncDecl) []string {
	seen := map[string]bool{}
	if fd.Body != nil {
		ast.Inspect(fd.Body, func(m ast.Node) bool {
			t := ""
			switch m := m.(type) {
			case *ast.SelectorExpr:
				t = m.Sel.Name
			case *ast.BasicLit:
				t = m.Value
			}
			if t != "" && len(t) < 30 && !strings.ContainsAny(t, " \t\n") {
				seen[t] = true
			}
			return true
		})
	}
	var out []string
	for t := range seen {
		out = append(out, t)
	}
	sort.Strings(out)
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

func likeness(a, b []string) float64 {
	in := map[string]bool{}
	for _, x := range a {
		in[x] = true
	}
	both := 0
	for _, x := range b {
		if in[x] {
			both++
		}
	}
	all := len(a) + len(b) - both
	if all == 0 {
		return 1
	}
	return float64(both) / float64(all)
}

// listFuncs prints the functions of the tree in the format of base_funcs.txt.
func listFuncs(pkgs []*packages.Package) {
	for _, p := range pkgs {
		if p.PkgPath != fontPath && p.PkgPath != cmdPath {
			continue
		}
		for _, m := range members(p.Types) {
			fmt.Printf("%s\t%s\t%s\t\n", p.PkgPath, m.key, m.typ)
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					fmt.Printf("%s\t%s\t%s\t%s\n", p.PkgPath, funcKey(fd), sigText(p.TypesInfo, fd), strings.Join(words(fd), " "))
				}
			}
		}
	}
}

// normalize gives the changed files of the packages.
func normalize(pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range pkgs {
		if p.PkgPath != fontPath && p.PkgPath != cmdPath {
			continue
		}
		n := &normPkg{path: p.PkgPath, text: map[string]string{}, orig: map[string]string{}, base: map[string]string{}, failed: map[string]bool{}, words: map[string][]string{}, renamed: map[string]string{}, sizes: p.TypesSizes}
		for _, l := range strings.Split(baseFuncs, "\n") {
			f := strings.Split(l, "\t")
			if len(f) == 4 && f[0] == p.PkgPath {
				n.base[f[1]] = f[2]
				n.order = append(n.order, f[1])
				n.words[f[1]] = strings.Fields(f[3])
			}
		}
		imp := mapImporter{}
		var visit func(q *packages.Package)
		seen := map[*packages.Package]bool{}
		visit = func(q *packages.Package) {
			if seen[q] {
				return
			}
			seen[q] = true
			for path, d := range q.Imports {
				imp[path] = d.Types
				visit(d)
			}
		}
		visit(p)
		n.imp = imp
		if len(p.CompiledGoFiles) != len(p.GoFiles) {
			continue // cgo
		}
		if !n.newFuncs(p) {
			continue
		}
		ok := true
		for _, name := range p.GoFiles {
			b, err := os.ReadFile(name)
			if err != nil {
				ok = false
				break
			}
			n.names = append(n.names, name)
			n.text[name], n.orig[name] = string(b), string(b)
		}
		if !ok || !n.check() {
			continue
		}
		n.run()
		for name, t := range n.text {
			if t != n.orig[name] {
				out[name] = []byte(t)
			}
		}
	}
	return out
}

// newFuncs: the tree has functions that the pinned one does not have, which are not just renamed ones.
func (n *normPkg) newFuncs(p *packages.Package) bool {
	have := map[string]bool{}
	var added []*ast.FuncDecl
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				have[funcKey(fd)] = true
				if _, known := n.base[funcKey(fd)]; !known {
					added = append(added, fd)
				}
			}
		}
	}
	recv := func(k string) string { return k[:strings.IndexByte(k, '.')+1] }
	type pair struct {
		was  string
		fd   *ast.FuncDecl
		like float64
	}
	var pairs []pair
	for k, sig := range n.base {
		if have[k] || strings.ContainsAny(k, "=/") {
			continue
		}
		for _, fd := range added {
			if recv(funcKey(fd)) == recv(k) && sigText(p.TypesInfo, fd) == sig {
				pairs = append(pairs, pair{k, fd, likeness(n.words[k], words(fd))})
			}
		}
	}
	sort.Slice(pairs, func(i, j int) bool {
		if pairs[i].like != pairs[j].like {
			return pairs[i].like > pairs[j].like
		}
		return pairs[i].was+funcKey(pairs[i].fd) < pairs[j].was+funcKey(pairs[j].fd)
	})
	back := map[string]bool{}
	for _, q := range pairs {
		k := funcKey(q.fd)
		if q.like < 0.3 || back[q.was] || n.renamed[k] != "" {
			continue
		}
		back[q.was] = true
		n.renamed[k] = q.was
	}
	return len(added) > 0 || len(n.oldNames(p.Types)) > 0
}

// check parses and type checks the current text.
func (n *normPkg) check() bool {
	for try := 0; try < 3; try++ {
		fset := token.NewFileSet()
		files := map[string]*ast.File{}
		var list []*ast.File
		for _, name := range n.names {
			f, err := parser.ParseFile(fset, name, n.text[name], parser.SkipObjectResolution)
			if err != nil {
				if os.Getenv("FONTCHECK_NORM") != "" {
					fmt.Fprintln(os.Stderr, "norm:", err)
				}
				return false
			}
			files[name] = f
			list = append(list, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
		var errs []types.Error
		cfg := types.Config{Importer: n.imp, Sizes: n.sizes, Error: func(err error) {
			if te, ok := err.(types.Error); ok {
				errs = append(errs, te)
			}
		}}
		pkg, _ := cfg.Check(n.path, fset, list, info)
		var fix []textEdit
		for _, e := range errs {
			if strings.Contains(e.Msg, "imported and not used") {
				for name, f := range files {
					for _, im := range f.Imports {
						if im.Pos() <= e.Pos && e.Pos <= im.End() {
							off := fset.File(f.Pos()).Offset
							fix = append(fix, textEdit{name, off(im.Pos()), off(im.End()), "_ " + im.Path.Value})
						}
					}
				}
				continue
			}
			if os.Getenv("FONTCHECK_NORM") != "" {
				fmt.Fprintln(os.Stderr, "norm:", fset.Position(e.Pos), e.Msg)
			}
			return false
		}
		if len(errs) > 0 {
			if len(fix) == 0 {
				return false
			}
			n.apply(fix)
			continue
		}
		n.fset, n.files, n.info, n.types = fset, files, info, pkg
		return true
	}
	return false
}

func (n *normPkg) apply(edits []textEdit) {
	by := map[string][]textEdit{}
	for _, e := range edits {
		by[e.file] = append(by[e.file], e)
	}
	for file, es := range by {
		sort.SliceStable(es, func(i, j int) bool { return es[i].start > es[j].start })
		t := n.text[file]
		for _, e := range es {
			t = t[:e.start] + e.text + t[e.end:]
		}
		n.text[file] = t
	}
}

func (n *normPkg) run() {
	for round := 0; round < 60; round++ {
		changes := n.changes()
		if len(changes) == 0 {
			return
		}
		// those that do not touch each other
		var pick []normChange
		taken := map[string][][2]int{}
		for _, c := range changes {
			free := true
			for _, e := range c.edits {
				for _, t := range taken[e.file] {
					if e.start < t[1] && t[0] < e.end || e.start == t[0] || e.start == e.end && t[0] <= e.start && e.start <= t[1] || t[0] == t[1] && e.start <= t[0] && t[0] <= e.end {
						free = false
					}
				}
			}
			if !free {
				continue
			}
			for _, e := range c.edits {
				taken[e.file] = append(taken[e.file], [2]int{e.start, e.end})
			}
			pick = append(pick, c)
		}
		if n.try(pick) {
			continue
		}
		good := false
		for i, c := range pick {
			// one at a time; the first that works, as offsets change after it
			if n.try([]normChange{c}) {
				good = true
				break
			}
			n.failed[pick[i].id] = true
		}
		if !good && len(pick) == 0 {
			return
		}
	}
}

func (n *normPkg) try(cs []normChange) bool {
	old := map[string]string{}
	for k, v := range n.text {
		old[k] = v
	}
	var es []textEdit
	for _, c := range cs {
		es = append(es, c.edits...)
	}
	n.apply(es)
	if n.check() {
		return true
	}
	if os.Getenv("FONTCHECK_NORM") == "2" && len(cs) == 1 {
		fmt.Fprintln(os.Stderr, cs[0].id, cs[0].edits)
	}
	n.text = old
	n.check()
	return false
}
