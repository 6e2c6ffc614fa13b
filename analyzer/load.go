package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	fontPath  = "github.com/tdewolff/font"
	cmdPath   = "github.com/tdewolff/font/cmd/fontcmd"
	parsePath = "github.com/tdewolff/parse/v2"
)

// Prog is the resolved program under analysis.
type Prog struct {
	Repo      string
	Fset      *token.FileSet
	SSA       *ssa.Program
	Font      *ssa.Package
	Cmd       *ssa.Package
	Parse     *ssa.Package
	PFont     *packages.Package
	PCmd      *packages.Package
	Self      *ssa.Package // selftest package (analysed with the same rules, must fire)
	PSelf     *packages.Package
	pkgs      map[string]*packages.Package
	fns       map[*ssa.Function]bool
	live      map[*ssa.Function]bool
	setMemo   map[string][]cset
	setModels map[string][]cset // results of calls that a checker assumes
	setFields map[string]cset   // values of fields that a checker assumes
	gmaps     map[*ssa.Global]bool
	gstores   map[*ssa.Global][]*ssa.Store
}

func goEnv(extra ...string) []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=1")
	return append(env, extra...)
}

// load builds types, syntax and SSA for the library, the command-line tool and their dependencies
// from the current working tree.
func load(repo string, env ...string) (*Prog, error) {
	const mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	cfg := &packages.Config{Mode: mode, Dir: filepath.Join(repo, "cmd/fontcmd"), Env: goEnv(env...)}
	pkgs, err := packages.Load(cfg, ".", fontPath, parsePath)
	if err != nil {
		return nil, err
	}
	bad := false
	for _, pkg := range pkgs {
		bad = bad || len(pkg.Errors) > 0
	}
	if !bad && os.Getenv("FONTCHECK_RAW") == "" {
		// functions that were split off go back to where they came from
		if over := normalize(pkgs); len(over) > 0 {
			cfg.Overlay = over
			if dir := os.Getenv("FONTCHECK_NORMDIR"); dir != "" {
				for name, b := range over {
					os.WriteFile(filepath.Join(dir, filepath.Base(name)), b, 0o644)
				}
			}
			again, err := packages.Load(cfg, ".", fontPath, parsePath)
			good := err == nil
			for _, pkg := range again {
				good = good && len(pkg.Errors) == 0
			}
			if good {
				pkgs = again
			} else if os.Getenv("FONTCHECK_NORM") != "" {
				for _, pkg := range again {
					fmt.Fprintln(os.Stderr, "norm: ", pkg.Errors)
				}
			}
		}
	}
	p := &Prog{Repo: repo, pkgs: map[string]*packages.Package{}}
	var errs []string
	for _, pkg := range pkgs {
		p.pkgs[pkg.PkgPath] = pkg
		p.Fset = pkg.Fset
		for _, e := range pkg.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	get := func(path string) (*packages.Package, *ssa.Package, error) {
		pk := p.pkgs[path]
		if pk == nil {
			return nil, nil, fmt.Errorf("package %s not loaded", path)
		}
		sp := prog.Package(pk.Types)
		if sp == nil {
			return nil, nil, fmt.Errorf("no SSA for %s", path)
		}
		return pk, sp, nil
	}
	if p.PFont, p.Font, err = get(fontPath); err != nil {
		return nil, err
	}
	if p.PCmd, p.Cmd, err = get(cmdPath); err != nil {
		return nil, err
	}
	if _, p.Parse, err = get(parsePath); err != nil {
		return nil, err
	}
	dir := ""
	if len(p.PFont.GoFiles) > 0 {
		dir = filepath.Dir(p.PFont.GoFiles[0])
	}
	if rd, _ := filepath.EvalSymlinks(repo); dir != repo && dir != rd {
		return nil, fmt.Errorf("package %s was loaded from %s, not from %s", fontPath, dir, repo)
	}
	return p, nil
}

func (p *Prog) allFuncs() map[*ssa.Function]bool {
	if p.fns == nil {
		p.fns = ssautil.AllFunctions(p.SSA)
	}
	return p.fns
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func fnPkgPath(fn *ssa.Function) string {
	if pk := fnPkg(fn); pk != nil {
		return pk.Path()
	}
	return ""
}

// repoFuncs returns all functions with bodies (closures included) of the given packages, sorted by position.
func (p *Prog) repoFuncs(paths ...string) []*ssa.Function {
	if len(paths) == 0 {
		paths = []string{fontPath, cmdPath}
	}
	want := map[string]bool{}
	for _, s := range paths {
		want[s] = true
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && !seen[fn] && fn.Blocks != nil && want[fnPkgPath(fn)] && (fn.Synthetic == "" || fn.Name() == "init") {
			seen[fn] = true
			fns = append(fns, fn)
		}
	}
	for fn := range p.allFuncs() {
		add(fn)
	}
	// methods that nothing references are not in AllFunctions when their type is never converted to an interface
	for _, path := range paths {
		pk := p.pkgs[path]
		if pk == nil {
			continue
		}
		scope := pk.Types.Scope()
		for _, name := range scope.Names() {
			if tn, ok := scope.Lookup(name).(*types.TypeName); ok {
				if named, ok := tn.Type().(*types.Named); ok {
					for i := 0; i < named.NumMethods(); i++ {
						fn := p.SSA.FuncValue(named.Method(i))
						add(fn)
						if fn != nil {
							var rec func(f *ssa.Function)
							rec = func(f *ssa.Function) {
								for _, a := range f.AnonFuncs {
									add(a)
									rec(a)
								}
							}
							rec(fn)
						}
					}
				}
			}
		}
	}
	// files are parsed concurrently: positions say nothing about the order of files
	at := map[*ssa.Function]token.Position{}
	for _, fn := range fns {
		at[fn] = p.Fset.Position(fn.Pos())
	}
	sort.Slice(fns, func(i, j int) bool {
		x, y := at[fns[i]], at[fns[j]]
		if shuffled != "" {
			x.Filename, y.Filename = fmt.Sprintf("%x", sha256.Sum256([]byte(shuffled+x.Filename))), fmt.Sprintf("%x", sha256.Sum256([]byte(shuffled+y.Filename)))
		}
		if x.Filename != y.Filename {
			return x.Filename < y.Filename
		}
		if x.Offset != y.Offset {
			return x.Offset < y.Offset
		}
		return fns[i].String() < fns[j].String()
	})
	return fns
}

func (p *Prog) where(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// instrPos finds a usable position for an instruction.
func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if v, ok := i.(ssa.Value); ok && v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if r.Pos().IsValid() {
				return r.Pos()
			}
		}
	}
	b := i.Block()
	if b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return o.Pos()
			}
		}
		return b.Parent().Pos()
	}
	return token.NoPos
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, fontPath+"/cmd/fontcmd.", "fontcmd.")
	s = strings.ReplaceAll(s, fontPath+".", "")
	return s
}

// shuffled changes the order of files (to find out what depends on it).
var shuffled = os.Getenv("FONTCHECK_SHUFFLE")
