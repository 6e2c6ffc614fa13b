package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C25"] = checkC25 }

// packages of the standard library whose functions only compute
var purePkgs = map[string]bool{
	"bytes": true, "strings": true, "strconv": true, "sort": true, "slices": true, "maps": true, "cmp": true, "math": true, "math/bits": true, "math/cmplx": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "errors": true, "io": true, "bufio": true, "reflect": true, "sync": true, "sync/atomic": true,
	"path": true, "hash": true, "hash/adler32": true, "hash/crc32": true, "hash/fnv": true, "iter": true, "unique": true, "regexp": true, "text/tabwriter": true,
	"encoding": true, "encoding/binary": true, "encoding/hex": true, "encoding/base64": true, "encoding/gob": true, "encoding/json": true, "compress/zlib": true,
	"compress/flate": true, "compress/gzip": true, "container/heap": true, "container/list": true, "container/ring": true, "image": true, "image/color": true,
	"image/draw": true, "math/big": true, "unsafe": true, "math/rand": true, "math/rand/v2": true, // (randomness is judged by C11)
	"crypto/md5": true, "crypto/sha1": true, "crypto/sha256": true, "context": true, "go/token": true, "embed": true, "index/suffixarray": true, "text/template": true,
	"io/fs": true, "internal/bytealg": true, "image/png": true, "image/jpeg": true, "image/gif": true, "encoding/xml": true, "encoding/csv": true, "html": true,
}

// effectOf says what a function of the standard library does besides computing; "" for nothing, "?" for unknown.
func effectOf(g *ssa.Function) string {
	if o := g.Origin(); o != nil {
		g = o
	}
	path := fnPkgPath(g)
	name := g.Name()
	recv := ""
	if rv := g.Signature.Recv(); rv != nil {
		recv = typeName(rv.Type())
	}
	switch path {
	case "":
		return "" // wrappers and the universe
	case "fmt":
		if strings.HasPrefix(name, "Print") {
			return "prints"
		} else if strings.HasPrefix(name, "Scan") {
			return "reads standard input"
		}
		return ""
	case "log", "log/slog":
		switch {
		case name == "New" || recv == "" && name == "Default":
			return ""
		case strings.HasPrefix(name, "Fatal"):
			return "ends the process"
		}
		return "prints"
	case "io/ioutil":
		switch name {
		case "ReadAll", "NopCloser":
			return ""
		case "ReadFile", "ReadDir":
			return "reads files"
		}
		return "writes files"
	case "path/filepath":
		switch name {
		case "Walk", "WalkDir", "Glob", "EvalSymlinks":
			return "reads files"
		case "Abs":
			return "reads the environment"
		}
		return ""
	case "time":
		switch name {
		case "Sleep", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc":
			return "waits"
		}
		return "" // the clock is judged by C11
	case "runtime":
		switch name {
		case "Caller", "Callers", "FuncForPC", "KeepAlive", "NumCPU", "Version", "GOROOT", "Gosched", "CallersFrames", "MemStats", "ReadMemStats", "Stack", "Error", "NumGoroutine":
			return ""
		case "Goexit":
			return "ends the process"
		}
		if recv != "" {
			return ""
		}
		return "changes the process"
	case "os":
		if recv == "File" {
			switch name {
			case "Close", "Read", "ReadAt", "ReadFrom", "Seek", "Stat", "Name", "Fd", "SetDeadline":
				return ""
			case "ReadDir", "Readdir", "Readdirnames":
				return "reads files"
			}
			return "writes files"
		} else if recv != "" {
			return ""
		}
		switch name {
		case "IsNotExist", "IsExist", "IsPermission", "IsTimeout", "NewSyscallError", "Expand", "Getpagesize", "IsPathSeparator", "SameFile":
			return ""
		case "Open", "ReadFile", "ReadDir", "Stat", "Lstat", "DirFS", "Readlink", "OpenInRoot", "OpenRoot":
			return "reads files"
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "UserHomeDir", "UserCacheDir", "UserConfigDir", "Getwd", "Hostname", "TempDir", "Executable", "Getuid", "Getgid", "Geteuid", "Getegid", "Getpid", "Getppid":
			return "reads the environment"
		case "Exit":
			return "ends the process"
		case "OpenFile":
			return "opens files" // by its flags
		case "Setenv", "Unsetenv", "Clearenv", "Chdir", "StartProcess", "FindProcess", "NewFile", "Pipe":
			return "changes the process"
		}
		return "writes files"
	case "os/exec", "os/signal", "syscall", "runtime/debug", "plugin", "os/user", "runtime/pprof", "runtime/trace":
		if path == "syscall" && recv != "" {
			return "" // methods of error numbers
		}
		return "changes the process"
	}
	if purePkgs[path] || strings.HasPrefix(path, "internal/") {
		return ""
	}
	if path == "net" || strings.HasPrefix(path, "net/") {
		return "uses the network"
	}
	return "?"
}

func typeName(t types.Type) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// stdPkg: packages of the standard library have no dot in the first element of their path.
func stdPkg(path string) bool {
	first, _, _ := strings.Cut(path, "/")
	return !strings.Contains(first, ".")
}

// fileCall: a call that names a file; the argument and what is done with it.
var fileArgs = map[string]struct {
	arg  int
	kind string
}{
	"os.Open": {0, "read"}, "os.ReadFile": {0, "read"}, "io/ioutil.ReadFile": {0, "read"}, "os.ReadDir": {0, "read"}, "io/ioutil.ReadDir": {0, "read"}, "os.DirFS": {0, "read"},
	"path/filepath.Walk": {0, "read"}, "path/filepath.WalkDir": {0, "read"}, "path/filepath.Glob": {0, "read"},
	"os.Stat": {0, "stat"}, "os.Lstat": {0, "stat"},
	"os.Create": {0, "write"}, "os.WriteFile": {0, "write"}, "io/ioutil.WriteFile": {0, "write"}, "os.OpenFile": {0, ""},
}

type effectSite struct {
	kind, what string
	fn         *ssa.Function
	pos        token.Pos
}

type effectWalk struct {
	p    *Prog
	memo map[*ssa.Function][]effectSite
	next map[*ssa.Function][]*ssa.Function
	once map[*ssa.Function]bool
}

// sites lists the effects a function has itself, and the functions it refers to.
func (w *effectWalk) sites(fn *ssa.Function) ([]effectSite, []*ssa.Function) {
	if s, ok := w.memo[fn]; ok {
		return s, w.next[fn]
	}
	var out []effectSite
	var next []*ssa.Function
	own := repoPkg(fnPkgPath(fn))
	eachInstr(fn, func(in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok && !joined(g) {
			out = append(out, effectSite{"leaves a goroutine running", "go statement", fn, g.Pos()})
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			c := ci.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
				out = append(out, effectSite{"prints", b.Name(), fn, in.Pos()})
			}
			if c.IsInvoke() && own {
				next = append(next, w.p.implementations(c)...)
			}
		}
		var to ssa.Value
		switch x := in.(type) {
		case *ssa.Store:
			to = x.Addr
		case *ssa.MapUpdate:
			to = x.Map
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
				to = x.Call.Args[0]
			}
		}
		if to != nil && own && fn.Synthetic == "" {
			if g := globalOf(to); g != nil && g.Pkg != nil && (fnPkgPath(fn) == fontPath || !repoPkg(g.Pkg.Pkg.Path())) && !w.setup(fn) {
				out = append(out, effectSite{"changes the process", "assignment to " + g.String(), fn, in.Pos()})
			}
		}
		for _, op := range in.Operands(nil) {
			switch g := (*op).(type) {
			case *ssa.Global:
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr" || g.Name() == "Stdin") {
					out = append(out, effectSite{"prints", "os." + g.Name(), fn, in.Pos()})
				} else if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
					out = append(out, effectSite{"reads the environment", "os.Args", fn, in.Pos()})
				}
			case *ssa.Function:
				if g.Synthetic == "package initializer" {
					continue
				}
				if stdPkg(fnPkgPath(g)) || g.Blocks == nil {
					k := effectOf(g)
					if k == "opens files" {
						k = "writes files"
						if ci, ok := in.(ssa.CallInstruction); ok && openFlags(ci.Common()) == "read" {
							k = "reads files"
						}
					}
					if k == "?" {
						k = "has an unknown effect"
					}
					if k != "" {
						out = append(out, effectSite{k, g.String(), fn, in.Pos()})
					}
					continue
				}
				next = append(next, g)
			}
		}
	})
	w.memo[fn], w.next[fn] = out, next
	return out, next
}

// setup: the package initialisation, functions that run once, and functions
// that take a lock (a shared result kept behind it).
func (w *effectWalk) setup(fn *ssa.Function) bool {
	if w.once == nil {
		w.once = map[*ssa.Function]bool{}
		for f := range w.p.allFuncs() {
			if !repoPkg(fnPkgPath(f)) {
				continue
			}
			eachCall(f, func(ci ssa.CallInstruction) {
				c := ci.Common()
				n := calleeName(c)
				if n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock" {
					w.once[f] = true
				} else if n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.OnceValue") || n == "sync.OnceFunc" {
					if g := funcOf(c.Args[len(c.Args)-1]); g != nil {
						w.once[g] = true
					}
				}
			})
		}
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || w.once[f] {
			return true
		}
	}
	return false
}

func globalOf(v ssa.Value) *ssa.Global {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// openFlags: what os.OpenFile is called for.
func openFlags(c *ssa.CallCommon) string {
	if len(c.Args) > 1 {
		if k, ok := c.Args[1].(*ssa.Const); ok && k.Value != nil {
			if f, ok := constant.Int64Val(k.Value); ok && f&3 == 0 && f&0x240 == 0 {
				return "read"
			}
		}
	}
	return "write"
}

// joined: every way out of the function that started a goroutine passes a wait or a receive.
func joined(g *ssa.Go) bool {
	waits := func(in ssa.Instruction) bool {
		switch t := in.(type) {
		case *ssa.Call:
			return strings.HasSuffix(calleeName(&t.Call), "sync.WaitGroup).Wait")
		case *ssa.UnOp:
			return t.Op == token.ARROW
		case *ssa.RunDefers:
			return false
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if waits(in) {
				return true
			}
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !walk(s, 0) {
					return false
				}
			}
		}
		return true
	}
	b := g.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(g) {
			return walk(b, i+1)
		}
	}
	return false
}

// reach collects the effects of everything that can run below a function.
func (w *effectWalk) reach(root *ssa.Function) (sites []effectSite, fns int, via map[*ssa.Function]*ssa.Function) {
	via = map[*ssa.Function]*ssa.Function{root: nil}
	work := []*ssa.Function{root}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		s, next := w.sites(fn)
		sites = append(sites, s...)
		for _, g := range next {
			if _, ok := via[g]; !ok {
				via[g] = fn
				work = append(work, g)
			}
		}
	}
	return sites, len(via), via
}

// what exported functions may do besides computing
var libraryEffects = map[string]map[string]bool{
	"DefaultFontDirs":     {"reads the environment": true},
	"FindSystemFonts":     {"reads files": true},
	"LoadSystemFonts":     {"reads files": true},
	"(*SystemFonts).Save": {"writes files": true},
}

func apiName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, fontPath+".", "")
	return s
}

func checkC25(p *Prog, r *Report) {
	r.Rule("library-effects", "nothing that an exported function or the package's initialisation can reach prints, logs, ends the process, leaves a goroutine behind, waits, uses the network, or changes process-wide state; reading the environment, reading files and writing files happen only below the functions whose purpose it is", 60)
	r.Rule("declared-effects", "the functions whose purpose is an effect have it (vacuity guard)", 4)
	r.Rule("library-paths", "every file or directory that the library opens is named by the caller, or was found below a directory that the caller named", 3)
	r.Rule("tool-paths", "every file that a command opens, reads or creates is named by the option for it", 8)
	r.Rule("tool-effects", "no command removes, renames, links or changes the mode of files, starts a process, or uses the network", 3)

	w := &effectWalk{p: p, memo: map[*ssa.Function][]effectSite{}, next: map[*ssa.Function][]*ssa.Function{}}
	roots := exportedEntries(p)
	if f := p.Font.Func("init"); f != nil {
		roots = append(roots, f)
	}
	for _, root := range roots {
		name := apiName(root)
		sites, n, via := w.reach(root)
		allowed := libraryEffects[name]
		have := map[string]bool{}
		bad := map[string]effectSite{}
		for _, s := range sites {
			have[s.kind] = true
			if allowed[s.kind] || stdWriter(s) {
				continue
			}
			if name == "ParseFont" && s.kind == "prints" && s.fn == root {
				continue // its deprecation notice
			}
			if !repoPkg(fnPkgPath(s.fn)) && s.kind == "has an unknown effect" {
				continue // inside a dependency: functions that the library does not name
			}
			k := name + " " + s.kind + ": " + s.what
			if _, ok := bad[k]; !ok {
				bad[k] = s
			}
		}
		if len(bad) == 0 {
			r.OK("library-effects", name, p.where(root.Pos()), fmt.Sprintf("%d function(s) below it", n))
		}
		for k, s := range bad {
			chain := fnName(s.fn)
			for f := via[s.fn]; f != nil; f = via[f] {
				chain = fnName(f) + " -> " + chain
			}
			r.Bad("library-effects", k, p.where(s.pos), s.what+" "+s.kind+": "+chain)
		}
		for k := range allowed {
			r.Add("declared-effects", name+" "+k, p.where(root.Pos()), have[k], "")
		}
	}
	r.Stats["functions"] = len(w.memo)

	// files of the library
	for _, fn := range p.repoFuncs(fontPath) {
		eachCall(fn, func(ci ssa.CallInstruction) {
			c := ci.Common()
			fa, ok := fileArgs[calleeName(c)]
			if !ok || fa.arg >= len(c.Args) {
				return
			}
			key := fnName(fn) + " " + calleeName(c)
			l := &leafWalk{p: p, lib: true, seen: map[ssa.Value]bool{}}
			l.leaves(c.Args[fa.arg], 0)
			sort.Strings(l.bad)
			r.Add("library-paths", key, p.where(instrPos(ci)), len(l.bad) == 0 && len(l.good) > 0, strings.Join(append(sortedKeys(l.good), l.bad...), ", "))
		})
	}
	// files of the tool
	for _, fn := range p.liveFuncs(cmdPath) {
		eachCall(fn, func(ci ssa.CallInstruction) {
			c := ci.Common()
			fa, ok := fileArgs[calleeName(c)]
			if !ok || fa.arg >= len(c.Args) {
				return
			}
			kind := fa.kind
			if kind == "" {
				kind = openFlags(c)
			}
			for _, site := range p.argSites(c.Args[fa.arg], fn, 0) {
				l := &leafWalk{p: p, seen: map[ssa.Value]bool{}}
				l.leaves(site.v, 0)
				key := fnName(site.fn) + ": " + calleeName(c)
				okay := len(l.bad) == 0 && len(l.good) > 0
				in, out := false, false
				for g := range l.good {
					switch g {
					case "option Input", "option Inputs":
						in = true
					case "option Output", "option Outputs":
						out = true
					default:
						okay = false
					}
				}
				switch kind {
				case "read":
					okay = okay && in && !out
				case "write":
					okay = okay && out
				}
				r.Add("tool-paths", key, p.where(instrPos(ci)), okay, kind+" "+strings.Join(append(sortedKeys(l.good), l.bad...), ", "))
			}
		})
		// options that name files are only ever set from each other
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isOption(fa) {
				return
			}
			switch f := fieldName(fa.X.Type(), fa.Field); f {
			case "Input", "Inputs", "Output", "Outputs":
				l := &leafWalk{p: p, seen: map[ssa.Value]bool{}}
				l.leaves(st.Val, 0)
				r.Add("tool-paths", fnName(fn)+": sets "+f, p.where(instrPos(in)), len(l.bad) == 0 && !strings.HasPrefix(f, "In"), strings.Join(append(sortedKeys(l.good), l.bad...), ", "))
			}
		})
	}
	for _, cmd := range commands(p) {
		sites, n, via := w.reach(cmd)
		bad := map[string]effectSite{}
		for _, s := range sites {
			if !repoPkg(fnPkgPath(s.fn)) {
				continue // what the dependencies of the tool do for it (asking on the terminal, drawing)
			}
			switch s.kind {
			case "changes the process", "uses the network", "ends the process", "has an unknown effect", "leaves a goroutine running", "waits":
			case "writes files":
				if _, ok := fileArgs[s.what]; ok || strings.HasPrefix(s.what, "(*os.File).Write") {
					continue
				}
			default:
				continue
			}
			bad[fnName(cmd)+" "+s.kind+": "+s.what] = s
		}
		if len(bad) == 0 {
			r.OK("tool-effects", fnName(cmd), p.where(cmd.Pos()), fmt.Sprintf("%d function(s) below it", n))
		}
		for k, s := range bad {
			_ = via
			r.Bad("tool-effects", k, p.where(s.pos), s.what+" in "+fnName(s.fn))
		}
	}
}

// stdWriter: os.Stdout and os.Stderr as such are only prints when the library uses them.
func stdWriter(s effectSite) bool {
	return !repoPkg(fnPkgPath(s.fn)) && strings.HasPrefix(s.what, "os.Std")
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func eachCall(fn *ssa.Function, do func(ssa.CallInstruction)) {
	eachInstr(fn, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			do(ci)
		}
	})
}

// isOption: a field of a command.
func isOption(fa *ssa.FieldAddr) bool {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != cmdPath {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "Run" {
			return true
		}
	}
	return false
}

type argSite struct {
	v  ssa.Value
	fn *ssa.Function
}

// callersOf: the static calls of a function in the repository.
func (p *Prog) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.repoFuncs(fontPath, cmdPath) {
		eachCall(f, func(ci ssa.CallInstruction) {
			if ci.Common().StaticCallee() == fn {
				out = append(out, ci)
			}
		})
	}
	return out
}

// argSites resolves a value that is a parameter to the values passed for it, call by call.
func (p *Prog) argSites(v ssa.Value, fn *ssa.Function, depth int) []argSite {
	q, ok := v.(*ssa.Parameter)
	if !ok || depth > 6 {
		return []argSite{{v, fn}}
	}
	idx := -1
	for i, x := range fn.Params {
		if x == q {
			idx = i
		}
	}
	var out []argSite
	for _, ci := range p.callersOf(fn) {
		if a := ci.Common().Args; idx >= 0 && idx < len(a) {
			out = append(out, p.argSites(a[idx], ci.Parent(), depth+1)...)
		}
	}
	if len(out) == 0 {
		return []argSite{{v, fn}}
	}
	return out
}

// leafWalk follows a file name back to what it is made of.
type leafWalk struct {
	p    *Prog
	lib  bool
	seen map[ssa.Value]bool
	good map[string]bool
	bad  []string
}

func (l *leafWalk) ok(s string) {
	if l.good == nil {
		l.good = map[string]bool{}
	}
	l.good[s] = true
}

func (l *leafWalk) no(format string, a ...any) { l.bad = append(l.bad, fmt.Sprintf(format, a...)) }

func (l *leafWalk) leaves(v ssa.Value, depth int) {
	if l.seen[v] {
		return
	}
	l.seen[v] = true
	if depth > 40 {
		l.no("too long a way")
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s := constString(x); l.lib && (x.Value == nil || s == "." || s == "/" || s == "") {
			return
		} else if x.Value == nil {
			return
		}
		l.no("the constant %s", x.Value)
	case *ssa.Phi:
		for _, e := range x.Edges {
			l.leaves(e, depth+1)
		}
	case *ssa.ChangeType:
		l.leaves(x.X, depth+1)
	case *ssa.Convert:
		l.leaves(x.X, depth+1)
	case *ssa.MakeInterface:
		l.leaves(x.X, depth+1)
	case *ssa.Slice:
		l.leaves(x.X, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD && l.lib {
			l.leaves(x.X, depth+1)
			l.leaves(x.Y, depth+1)
			return
		}
		l.no("%s", x.Op)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				l.leaves(rg.X, depth+1)
				return
			}
		case *ssa.Call:
			l.call(t, depth)
			return
		}
		l.no("%s", x)
	case *ssa.Index:
		l.leaves(x.X, depth+1)
	case *ssa.Lookup:
		l.leaves(x.X, depth+1)
	case *ssa.Alloc:
		n := 0
		var stores func(a ssa.Value, d int)
		stores = func(a ssa.Value, d int) {
			if a.Referrers() == nil || d > 4 {
				return
			}
			for _, u := range *a.Referrers() {
				switch t := u.(type) {
				case *ssa.Store:
					if t.Addr == a {
						n++
						l.leaves(t.Val, depth+1)
					}
				case *ssa.IndexAddr:
					stores(t, d+1)
				case *ssa.MakeClosure:
					for i, b := range t.Bindings {
						if b == a {
							stores(t.Fn.(*ssa.Function).FreeVars[i], d+1)
						}
					}
				}
			}
		}
		stores(x, 0)
		if n == 0 {
			l.no("a value that is not set")
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			l.no("%s", x)
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if isOption(a) {
				l.ok("option " + fieldName(a.X.Type(), a.Field))
				return
			}
			l.field(a.X.Type(), a.Field, depth)
		case *ssa.IndexAddr:
			l.leaves(a.X, depth+1)
		default:
			l.leaves(x.X, depth+1)
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		idx := -1
		for i, f := range fn.FreeVars {
			if f == x {
				idx = i
			}
		}
		found := false
		if fn.Parent() != nil && idx >= 0 {
			eachInstr(fn.Parent(), func(in ssa.Instruction) {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					found = true
					l.leaves(mc.Bindings[idx], depth+1)
				}
			})
		}
		if !found {
			l.no("%s", x)
		}
	case *ssa.Parameter:
		l.param(x, depth)
	case *ssa.Call:
		l.call(x, depth)
	case *ssa.Field:
		l.field(x.X.Type(), x.Field, depth)
	default:
		l.no("%s", v)
	}
}

func (l *leafWalk) call(c *ssa.Call, depth int) {
	switch n := calleeName(&c.Call); n {
	case "path/filepath.Clean", "path/filepath.FromSlash":
		l.leaves(c.Call.Args[0], depth+1)
		return
	case "path/filepath.Join", "path.Join", "append":
		if l.lib || n == "append" {
			for _, a := range c.Call.Args {
				l.leaves(a, depth+1)
			}
			return
		}
	case "(io/fs.DirEntry).Name", "(os.DirEntry).Name", "(io/fs.FileInfo).Name", "(os.FileInfo).Name":
		if l.lib {
			l.ok("name of a directory entry")
			return
		}
	}
	l.no("result of %s", calleeName(&c.Call))
}

func (l *leafWalk) param(q *ssa.Parameter, depth int) {
	fn := q.Parent()
	idx := -1
	for i, x := range fn.Params {
		if x == q {
			idx = i
		}
	}
	if l.lib && fn.Object() != nil && fn.Object().Exported() {
		l.ok("parameter " + q.Name() + " of " + fnName(fn))
		return
	}
	n := 0
	for _, ci := range l.p.callersOf(fn) {
		if a := ci.Common().Args; idx >= 0 && idx < len(a) {
			n++
			l.leaves(a[idx], depth+1)
		}
	}
	if n == 0 && fn.Parent() != nil {
		// a function literal: called by its name, or by a walk over a directory
		eachInstr(fn.Parent(), func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			if calleeName(c) == "io/fs.WalkDir" || calleeName(c) == "path/filepath.WalkDir" || calleeName(c) == "path/filepath.Walk" {
				if funcOf(c.Args[len(c.Args)-1]) == fn && idx == 0 {
					n++
					l.ok("file found below " + calleeName(c))
				}
				return
			}
			if funcOf(c.Value) == fn && idx < len(c.Args) {
				n++
				l.leaves(c.Args[idx], depth+1)
			}
		})
	}
	if n == 0 {
		l.no("parameter %s of %s", q.Name(), fnName(fn))
	}
}

// field: a member of some other structure of the repository is what is ever stored in it.
func (l *leafWalk) field(t types.Type, idx int, depth int) {
	key := typeName(t) + "." + fieldName(t, idx)
	n := 0
	for _, fn := range l.p.repoFuncs(fontPath, cmdPath) {
		eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeName(fa.X.Type())+"."+fieldName(fa.X.Type(), fa.Field) == key {
					n++
					l.leaves(st.Val, depth+1)
				}
			}
		})
	}
	if n == 0 {
		l.no("field %s", key)
	}
}
