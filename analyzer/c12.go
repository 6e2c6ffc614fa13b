package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: typestate of opened files and buffered writers. From each place where a file is opened, all paths of the function
// are followed with the set of values that hold the file on that path; a return with the file still open, or a success
// return of a written file whose close result was not looked at, is a violation.

func init() { checkers["C12"] = checkC12 }

var fileOpeners = map[string]int{ // result index of the error, or -1
	"os.Open": 1, "os.Create": 1, "os.OpenFile": 1, "os.CreateTemp": 1, "io/ioutil.TempFile": 1,
}

// writers that hold bytes back until they are flushed or closed
var bufferedWriters = map[string]string{
	"bufio.NewWriter": "Flush", "bufio.NewWriterSize": "Flush",
	"compress/zlib.NewWriter": "Close", "compress/zlib.NewWriterLevel": "Close", "compress/gzip.NewWriter": "Close", "compress/flate.NewWriter": "Close",
	"encoding/base64.NewEncoder": "Close", "encoding/hex.Dumper": "Close",
	"github.com/andybalholm/brotli.NewWriter": "Close", "github.com/andybalholm/brotli.NewWriterLevel": "Close", "github.com/andybalholm/brotli.NewWriterOptions": "Close",
	"text/tabwriter.NewWriter": "Flush", "encoding/csv.NewWriter": "Flush",
}

type handle struct {
	origin  ssa.Value // the opened value (or parameter)
	err     ssa.Value // error of opening, may be nil
	release string    // method that ends it
	written bool      // its release result matters
	ours    bool      // must be released here on every path
	params  bool      // origin is a parameter
	start   *ssa.BasicBlock
	after   ssa.Instruction
	what    string
}

// fileState is what is known on one path.
type fileState struct {
	vals   map[ssa.Value]bool // values and variables that hold the file
	errs   map[ssa.Value]bool // values that hold the error of opening
	open   bool
	rel    map[ssa.Value]bool // values that hold the result of releasing, not looked at yet
	nonnil map[ssa.Value]bool // error values that are known not to be nil
	lost   bool               // released without looking at the result
	defer_ bool               // release is deferred (result not looked at)
}

func (s *fileState) clone() *fileState {
	c := *s
	cp := func(m map[ssa.Value]bool) map[ssa.Value]bool {
		n := map[ssa.Value]bool{}
		for k := range m {
			n[k] = true
		}
		return n
	}
	c.vals, c.errs, c.rel, c.nonnil = cp(s.vals), cp(s.errs), cp(s.rel), cp(s.nonnil)
	return &c
}

func (s *fileState) key() string {
	ks := func(m map[ssa.Value]bool) string {
		var out []string
		for k := range m {
			out = append(out, k.Name())
		}
		sort.Strings(out)
		return strings.Join(out, ",")
	}
	return fmt.Sprint(ks(s.vals), "|", ks(s.errs), "|", ks(s.rel), "|", ks(s.nonnil), s.open, s.lost, s.defer_)
}

type fileCheck struct {
	p       *Prog
	summary map[string]*fileSummary
}

// fileSummary of a function for one parameter: released on every path; its result reports a failing release.
type fileSummary struct {
	releases bool
	reports  bool
}

type fileLeak struct {
	at   ssa.Instruction
	why  string
	kind string // open, unreported
}

// holds: the value is, or wraps, the file.
func (s *fileState) holds(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		if s.vals[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL && s.vals[x.X] {
				return true
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (f *fileCheck) follow(fn *ssa.Function, h handle) []fileLeak {
	var leaks []fileLeak
	seen := map[string]bool{}
	type item struct {
		b    *ssa.BasicBlock
		from int
		st   *fileState
	}
	init := &fileState{vals: map[ssa.Value]bool{h.origin: true}, errs: map[ssa.Value]bool{}, open: true, rel: map[ssa.Value]bool{}, nonnil: map[ssa.Value]bool{}}
	if h.err != nil {
		init.errs[h.err] = true
	}
	from := 0
	if h.after != nil {
		for i, in := range h.start.Instrs {
			if in == h.after {
				from = i + 1
			}
		}
	}
	work := []item{{h.start, from, init}}
	steps := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		steps++
		if steps > 40000 {
			leaks = append(leaks, fileLeak{h.after, "too many paths to decide", "open"})
			return leaks
		}
		st := it.st.clone()
		stop := false
		for _, in := range it.b.Instrs[it.from:] {
			switch in := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Store:
				if al, ok := in.Addr.(*ssa.Alloc); ok {
					if st.holds(in.Val) {
						st.vals[al] = true
					} else {
						delete(st.vals, al)
					}
					if st.errs[in.Val] || st.loaded(in.Val, st.errs) {
						st.errs[al] = true
					} else {
						delete(st.errs, al)
					}
					if st.rel[in.Val] {
						st.rel[al] = true
					} else {
						delete(st.rel, al)
					}
					if st.nonnil[in.Val] || nonNilErr(in.Val, it.b, nil, 0) {
						st.nonnil[al] = true
					} else {
						delete(st.nonnil, al)
					}
				} else if fv, ok := in.Addr.(*ssa.FreeVar); ok && st.holds(in.Val) {
					st.vals[fv] = true
				} else if st.holds(in.Val) {
					if h.ours {
						leaks = append(leaks, fileLeak{in, "stored in a place that outlives the function", "open"})
					}
					stop = true
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if st.vals[in.X] {
						st.vals[in] = true
					}
					if st.errs[in.X] {
						st.errs[in] = true
					}
					if st.rel[in.X] {
						st.rel[in] = true
					}
					if st.nonnil[in.X] {
						st.nonnil[in] = true
					}
				}
			case *ssa.Extract:
				if st.rel[in.Tuple] && isErr(in.Type()) {
					st.rel[in] = true
					delete(st.rel, in.Tuple)
				}
			case *ssa.Defer:
				if rel, looked := f.releasedBy(&in.Call, st, h); rel {
					st.open = false
					if !looked {
						st.defer_ = true
					}
				}
			case *ssa.Go:
				if rel, _ := f.releasedBy(&in.Call, st, h); rel {
					leaks = append(leaks, fileLeak{in, "released in a goroutine", "open"})
					stop = true
				}
			case *ssa.Call:
				if rel, reports := f.releasedBy(&in.Call, st, h); rel {
					st.open = false
					if reports {
						st.rel[in] = true
						if len(realRefs(in)) == 0 {
							delete(st.rel, in)
							st.lost = true
						}
					} else {
						st.lost = true
					}
				}
			case *ssa.Return:
				f.atReturn(fn, in, st, h, &leaks)
				stop = true
			case *ssa.Panic:
				stop = true
			}
			if stop {
				break
			}
		}
		if stop {
			continue
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for k, s := range it.b.Succs {
			ns := st.clone()
			if iff, ok := last.(*ssa.If); ok && it.b.Succs[0] != it.b.Succs[1] {
				if x, eq, ok := nilTest(iff.Cond); ok {
					isNil := eq == (k == 0)
					if isErr(x.Type()) {
						if ns.errs[x] {
							if !isNil {
								continue // not opened
							}
						} else if !isNil {
							ns.nonnil[x] = true
						} else if ns.nonnil[x] {
							continue
						}
						if ns.rel[x] {
							delete(ns.rel, x) // looked at
							if !isNil {
								ns.nonnil[x] = true
							}
						}
					} else if ns.holds(x) && isNil {
						continue
					}
				}
				if c, ok := iff.Cond.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != (k == 0) {
					continue
				}
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for pi, pr := range s.Preds {
					if pr != it.b {
						continue
					}
					e := ph.Edges[pi]
					set := func(m map[ssa.Value]bool, on bool) {
						if on {
							m[ph] = true
						} else {
							delete(m, ph)
						}
					}
					set(ns.vals, st.holds(e))
					set(ns.errs, st.errs[e])
					if st.rel[e] {
						ns.rel[ph] = true
						delete(ns.rel, e)
					}
					set(ns.nonnil, ns.nonnil[e] || isErr(ph.Type()) && nonNilErr(e, it.b, nil, 0))
				}
			}
			key := fmt.Sprint(s.Index, " ", ns.key())
			if !seen[key] {
				seen[key] = true
				work = append(work, item{s, 0, ns})
			}
		}
	}
	return leaks
}

func (s *fileState) loaded(v ssa.Value, m map[ssa.Value]bool) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return m[u.X]
	}
	return false
}

func (f *fileCheck) atReturn(fn *ssa.Function, ret *ssa.Return, st *fileState, h handle, leaks *[]fileLeak) {
	if st.open {
		for _, v := range ret.Results {
			if st.holds(v) {
				return // handed to the caller
			}
		}
		if h.ours {
			*leaks = append(*leaks, fileLeak{ret, "still open when the function returns", "open"})
		}
		return
	}
	if !h.written {
		return
	}
	idx := errIndex(fn.Signature)
	if idx >= 0 {
		e := ret.Results[idx]
		if st.nonnil[e] || st.loaded(e, st.nonnil) || nonNilErr(e, ret.Block(), st.nonnil, 0) {
			return // a failure is reported anyway
		}
		if st.rel[e] || st.loaded(e, st.rel) {
			return // the result of releasing is the result of the function
		}
	}
	if st.defer_ || st.lost || len(st.rel) > 0 {
		*leaks = append(*leaks, fileLeak{ret, "success is reported although the result of " + h.release + " was not looked at", "unreported"})
	}
}

// releasedBy: the call releases the file; reports: its (last) result tells whether that failed.
func (f *fileCheck) releasedBy(c *ssa.CallCommon, st *fileState, h handle) (released, reports bool) {
	if c.IsInvoke() {
		if c.Method.Name() == h.release && st.holds(c.Value) {
			return true, c.Signature().Results().Len() > 0
		}
		return false, false
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		g := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if st.vals[b] || st.holds(b) {
				sm := f.summarise(g, g.FreeVars[i], h)
				if sm.releases {
					return true, sm.reports
				}
			}
		}
	}
	g := c.StaticCallee()
	if g == nil {
		return false, false
	}
	if g.Signature.Recv() != nil && g.Name() == h.release && len(c.Args) > 0 && st.holds(c.Args[0]) && g.Blocks != nil && fnPkgPath(g) != fontPath && fnPkgPath(g) != cmdPath || g.Signature.Recv() != nil && g.Name() == h.release && len(c.Args) > 0 && st.holds(c.Args[0]) && g.Blocks == nil {
		return true, g.Signature.Results().Len() > 0
	}
	if g.Blocks != nil && (fnPkgPath(g) == fontPath || fnPkgPath(g) == cmdPath) {
		for i, a := range c.Args {
			if st.holds(a) && i < len(g.Params) {
				sm := f.summarise(g, g.Params[i], h)
				if sm.releases {
					return true, sm.reports
				}
			}
		}
	}
	return false, false
}

// summarise: does the function release what the parameter (or captured variable) holds on every path.
func (f *fileCheck) summarise(g *ssa.Function, v ssa.Value, h handle) *fileSummary {
	key := g.String() + "/" + v.Name() + "/" + h.release
	if s, ok := f.summary[key]; ok {
		return s
	}
	s := &fileSummary{}
	f.summary[key] = s // assumed not to release while recursive
	if len(g.Blocks) == 0 {
		return s
	}
	leaks := f.follow(g, handle{origin: v, release: h.release, written: true, ours: true, params: true, start: g.Blocks[0], what: h.what})
	s.releases, s.reports = true, errIndex(g.Signature) >= 0
	for _, l := range leaks {
		if l.kind == "open" {
			s.releases = false
		} else {
			s.reports = false
		}
	}
	// a deferred function that stores the result of closing in the error of the enclosing function
	if s.releases && errIndex(g.Signature) < 0 {
		if _, ok := v.(*ssa.FreeVar); ok && storesRelease(g, h) {
			s.reports = true
		}
	}
	return s
}

// storesRelease: the result of the release is tested or stored in a captured error variable.
func storesRelease(g *ssa.Function, h handle) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			name := ""
			if c.Call.IsInvoke() {
				name = c.Call.Method.Name()
			} else if f := c.Call.StaticCallee(); f != nil {
				name = f.Name()
			}
			if name != h.release {
				continue
			}
			for _, b2 := range g.Blocks {
				for _, in2 := range b2.Instrs {
					if st, ok := in2.(*ssa.Store); ok {
						if fv, ok := st.Addr.(*ssa.FreeVar); ok && isErr(fv.Type().Underlying().(*types.Pointer).Elem()) {
							for _, v := range flattenPhi(st.Val) {
								if v == ssa.Value(c) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// openedForWriting: os.Create, or OpenFile with a writing mode.
func openedForWriting(p *Prog, c *ssa.Call) bool {
	switch n := calleeName(&c.Call); n {
	case "os.Open":
		return false
	case "os.OpenFile":
		if k, ok := c.Call.Args[1].(*ssa.Const); ok {
			f, _ := constant.Int64Val(k.Value)
			return f&3 != 0
		}
	}
	return true
}

func checkC12(p *Prog, r *Report) {
	r.Rule("file-closed", "a file that is opened is closed, or handed to the caller, on every path", 6)
	r.Rule("close-reported", "when a file that was written is closed, success is reported only after the result of closing was looked at", 3)
	r.Rule("flush-reported", "bytes held back by a buffered or compressing writer are flushed, and the result looked at, before success is reported", 2)
	f := &fileCheck{p: p, summary: map[string]*fileSummary{}}
	// functions of the repository that hand an opened file to their caller
	openers := map[*ssa.Function]*ssa.Call{}
	fns := p.liveFuncs(fontPath, cmdPath)
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if openers[fn] != nil || errIndex(fn.Signature) < 0 {
				continue
			}
			for _, c := range openCalls(fn, openers) {
				for _, b := range fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, v := range ret.Results {
							if flowsFrom(v, c, 0) {
								openers[fn] = origin(c, openers)
								changed = true
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		for _, c := range openCalls(fn, openers) {
			h := handle{release: "Close", ours: true, start: c.Block(), after: c, what: calleeName(&c.Call)}
			for _, ref := range realRefs(c) {
				if e, ok := ref.(*ssa.Extract); ok {
					if isErr(e.Type()) {
						h.err = e
					} else if h.origin == nil {
						h.origin = e
					}
				}
			}
			org := origin(c, openers)
			h.written = openedForWriting(p, org)
			key := fnName(fn) + ": " + strings.TrimPrefix(calleeName(&c.Call), cmdPath+".")
			if h.origin == nil {
				r.Bad("file-closed", key, p.where(instrPos(c)), "the opened file is dropped")
				continue
			}
			// the extracts follow the call: treat both as available
			leaks := f.follow(fn, h)
			bad, unrep := "", ""
			for _, l := range leaks {
				if l.kind == "open" {
					bad = l.why + " (" + p.where(instrPos(l.at)) + ")"
				} else {
					unrep = l.why + " (" + p.where(instrPos(l.at)) + ")"
				}
			}
			r.Add("file-closed", key, p.where(instrPos(c)), bad == "", orStr(bad, "closed or handed on at every return"))
			if h.written {
				r.Add("close-reported", key, p.where(instrPos(c)), unrep == "", orStr(unrep, "the result of Close is looked at before success"))
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				rel, ok := bufferedWriters[calleeName(&c.Call)]
				if !ok {
					continue
				}
				h := handle{origin: c, release: rel, ours: true, written: true, start: b, after: c, what: calleeName(&c.Call)}
				for _, ref := range realRefs(c) {
					if e, ok := ref.(*ssa.Extract); ok {
						if isErr(e.Type()) {
							h.err = e
						} else {
							h.origin = e
						}
					}
				}
				leaks := f.follow(fn, h)
				bad := ""
				for _, l := range leaks {
					if l.kind == "open" {
						// leaving it unflushed is fine when an error is reported
						if ret, ok := l.at.(*ssa.Return); ok {
							if i := errIndex(fn.Signature); i >= 0 && nonNilErr(ret.Results[i], ret.Block(), nil, 0) {
								continue
							}
						}
						bad = "not flushed: " + l.why + " (" + p.where(instrPos(l.at)) + ")"
					} else {
						bad = l.why + " (" + p.where(instrPos(l.at)) + ")"
					}
				}
				r.Add("flush-reported", fnName(fn)+": "+calleeName(&c.Call), p.where(instrPos(c)), bad == "", orStr(bad, rel+" is called and its result looked at before success"))
			}
		}
	}
}

func openCalls(fn *ssa.Function, openers map[*ssa.Function]*ssa.Call) []*ssa.Call {
	var out []*ssa.Call
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if _, ok := fileOpeners[calleeName(&c.Call)]; ok {
					out = append(out, c)
				} else if g := c.Call.StaticCallee(); g != nil && openers[g] != nil {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

func origin(c *ssa.Call, openers map[*ssa.Function]*ssa.Call) *ssa.Call {
	if g := c.Call.StaticCallee(); g != nil && openers[g] != nil {
		return openers[g]
	}
	return c
}

func flowsFrom(v ssa.Value, c *ssa.Call, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == c && !isErr(x.Type())
	case *ssa.MakeInterface:
		return flowsFrom(x.X, c, d+1)
	case *ssa.ChangeInterface:
		return flowsFrom(x.X, c, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if flowsFrom(e, c, d+1) {
				return true
			}
		}
	}
	return false
}
