package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C17"] = checkC17 }

// what each signature stands for: identifier, file extension, converter that must be used ("" = already SFNT)
var formats = []struct {
	sig, mime, ext, conv string
}{
	{"wOFF", "font/woff", ".woff", "ParseWOFF"},
	{"wOF2", "font/woff2", ".woff2", "ParseWOFF2"},
	{"true", "font/truetype", ".ttf", ""},
	{"ttcf", "font/truetype", ".ttf", ""},
	{"OTTO", "font/opentype", ".otf", ""},
	{"", "application/vnd.ms-fontobject", ".eot", "ParseEOT"},
}

func checkC17(p *Prog, r *Report) {
	r.Rule("signature-detected", "data starting with the signature of a format is given the identifier of that format, and no error", 5)
	r.Rule("identifiers-known", "every identifier that detection can return is one of the formats below, and each format can be returned", 5)
	r.Rule("extension", "every identifier has its own file extension", 5)
	r.Rule("conversion", "every identifier has a conversion that can succeed; it calls the parser of that format and no other", 5)
	r.Rule("tool-table", "the tool's table from extension to identifier inverts the library's from identifier to extension", 5)
	r.Rule("tool-decision", "the tool's writer supports or refuses every identifier; what it supports is written in that format", 5)
	r.Rule("identifier-literal", "every string compared with a format identifier is an identifier detection can return", 6)

	mt, ext, conv := p.pkgFunc(fontPath, "MediaType"), p.pkgFunc(fontPath, "Extension"), p.pkgFunc(fontPath, "ToSFNT")
	var wf *ssa.Function
	if pk := p.pkgs[cmdPath]; pk != nil {
		wf = p.pkgFunc(cmdPath, "writeFont")
	}
	for n, f := range map[string]*ssa.Function{"MediaType": mt, "Extension": ext, "ToSFNT": conv, "writeFont": wf} {
		if f == nil {
			r.Bad("identifiers-known", n, "font.go", "function not found")
			return
		}
	}

	// detection: bind every string made of the first four bytes, and every number read from them
	run := runSets(p, mt, nil)
	got := cset{}
	for _, t := range run.rets {
		if t.vals[1].is(symNil) {
			got = got.join(t.vals[0])
		}
	}
	all := map[string]bool{}
	for _, f := range formats {
		all[f.mime] = true
	}
	if got.top {
		r.Bad("identifiers-known", "MediaType", p.where(mt.Pos()), "cannot tell which identifiers are returned")
		return
	}
	for _, s := range got.strs() {
		r.Add("identifiers-known", "returned "+s, p.where(mt.Pos()), all[s], "")
	}
	for s := range all {
		r.Add("identifiers-known", "format "+s, p.where(mt.Pos()), got.may(cv{c: constant.MakeString(s)}), "")
	}
	for _, f := range formats {
		if f.sig == "" {
			continue
		}
		bind := map[ssa.Value]cset{}
		bindPrefix(mt, f.sig, bind)
		rr := runSets(p, mt, bind)
		res := cset{}
		bad := ""
		for _, t := range rr.rets {
			if t.vals[1].is(symNil) {
				res = res.join(t.vals[0])
			}
		}
		if !res.equal(strSet(f.mime)) {
			bad = fmt.Sprintf("%q is detected as %v, want %s", f.sig, res, f.mime)
		}
		r.Add("signature-detected", f.sig, p.where(mt.Pos()), bad == "", bad)
	}

	mimes := []string{}
	for s := range all {
		mimes = append(mimes, s)
	}
	sort.Strings(mimes)
	want := map[string]int{}
	for i, f := range formats {
		want[f.mime] = i
	}
	bindMime := func(fn *ssa.Function, m string) map[ssa.Value]cset {
		bind := map[ssa.Value]cset{}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ex, ok := i.(*ssa.Extract); ok {
					if c, ok := ex.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() == mt {
						if ex.Index == 0 {
							bind[ex] = strSet(m)
						} else {
							bind[ex] = setOf(symNil)
						}
					}
				}
			}
		}
		return bind
	}
	for _, m := range mimes {
		f := formats[want[m]]
		b := bindMime(ext, m)
		if len(b) == 0 {
			r.Bad("extension", m, p.where(ext.Pos()), "Extension does not use MediaType")
		} else {
			res := runSets(p, ext, b).results()[0]
			r.Add("extension", m, p.where(ext.Pos()), res.equal(strSet(f.ext)), fmt.Sprintf("%v, want %s", res, f.ext))
		}
		b = bindMime(conv, m)
		if len(b) == 0 {
			r.Bad("conversion", m, p.where(conv.Pos()), "ToSFNT does not use MediaType")
		} else {
			rr := runSets(p, conv, b)
			bad := ""
			succ := false
			for _, t := range rr.rets {
				if t.vals[1].may(symNil) && !t.vals[0].is(symNil) {
					succ = true
				}
			}
			if !succ {
				bad = "conversion cannot succeed"
			}
			called := map[string]bool{}
			for c := range rr.calls {
				if g := c.Common().StaticCallee(); g != nil && fnPkgPath(g) == fontPath && g != mt {
					reachParsers(g, called, map[*ssa.Function]bool{}, 0)
				}
			}
			for _, x := range []string{"ParseWOFF", "ParseWOFF2", "ParseEOT"} {
				if called[x] != (x == f.conv) {
					bad += fmt.Sprintf(" %s called=%v", x, called[x])
				}
			}
			r.Add("conversion", m, p.where(conv.Pos()), bad == "", bad)
		}
	}

	// the tool's table
	if g, ok := p.SSA.ImportedPackage(cmdPath).Members["extMimetype"].(*ssa.Global); ok {
		rr := newSetRun(p, wf, nil, 0)
		st := p.initStore(g)
		if st == nil {
			r.Bad("tool-table", "extMimetype", p.where(g.Pos()), "table is changed outside initialisation")
		} else if m, _, ok := rr.constMap(st.Val); !ok {
			r.Bad("tool-table", "extMimetype", p.where(g.Pos()), "table is not a constant table")
		} else {
			for _, f := range formats {
				v := m[cv{c: constant.MakeString(f.ext)}.key()]
				r.Add("tool-table", f.ext, p.where(g.Pos()), v.equal(strSet(f.mime)), fmt.Sprintf("%s is %v, want %s", f.ext, v, f.mime))
			}
			for k, v := range m {
				ok := !v.top
				for _, s := range v.strs() {
					ok = ok && all[s]
				}
				r.Add("tool-table", "value "+k, p.where(g.Pos()), ok, fmt.Sprintf("%v", v))
			}
		}
	} else {
		r.Bad("tool-table", "extMimetype", "cmd/fontcmd/util.go", "table not found")
	}

	// the tool's writer
	mp := (*ssa.Parameter)(nil)
	for _, q := range wf.Params {
		if q.Name() == "mimetype" {
			mp = q
		}
	}
	if mp == nil && len(wf.Params) > 1 {
		mp = wf.Params[1]
	}
	for _, m := range mimes {
		rr := runSets(p, wf, map[ssa.Value]cset{mp: strSet(m)})
		writes := map[string]bool{}
		for c := range rr.calls {
			if g := c.Common().StaticCallee(); g != nil && fnPkgPath(g) == fontPath {
				writes[g.Name()] = true
			}
		}
		succ, fail := false, false
		for _, t := range rr.rets {
			e := t.vals[len(t.vals)-1]
			if e.may(symNil) {
				succ = true
			} else {
				fail = true
			}
		}
		bad := ""
		switch m {
		case "font/truetype", "font/opentype":
			if !succ || !writes["Write"] || writes["WriteWOFF2"] {
				bad = fmt.Sprintf("must be written by SFNT.Write: %v", keysOf(writes))
			}
		case "font/woff2":
			if !succ || !writes["WriteWOFF2"] || writes["Write"] {
				bad = fmt.Sprintf("must be written by SFNT.WriteWOFF2: %v", keysOf(writes))
			}
		default:
			if succ && (len(writes) == 0 || writes["WriteWOFF2"] || writes["Write"]) || !succ && !fail {
				bad = fmt.Sprintf("neither refused nor written in its own format: %v", keysOf(writes))
			}
		}
		r.Add("tool-decision", m, p.where(wf.Pos()), bad == "", bad)
	}

	// literals
	for _, fn := range p.liveFuncs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				bo, ok := i.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				for _, x := range []ssa.Value{bo.X, bo.Y} {
					c, ok := x.(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(c.Value)
					if strings.HasPrefix(s, "font/") || strings.HasPrefix(s, "application/") {
						r.Add("identifier-literal", fnName(fn)+" "+s, p.where(instrPos(i)), all[s], "")
					}
				}
			}
		}
	}
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func reachParsers(g *ssa.Function, out map[string]bool, seen map[*ssa.Function]bool, d int) {
	if seen[g] || d > 2 || g.Blocks == nil {
		return
	}
	seen[g] = true
	out[g.Name()] = true
	if g.Name() == "ParseWOFF" || g.Name() == "ParseWOFF2" || g.Name() == "ParseEOT" {
		return
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && fnPkgPath(h) == fontPath {
					reachParsers(h, out, seen, d+1)
				}
			}
		}
	}
}

// bindPrefix binds what fn computes from the first four bytes of its first parameter.
func bindPrefix(fn *ssa.Function, sig string, bind map[ssa.Value]cset) {
	b := fn.Params[0]
	isPrefix := func(v ssa.Value) bool {
		sl, ok := v.(*ssa.Slice)
		if !ok || sl.X != b {
			return false
		}
		if sl.Low != nil {
			if c, ok := sl.Low.(*ssa.Const); !ok || c.Int64() != 0 {
				return false
			}
		}
		if sl.High == nil {
			return false
		}
		c, ok := sl.High.(*ssa.Const)
		return ok && c.Int64() == 4
	}
	n := uint64(0)
	for i := 0; i < 4; i++ {
		n = n<<8 | uint64(sig[i])
	}
	for _, blk := range fn.Blocks {
		for _, i := range blk.Instrs {
			switch i := i.(type) {
			case *ssa.Convert:
				if isPrefix(i.X) {
					bind[i] = strSet(sig)
				}
			case *ssa.Call:
				nm := calleeName(&i.Call)
				if strings.HasSuffix(nm, "bigEndian).Uint32") && len(i.Call.Args) > 0 {
					a := i.Call.Args[len(i.Call.Args)-1]
					if isPrefix(a) || a == ssa.Value(b) {
						bind[i] = setOf(cv{c: constant.MakeUint64(n)})
					}
				}
			}
		}
	}
}
