package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C15"] = checkC15 }

//go:embed ref/macglyphs.txt
var refMac string

//go:embed ref/cffstrings.txt
var refCFF string

//go:embed ref/woff2tags.txt
var refWOFF2 string

//go:embed ref/agl.txt
var refAGL string

//go:embed ref/windows1252.txt
var ref1252 string

//go:embed ref/os2ranges.txt
var refOS2 string

// the identifiers of the name and cmap tables
var refConsts = map[string]int64{
	"PlatformUnicode": 0, "PlatformMacintosh": 1, "PlatformWindows": 3, "PlatformCustom": 4,
	"EncodingUnicode2BMP": 3, "EncodingUnicode2FullRepertoir": 4, "EncodingUnicodeVariationSequences": 5, "EncodingUnicodeFullRepertoire": 6,
	"EncodingMacintoshRoman": 0, "EncodingMacintoshJapanese": 1, "EncodingMacintoshChineseTraditional": 2, "EncodingMacintoshKorean": 3,
	"EncodingMacintoshArabic": 4, "EncodingMacintoshHebrew": 5, "EncodingMacintoshGreek": 6, "EncodingMacintoshRussian": 7,
	"EncodingMacintoshRSymbol": 8, "EncodingMacintoshDevanagari": 9, "EncodingMacintoshGurmukhi": 10, "EncodingMacintoshGujarati": 11,
	"EncodingMacintoshOriya": 12, "EncodingMacintoshBengali": 13, "EncodingMacintoshTamil": 14, "EncodingMacintoshTelugu": 15,
	"EncodingMacintoshKannada": 16, "EncodingMacintoshMalayalam": 17, "EncodingMacintoshSinhalese": 18, "EncodingMacintoshBurmese": 19,
	"EncodingMacintoshKhmer": 20, "EncodingMacintoshThai": 21, "EncodingMacintoshLaotian": 22, "EncodingMacintoshGeorgian": 23,
	"EncodingMacintoshArmenian": 24, "EncodingMacintoshChineseSimplified": 25, "EncodingMacintoshTibetan": 26, "EncodingMacintoshMongolian": 27,
	"EncodingMacintoshGeez": 28, "EncodingMacintoshSlavic": 29, "EncodingMacintoshVietnamese": 30, "EncodingMacintoshSindhi": 31,
	"EncodingMacintoshUninterpreted": 32,
	"EncodingWindowsSymbol":          0, "EncodingWindowsUnicodeBMP": 1, "EncodingWindowsShiftJIS": 2, "EncodingWindowsPRC": 3,
	"EncodingWindowsBig5": 4, "EncodingWindowsWansung": 5, "EncodingWindowsJohab": 6, "EncodingWindowsUnicodeFullRepertoir": 10,
	"NameCopyrightNotice": 0, "NameFontFamily": 1, "NameFontSubfamily": 2, "NameUniqueIdentifier": 3, "NameFull": 4, "NameVersion": 5,
	"NamePostScript": 6, "NameTrademark": 7, "NameManufacturer": 8, "NameDesigner": 9, "NameDescription": 10, "NameVendorURL": 11,
	"NameDesignerURL": 12, "NameLicense": 13, "NameLicenseURL": 14, "NamePreferredFamily": 16, "NamePreferredSubfamily": 17,
	"NameCompatibleFull": 18, "NameSampleText": 19, "NamePostScriptCID": 20, "NameWWSFamily": 21, "NameWWSSubfamily": 22,
	"NameLightBackgroundPalette": 23, "NameDarkBackgroundPalette": 24, "NameVariationsPostScriptPrefix": 25,
}

type refTable struct {
	id       string
	title    string
	entries  []string       // by index; nil for a map
	dict     map[string]int // by name
	optional bool
	numeric  bool
}

func refTables() []*refTable {
	lines := func(s string) []string { return strings.Split(strings.TrimRight(s, "\n"), "\n") }
	ts := []*refTable{
		{id: "mac", title: "Macintosh glyph order", entries: lines(refMac)},
		{id: "cff", title: "CFF standard strings", entries: lines(refCFF)},
		{id: "woff2", title: "WOFF2 known table tags", entries: lines(refWOFF2)},
		{id: "agl", title: "Adobe glyph list", dict: map[string]int{}},
		{id: "1252", title: "Windows-1252", optional: true, numeric: true},
	}
	for _, l := range lines(refAGL) {
		i := strings.IndexByte(l, ';')
		c, _ := strconv.ParseInt(l[i+1:], 16, 32)
		ts[3].dict[l[:i]] = int(c)
	}
	for _, l := range lines(ref1252) {
		c, _ := strconv.ParseInt(l[3:], 16, 32)
		ts[4].entries = append(ts[4].entries, strconv.Itoa(int(c)))
	}
	return ts
}

// literal table of a package variable
type litTable struct {
	name    string
	pos     token.Pos
	entries []string
	at      []token.Pos
	dict    map[string]string
	dictAt  map[string]token.Pos
	twice   []string
}

// literals collects the package variables that are tables of constants.
func (p *Prog) literals(path string) []*litTable {
	pk := p.pkgs[path]
	var out []*litTable
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) != len(vs.Names) {
					continue
				}
				for i, nm := range vs.Names {
					if t := litOf(pk.TypesInfo, vs.Values[i]); t != nil {
						t.name, t.pos = nm.Name, nm.Pos()
						out = append(out, t)
					}
				}
			}
		}
	}
	return out
}

func constText(info *types.Info, e ast.Expr) (string, bool) {
	tv, ok := info.Types[e]
	if !ok || tv.Value == nil {
		return "", false
	}
	switch tv.Value.Kind() {
	case constant.String:
		return constant.StringVal(tv.Value), true
	case constant.Int:
		return tv.Value.ExactString(), true
	}
	return "", false
}

func litOf(info *types.Info, e ast.Expr) *litTable {
	if call, ok := e.(*ast.CallExpr); ok && 1 <= len(call.Args) {
		// strings.Fields("...") and strings.Split("...", ",")
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return nil
		}
		fn, ok := info.Uses[sel.Sel].(*types.Func)
		if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "strings" {
			return nil
		}
		s, ok := constText(info, call.Args[0])
		if !ok {
			return nil
		}
		t := &litTable{}
		switch {
		case fn.Name() == "Fields":
			t.entries = strings.Fields(s)
		case fn.Name() == "Split" && len(call.Args) == 2:
			sep, ok := constText(info, call.Args[1])
			if !ok {
				return nil
			}
			t.entries = strings.Split(s, sep)
		default:
			return nil
		}
		for range t.entries {
			t.at = append(t.at, call.Pos())
		}
		return t
	}
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil
	}
	tv := info.Types[cl]
	t := &litTable{}
	switch u := tv.Type.Underlying().(type) {
	case *types.Map:
		t.dict, t.dictAt = map[string]string{}, map[string]token.Pos{}
		for _, el := range cl.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				return nil
			}
			k, ok1 := constText(info, kv.Key)
			v, ok2 := constText(info, kv.Value)
			if !ok1 || !ok2 {
				return nil
			}
			t.dict[k], t.dictAt[k] = v, kv.Pos()
		}
		return t
	case *types.Slice, *types.Array:
		idx := 0
		if a, ok := u.(*types.Array); ok {
			zero := ""
			if isIntType(a.Elem()) {
				zero = "0"
			}
			if a.Len() > 1<<16 {
				return nil
			}
			for i := int64(0); i < a.Len(); i++ {
				t.entries = append(t.entries, zero)
				t.at = append(t.at, cl.Pos())
			}
		}
		for _, el := range cl.Elts {
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k, ok := constText(info, kv.Key)
				if !ok {
					return nil
				}
				n, err := strconv.Atoi(k)
				if err != nil || n > 1<<16 {
					return nil
				}
				idx, val = n, kv.Value
			}
			v, ok := constText(info, val)
			if !ok {
				return nil
			}
			for len(t.entries) <= idx {
				t.entries = append(t.entries, "")
				t.at = append(t.at, cl.Pos())
			}
			t.entries[idx], t.at[idx] = v, el.Pos()
			idx++
		}
		return t
	}
	return nil
}

// similar tells which share of the entries two tables have in common.
func (ref *refTable) similar(t *litTable) float64 {
	if (ref.dict != nil) != (t.dict != nil) {
		return 0
	}
	inter, union := 0, 0
	switch {
	case ref.dict != nil:
		for k := range ref.dict {
			if _, ok := t.dict[k]; ok {
				inter++
			}
		}
		union = len(ref.dict) + len(t.dict) - inter
	case ref.numeric:
		for i, e := range ref.entries {
			if i < len(t.entries) && t.entries[i] == e {
				inter++
			}
		}
		union = len(ref.entries)
		if union < len(t.entries) {
			union = len(t.entries)
		}
	default:
		set := map[string]bool{}
		for _, e := range ref.entries {
			set[e] = true
		}
		n := map[string]bool{}
		for _, e := range t.entries {
			n[e] = true
			if set[e] {
				inter++
				delete(set, e)
			}
		}
		union = len(ref.entries) + len(t.entries) - inter
	}
	if union == 0 {
		return 0
	}
	return float64(inter) / float64(union)
}

func checkC15(p *Prog, r *Report) {
	r.Rule("table", "a package variable that is one of the standard tables has the entries of the standard: the same number, each at its own index or under its own name", 4)
	r.Rule("table-use", "a standard table is never written, and is indexed with the standard's own number: without an offset, and with the length of the table as the border to the numbers that mean something else", 6)
	r.Rule("identifier", "the exported platform, encoding and name identifiers have the numbers of the standard", 60)
	r.Rule("unicode-range", "for every code point, alone and together with another one, the words for the OS/2 table have exactly the bits of the standard", 150)
	r.Rule("unicode-range-field", "word k of the ranges goes to UlUnicodeRange k+1 and nothing else is stored there, apart from what a font had", 4)

	lits := append(p.literals(fontPath), p.literals(cmdPath)...)
	for _, ref := range refTables() {
		found := 0
		for _, t := range lits {
			if ref.similar(t) < 0.6 {
				continue
			}
			found++
			p.compareTable(r, ref, t)
			if ref.dict == nil {
				p.tableUses(r, ref, t)
			}
			p.tableWritten(r, ref, t)
		}
		if found == 0 && !ref.optional {
			r.Bad("table", ref.title, "", "no package variable has the entries of this table")
		}
	}

	scope := p.pkgs[fontPath].Types.Scope()
	var names []string
	for n := range refConsts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			r.Bad("identifier", n, "", "the constant is gone")
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		r.Add("identifier", n, p.where(c.Pos()), v == refConsts[n], fmt.Sprintf("%s is %d, in the standard it is %d", n, v, refConsts[n]))
	}

	p.unicodeRanges(r)
}

func (p *Prog) compareTable(r *Report, ref *refTable, t *litTable) {
	bad := 0
	fail := func(key string, pos token.Pos, detail string) {
		bad++
		if bad <= 20 {
			r.Bad("table", ref.title+" "+key, p.where(pos), detail)
		}
	}
	if ref.dict != nil {
		var keys []string
		for k := range ref.dict {
			keys = append(keys, k)
		}
		for k := range t.dict {
			if _, ok := ref.dict[k]; !ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			want, in := ref.dict[k]
			got, has := t.dict[k]
			switch {
			case !has:
				fail(k, t.pos, fmt.Sprintf("%s has no entry %q", t.name, k))
			case !in:
				fail(k, t.dictAt[k], fmt.Sprintf("%s has an entry %q that the standard does not have", t.name, k))
			case got != strconv.Itoa(want):
				fail(k, t.dictAt[k], fmt.Sprintf("%s[%q] is %s, in the standard it is %d (U+%04X)", t.name, k, got, want, want))
			}
		}
		if bad == 0 {
			r.OK("table", ref.title, p.where(t.pos), fmt.Sprintf("%s: %d entries as in the standard", t.name, len(t.dict)))
		}
		return
	}
	if len(t.entries) != len(ref.entries) {
		fail("length", t.pos, fmt.Sprintf("%s has %d entries, the standard has %d", t.name, len(t.entries), len(ref.entries)))
	}
	for i, want := range ref.entries {
		if i < len(t.entries) && t.entries[i] != want {
			fail(fmt.Sprintf("entry %d", i), t.at[i], fmt.Sprintf("%s[%d] is %q, in the standard it is %q", t.name, i, t.entries[i], want))
		}
	}
	if bad == 0 {
		r.OK("table", ref.title, p.where(t.pos), fmt.Sprintf("%s: %d entries as in the standard", t.name, len(t.entries)))
	}
}

func (p *Prog) globalOf(t *litTable) *ssa.Global {
	for _, path := range []string{fontPath, cmdPath} {
		if pk := p.pkgs[path]; pk != nil {
			if v, ok := pk.Types.Scope().Lookup(t.name).(*types.Var); ok && v.Pos() == t.pos {
				if sp := p.SSA.Package(pk.Types); sp != nil {
					return sp.Var(t.name)
				}
			}
		}
	}
	return nil
}

// tableValues are the values that are the table: loads of the variable, whole slices of it, and
// parameters that get it.
func (p *Prog) tableValues(g *ssa.Global) map[ssa.Value]bool {
	vals := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if vals[v] {
			return
		}
		vals[v] = true
		for _, ref := range realRefs(v) {
			switch x := ref.(type) {
			case *ssa.Slice:
				if x.Low == nil && x.High == nil || x.High == nil && isZero(x.Low) {
					add(x)
				}
			case *ssa.Phi:
				add(x)
			case *ssa.ChangeType:
				add(x)
			case ssa.CallInstruction:
				if c := x.Common().StaticCallee(); c != nil && repoPkg(fnPkgPath(c)) {
					for i, a := range x.Common().Args {
						if a == v && i < len(c.Params) {
							add(c.Params[i])
						}
					}
				}
			}
		}
	}
	array := false
	if pt, ok := g.Type().Underlying().(*types.Pointer); ok {
		_, array = pt.Elem().Underlying().(*types.Array)
	}
	for _, fn := range p.repoFuncs(fontPath, cmdPath) {
		eachInstr(fn, func(i ssa.Instruction) {
			for _, op := range i.Operands(nil) {
				if *op != g {
					continue
				}
				if u, ok := i.(*ssa.UnOp); ok {
					add(u)
				}
				if array {
					vals[g] = true
				}
			}
		})
	}
	return vals
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func (p *Prog) tableWritten(r *Report, ref *refTable, t *litTable) {
	g := p.globalOf(t)
	if g == nil {
		r.Bad("table-use", ref.title+" written", p.where(t.pos), "the variable is not found in the program")
		return
	}
	vals := p.tableValues(g)
	ok := true
	bad := func(i ssa.Instruction, how string) {
		ok = false
		r.Bad("table-use", ref.title+" written in "+fnName(i.Parent()), p.where(instrPos(i)), "the table "+t.name+" is written: "+how)
	}
	for _, fn := range p.repoFuncs(fontPath, cmdPath) {
		eachInstr(fn, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Store:
				if x.Addr == g && !strings.HasPrefix(fn.Name(), "init") {
					bad(i, "assigned")
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && vals[ia.X] && !(fn.Name() == "init" && fn.Synthetic != "") {
					bad(i, "an entry is assigned")
				}
			case *ssa.MapUpdate:
				if vals[x.Map] {
					bad(i, "an entry is assigned")
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy", "append", "delete", "clear":
						if vals[x.Common().Args[0]] {
							bad(i, b.Name())
						}
					}
				}
			}
		})
	}
	if ok {
		r.OK("table-use", ref.title+" written", p.where(t.pos), t.name+" is only written by its initialiser")
	}
}

func bareInt(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if !isIntType(x.X.Type()) || !isIntType(x.Type()) {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// counter tells whether v is the number of a loop: it starts at 0 (or -1 and is used after
// the increment) and goes up by one.
func counter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, ok := b.Y.(*ssa.Const); ok && c.Int64() == 1 {
			if phi, ok := b.X.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					if c, ok := e.(*ssa.Const); ok && c.Int64() == -1 {
						continue
					}
					if e != v {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if isZero(e) {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != phi {
			return false
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Int64() != 1 {
			return false
		}
	}
	return true
}

func (p *Prog) tableUses(r *Report, ref *refTable, t *litTable) {
	g := p.globalOf(t)
	if g == nil {
		return
	}
	n := int64(len(ref.entries))
	vals := p.tableValues(g)
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && vals[c.Call.Args[0]]
	}
	kconst := func(v ssa.Value) (int64, bool) {
		if isLen(v) {
			return n, true
		}
		if c, ok := bareInt(v).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			return c.Int64(), true
		}
		return 0, false
	}
	for _, fn := range p.repoFuncs(fontPath, cmdPath) {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		var sites []*ssa.IndexAddr
		touches := false
		eachInstr(fn, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if vals[x.X] {
					sites = append(sites, x)
				}
			case *ssa.Slice:
				if vals[x.X] && !vals[x] {
					if x.Low != nil && !isZero(x.Low) {
						r.Bad("table-use", ref.title+" sliced in "+fnName(fn), p.where(x.Pos()), "a part of "+t.name+" that does not start at entry 0 is used: entries get another number")
					}
				}
			}
			for _, op := range i.Operands(nil) {
				if *op != nil && (vals[*op] || *op == g) {
					touches = true
				}
			}
		})
		if !touches {
			continue
		}
		raw := map[ssa.Value]bool{}
		loop := map[ssa.Value]bool{}
		for k, s := range sites {
			key := fmt.Sprintf("%s in %s #%d", ref.title, fnName(fn), k+1)
			x := bareInt(s.Index)
			b, isBin := x.(*ssa.BinOp)
			switch {
			case counter(x):
				loop[x] = true
				r.OK("table-use", key, p.where(s.Pos()), "all entries in order")
			case isBin && (b.Op == token.ADD || b.Op == token.SUB || b.Op == token.MUL || b.Op == token.QUO || b.Op == token.SHR || b.Op == token.SHL || b.Op == token.XOR || b.Op == token.OR):
				r.Bad("table-use", key, p.where(s.Pos()), fmt.Sprintf("%s is indexed with %s: not the number of the standard itself", t.name, strOf(s.Index)))
			case isBin && b.Op == token.AND:
				c, ok := kconst(b.Y)
				if !ok {
					c, ok = kconst(b.X)
				}
				r.Add("table-use", key, p.where(s.Pos()), ok && c >= n-1 && c&(c+1) == 0, fmt.Sprintf("%s is indexed with the low bits of a number", t.name))
				raw[x] = true
			default:
				if c, ok := x.(*ssa.Const); ok {
					r.Add("table-use", key, p.where(s.Pos()), c.Int64() == 0, "a fixed entry")
					continue
				}
				raw[x] = true
				fixed, other := phiLeaves(x, raw)
				switch {
				case other != nil:
					r.Bad("table-use", key, p.where(s.Pos()), fmt.Sprintf("%s is indexed with %s in some cases: not the number of the standard itself", t.name, strOf(other)))
				case fixed != nil:
					r.Bad("table-use", key, p.where(s.Pos()), fmt.Sprintf("%s is indexed with %s in some cases: one number stands for another", t.name, strOf(fixed)))
				default:
					r.OK("table-use", key, p.where(s.Pos()), t.name+" is indexed with the number itself")
				}
			}
		}
		if len(raw) == 0 && len(loop) == 0 {
			continue
		}
		borders := 0
		eachInstr(fn, func(i ssa.Instruction) {
			b, ok := i.(*ssa.BinOp)
			if !ok {
				return
			}
			x, y, op := bareInt(b.X), b.Y, b.Op
			if _, ok := kconst(b.X); ok {
				x, y = bareInt(b.Y), b.X
				op = mirror(op)
			}
			k, ok := kconst(y)
			if !ok {
				return
			}
			key := fmt.Sprintf("%s border in %s #%d", ref.title, fnName(fn), borders+1)
			switch op {
			case token.LSS, token.GEQ, token.LEQ, token.GTR, token.EQL, token.NEQ:
				if !raw[x] {
					return
				}
				if op == token.LEQ || op == token.GTR {
					k++
				}
				if k == 0 || k == -1 {
					return // not negative
				}
				borders++
				r.Add("table-use", key, p.where(b.Pos()), k == n, fmt.Sprintf("the numbers below %d are taken as entries of %s, the standard has %d", k, t.name, n))
			}
		})
		// sums: the number of the standard plus or minus a constant, however it is written
		var linear func(v ssa.Value) (ssa.Value, int64)
		linear = func(v ssa.Value) (ssa.Value, int64) {
			v = bareInt(v)
			if k, ok := kconst(v); ok {
				return nil, k
			}
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && !loop[v] && !raw[v] {
				x, k := linear(b.X)
				y, l := linear(b.Y)
				switch {
				case y == nil && b.Op == token.SUB:
					return x, k - l
				case y == nil:
					return x, k + l
				case x == nil && b.Op == token.ADD:
					return y, k + l
				}
			}
			return v, 0
		}
		sums := 0
		eachInstr(fn, func(i ssa.Instruction) {
			b, ok := i.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB || !isIntType(b.Type()) || loop[b] || raw[b] {
				return
			}
			if !sumEnds(b) {
				return
			}
			x, k := linear(b)
			if x == nil || k == 0 || x == b {
				return
			}
			near := n > 100 && (k-n <= 4 && n-k <= 4 || -k-n <= 4 && n+k <= 4)
			switch {
			case loop[x] && k == 1 && (n <= 100 || !near): // the increment
			case raw[x] || loop[x] || near:
				sums++
				r.Add("table-use", fmt.Sprintf("%s sum in %s #%d", ref.title, fnName(fn), sums), p.where(b.Pos()), raw[x] && k == -n || !raw[x] && !loop[x] && (k == n || k == -n), fmt.Sprintf("%d is added to a number: the entries of %s are %d", k, t.name, n))
			}
		})
	}
}

// phiLeaves adds the values that a join chooses from to raw; fixed is a constant other than 0 among them, other a
// number that was calculated.
func phiLeaves(v ssa.Value, raw map[ssa.Value]bool) (fixed, other ssa.Value) {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return
	}
	for _, e := range phi.Edges {
		e = bareInt(e)
		if raw[e] {
			continue
		}
		switch e := e.(type) {
		case *ssa.Const:
			if !isZero(e) {
				fixed = e
			}
		case *ssa.BinOp:
			other = e
		default:
			raw[e] = true
			if f, o := phiLeaves(e, raw); f != nil || o != nil {
				fixed, other = f, o
			}
		}
	}
	return
}

// sumEnds tells whether a sum is used for anything else than a further sum with a constant.
func sumEnds(v ssa.Value) bool {
	refs := realRefs(v)
	for _, ref := range refs {
		switch x := ref.(type) {
		case *ssa.Convert:
			if isIntType(x.Type()) {
				if sumEnds(x) {
					return true
				}
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				continue
			}
		}
		return true
	}
	return len(refs) == 0
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

type uniBlock struct {
	bit    int
	lo, hi int64
	name   string
}

func uniBlocks() []uniBlock {
	var out []uniBlock
	for _, l := range strings.Split(strings.TrimSpace(refOS2), "\n") {
		if strings.HasPrefix(l, "#") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		bit, _ := strconv.Atoi(f[0])
		lo, _ := strconv.ParseInt(f[1], 16, 64)
		hi, _ := strconv.ParseInt(f[2], 16, 64)
		out = append(out, uniBlock{bit, lo, hi, f[3]})
	}
	return out
}

type uniSeg struct {
	lo, hi int64
	words  [4]uint32
	name   string
}

// uniSegments cuts the code points into pieces for which the standard sets the same bits.
func uniSegments() []uniSeg {
	blocks := uniBlocks()
	cuts := map[int64]bool{0: true, 0x110000: true}
	for _, b := range blocks {
		cuts[b.lo], cuts[b.hi+1] = true, true
	}
	var cs []int64
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	var segs []uniSeg
	for i := 0; i+1 < len(cs); i++ {
		s := uniSeg{lo: cs[i], hi: cs[i+1] - 1, name: fmt.Sprintf("no block U+%04X", cs[i])}
		for _, b := range blocks {
			if b.lo <= s.lo && s.hi <= b.hi {
				s.words[b.bit/32] |= 1 << uint(b.bit%32)
				if b.bit != 57 {
					s.name = b.name
				}
			}
		}
		segs = append(segs, s)
	}
	return segs
}

func bitsOf(w [4]uint32) string {
	var s []string
	for i := 0; i < 128; i++ {
		if w[i/32]>>uint(i%32)&1 != 0 {
			s = append(s, strconv.Itoa(i))
		}
	}
	if len(s) == 0 {
		return "no bits"
	}
	return "bits " + strings.Join(s, ", ")
}

// rangeWord traces a value to word k of the result of a function.
func rangeWord(v ssa.Value, seen map[ssa.Value]bool) (fns map[*ssa.Call]int, rest []ssa.Value) {
	fns = map[*ssa.Call]int{}
	if seen[v] {
		return
	}
	seen[v] = true
	merge := func(x ssa.Value) {
		f, r := rangeWord(x, seen)
		for k, i := range f {
			fns[k] = i
		}
		rest = append(rest, r...)
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			merge(e)
		}
		return
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			fns[c] = x.Index
			return
		}
	case *ssa.Index:
		if c, ok := x.X.(*ssa.Call); ok {
			if k, ok := x.Index.(*ssa.Const); ok {
				fns[c] = int(k.Int64())
				return
			}
		}
	case *ssa.Const:
		if isZero(x) {
			return
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			al, ok := a.X.(*ssa.Alloc)
			k, ok2 := a.Index.(*ssa.Const)
			if !ok || !ok2 {
				break
			}
			good := true
			for _, ref := range realRefs(al) {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr != al {
						good = false
					} else if c, ok := y.Val.(*ssa.Call); ok {
						fns[c] = int(k.Int64())
					} else if u, ok := y.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
						if _, ok := u.X.(*ssa.Alloc); !ok {
							good = false
						}
					} else if _, ok := y.Val.(*ssa.Const); !ok {
						good = false
					}
				case *ssa.IndexAddr:
					for _, rr := range realRefs(y) {
						if st, ok := rr.(*ssa.Store); ok && !isZero(st.Val) {
							good = false
						}
					}
				case *ssa.UnOp:
				default:
					good = false
				}
			}
			if good {
				return
			}
		case *ssa.Alloc:
			for _, ref := range realRefs(a) {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					merge(st.Val)
				}
			}
			return
		}
	}
	rest = append(rest, v)
	return
}

func ulField(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

func (p *Prog) unicodeRanges(r *Report) {
	fns := map[*ssa.Function]bool{}
	for _, fn := range p.liveFuncs() {
		n := 0
		eachInstr(fn, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			name := ulField(st.Addr)
			if !strings.HasPrefix(name, "UlUnicodeRange") || len(name) != 15 {
				return
			}
			k := int(name[14] - '1')
			n++
			key := fmt.Sprintf("%s in %s", name, fnName(fn))
			calls, rest := rangeWord(st.Val, map[ssa.Value]bool{})
			ok = true
			detail := ""
			for c, idx := range calls {
				callee := c.Call.StaticCallee()
				if callee == nil || !repoPkg(fnPkgPath(callee)) {
					if idx == 0 && strings.Contains(genericName(&c.Call), "ReadUint32") {
						continue // the parser
					}
					ok, detail = false, "the value comes from "+genericName(&c.Call)
					continue
				}
				fns[callee] = true
				if idx != k {
					ok, detail = false, fmt.Sprintf("word %d of the ranges goes to %s", idx, name)
				}
			}
			for _, v := range rest {
				if why := sameRangeField(v, name); why != "" {
					ok, detail = false, why
				}
			}
			if ok {
				detail = "its own word"
			}
			r.Add("unicode-range-field", key, p.where(st.Pos()), ok, detail)
		})
	}
	segs := uniSegments()
	if len(fns) == 0 {
		r.Bad("unicode-range", "function", "", "no function computes the Unicode ranges of the OS/2 table")
		return
	}
	var list []*ssa.Function
	for fn := range fns {
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
	for _, fn := range list {
		p.checkRanges(r, fn, segs)
	}
}

// sameRangeField: what a font had (a load of the same field), joined with OR.
func sameRangeField(v ssa.Value, name string) string {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.OR {
			if why := sameRangeField(x.X, name); why != "" {
				return why
			}
			return sameRangeField(x.Y, name)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if n := ulField(x.X); n == name {
				return ""
			} else if strings.HasPrefix(n, "UlUnicodeRange") {
				return n + " goes to " + name
			}
		}
	case *ssa.Call:
		if strings.Contains(genericName(&x.Call), "ReadUint32") || strings.Contains(genericName(&x.Call), "Uint32") {
			return ""
		}
	}
	return "a value of unknown origin: " + strOf(v)
}

// checkRanges compares what fn gives for the code points with the standard.
func (p *Prog) checkRanges(r *Report, fn *ssa.Function, segs []uniSeg) {
	key := func(s uniSeg, with string) string { return fnName(fn) + " " + s.name + with }
	if len(fn.Params) != 1 {
		r.Bad("unicode-range", fnName(fn), p.where(fn.Pos()), "the function does not take the code points as its only parameter")
		return
	}
	sl, ok := fn.Params[0].Type().Underlying().(*types.Slice)
	if !ok || !isIntType(sl.Elem()) {
		r.Bad("unicode-range", fnName(fn), p.where(fn.Pos()), "the function does not take a list of code points")
		return
	}
	type form struct {
		name  string
		other int64
		first bool
	}
	wordsFor := func(r int64) [4]uint32 {
		for _, s := range segs {
			if s.lo <= r && r <= s.hi {
				return s.words
			}
		}
		return [4]uint32{}
	}
	forms := []form{{"", -1, false}, {" before U+0041", 'A', true}, {" after U+0041", 'A', false}, {" before U+1D401", 0x1D401, true}, {" after U+1D401", 0x1D401, false}}
	for _, fo := range forms {
		g := newRanger(p)
		elems := []rval{raff{0}}
		base := [4]uint32{}
		if fo.other != -1 {
			base = wordsFor(fo.other)
			if fo.first {
				elems = []rval{raff{0}, rint(fo.other)}
			} else {
				elems = []rval{rint(fo.other), raff{0}}
			}
		}
		mem := map[int]rval{0: ragg{elems}}
		leaves := g.run(fn, []rval{rslice{0, "", 0, len(elems), len(elems)}}, mem, 0, 0x10FFFF)
		if g.why != "" {
			r.Bad("unicode-range", fnName(fn)+fo.name, g.whyPos, "not decided: "+g.why)
			continue
		}
		sort.Slice(leaves, func(i, j int) bool { return leaves[i].lo < leaves[j].lo })
		for _, s := range segs {
			want := s.words
			for i := range want {
				want[i] |= base[i]
			}
			bad := ""
			next := s.lo
			for _, l := range leaves {
				if l.hi < s.lo || s.hi < l.lo {
					continue
				}
				if l.lo > next {
					break
				}
				next = l.hi + 1
				got, ok := wordsOf(l)
				if !ok {
					bad = fmt.Sprintf("not decided for U+%04X: the result is not constant", l.lo)
				} else if got != want && bad == "" {
					lo, hi := l.lo, l.hi
					if lo < s.lo {
						lo = s.lo
					}
					if s.hi < hi {
						hi = s.hi
					}
					bad = fmt.Sprintf("U+%04X to U+%04X%s sets %s, the standard says %s", lo, hi, fo.name, bitsOf(got), bitsOf(want))
				}
			}
			if bad == "" && next <= s.hi {
				bad = fmt.Sprintf("no result for U+%04X", next)
			}
			if bad != "" {
				r.Bad("unicode-range", key(s, fo.name), p.where(fn.Pos()), bad)
			} else {
				r.OK("unicode-range", key(s, fo.name), p.where(fn.Pos()), fmt.Sprintf("U+%04X to U+%04X: %s", s.lo, s.hi, bitsOf(want)))
			}
		}
	}
}

func wordsOf(l rleaf) ([4]uint32, bool) {
	var w [4]uint32
	var e []rval
	switch len(l.results) {
	case 4:
		e = l.results
	case 1:
		switch x := l.results[0].(type) {
		case ragg:
			e = x.e
		case rslice:
			for i := 0; i < x.len; i++ {
				e = append(e, rget(l.mem[x.obj], rstep(x.path, x.off+i)))
			}
		}
	}
	if len(e) != 4 {
		return w, false
	}
	for i := range w {
		v, ok := e[i].(rint)
		if !ok {
			return w, false
		}
		w[i] = uint32(v)
	}
	return w, true
}
