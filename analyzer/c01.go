package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C01"] = checkC01 }

// parseEntries are the functions that are handed the bytes of a font file.
var parseEntries = []string{"MediaType", "Extension", "ToSFNT", "ParseFont", "ParseSFNT", "ParseEmbeddedSFNT", "ParseWOFF", "ParseWOFF2", "ParseEOT", "ParseAFM"}

// reach: the repository functions that may run when one of the roots is called.
func (p *Prog) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if pp := fnPkgPath(f); pp != fontPath && pp != cmdPath {
			return
		}
		seen[f] = true
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							visit(g)
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range p.implementations(ci.Common()) {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

// implementations: repository methods an interface call can reach.
func (p *Prog) implementations(c *ssa.CallCommon) []*ssa.Function {
	if quietInvoke(c) {
		return nil
	}
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.repoFuncs(fontPath, cmdPath) {
		if f.Signature.Recv() != nil && f.Name() == c.Method.Name() && types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

type oblig struct {
	kind  string
	fn    *ssa.Function
	in    ssa.Instruction
	goals []func(b *bp) lin
	texts []string
}

// needLen: library functions that panic when their slice argument is short.
func needLen(c *ssa.CallCommon) (arg ssa.Value, n int64, ok bool) {
	name := calleeName(c)
	if c.IsInvoke() {
		name = c.Method.FullName()
	}
	sizes := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}
	if strings.Contains(name, "encoding/binary.") {
		i := strings.LastIndex(name, ".")
		if n, ok := sizes[name[i+1:]]; ok {
			for _, a := range c.Args {
				if _, ok := a.Type().Underlying().(*types.Slice); ok {
					return a, n, true
				}
			}
		}
	}
	return nil, 0, false
}

// obligations lists the instructions of f that can panic because of an index or a size.
func obligations(f *ssa.Function) []oblig {
	var out []oblig
	add := func(kind string, in ssa.Instruction, texts []string, goals ...func(b *bp) lin) {
		out = append(out, oblig{kind, f, in, goals, texts})
	}
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				if rangeIndex(in.X, in.Index) {
					continue
				}
				add("index", in, []string{"index >= 0", "index < length"},
					func(b *bp) lin { return b.linOf(in.Index) },
					func(b *bp) lin { return b.lenOf(in.X).sub(b.linOf(in.Index)).plus(-1) })
			case *ssa.Index:
				add("index", in, []string{"index >= 0", "index < length"},
					func(b *bp) lin { return b.linOf(in.Index) },
					func(b *bp) lin { return b.lenOf(in.X).sub(b.linOf(in.Index)).plus(-1) })
			case *ssa.Lookup:
				if isString(in.X.Type()) {
					add("index", in, []string{"index >= 0", "index < length"},
						func(b *bp) lin { return b.linOf(in.Index) },
						func(b *bp) lin { return b.lenOf(in.X).sub(b.linOf(in.Index)).plus(-1) })
				}
			case *ssa.Slice:
				var gs []func(b *bp) lin
				var ts []string
				if in.Low != nil {
					gs = append(gs, func(b *bp) lin { return b.linOf(in.Low) })
					ts = append(ts, "low bound >= 0")
				}
				if in.High != nil {
					gs = append(gs, func(b *bp) lin {
						lo := lconst(0)
						if in.Low != nil {
							lo = b.linOf(in.Low)
						}
						return b.linOf(in.High).sub(lo)
					})
					ts = append(ts, "low bound <= high bound")
					gs = append(gs, func(b *bp) lin {
						if in.Max != nil {
							return b.linOf(in.Max).sub(b.linOf(in.High))
						}
						return b.lenOf(in.X).sub(b.linOf(in.High))
					})
					ts = append(ts, "high bound <= length")
				} else if in.Low != nil {
					gs = append(gs, func(b *bp) lin { return b.lenOf(in.X).sub(b.linOf(in.Low)) })
					ts = append(ts, "low bound <= length")
				}
				if in.Max != nil {
					gs = append(gs, func(b *bp) lin { return b.lenOf(in.X).sub(b.linOf(in.Max)) })
					ts = append(ts, "max <= capacity")
				}
				if len(gs) > 0 {
					add("slice", in, ts, gs...)
				}
			case *ssa.MakeSlice:
				add("make", in, []string{"length >= 0", "length <= capacity"},
					func(b *bp) lin { return b.linOf(in.Len) },
					func(b *bp) lin { return b.linOf(in.Cap).sub(b.linOf(in.Len)) })
			case *ssa.BinOp:
				if (in.Op == token.QUO || in.Op == token.REM) && isInt(in.X.Type()) {
					if c, ok := constInt(in.Y); ok && c != 0 {
						continue
					}
					add("divide", in, []string{"divisor > 0"}, func(b *bp) lin { return b.linOf(in.Y).plus(-1) })
				}
				if in.Op == token.SHL || in.Op == token.SHR {
					if lo, _, hl, _ := typeRange(in.Y.Type()); hl && lo >= 0 {
						continue
					}
					add("shift", in, []string{"shift count >= 0"}, func(b *bp) lin { return b.linOf(in.Y) })
				}
			case *ssa.TypeAssert:
				if !in.CommaOk {
					add("assert", in, []string{"the dynamic type matches"}, func(b *bp) lin { return badLin })
				}
			case *ssa.Panic:
				add("panic", in, []string{"not reached"}, func(b *bp) lin { return lconst(-1) })
			case *ssa.SliceToArrayPointer:
				add("convert", in, []string{"long enough"}, func(b *bp) lin { return badLin })
			case ssa.CallInstruction:
				if a, n, ok := needLen(in.Common()); ok {
					add("short", in, []string{fmt.Sprintf("argument has %d bytes", n)}, func(b *bp) lin { return b.lenOf(a).plus(-n) })
				}
			}
		}
	}
	return out
}

// rangeIndex: the address of an array literal's element with a constant index.
func rangeIndex(x, i ssa.Value) bool {
	n, ok := arrayLen(x.Type())
	c, ok2 := constInt(i)
	return ok && ok2 && 0 <= c && c < n
}

func checkC01(p *Prog, r *Report) {
	r.Rule("no-panic", "every index, slice bound, allocation length, divisor and short-slice precondition that a parser or converter of font files can execute is within its limits on every path", 250)
	var roots []*ssa.Function
	rootSet := map[*ssa.Function]bool{}
	for _, n := range parseEntries {
		f := p.Font.Func(n)
		if f == nil {
			continue
		}
		roots = append(roots, f)
		rootSet[f] = true
	}
	reach := p.reach(roots)
	p.boundsReport(r, "no-panic", reach, rootSet)
}

func (p *Prog) boundsReport(r *Report, rule string, scope, roots map[*ssa.Function]bool) {
	var fns []*ssa.Function
	for f := range scope {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	b := newBP(p, fns, roots)
	for _, f := range fns {
		count := map[string]int{}
		for _, o := range obligations(f) {
			var failed []string
			for i, g := range o.goals {
				x := g(b)
				b.fuel = 3000
				if !b.prove(x, o.in.Block(), 6) {
					failed = append(failed, o.texts[i]+" is not established: "+b.show(x)+" >= 0")
				}
			}
			what := fnName(f) + ": " + o.kind + " " + describeIn(o.in)
			count[what]++
			if count[what] > 1 {
				what += fmt.Sprintf(" #%d", count[what])
			}
			r.Add(rule, what, p.where(instrPos(o.in)), len(failed) == 0, strings.Join(failed, "; "))
		}
	}
}

// describe names the object an instruction works on, independent of its position.
func describeIn(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.IndexAddr:
		return valName(in.X, 0)
	case *ssa.Index:
		return valName(in.X, 0)
	case *ssa.Lookup:
		return valName(in.X, 0)
	case *ssa.Slice:
		return valName(in.X, 0)
	case *ssa.MakeSlice:
		return types.TypeString(in.Type(), func(*types.Package) string { return "" })
	case *ssa.BinOp:
		return in.Op.String()
	case ssa.CallInstruction:
		c := in.Common()
		if c.IsInvoke() {
			return c.Method.Name()
		}
		return calleeName(c)
	}
	return ""
}

func valName(v ssa.Value, d int) string {
	if d > 4 {
		return "…"
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return valName(v.X, d+1)
	case *ssa.FieldAddr:
		t := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return valName(v.X, d+1) + "." + t.Field(v.Field).Name()
	case *ssa.Field:
		return valName(v.X, d+1) + "." + v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
	case *ssa.IndexAddr:
		return valName(v.X, d+1) + "[]"
	case *ssa.Parameter:
		return v.Name()
	case *ssa.FreeVar:
		return v.Name()
	case *ssa.Global:
		return v.Name()
	case *ssa.Phi:
		if v.Comment != "" {
			return v.Comment
		}
	case *ssa.Alloc:
		if v.Comment != "" {
			return v.Comment
		}
	case *ssa.Call:
		return calleeName(&v.Call) + "()"
	case *ssa.Extract:
		return valName(v.Tuple, d+1)
	case *ssa.Slice:
		return valName(v.X, d+1) + "[:]"
	case *ssa.Lookup:
		return valName(v.X, d+1) + "[]"
	}
	return "value"
}
