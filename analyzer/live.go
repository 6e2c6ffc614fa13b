package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// liveFuncs returns the functions of the repository that can run at all: those reachable from exported functions,
// exported methods, main and package initialisation, through direct calls, function values and (by method name)
// interface calls. Code that nothing reaches is not judged.
func (p *Prog) liveFuncs(paths ...string) []*ssa.Function {
	all := p.repoFuncs(paths...)
	if p.live == nil {
		p.live = map[*ssa.Function]bool{}
		every := p.repoFuncs()
		byMethod := map[string][]*ssa.Function{}
		var work []*ssa.Function
		mark := func(f *ssa.Function) {
			if f == nil {
				return
			}
			if !p.live[f] {
				p.live[f] = true
				work = append(work, f)
			}
		}
		for _, f := range every {
			if f.Signature.Recv() != nil {
				byMethod[f.Name()] = append(byMethod[f.Name()], f)
			}
			if o := f.Object(); o != nil && o.Exported() || f.Name() == "init" || f.Name() == "main" || f.Parent() == nil && f.Synthetic != "" {
				mark(f)
			}
			if o, ok := f.Object().(*types.Func); ok && fnPkgPath(f) == cmdPath && o.Exported() {
				mark(f)
			}
		}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
						for _, m := range byMethod[c.Common().Method.Name()] {
							mark(m)
						}
					}
					for _, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							if g.Blocks != nil && (fnPkgPath(g) == fontPath || fnPkgPath(g) == cmdPath) {
								mark(g)
							}
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range all {
		if p.live[f] {
			out = append(out, f)
		}
	}
	return out
}
