package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type fieldID struct {
	named string
	field string
}

func fieldOf(fa *ssa.FieldAddr) (fieldID, bool) {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return fieldID{}, false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return fieldID{}, false
	}
	return fieldID{types.TypeString(pt.Elem(), nil), st.Field(fa.Field).Name()}, true
}

// onceDo returns the guarding field and the functions run by a call of sync.Once.Do.
func onceDo(c ssa.CallInstruction) (guard fieldID, fn *ssa.Function, ok bool) {
	cal := c.Common().StaticCallee()
	if cal == nil || !isOnceDo(cal) {
		return
	}
	fa, isF := c.Common().Args[0].(*ssa.FieldAddr)
	if !isF {
		return
	}
	guard, ok = fieldOf(fa)
	switch f := c.Common().Args[1].(type) {
	case *ssa.MakeClosure:
		fn = f.Fn.(*ssa.Function)
	case *ssa.Function:
		fn = f
	}
	// method values are wrapped in a synthetic bound function
	if fn != nil && fn.Synthetic != "" {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc, isC := in.(ssa.CallInstruction); isC {
					if sc := cc.Common().StaticCallee(); sc != nil && fnPkgPath(sc) == fontPath {
						fn = sc
					}
				}
			}
		}
	}
	return guard, fn, ok && fn != nil
}

// onceGuards checks that fields filled under a sync.Once are read only after the guard.
func onceGuards(p *Prog, r *Report) {
	fns := p.repoFuncs(fontPath)
	guardOf := map[fieldID]fieldID{} // cached field -> once field
	underOnce := map[*ssa.Function]fieldID{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g, body, ok := onceDo(c)
				if !ok {
					if cal := c.Common().StaticCallee(); cal != nil && isOnceDo(cal) {
						r.Bad("once-cache-read-after-guard", "sync.Once in "+fnName(fn), p.where(in.Pos()), "the once guard or the function it runs cannot be identified")
					}
					continue
				}
				// functions called only from the body count as the body
				var mark func(f *ssa.Function)
				mark = func(f *ssa.Function) {
					if _, ok := underOnce[f]; ok {
						return
					}
					underOnce[f] = g
					for _, bb := range f.Blocks {
						for _, i2 := range bb.Instrs {
							if s, ok := i2.(*ssa.Store); ok {
								if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
									if id, ok := fieldOf(fa); ok && id.named == g.named {
										guardOf[id] = g
									}
								}
							}
							if mu, ok := i2.(*ssa.MapUpdate); ok {
								if ld, ok := mu.Map.(*ssa.UnOp); ok {
									if fa, ok := ld.X.(*ssa.FieldAddr); ok {
										if id, ok := fieldOf(fa); ok && id.named == g.named {
											guardOf[id] = g
										}
									}
								}
							}
							if cc, ok := i2.(ssa.CallInstruction); ok {
								if sc := cc.Common().StaticCallee(); sc != nil && fnPkgPath(sc) == fontPath && onlyCalledFrom(fns, sc, underOnce) {
									mark(sc)
								}
							}
						}
					}
				}
				mark(body)
			}
		}
	}
	// always[fn][guard]: every return of fn is dominated by the Do call
	dominatedByDo := func(fn *ssa.Function, at ssa.Instruction, g fieldID, always func(f *ssa.Function, g fieldID) bool) bool {
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isDefer := in.(*ssa.Defer); isDefer {
					continue
				}
				hit := false
				if gg, _, ok := onceDo(c); ok && gg == g {
					hit = true
				} else if sc := c.Common().StaticCallee(); sc != nil && sc != fn && fnPkgPath(sc) == fontPath && always(sc, g) {
					hit = true
				}
				if !hit {
					continue
				}
				if b == at.Block() {
					for j, x := range b.Instrs {
						if x == at && i < j {
							return true
						}
					}
				} else if b.Dominates(at.Block()) {
					return true
				}
			}
		}
		return false
	}
	memo := map[string]bool{}
	var always func(f *ssa.Function, g fieldID) bool
	always = func(f *ssa.Function, g fieldID) bool {
		key := f.String() + "|" + g.named + g.field
		if v, ok := memo[key]; ok {
			return v
		}
		memo[key] = false
		res := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					if !dominatedByDo(f, ret, g, always) {
						return false
					}
					res = true
				}
			}
		}
		memo[key] = res
		return res
	}
	n := 0
	for _, fn := range fns {
		if _, ok := underOnce[fn]; ok {
			continue
		}
		name := fnName(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				id, ok := fieldOf(fa)
				if !ok {
					continue
				}
				g, cached := guardOf[id]
				if !cached {
					continue
				}
				if al, ok := fa.X.(*ssa.Alloc); ok && al.Parent() == fn {
					continue // own fresh object
				}
				n++
				ok = dominatedByDo(fn, ld, g, always)
				if !ok {
					// a helper: every call site must be dominated
					ok = callSitesGuarded(fns, fn, g, always, dominatedByDo)
				}
				if !ok && mutators[name] != "" {
					ok = true // mutators need exclusive access by contract
				}
				r.Add("once-cache-read-after-guard", fmt.Sprintf("%s.%s read in %s", id.named[len(fontPath)+1:], id.field, name), p.where(ld.Pos()), ok, "guard "+g.field)
			}
		}
	}
	r.Stats["once_cached_fields"] = len(guardOf)
}

func onlyCalledFrom(fns []*ssa.Function, callee *ssa.Function, set map[*ssa.Function]fieldID) bool {
	found := false
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == callee {
					found = true
					if _, ok := set[f]; !ok {
						return false
					}
				}
			}
		}
	}
	return found
}

func callSitesGuarded(fns []*ssa.Function, callee *ssa.Function, g fieldID, always func(*ssa.Function, fieldID) bool, dom func(*ssa.Function, ssa.Instruction, fieldID, func(*ssa.Function, fieldID) bool) bool) bool {
	if callee.Object() == nil || callee.Object().Exported() {
		return false
	}
	found := false
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == callee {
					found = true
					if !dom(f, in, g, always) {
						return false
					}
				}
			}
		}
	}
	return found
}
