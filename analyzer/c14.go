package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checkers["C14"] = checkC14 }

func (p *Prog) pkgFunc(path, name string) *ssa.Function {
	pk := p.pkgs[path]
	if pk == nil {
		return nil
	}
	if o, ok := pk.Types.Scope().Lookup(name).(*types.Func); ok {
		return p.SSA.FuncValue(o)
	}
	return nil
}

func (p *Prog) method(path, typ, name string) *ssa.Function {
	pk := p.pkgs[path]
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	named, ok := tn.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if named.Method(i).Name() == name {
			return p.SSA.FuncValue(named.Method(i))
		}
	}
	return nil
}

func checkC14(p *Prog, r *Report) {
	r.Rule("constants-disjoint", "the nine weights, Italic and UnknownStyle are pairwise distinct, Italic shares no bit with a weight, and no combination of a weight and Italic equals UnknownStyle", 11)
	r.Rule("separated", "Weight and Italic recover the weight and the flag from every combination", 36)
	r.Rule("printed-style-parses-back", "the set of texts String can give for a style, propagated through ParseStyle, gives exactly that style", 18)
	r.Rule("css-weight", "ParseStyleCSS of the weight 100, 200, ... 900 gives the style of that weight, with and without Italic, also for numbers around it and for numbers out of range", 18)
	r.Rule("css-name", "the CSS name of a weight, with and without an italic suffix, is parsed as that weight", 40)

	scope := p.pkgs[fontPath].Types.Scope()
	val := func(n string) (int64, bool) {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			return 0, false
		}
		return constant.Int64Val(c.Val())
	}
	names := []string{"Thin", "ExtraLight", "Light", "Regular", "Medium", "SemiBold", "Bold", "ExtraBold", "Black"}
	w := map[string]int64{}
	for _, n := range append(append([]string{}, names...), "Italic", "UnknownStyle") {
		v, ok := val(n)
		if !ok {
			r.Bad("constants-disjoint", n, "system.go", "constant "+n+" not found")
			continue
		}
		w[n] = v
	}
	pos := func(n string) string {
		if o := scope.Lookup(n); o != nil {
			return p.where(o.Pos())
		}
		return "?"
	}
	for i, n := range names {
		bad := ""
		for _, m := range names[:i] {
			if w[m] == w[n] {
				bad = "equals " + m
			}
		}
		if w[n]&w["Italic"] != 0 {
			bad = "shares a bit with Italic"
		}
		if w[n] == w["UnknownStyle"] || w[n]|w["Italic"] == w["UnknownStyle"] {
			bad = "equals UnknownStyle"
		}
		if i > 0 && w[n] <= w[names[i-1]] {
			bad = "not above " + names[i-1] // Match looks for the nearest weight by comparing
		}
		r.Add("constants-disjoint", n, pos(n), bad == "", fmt.Sprint(w[n], " ", bad))
	}
	r.Add("constants-disjoint", "Italic", pos("Italic"), w["Italic"] != 0 && w["Italic"] != w["UnknownStyle"], fmt.Sprint(w["Italic"]))
	r.Add("constants-disjoint", "UnknownStyle", pos("UnknownStyle"), w["UnknownStyle"] != 0, fmt.Sprint(w["UnknownStyle"]))

	weightF, italicF, stringF := p.method(fontPath, "Style", "Weight"), p.method(fontPath, "Style", "Italic"), p.method(fontPath, "Style", "String")
	parseF, cssF := p.pkgFunc(fontPath, "ParseStyle"), p.pkgFunc(fontPath, "ParseStyleCSS")
	for n, f := range map[string]*ssa.Function{"Style.Weight": weightF, "Style.Italic": italicF, "Style.String": stringF, "ParseStyle": parseF, "ParseStyleCSS": cssF} {
		if f == nil {
			r.Bad("separated", n, "system.go", "function not found")
			return
		}
	}
	one := func(f *ssa.Function, args ...cset) cset {
		bind := map[ssa.Value]cset{}
		for i, a := range args {
			bind[f.Params[i]] = a
		}
		res := runSets(p, f, bind).results()
		if len(res) != 1 {
			return topSet()
		}
		return res[0]
	}
	for _, n := range names {
		for _, it := range []bool{false, true} {
			v := w[n]
			key := n
			if it {
				v |= w["Italic"]
				key += "|Italic"
			}
			got := one(weightF, intSet(v))
			r.Add("separated", key+".Weight()", p.where(weightF.Pos()), got.equal(intSet(w[n])), fmt.Sprintf("gives %v, want %d", got, w[n]))
			got = one(italicF, intSet(v))
			r.Add("separated", key+".Italic()", p.where(italicF.Pos()), got.equal(boolSet(it)), fmt.Sprintf("gives %v, want %v", got, it))

			text := one(stringF, intSet(v))
			where := p.where(stringF.Pos())
			back := cset{}
			if text.top {
				back = topSet()
			} else {
				for _, t := range text.list() {
					back = back.join(one(parseF, setOf(t)))
				}
			}
			r.Add("printed-style-parses-back", key, where, back.equal(intSet(v)), fmt.Sprintf("printed as %v, parsed as %v, want %d", text, back, v))
		}
	}
	for i, n := range names {
		for _, it := range []bool{false, true} {
			v := w[n]
			key := fmt.Sprint((i+1)*100, " italic=", it)
			if it {
				v |= w["Italic"]
			}
			bad := ""
			nums := []int64{int64(i+1) * 100, int64(i+1)*100 - 20, int64(i+1)*100 + 20}
			if i == 0 {
				nums = append(nums, 0, 1, -300)
			}
			if i == 8 {
				nums = append(nums, 950, 1000, 5000)
			}
			for _, x := range nums {
				got := one(cssF, intSet(x), boolSet(it))
				if !got.equal(intSet(v)) {
					bad += fmt.Sprintf("weight %d gives %v, want %d; ", x, got, v)
				}
			}
			r.Add("css-weight", key, p.where(cssF.Pos()), bad == "", bad)
		}
	}
	// names of the weights in CSS Fonts and OpenType (usWeightClass), as the parser supports them
	css := map[string]string{"Thin": "Thin", "Hairline": "Thin", "ExtraLight": "ExtraLight", "Extra Light": "ExtraLight", "UltraLight": "ExtraLight", "Light": "Light",
		"Regular": "Regular", "Normal": "Regular", "Book": "Regular", "": "Regular", "Medium": "Medium", "SemiBold": "SemiBold", "Semi Bold": "SemiBold", "Bold": "Bold", "ExtraBold": "ExtraBold",
		"Extra Bold": "ExtraBold", "Black": "Black", "Heavy": "Black"}
	var keys []string
	for k := range css {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, suf := range []string{"", " Italic", "Italic", " Oblique", "-Italic"} {
			if k == "" && suf != "" && suf != "Italic" {
				continue
			}
			want := w[css[k]]
			if suf != "" {
				want |= w["Italic"]
			}
			got := one(parseF, strSet(k+suf))
			r.Add("css-name", strings.TrimSpace(k+suf)+".", p.where(parseF.Pos()), got.equal(intSet(want)), fmt.Sprintf("%q is parsed as %v, want %d", k+suf, got, want))
		}
	}
}
