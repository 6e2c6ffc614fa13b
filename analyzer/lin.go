package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Linear expressions over integer atoms and a decision procedure for the
// entailment of linear inequalities (Fourier-Motzkin elimination with integer
// tightening). Coefficients are 64-bit; anything that does not fit makes the
// expression bad and the question undecided.

type lin struct {
	c   int64
	m   map[int]int64
	bad bool
}

func lconst(c int64) lin { return lin{c: c} }
func latom(a int) lin    { return lin{m: map[int]int64{a: 1}} }

var badLin = lin{bad: true}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		return 0, true
	}
	x, y := a, b
	if x < 0 {
		x = -x
	}
	if y < 0 {
		y = -y
	}
	hi, lo := bits.Mul64(uint64(x), uint64(y))
	if hi != 0 || lo > math.MaxInt64 {
		return 0, true
	}
	return a * b, false
}

func (x lin) addScaled(y lin, k int64) lin {
	if x.bad || y.bad {
		return badLin
	}
	t, ov := mulOv(y.c, k)
	if ov {
		return badLin
	}
	c, ov := addOv(x.c, t)
	if ov {
		return badLin
	}
	r := lin{c: c, m: make(map[int]int64, len(x.m)+len(y.m))}
	for a, v := range x.m {
		r.m[a] = v
	}
	for a, v := range y.m {
		t, ov := mulOv(v, k)
		if ov {
			return badLin
		}
		s, ov := addOv(r.m[a], t)
		if ov {
			return badLin
		}
		if s == 0 {
			delete(r.m, a)
		} else {
			r.m[a] = s
		}
	}
	return r
}

func (x lin) add(y lin) lin     { return x.addScaled(y, 1) }
func (x lin) sub(y lin) lin     { return x.addScaled(y, -1) }
func (x lin) scale(k int64) lin { return lconst(0).addScaled(x, k) }
func (x lin) plus(c int64) lin  { return x.add(lconst(c)) }
func (x lin) isConst() bool     { return !x.bad && len(x.m) == 0 }
func (x lin) equal(y lin) bool  { d := x.sub(y); return d.isConst() && d.c == 0 }
func (x lin) has(a int) bool    { return x.m[a] != 0 }
func (x lin) subst(a int, e lin) lin {
	k := x.m[a]
	if k == 0 {
		return x
	}
	r := x.addScaled(latom(a), -k)
	return r.addScaled(e, k)
}

func (x lin) atoms() []int {
	as := make([]int, 0, len(x.m))
	for a := range x.m {
		as = append(as, a)
	}
	sort.Ints(as)
	return as
}

func (x lin) key() string {
	if x.bad {
		return "bad"
	}
	var sb strings.Builder
	for _, a := range x.atoms() {
		fmt.Fprintf(&sb, "%d*%d ", x.m[a], a)
	}
	fmt.Fprintf(&sb, "%d", x.c)
	return sb.String()
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides an inequality x >= 0 by the common divisor of its coefficients.
func (x lin) tighten() lin {
	var g int64
	for _, v := range x.m {
		g = gcd(g, v)
	}
	if g <= 1 {
		return x
	}
	r := lin{c: floorDiv(x.c, g), m: make(map[int]int64, len(x.m))}
	for a, v := range x.m {
		r.m[a] = v / g
	}
	return r
}

// infeasible reports whether no integers satisfy all of cs (each >= 0). False means unknown.
func infeasible(cs []lin) bool {
	var set []lin
	seen := map[string]int{} // by the variable part: keep the strongest
	push := func(x lin) (contradiction bool) {
		if x.bad {
			return false
		}
		x = x.tighten()
		if len(x.m) == 0 {
			return x.c < 0
		}
		var sb strings.Builder
		for _, a := range x.atoms() {
			fmt.Fprintf(&sb, "%d*%d ", x.m[a], a)
		}
		k := sb.String()
		if i, ok := seen[k]; ok {
			if x.c < set[i].c {
				set[i] = x
			}
			return false
		}
		seen[k] = len(set)
		set = append(set, x)
		return false
	}
	for _, c := range cs {
		if push(c) {
			return true
		}
	}
	for len(set) > 0 {
		// choose the variable with the fewest combinations
		pos, neg := map[int]int{}, map[int]int{}
		for _, x := range set {
			for a, v := range x.m {
				if v > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		best, cost := -1, math.MaxInt32
		vars := map[int]bool{}
		for a := range pos {
			vars[a] = true
		}
		for a := range neg {
			vars[a] = true
		}
		order := make([]int, 0, len(vars))
		for a := range vars {
			order = append(order, a)
		}
		sort.Ints(order)
		for _, a := range order {
			if c := pos[a]*neg[a] - pos[a] - neg[a]; c < cost {
				best, cost = a, c
			}
		}
		var ps, ns, rest []lin
		for _, x := range set {
			switch v := x.m[best]; {
			case v > 0:
				ps = append(ps, x)
			case v < 0:
				ns = append(ns, x)
			default:
				rest = append(rest, x)
			}
		}
		if len(ps)*len(ns)+len(rest) > 600 {
			return false
		}
		set, seen = nil, map[string]int{}
		for _, x := range rest {
			if push(x) {
				return true
			}
		}
		for _, x := range ps {
			for _, y := range ns {
				a, b := x.m[best], -y.m[best]
				g := gcd(a, b)
				z := x.scale(b/g).addScaled(y, a/g)
				if push(z) {
					return true
				}
			}
		}
	}
	return false
}
