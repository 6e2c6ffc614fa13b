package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: a file is created or truncated by the tool only with consent, and only after the input was parsed. Each command is
// evaluated under the assumption that consent is missing (the file exists, it is not forced, the question is answered
// with no), and under the assumption that reading or parsing fails: no call that creates, truncates, renames or removes
// a file may stay reachable, across calls.

func init() { checkers["C13"] = checkC13 }

// fileDestroyers: calls that destroy what a path held; the argument that names it.
var fileDestroyers = map[string]int{
	"os.Create": 0, "os.WriteFile": 0, "io/ioutil.WriteFile": 0, "os.Truncate": 0, "os.Rename": 1, "os.Remove": 0, "os.RemoveAll": 0, "os.Link": 1, "os.Symlink": 1,
}

type destroyVisit struct {
	p     *Prog
	found map[string]string // construct -> position
	names map[string]map[string]bool
	stat  map[string]bool
	any   map[string]string
	seen  map[string]bool
	open  bool // also opening for appending
}

// destroys: the call opens for truncation, or otherwise destroys.
func (d *destroyVisit) destroys(run *setRun, env setEnv, c *ssa.CallCommon) (int, bool) {
	n := calleeName(c)
	if i, ok := fileDestroyers[n]; ok {
		return i, true
	}
	if n == "os.OpenFile" {
		s := run.get(env, c.Args[1])
		if s.top {
			return 0, true
		}
		for _, v := range s.list() {
			f, _ := constant.Int64Val(v.c)
			if f&0x200 != 0 { // O_TRUNC
				return 0, true
			}
			if d.open && f&3 != 0 {
				return 0, true
			}
			if f&3 != 0 && f&0x400 == 0 { // opened for writing, but not for appending: bytes can be overwritten
				return 0, true
			}
		}
	}
	return 0, false
}

// rootName identifies the file name a value stands for, through parameters.
func rootName(v ssa.Value, names map[ssa.Value]string) string {
	for i := 0; i < 10; i++ {
		if s, ok := names[v]; ok {
			return s
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return "field " + fieldName(fa.X.Type(), fa.Field)
			}
		case *ssa.Field:
			return "field " + fieldName(x.X.Type(), x.Field)
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	return fmt.Sprintf("%s@%s", v.Name(), v.Parent())
}

func (d *destroyVisit) visit(fn *ssa.Function, bind map[ssa.Value]cset, names map[ssa.Value]string, path string, depth int) {
	if depth > 8 {
		return
	}
	sig := fn.String()
	for _, q := range fn.Params {
		if s, ok := bind[q]; ok {
			sig += "|" + s.String()
		} else {
			sig += "|"
		}
		sig += names[q]
	}
	if d.seen[sig] {
		return
	}
	d.seen[sig] = true
	run := runSets(d.p, fn, bind)
	for _, b := range fn.Blocks {
		if !run.reached(b) {
			continue
		}
		env := run.envAt(b)
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				// functions that are made here may be called from here
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil && fnPkgPath(g) == cmdPath && g.Parent() != nil {
						d.visit(g, map[ssa.Value]cset{}, map[ssa.Value]string{}, path+" -> "+fnName(g), depth+1)
					}
				}
				continue
			}
			c := ci.Common()
			n := calleeName(c)
			if n == "os.Stat" || n == "os.Lstat" {
				d.stat[rootName(c.Args[0], names)] = true
				continue
			}
			if i, ok := d.destroys(run, env, c); ok {
				key := fnName(fn) + ": " + n + " of " + rootName(c.Args[i], names)
				d.found[key] = d.p.where(instrPos(in)) + " via " + path
				if d.names[key] == nil {
					d.names[key] = map[string]bool{}
				}
				d.names[key][rootName(c.Args[i], names)] = true
				continue
			}
			g := c.StaticCallee()
			if g == nil || g.Blocks == nil || fnPkgPath(g) != cmdPath {
				continue
			}
			sub := map[ssa.Value]cset{}
			sn := map[ssa.Value]string{}
			for i, a := range c.Args {
				if i >= len(g.Params) {
					break
				}
				if s := run.get(env, a); !s.top {
					sub[g.Params[i]] = s
				}
				if g.Params[i].Type().Underlying().String() == "string" {
					sn[g.Params[i]] = rootName(a, names)
				}
			}
			d.visit(g, sub, sn, path+" -> "+fnName(g), depth+1)
		}
	}
}

// commands are the entry points of the tool: the methods of the values it registers as commands.
func commands(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.liveFuncs(cmdPath) {
		if fn.Name() == "Run" && fn.Signature.Recv() != nil && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (p *Prog) withModels(calls map[string][]cset, fields map[string]cset, f func()) {
	p.setModels, p.setFields, p.setMemo = calls, fields, nil
	f()
	p.setModels, p.setFields, p.setMemo = nil, nil, nil
}

func checkC13(p *Prog, r *Report) {
	r.Rule("consent", "with an existing file, not forced, and the overwrite question answered with no, no call that truncates, replaces or removes a file is reachable from a command", 5)
	r.Rule("asked-about-the-same-file", "the file that is created is the file whose existence was tested", 3)
	r.Rule("parsed-first", "when reading or parsing the input fails, no file is opened for writing", 8)
	r.Rule("creates", "call sites that create a file when consent is given (vacuity guard)", 3)
	no := boolSet(false)
	cmds := commands(p)
	if len(cmds) < 3 {
		r.Bad("consent", "commands", "", "the commands of the tool were not found")
	}
	mk := func(open bool) *destroyVisit {
		return &destroyVisit{p: p, found: map[string]string{}, names: map[string]map[string]bool{}, stat: map[string]bool{}, seen: map[string]bool{}, open: open}
	}
	for _, cmd := range cmds {
		name := fnName(cmd)
		// every destroying call, with consent
		all := mk(false)
		p.withModels(map[string][]cset{"": nil}, nil, func() {
			all.visit(cmd, map[ssa.Value]cset{}, map[ssa.Value]string{}, name, 0)
		})
		var keys []string
		for k := range all.found {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			r.OK("creates", name+" "+k, strings.SplitN(all.found[k], " via ", 2)[0], all.found[k])
			ok := true
			for n := range all.names[k] {
				if !all.stat[n] {
					ok = false
				}
			}
			r.Add("asked-about-the-same-file", name+" "+k, strings.SplitN(all.found[k], " via ", 2)[0], ok, "an os.Stat of the same name on the way")
		}
		// without consent
		refused := mk(false)
		p.withModels(map[string][]cset{
			"os.Stat":                          {setOf(symNon), setOf(symNil)},
			"os.Lstat":                         {setOf(symNon), setOf(symNil)},
			"github.com/tdewolff/prompt.YesNo": {no},
			"os.IsNotExist":                    {no},
			"os.IsExist":                       {boolSet(true)},
			"errors.Is":                        {no},
		}, map[string]cset{"Force": no}, func() {
			refused.visit(cmd, map[ssa.Value]cset{}, map[ssa.Value]string{}, name, 0)
		})
		if len(refused.found) == 0 {
			r.OK("consent", name, p.where(cmd.Pos()), fmt.Sprintf("%d function contexts evaluated without consent, %d creating call(s) unreachable", len(refused.seen), len(keys)))
		}
		for k, at := range refused.found {
			r.Bad("consent", name+" "+k, strings.SplitN(at, " via ", 2)[0], "reachable without consent: "+at)
		}
		// failing input
		for _, in := range []struct {
			what  string
			calls map[string][]cset
		}{
			{"parsing fails", map[string][]cset{fontPath + ".ParseSFNT": {setOf(symNil), setOf(symNon)}, fontPath + ".ParseEmbeddedSFNT": {setOf(symNil), setOf(symNon)}}},
			{"reading fails", map[string][]cset{
				"io/ioutil.ReadFile": {setOf(symNil), setOf(symNon)}, "os.ReadFile": {setOf(symNil), setOf(symNon)},
				"io/ioutil.ReadAll": {setOf(symNil), setOf(symNon)}, "io.ReadAll": {setOf(symNil), setOf(symNon)},
			}},
		} {
			fail := mk(true)
			p.withModels(in.calls, nil, func() {
				fail.visit(cmd, map[ssa.Value]cset{}, map[ssa.Value]string{}, name, 0)
			})
			if len(fail.found) == 0 {
				r.OK("parsed-first", name+" "+in.what, p.where(cmd.Pos()), fmt.Sprintf("%d function contexts evaluated", len(fail.seen)))
			}
			for k, at := range fail.found {
				r.Bad("parsed-first", name+" "+k+" "+in.what, strings.SplitN(at, " via ", 2)[0], "reachable although "+in.what+": "+at)
			}
		}
	}
}
