// Command fontcheck decides properties of github.com/tdewolff/font from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

var processStart = time.Now()

type checker struct {
	run func(p *Prog, r *Report)
}

var checkers = map[string]func(p *Prog, r *Report){}

func main() {
	prop := flag.String("prop", "", "property id, or comma separated list, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	dump := flag.String("dump", "", "dump SSA of functions whose name contains this")
	list := flag.Bool("basefuncs", false, "list the functions of the tree")
	flag.Parse()
	if *list {
		os.Setenv("FONTCHECK_RAW", "1")
		p, err := load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		listFuncs([]*packages.Package{p.PFont, p.PCmd})
		return
	}
	if f := os.Getenv("FONTCHECK_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); w.Close(); os.Exit(3) })
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *dump != "" {
		p, err := load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, fn := range p.repoFuncs() {
			if strings.Contains(fnName(fn), *dump) {
				fn.WriteTo(os.Stdout)
			}
		}
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range checkers {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	p, err := load(*repo)
	for _, id := range ids {
		run, ok := checkers[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		r := newReport(id, tier)
		if err != nil {
			r.Bad("machinery", "load", "", "the source tree could not be loaded and type-checked: "+err.Error())
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Bad("machinery", "panic", "", fmt.Sprintf("analysis failed: %v\n%s", e, debug.Stack()))
					}
				}()
				run(p, r)
			}()
		}
		if c := r.Finish(*verif, seed); c > code {
			code = c
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}
