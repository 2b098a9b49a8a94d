package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"time"
)

var checks = map[string]func(p *Prog, r *Report){}

func main() {
	prop := flag.String("property", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "", "verif dir")
	list := flag.Bool("list", false, "list all obligations")
	dump := flag.String("dump", "", "dump SSA of function")
	effDump := flag.String("effects", "", "dump effect summary of function")
	snap := flag.Bool("snapshot", false, "rewrite base.json (developer use only)")
	simF := flag.String("sim", "", "explore function symbolically (debug)")
	simPeel := flag.Int("peel", 0, "loop peeling for -sim")
	simInl := flag.Bool("inline", true, "inline for -sim")
	flag.Parse()
	// most memory is short-lived
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	start := time.Now()
	if *verif == "" {
		e, _ := os.Executable()
		*verif = filepath.Dir(filepath.Dir(e))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := newReport(*prop)
	p, err := load(*repo)
	if err != nil {
		r.undecided("load", "program", "", "the repository does not load: "+err.Error())
		os.Exit(r.finish(*verif, tier, seed, start, *list))
	}
	if *simF != "" {
		dumpSim(p, *simF, *simInl, *simPeel)
		return
	}
	if *snap {
		p.writeSnapshot(*verif)
		return
	}
	if *dump != "" {
		f := p.Fn(*dump)
		if f == nil {
			fmt.Println("no such function")
			for n := range p.byName {
				fmt.Println(n)
			}
			return
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	if *effDump != "" {
		dumpEffects(p, *effDump)
		return
	}
	c := checks[*prop]
	if c == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	func() {
		defer func() {
			if os.Getenv("VERIF_PANIC") != "" {
				return
			}
			if e := recover(); e != nil {
				if os.Getenv("CHECK_DEBUG") != "" {
					debug.PrintStack()
				}
				r.undecided("analysis", "internal", "", fmt.Sprintf("analysis failed: %v", e))
			}
		}()
		c(p, r)
	}()
	os.Exit(r.finish(*verif, tier, seed, start, *list))
}
