package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

type check struct {
	run func(p *Prog, r *Result)
}

var checks = map[string]check{}

func register(id string, run func(p *Prog, r *Result)) { checks[id] = check{run} }

func runCheck(p *Prog, loadErr error, verif, id, tier string, seed int) (code int) {
	start := time.Now()
	res := newResult()
	defer func() {
		if x := recover(); x != nil {
			res.violate("undecided:panic", "-", "the analysis failed, which decides nothing: %v\n%s", x, debug.Stack())
			code = finish(verif, id, tier, seed, res, start)
		}
	}()
	if loadErr != nil {
		res.violate("undecided:load", "-", "the source could not be analysed: %v", loadErr)
		return finish(verif, id, tier, seed, res, start)
	}
	checks[id].run(p, res)
	return finish(verif, id, tier, seed, res, start)
}

func main() {
	verif := flag.String("verif", "/verif", "directory of the framework")
	repo := flag.String("repo", "/repo", "repository to analyse")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	var ids []string
	for _, a := range flag.Args() {
		if a == "all" {
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			continue
		}
		if _, ok := checks[a]; !ok {
			fmt.Fprintf(os.Stderr, "no check for %q\n", a)
			os.Exit(2)
		}
		ids = append(ids, a)
	}
	p, loadErr := load(*repo)
	code := 0
	if os.Getenv("VERIF_FUNCTIONS") != "" && loadErr == nil {
		for _, f := range p.Funcs {
			if f.Parent() == nil {
				fmt.Println(fname(f))
			}
		}
		return
	}
	if os.Getenv("VERIF_MEANING") != "" && loadErr == nil {
		dumpMeaning(p)
		return
	}
	for _, id := range ids {
		if c := runCheck(p, loadErr, *verif, id, tier, seed); c != 0 {
			code = c
		}
	}
	os.Exit(code)
}
