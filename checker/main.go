// Command checker decides the properties of /verif/properties.jsonl by static
// analysis of the libasciidoc source tree: it loads the type-checked program
// and its SSA form, generates obligations from the code, discharges them, and
// reports those it cannot discharge.
//
// usage: checker -repo /repo -verif /verif -tier quick -seed 1 C01 [C02...]
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type checkFunc func(w *World, r *Report)

type checkDef struct {
	id    string
	title string
	run   checkFunc
	// assumptions recorded in the evidence
	assumptions []string
	explanation string
}

var checks = map[string]*checkDef{}

func register(c *checkDef) { checks[c.id] = c }

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	verif := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed (recorded; the analyses are deterministic)")
	list := flag.Bool("list", false, "list the checks")
	verbose := flag.Bool("v", false, "print every obligation")
	dump := flag.String("dump", "", "developer aid: dump something")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	start := time.Now()
	w, err := loadWorld(*repo)
	loadTime := time.Since(start).Seconds()
	exit := 0
	if *dump != "" && err == nil {
		dumpThing(w, *dump)
		return
	}
	for _, id := range ids {
		t0 := time.Now()
		r := newReport(id, *tier, *seed, *verif, *verbose)
		c := checks[id]
		switch {
		case c == nil:
			r.Fail("checker", "unknown-check", "", "no check registered for "+id)
		case err != nil:
			r.Fail("load", "program", "", "the program cannot be loaded and type-checked: "+err.Error())
		default:
			r.def = c
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Fail("checker", "panic", "", fmt.Sprintf("internal panic of the check (undecided): %v\n%s", e, debug.Stack()))
					}
				}()
				c.run(w, r)
			}()
		}
		if !r.finish(w, loadTime+time.Since(t0).Seconds()) {
			exit = 1
		}
	}
	os.Exit(exit)
}
