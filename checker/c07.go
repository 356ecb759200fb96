package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&checkDef{id: "C07", title: "A conversion leaves the caller's configuration untouched", run: runC07,
		explanation: "The points-to analysis of the whole program gives the objects that every assignment, map update, append, delete, copy and mutating external call made during a conversion may write. None of them may be the configuration given by the caller or anything reachable from it (attributes, macros, stylesheets). In the packages of the library, every function which takes a configuration is also checked as an entry point of its own.",
		assumptions: []string{"the values of attributes given by the caller are strings", "the macros of the caller do not modify the configuration themselves"}})
}

func runC07(w *World, r *Report) {
	p, roots := w.conversions()
	live := p.reachAll(roots...)
	nw, nobj := 0, 0
	for _, o := range p.objs {
		if o.root().opaque && o.root().source == "parameter config" {
			nobj++
		}
	}
	bad := map[string]bool{}
	for _, i := range live {
		ok := true
		for _, wr := range i.writes {
			nw++
			for _, o := range p.written(wr) {
				if !o.root().opaque || o.root().source != "parameter config" {
					continue
				}
				ok = false
				name := strings.TrimPrefix(o.name, "parameter config")
				key := fmt.Sprintf("%s %s%s", fnName(topFunc(i.fn)), wr.what, name)
				if !bad[key] {
					bad[key] = true
					r.Fail("config-only-read", key, w.pos(wr.in.Pos()), fmt.Sprintf("%s (%s) may change%s of the configuration of the caller", fnName(i.fn), wr.what, name))
				}
			}
		}
		if ok && len(i.writes) > 0 && i.fn.Parent() == nil && !w.isGenerated(i.fn) && !bad["ok "+fnName(i.fn)] {
			bad["ok "+fnName(i.fn)] = true
			r.OK("config-only-read", fnName(i.fn), w.pos(i.fn.Pos()), fmt.Sprintf("%d writes", len(i.writes)))
		}
	}
	// what is given to the settings is not changed by the others
	for _, i := range p.reachAll(w.ptSettings...) {
		ok := true
		for _, wr := range i.writes {
			for _, o := range p.written(wr) {
				src := o.root().source
				if !o.root().opaque || !strings.HasPrefix(src, "parameter ") || !strings.Contains(src, " of ") {
					continue
				}
				ok = false
				key := fmt.Sprintf("%s %s %s", fnName(topFunc(i.fn)), wr.what, src)
				if !bad[key] {
					bad[key] = true
					r.Fail("settings-only-read", key, w.pos(wr.in.Pos()), fmt.Sprintf("%s (%s) may change what the caller gave as %s", fnName(i.fn), wr.what, src))
				}
			}
		}
		if ok && len(i.writes) > 0 {
			r.OK("settings-only-read", fnName(i.fn)+" "+i.ctx[:0], w.pos(i.fn.Pos()), fmt.Sprintf("%d writes", len(i.writes)))
		}
	}
	// the configuration is reached: the analysis sees the attributes and macros
	seen := map[string]bool{}
	for _, o := range p.objs {
		if o.root().opaque && o.root().source == "parameter config" {
			if o.kind == 'm' {
				seen[o.typ.String()] = true
			}
		}
	}
	r.Floor("maps of the configuration followed", len(seen), 2)
	r.Floor("writes during a conversion", nw, 300)
	r.Count("objects of the configuration", nobj)
}
