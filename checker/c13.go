package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C13", title: "The XHTML and HTML backends render the same content", run: runC13,
		explanation: "For each template which is not the same in the tables of both backends, every path of one is paired with the path of the other on which the same conditions hold and the loops are taken the same number of times (both directions); the elements, attributes, text and values written must be the same once the differences of syntax (self-closing, value of minimised attributes, namespace, order of attributes, white space outside <pre>) are normalised. The code shared by the backends may not depend on the backend: reads of Configuration.BackEnd and of the backend attributes, and the arguments passed on by the backends, are checked.",
		assumptions: []string{"conditions written by the author of the document on the backend attribute (ifdef::basebackend-html[]) are outside the claim"}})
}

func runC13(w *World, r *Report) {
	m := w.templates()
	var h, x *tmplBackend
	for _, b := range m.backends {
		if b.xml {
			x = b
		} else {
			h = b
		}
	}
	if h == nil || x == nil || len(m.backends) != 2 || len(m.unknown) > 0 {
		r.Fail("backends-known", fmt.Sprintf("%d tables of templates", len(m.backends)), "", "one table of HTML templates and one table of XHTML templates are expected: "+strings.Join(m.unknown, ", "))
		return
	}
	same, differ, pairs := 0, 0, 0
	for _, n := range m.names {
		a, b := h.texts[n], x.texts[n]
		pos := w.pos(b.pos)
		if a.kind != 's' || b.kind != 's' {
			r.Fail("same-content", n, pos, "the text of the template is not known")
			continue
		}
		if a.str == b.str {
			same++
			r.OK("same-content", n, pos, "same template")
			continue
		}
		differ++
		if h.trees[n] == nil || x.trees[n] == nil {
			r.Fail("same-content", n, pos, "the template is not readable")
			continue
		}
		np, bad := compareTemplates(h.trees[n], x.trees[n])
		pairs += np
		if len(bad) == 0 {
			r.OK("same-content", n, pos, fmt.Sprintf("%d pairs of paths", np))
		}
		for i, e := range bad {
			if i >= 3 {
				break
			}
			r.Fail("same-content", n+": "+e.key, pos, e.msg)
		}
	}
	r.Count("templates shared by both backends", same)
	r.Count("templates which differ", differ)
	r.Count("pairs of paths compared", pairs)
	r.Floor("templates", same+differ, 40)
	c13Code(w, r)
	// self-tests
	for _, t := range [][2]string{
		{"<p>{{ if .A }}x{{ end }}</p>", "<p>{{ if .B }}x{{ end }}</p>"},
		{"<p>{{ .A }}</p>", "<p></p>"},
		{`<p id="{{ .A }}"></p>`, `<p ID="{{ .A }}" class="x"></p>`},
		{"<p>{{ range .A }}{{ . }}{{ end }}</p>", "<p>{{ with .A }}{{ index . 0 }}{{ end }}</p>"},
		{"<pre>a\nb</pre>", "<pre>a b</pre>"},
	} {
		_, bad := compareTemplates(parseTmpl(t[0]), parseTmpl(t[1]))
		r.SelfTest("same-content", len(bad) > 0)
	}
}

func parseTmpl(text string) *parse.Tree {
	tr := parse.New("x")
	tr.Mode = parse.SkipFuncCheck
	if _, err := tr.Parse(text, "", "", map[string]*parse.Tree{}, nil); err != nil {
		return nil
	}
	return tr
}

type tmplDiff struct{ key, msg string }

func compareTemplates(h, x *parse.Tree) (pairs int, bad []tmplDiff) {
	seen := map[string]bool{}
	add := func(key, msg string) {
		if !seen[key] {
			seen[key] = true
			bad = append(bad, tmplDiff{key, msg})
		}
	}
	for _, dir := range []bool{true, false} {
		a, b := h, x
		if !dir {
			a, b = x, h
		}
		pa, complete := enumPaths(a.Root)
		if !complete {
			add("undecided", "the template has too many paths")
			return
		}
		for _, p := range pa {
			pb, complete := enumPathsFrom(b.Root, p.env, p.loops)
			if !complete {
				add("undecided", "the template has too many paths")
				return
			}
			ta := normMarkup(p.pieces, !dir)
			for _, q := range pb {
				pairs++
				tb := normMarkup(q.pieces, dir)
				i := 0
				for i < len(ta) && i < len(tb) && ta[i] == tb[i] {
					i++
				}
				if i == len(ta) && i == len(tb) {
					continue
				}
				va, vb := "nothing more", "nothing more"
				if i < len(ta) {
					va = ta[i]
				}
				if i < len(tb) {
					vb = tb[i]
				}
				if !dir {
					va, vb = vb, va
				}
				add(va+" / "+vb, fmt.Sprintf("the HTML template writes %s where the XHTML template writes %s (%s)", va, vb, envString(q.env)))
			}
		}
	}
	return
}

// normMarkup: the content written by a path, independently of the syntax.
func normMarkup(ps []piece, xml bool) []string {
	toks, _, _ := lexMarkup(ps, xml)
	var res []string
	pre := 0
	for i, t := range toks {
		switch t.kind {
		case "doctype":
			res = append(res, "<!"+strings.ToLower(strings.Join(strings.Fields(t.name), " "))+">")
		case "text":
			s := t.text
			if pre == 0 {
				lead := s != strings.TrimLeft(s, " \t\n")
				trail := s != strings.TrimRight(s, " \t\n")
				f := strings.Join(strings.Fields(s), " ")
				if f == "" {
					// white space between two values or words of the same line is content
					if i == 0 || i == len(toks)-1 || !strings.Contains(s, "\n") {
						f = " "
					} else {
						continue
					}
				} else {
					// the space around the text matters next to inline elements only when it is not a line break
					if lead && !strings.HasPrefix(strings.TrimLeft(s, " \t"), "\n") {
						f = " " + f
					}
					if trail && !strings.HasSuffix(strings.TrimRight(s, " \t"), "\n") {
						f += " "
					}
				}
				s = f
			}
			if s == " " && (i == len(toks)-1 || i == 0) && strings.Contains(t.text, "\n") {
				continue
			}
			s = strings.ReplaceAll(strings.ReplaceAll(s, "&nbsp;", "&#160;"), "\u00a0", "&#160;")
			res = append(res, "text "+s)
		case "start":
			var as []string
			for _, a := range t.attrs {
				if a[0] == "xmlns" || strings.HasPrefix(a[0], "xmlns:") || a[0] == "xml:lang" {
					continue
				}
				v := a[1]
				if v == "\x00" {
					v = a[0]
				}
				as = append(as, fmt.Sprintf("%s=%q", strings.ToLower(a[0]), strings.Join(strings.Fields(v), " ")))
			}
			sort.Strings(as)
			res = append(res, strings.TrimSpace("<"+t.name+" "+strings.Join(as, " "))+">")
			if t.name == "pre" {
				pre++
			}
			if t.self && !voidElements[t.name] {
				res = append(res, "</"+t.name+">")
			}
		case "end":
			if t.name == "pre" {
				pre--
			}
			res = append(res, "</"+t.name+">")
		}
	}
	return res
}

// c13Code: the code shared by the backends does not depend on the backend.
func c13Code(w *World, r *Report) {
	reads := 0
	for _, fn := range w.Funcs {
		if isTest(w, fn) {
			continue
		}
		pkg := relPkg(fn.Pkg.Pkg)
		for _, in := range instrs(fn) {
			v, ok := in.(ssa.Value)
			if ok {
				if name, _, ok := fieldOf(v); ok && strings.HasSuffix(name, "Configuration.BackEnd") {
					if storeOnly(v) {
						continue
					}
					reads++
					r.Check("backend-independent", fnName(topFunc(fn))+" reads "+name, w.pos(in.Pos()), pkg == "pkg/renderer" || pkg == "pkg/configuration" || pkg == "cmd/libasciidoc",
						"the backend is only read where the renderer is chosen: the code shared by the backends does not depend on it")
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if k, ok := constString(*op); ok && (k == "backend" || strings.HasPrefix(k, "basebackend") || strings.HasPrefix(k, "backend-")) {
					reads++
					r.Check("backend-independent", fnName(topFunc(fn))+" uses "+k, w.pos(in.Pos()), pkg == "pkg/configuration" || pkg == "cmd/libasciidoc",
						"the attributes which describe the backend are only used by the configuration")
				}
			}
		}
	}
	r.Floor("reads of the backend", reads, 2)
	// the choice of the backend, and what the backends pass on
	n := 0
	forCalls(w.Funcs, func(fn *ssa.Function, c ssa.CallInstruction) {
		f := c.Common().StaticCallee()
		if f == nil || isTest(w, fn) || f.Name() != "Render" {
			return
		}
		to, from := relPkg(f.Pkg.Pkg), relPkg(fn.Pkg.Pkg)
		if !strings.HasPrefix(to, "pkg/renderer") || from == to {
			return
		}
		if strings.HasPrefix(from, "pkg/renderer") {
			n++
			why := ""
			for i, a := range c.Common().Args {
				if typeName(deref(a.Type())) == "sgml.Templates" {
					continue
				}
				tr := &tracer{w: w, noCallers: true}
				tr.trace(a, nil)
				for _, l := range tr.out {
					if _, ok := l.v.(*ssa.Parameter); !ok {
						why = fmt.Sprintf("the argument %d is not what was received from the caller: %s", i+1, l.v.String())
					}
				}
				if tr.hitParam == nil && len(tr.out) == 0 {
					why = fmt.Sprintf("the origin of the argument %d is not known", i+1)
				}
			}
			r.Check("passed-on", fnName(fn)+" calls "+fnName(f), w.pos(c.Pos()), why == "", why)
		}
	})
	c13Choice(w, r)
	r.Floor("calls between renderers", n, 4)
}

// storeOnly: the address is only used to store.
func storeOnly(v ssa.Value) bool {
	if _, ok := v.(*ssa.FieldAddr); !ok {
		return false
	}
	for _, r := range refs(v) {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != v {
			return false
		}
	}
	return true
}

// c13Choice: which backend renders, by name: the choice is evaluated with constants.
func c13Choice(w *World, r *Report) {
	entry := w.fn("pkg/renderer", "Render")
	cfg := w.typ("pkg/configuration", "Configuration")
	if entry == nil || cfg == nil {
		r.Fail("backend-chosen", "pkg/renderer.Render", "", "the function which chooses the renderer is not found")
		return
	}
	st := cfg.Underlying().(*types.Struct)
	for _, name := range []string{"html", "html5", "xhtml", "xhtml5"} {
		ci := w.newInterp()
		cell := &acell{name: "config"}
		v := aval{kind: 'S', flds: map[int]aval{}}
		for i := 0; i < st.NumFields(); i++ {
			v.flds[i] = top
			if st.Field(i).Name() == "BackEnd" {
				v.flds[i] = aval{kind: 's', str: name}
			}
		}
		reached := map[string]bool{}
		ci.descend = func(f *ssa.Function) bool { return relPkg(f.Pkg.Pkg) == "pkg/renderer" }
		ci.onCall = func(c ssa.CallInstruction, args []aval, stack []*ssa.Function) {
			if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Name() == "Render" && strings.HasPrefix(relPkg(f.Pkg.Pkg), sgmlPkg) {
				reached[relPkg(f.Pkg.Pkg)] = true
			}
		}
		args := make([]aval, len(entry.Params))
		for i, p := range entry.Params {
			args[i] = top
			if n, ok := types.Unalias(deref(p.Type())).(*types.Named); ok && n.Obj() == cfg.Obj() {
				args[i] = aval{kind: 'p', cell: cell}
				if _, ok := p.Type().(*types.Pointer); !ok {
					args[i] = v
				}
			}
		}
		ci.run(entry, args, amem{cell: v})
		want := sgmlPkg + "/" + strings.TrimSuffix(name, "5") + "5"
		switch {
		case reached[want] && len(reached) == 1:
			r.OK("backend-chosen", name, w.pos(entry.Pos()), want)
		case reached[want] || len(reached) == 0:
			r.Note("the renderer of the backend %q is not decided by constants: %v", name, sortedKeys(reached))
		default:
			r.Fail("backend-chosen", name, w.pos(entry.Pos()), fmt.Sprintf("the backend %q is rendered by %s", name, strings.Join(sortedKeys(reached), ", ")))
		}
		r.Count("names of backends", 1)
	}
}
