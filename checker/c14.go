package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C14", title: "Links generated within the document point at the anchors generated for them", run: runC14,
		explanation: "The id attributes and the internal links (href starting with #) are read from every path of every template of both backends; each of them is a literal prefix and a value, for which the operations applied by the template and by the Go code (letter case, escaping, concatenation) and the data it comes from are traced through calls, results, fields and parameters. A link must be spelled with the same prefix and the same operations as the anchors it designates, and come from the same data.",
		assumptions: []string{"the author of the document refers to an identifier which exists"}})
}

type refPattern struct {
	backend, tmpl string
	prefix, post  string
	hole          string
	field         string
	tops          string // operations of the template
	pos           string
	// alternatives: operations of the code and leaf, by execution
	alts map[string]map[string]bool // ops -> leaves
}

func (p *refPattern) key() string { return p.tmpl + " " + p.prefix + hl + p.hole + hr + p.post }

func (p *refPattern) sigs() []string { return sortedKeys(p.alts) }

func (p *refPattern) leaves() map[string]bool {
	res := map[string]bool{}
	for _, l := range p.alts {
		for x := range l {
			res[x] = true
		}
	}
	return res
}

func runC14(w *World, r *Report) {
	m := w.templates()
	nl, na := 0, 0
	for _, b := range m.backends {
		var links, anchors []*refPattern
		for _, n := range m.names {
			tr := b.trees[n]
			if tr == nil {
				continue
			}
			paths, _ := enumPaths(tr.Root)
			seen := map[string]bool{}
			for _, p := range paths {
				toks, _, _ := lexMarkup(p.pieces, b.xml)
				for _, t := range toks {
					if t.kind != "start" {
						continue
					}
					for _, a := range t.attrs {
						k := n + a[0] + a[1]
						if a[0] != "id" && a[0] != "href" || seen[k] {
							continue
						}
						seen[k] = true
						rp := newRefPattern(m, b, n, a[1])
						if rp == nil {
							continue
						}
						rp.pos = w.pos(b.texts[n].pos)
						if a[0] == "id" {
							anchors = append(anchors, rp)
						} else {
							links = append(links, rp)
						}
					}
				}
			}
		}
		// the links made by the code: "#" + x
		var internal []*refPattern
		for _, l := range links {
			m.resolve(l)
			if strings.HasPrefix(l.prefix, "#") {
				l.prefix = l.prefix[1:]
				internal = append(internal, l)
				continue
			}
			x := *l
			x.alts = map[string]map[string]bool{}
			for ops, lv := range l.alts {
				for _, o := range strings.Fields(ops) {
					if rest := strings.TrimPrefix(o, "prefix:#"); rest != o {
						k := dropOp(ops, o)
						if rest != "" {
							k = addOp(k, "prefix:"+rest)
						}
						x.alts[k] = lv
					}
				}
			}
			if len(x.alts) > 0 && l.prefix == "" {
				internal = append(internal, &x)
			}
		}
		for _, a := range anchors {
			m.resolve(a)
		}
		for _, l := range internal {
			nl++
			c14Link(w, r, b, l, anchors)
		}
		na += len(anchors)
	}
	r.Count("internal links", nl)
	r.Count("anchors", na)
	r.Floor("internal links", nl, 8)
	r.Floor("anchors", na, 40)
	c14Generated(w, r)
	c14Guard(w, r)
}

func dropOp(set, op string) string {
	var l []string
	for _, x := range strings.Fields(set) {
		if x != op {
			l = append(l, x)
		}
	}
	return strings.Join(l, " ")
}

// newRefPattern reads `prefix⟦hole⟧`.
func newRefPattern(m *tmplModel, b *tmplBackend, n, v string) *refPattern {
	i := strings.Index(v, hl)
	if i < 0 {
		return nil
	}
	j := strings.Index(v, hr)
	p := &refPattern{backend: b.name, tmpl: n, prefix: v[:i], hole: v[i+len(hl) : j], post: v[j+len(hr):]}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(p.hole))
	if len(f) == 0 || !strings.HasPrefix(f[len(f)-1], ".") {
		return nil
	}
	p.field = strings.TrimPrefix(f[len(f)-1], ".")
	for _, fn := range f[:len(f)-1] {
		p.tops = addOp(p.tops, m.tmplOp(fn))
	}
	return p
}

func (m *tmplModel) tmplOp(fn string) string {
	switch fn {
	case "html", "js", "urlquery", "print", "printf", "println", "slice", "index", "len":
		if fn == "html" {
			return "escape"
		}
		if fn == "print" {
			return ""
		}
		return fn
	}
	if f, ok := m.funcVals[fn].(*ssa.Function); ok {
		if o := normOp(f.String()); o != "" {
			return o
		}
	}
	return fn
}

func normOp(name string) string {
	switch name {
	case "strings.ToLower":
		return "lower"
	case "text/template.HTMLEscapeString", "html.EscapeString", "html/template.HTMLEscapeString", "text/template.HTMLEscaper":
		return "escape"
	}
	if strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "net/url.") || strings.HasPrefix(name, "(*strings.Replacer)") || strings.HasPrefix(name, "html.") || strings.HasPrefix(name, "unicode.") || strings.HasPrefix(name, "path") {
		return name[strings.LastIndex(name, "/")+1:]
	}
	return ""
}

// resolve finds the operations of the code and the origin of the value.
func (m *tmplModel) resolve(p *refPattern) {
	p.alts = map[string]map[string]bool{}
	for _, e := range m.execs {
		has := false
		for _, f := range e.fields {
			has = has || f == p.tmpl
		}
		if !has {
			continue
		}
		for _, d := range e.data {
			for _, v := range e.fieldPlaces(d, p.field) {
				for ops, lv := range m.w.spelling(v) {
					for _, o := range strings.Fields(p.tops) {
						ops = addOp(ops, o)
					}
					if p.alts[ops] == nil {
						p.alts[ops] = map[string]bool{}
					}
					for _, x := range lv {
						p.alts[ops][x] = true
					}
				}
			}
		}
	}
}

// spelling: the operations applied to make a text, and what it is made from.
func (w *World) spelling(p place) map[string][]string {
	t := &tracer{w: w,
		fields: func(n string, t types.Type) bool {
			if !strings.HasPrefix(n, "types.") {
				return false
			}
			switch types.Unalias(t).Underlying().(type) {
			case *types.Basic:
				return true
			}
			return false
		},
		stop: func(v ssa.Value, ctx *frame) bool {
			if e, ok := v.(*ssa.Extract); ok {
				v = e.Tuple
			}
			if c, ok := v.(*ssa.Call); ok {
				m, _ := attributeGetter(c)
				return m != nil
			}
			return false
		},
		op: func(v ssa.Value, ctx *frame) (string, []ssa.Value) {
			switch v := v.(type) {
			case *ssa.Call:
				f := v.Call.StaticCallee()
				if m, _ := attributeGetter(v); m != nil {
					return "", nil
				}
				if f == nil || w.inScopeFn(unwrapSynthetic(f)) {
					return "", nil
				}
				if n := callName(v.Common()); normOp(n) != "" {
					var ops []ssa.Value
					name := normOp(n)
					for _, a := range v.Call.Args {
						if k, ok := constString(a); ok {
							name += fmt.Sprintf("/%q", k)
							continue
						}
						if basicClass(a.Type()) == "string" {
							ops = append(ops, a)
						}
					}
					return strings.ReplaceAll(name, " ", "_"), ops
				}
			case *ssa.BinOp:
				if v.Op == token.ADD && basicClass(v.Type()) == "string" {
					if k, ok := constString(v.X); ok {
						return "prefix:" + strings.ReplaceAll(k, " ", "_"), []ssa.Value{v.Y}
					}
					if k, ok := constString(v.Y); ok {
						return "suffix:" + strings.ReplaceAll(k, " ", "_"), []ssa.Value{v.X}
					}
					return "concat", []ssa.Value{v.X, v.Y}
				}
			case *ssa.Slice:
				if basicClass(v.Type()) == "string" {
					return "slice", []ssa.Value{v.X}
				}
			}
			return "", nil
		}}
	t.trace(p.v, p.ctx)
	res := map[string][]string{}
	for _, l := range t.out {
		n := w.leafName(l)
		if n == "" {
			continue
		}
		res[l.ops] = append(res[l.ops], n)
	}
	return res
}

// leafName names the origin of a value; constants which are empty have none.
func (w *World) leafName(l place) string {
	v := l.v
	if e, ok := v.(*ssa.Extract); ok {
		if x, ok := e.Tuple.(*ssa.Lookup); ok {
			v = x
		}
		if x, ok := e.Tuple.(*ssa.TypeAssert); ok {
			return w.leafName(place{v: x.X, ctx: l.ctx})
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if k, ok := constString(x); ok {
			if k == "" {
				return ""
			}
			return fmt.Sprintf("constant %q", k)
		}
		if n, ok := constInt(x); ok {
			return fmt.Sprintf("constant %d", n)
		}
		return ""
	case *ssa.Lookup:
		return w.lookupName(x.X, x.Index, l.ctx)
	case *ssa.UnOp:
		if n, _, ok := fieldOf(derefLoad(x)); ok {
			return n
		}
	case *ssa.Field:
		if n, _, ok := fieldOf(x); ok {
			return n
		}
	case *ssa.Call:
		if m, k := attributeGetter(x); m != nil {
			return w.lookupName(m, k, l.ctx)
		}
		return "call " + callName(x.Common())
	case *ssa.BinOp:
		return "computed in " + fnName(topFunc(x.Parent()))
	case *ssa.Parameter:
		return "parameter " + x.Name() + " of " + fnName(x.Parent())
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", v), "*ssa.") + " in " + fnName(topFunc(v.Parent()))
}

// lookupName names an entry of a map of attributes: the fields which hold the map, and the key.
func (w *World) lookupName(m, k ssa.Value, ctx *frame) string {
	key := "?"
	kt := &tracer{w: w}
	kt.trace(k, ctx)
	for _, k := range kt.out {
		if s, ok := constString(k.v); ok {
			key = s
		}
	}
	mt := &tracer{w: w}
	mt.trace(m, ctx)
	var from []string
	for _, s := range mt.out {
		if n, _, ok := fieldOf(derefLoad(s.v)); ok {
			from = append(from, n)
		} else {
			from = append(from, s.v.Type().String())
		}
	}
	sort.Strings(from)
	from = uniq(from)
	if len(from) > 6 {
		from = []string{"attributes"}
	}
	return strings.Join(from, "|") + "[" + key + "]"
}

// attributeGetter: a call which reads the entry of a map received as its first argument, for
// a key received as the second one (nil if it is not).
func attributeGetter(c *ssa.Call) (m, key ssa.Value) {
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) < 2 || f.Signature.Results().Len() == 0 {
		return nil, nil
	}
	if _, ok := types.Unalias(c.Call.Args[0].Type()).Underlying().(*types.Map); !ok {
		return nil, nil
	}
	if basicClass(c.Call.Args[1].Type()) != "string" || !strings.HasSuffix(relPkg(f.Pkg.Pkg), "pkg/types") {
		return nil, nil
	}
	if basicClass(f.Signature.Results().At(0).Type()) != "string" {
		return nil, nil
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if l, ok := i.(*ssa.Lookup); ok && len(f.Params) > 1 && l.X == ssa.Value(f.Params[0]) && l.Index == ssa.Value(f.Params[1]) {
				return c.Call.Args[0], c.Call.Args[1]
			}
		}
	}
	return nil, nil
}

func derefLoad(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

func uniq(l []string) []string {
	var r []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}

func isIDLeaf(l string) bool { return strings.HasSuffix(l, "["+"id"+"]") }

func c14Link(w *World, r *Report, b *tmplBackend, l *refPattern, anchors []*refPattern) {
	inst := b.name + "." + l.tmpl + " #" + l.prefix + hl + "." + l.field + hr
	if len(l.alts) == 0 {
		r.Fail("link-traced", inst, l.pos, "the value of the link is not found")
		return
	}
	if l.prefix != "" || l.post != "" {
		// by prefix
		var targets []*refPattern
		for _, a := range anchors {
			if a.prefix == l.prefix && a.post == l.post {
				targets = append(targets, a)
			}
		}
		if len(targets) == 0 {
			r.Fail("link-has-anchor", inst, l.pos, fmt.Sprintf("no template writes an anchor with the prefix %q", l.prefix))
			return
		}
		for _, a := range targets {
			why := ""
			if strings.Join(a.sigs(), ";") != strings.Join(l.sigs(), ";") {
				why = fmt.Sprintf("the link is spelled with {%s}, the anchor with {%s}", strings.Join(l.sigs(), "; "), strings.Join(a.sigs(), "; "))
			} else if !sameLeaves(l.leaves(), a.leaves()) {
				why = fmt.Sprintf("the link comes from %s, the anchor from %s", strings.Join(sortedKeys(l.leaves()), ", "), strings.Join(sortedKeys(a.leaves()), ", "))
			}
			r.Check("link-matches-anchor", inst+" -> "+a.tmpl, l.pos, why == "", why)
		}
		return
	}
	// the whole identifier
	direct := false
	for x := range l.leaves() {
		direct = direct || isIDLeaf(x)
	}
	n := 0
	union := map[string]bool{}
	for _, a := range anchors {
		if a.prefix != "" || a.post != "" {
			continue
		}
		isID := false
		for x := range a.leaves() {
			isID = isID || isIDLeaf(x)
		}
		if !isID {
			continue
		}
		if direct && !meet(l.leaves(), a.leaves()) {
			continue
		}
		n++
		why := ""
		for _, s := range a.sigs() {
			union[s] = true
			if direct {
				if l.alts[s] == nil || len(l.alts) != len(a.alts) {
					why = fmt.Sprintf("the link is spelled with {%s}, the anchor with {%s}", strings.Join(l.sigs(), "; "), strings.Join(a.sigs(), "; "))
				}
				continue
			}
			if l.alts[s] == nil {
				why = fmt.Sprintf("the link is spelled with {%s}, never as the anchor: {%s}", strings.Join(l.sigs(), "} or {"), s)
			}
		}
		r.Check("link-matches-anchor", inst+" -> "+a.tmpl, l.pos, why == "", why)
	}
	if n == 0 {
		r.Fail("link-has-anchor", inst, l.pos, "no template writes an anchor from "+strings.Join(sortedKeys(l.leaves()), ", "))
		return
	}
	if !direct {
		for _, s := range l.sigs() {
			r.Check("link-spelling-exists", inst+" {"+s+"}", l.pos, union[s], "no anchor is spelled with {"+s+"}")
		}
	}
}

// sameLeaves: the same origins, constants aside.
func sameLeaves(a, b map[string]bool) bool {
	strip := func(m map[string]bool) string {
		x := map[string]bool{}
		for k := range m {
			if !strings.HasPrefix(k, "constant ") {
				x[k] = true
			}
		}
		return strings.Join(sortedKeys(x), "|")
	}
	return strip(a) != "" && strip(a) == strip(b)
}

func meet(a, b map[string]bool) bool {
	for x := range a {
		if b[x] && !strings.HasPrefix(x, "constant ") {
			return true
		}
	}
	return false
}

// c14Generated: the identifiers generated for the sections and for the references to them by title
// are generated by the same functions, from the same settings.
func c14Generated(w *World, r *Report) {
	isGen := func(c *ssa.Call) bool {
		f := c.Call.StaticCallee()
		if f == nil || !w.inScopeFn(f) || f.Signature.Results().Len() == 0 || basicClass(f.Signature.Results().At(0).Type()) != "string" {
			return false
		}
		content, settings := 0, 0
		for i := 0; i < f.Signature.Params().Len(); i++ {
			switch t := types.Unalias(f.Signature.Params().At(i).Type()).Underlying().(type) {
			case *types.Slice, *types.Interface:
				content++
			case *types.Basic:
				if t.Info()&types.IsString != 0 {
					settings++
				}
			}
		}
		return content > 0 && settings > 0
	}
	gens := func(vals []place) map[string][]token.Pos {
		res := map[string][]token.Pos{}
		for _, v := range vals {
			t := &tracer{w: w, fields: nil, stop: func(v ssa.Value, ctx *frame) bool {
				if e, ok := v.(*ssa.Extract); ok {
					v = e.Tuple
				}
				c, ok := v.(*ssa.Call)
				return ok && isGen(c)
			}}
			t.trace(v.v, v.ctx)
			for _, l := range t.out {
				x := l.v
				if e, ok := x.(*ssa.Extract); ok {
					x = e.Tuple
				}
				c, ok := x.(*ssa.Call)
				if !ok || !isGen(c) {
					continue
				}
				sig := fnName(c.Call.StaticCallee())
				for _, a := range c.Call.Args {
					if basicClass(a.Type()) == "string" {
						sig += ", " + w.settingName(place{v: a, ctx: l.ctx})
					}
				}
				res[sig] = append(res[sig], c.Pos())
			}
		}
		return res
	}
	var secs, refs []place
	for _, fn := range w.Funcs {
		for _, in := range instrs(fn) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if k, ok := constString(stripConv(mu.Key)); !ok || k != "id" {
				continue
			}
			if w.lookupName(mu.Map, mu.Key, nil) == "types.Section.Attributes[id]" {
				secs = append(secs, place{v: mu.Value})
			}
		}
	}
	for _, v := range w.fieldStores()["types.InternalCrossReference.ID"] {
		refs = append(refs, place{v: v})
	}
	gs, gr := gens(secs), gens(refs)
	for _, sig := range sortedKeys2(gr) {
		_, ok := gs[sig]
		r.Check("same-generator", "internal cross reference: "+sig, w.pos(gr[sig][0]), ok, "no identifier of a section is generated that way: "+strings.Join(sortedKeys2(gs), " or "))
	}
	for _, sig := range sortedKeys2(gs) {
		_, ok := gr[sig]
		r.Check("same-generator", "section: "+sig, w.pos(gs[sig][0]), ok, "no reference to the title of a section is generated that way: "+strings.Join(sortedKeys2(gr), " or "))
	}
	r.Floor("generators of identifiers of sections", len(gs), 1)
	r.Floor("generators of identifiers of cross references", len(gr), 1)
}

func sortedKeys2(m map[string][]token.Pos) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// settingName names a setting read from attributes: its key and its default.
func (w *World) settingName(p place) string {
	t := &tracer{w: w, stop: func(v ssa.Value, ctx *frame) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		m, _ := attributeGetter(c)
		return m != nil
	}}
	t.trace(p.v, p.ctx)
	set := map[string]bool{}
	for _, l := range t.out {
		switch x := l.v.(type) {
		case *ssa.Const:
			if k, ok := constString(x); ok {
				set[fmt.Sprintf("%q", k)] = true
			}
		case *ssa.Call:
			n := ""
			for _, a := range x.Call.Args[1:] {
				sub := &tracer{w: w}
				sub.trace(a, l.ctx)
				for _, k := range sub.out {
					if s, ok := constString(k.v); ok {
						n += fmt.Sprintf("/%q", s)
					}
				}
			}
			set["attribute"+n] = true
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Lookup); ok {
				if k, ok := constString(stripConv(c.Index)); ok {
					set[fmt.Sprintf("attribute/%q", k)] = true
				}
			}
		case *ssa.Lookup:
			if k, ok := constString(stripConv(x.Index)); ok {
				set[fmt.Sprintf("attribute/%q", k)] = true
			}
		}
	}
	return strings.Join(sortedKeys(set), "|")
}

// c14Guard: where the code chooses between two spellings of an identifier, according to a set of
// identifiers, the key used for the test is spelled like the members of the set, and the spelling
// of the members is the one chosen when the test holds.
func c14Guard(w *World, r *Report) {
	n := 0
	for _, fn := range w.Funcs {
		if !strings.HasPrefix(relPkg(fn.Pkg.Pkg), "pkg/renderer") {
			continue
		}
		for _, in := range instrs(fn) {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				continue
			}
			name, _, ok := fieldOf(derefLoad(lk.X))
			if !ok || basicClass(lk.Index.Type()) != "string" {
				continue
			}
			mt, ok := types.Unalias(lk.X.Type()).Underlying().(*types.Map)
			if !ok || basicClass(mt.Elem()) != "bool" {
				continue
			}
			// the members of the set
			members := map[string]bool{}
			for _, g := range w.Funcs {
				for _, i2 := range instrs(g) {
					if mu, ok := i2.(*ssa.MapUpdate); ok {
						if n2, _, ok := fieldOf(derefLoad(mu.Map)); ok && n2 == name {
							for ops := range w.spelling(place{v: mu.Key}) {
								members[ops] = true
							}
						}
					}
				}
			}
			key := map[string]bool{}
			for ops := range w.spelling(place{v: lk.Index}) {
				key[ops] = true
			}
			n++
			same := strings.Join(sortedKeys(members), ";") == strings.Join(sortedKeys(key), ";")
			r.Check("membership-spelling", fnName(fn)+" "+name, w.pos(lk.Pos()), same, fmt.Sprintf("the members of the set are spelled {%s}, the key {%s}", strings.Join(sortedKeys(members), "; "), strings.Join(sortedKeys(key), "; ")))
			// the results chosen by the test
			for _, b := range fn.Blocks {
				ret, ok := lastInstr(b).(*ssa.Return)
				if !ok || len(ret.Results) == 0 || basicClass(ret.Results[0].Type()) != "string" {
					continue
				}
				var leaves []retLeaf
				phiLeaves(ret.Results[0], b, map[ssa.Value]bool{}, &leaves)
				for _, l := range leaves {
					holds, known := false, false
					for _, f := range factsAt(l.b) {
						f = f.norm()
						if f.v == ssa.Value(lk) {
							holds, known = f.val, true
						}
						if e, ok := f.v.(*ssa.Extract); ok && e.Tuple == ssa.Value(lk) {
							holds, known = f.val, true
						}
					}
					if !known {
						continue
					}
					for ops := range w.spelling(place{v: l.v}) {
						if holds {
							r.Check("member-spelling", fnName(fn)+" result if member", w.pos(ret.Pos()), members[ops], fmt.Sprintf("the result for a member of %s is spelled {%s}, the members {%s}", name, ops, strings.Join(sortedKeys(members), "; ")))
						} else {
							r.Check("member-spelling", fnName(fn)+" result if not member", w.pos(ret.Pos()), ops == "", fmt.Sprintf("the result for an identifier not in %s is spelled {%s}", name, ops))
						}
					}
				}
			}
		}
	}
	r.Count("membership tests of identifiers", n)
}
