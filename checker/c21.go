package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: inline syntax is interpreted only when its substitution is enabled.

func init() {
	register(&checkDef{id: "C21", title: "Inline syntax is interpreted only when its substitution is enabled", run: runC21,
		explanation: "The compiled grammar is walked along all ways from the entry rules for inline content to the actions which make inline elements, with the substitutions which the code predicates on the way need (each predicate is followed to know which ones): on every way the substitution of the kind of element must be enabled, on some way no other one may be needed, and what matches while nothing is enabled must be kept as it is. The function which gives the substitutions of an element is followed for 326 values of the attribute and for each kind of block without it, the predicate of the grammar for each name and store. Where substitutions are passed on, they must come from the element whose content is parsed (through parts of them only), be the last option given to the parser, and elements which were found already may be parsed again as text only if the same substitution is enabled.",
		assumptions: []string{"the groups of inline syntax are those of the AsciiDoc documentation", "passthrough macros name the substitutions of their content themselves", "the generated parser hands its store to the predicates"}})
}

// c21Groups: the kinds of inline elements, by the substitution which they belong to (as documented for AsciiDoc).
var c21Groups = map[string][]string{
	"quotes":             {"QuotedText"},
	"attributes":         {"AttributeReference", "CounterSubstitution", "PredefinedAttribute"},
	"replacements":       {"Symbol"},
	"specialchars":       {"SpecialCharacter"},
	"post_replacements":  {"LineBreak"},
	"callouts":           {"Callout"},
	"inline_passthrough": {"InlinePassthrough"},
	"macros": {"Icon", "InlineImage", "InlineLink", "Footnote", "InternalCrossReference", "ExternalCrossReference",
		"UserMacro", "ConcealedIndexTerm", "IndexTerm", "InlineButton", "InlineMenu"},
}

type c21 struct {
	w     *World
	r     *Report
	g     *grammar
	group map[string]string // by type
	preds map[*ssa.Function][]string
	must  map[*gexpr]map[string]bool
	makes map[*ssa.Function][]string
	found map[string]*c21Construct
	seen  map[string]bool
	subsT *types.Named
	of    *ssa.Function // gives the substitutions of an element
	seq   string        // the field with the names

	parsing map[*ssa.Function]bool
	freely  map[*gexpr]bool
	all     map[*gexpr][]string
}

// c21Construct: an action which makes an inline element.
type c21Construct struct {
	entry, typ string
	x          *gexpr
	bad        string
	paths      int
}

// enabled: the substitutions which are enabled whenever the predicate holds.
func (c *c21) enabled(f *ssa.Function) []string {
	if l, ok := c.preds[f]; ok {
		return l
	}
	c.preds[f] = nil
	var all map[string]bool
	x := &absint{w: c.w, maxDepth: 6, limit: 2000}
	x.inline = func(h *ssa.Function) bool { return c.w.inScopeFn(h) && h.Name() != "isSubstitutionEnabled" }
	x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
		if fn.fn != nil && fn.fn.Name() == "isSubstitutionEnabled" && len(args) == 2 {
			return []xval{xterm("enabled " + args[1].s)}, true
		}
		return nil, false
	}
	x.run(f, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		if len(res) == 0 || res[0].s == "false" {
			return
		}
		m := map[string]bool{}
		for k, v := range s.conds {
			if v && strings.HasPrefix(k, "enabled ") {
				m[strings.Trim(k[len("enabled "):], `"`)] = true
			}
		}
		if strings.HasPrefix(res[0].s, "enabled ") {
			m[strings.Trim(res[0].s[len("enabled "):], `"`)] = true
		}
		if all == nil {
			all = m
			return
		}
		for k := range all {
			if !m[k] {
				delete(all, k)
			}
		}
	})
	if x.over {
		all = nil
	}
	c.preds[f] = sortedKeys(all)
	return c.preds[f]
}

// guards: the substitutions which are enabled whenever the expression matches.
func (c *c21) guards(x *gexpr) map[string]bool {
	if m, ok := c.must[x]; ok {
		return m // nothing is known within a recursion
	}
	c.must[x] = nil
	m := map[string]bool{}
	add := func(n map[string]bool) {
		for k := range n {
			m[k] = true
		}
	}
	switch x.kind {
	case "andCode":
		for _, k := range c.enabled(x.run) {
			m[k] = true
		}
	case "seq", "action", "label", "plus", "and":
		for _, k := range x.kids {
			add(c.guards(k))
		}
	case "ref":
		if r := c.g.rules[x.name]; r != nil {
			add(c.guards(r.expr))
		}
	case "choice":
		for i, k := range x.kids {
			n := c.guards(k)
			if i == 0 {
				add(n)
				continue
			}
			for g := range m {
				if !n[g] {
					delete(m, g)
				}
			}
		}
	}
	c.must[x] = m
	return m
}

// made: the elements which the code of an action makes.
func (c *c21) made(f *ssa.Function) []string {
	if l, ok := c.makes[f]; ok {
		return l
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, depth int)
	walk = func(f *ssa.Function, depth int) {
		if f == nil || seen[f] || depth > 6 || !c.w.inScopeFn(f) {
			return
		}
		seen[f] = true
		for _, in := range instrs(f) {
			switch in := in.(type) {
			case *ssa.Alloc:
				if n := typeName(deref(in.Type())); c.group[n] != "" {
					m[n] = true
				}
			case *ssa.Call:
				walk(in.Call.StaticCallee(), depth+1)
			}
		}
	}
	walk(f, 0)
	c.makes[f] = sortedKeys(m)
	return c.makes[f]
}

// walk follows the grammar along all ways to the actions which make inline elements. Guards are the substitutions which
// are enabled there, own those of the elements which are being made.
func (c *c21) walk(e *grule, x *gexpr, guards, own map[string]bool) {
	key := fmt.Sprintf("%p %v %v", x, sortedKeys(guards), sortedKeys(own))
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	more := map[string]bool{}
	for k := range guards {
		more[k] = true
	}
	for k := range c.guards(x) {
		more[k] = true
	}
	if x.kind == "action" {
		l := c.made(x.run)
		for _, t := range l {
			c.construct(e, x, t, more, own)
		}
		if len(l) > 0 {
			n := map[string]bool{}
			for k := range own {
				n[k] = true
			}
			for _, t := range l {
				n[c.group[t]] = true
				if c.group[t] == "inline_passthrough" {
					for g := range c21Groups {
						n[g] = true // the macro names the substitutions of its content
					}
				}
			}
			own = n
		}
		if len(l) == 0 && len(more) == 0 && len(own) == 0 {
			c.literal(e, x)
		}
	}
	if x.kind == "and" || x.kind == "not" {
		return // what is found ahead is dropped
	}
	for _, k := range x.kids {
		c.walk(e, k, more, own)
	}
	if x.kind == "ref" {
		if r := c.g.rules[x.name]; r != nil {
			c.walk(e, r.expr, more, own)
		}
	}
}

func (c *c21) construct(e *grule, x *gexpr, t string, guards, own map[string]bool) {
	k := e.name + ": " + x.rule.name + " makes " + t
	f := c.found[k]
	if f == nil {
		f = &c21Construct{entry: e.name, typ: t, x: x}
		c.found[k] = f
	}
	f.paths++
	g := c.group[t]
	if !guards[g] && !(own["inline_passthrough"] && own[g]) {
		f.bad = fmt.Sprintf("rule %s makes %s on a way on which `%s` is not known to be enabled", x.rule.name, t, g)
		f.x = x
	}
	foreign := []string{}
	for k := range guards {
		if k != g && !own[k] {
			foreign = append(foreign, k)
		}
	}
	if len(foreign) == 0 {
		if c.freely == nil {
			c.freely = map[*gexpr]bool{}
		}
		c.freely[x] = true
	}
	if c.all == nil {
		c.all = map[*gexpr][]string{}
	}
	sort.Strings(foreign)
	c.all[x] = append(c.all[x], strings.Join(foreign, ", "))
}

// literal: without any substitution, the characters which match are kept.
func (c *c21) literal(e *grule, x *gexpr) {
	lit, known := x.literalText()
	bad := ""
	for _, in := range instrs(x.run) {
		call, ok := in.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) != 1 {
			continue
		}
		h := call.Call.StaticCallee()
		if h.Signature.Results().Len() == 0 || !strings.HasSuffix(typeName(deref(h.Signature.Results().At(0).Type())), "types.StringElement") {
			continue
		}
		if s, ok := constString(call.Call.Args[0]); ok && known && s != lit {
			bad = fmt.Sprintf("rule %s replaces %q by %q, whatever the substitutions", x.rule.name, lit, s)
		} else if call2, ok := call.Call.Args[0].(*ssa.Call); ok && call2.Call.StaticCallee() != nil && call2.Call.StaticCallee().Pkg != nil && call2.Call.StaticCallee().Pkg.Pkg.Path() == "strings" {
			bad = fmt.Sprintf("rule %s does not keep the characters which match, whatever the substitutions", x.rule.name)
		}
	}
	c.r.Count("actions without substitution", 1)
	if bad != "" {
		c.r.Fail("literal", e.name+": "+x.rule.name, c.w.pos(x.run.Pos()), bad)
	} else {
		c.r.OK("literal", e.name+": "+x.where(), "", "")
	}
}

// literalText: the characters matched, when they are always the same.
func (x *gexpr) literalText() (string, bool) {
	switch x.kind {
	case "lit":
		return x.val, !x.fold
	case "and", "not", "andCode", "notCode", "stateCode":
		return "", true
	case "seq", "action", "label":
		s := ""
		for _, k := range x.kids {
			t, ok := k.literalText()
			if !ok {
				return "", false
			}
			s += t
		}
		return s, true
	}
	return "", false
}

func runC21(w *World, r *Report) {
	w.buildCallGraph()
	c := &c21{w: w, r: r, g: w.grammar(), group: map[string]string{}, preds: map[*ssa.Function][]string{}, must: map[*gexpr]map[string]bool{}, makes: map[*ssa.Function][]string{}, found: map[string]*c21Construct{}, seen: map[string]bool{}}
	for g, l := range c21Groups {
		for _, t := range l {
			c.group["types."+t] = g
		}
	}
	if len(c.g.unknown) > 0 {
		r.Fail("grammar", "grammar", "", "the compiled grammar has expressions which are not understood: "+strings.Join(c.g.unknown, ", "))
		return
	}
	c.subsT = w.typ("pkg/parser", "substitutions")
	for _, f := range w.Funcs {
		if p := f.Signature; c.subsT != nil && f.Parent() == nil && p.Recv() == nil && p.Params().Len() == 1 && p.Results().Len() == 2 && typeName(p.Params().At(0).Type()) == "types.WithElements" && types.Identical(p.Results().At(0).Type(), types.NewPointer(c.subsT)) {
			c.of = f
		}
	}
	if c.of == nil {
		r.Fail("substitutions", "function", "", "no function gives the substitutions of an element")
		return
	}
	st := c.subsT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "[]string" {
			c.seq = st.Field(i).Name()
		}
	}
	c.constructs()
	c.names()
	c.defaults()
	c.flow()
}

// constructs: the rules of the grammar.
func (c *c21) constructs() {
	entries := 0
	for _, e := range c.w.entryRules(c.g) {
		lines, inline := false, false
		for _, x := range c.g.exprsFrom(e.expr) {
			if x.kind != "action" {
				continue
			}
			lines = lines || len(c.makesLines(x.run)) > 0
			inline = inline || len(c.made(x.run)) > 0
		}
		if lines || !inline {
			continue // blocks: the substitutions of their contents are applied later, by one of the other rules
		}
		entries++
		c.walk(e, e.expr, nil, nil)
	}
	c.r.Floor("entry rules for inline content", entries, 1)
	kinds := map[string]bool{}
	for _, k := range sortedKeys(c.found) {
		f := c.found[k]
		kinds[f.typ] = true
		c.r.Check("guarded", k, c.w.pos(f.x.run.Pos()), f.bad == "", f.bad)
		c.r.Count("ways to inline elements", f.paths)
	}
	foreign := map[string]string{}
	pos := map[string]string{}
	for x, l := range c.all {
		k := x.rule.name + " makes " + strings.Join(c.made(x.run), ", ")
		pos[k] = c.w.pos(x.run.Pos())
		if _, ok := foreign[k]; !ok {
			foreign[k] = ""
		}
		if !c.freely[x] {
			sort.Strings(l)
			foreign[k] = l[0]
		}
	}
	for _, k := range sortedKeys(foreign) {
		c.r.Check("own-name", k, pos[k], foreign[k] == "", fmt.Sprintf("always depends on `%s`, too", foreign[k]))
	}
	c.r.Floor("kinds of inline elements", len(kinds), 15)
}

// makesLines: the action makes lines or blocks.
func (c *c21) makesLines(f *ssa.Function) []string {
	m := map[string]bool{}
	for _, in := range instrs(f) {
		if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
			res := call.Call.StaticCallee().Signature.Results()
			for i := 0; i < res.Len(); i++ {
				switch n := typeName(deref(res.At(i).Type())); n {
				case "types.RawLine", "types.Section", "types.BlockDelimiter", "types.BlankLine":
					m[n] = true
				}
			}
		}
	}
	return sortedKeys(m)
}

var c21All = []string{"inline_passthrough", "attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements"}

// c21Names: what the names stand for.
var c21Names = map[string][]string{
	"normal": c21All, "none": {}, "verbatim": {"callouts", "specialchars"},
	"attributes": {"attributes"}, "callouts": {"callouts"}, "macros": {"macros"}, "post_replacements": {"post_replacements"},
	"quotes": {"quotes"}, "replacements": {"replacements"}, "specialchars": {"specialchars"},
}

// subsOf follows the function which gives the substitutions of an element; what it gives, or an error.
func (c *c21) subsOf(t types.Type, kind, style, subs string) (map[string]bool, string) {
	w := c.w
	x := &absint{w: w, lists: true, maxDepth: 30, limit: 20000, inline: func(g *ssa.Function) bool { return w.inScopeFn(g) && !w.isGenerated(g) }}
	x.call = x.xstrings
	s := newAState()
	k := &c24Run{w: w, x: x}
	k.globalInits(s, map[*ssa.Package]bool{c.of.Pkg: true, w.SSA[pkgPath("pkg/types")]: true})
	o := xval{k: 'O', s: "element"}
	x.assume(s, o, t, true)
	s.data["\x00known element"] = "1"
	st := deref(t).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case typeName(f.Type()) == "types.Attributes":
			s.mem["element."+f.Name()] = xval{k: 'O', s: "attributes"}
			s.data["\x00map attributes"] = "1"
		case f.Name() == "Kind" && kind != "":
			s.mem["element.Kind"] = xconst(fmt.Sprintf("%q", kind))
		}
	}
	if subs != "" {
		s.mem[`attributes["subs"]`] = xconst(fmt.Sprintf("%q", subs))
	}
	if style != "" {
		s.mem[`attributes["style"]`] = xconst(fmt.Sprintf("%q", style))
	}
	var got map[string]bool
	why := ""
	x.run(c.of, []xval{o}, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		if len(res) != 2 || res[1].k != 'C' {
			why = "an error is returned"
			return
		}
		l, ok := x.listElems(s, s.load(res[0].s+"."+c.seq))
		if res[0].k == 'O' && s.mem[res[0].s+"."+c.seq].s == "" {
			l, ok = nil, true
		}
		if !ok {
			why = "the substitutions are not known"
			return
		}
		m := map[string]bool{}
		for _, v := range l {
			if v.k != 'C' {
				why = "the substitutions are not known"
			}
			m[strings.Trim(v.s, `"`)] = true
		}
		if got != nil && fmt.Sprint(sortedKeys(got)) != fmt.Sprint(sortedKeys(m)) {
			why = "the substitutions depend on something else"
		}
		got = m
	})
	if x.over {
		why = "not decided within the limit"
	}
	if why == "" && got == nil {
		why = "no path returns the substitutions"
	}
	return got, why
}

// xstrings: the functions on strings, for known arguments.
func (x *absint) xstrings(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
	if fn.fn == nil {
		return nil, false
	}
	if fn.fn.Name() == "IsLevelEnabled" {
		return []xval{xconst("false")}, true
	}
	switch fn.fn.String() {
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return []xval{{k: 'O', s: "error"}}, true
	}
	if fn.fn.Pkg == nil || fn.fn.Pkg.Pkg.Path() != "strings" {
		return nil, false
	}
	var v []string
	for _, a := range args {
		t, err := strconv.Unquote(a.s)
		if a.k != 'C' || err != nil {
			return nil, false
		}
		v = append(v, t)
	}
	str := func(s string) ([]xval, bool) { return []xval{xconst(strconv.Quote(s))}, true }
	boolean := func(b bool) ([]xval, bool) { return []xval{xconst(fmt.Sprint(b))}, true }
	switch fn.fn.Name() {
	case "HasPrefix":
		return boolean(strings.HasPrefix(v[0], v[1]))
	case "HasSuffix":
		return boolean(strings.HasSuffix(v[0], v[1]))
	case "Contains":
		return boolean(strings.Contains(v[0], v[1]))
	case "TrimPrefix":
		return str(strings.TrimPrefix(v[0], v[1]))
	case "TrimSuffix":
		return str(strings.TrimSuffix(v[0], v[1]))
	case "Trim":
		return str(strings.Trim(v[0], v[1]))
	case "TrimSpace":
		return str(strings.TrimSpace(v[0]))
	case "ToLower":
		return str(strings.ToLower(v[0]))
	case "Split":
		var l []xval
		for _, e := range strings.Split(v[0], v[1]) {
			l = append(l, xconst(strconv.Quote(e)))
		}
		return []xval{x.newList(s, l)}, true
	}
	return nil, false
}

// names: what the attribute of a block asks for.
func (c *c21) names() {
	para, block := types.NewPointer(c.w.typ("pkg/types", "Paragraph")), types.NewPointer(c.w.typ("pkg/types", "DelimitedBlock"))
	names := sortedKeys(c21Names)
	type scenario struct {
		t        types.Type
		kind     string
		def      []string
		subs     string
		add, del []string
		explicit bool
	}
	bad := map[string]string{}
	n := 0
	try := func(rule string, sc scenario) {
		n++
		want := map[string]bool{}
		if !sc.explicit {
			for _, d := range sc.def {
				want[d] = true
			}
		}
		for _, a := range sc.add {
			for _, d := range c21Names[a] {
				want[d] = true
			}
		}
		for _, a := range sc.del {
			for _, d := range c21Names[a] {
				delete(want, d)
			}
		}
		got, why := c.subsOf(sc.t, sc.kind, "", sc.subs)
		if why == "" && fmt.Sprint(sortedKeys(got)) != fmt.Sprint(sortedKeys(want)) {
			why = fmt.Sprintf("gives %v instead of %v", sortedKeys(got), sortedKeys(want))
		}
		if why != "" && bad[rule] == "" {
			bad[rule] = fmt.Sprintf("`subs=\"%s\"`: %s", sc.subs, why)
		}
		if _, ok := bad[rule]; !ok {
			bad[rule] = ""
		}
	}
	for _, a := range names {
		try("name "+a, scenario{t: para, subs: a, add: []string{a}, explicit: true})
		for _, el := range []scenario{{t: para, def: c21All}, {t: block, kind: "listing", def: c21Names["verbatim"]}} {
			for _, f := range []string{"+%s", "%s+", "-%s"} {
				sc := el
				sc.subs = fmt.Sprintf(f, a)
				if f[0] == '-' {
					sc.del = []string{a}
				} else {
					sc.add = []string{a}
				}
				try("name "+a, sc)
			}
		}
		for _, b := range names {
			try("several names", scenario{t: para, subs: a + "," + b, add: []string{a, b}, explicit: true})
			try("spaces", scenario{t: para, subs: a + ", " + b, add: []string{a, b}, explicit: true})
			if a != b && a != "normal" && b != "normal" && a != "verbatim" && b != "verbatim" {
				try("several increments", scenario{t: block, kind: "listing", def: c21Names["verbatim"], subs: "+" + a + ",-" + b, add: []string{a}, del: []string{b}})
			}
		}
	}
	for _, k := range sortedKeys(bad) {
		c.r.Check("names", k, c.w.pos(c.of.Pos()), bad[k] == "", bad[k])
	}
	if _, why := c.subsOf(para, "", "", "unknown"); why != "an error is returned" {
		c.r.Fail("names", "unknown names", c.w.pos(c.of.Pos()), "an unknown name is not an error")
	}
	c.r.Count("values of the attribute", n)
}

// defaults: the substitutions of blocks without the attribute.
func (c *c21) defaults() {
	para, block := types.NewPointer(c.w.typ("pkg/types", "Paragraph")), types.NewPointer(c.w.typ("pkg/types", "DelimitedBlock"))
	check := func(what string, t types.Type, kind, style string, want []string) {
		got, why := c.subsOf(t, kind, style, "")
		w := map[string]bool{}
		for _, k := range want {
			w[k] = true
		}
		if why == "" && fmt.Sprint(sortedKeys(got)) != fmt.Sprint(sortedKeys(w)) {
			why = fmt.Sprintf("gives %v instead of %v", sortedKeys(got), sortedKeys(w))
		}
		c.r.Check("default", what, c.w.pos(c.of.Pos()), why == "", why)
	}
	for kind, names := range map[string]string{"example": "normal", "quote": "normal", "verse": "normal", "sidebar": "normal", "markdown-quote": "normal", "open": "normal",
		"comment": "none", "pass": "none", "listing": "verbatim", "fenced": "verbatim", "literal": "verbatim"} {
		check("block "+kind, block, kind, "", c21Names[names])
	}
	for style, names := range map[string]string{"listing": "verbatim", "source": "verbatim", "literal": "verbatim", "literal_paragraph": "verbatim", "pass": "none", "verse": "normal", "quote": "normal", "": "normal", "example": "normal"} {
		check("paragraph "+style, para, "", style, c21Names[names])
	}
	for _, t := range c.w.implementers(c.w.typ("pkg/types", "WithElements").Underlying().(*types.Interface)) {
		if n := typeName(deref(t)); n != "types.Paragraph" && n != "types.DelimitedBlock" {
			if _, ok := deref(t).Underlying().(*types.Struct); ok {
				check(n, t, "", "", c21All)
			}
		}
	}
}

// c21Origin: where the substitutions which a function uses come from.
type c21Origin struct {
	kind string // param, of, set, nil, unknown
	v    ssa.Value
}

func (c *c21) isSubs(t types.Type) bool { return types.Identical(t, types.NewPointer(c.subsT)) }

func (c *c21) subsParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if c.isSubs(p.Type()) {
			return true
		}
	}
	return false
}

func (c *c21) isMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && c.isSubs(f.Signature.Recv().Type())
}

// origins follows a value back within its function, and into the functions which return substitutions.
func (c *c21) origins(v ssa.Value, seen map[ssa.Value]bool, res map[c21Origin]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	call := func(call *ssa.Call, idx int) {
		h := call.Call.StaticCallee()
		switch {
		case h == c.of:
			res[c21Origin{"of", call.Call.Args[0]}] = true
		case h != nil && c.isMethod(h):
			c.origins(call.Call.Args[0], seen, res)
		case h != nil && c.w.inScopeFn(h) && len(h.Blocks) > 0:
			sub := map[c21Origin]bool{}
			made := false
			for _, b := range h.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
					if a, ok := ret.Results[idx].(*ssa.Alloc); ok && a.Heap {
						made = true
						continue
					}
					c.origins(ret.Results[idx], map[ssa.Value]bool{}, sub)
				}
			}
			for o := range sub {
				if p, ok := root(o.v).(*ssa.Parameter); ok && (o.kind == "param" || o.kind == "of") {
					for i, q := range h.Params {
						if q == p && i < len(call.Call.Args) {
							if o.kind == "of" {
								res[c21Origin{"of", call.Call.Args[i]}] = true
							} else {
								c.origins(call.Call.Args[i], seen, res)
							}
						}
					}
					continue
				}
				res[o] = true
			}
			if made {
				res[c21Origin{"set", call}] = true
			}
		default:
			res[c21Origin{"unknown", v}] = true
		}
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		res[c21Origin{"param", v}] = true
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			c.origins(b, seen, res)
		}
	case *ssa.Const:
		res[c21Origin{"nil", nil}] = true
	case *ssa.Phi:
		for _, e := range v.Edges {
			c.origins(e, seen, res)
		}
	case *ssa.MakeInterface:
		c.origins(v.X, seen, res)
	case *ssa.ChangeType:
		c.origins(v.X, seen, res)
	case *ssa.Extract:
		if k, ok := v.Tuple.(*ssa.Call); ok {
			call(k, v.Index)
		} else {
			res[c21Origin{"unknown", v}] = true
		}
	case *ssa.Call:
		call(v, 0)
	case *ssa.Alloc:
		if c.isSubs(v.Type()) {
			res[c21Origin{"set", v}] = true
			return
		}
		for _, s := range cellStores(v) {
			c.origins(s, seen, res)
		}
	case *ssa.UnOp:
		if f, ok := v.X.(*ssa.FreeVar); ok {
			if b := bindingOf(f); b != nil {
				c.origins(b, seen, res)
				return
			}
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, s := range cellStores(a) {
				c.origins(s, seen, res)
			}
			return
		}
		res[c21Origin{"unknown", v}] = true
	default:
		res[c21Origin{"unknown", v}] = true
	}
}

// root follows conversions of a value.
func root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			t, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok || x.Index != 0 {
				return v
			}
			v = t.X
		default:
			return v
		}
	}
}

// taken: the values which a content was taken from, with the name of what was taken there (a field or a getter).
func (c *c21) taken(v ssa.Value, name string, seen map[ssa.Value]bool, res map[ssa.Value]map[string]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	leaf := func() {
		if res[v] == nil {
			res[v] = map[string]bool{}
		}
		res[v][name] = true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.TypeAssert, *ssa.Convert, *ssa.Slice, *ssa.Next, *ssa.Range, *ssa.Lookup, *ssa.IndexAddr, *ssa.Index:
		c.taken(*x.(ssa.Instruction).Operands(nil)[0], name, seen, res)
	case *ssa.Extract:
		c.taken(x.Tuple, name, seen, res)
	case *ssa.FieldAddr:
		c.taken(x.X, c.fieldName(x), seen, res)
	case *ssa.Field:
		c.taken(x.X, name, seen, res)
	case *ssa.UnOp:
		c.taken(x.X, name, seen, res)
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.taken(e, name, seen, res)
		}
	case *ssa.Alloc:
		for _, s := range cellStores(x) {
			c.taken(s, name, seen, res)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			c.taken(b, name, seen, res)
		} else {
			leaf()
		}
	case *ssa.Call:
		if x.Call.IsInvoke() {
			c.taken(x.Call.Value, strings.TrimPrefix(x.Call.Method.Name(), "Get"), seen, res)
			return
		}
		h := x.Call.StaticCallee()
		any := false
		for i, a := range x.Call.Args {
			if h != nil && h.Signature.Recv() != nil && i == 0 && !c.w.isStd(h) {
				n := strings.TrimPrefix(h.Name(), "Get")
				if typeName(deref(a.Type())) == "types.Attributes" {
					n = name
				}
				c.taken(a, n, seen, res)
				any = true
			} else if c.isContent(a.Type()) {
				c.taken(a, name, seen, res)
				any = true
			}
		}
		if !any {
			leaf()
		}
	default:
		leaf()
	}
}

func (w *World) isStd(f *ssa.Function) bool { return !w.inScopeFn(f) }

func (c *c21) fieldName(x *ssa.FieldAddr) string {
	return deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
}

// ofClosures resolves the parameters of function literals.
func (c *c21) ofClosures(from map[ssa.Value]map[string]bool) map[ssa.Value]map[string]bool {
	res := map[ssa.Value]map[string]bool{}
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value, names map[string]bool)
	add = func(v ssa.Value, names map[string]bool) {
		p, ok := v.(*ssa.Parameter)
		if !ok || p.Parent().Parent() == nil || seen[v] {
			res[v] = names
			return
		}
		seen[v] = true
		for i, q := range p.Parent().Params {
			for _, site := range c.w.callers[p.Parent()] {
				if a, ok := argFor(site, p.Parent(), i); ok && q == p {
					l := map[ssa.Value]map[string]bool{}
					c.taken(a, "", map[ssa.Value]bool{}, l)
					for v, names := range l {
						add(v, names)
					}
				}
			}
		}
	}
	for v, names := range from {
		add(v, names)
	}
	return res
}

func (c *c21) isContent(t types.Type) bool {
	if n := typeName(t); types.IsInterface(t) && strings.HasPrefix(n, "types.") {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Interface:
		return t.NumMethods() == 0 || strings.HasSuffix(t.String(), "Reader")
	case *types.Slice:
		return typeName(t.Elem()) != "parser.Option"
	case *types.Basic:
		return t.Kind() == types.String
	}
	return typeName(deref(t)) == "types.Attributes"
}

// flow: the content of an element is parsed with the substitutions of this element.
func (c *c21) flow() {
	w, r := c.w, c.r
	own := map[*ssa.Function]bool{}
	for f := range w.reachable(c.of) {
		own[f] = true
	}
	key := ""
	sinks, calls := 0, 0
	for _, f := range w.Funcs {
		if f.Pkg == nil || f.Pkg != c.of.Pkg || w.isGenerated(f) || c.isMethod(f) || own[f] {
			continue
		}
		outer := f
		for outer.Parent() != nil {
			outer = outer.Parent()
		}
		name := fnName(f)
		for _, in := range instrs(f) {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			h := call.Call.StaticCallee()
			if h != nil && c.isMethod(h) {
				if c.adds(h) {
					res := map[c21Origin]bool{}
					c.origins(call.Call.Args[0], map[ssa.Value]bool{}, res)
					bad := ""
					for o := range res {
						if o.kind != "set" {
							bad = "substitutions are added to those of the element"
						}
					}
					r.Check("passed on", name+": "+h.Name(), w.pos(call.Pos()), bad == "", bad)
				}
				continue
			}
			for _, a := range call.Call.Args {
				v := a
				if mi, ok := a.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if !c.isSubs(v.Type()) {
					continue
				}
				if h != nil && (h.Pkg == nil || !w.inScopeFn(h)) || types.IsInterface(a.Type()) && h != nil && typeName(h.Signature.Results()) == "" && !returnsOption(h) {
					continue // logs
				}
				calls++
				res := map[c21Origin]bool{}
				c.origins(v, map[ssa.Value]bool{}, res)
				target := "call"
				if h != nil {
					target = h.Name()
				}
				construct := name + ": " + target
				bad := ""
				sink := h != nil && returnsOption(h)
				if sink {
					sinks++
					k, ok := constString(call.Call.Args[0])
					switch {
					case !ok:
						bad = "the key under which the substitutions are given to the parser is not a constant"
					case key != "" && k != key:
						bad = fmt.Sprintf("the substitutions are given to the parser as %q, elsewhere as %q", k, key)
					default:
						key = k
					}
					if bad == "" && c.subsParam(outer) {
						bad = c.lastOption(call)
					}
				}
				for o := range res {
					switch {
					case bad != "":
					case o.kind == "unknown":
						bad = "the substitutions are not those of an element, as far as can be seen"
					case c.subsParam(outer) && o.kind != "param" && o.kind != "nil":
						bad = "other substitutions than the given ones are used"
					case o.kind == "of" && !sink:
						from := map[ssa.Value]map[string]bool{}
						for _, b := range call.Call.Args {
							if c.isContent(b.Type()) {
								c.taken(b, "", map[ssa.Value]bool{}, from)
							}
						}
						of := c.fromRoots(root(o.v))
						for v := range c.ofClosures(from) {
							if _, isConst := v.(*ssa.Const); !isConst && !of[root(v)] {
								bad = "the content of another element is parsed with the substitutions of this one"
							}
						}
					case o.kind == "set" && !sink && (h == nil || c.parses(h)):
						what := map[string]bool{}
						for _, b := range call.Call.Args {
							if c.isContent(b.Type()) {
								c.takenFrom(b, "", what, map[*ssa.Parameter]bool{})
							}
						}
						for k := range what {
							if k == "Elements" || k == "Term" {
								bad = "the contents of elements are parsed with other substitutions than theirs (`" + k + "`)"
							}
						}
					}
				}
				r.Check("passed on", construct, w.pos(call.Pos()), bad == "", bad)
			}
		}
	}
	r.Count("uses of substitutions", calls)
	r.Floor("options with substitutions", sinks, 1)
	c.parts()
	c.kept()
	c.predicate(key)
}

// parses: the function gives substitutions to the parser.
func (c *c21) parses(f *ssa.Function) bool {
	if c.parsing == nil {
		c.parsing = map[*ssa.Function]bool{}
		for _, g := range c.w.Funcs {
			for _, in := range instrs(g) {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !returnsOption(call.Call.StaticCallee()) {
					continue
				}
				for _, a := range call.Call.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok && c.isSubs(mi.X.Type()) {
						c.parsing[g] = true
					}
				}
			}
		}
	}
	for g := range c.w.reachable(f) {
		if c.parsing[g] {
			return true
		}
	}
	return false
}

func (c *c21) fromRoots(v ssa.Value) map[ssa.Value]bool {
	res := map[ssa.Value]bool{v: true}
	if p, ok := v.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			res[root(e)] = true
		}
	}
	return res
}

// takenFrom: what a content was taken as, through the callers.
func (c *c21) takenFrom(v ssa.Value, name string, what map[string]bool, seen map[*ssa.Parameter]bool) {
	res := map[ssa.Value]map[string]bool{}
	c.taken(v, name, map[ssa.Value]bool{}, res)
	for l, names := range res {
		for n := range names {
			p, ok := l.(*ssa.Parameter)
			if !ok || n != "" && !c.subsParam(p.Parent()) {
				what[n] = true
				continue
			}
			if seen[p] {
				continue
			}
			seen[p] = true
			idx := -1
			for i, q := range p.Parent().Params {
				if q == p {
					idx = i
				}
			}
			for _, site := range c.w.callers[p.Parent()] {
				if a, ok := argFor(site, p.Parent(), idx); ok {
					c.takenFrom(a, n, what, seen)
				}
			}
		}
	}
}

func returnsOption(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() == 1 && strings.HasSuffix(typeName(res.At(0).Type()), "parser.Option")
}

// lastOption: the option is appended to those of the caller, which do not replace it then.
func (c *c21) lastOption(call *ssa.Call) string {
	for _, ref := range refs(call) {
		st, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, s := range refs(ia.X) {
			sl, ok := s.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, u := range refs(sl) {
				if a, ok := u.(*ssa.Call); ok {
					if b, ok := a.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(a.Call.Args) == 2 && a.Call.Args[1] == sl {
						return ""
					}
				}
			}
			return "the substitutions are replaced by those of the other options"
		}
	}
	return "the option with the substitutions is not used"
}

// subsWith: an object with these substitutions.
func (c *c21) subsWith(x *absint, s *astate, name string, l []string) xval {
	var vals []xval
	for _, n := range l {
		vals = append(vals, xconst(strconv.Quote(n)))
	}
	s.mem[name+"."+c.seq] = x.newList(s, vals)
	return xval{k: 'O', s: name}
}

// namesOf: the substitutions of an object.
func (c *c21) namesOf(x *absint, s *astate, v xval) (map[string]bool, bool) {
	if v.k == 'C' { // nil
		return map[string]bool{}, true
	}
	f := s.load(v.s + "." + c.seq)
	l, ok := x.listElems(s, f)
	if !ok {
		return nil, f.k == 'C'
	}
	m := map[string]bool{}
	for _, e := range l {
		if e.k != 'C' {
			return nil, false
		}
		m[strings.Trim(e.s, `"`)] = true
	}
	return m, true
}

func (c *c21) interp() *absint {
	w := c.w
	x := &absint{w: w, lists: true, maxDepth: 30, limit: 20000, inline: func(g *ssa.Function) bool { return w.inScopeFn(g) && !w.isGenerated(g) }}
	x.call = x.xstrings
	return x
}

// adds: the method adds a given name.
func (c *c21) adds(h *ssa.Function) bool {
	p := h.Signature.Params()
	if p.Len() == 0 || p.At(0).Type().Underlying().String() != "string" {
		return false
	}
	adds := false
	x := c.interp()
	s := newAState()
	x.run(h, []xval{c.subsWith(x, s, "subs", []string{"quotes"}), xconst(`"macros"`)}, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		m, ok := c.namesOf(x, s, xval{k: 'O', s: "subs"})
		if !ok || m["macros"] {
			adds = true
		}
	})
	return adds
}

// parts: what is derived from substitutions has no others.
func (c *c21) parts() {
	lists := [][]string{c21All, {"callouts", "specialchars"}, {"quotes"}, {}, {"attributes", "quotes"}, {"quotes", "attributes"}, {"attributes"}, {"specialchars", "attributes", "macros"}, {"macros", "quotes", "attributes", "replacements"}}
	n := 0
	for _, h := range c.w.Funcs {
		if h.Parent() != nil || !c.isMethod(h) || h.Signature.Params().Len() > 0 || h.Signature.Results().Len() == 0 || !c.isSubs(h.Signature.Results().At(0).Type()) {
			continue
		}
		n++
		bad := ""
		for _, l := range lists {
			want := map[string]bool{}
			for _, k := range l {
				want[k] = true
			}
			x := c.interp()
			s := newAState()
			ends := 0
			x.run(h, []xval{c.subsWith(x, s, "subs", l)}, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
				ends++
				all := map[string]bool{}
				for i, v := range res {
					m, ok := c.namesOf(x, s, v)
					if !ok {
						bad = "what it returns is not known"
					}
					for k := range m {
						all[k] = true
						if !want[k] {
							bad = fmt.Sprintf("adds `%s`", k)
						}
					}
					if i == 0 && len(res) == 1 && len(m) != len(want) {
						bad = fmt.Sprintf("gives %v for %v", sortedKeys(m), l)
					}
				}
				if len(all) != len(want) {
					bad = fmt.Sprintf("gives %v for %v", sortedKeys(all), l)
				}
				if m, ok := c.namesOf(x, s, xval{k: 'O', s: "subs"}); !ok || len(m) != len(want) {
					bad = "alters the substitutions"
				}
			})
			if ends == 0 || x.over {
				bad = "not decided"
			}
		}
		c.r.Check("parts", h.Name(), c.w.pos(h.Pos()), bad == "", bad)
	}
	c.r.Count("functions which derive substitutions from others", n)
}

// predicate: what the guards of the grammar ask for.
func (c *c21) predicate(key string) {
	w := c.w
	cur := w.typ("pkg/parser", "current")
	var pred, set []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || cur == nil || w.isGenerated(f) || !types.Identical(deref(f.Signature.Recv().Type()), cur) {
			continue
		}
		p := f.Signature.Params()
		if f.Name() == "isSubstitutionEnabled" {
			pred = append(pred, f)
		}
		if p.Len() == 1 && c.isSubs(p.At(0).Type()) {
			set = append(set, f)
		}
	}
	if len(pred) != 1 || key == "" {
		c.r.Fail("predicate", "isSubstitutionEnabled", "", "no function tells which substitutions are enabled")
		return
	}
	names := append([]string{"callouts"}, c21All...)
	run := func(l []string, local, given bool, name string) (string, bool) {
		x := c.interp()
		s := newAState()
		s.mem["c.state"], s.mem["c.globalStore"] = xval{k: 'O', s: "state"}, xval{k: 'O', s: "store"}
		s.data["\x00map state"], s.data["\x00map store"] = "1", "1"
		v := c.subsWith(x, s, "subs", l)
		x.assume(s, v, types.NewPointer(c.subsT), true)
		other := c.subsWith(x, s, "other", nil)
		x.assume(s, other, types.NewPointer(c.subsT), true)
		s.data["\x00known subs"], s.data["\x00known other"] = "1", "1"
		k := fmt.Sprintf("[%q]", key)
		if local {
			s.mem["state"+k] = v
			s.mem["store"+k] = other
		} else if given {
			s.mem["store"+k] = v
		}
		got, n := "", 0
		x.run(pred[0], []xval{{k: 'O', s: "c"}, xconst(strconv.Quote(name))}, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			n++
			if len(res) == 1 {
				got = res[0].s
			}
		})
		return got, n == 1 && !x.over
	}
	bad := map[string]string{}
	n := 0
	for _, name := range names {
		for _, l := range [][]string{names, {name}, without(names, name), {}} {
			want := false
			for _, k := range l {
				want = want || k == name
			}
			for _, local := range []bool{false, true} {
				n++
				got, ok := run(l, local, true, name)
				if !ok || got != fmt.Sprint(want) {
					bad[name] = fmt.Sprintf("with %v, it is %v", l, got)
				}
			}
		}
		if got, ok := run(nil, false, false, name); !ok || got != "false" {
			bad[name] = "without any substitutions, it is " + got
		}
		c.r.Check("predicate", name, w.pos(pred[0].Pos()), bad[name] == "", bad[name])
	}
	c.r.Count("questions whether a substitution is enabled", n)
	for _, f := range set {
		x := c.interp()
		s := newAState()
		s.mem["c.state"] = xval{k: 'O', s: "state"}
		ok := true
		x.run(f, []xval{{k: 'O', s: "c"}, {k: 'O', s: "subs"}}, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			ok = ok && s.mem[fmt.Sprintf("state[%q]", key)].s == "subs"
		})
		c.r.Check("predicate", f.Name(), w.pos(f.Pos()), ok, fmt.Sprintf("does not store the substitutions as %q", key))
	}
}

func without(l []string, name string) []string {
	var res []string
	for _, k := range l {
		if k != name {
			res = append(res, k)
		}
	}
	return res
}

// kept: elements which were found already are kept when the content is parsed again without the substitution which
// would find them again.
func (c *c21) kept() {
	w := c.w
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !c.parses(f) || !c.subsParam(f) || c.isMethod(f) {
			continue
		}
		for _, in := range instrs(f) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			h := call.Call.StaticCallee()
			res := h.Signature.Results()
			if seen[h] || !w.inScopeFn(h) || w.isGenerated(h) || res.Len() == 0 || h.Signature.Recv() != nil || res.At(0).Type().String() != "[]byte" && res.At(0).Type().String() != "string" {
				continue
			}
			content := -1
			for i, p := range h.Params {
				if t := p.Type().Underlying().String(); t == "interface{}" || t == "any" || t == "[]interface{}" || t == "[]any" {
					content = i
				}
			}
			if content < 0 {
				continue
			}
			seen[h] = true
			for _, g := range sortedKeys(c21Groups) {
				for _, t := range c21Groups[g] {
					n++
					why := c.written(h, content, t, without(append([]string{"callouts"}, c21All...), g))
					c.r.Check("kept", h.Name()+": types."+t, w.pos(h.Pos()), why == "", why)
				}
			}
		}
	}
	c.r.Floor("elements of contents which are parsed again", n, 10)
}

// written: the element is replaced by some of its text.
func (c *c21) written(h *ssa.Function, content int, typ string, subs []string) string {
	w := c.w
	named := w.typ("pkg/types", typ)
	if named == nil {
		return "type types." + typ + " is not found"
	}
	bad := ""
	x := &absint{w: w, lists: true, maxDepth: 12, limit: 4000, inline: func(g *ssa.Function) bool {
		return w.inScopeFn(g) && !w.isGenerated(g) && (c.subsParam(g) || c.isMethod(g))
	}}
	x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
		if fn.fn != nil && strings.HasPrefix(fn.fn.Name(), "Write") {
			for _, a := range args {
				if strings.Contains(a.s, "element.") {
					bad = fmt.Sprintf("the element is replaced by its text, even if `%s` is not enabled", c.group["types."+typ])
				}
			}
		}
		return x.xstrings(f, s, in, fn, args)
	}
	s := newAState()
	el := xval{k: 'O', s: "element"}
	x.assume(s, el, types.NewPointer(named), true)
	s.data["\x00known element"] = "1"
	list := x.newList(s, []xval{el})
	x.assume(s, list, types.NewSlice(types.NewInterfaceType(nil, nil)), true)
	s.data["\x00known "+list.s] = "1"
	var args []xval
	for i, p := range h.Params {
		switch {
		case i == content:
			args = append(args, list)
		case c.isSubs(p.Type()):
			args = append(args, c.subsWith(x, s, "subs", subs))
		default:
			args = append(args, xterm("param "+p.Name()))
		}
	}
	n := 0
	x.run(h, args, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) { n++ })
	if n == 0 || x.over {
		return "not decided"
	}
	return bad
}
