package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The grammar, as it is compiled into the parser: the composite literal which describes its rules is read from the
// syntax tree, along with the functions of its actions and predicates.

type gexpr struct {
	kind     string // action, andCode, notCode, stateCode, and, not, any, class, choice, label, lit, star, plus, opt, ref, seq
	kids     []*gexpr
	name     string // ref: the rule; label
	val      string // lit
	fold     bool
	chars    []rune
	ranges   []rune
	classes  []string
	inverted bool
	run      *ssa.Function // the method of the context (the code of the grammar)
	pos      token.Pos
	at       string // place in the grammar
	rule     *grule
	up       *gexpr
}

type grule struct {
	name string
	expr *gexpr
	pos  token.Pos
}

type grammar struct {
	rules   map[string]*grule
	order   []*grule
	exprs   []*gexpr
	pkg     *ssa.Package
	unknown []string
}

func (w *World) grammar() *grammar {
	if w.gram != nil {
		return w.gram
	}
	g := &grammar{rules: map[string]*grule{}}
	w.gram = g
	for _, p := range w.Scope {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for _, v := range vs.Values {
						if u, ok := v.(*ast.UnaryExpr); ok {
							v = u.X
						}
						cl, ok := v.(*ast.CompositeLit)
						if !ok || typeName(p.TypesInfo.TypeOf(cl)) != p.Types.Name()+".grammar" {
							continue
						}
						g.pkg = w.SSA[p.PkgPath]
						g.load(w, p.TypesInfo, cl)
					}
				}
			}
		}
	}
	return g
}

func litField(cl *ast.CompositeLit, name string) ast.Expr {
	for _, e := range cl.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok && id.Name == name {
				return kv.Value
			}
		}
	}
	return nil
}

func unaddr(e ast.Expr) *ast.CompositeLit {
	if u, ok := e.(*ast.UnaryExpr); ok {
		e = u.X
	}
	cl, _ := e.(*ast.CompositeLit)
	return cl
}

func (g *grammar) load(w *World, info *types.Info, cl *ast.CompositeLit) {
	rules := unaddr(litField(cl, "rules"))
	if rules == nil {
		return
	}
	str := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		if tv := info.Types[e]; tv.Value != nil && tv.Value.Kind() == constant.String {
			return constant.StringVal(tv.Value)
		}
		return ""
	}
	runes := func(e ast.Expr) []rune {
		var res []rune
		if c := unaddr(e); c != nil {
			for _, x := range c.Elts {
				if tv := info.Types[x]; tv.Value != nil {
					n, _ := constant.Int64Val(tv.Value)
					res = append(res, rune(n))
				}
			}
		}
		return res
	}
	var expr func(r *grule, up *gexpr, e ast.Expr) *gexpr
	expr = func(r *grule, up *gexpr, e ast.Expr) *gexpr {
		c := unaddr(e)
		if c == nil {
			g.unknown = append(g.unknown, w.pos(e.Pos()))
			return &gexpr{kind: "unknown", rule: r, up: up, pos: e.Pos()}
		}
		n := typeName(info.TypeOf(c))
		n = n[strings.LastIndexByte(n, '.')+1:]
		x := &gexpr{pos: c.Pos(), rule: r, up: up}
		g.exprs = append(g.exprs, x)
		if p := unaddr(litField(c, "pos")); p != nil {
			if l, ok := litField(p, "line").(*ast.BasicLit); ok {
				x.at = "parser.peg:" + l.Value
			}
		}
		kid := func() { x.kids = append(x.kids, expr(r, x, litField(c, "expr"))) }
		list := func(f string) {
			if l := unaddr(litField(c, f)); l != nil {
				for _, k := range l.Elts {
					x.kids = append(x.kids, expr(r, x, k))
				}
			}
		}
		run := func() {
			if p, ok := litField(c, "run").(*ast.SelectorExpr); ok {
				if f, ok := info.Uses[p.Sel].(*types.Func); ok {
					x.run = g.code(w.Prog.FuncValue(f))
				}
			}
		}
		switch n {
		case "actionExpr":
			x.kind = "action"
			run()
			kid()
		case "andCodeExpr":
			x.kind = "andCode"
			run()
		case "notCodeExpr":
			x.kind = "notCode"
			run()
		case "stateCodeExpr":
			x.kind = "stateCode"
			run()
		case "andExpr":
			x.kind = "and"
			kid()
		case "notExpr":
			x.kind = "not"
			kid()
		case "anyMatcher":
			x.kind = "any"
		case "charClassMatcher":
			x.kind = "class"
			x.chars, x.ranges = runes(litField(c, "chars")), runes(litField(c, "ranges"))
			x.inverted = isTrue(litField(c, "inverted"))
			x.fold = isTrue(litField(c, "ignoreCase"))
			if l := unaddr(litField(c, "classes")); l != nil {
				for _, k := range l.Elts {
					if call, ok := k.(*ast.CallExpr); ok && len(call.Args) == 1 {
						x.classes = append(x.classes, str(call.Args[0]))
					}
				}
			}
		case "choiceExpr":
			x.kind = "choice"
			list("alternatives")
		case "labeledExpr":
			x.kind = "label"
			x.name = str(litField(c, "label"))
			kid()
		case "litMatcher":
			x.kind = "lit"
			x.val = str(litField(c, "val"))
			x.fold = isTrue(litField(c, "ignoreCase"))
		case "zeroOrMoreExpr":
			x.kind = "star"
			kid()
		case "oneOrMoreExpr":
			x.kind = "plus"
			kid()
		case "zeroOrOneExpr":
			x.kind = "opt"
			kid()
		case "ruleRefExpr":
			x.kind = "ref"
			x.name = str(litField(c, "name"))
		case "seqExpr":
			x.kind = "seq"
			list("exprs")
		default:
			x.kind = "unknown"
			g.unknown = append(g.unknown, n)
		}
		return x
	}
	for _, e := range rules.Elts {
		c := unaddr(e)
		if c == nil {
			continue
		}
		r := &grule{name: str(litField(c, "name")), pos: c.Pos()}
		r.expr = expr(r, nil, litField(c, "expr"))
		g.rules[r.name] = r
		g.order = append(g.order, r)
	}
}

func isTrue(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "true"
}

// code is the method with the code written in the grammar, which the given one calls with the values of the labels.
func (g *grammar) code(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if len(f.Params) > 0 && typeName(deref(f.Params[0].Type())) == g.pkg.Pkg.Name()+".current" {
		return f
	}
	for _, in := range instrs(f) {
		if c, ok := in.(*ssa.Call); ok {
			if h := c.Call.StaticCallee(); h != nil && len(h.Params) > 0 && typeName(deref(h.Params[0].Type())) == g.pkg.Pkg.Name()+".current" {
				return h
			}
		}
	}
	return f
}

// what names an expression: the rule, and the position in it is left out.
func (x *gexpr) where() string {
	if x.run != nil {
		return x.rule.name + " (" + strings.TrimLeft(x.run.Name(), "on") + ")"
	}
	return x.rule.name
}

// ---------------------------------------------------------------------------------------------
// Abstract matching of lines which start with known characters

// A place is what follows it: known characters, `…` for any characters of the line (possibly none), and nothing is
// known after the last line.
const (
	gFail = "fail"
	gRest = '…'
	gChar = '·' // any character of the line
)

// gplace is a place reached by the match, and what was made of the characters of each line: "", "text" or the name
// of what was made by an action.
type gplace struct {
	at string
	as [3]string
}

type lineMatcher struct {
	g     *grammar
	lines int                          // of the pattern
	makes func(f *ssa.Function) string // the kind of element made by an action which matters
	memo  map[*gexpr]map[string][]gplace
	busy  map[*gexpr]map[string]bool
	over  bool
}

func newLineMatcher(g *grammar, makes func(f *ssa.Function) string, lines int) *lineMatcher {
	return &lineMatcher{g: g, lines: lines, makes: makes, memo: map[*gexpr]map[string][]gplace{}, busy: map[*gexpr]map[string]bool{}}
}

func addPlace(l []gplace, p gplace) []gplace {
	for _, q := range l {
		if q == p {
			return l
		}
	}
	return append(l, p)
}

var failed = gplace{at: gFail}

// match returns where the match of the expression may end, starting at the given place.
func (m *lineMatcher) match(x *gexpr, at string) []gplace {
	if r, ok := m.memo[x][at]; ok {
		return r
	}
	if m.memo[x] == nil {
		m.memo[x] = map[string][]gplace{}
		m.busy[x] = map[string]bool{}
	}
	if m.busy[x][at] {
		return []gplace{failed} // left recursion
	}
	m.busy[x][at] = true
	var r []gplace
	if strings.HasPrefix(at, string(gRest)) {
		// either nothing or at least a character
		rest := strings.TrimPrefix(at, string(gRest))
		r = append(r, m.match(x, rest)...)
		for _, p := range m.match(x, string(gChar)+at) {
			r = addPlace(r, p)
		}
	} else {
		r = m.match1(x, at)
	}
	delete(m.busy[x], at)
	m.memo[x][at] = r
	return r
}

// text is a place reached by consuming a character of the line at the given place.
func (m *lineMatcher) text(at, next string) gplace {
	p := gplace{at: next}
	if l := m.lines - strings.Count(at, "\n"); at != "" && l < 3 {
		p.as[l] = "text"
	}
	return p
}

// one consumes a character accepted by the predicate; all, none: any character within a line
// is accepted, or none.
func (m *lineMatcher) one(at string, accepts func(c rune) bool, all, none bool) []gplace {
	if at == "" {
		return []gplace{{at: ""}, failed}
	}
	if strings.HasPrefix(at, string(gRest)) {
		var res []gplace
		for _, a := range []string{at[len(string(gRest)):], string(gChar) + at} {
			for _, p := range m.one(a, accepts, all, none) {
				res = addPlace(res, p)
			}
		}
		return res
	}
	c, rest := []rune(at)[0], string([]rune(at)[1:])
	switch {
	case c == gChar:
		if none {
			return []gplace{failed}
		}
		res := []gplace{m.text(at, rest)}
		if !all {
			res = append(res, failed)
		}
		return res
	case !accepts(c):
		return []gplace{failed}
	case c == '\n':
		return []gplace{{at: rest}}
	}
	return []gplace{m.text(at, rest)}
}

func (x *gexpr) accepts(c rune) bool {
	if x.kind == "any" {
		return true
	}
	in := false
	for _, k := range x.chars {
		in = in || k == c
	}
	for i := 0; i+1 < len(x.ranges); i += 2 {
		in = in || x.ranges[i] <= c && c <= x.ranges[i+1]
	}
	for _, k := range x.classes {
		switch {
		case strings.HasPrefix(k, "L"):
			in = in || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 127
		case strings.HasPrefix(k, "N"):
			in = in || c >= '0' && c <= '9' || c > 127
		default:
			in = true
		}
	}
	return in != x.inverted
}

// within: all characters within a line are accepted (as far as it can be told).
func (x *gexpr) within() bool {
	if x.kind == "any" {
		return true
	}
	if !x.inverted || len(x.ranges) > 0 || len(x.classes) > 0 {
		return false
	}
	for _, c := range x.chars {
		if c != '\n' && c != '\r' {
			return false
		}
	}
	return true
}

// newlines: no character within a line is accepted.
func (x *gexpr) newlines() bool {
	if x.kind != "class" || x.inverted || len(x.ranges) > 0 || len(x.classes) > 0 {
		return false
	}
	for _, c := range x.chars {
		if c != '\n' && c != '\r' {
			return false
		}
	}
	return true
}

func (m *lineMatcher) match1(x *gexpr, at string) []gplace {
	switch x.kind {
	case "any", "class":
		return m.one(at, x.accepts, x.within(), x.newlines())
	case "lit":
		cur := []gplace{{at: at}}
		for _, c := range x.val {
			c := c
			var next []gplace
			for _, p := range cur {
				if p.at == gFail {
					next = addPlace(next, p)
					continue
				}
				for _, q := range m.one(p.at, func(d rune) bool { return d == c }, false, c == '\n' || c == '\r') {
					next = addPlace(next, m.then(p, q))
				}
			}
			cur = next
		}
		return cur
	case "ref":
		r := m.g.rules[x.name]
		if r == nil {
			return []gplace{failed}
		}
		return m.match(r.expr, at)
	case "label":
		res := m.match(x.kids[0], at)
		if m.withinLine(x) {
			var l []gplace
			for _, p := range res {
				if p.at != gFail && strings.Count(p.at, "\n") < strings.Count(at, "\n") {
					p = failed
				}
				l = addPlace(l, p)
			}
			return l
		}
		return res
	case "action":
		res := m.match(x.kids[0], at)
		if k := m.makes(x.run); k != "" {
			var l []gplace
			for _, p := range res {
				for i := range p.as {
					if p.as[i] == "text" || k == "comment" && p.as[i] != "" {
						p.as[i] = k
					}
				}
				l = addPlace(l, p)
			}
			return l
		}
		return res
	case "andCode", "notCode":
		if v := constResult(x.run); v != "" {
			if (v == "true") == (x.kind == "andCode") {
				return []gplace{{at: at}}
			}
			return []gplace{failed}
		}
		return []gplace{{at: at}, failed}
	case "stateCode":
		return []gplace{{at: at}}
	case "and", "not":
		yes, no := false, false
		for _, p := range m.match(x.kids[0], at) {
			if p.at == gFail {
				no = true
			} else {
				yes = true
			}
		}
		if x.kind == "not" {
			yes, no = no, yes
		}
		var res []gplace
		if yes {
			res = append(res, gplace{at: at})
		}
		if no {
			res = append(res, failed)
		}
		return res
	case "choice":
		var res []gplace
		for _, k := range x.kids {
			fail := false
			for _, p := range m.match(k, at) {
				if p.at == gFail {
					fail = true
				} else {
					res = addPlace(res, p)
				}
			}
			if !fail {
				return res
			}
		}
		return addPlace(res, failed)
	case "opt":
		var res []gplace
		for _, p := range m.match(x.kids[0], at) {
			if p.at == gFail {
				p = gplace{at: at}
			}
			res = addPlace(res, p)
		}
		return res
	case "seq":
		cur := []gplace{{at: at}}
		for _, k := range x.kids {
			var next []gplace
			for _, p := range cur {
				if p.at == gFail {
					next = addPlace(next, p)
					continue
				}
				for _, q := range m.match(k, p.at) {
					next = addPlace(next, m.then(p, q))
				}
			}
			cur = next
		}
		return cur
	case "star", "plus":
		// the places reached after each iteration; the repetition ends where the next one may fail
		var res []gplace
		seen := map[gplace]bool{}
		work := []gplace{{at: at}}
		for n := 0; len(work) > 0; n++ {
			if n > 2000 {
				m.over = true
				break
			}
			p := work[0]
			work = work[1:]
			if seen[p] {
				continue
			}
			seen[p] = true
			if strings.HasPrefix(p.at, string(gRest)) {
				work = append(work, gplace{strings.TrimPrefix(p.at, string(gRest)), p.as}, gplace{string(gChar) + p.at, p.as})
				continue
			}
			for _, q := range m.match(x.kids[0], p.at) {
				if q.at == gFail {
					if n == 0 && x.kind == "plus" {
						res = addPlace(res, failed)
					} else {
						res = addPlace(res, p)
					}
					continue
				}
				if q.at == p.at && q.as == [3]string{} {
					continue // nothing is known to be consumed
				}
				work = append(work, m.then(p, q))
			}
		}
		if at == "" {
			res = addPlace(res, gplace{at: at})
		}
		if len(res) == 0 {
			res = []gplace{failed}
		}
		return res
	}
	m.over = true
	return []gplace{{at: at}, failed}
}

// withinLine: the action under the label gives nil when the match is on several lines, and the predicate which
// follows rejects it.
func (m *lineMatcher) withinLine(x *gexpr) bool {
	if x.up == nil || x.up.kind != "seq" {
		return false
	}
	k := x.kids[0]
	for k.kind == "ref" && m.g.rules[k.name] != nil {
		k = m.g.rules[k.name].expr
	}
	if k.kind != "action" || !nilOnNewline(k.run) {
		return false
	}
	for i, s := range x.up.kids {
		if s == x && i+1 < len(x.up.kids) {
			n := x.up.kids[i+1]
			return n.kind == "andCode" && n.run != nil && returnsNotNil(n.run)
		}
	}
	return false
}

// nilOnNewline: the function returns nil if the text which was matched contains a new line.
func nilOnNewline(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	onNewline := func(b *ssa.BasicBlock) bool {
		for _, c := range factsAt(b) {
			c = c.norm()
			if call, ok := c.v.(*ssa.Call); ok && c.val && call.Call.StaticCallee() != nil && strings.HasPrefix(call.Call.StaticCallee().Name(), "Contains") {
				for _, a := range call.Call.Args {
					if s, ok := constString(a); ok && strings.Contains(s, "\n") {
						return true
					}
				}
			}
		}
		return false
	}
	for _, in := range instrs(f) {
		switch in := in.(type) {
		case *ssa.Return:
			if len(in.Results) > 0 && isNilConst(in.Results[0]) && onNewline(in.Block()) {
				return true
			}
			if len(in.Results) > 0 {
				if phi, ok := in.Results[0].(*ssa.Phi); ok {
					for i, e := range phi.Edges {
						if isNilConst(e) && onNewline(in.Block().Preds[i]) {
							return true
						}
					}
				}
				if c, ok := in.Results[0].(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee() != f && nilOnNewline(c.Call.StaticCallee()) {
					return true
				}
			}
		}
	}
	return false
}

// returnsNotNil: the predicate returns whether its label has a value.
func returnsNotNil(f *ssa.Function) bool {
	for _, in := range instrs(f) {
		if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 {
			b, ok := r.Results[0].(*ssa.BinOp)
			if !ok || b.Op != token.NEQ {
				return false
			}
			_, p := b.X.(*ssa.Parameter)
			_, q := b.Y.(*ssa.Parameter)
			if !(p && isNilConst(b.Y) || q && isNilConst(b.X)) {
				return false
			}
		}
	}
	return true
}

// then is the place reached by a match which follows another one.
func (m *lineMatcher) then(p, q gplace) gplace {
	if q.at == gFail {
		return failed
	}
	for i := range q.as {
		q.as[i] = madeOf(p.as[i], q.as[i])
	}
	return q
}

// madeOf: what was made of the characters consumed by two expressions in sequence.
func madeOf(a, b string) string {
	switch {
	case a == "" || a == b:
		return b
	case b == "":
		return a
	}
	set := map[string]bool{}
	for _, k := range strings.Split(a+"+"+b, "+") {
		set[k] = true
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

func (x *gexpr) line() string {
	return x.at + " rule " + strconv.Quote(x.rule.name)
}

// constResult is the constant returned by the predicate on all paths ("" if there is none).
func constResult(f *ssa.Function) string {
	res := ""
	if f == nil || len(f.Blocks) == 0 {
		return ""
	}
	for _, in := range instrs(f) {
		r, ok := in.(*ssa.Return)
		if !ok {
			continue
		}
		if len(r.Results) == 0 {
			return ""
		}
		v := ""
		switch k := r.Results[0].(type) {
		case *ssa.Const:
			if k.Value != nil {
				v = k.Value.ExactString()
			}
		case *ssa.Extract:
			if c, ok := k.Tuple.(*ssa.Call); ok && k.Index == 0 && c.Call.StaticCallee() != nil && c.Call.StaticCallee() != f {
				v = constResult(c.Call.StaticCallee())
			}
		case *ssa.Call:
			if c := k.Call.StaticCallee(); c != nil && c != f {
				v = constResult(c)
			}
		}
		if v == "" || res != "" && v != res {
			return ""
		}
		res = v
	}
	return res
}
