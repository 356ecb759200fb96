package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: comments never reach the output.

func init() {
	register(&checkDef{id: "C24", title: "Comments never reach the output", run: runC24,
		explanation: "The grammar is read from the compiled parser, and for each entry rule which can produce comments the ways in which it may consume a comment line - alone, after any other line, after any two other lines - are computed with abstract matching of line patterns: the line ends in a comment, in the verbatim content of a delimited block, in front matter or in the continued value of an attribute, never in the text of another element. A comment block ends only at a delimiter which a predicate compares with the one which opened it. The filter stage is interpreted for a fragment with a comment (line or block) at the top level, in each type of container, and in each type of container within each other: no comment is left in the fragment it returns, whatever the dynamic type of its neighbours. The elements which replace the placeholders of a substituted paragraph are returned only when all comments are found among them, else the content is substituted again without them. The filter comes after the stages which parse. Nothing but constructors and filters reads the content of comments.",
		assumptions: []string{"predicates of the grammar other than constants and line limits may go either way"}})
}

func runC24(w *World, r *Report) {
	w.buildCallGraph()
	c24Grammar(w, r)
	c24Blocks(w, r)
	c24Filter(w, r)
	c24Placeholders(w, r)
	c24Readers(w, r)
	c04Order(w, r, w.newPipeline())
}

// entryRules: the rules which the library starts parsing with.
func (w *World) entryRules(g *grammar) []*grule {
	found := map[string]bool{}
	for _, f := range w.libraryFuncs() {
		if w.isGenerated(f) && f.Name() == "Entrypoint" {
			continue
		}
		for _, in := range instrs(f) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().Name() != "Entrypoint" || len(c.Common().Args) != 1 {
				continue
			}
			if s, ok := constString(c.Common().Args[0]); ok {
				found[s] = true
			}
		}
	}
	var l []*grule
	for _, r := range g.order {
		if found[r.name] {
			l = append(l, r)
		}
	}
	return l
}

// rulesFrom: the expressions reachable from an expression.
func (g *grammar) exprsFrom(x *gexpr) []*gexpr {
	seen := map[*gexpr]bool{}
	var l []*gexpr
	var walk func(x *gexpr)
	walk = func(x *gexpr) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		l = append(l, x)
		for _, k := range x.kids {
			walk(k)
		}
		if x.kind == "ref" {
			if r := g.rules[x.name]; r != nil {
				walk(r.expr)
			}
		}
	}
	walk(x)
	return l
}

func c24Grammar(w *World, r *Report) {
	g := w.grammar()
	if len(g.unknown) > 0 {
		r.Fail("grammar", "grammar", "", "the compiled grammar has expressions which are not understood: "+strings.Join(g.unknown, ", "))
		return
	}
	maker := commentMaker(w)
	entries := 0
	verbatim := func(tag string) bool {
		for _, t := range strings.Split(tag, "+") {
			switch {
			case t == "comment" || t == "front matter" || t == "attribute":
			case strings.HasSuffix(t, " block") && t != "markdown-quote block":
			default:
				return false
			}
		}
		return true
	}
	for _, e := range w.entryRules(g) {
		lines := false
		for _, x := range g.exprsFrom(e.expr) {
			if x.run != nil && maker(g.code(x.run)) == "comment" {
				lines = true
			}
		}
		if !lines {
			continue
		}
		entries++
		for i, pat := range []string{"// …\n", "…\n// …\n", "…\n…\n// …\n", "//a…\n", "…\n//a…\n"} {
			n := i % 3
			m := newLineMatcher(g, maker, n+1)
			bad := map[string]bool{}
			comment := false
			for _, p := range m.match(e.expr, pat) {
				tag := p.as[n]
				switch {
				case p.at == gFail || tag == "":
				case tag == "comment":
					comment = true
				case !verbatim(tag):
					bad[strings.Join(p.as[:n+1], " / ")] = true
				}
			}
			what := []string{"the first line", "after a line", "after two lines"}[n]
			if i > 2 {
				what += ", without a space"
			}
			key := e.name + ": " + what
			switch {
			case m.over:
				r.Fail("comment-line", key, e.expr.line(), "the matching of comment lines with rule "+e.name+" is not decided")
			case len(bad) > 0:
				r.Fail("comment-line", key, e.expr.line(), fmt.Sprintf("rule %s may take a comment line (%s) as something else: the lines end in %s", e.name, what, strings.Join(sortedKeys(bad), "; ")))
			case !comment:
				r.Fail("comment-line", key, e.expr.line(), fmt.Sprintf("rule %s never takes a comment line (%s) as a comment", e.name, what))
			default:
				r.OK("comment-line", key, e.expr.line(), fmt.Sprintf("rule %s takes a comment line (%s) as a comment or as verbatim content", e.name, what))
			}
		}
	}
	r.Floor("entry rules which produce comments", entries, 1)
}

// flat lists the alternatives of an expression.
func (g *grammar) flat(x *gexpr, depth int) []*gexpr {
	if depth > 8 {
		return []*gexpr{x}
	}
	switch x.kind {
	case "choice":
		var l []*gexpr
		for _, k := range x.kids {
			l = append(l, g.flat(k, depth+1)...)
		}
		return l
	case "ref":
		if r := g.rules[x.name]; r != nil {
			return g.flat(r.expr, depth+1)
		}
	case "action", "label":
		if l := g.flat(x.kids[0], depth+1); len(l) > 1 {
			return l
		}
	}
	return []*gexpr{x}
}

// parts lists what an expression matches in sequence, with the rules it refers to expanded.
func (g *grammar) parts(x *gexpr, depth int) []*gexpr {
	if depth > 8 {
		return []*gexpr{x}
	}
	switch x.kind {
	case "seq":
		var l []*gexpr
		for _, k := range x.kids {
			l = append(l, g.parts(k, depth+1)...)
		}
		return l
	case "ref":
		if r := g.rules[x.name]; r != nil {
			return g.parts(r.expr, depth+1)
		}
	case "action", "label":
		return g.parts(x.kids[0], depth+1)
	}
	return []*gexpr{x}
}

// stateKeys: the keys of the state which the code writes, or compares with something.
func stateKeys(f *ssa.Function, write bool, depth int, keys map[string]bool) {
	if f == nil || depth > 3 {
		return
	}
	for _, in := range instrs(f) {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			if s, ok := constString(stripConv(in.Key)); ok && write {
				keys[s] = true
			}
		case *ssa.BinOp:
			if write || in.Op.String() != "==" && in.Op.String() != "!=" {
				continue
			}
			for _, v := range []ssa.Value{in.X, in.Y} {
				for i := 0; i < 6; i++ {
					v = stripConv(v)
					switch u := v.(type) {
					case *ssa.Extract:
						v = u.Tuple
					case *ssa.TypeAssert:
						v = u.X
					case *ssa.Lookup:
						if s, ok := constString(stripConv(u.Index)); ok {
							keys[s] = true
						}
					}
				}
			}
		case ssa.CallInstruction:
			if c := in.Common().StaticCallee(); c != nil && c.Pkg == f.Pkg {
				stateKeys(c, write, depth+1, keys)
			}
		}
	}
}

// c24Blocks: comment blocks end at the delimiter which matches the one which opened them.
func c24Blocks(w *World, r *Report) {
	g := w.grammar()
	maker := commentMaker(w)
	delimiter := func(x *gexpr) bool {
		for _, y := range g.exprsFrom(x) {
			if y.run != nil && maker(g.code(y.run)) == "comment delimiter" {
				return true
			}
		}
		return false
	}
	blocks := 0
	for _, x := range g.exprs {
		if x.kind != "action" || x.run == nil || maker(g.code(x.run)) != "comment block" {
			continue
		}
		blocks++
		name := x.rule.name
		if len(g.flat(x, 0)) != 1 {
			r.Fail("comment-block", name, x.line(), "the rule of comment blocks has several forms, which are not understood")
			continue
		}
		set := map[string]bool{}
		ends := 0
		bad := ""
		opened := false
		for _, p := range g.parts(x, 0) {
			switch p.kind {
			case "andCode", "stateCode":
				stateKeys(g.code(p.run), true, 0, set)
			case "star", "plus", "opt":
				if !opened || p.kind == "opt" {
					opened = opened || delimiter(p)
					continue
				}
				for _, y := range g.exprsFrom(p) {
					if y.kind != "not" || !delimiter(y) {
						continue
					}
					ends++
					for _, alt := range g.flat(y.kids[0], 0) {
						if !delimiter(alt) {
							continue
						}
						keys := map[string]bool{}
						for _, q := range g.parts(alt, 0) {
							if q.kind == "andCode" {
								stateKeys(g.code(q.run), false, 0, keys)
							}
						}
						ok := false
						for k := range keys {
							ok = ok || set[k]
						}
						if !ok {
							bad = alt.line()
						}
					}
				}
			default:
				opened = true // the opening delimiter
			}
		}
		switch {
		case bad != "":
			r.Fail("comment-block", name, bad, "a comment block is closed by any delimiter of comment blocks, not only by one which matches the one it was opened with: the rest of its content reaches the output")
		case ends == 0:
			r.Fail("comment-block", name, x.line(), "the lines of the comment block are not limited by a delimiter")
		default:
			r.OK("comment-block", name, x.line(), "the content ends at a delimiter compared with the opening one: "+strings.Join(sortedKeys(set), ", "))
		}
	}
	r.Floor("rules of comment blocks", blocks, 1)
}

type c24Run struct {
	w *World
	x *absint
	n int
}

// object makes an abstract value with the given dynamic type, whose content holds a comment.
func (c *c24Run) object(s *astate, t types.Type, content func() []xval, depth int) (xval, bool) {
	c.n++
	o := xval{k: 'O', s: fmt.Sprintf("obj%d", c.n)}
	c.x.assume(s, o, t, true)
	placed := c.place(s, o.s, t, content, depth)
	return o, placed
}

// place puts the content where the methods which give access to the elements look for it.
func (c *c24Run) place(s *astate, addr string, t types.Type, content func() []xval, depth int) bool {
	if depth > 4 {
		return false
	}
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	read := map[string]bool{}
	if get := c.w.methodOf(t, "GetElements"); get != nil {
		for _, f := range append([]*ssa.Function{get}, get.AnonFuncs...) {
			for _, in := range instrs(f) {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if types.Identical(deref(in.X.Type()), deref(t)) || embeds(deref(t), deref(in.X.Type())) {
						read[xfield(in)] = true
					}
				}
			}
		}
	}
	placed := false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		a := addr + "." + f.Name()
		if f.Name() == "Kind" && typeName(deref(t)) == "types.DelimitedBlock" {
			s.mem[a] = xconst("\"example\"")
		}
		if f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok && c.place(s, a, f.Type(), content, depth+1) {
				placed = true
			}
			if p, ok := f.Type().Underlying().(*types.Pointer); ok {
				c.n++
				o := xval{k: 'O', s: fmt.Sprintf("obj%d", c.n)}
				if c.place(s, o.s, p, content, depth+1) {
					s.mem[a] = o
					placed = true
				}
			}
			continue
		}
		if !read[f.Name()] {
			continue
		}
		sl, ok := f.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		switch e := sl.Elem().Underlying().(type) {
		case *types.Interface:
			if e.Empty() {
				s.mem[a] = c.x.newList(s, content())
				placed = true
				continue
			}
			var l []xval
			for _, t := range c.w.implementers(e) {
				if o, ok := c.object(s, t, content, depth+1); ok {
					l = append(l, o)
				}
			}
			s.mem[a] = c.x.newList(s, l)
			placed = placed || len(l) > 0
		case *types.Pointer:
			o, ok := c.object(s, sl.Elem(), content, depth+1)
			if ok {
				s.mem[a] = c.x.newList(s, []xval{o})
				placed = true
			}
		}
	}
	return placed
}

func embeds(t, u types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() && types.Identical(deref(f.Type()), u) {
			return true
		}
	}
	return false
}

// methodOf: a method of a type.
func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	if n, ok := deref(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	sel := w.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return w.Prog.MethodValue(sel)
}

// implementers: the pointer types of the library which implement an interface.
func (w *World) implementers(i *types.Interface) []types.Type {
	var l []types.Type
	for _, p := range w.Scope {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, ok := t.Underlying().(*types.Struct); !ok {
				continue
			}
			if pt := types.NewPointer(t); types.Implements(pt, i) {
				l = append(l, pt)
			}
		}
	}
	return l
}

// holds: whether the comment is in what is reachable from the list.
func (c *c24Run) holds(s *astate, v xval, comment string, depth int) (found bool, why string) {
	if v.s == comment {
		return true, ""
	}
	if depth > 40 {
		return false, "too deep"
	}
	if v.k == 'C' {
		return false, ""
	}
	if l, ok := c.x.listElems(s, v); ok {
		for _, e := range l {
			if f, y := c.holds(s, e, comment, depth+1); f || y != "" {
				return f, y
			}
		}
		return false, ""
	}
	if v.k == 'O' || v.k == 'S' {
		for k, e := range s.mem {
			if strings.HasPrefix(k, v.s+".") {
				if e.k == 'T' {
					if _, ok := s.data["\x00place "+k]; ok {
						return false, "the content of " + k + " is not known"
					}
					continue
				}
				if f, y := c.holds(s, e, comment, depth+1); f || y != "" {
					return f, y
				}
			}
		}
		return false, ""
	}
	if v.s == "before" || v.s == "after" {
		return false, ""
	}
	return false, "the elements which are returned are not known: " + v.s
}

// globalInits gives the variables of the packages which are functions or slices of them their initial values.
func (c *c24Run) globalInits(s *astate, pkgs map[*ssa.Package]bool) {
	var eval func(v ssa.Value, depth int) (xval, bool)
	stored := map[*ssa.Global][]*ssa.Store{}
	for p := range pkgs {
		if p == nil || p.Func("init") == nil {
			continue
		}
		for _, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, in := range instrs(f) {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stored[g] = append(stored[g], st)
					}
				}
			}
		}
	}
	eval = func(v ssa.Value, depth int) (xval, bool) {
		if depth > 6 {
			return xval{}, false
		}
		switch v := v.(type) {
		case *ssa.Function:
			return xval{k: 'F', s: fnName(v), fn: v}, true
		case *ssa.ChangeType:
			return eval(v.X, depth+1)
		case *ssa.MakeClosure:
			if len(v.Bindings) == 0 {
				return eval(v.Fn, depth+1)
			}
		case *ssa.UnOp:
			if g, ok := v.X.(*ssa.Global); ok && len(stored[g]) == 1 {
				return eval(stored[g][0].Val, depth+1)
			}
		case *ssa.Slice:
			a, ok := v.X.(*ssa.Alloc)
			if !ok || v.Low != nil || v.High != nil {
				return xval{}, false
			}
			arr, ok := deref(a.Type()).Underlying().(*types.Array)
			if !ok {
				return xval{}, false
			}
			l := make([]xval, arr.Len())
			for _, ref := range refs(a) {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, ok := ia.Index.(*ssa.Const)
				if !ok {
					return xval{}, false
				}
				for _, q := range refs(ia) {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
						if e, ok := eval(st.Val, depth+1); ok {
							l[i.Int64()] = e
						}
					}
				}
			}
			for i := range l {
				if l[i].k == 0 {
					l[i] = xterm(fmt.Sprintf("%s[%d]", v.Name(), i))
				}
			}
			return c.x.newList(s, l), true
		}
		return xval{}, false
	}
	var gs []*ssa.Global
	for g := range stored {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		if len(stored[g]) != 1 {
			continue
		}
		t := deref(g.Type()).Underlying()
		if sl, ok := t.(*types.Slice); ok {
			t = sl.Elem().Underlying()
		}
		if _, ok := t.(*types.Signature); !ok {
			continue
		}
		if v, ok := eval(stored[g][0].Val, 0); ok {
			s.mem["global "+g.Name()] = v
		}
	}
}

// stageFunctions: the functions of the stages which make a fragment of a fragment, with the calls in the stages.
func (w *World) stageFunctions() map[*ssa.Function][]*ssa.Call {
	res := map[*ssa.Function][]*ssa.Call{}
	isFragment := func(t types.Type) bool { return typeName(deref(t)) == "types.DocumentFragment" }
	for _, f := range w.libraryFuncs() {
		if f.Parent() == nil || w.isGenerated(f) {
			continue
		}
		for _, in := range instrs(f) {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !w.inScopeFn(g) || g.Signature.Results().Len() != 1 || !isFragment(g.Signature.Results().At(0).Type()) {
				continue
			}
			for _, a := range c.Call.Args {
				if isFragment(a.Type()) {
					res[g] = append(res[g], c)
					break
				}
			}
		}
	}
	return res
}

func c24Filter(w *World, r *Report) {
	var containers []types.Type
	if n := w.typ("pkg/types", "WithElements"); n != nil {
		containers = w.implementers(n.Underlying().(*types.Interface))
	}
	r.Floor("types of containers", len(containers), 5)
	line, block, text := w.typ("pkg/types", "SinglelineComment"), w.typ("pkg/types", "DelimitedBlock"), w.typ("pkg/types", "StringElement")
	if line == nil || block == nil || text == nil {
		r.Fail("filter", "types", "", "the types of comments are not found")
		return
	}
	type scenario struct {
		name string
		path []types.Type
		line bool
	}
	kind := func(l bool) string {
		if l {
			return "line"
		}
		return "block"
	}
	limit := 4000
	try := func(call *ssa.Call, g *ssa.Function, sc scenario) string {
		c := &c24Run{w: w}
		bad := ""
		c.x = &absint{w: w, lists: true, maxDepth: 40, limit: limit,
			inline: func(g *ssa.Function) bool { return w.inScopeFn(g) && !w.isGenerated(g) }}
		s := newAState()
		c.globalInits(s, map[*ssa.Package]bool{g.Pkg: true})
		comment := xval{k: 'O', s: "comment"}
		other := xval{k: 'O', s: "other"}
		c.x.assume(s, other, types.NewPointer(text), true)
		s.mem["other.Content"] = xconst("\"text\"")
		if sc.line {
			c.x.assume(s, comment, types.NewPointer(line), true)
		} else {
			c.x.assume(s, comment, types.NewPointer(block), true)
			s.mem["comment.Kind"] = xconst("\"comment\"")
			s.mem["comment.Elements"] = c.x.newList(s, []xval{other})
		}
		var build func(path []types.Type) []xval
		build = func(path []types.Type) []xval {
			if len(path) == 0 {
				if len(sc.path) == 0 {
					return []xval{xterm("before"), comment, xterm("after")}
				}
				return []xval{other, comment, other}
			}
			o, ok := c.object(s, path[0], func() []xval { return build(path[1:]) }, 0)
			if !ok {
				bad = "not placed"
			}
			return []xval{o}
		}
		elements := c.x.newList(s, build(sc.path))
		if bad != "" {
			return ""
		}
		for k, v := range s.mem {
			if v.k == 'O' && strings.HasPrefix(k, "obj") {
				s.data["\x00place "+k] = "1"
			}
		}
		s.mem["frag.Elements"] = elements
		s.mem["frag.Error"] = xconst("nil")
		var args []xval
		f := &aframe{id: 0, fn: call.Parent(), env: map[ssa.Value]xval{}}
		for _, a := range call.Call.Args {
			switch {
			case typeName(a.Type()) == "types.DocumentFragment":
				args = append(args, xval{k: 'S', s: "frag"})
			default:
				if u, ok := a.(*ssa.UnOp); ok {
					if gl, ok := u.X.(*ssa.Global); ok {
						if v, ok := s.mem["global "+gl.Name()]; ok {
							args = append(args, v)
							continue
						}
					}
				}
				if sl, ok := a.(*ssa.Slice); ok {
					args = append(args, c.variadic(s, sl))
					continue
				}
				args = append(args, c.x.val(f, a))
			}
		}
		n := 0
		c.x.run(g, args, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			n++
			if bad != "" || len(res) != 1 {
				return
			}
			v := res[0]
			var found bool
			var why string
			if v.k == 'S' || v.k == 'O' {
				e := s.load(v.s + ".Elements")
				if l, ok := s.link[v.s]; ok && e.k == 'T' {
					e = s.load(l + ".Elements")
				}
				found, why = c.holds(s, e, "comment", 0)
			} else {
				why = "the fragment which is returned is not known"
			}
			if found {
				bad = "the comment is in the elements which " + fnName(g) + " returns (" + w.pos(ret.Pos()) + ")"
			} else if why != "" {
				bad = "it is not known whether the comment is removed: " + why
			}
		})
		if c.x.over {
			return "not decided within the limit"
		}
		if n == 0 {
			return "no path of " + fnName(g) + " returns"
		}
		return bad
	}
	// the stage which filters
	stages := w.stageFunctions()
	var fns []*ssa.Function
	for g := range stages {
		fns = append(fns, g)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	filters := 0
	var best []*ssa.Function
	for _, g := range fns {
		if g.Pkg != w.SSA[pkgPath("pkg/parser")] {
			continue
		}
		drops := false
		for _, call := range stages[g] {
			if try(call, g, scenario{line: true}) == "" || try(call, g, scenario{line: false}) == "" {
				drops = true
			}
		}
		if !drops {
			continue
		}
		best = append(best, g)
	}
	limit = 200000
	for _, g := range best {
		filters++
		for _, call := range stages[g] {
			var scs []scenario
			for _, l := range []bool{true, false} {
				scs = append(scs, scenario{"at the top level", nil, l})
				for _, a := range containers {
					scs = append(scs, scenario{"in " + typeName(deref(a)), []types.Type{a}, l})
				}
			}
			bad := map[string]bool{}
			report := func(sc scenario) bool {
				why := try(call, g, sc)
				r.Check("filter", kind(sc.line)+" comment "+sc.name, w.pos(call.Pos()), why == "", why)
				r.Count("filter scenarios", 1)
				return why == ""
			}
			for _, sc := range scs {
				if !report(sc) && len(sc.path) == 1 {
					bad[sc.path[0].String()] = true
				}
			}
			for _, a := range containers {
				for _, b := range containers {
					if bad[a.String()] || bad[b.String()] {
						continue // already reported
					}
					for _, l := range []bool{true, false} {
						sc := scenario{"in " + typeName(deref(b)) + " in " + typeName(deref(a)), []types.Type{a, b}, l}
						if why := try(call, g, sc); why != "" {
							r.Fail("filter", kind(l)+" comment "+sc.name, w.pos(call.Pos()), why)
						}
						r.Count("filter scenarios", 1)
					}
				}
			}
		}
	}
	if filters == 0 {
		r.Fail("filter", "stage", "", "no stage of the parser removes the comments of a fragment")
	}
}

func (c *c24Run) variadic(s *astate, v *ssa.Slice) xval {
	a, ok := v.X.(*ssa.Alloc)
	if !ok {
		return xterm("args " + v.Name())
	}
	arr, ok := deref(a.Type()).Underlying().(*types.Array)
	if !ok {
		return xterm("args " + v.Name())
	}
	l := make([]xval, arr.Len())
	for i := range l {
		l[i] = xterm(fmt.Sprintf("%s[%d]", v.Name(), i))
	}
	for _, ref := range refs(a) {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, q := range refs(ia) {
			st, ok := q.(*ssa.Store)
			if !ok || st.Addr != ia {
				continue
			}
			switch e := st.Val.(type) {
			case *ssa.Function:
				l[i.Int64()] = xval{k: 'F', s: fnName(e), fn: e}
			case *ssa.UnOp:
				if g, ok := e.X.(*ssa.Global); ok {
					if x, ok := s.mem["global "+g.Name()]; ok {
						l[i.Int64()] = x
					}
				}
			}
		}
	}
	return c.x.newList(s, l)
}

// c24Placeholders: comments within inline elements are not restored there.
func c24Placeholders(w *World, r *Report) {
	n := 0
	g := w.grammar()
	makes := map[string]bool{}
	maker := commentMaker(w)
	for _, e := range w.entryRules(g) {
		for _, x := range g.exprsFrom(e.expr) {
			if x.run != nil && maker(g.code(x.run)) == "comment" {
				makes[e.name] = true
			}
		}
	}
	for _, f := range w.libraryFuncs() {
		if w.isGenerated(f) {
			continue
		}
		for _, in := range instrs(f) {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g.Signature.Recv() == nil || !restoresPlaceholders(g) || f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), g.Signature.Recv().Type()) {
				continue
			}
			entries := map[string]bool{}
			w.entriesOf(f, 0, entries)
			lines := len(entries) > 0
			for e := range entries {
				lines = lines && makes[e]
			}
			if lines {
				continue // the elements which are parsed are blocks: the filter looks for comments there
			}
			n++
			ok = false
			for _, fc := range factsAt(c.Block()) {
				v, val := fc.v, fc.val
				if u, isNot := v.(*ssa.UnOp); isNot {
					v, val = u.X, !val
				}
				if t, isCall := v.(*ssa.Call); isCall && val && countsComments(t.Call.StaticCallee()) {
					ok = true
				}
			}
			r.Check("placeholders", fnName(f), w.pos(c.Pos()), ok, "the placeholders are replaced without knowing that no comment is within an inline element: the filter does not look for comments there")
		}
	}
	r.Floor("places where placeholders are replaced", n, 1)
}

// entriesOf: the entry rules given to the parser in a function, or else in those which call it.
func (w *World) entriesOf(f *ssa.Function, depth int, res map[string]bool) {
	n := len(res)
	for _, in := range instrs(f) {
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().Name() == "Entrypoint" && len(c.Common().Args) == 1 {
			if s, ok := constString(c.Common().Args[0]); ok {
				res[s] = true
			} else {
				res["?"] = true
			}
		}
	}
	if len(res) > n || depth > 3 {
		return
	}
	for _, c := range w.callers[f] {
		w.entriesOf(c.Parent(), depth+1, res)
	}
}

// restoresPlaceholders: a method which replaces placeholders in the elements it is given by those which the receiver knows.
func restoresPlaceholders(g *ssa.Function) bool {
	elems, looked, tests := false, false, false
	if len(g.Params) == 0 {
		return false
	}
	for _, p := range g.Params[1:] {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if i, ok := sl.Elem().Underlying().(*types.Interface); ok && i.Empty() {
				elems = true
			}
		}
	}
	for _, in := range instrs(g) {
		switch in := in.(type) {
		case *ssa.Lookup:
			looked = true
		case *ssa.TypeAssert:
			if typeName(deref(in.AssertedType)) == "types.ElementPlaceHolder" {
				tests = true
			}
		}
	}
	return elems && looked && tests && g.Signature.Results().Len() > 0 && types.Identical(g.Signature.Results().At(0).Type().Underlying(), types.NewSlice(types.NewInterfaceType(nil, nil)))
}

// countsComments: a function which tells whether the comments which were replaced are among the given elements.
func countsComments(g *ssa.Function) bool {
	if g == nil || g.Signature.Results().Len() != 1 || !isBool(g.Signature.Results().At(0).Type()) {
		return false
	}
	comments, places := 0, 0
	for _, in := range instrs(g) {
		if t, ok := in.(*ssa.TypeAssert); ok {
			switch typeName(deref(t.AssertedType)) {
			case "types.SinglelineComment":
				comments++
			case "types.ElementPlaceHolder":
				places++
			}
		}
	}
	return comments > 0 && places > 0
}

// c24Readers: the text of comments is not used.
func c24Readers(w *World, r *Report) {
	n := 0
	for _, f := range w.libraryFuncs() {
		for _, in := range instrs(f) {
			var x ssa.Value
			switch in := in.(type) {
			case *ssa.FieldAddr:
				x = in.X
				if typeName(deref(x.Type())) != "types.SinglelineComment" {
					continue
				}
				written := true
				for _, q := range refs(in) {
					if st, ok := q.(*ssa.Store); !ok || st.Addr != in {
						written = false
					}
				}
				if written {
					n++
					continue
				}
			case *ssa.Field:
				x = in.X
				if typeName(deref(x.Type())) != "types.SinglelineComment" {
					continue
				}
			default:
				continue
			}
			r.Fail("reader", fnName(f), w.pos(in.Pos()), "the text of a comment is read")
		}
	}
	r.Check("reader", "types.SinglelineComment", "", true, "")
	r.Floor("places where comments are made", n, 1)
}

func commentMaker(w *World) func(f *ssa.Function) string {
	return func(f *ssa.Function) string {
		for _, in := range instrs(f) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			res := c.Call.StaticCallee().Signature.Results()
			if res.Len() == 0 {
				continue
			}
			switch typeName(deref(res.At(0).Type())) {
			case "types.SinglelineComment":
				return "comment"
			case "types.AttributeDeclaration":
				return "attribute"
			case "types.FrontMatter":
				return "front matter"
			case "types.BlockDelimiter":
				for _, a := range c.Call.Args {
					if s, ok := constString(stripConv(a)); ok && s == "comment" {
						return "comment delimiter"
					}
				}
			case "types.DelimitedBlock":
				for _, a := range c.Call.Args {
					if s, ok := constString(stripConv(a)); ok && s == "comment" {
						return "comment block"
					} else if ok {
						return s + " block"
					}
				}
			}
		}
		return ""
	}
}
