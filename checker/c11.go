package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C11", title: "Templates of both backends are complete and fit the data they are given", run: runC11,
		explanation: "The table of templates of each backend is evaluated from the source (constant propagation over the functions that build it), each template is parsed with text/template/parse, and every template is type-checked against the type of every value it is executed with, at every place where it is executed.",
		assumptions: []string{"text/template behaves as documented", "templates given by the caller (user macros) are the responsibility of the caller"}})
}

func runC11(w *World, r *Report) {
	m := w.templates()
	if m.table == nil {
		r.Fail("table", "Templates", "", "the table of templates is not found")
		return
	}
	for _, u := range m.unknown {
		r.Fail("table-known", u, u, "the table of templates given to the renderer here cannot be determined")
	}
	r.Floor("backends", len(m.backends), 2)
	for _, b := range m.backends {
		for _, n := range m.names {
			t := b.texts[n]
			pos := w.pos(t.pos)
			switch {
			case t.kind != 's':
				r.Fail("template-known", b.name+"."+n, pos, "the text of the template cannot be determined (it is not built from constants)")
			case t.str == "":
				r.Fail("template-present", b.name+"."+n, pos, "the backend has no template: rendering the element is refused at run time")
			case b.errs[n] != nil:
				r.Fail("template-parses", b.name+"."+n, pos, "the template is not valid: "+b.errs[n].Error())
			default:
				r.OK("template-parses", b.name+"."+n, pos, fmt.Sprintf("%d bytes", len(t.str)))
				r.Count("templates parsed", 1)
			}
		}
	}
	// executions
	used := map[string]bool{}
	kinds := 0
	for _, e := range m.execs {
		where := fnName(topFunc(e.fn())) + " executes " + strings.Join(e.fields, "/")
		pos := w.pos(e.pos())
		if len(e.fields) == 0 || len(e.other) > 0 {
			r.Fail("execution-known", where, pos, "the template executed here cannot be determined: "+strings.Join(e.other, ", "))
			continue
		}
		if len(e.data) == 0 {
			r.Fail("execution-known", where, pos, "the data of the template cannot be determined")
			continue
		}
		kinds++
		for _, n := range e.fields {
			used[n] = true
			for _, b := range m.backends {
				tr := b.trees[n]
				if tr == nil {
					continue
				}
				for _, d := range e.data {
					t, _ := dataType(d)
					tt := &tmplTyper{m: m, b: b}
					tt.root = t
					tt.vars = []tvar{{"$", t, false}}
					tt.list(tr.Root, t)
					name := fmt.Sprintf("%s: %s in %s", fnName(topFunc(e.fn())), n, b.name)
					r.Count("templates type-checked at an execution", 1)
					r.Count("template expressions typed", tt.n)
					if len(tt.errs) == 0 {
						r.OK("template-typed", name, pos, fmt.Sprintf("%d expressions", tt.n))
					}
					for _, x := range tt.errs {
						r.Fail("template-typed", name+" "+x.expr, pos, x.msg)
					}
				}
			}
		}
	}
	r.Floor("template executions", kinds, 40)
	var unused []string
	for _, n := range m.names {
		if !used[n] {
			unused = append(unused, n)
		}
	}
	if len(unused) > 0 {
		r.Note("templates which are not executed: %s", strings.Join(unused, ", "))
	}
	c11Accessors(w, r, m)
	// self-test of the typer
	st := types.NewStruct([]*types.Var{types.NewField(0, nil, "A", types.Typ[types.String], false)}, nil)
	tree := parse.New("x")
	tree.Mode = parse.SkipFuncCheck
	tree.Parse("{{ if .A }}{{ .B }}{{ end }}", "", "", map[string]*parse.Tree{}, nil)
	tt := &tmplTyper{m: m, root: st, vars: []tvar{{"$", st, false}}}
	tt.list(tree.Root, st)
	r.SelfTest("template-typed", len(tt.errs) == 1)
}

// c11Accessors: the templates are parsed once and cached in fields of the renderer: each cache must
// hold one template, and be written under its own guard before it is read.
func c11Accessors(w *World, r *Report, m *tmplModel) {
	isTmpl := func(t types.Type) bool { return typeName(deref(t)) == "template.Template" }
	var fns []*ssa.Function
	for _, fn := range w.Funcs {
		if relPkg(fn.Pkg.Pkg) == sgmlPkg {
			fns = append(fns, fn)
		}
	}
	caches := map[string]map[string]bool{} // cache field -> table fields
	addCache := func(n string) {
		if caches[n] != nil {
			return
		}
		caches[n] = map[string]bool{}
		tr := m.templateTracer()
		tr.field(n)
		for _, l := range tr.out {
			if f, ok := m.tableField(l.v); ok {
				caches[n][f] = true
			}
		}
	}
	// writtenBy: the cache fields stored by a function and its closures, in a context
	writtenBy := func(f *ssa.Function, ctx *frame) (names []string, hit *ssa.Parameter) {
		for _, g := range withClosures(f) {
			for _, in := range instrs(g) {
				if st, ok := in.(*ssa.Store); ok && isTmpl(st.Val.Type()) {
					ns, h := w.addrFields(st.Addr, ctx)
					names = append(names, ns...)
					if h != nil {
						hit = h
					}
				}
			}
		}
		return
	}
	onces := map[string]map[string]bool{} // guard field -> cache fields written under it
	for _, fn := range fns {
		for _, in := range instrs(fn) {
			switch in := in.(type) {
			case *ssa.Store:
				if isTmpl(in.Val.Type()) {
					w.inContexts(func(ctx *frame) *ssa.Parameter {
						_, h := w.addrFields(in.Addr, ctx)
						return h
					}, func(ctx *frame) {
						ns, _ := w.addrFields(in.Addr, ctx)
						for _, n := range ns {
							addCache(n)
						}
					})
				}
			case *ssa.Call:
				if callName(in.Common()) != "(*sync.Once).Do" {
					continue
				}
				eval := func(ctx *frame) (guards, cs []string, hit *ssa.Parameter) {
					guards, hit = w.addrFields(in.Call.Args[0], ctx)
					t := &tracer{w: w, noCallers: true}
					t.trace(in.Call.Args[1], ctx)
					if t.hitParam != nil {
						hit = t.hitParam
					}
					for _, l := range t.out {
						var f *ssa.Function
						switch x := l.v.(type) {
						case *ssa.MakeClosure:
							f = unwrapSynthetic(x.Fn.(*ssa.Function))
						case *ssa.Function:
							f = unwrapSynthetic(x)
						}
						if f != nil {
							ns, h := writtenBy(f, ctx)
							cs = append(cs, ns...)
							if h != nil {
								hit = h
							}
						}
					}
					return
				}
				w.inContexts(func(ctx *frame) *ssa.Parameter {
					_, _, h := eval(ctx)
					return h
				}, func(ctx *frame) {
					gs, cs, _ := eval(ctx)
					for _, g := range gs {
						if onces[g] == nil {
							onces[g] = map[string]bool{}
						}
						for _, c := range cs {
							onces[g][c] = true
						}
					}
				})
			}
		}
	}
	for _, n := range sortedKeys(caches) {
		fs := sortedKeys(caches[n])
		r.Check("cache-single", n, "", len(fs) == 1, "the cache of a parsed template receives the templates: "+strings.Join(fs, ", "))
	}
	guardOf := map[string]string{}
	for _, g := range sortedKeys(onces) {
		cs := sortedKeys(onces[g])
		if len(cs) == 0 {
			continue // guards something else
		}
		r.Check("guard-single", g, "", len(cs) == 1, "a once-only initialisation guards the caches: "+strings.Join(cs, ", ")+" (the second one stays empty)")
		for _, c := range cs {
			guardOf[c] = g
		}
	}
	r.Count("template caches", len(caches))
	// a cache which is read must have been written
	for _, n := range sortedKeys(caches) {
		if guardOf[n] != "" {
			r.OK("cache-initialised", n, "", "initialised under "+guardOf[n])
			continue
		}
		// without a guard: every read must be dominated by a store, or be a test for nil
		ok := true
		for _, fn := range fns {
			for _, in := range instrs(fn) {
				u, isU := in.(*ssa.UnOp)
				if !isU {
					continue
				}
				fa, isFA := u.X.(*ssa.FieldAddr)
				if !isFA || fieldName(fa.X.Type(), fa.Field) != n {
					continue
				}
				if !c11Stored(fn, n) {
					ok = false
				}
			}
		}
		r.Check("cache-initialised", n, "", ok, "the cached template is read by a function which does not make sure that it is initialised")
	}
}

func c11Stored(fn *ssa.Function, n string) bool {
	for _, g := range withClosures(fn) {
		for _, in := range instrs(g) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == n {
					return true
				}
			}
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// funcValues resolves a function value to the functions it may be.
func (w *World) funcValues(v ssa.Value) []*ssa.Function {
	t := &tracer{w: w}
	t.trace(v, nil)
	var fs []*ssa.Function
	for _, l := range t.out {
		switch f := l.v.(type) {
		case *ssa.MakeClosure:
			fs = append(fs, unwrapSynthetic(f.Fn.(*ssa.Function)))
		case *ssa.Function:
			fs = append(fs, unwrapSynthetic(f))
		}
	}
	return fs
}

type tvar struct {
	name  string
	t     types.Type
	known bool
}

type terr struct{ expr, msg string }

// tmplTyper types the expressions of a template. A nil type is a value whose type is only known at
// run time (interface without methods).
type tmplTyper struct {
	m    *tmplModel
	b    *tmplBackend
	root types.Type
	vars []tvar
	errs []terr
	n    int
	// onAction is called for every value which is written to the output
	onAction func(n *parse.ActionNode, t types.Type)
}

func (t *tmplTyper) err(n parse.Node, f string, a ...interface{}) types.Type {
	t.errs = append(t.errs, terr{n.String(), fmt.Sprintf("%s: ", n.String()) + fmt.Sprintf(f, a...)})
	return nil
}

func (t *tmplTyper) list(l *parse.ListNode, dot types.Type) {
	if l == nil {
		return
	}
	mark := len(t.vars)
	for _, n := range l.Nodes {
		switch n := n.(type) {
		case *parse.TextNode, *parse.CommentNode, *parse.BreakNode, *parse.ContinueNode:
		case *parse.ActionNode:
			ty := t.pipe(n.Pipe, dot)
			if len(n.Pipe.Decl) == 0 {
				if ok, why := printable(ty); !ok {
					t.err(n, "%s", why)
				}
				if t.onAction != nil {
					t.onAction(n, ty)
				}
			}
		case *parse.IfNode:
			m2 := len(t.vars)
			t.pipe(n.Pipe, dot)
			t.list(n.List, dot)
			t.list(n.ElseList, dot)
			t.vars = t.vars[:m2]
		case *parse.WithNode:
			m2 := len(t.vars)
			ty := t.pipe(n.Pipe, dot)
			t.list(n.List, ty)
			t.list(n.ElseList, dot)
			t.vars = t.vars[:m2]
		case *parse.RangeNode:
			m2 := len(t.vars)
			ty := t.pipeNoDecl(n.Pipe, dot)
			var key, elem types.Type = types.Typ[types.Int], nil
			if ty != nil {
				switch u := types.Unalias(deref(ty)).Underlying().(type) {
				case *types.Slice:
					elem = u.Elem()
				case *types.Array:
					elem = u.Elem()
				case *types.Map:
					key, elem = u.Key(), u.Elem()
				case *types.Chan:
					elem = u.Elem()
				case *types.Basic:
					if u.Info()&types.IsInteger != 0 {
						elem = types.Typ[types.Int]
					} else {
						t.err(n.Pipe, "range over %s", ty)
					}
				default:
					if _, ok := u.(*types.Interface); !ok {
						t.err(n.Pipe, "range over %s", ty)
					}
				}
			}
			switch d := n.Pipe.Decl; len(d) {
			case 1:
				t.vars = append(t.vars, tvar{d[0].Ident[0], elem, true})
			case 2:
				t.vars = append(t.vars, tvar{d[0].Ident[0], key, true}, tvar{d[1].Ident[0], elem, true})
			}
			t.list(n.List, elem)
			t.vars = t.vars[:m2]
			t.list(n.ElseList, dot)
		default:
			t.err(n, "unsupported construct %T", n)
		}
	}
	t.vars = t.vars[:mark]
}

func printable(t types.Type) (bool, string) {
	if t == nil {
		return true, ""
	}
	ms := types.NewMethodSet(t)
	for _, n := range []string{"String", "Error"} {
		if s := ms.Lookup(nil, n); s != nil {
			return true, ""
		}
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic, *types.Interface:
		return true, ""
	default:
		_ = u
		return false, fmt.Sprintf("a value of type %s is written to the output in the notation of Go", types.TypeString(t, types.RelativeTo(nil)))
	}
}

func (t *tmplTyper) pipeNoDecl(p *parse.PipeNode, dot types.Type) types.Type {
	save := p.Decl
	_ = save
	return t.cmds(p, dot)
}

func (t *tmplTyper) pipe(p *parse.PipeNode, dot types.Type) types.Type {
	ty := t.cmds(p, dot)
	for _, d := range p.Decl {
		if p.IsAssign {
			continue
		}
		t.vars = append(t.vars, tvar{d.Ident[0], ty, true})
	}
	return ty
}

func (t *tmplTyper) cmds(p *parse.PipeNode, dot types.Type) types.Type {
	var final *types.Type
	var ty types.Type
	for _, c := range p.Cmds {
		ty = t.cmd(c, dot, final)
		x := ty
		final = &x
	}
	return ty
}

func (t *tmplTyper) cmd(c *parse.CommandNode, dot types.Type, final *types.Type) types.Type {
	t.n++
	first := c.Args[0]
	switch n := first.(type) {
	case *parse.IdentifierNode:
		return t.call(n, c.Args[1:], dot, final)
	case *parse.PipeNode:
		return t.cmds(n, dot)
	case *parse.FieldNode:
		return t.chain(n, dot, n.Ident, c.Args[1:], dot, final)
	case *parse.ChainNode:
		base := t.arg(n.Node, dot)
		return t.chain(n, base, n.Field, c.Args[1:], dot, final)
	case *parse.VariableNode:
		return t.chain(n, t.lookup(n, n.Ident[0]), n.Ident[1:], c.Args[1:], dot, final)
	}
	if len(c.Args) > 1 || final != nil {
		return t.err(c, "this is not a function, it takes no argument")
	}
	return t.arg(first, dot)
}

func (t *tmplTyper) lookup(n parse.Node, name string) types.Type {
	for i := len(t.vars) - 1; i >= 0; i-- {
		if t.vars[i].name == name {
			return t.vars[i].t
		}
	}
	return t.err(n, "variable %s is not defined", name)
}

func (t *tmplTyper) arg(n parse.Node, dot types.Type) types.Type {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return nil
	case *parse.BoolNode:
		return types.Typ[types.Bool]
	case *parse.StringNode:
		return types.Typ[types.String]
	case *parse.NumberNode:
		switch {
		case n.IsInt, n.IsUint:
			return types.Typ[types.Int]
		case n.IsFloat:
			return types.Typ[types.Float64]
		}
		return types.Typ[types.Complex128]
	case *parse.PipeNode:
		return t.cmds(n, dot)
	case *parse.FieldNode:
		return t.chain(n, dot, n.Ident, nil, dot, nil)
	case *parse.VariableNode:
		return t.chain(n, t.lookup(n, n.Ident[0]), n.Ident[1:], nil, dot, nil)
	case *parse.ChainNode:
		return t.chain(n, t.arg(n.Node, dot), n.Field, nil, dot, nil)
	case *parse.IdentifierNode:
		return t.call(n, nil, dot, nil)
	}
	return t.err(n, "unsupported operand %T", n)
}

func (t *tmplTyper) chain(n parse.Node, base types.Type, idents []string, args []parse.Node, dot types.Type, final *types.Type) types.Type {
	ty := base
	for i, id := range idents {
		last := i == len(idents)-1
		if ty == nil {
			// the data is nil, or its type is not known
			if t.root == nil && i == 0 && base == nil {
				return t.err(n, "no data is given to the template")
			}
			return nil
		}
		if it, ok := types.Unalias(ty).Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return nil
		}
		// method
		var sig *types.Signature
		for _, rt := range []types.Type{ty, types.NewPointer(ty)} {
			if s := types.NewMethodSet(rt).Lookup(nil, id); s != nil && isExportedName(id) {
				sig = s.Obj().Type().(*types.Signature)
				break
			}
		}
		if sig != nil {
			var as []parse.Node
			var f *types.Type
			if last {
				as, f = args, final
			}
			ty = t.apply(n, id, sig, as, dot, f)
			args, final = nil, nil
			continue
		}
		found := false
		if st, ok := types.Unalias(deref(ty)).Underlying().(*types.Struct); ok {
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == id {
					if !st.Field(j).Exported() {
						return t.err(n, "%s is not an exported field of %s", id, short(ty))
					}
					ty, found = st.Field(j).Type(), true
					break
				}
			}
			if !found {
				if obj, _, _ := types.LookupFieldOrMethod(ty, true, nil, id); obj != nil {
					ty, found = obj.Type(), true
				}
			}
		} else if mp, ok := types.Unalias(deref(ty)).Underlying().(*types.Map); ok {
			ty, found = mp.Elem(), true
		}
		if !found {
			return t.err(n, "there is no field or method %s in the data (%s)", id, short(ty))
		}
	}
	if len(args) > 0 || final != nil {
		return t.err(n, "it is not a method, it takes no argument")
	}
	if ty != nil {
		if it, ok := types.Unalias(ty).Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return nil
		}
	}
	return ty
}

func isExportedName(s string) bool { return s != "" && strings.ToUpper(s[:1]) == s[:1] }

func short(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func (t *tmplTyper) call(n *parse.IdentifierNode, args []parse.Node, dot types.Type, final *types.Type) types.Type {
	name := n.Ident
	if s, ok := t.m.functions[name]; ok {
		return t.apply(n, name, s, args, dot, final)
	}
	var ts []types.Type
	for _, a := range args {
		ts = append(ts, t.arg(a, dot))
	}
	if final != nil {
		ts = append(ts, *final)
	}
	switch name {
	case "and", "or":
		if len(ts) == 0 {
			return t.err(n, "missing argument")
		}
		for _, x := range ts[1:] {
			if ts[0] == nil || x == nil || !types.Identical(x, ts[0]) {
				return nil
			}
		}
		return ts[0]
	case "not":
		if len(ts) != 1 {
			return t.err(n, "wrong number of arguments")
		}
		return types.Typ[types.Bool]
	case "len":
		if len(ts) != 1 {
			return t.err(n, "wrong number of arguments")
		}
		if ts[0] != nil {
			switch u := types.Unalias(deref(ts[0])).Underlying().(type) {
			case *types.Slice, *types.Array, *types.Map, *types.Chan, *types.Interface:
			case *types.Basic:
				if u.Info()&types.IsString == 0 {
					return t.err(n, "length of %s", short(ts[0]))
				}
			default:
				return t.err(n, "length of %s", short(ts[0]))
			}
		}
		return types.Typ[types.Int]
	case "index":
		if len(ts) == 0 {
			return t.err(n, "missing argument")
		}
		ty := ts[0]
		for _, ix := range ts[1:] {
			if ty == nil {
				return nil
			}
			switch u := types.Unalias(deref(ty)).Underlying().(type) {
			case *types.Slice:
				ty = u.Elem()
			case *types.Array:
				ty = u.Elem()
			case *types.Map:
				if ix != nil && !types.AssignableTo(ix, u.Key()) {
					return t.err(n, "index of type %s", short(ix))
				}
				ty = u.Elem()
			case *types.Basic:
				ty = types.Typ[types.Uint8]
			default:
				return t.err(n, "%s cannot be indexed", short(ty))
			}
		}
		return ty
	case "slice":
		if len(ts) == 0 {
			return t.err(n, "missing argument")
		}
		return ts[0]
	case "print", "printf", "println", "html", "js", "urlquery":
		return types.Typ[types.String]
	case "call":
		return nil
	case "eq", "ne", "lt", "le", "gt", "ge":
		if len(ts) < 2 {
			return t.err(n, "missing argument")
		}
		k0 := basicClass(ts[0])
		for _, x := range ts[1:] {
			k := basicClass(x)
			if k0 == "?" || k == "?" {
				continue
			}
			if k0 != k || k == "" {
				return t.err(n, "values of type %s and %s cannot be compared", short(ts[0]), short(x))
			}
		}
		return types.Typ[types.Bool]
	}
	return t.err(n, "function %s is not registered", name)
}

func basicClass(t types.Type) string {
	if t == nil {
		return "?"
	}
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		if _, ok := types.Unalias(t).Underlying().(*types.Interface); ok {
			return "?"
		}
		return ""
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return "bool"
	case b.Info()&types.IsString != 0:
		return "string"
	case b.Info()&types.IsInteger != 0:
		return "int"
	case b.Info()&types.IsFloat != 0:
		return "float"
	}
	return ""
}

func (t *tmplTyper) apply(n parse.Node, name string, s *types.Signature, args []parse.Node, dot types.Type, final *types.Type) types.Type {
	var ts []types.Type
	var consts []bool
	for _, a := range args {
		ts = append(ts, t.arg(a, dot))
		_, isNum := a.(*parse.NumberNode)
		consts = append(consts, isNum)
	}
	if final != nil {
		ts = append(ts, *final)
		consts = append(consts, false)
	}
	np := s.Params().Len()
	if s.Variadic() && len(ts) < np-1 || !s.Variadic() && len(ts) != np {
		return t.err(n, "%s takes %d arguments, %d are given", name, np, len(ts))
	}
	for i, x := range ts {
		var pt types.Type
		if s.Variadic() && i >= np-1 {
			pt = s.Params().At(np - 1).Type().(*types.Slice).Elem()
		} else {
			pt = s.Params().At(i).Type()
		}
		if x == nil {
			continue
		}
		if types.AssignableTo(x, pt) {
			continue
		}
		if consts[i] && basicClass(pt) == basicClass(x) {
			continue
		}
		// text/template dereferences or takes the address when that helps
		if types.AssignableTo(deref(x), pt) || types.AssignableTo(types.NewPointer(x), pt) {
			continue
		}
		return t.err(n, "argument %d of %s is a %s, a %s is expected", i+1, name, short(x), short(pt))
	}
	switch s.Results().Len() {
	case 1:
	case 2:
		if !isErrorType(s.Results().At(1).Type()) {
			return t.err(n, "%s has the wrong results", name)
		}
	default:
		return t.err(n, "%s has the wrong number of results", name)
	}
	rt := s.Results().At(0).Type()
	if it, ok := types.Unalias(rt).Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
		return nil
	}
	return rt
}
