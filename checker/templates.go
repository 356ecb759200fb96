package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// tmplBackend is a table of templates given to the renderer.
type tmplBackend struct {
	name  string
	xml   bool
	texts map[string]aval // by field of Templates
	trees map[string]*parse.Tree
	errs  map[string]error
}

// tmplExec is the execution of a template: the templates it may be and the data given to it.
type tmplExec struct {
	site   ssa.CallInstruction
	ctx    *frame
	fields []string
	other  []string // template sources which are not fields of the table
	data   []place  // MakeInterface values, or values of interface type
	recv   []place
}

func (e *tmplExec) pos() token.Pos {
	// the outermost call: where the data is built
	p := e.site.Pos()
	for f := e.ctx; f != nil; f = f.up {
		p = f.site.Pos()
	}
	return p
}

func (e *tmplExec) fn() *ssa.Function {
	fn := e.site.Parent()
	for f := e.ctx; f != nil; f = f.up {
		fn = f.site.Parent()
	}
	return fn
}

type tmplModel struct {
	w         *World
	table     *types.Named
	fieldIdx  map[string]int
	names     []string
	backends  []*tmplBackend
	unknown   []string // tables which are not known
	execs     []*tmplExec
	functions map[string]*types.Signature
	funcVals  map[string]ssa.Value
}

const sgmlPkg = "pkg/renderer/sgml"

var builtinTmplFuncs = []string{"and", "or", "not", "len", "index", "slice", "print", "printf", "println", "html", "js", "urlquery", "call", "eq", "ne", "lt", "le", "gt", "ge"}

func (w *World) templates() *tmplModel {
	if w.tmpl != nil {
		return w.tmpl
	}
	m := &tmplModel{w: w, fieldIdx: map[string]int{}, functions: map[string]*types.Signature{}, funcVals: map[string]ssa.Value{}}
	w.tmpl = m
	m.table = w.typ(sgmlPkg, "Templates")
	if m.table == nil {
		return m
	}
	st := m.table.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		m.fieldIdx[st.Field(i).Name()] = i
		m.names = append(m.names, st.Field(i).Name())
	}
	m.findBackends()
	m.findFunctions()
	m.findExecs()
	return m
}

func (m *tmplModel) isTable(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj() == m.table.Obj()
}

// findBackends: the tables with which a renderer is made. A renderer is made where a table is
// stored in a field of another struct.
func (m *tmplModel) findBackends() {
	w := m.w
	targets := map[*ssa.Function]int{} // function -> index of the parameter which is the table
	for _, fn := range w.Funcs {
		if relPkg(fn.Pkg.Pkg) != sgmlPkg {
			continue
		}
		for i, p := range fn.Params {
			if !m.isTable(p.Type()) || fn.Object() == nil || !fn.Object().Exported() {
				continue
			}
			targets[fn] = i
		}
	}
	var roots []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Parent() != nil || isTest(w, fn) {
			continue
		}
		hit := false
		for f := range w.reachable(fn) {
			if _, ok := targets[f]; ok && relPkg(fn.Pkg.Pkg) != sgmlPkg {
				hit = true
			}
		}
		if hit && strings.HasPrefix(relPkg(fn.Pkg.Pkg), "pkg/renderer") {
			roots = append(roots, fn)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	known := map[ssa.CallInstruction]bool{}
	seen := map[ssa.CallInstruction]bool{}
	byKey := map[string]*tmplBackend{}
	for _, root := range roots {
		ci := w.newInterp()
		ci.descend = func(f *ssa.Function) bool {
			if _, ok := targets[f]; ok {
				return false
			}
			sig := f.Signature
			for i := 0; i < sig.Params().Len(); i++ {
				if m.isTable(sig.Params().At(i).Type()) {
					return true
				}
			}
			for i := 0; i < sig.Results().Len(); i++ {
				if m.isTable(sig.Results().At(i).Type()) {
					return true
				}
			}
			return relPkg(f.Pkg.Pkg) != sgmlPkg && strings.HasPrefix(relPkg(f.Pkg.Pkg), "pkg/renderer")
		}
		ci.onCall = func(c ssa.CallInstruction, args []aval, stack []*ssa.Function) {
			f := c.Common().StaticCallee()
			if f == nil {
				return
			}
			idx, ok := targets[f]
			if !ok || relPkg(c.Parent().Pkg.Pkg) == sgmlPkg {
				return
			}
			seen[c] = true
			v := args[idx]
			if v.kind == 'p' {
				return
			}
			if v.kind != 'S' {
				return
			}
			known[c] = true
			name := relPkg(c.Parent().Pkg.Pkg)
			name = name[strings.LastIndex(name, "/")+1:]
			k := name
			if b, ok := byKey[k]; ok {
				same := true
				for i, n := range m.names {
					x := v.field(i)
					if x.kind == 'n' {
						x.kind = 's'
					}
					if !b.texts[n].equal(x) {
						same = false
					}
				}
				if same {
					return
				}
				name = fmt.Sprintf("%s#%d", name, len(byKey)+1)
				k = name
			}
			b := &tmplBackend{name: name, texts: map[string]aval{}, trees: map[string]*parse.Tree{}, errs: map[string]error{}}
			for i, n := range m.names {
				x := v.field(i)
				if x.kind == 'n' {
					x = aval{kind: 's', pos: c.Pos()}
				}
				if !x.pos.IsValid() {
					x.pos = c.Pos()
				}
				b.texts[n] = x
			}
			b.xml = strings.Contains(name, "xhtml") || strings.Contains(b.texts["Article"].str, "xmlns=")
			byKey[k] = b
			m.backends = append(m.backends, b)
		}
		args := make([]aval, len(root.Params))
		for i := range args {
			args[i] = top
		}
		ci.run(root, args, amem{})
	}
	for c := range seen {
		if !known[c] {
			m.unknown = append(m.unknown, w.pos(c.Pos()))
		}
	}
	sort.Slice(m.backends, func(i, j int) bool { return m.backends[i].name < m.backends[j].name })
	for _, b := range m.backends {
		for n, t := range b.texts {
			if t.kind != 's' {
				continue
			}
			tr := parse.New(n)
			funcs := map[string]interface{}{}
			for _, f := range builtinTmplFuncs {
				funcs[f] = 0
			}
			tr.Mode = parse.SkipFuncCheck
			set := map[string]*parse.Tree{}
			if _, err := tr.Parse(t.str, "", "", set, funcs); err != nil {
				b.errs[n] = err
				continue
			}
			b.trees[n] = tr
			for x := range set {
				if x != n {
					b.errs[n] = fmt.Errorf("defines a nested template %q", x)
				}
			}
		}
	}
}

func isTest(w *World, fn *ssa.Function) bool {
	return strings.HasSuffix(w.Fset.Position(fn.Pos()).Filename, "_test.go") || fn.Pkg != nil && relPkg(fn.Pkg.Pkg) == "testsupport"
}

// findFunctions: the functions registered for the templates.
func (m *tmplModel) findFunctions() {
	for _, fn := range m.w.Funcs {
		if relPkg(fn.Pkg.Pkg) != sgmlPkg {
			continue
		}
		for _, in := range instrs(fn) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || typeName(mu.Map.Type()) != "template.FuncMap" {
				continue
			}
			k, ok := constString(mu.Key)
			if !ok {
				continue
			}
			v := mu.Value
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if s, ok := types.Unalias(v.Type()).Underlying().(*types.Signature); ok {
				m.functions[k] = s
				m.funcVals[k] = v
			}
		}
	}
}

// tableField: the field of the table of templates loaded by the value.
func (m *tmplModel) tableField(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && m.isTable(fa.X.Type()) {
			return m.names[fa.Field], true
		}
	case *ssa.Field:
		if m.isTable(x.X.Type()) {
			return m.names[x.Field], true
		}
	}
	return "", false
}

func (m *tmplModel) templateTracer() *tracer {
	return &tracer{w: m.w, noCallers: true,
		fields: func(n string, t types.Type) bool { return typeName(deref(t)) == "template.Template" },
		stop: func(v ssa.Value, ctx *frame) bool {
			_, ok := m.tableField(v)
			return ok
		},
		through: func(v ssa.Value) []ssa.Value {
			if e, ok := v.(*ssa.Extract); ok {
				if c, ok := e.Tuple.(*ssa.Call); ok && e.Index == 0 && callName(c.Common()) == "(*text/template.Template).Parse" {
					return []ssa.Value{c.Call.Args[1]}
				}
			}
			if c, ok := v.(*ssa.Call); ok {
				switch callName(c.Common()) {
				case "(*text/template.Template).Funcs", "(*text/template.Template).Option", "text/template.Must", "(*text/template.Template).Lookup":
					return []ssa.Value{c.Call.Args[0]}
				}
			}
			return nil
		},
	}
}

func (m *tmplModel) findExecs() {
	w := m.w
	w.buildCallGraph()
	forCalls(w.Funcs, func(fn *ssa.Function, c ssa.CallInstruction) {
		if callName(c.Common()) != "(*text/template.Template).Execute" || isTest(w, fn) {
			return
		}
		if relPkg(fn.Pkg.Pkg) != sgmlPkg {
			return
		}
		args := c.Common().Args
		m.expand(c, args[0], args[2], nil)
	})
	sort.SliceStable(m.execs, func(i, j int) bool { return m.execs[i].pos() < m.execs[j].pos() })
}

func (m *tmplModel) expand(c ssa.CallInstruction, recv, data ssa.Value, ctx *frame) {
	tr := m.templateTracer()
	tr.trace(recv, ctx)
	td := &tracer{w: m.w, noCallers: true, stop: func(v ssa.Value, ctx *frame) bool {
		_, ok := v.(*ssa.MakeInterface)
		return ok
	}}
	td.trace(data, ctx)
	hit := tr.hitParam
	if hit == nil {
		hit = td.hitParam
	}
	if hit != nil && ctx.depth() < 5 {
		// resolve the parameter by each caller of its function
		fn := hit.Parent()
		callers := m.w.callers[fn]
		n := 0
		for _, site := range callers {
			if m.w.inScopeFn(site.Parent()) && !isTest(m.w, site.Parent()) && !ctx.has(site) {
				n++
				m.expand(c, recv, data, ctx.outermost(site, fn))
			}
		}
		if n > 0 {
			return
		}
	}
	e := &tmplExec{site: c, ctx: ctx, data: td.out, recv: tr.out}
	set := map[string]bool{}
	for _, l := range tr.out {
		if f, ok := m.tableField(l.v); ok {
			set[f] = true
			continue
		}
		if isNilConst(l.v) {
			continue
		}
		if call, ok := l.v.(*ssa.Call); ok && callName(call.Common()) == "text/template.New" {
			continue
		}
		if k, ok := l.v.(*ssa.Const); ok && k.Value == nil {
			continue
		}
		e.other = append(e.other, l.v.String())
	}
	for f := range set {
		e.fields = append(e.fields, f)
	}
	sort.Strings(e.fields)
	m.execs = append(m.execs, e)
}

// dataType of one of the values given to a template; nil when it is only known at run time.
func dataType(p place) (types.Type, bool) {
	if mi, ok := p.v.(*ssa.MakeInterface); ok {
		return mi.X.Type(), true
	}
	if isNilConst(p.v) {
		return nil, true
	}
	return p.v.Type(), false
}

// fieldPlaces: the values stored in a field of the struct given to a template.
func (e *tmplExec) fieldPlaces(d place, name string) []place {
	mi, ok := d.v.(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	var base ssa.Value = mi.X
	if u, ok := base.(*ssa.UnOp); ok && u.Op == token.MUL {
		base = u.X
	}
	var res []place
	a, ok := base.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range refs(a) {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			n := fieldName(r.X.Type(), r.Field)
			if n[strings.LastIndex(n, ".")+1:] != name {
				continue
			}
			for _, rr := range refs(r) {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
					res = append(res, place{v: st.Val, ctx: d.ctx})
				}
			}
		}
	}
	return res
}
