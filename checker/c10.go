package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C10", title: "Every kind of element the parser produces can be rendered", run: runC10,
		explanation: "The kinds of elements which each field may contain are derived from the grammar. Each of them must be a case of the function which renders the elements, or must be eliminated before: for each intermediate kind and each field in which the grammar puts it, the functions of the pipeline are interpreted abstractly on an element with such content, in the containers in which it may be (blocks, parts of tables, list elements, what is attached to them, and these within each other), and the intermediate element must not remain on any path. An error which a function makes because of a string is an obligation on the values which the string may have: the constants which the grammar and the program give to it must be expected, and a value of an attribute must not be refused.",
		assumptions: []string{"The substitutions which a document disables are not part of the obligations: an intermediate element is only made by the rules of the substitution which also eliminates it (C21).", "Within a container, the content of a block is parsed as the kinds of elements of the scenario; deeper nestings than two containers are covered only as far as the functions are recursive."}})
}

// c10Intermediate: the kinds of elements which only exist until a stage eliminates them (checked by "elimination"),
// or which are parts of other elements and read by their renderers.
var c10Intermediate = map[string]string{
	"types.AttributeReference":   "replaced by the value of the attribute",
	"types.CounterSubstitution":  "replaced by the value of the counter",
	"types.ElementPlaceHolder":   "replaced by the element",
	"types.RawLine":              "replaced by the content which is parsed in it",
	"types.ListElements":         "arranged into lists",
	"types.ListContinuation":     "its element is attached to a list element",
	"types.BlankLine":            "separates blocks",
	"types.SinglelineComment":    "removed (C24)",
	"types.Footnote":             "replaced by a reference (C16)",
	"types.DocumentHeader":       "rendered with the document",
	"types.Attributes":           "attached to an element",
	"types.Attribute":            "attached to an element",
	"types.OrderedListElement":   "rendered with its list",
	"types.UnorderedListElement": "rendered with its list",
	"types.LabeledListElement":   "rendered with its list",
	"types.CalloutListElement":   "rendered with its list",
	"types.TableColumn":          "rendered with its table",
}

func runC10(w *World, r *Report) {
	c := w.containment()
	c10Dispatch(w, r, c)
	c10Inline(w, r, c)
	c10Blocks(w, r, c)
	c10Refusals(w, r, c)
}

// ---------------------------------------------------------------------------
// dispatch

func c10Dispatch(w *World, r *Report, c *containment) {
	k := &c09{w: w, r: r, renders: map[*ssa.Function]bool{}, plain: map[*ssa.Function]bool{}}
	k.findRenders()
	if k.dispatch == nil {
		r.Fail("dispatch", "renderer", "", "the function which renders an element of any kind is not found")
		return
	}
	cases := map[string]bool{}
	for f := range w.localHelpers(k.dispatch) {
		for _, in := range instrs(f) {
			if ta, ok := in.(*ssa.TypeAssert); ok {
				cases[typeName(deref(ta.AssertedType))] = true
			}
		}
	}
	made := map[string]bool{}
	var add func(t string)
	add = func(t string) {
		if !strings.HasPrefix(t, "types.") || made[t] {
			return
		}
		made[t] = true
		for p, l := range c.in {
			if p.typ == t && contentField(w, p) {
				for e := range l {
					add(e)
				}
			}
		}
	}
	for _, n := range []string{"DocumentFragment", "DelimitedBlockElements", "NormalGroup", "HeaderGroup", "AttributeStructuredValue"} {
		if x := c.g.rules[n]; x != nil {
			for _, t := range sortedKeys(c.yields[x.expr]) {
				add(t)
			}
		}
	}
	// what the stages make themselves
	for _, f := range w.libraryFuncs() {
		if w.isGenerated(f) || isTest(w, f) {
			continue
		}
		for _, in := range instrs(f) {
			mi, ok := in.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if _, ok := mi.X.(*ssa.Alloc); !ok {
				if _, ok := mi.X.(*ssa.Call); !ok {
					continue
				}
			}
			t := typeName(deref(mi.X.Type()))
			if i, ok := mi.Type().Underlying().(*types.Interface); ok && i.Empty() && strings.HasPrefix(t, "types.") && c10AddedToElements(mi) {
				add(t)
			}
		}
	}
	n := 0
	for _, t := range sortedKeys(made) {
		if c10Part(w, t) {
			continue
		}
		n++
		if _, ok := c10Intermediate[t]; ok && !cases[t] {
			r.Count("intermediate kinds", 1)
			continue
		}
		r.Check("dispatch", t, w.pos(k.dispatch.Pos()), cases[t], "the parser makes elements of this kind, and "+fnName(k.dispatch)+" has no case for it")
	}
	r.Floor("kinds of elements", n, 25)
}

// contentField: the field holds elements (and not only a part of a known type).
func contentField(w *World, p fieldPlace) bool {
	n := w.typ("pkg/types", strings.TrimPrefix(p.typ, "types."))
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return true // a map of attributes
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == p.field {
			return isContent(st.Field(i).Type())
		}
	}
	return false
}

func isContent(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return u.Empty()
	case *types.Slice:
		i, ok := u.Elem().Underlying().(*types.Interface)
		return ok && i.Empty()
	}
	return false
}

// c10Part: only used in fields of its own type.
func c10Part(w *World, t string) bool {
	n := w.typ("pkg/types", strings.TrimPrefix(t, "types."))
	if n == nil {
		return true
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return true // values of attributes
	}
	c := w.containment()
	for p, l := range c.in {
		if l[t] && contentField(w, p) && p.typ != "types.Document" {
			return false
		}
	}
	for _, x := range c.g.rules {
		if (x.name == "DocumentFragment" || x.name == "NormalGroup") && c.yields[x.expr][t] {
			return false
		}
	}
	return true
}

// c10AddedToElements: the value is put into a list of elements.
func c10AddedToElements(v ssa.Value) bool {
	for _, ref := range refs(v) {
		if st, ok := ref.(*ssa.Store); ok && st.Val == v {
			switch a := st.Addr.(type) {
			case *ssa.IndexAddr:
				return true
			case *ssa.FieldAddr:
				return strings.HasPrefix(fieldName(a.X.Type(), a.Field), "types.")
			}
		}
	}
	return false
}

// localHelpers: the function, and those of its package which only it calls.
func (w *World) localHelpers(f *ssa.Function) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{f: true}
	for changed := true; changed; {
		changed = false
		for g := range res {
			for _, in := range instrs(g) {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := call.Common().StaticCallee()
				if h == nil || res[h] || h.Pkg != f.Pkg || len(h.Params) == 0 {
					continue
				}
				takes := false
				for _, p := range h.Params {
					if i, ok := p.Type().Underlying().(*types.Interface); ok && i.Empty() {
						takes = true
					}
				}
				if !takes {
					continue
				}
				only := true
				for _, site := range w.callers[h] {
					if !res[site.Parent()] {
						only = false
					}
				}
				if only {
					res[h] = true
					changed = true
				}
			}
		}
	}
	return res
}

// ---------------------------------------------------------------------------
// elimination

// c10Run: an abstract run of functions of the parser on elements which the check makes.
type c10Run struct {
	w       *World
	x       *absint
	watched map[string]string      // where content was put: address -> description
	attrs   map[string]string      // attributes which must be processed: term -> description
	allSubs bool                   // the substitutions are enabled
	inState func(s *astate) []xval // what a block is parsed as
}

func (w *World) newC10Run() *c10Run {
	c := &c10Run{w: w, watched: map[string]string{}, attrs: map[string]string{}}
	c.x = &absint{w: w, lists: true, forget: true, maxDepth: 40, limit: 60000,
		inline: func(g *ssa.Function) bool { return w.inScopeFn(g) && !w.isGenerated(g) }}
	return c
}

// obj makes an element; the fields which are not given are unknown, except for the lists of elements, which are empty.
func (c *c10Run) obj(s *astate, t string, fields map[string]interface{}) xval {
	n := c.w.typ("pkg/types", strings.TrimPrefix(t, "types."))
	if n == nil {
		panic("no type " + t)
	}
	n0 := s.data["objects"] + "1"
	if len(n0) > 200 {
		panic("too many objects")
	}
	s.data["objects"] = n0
	o := xval{k: 'O', s: fmt.Sprintf("obj%d", len(n0))}
	c.x.assume(s, o, types.NewPointer(n), true)
	st, _ := n.Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		a := o.s + "." + f.Name()
		switch v := fields[f.Name()].(type) {
		case []xval:
			l := c.x.newList(s, v)
			if _, ok := f.Type().Underlying().(*types.Interface); ok {
				c.x.assume(s, l, types.NewSlice(types.NewInterfaceType(nil, nil)), true)
			}
			s.mem[a] = l
			if len(v) > 0 {
				c.watched[a] = t + "." + f.Name()
			}
		case xval:
			s.mem[a] = v
			if v.k == 'O' {
				c.watched[a] = t + "." + f.Name()
			}
		case string:
			s.mem[a] = xconst(v)
		case nil:
			if _, ok := f.Type().Underlying().(*types.Slice); ok {
				s.mem[a] = c.x.newList(s, nil)
			}
			if p, ok := f.Type().Underlying().(*types.Pointer); ok && strings.HasPrefix(typeName(p.Elem()), "types.") {
				s.mem[a] = xconst("nil")
			}
		}
	}
	return o
}

// remains: the place where one of the given elements is left.
func (c *c10Run) remains(s *astate, bad func(v xval) bool) string {
	for _, a := range sortedKeys(c.watched) {
		v, ok := s.mem[a]
		if !ok {
			continue
		}
		d := c.watched[a]
		if bad(v) {
			return "it remains in " + d
		}
		if v.k == 'C' {
			continue
		}
		if l, ok := c.x.listElems(s, v); ok {
			for _, e := range l {
				if bad(e) {
					return "it remains in " + d
				}
			}
			continue
		}
		if v.k == 'T' && !strings.HasPrefix(v.s, "clean") && !isScalarPlace(c, a) {
			return "what is in " + d + " afterwards is not known (" + v.s + ")"
		}
	}
	return ""
}

func isScalarPlace(c *c10Run, a string) bool {
	return strings.HasSuffix(a, ".Value") || strings.HasSuffix(a, ".Path") || strings.HasSuffix(a, ".Label") || strings.HasSuffix(a, ".ID")
}

// parses: the function parses content with the rule which its caller chooses.
func (w *World) c10Parses(g *ssa.Function) bool {
	if w.isGenerated(g) {
		return g.Name() == "Parse" || g.Name() == "ParseReader" || g.Name() == "ParseFile"
	}
	sig := g.Signature
	if !sig.Variadic() || sig.Results().Len() != 2 || !isContent(sig.Results().At(0).Type()) {
		return false
	}
	sl, ok := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
	if !ok || !strings.HasSuffix(typeName(sl.Elem()), ".Option") {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if strings.HasSuffix(typeName(deref(sig.Params().At(i).Type())), ".ParseContext") {
			return false
		}
	}
	return true
}

// start: the meaning of the calls to the parser.
func (c *c10Run) start(s *astate, elim map[*ssa.Function]bool) {
	c.x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
		g := in.Common().StaticCallee()
		if g == nil {
			g = fn.fn
		}
		if g == nil {
			return nil, false
		}
		if b := g.Signature.Results(); !c.w.inScopeFn(g) && g.Signature.Params().Len() == 1 && b.Len() == 1 && basicClass(b.At(0).Type()) == "bool" && strings.HasSuffix(typeName(g.Signature.Params().At(0).Type()), ".Level") {
			return []xval{xconst("false")}, true // messages are not written
		}
		if elim[g] {
			for _, a := range args {
				for t := range c.attrs {
					if a.s == t || a.k == 'O' && s.mem[a.s+".Attributes"].s == t {
						s.data["done "+t] = "1"
					}
				}
			}
			return nil, false
		}
		if c.w.c10Parses(g) {
			entries := map[string]bool{}
			c.w.entriesOf(f.fn, 0, entries)
			structured := false
			cn := c.w.containment()
			for e := range entries {
				if r := cn.g.rules[e]; r != nil && cn.yields[r.expr]["types.Paragraph"] {
					structured = true
				}
			}
			var l []xval
			if structured && c.inState != nil {
				l = c.inState(s)
			} else {
				l = []xval{xterm("clean")}
				if t := c.w.typ("pkg/types", "StringElement"); t != nil {
					c.x.assume(s, l[0], types.NewPointer(t), true)
				}
			}
			v := c.x.newList(s, l)
			c.x.assume(s, v, types.NewSlice(types.NewInterfaceType(nil, nil)), true)
			return []xval{{k: 'Q', list: []xval{v, xconst("nil")}}}, true
		}
		if b := g.Signature.Results(); c.allSubs && b.Len() == 1 && basicClass(b.At(0).Type()) == "bool" && g.Signature.Recv() != nil && strings.HasSuffix(typeName(deref(g.Signature.Recv().Type())), ".substitutions") {
			return []xval{xconst("true")}, true // the references were parsed because the substitutions are enabled
		}
		if in.Common().StaticCallee() != nil && c.w.inScopeFn(g) && !(g.Signature.Recv() != nil && g.Signature.Params().Len() == 0 && len(g.Blocks) == 1) {
			known := false
			for i, a := range args {
				if i < len(g.Params) && (attributesOnly(g.Params[i]) || !carriesElements(g.Params[i].Type())) {
					continue
				}
				known = known || a.k == 'O' && !strings.HasPrefix(a.s, "global ") || a.k == 'S' || a.k == 'F' || a.k == 'Q'
			}
			if !known || !c.touches(g) {
				return []xval{xterm(fmt.Sprintf("%d.%s", f.id, in.(ssa.Value).Name()))}, true // cannot reach the elements
			}
		}
		return nil, false
	}
}

// touches: the function, or one which it reaches without parsing, changes elements or returns some.
func (c *c10Run) touches(g *ssa.Function) bool {
	if c.w.touching == nil {
		c.w.touching = map[*ssa.Function]bool{}
	}
	if v, ok := c.w.touching[g]; ok {
		return v
	}
	c.w.touching[g] = false
	v := c.touches0(g, map[*ssa.Function]bool{})
	c.w.touching[g] = v
	return v
}

func (c *c10Run) touches0(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || !c.w.inScopeFn(g) || c.w.isGenerated(g) || c.w.c10Parses(g) {
		return false
	}
	first := len(seen) == 0
	seen[g] = true
	if first {
		for i := 0; i < g.Signature.Results().Len(); i++ {
			t := g.Signature.Results().At(i).Type()
			if isContent(t) || strings.Contains(t.String(), "/types.") && !strings.HasSuffix(typeName(t), ".Attributes") {
				return true
			}
		}
	}
	for _, in := range instrs(g) {
		switch in := in.(type) {
		case *ssa.Store:
			switch a := in.Addr.(type) {
			case *ssa.FieldAddr:
				if _, fresh := a.X.(*ssa.Alloc); !fresh && strings.HasPrefix(fieldName(a.X.Type(), a.Field), "types.") {
					return true
				}
			case *ssa.IndexAddr:
				if _, fresh := a.X.(*ssa.Alloc); !fresh && isContent(a.X.Type()) {
					return true
				}
			}
		case ssa.CallInstruction:
			for _, h := range c.w.calleesOf(in) {
				if c.touches0(h, seen) {
					return true
				}
			}
		case *ssa.MakeClosure:
			if c.touches0(in.Fn.(*ssa.Function), seen) {
				return true
			}
		}
	}
	return false
}

// carriesElements: elements may be reached from a value of the type.
func carriesElements(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Slice:
		return carriesElements(u.Elem())
	case *types.Map, *types.Basic:
		return false
	case *types.Signature:
		return u.Results().Len() == 0 || u.Params().Len() != 1 || !strings.HasSuffix(typeName(t), ".Option")
	}
	n := typeName(deref(t))
	return strings.HasPrefix(n, "types.") || !strings.HasSuffix(n, ".ParseContext") && !strings.HasSuffix(n, ".substitutions")
}

// attributesOnly: the parameter only gives access to the attributes of an element.
func attributesOnly(p *ssa.Parameter) bool {
	i, ok := p.Type().Underlying().(*types.Interface)
	if !ok || i.Empty() {
		return false
	}
	for j := 0; j < i.NumMethods(); j++ {
		if !strings.HasSuffix(i.Method(j).Name(), "Attributes") {
			return false
		}
	}
	for _, ref := range refs(p) {
		switch ref.(type) {
		case *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.Store:
			return false
		}
	}
	return true
}

func errorFree(res []xval, sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len() && i < len(res); i++ {
		if sig.Results().At(i).Type().String() == "error" {
			return res[i].k == 'C' && res[i].s == "nil"
		}
	}
	return true
}

// mapEliminators: the functions which process each value of the attributes which they are given.
func (w *World) mapEliminators(value map[*ssa.Function]bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var from func(v ssa.Value, depth int) *ssa.Parameter
	from = func(v ssa.Value, depth int) *ssa.Parameter {
		if depth > 12 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Parameter:
			return v
		case *ssa.Lookup:
			return from(v.X, depth+1)
		case *ssa.Extract:
			return from(v.Tuple, depth+1)
		case *ssa.Next:
			return from(v.Iter, depth+1)
		case *ssa.Range:
			return from(v.X, depth+1)
		case *ssa.Call:
			if v.Call.IsInvoke() && v.Call.Method.Name() == "GetAttributes" {
				return from(v.Call.Value, depth+1)
			}
			if g := v.Call.StaticCallee(); g != nil && g.Name() == "GetAttributes" && len(v.Call.Args) == 1 {
				return from(v.Call.Args[0], depth+1)
			}
		case *ssa.UnOp:
			return from(v.X, depth+1)
		case *ssa.FieldAddr:
			return from(v.X, depth+1)
		case *ssa.Alloc:
			for _, ref := range refs(v) {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
					return from(st.Val, depth+1)
				}
			}
		}
		return nil
	}
	for _, f := range w.libraryFuncs() {
		if w.isGenerated(f) || isTest(w, f) {
			continue
		}
		for _, in := range instrs(f) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || !value[call.Call.StaticCallee()] {
				continue
			}
			for _, a := range call.Call.Args {
				switch a.(type) {
				case *ssa.Extract, *ssa.Lookup:
					if p := from(a, 0); p != nil && p.Parent() == f {
						res[f] = true
					}
				}
			}
		}
	}
	return res
}

// valueEliminators: the functions which get a value of an attribute, and of which no result contains the element.
func (c *containment) valueEliminators(kind string) map[*ssa.Function]map[string]string {
	w := c.w
	res := map[*ssa.Function]map[string]string{}
	for _, f := range w.libraryFuncs() {
		if relPkgOf(f) != "pkg/parser" || w.isGenerated(f) || isTest(w, f) || f.Signature.Results().Len() != 2 || f.Signature.Variadic() {
			continue
		}
		if i, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok || !i.Empty() {
			continue
		}
		p := -1
		for i, x := range f.Params {
			if u, ok := x.Type().Underlying().(*types.Interface); ok && u.Empty() {
				p = i
			}
		}
		if p < 0 {
			continue
		}
		if !w.c10Tests(f, kind) {
			continue
		}
		forms := map[string]string{}
		for _, form := range []string{"a list", "roles", "options", "a list in roles"} {
			run := w.newC10Run()
			s := newAState()
			elem := run.obj(s, kind, nil)
			text := run.obj(s, "types.StringElement", map[string]interface{}{"Content": "\"x\""})
			list := types.NewSlice(types.NewInterfaceType(nil, nil))
			v := run.x.newList(s, []xval{elem, text})
			switch form {
			case "a list":
				run.x.assume(s, v, list, true)
			case "roles":
				run.x.assume(s, v, w.typ("pkg/types", "Roles"), true)
			case "options":
				run.x.assume(s, v, w.typ("pkg/types", "Options"), true)
			case "a list in roles":
				run.x.assume(s, v, list, true)
				v = run.x.newList(s, []xval{v, text})
				run.x.assume(s, v, w.typ("pkg/types", "Roles"), true)
			}
			run.start(s, nil)
			forms[form] = run.values(f, p, v, s, elem)
		}
		res[f] = forms
	}
	return res
}

// c10Tests: the function, or one which it reaches, looks for elements of the kind.
func (w *World) c10Tests(f *ssa.Function, kind string) bool {
	for g := range w.reachable(f) {
		if relPkgOf(g) != "pkg/parser" || w.isGenerated(g) {
			continue
		}
		for _, in := range instrs(g) {
			if ta, ok := in.(*ssa.TypeAssert); ok && typeName(deref(ta.AssertedType)) == kind {
				return true
			}
		}
	}
	return false
}

func (c *c10Run) values(f *ssa.Function, p int, v xval, s *astate, elem xval) string {
	bad, n := "", 0
	var holds func(s *astate, v xval, depth int) string
	holds = func(s *astate, v xval, depth int) string {
		if v.s == elem.s {
			return "it remains in the value"
		}
		if depth > 5 || v.k != 'O' {
			return ""
		}
		if l, ok := c.x.listElems(s, v); ok {
			for _, e := range l {
				if y := holds(s, e, depth+1); y != "" {
					return y
				}
			}
		}
		return ""
	}
	var args []xval
	for i, q := range f.Params {
		if i == p {
			args = append(args, v)
		} else {
			args = append(args, xterm("param "+q.Name()))
		}
	}
	c.x.run(f, args, nil, s, func(fr *aframe, s *astate, res []xval, ret *ssa.Return) {
		if len(res) != 2 || !errorFree(res, f.Signature) {
			return
		}
		n++
		if bad == "" {
			bad = holds(s, res[0], 0)
		}
	})
	if c.x.over {
		return "not decided within the limit"
	}
	if n == 0 && bad == "" {
		return "no path returns a value"
	}
	return bad
}

func c10Inline(w *World, r *Report, c *containment) {
	ng := c.g.rules["NormalGroup"]
	if ng == nil {
		r.Fail("elimination", "grammar", "", "the rule of inline elements is not found")
		return
	}
	inline := map[string]bool{}
	for t := range c.yields[ng.expr] {
		inline[t] = true
		for k := range c.within(t, nil) {
			inline[k] = true
		}
	}
	walkers := 0
	for _, kind := range []string{"types.AttributeReference", "types.CounterSubstitution", "types.ElementPlaceHolder"} {
		values := c.valueEliminators(kind)
		elim := map[*ssa.Function]bool{}
		var vf []*ssa.Function
		for f, forms := range values {
			if forms["a list"] == "" {
				elim[f] = true
				vf = append(vf, f)
			}
		}
		maps := w.mapEliminators(elim)
		used := map[*ssa.Function]bool{}
		for m := range maps {
			for _, in := range instrs(m) {
				if call, ok := in.(*ssa.Call); ok && elim[call.Call.StaticCallee()] {
					used[call.Call.StaticCallee()] = true
				}
			}
		}
		sort.Slice(vf, func(i, j int) bool { return fnName(vf[i]) < fnName(vf[j]) })
		nv := 0
		for _, f := range vf {
			if !used[f] {
				continue
			}
			nv++
			for _, form := range sortedKeys(values[f]) {
				if kind == "types.ElementPlaceHolder" && (form == "options" || form == "a list in roles") {
					continue // there are no substitutions in the names of options; the roles are lists of texts and placeholders
				}
				why := values[f][form]
				r.Check("values", strings.TrimPrefix(kind, "types.")+" in "+form, w.pos(f.Pos()), why == "", fnName(f)+" processes the values of attributes, but: "+why)
			}
		}
		r.Floor("functions which process the values of attributes with "+strings.TrimPrefix(kind, "types."), nv, 1)
		// the fields in which the grammar puts it, directly or through attributes and locations
		type place struct {
			t    string
			f    string
			via  string
			name string
		}
		var places []place
		for _, p := range sortedPlacesOf(c.direct) {
			if !inline[p.typ] || p.typ == "types.Attributes" || p.typ == "types.Attribute" || p.typ == "types.PositionalAttribute" || p.typ == "types.Location" {
				continue
			}
			switch l := c.direct[p]; {
			case l[kind]:
				places = append(places, place{p.typ, p.field, "", p.String()})
			case l["types.Location"] && c.direct[fieldPlace{"types.Location", "Path"}][kind]:
				places = append(places, place{p.typ, p.field, "location", p.String()})
			case l["types.Attributes"] && (c.direct[fieldPlace{"types.Attribute", "Value"}][kind] || c.in[fieldPlace{"types.Attributes", ""}][kind]):
				places = append(places, place{p.typ, p.field, "attributes", p.String()})
			}
		}
		// the functions which eliminate it in a list, and in what is in the list
		for _, f := range w.c10Walkers() {
			if !w.c10Tests(f, kind) {
				continue
			}
			try := func(content func(run *c10Run, s *astate, elem xval) []xval) string {
				run := w.newC10Run()
				s := newAState()
				run.start(s, maps)
				elem := run.obj(s, kind, nil)
				list := run.x.newList(s, content(run, s, elem))
				var args []xval
				for _, p := range f.Params {
					if isContent(p.Type()) {
						if _, ok := p.Type().Underlying().(*types.Slice); ok {
							args = append(args, list)
							continue
						}
					}
					args = append(args, xterm("param "+p.Name()))
				}
				bad, n := "", 0
				run.x.run(f, args, nil, s, func(fr *aframe, s *astate, res []xval, ret *ssa.Return) {
					if !errorFree(res, f.Signature) {
						return
					}
					n++
					if bad != "" {
						return
					}
					is := func(v xval) bool { return v.k == elem.k && v.s == elem.s }
					if l, ok := run.x.listElems(s, res[0]); ok {
						for _, e := range l {
							if is(e) {
								bad = "it remains in the list"
							}
						}
					}
					if bad == "" {
						bad = run.remains(s, is)
					}
					for _, t := range sortedKeys(run.attrs) {
						if bad == "" && s.data["done "+t] == "" {
							bad = "the values of its attributes are not processed on a path which returns at " + w.pos(ret.Pos())
						}
					}
				})
				if run.x.over {
					return "not decided within the limit"
				}
				if n == 0 {
					return "no path returns the elements"
				}
				return bad
			}
			if why := try(func(run *c10Run, s *astate, elem xval) []xval { return []xval{elem} }); why != "" {
				continue // does not eliminate it
			}
			nested := func(p place) func(run *c10Run, s *astate, elem xval) []xval {
				return func(run *c10Run, s *astate, elem xval) []xval {
					switch p.via {
					case "location":
						loc := run.obj(s, "types.Location", map[string]interface{}{"Path": []xval{elem}})
						return []xval{run.obj(s, p.t, map[string]interface{}{p.f: loc})}
					case "attributes":
						a := xterm("attributes of " + p.t)
						run.attrs[a.s] = p.t
						return []xval{run.obj(s, p.t, map[string]interface{}{p.f: a})}
					}
					return []xval{run.obj(s, p.t, map[string]interface{}{p.f: []xval{elem}})}
				}
			}
			why := map[place]string{}
			n := 0
			for _, p := range places {
				why[p] = try(nested(p))
				if why[p] == "" {
					n++
				}
			}
			if 3*n < len(places) {
				continue // does not look into elements
			}
			walkers++
			for _, p := range places {
				r.Check("elimination", strings.TrimPrefix(kind, "types.")+" in "+p.name, w.pos(f.Pos()), why[p] == "", fnName(f)+" eliminates these elements, but: "+why[p])
			}
		}
	}
	r.Floor("functions which eliminate inline elements", walkers, 3)
}

func sortedPlacesOf(m map[fieldPlace]map[string]bool) []fieldPlace {
	k := map[fieldPlace]bool{}
	for p := range m {
		k[p] = true
	}
	return sortedPlaces(k)
}

// c10Walkers: the functions of the parser which return a list of elements for a list, and call themselves.
func (w *World) c10Walkers() []*ssa.Function {
	var l []*ssa.Function
	for _, f := range w.libraryFuncs() {
		if relPkgOf(f) != "pkg/parser" || w.isGenerated(f) || isTest(w, f) || f.Signature.Results().Len() != 2 || w.c10Parses(f) {
			continue
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok || !isContent(f.Signature.Results().At(0).Type()) {
			continue
		}
		takes := false
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok && isContent(p.Type()) {
				takes = true
			}
		}
		again := false
		for _, in := range instrs(f) {
			if call, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.calleesOf(call) {
					again = again || g == f || w.inScopeFn(g) && !w.isGenerated(g) && w.reachable(g)[f]
				}
			}
		}
		if takes && again {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool { return fnName(l[i]) < fnName(l[j]) })
	return l
}

// stages: the functions which make a fragment of a fragment, in the order of the pipeline.
func (w *World) stages() []*ssa.Function {
	calls := w.stageFunctions()
	owner := map[*ssa.Function]*ssa.Function{} // the stage -> its function on fragments
	var fns []*ssa.Function
	for g, l := range calls {
		fns = append(fns, g)
		for _, call := range l {
			for f := call.Parent(); f != nil; f = f.Parent() {
				owner[f] = g
			}
		}
	}
	before := map[*ssa.Function]map[*ssa.Function]bool{} // g -> those before
	for _, f := range w.libraryFuncs() {
		if isTest(w, f) {
			continue
		}
		for _, in := range instrs(f) {
			call, ok := in.(*ssa.Call)
			if !ok || owner[call.Call.StaticCallee()] == nil {
				continue
			}
			for _, a := range call.Call.Args {
				var from func(v ssa.Value, depth int)
				from = func(v ssa.Value, depth int) {
					switch v := v.(type) {
					case *ssa.Call:
						if o := owner[v.Call.StaticCallee()]; o != nil {
							g := owner[call.Call.StaticCallee()]
							if before[g] == nil {
								before[g] = map[*ssa.Function]bool{}
							}
							before[g][o] = true
						}
					case *ssa.ChangeType:
						from(v.X, depth+1)
					}
				}
				from(a, 0)
			}
		}
	}
	rank := func(g *ssa.Function) int {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for o := range before[g] {
				if !seen[o] {
					seen[o] = true
					walk(o)
				}
			}
		}
		walk(g)
		return len(seen)
	}
	sort.Slice(fns, func(i, j int) bool {
		if a, b := rank(fns[i]), rank(fns[j]); a != b {
			return a < b
		}
		return fnName(fns[i]) < fnName(fns[j])
	})
	var l []*ssa.Function
	for _, g := range fns {
		if relPkgOf(g) == "pkg/parser" && (len(before[g]) > 0 || g == fns[0]) {
			l = append(l, g)
		}
	}
	return l
}

// blockKinds: the constants which the actions of the grammar give to the kind of a delimited block.
func (c *containment) blockKinds() []string {
	kinds := map[string]bool{}
	// the parameters which end in the field
	params := map[*ssa.Parameter]bool{}
	var from func(v ssa.Value, depth int)
	from = func(v ssa.Value, depth int) {
		switch v := v.(type) {
		case *ssa.Const:
			if s, ok := constString(v); ok {
				kinds[s] = true
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				if depth < 8 {
					from(e, depth+1)
				}
			}
		case *ssa.ChangeType:
			from(v.X, depth+1)
		case *ssa.Parameter:
			if params[v] {
				return
			}
			params[v] = true
			for i, p := range v.Parent().Params {
				if p == v {
					for _, site := range c.w.callers[v.Parent()] {
						if i < len(site.Common().Args) && !site.Common().IsInvoke() && !isTest(c.w, site.Parent()) {
							from(site.Common().Args[i], depth+1)
						}
					}
				}
			}
		}
	}
	for _, v := range c.w.fieldStores()["types.DelimitedBlock.Kind"] {
		if f := v.Parent(); f == nil || !isTest(c.w, f) {
			from(v, 0)
		}
	}
	return sortedKeys(kinds)
}

func c10Blocks(w *World, r *Report, c *containment) {
	var stages []*ssa.Function
	for _, g := range w.stages() {
		if !g.Signature.Variadic() { // the filter only removes elements (C24)
			stages = append(stages, g)
		}
	}
	r.Floor("stages of the pipeline", len(stages), 4)
	var names []string
	for _, g := range stages {
		names = append(names, fnName(g))
	}
	kinds := c.blockKinds()
	r.Floor("kinds of delimited blocks", len(kinds), 8)
	type scenario struct {
		name    string
		build   func(run *c10Run, s *astate, elem func() xval) xval
		again   func(run *c10Run, s *astate, elem func() xval) xval // what a block is parsed again as
		kind    string
		several bool // the content is several blocks
	}
	F := func(kv ...interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for i := 0; i+1 < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	para := func(run *c10Run, s *astate, elem func() xval) xval {
		return run.obj(s, "types.Paragraph", F("Elements", []xval{elem()}))
	}
	block := func(kind string) func(run *c10Run, s *astate, elem func() xval) xval {
		return func(run *c10Run, s *astate, elem func() xval) xval {
			return run.obj(s, "types.DelimitedBlock", F("Kind", fmt.Sprintf("%q", kind), "Elements", []xval{elem()}))
		}
	}
	table := func(part, format string) func(run *c10Run, s *astate, elem func() xval) xval {
		return func(run *c10Run, s *astate, elem func() xval) xval {
			cell := run.obj(s, "types.TableCell", F("Format", fmt.Sprintf("%q", format), "Elements", []xval{elem()}))
			row := run.obj(s, "types.TableRow", F("Cells", []xval{cell}))
			if part == "Rows" {
				return run.obj(s, "types.Table", F(part, []xval{row}))
			}
			return run.obj(s, "types.Table", F(part, row))
		}
	}
	items := func(t string, more func(run *c10Run, s *astate, elem func() xval) xval) func(run *c10Run, s *astate, elem func() xval) xval {
		return func(run *c10Run, s *astate, elem func() xval) xval {
			f := F("Elements", []xval{para(run, s, elem)}, "Attributes", xconst("nil"))
			if t == "types.LabeledListElement" {
				f["Term"] = []xval{elem()}
			}
			l := []xval{run.obj(s, t, f)}
			if more != nil {
				l = append(l, run.obj(s, "types.ListContinuation", F("Element", more(run, s, elem))))
			}
			return run.obj(s, "types.ListElements", F("Elements", l))
		}
	}
	var listElements []string
	if n := w.typ("pkg/types", "ListElement"); n != nil {
		for _, t := range w.implementers(n.Underlying().(*types.Interface)) {
			listElements = append(listElements, typeName(deref(t)))
		}
	}
	sort.Strings(listElements)
	r.Floor("kinds of list elements", len(listElements), 4)
	var scs []scenario
	add := func(name string, build, again func(run *c10Run, s *astate, elem func() xval) xval) {
		scs = append(scs, scenario{name: name, build: build, again: again})
	}
	add("a paragraph", para, nil)
	for _, k := range kinds {
		if k == "comment" {
			continue // removed (C24)
		}
		add("a delimited block of kind "+k, block(k), para)
	}
	for _, part := range []string{"Header", "Rows", "Footer"} {
		add("a cell in the "+strings.ToLower(part)+" of a table", table(part, ""), nil)
		add("a cell of AsciiDoc in the "+strings.ToLower(part)+" of a table", table(part, "a"), para)
		scs[len(scs)-1].several = true
	}
	for _, t := range listElements {
		add("an element of "+t, items(t, nil), nil)
	}
	// what is parsed again: by which kinds of blocks
	if len(listElements) > 0 {
		t := "types.UnorderedListElement"
		example := block("example")
		cell := table("Rows", "a")
		lst := items(t, nil)
		attached := items(t, example)
		inside := []struct {
			name  string
			build func(run *c10Run, s *astate, elem func() xval) xval
		}{{"a list", lst}, {"a block attached to a list element", attached}, {"an example block", example}, {"a cell of AsciiDoc", cell}, {"a table attached to a list element", items(t, cell)}}
		outer := []struct {
			name  string
			build func(run *c10Run, s *astate, elem func() xval) xval
		}{{"an example block", example}, {"a cell of AsciiDoc", cell}, {"an example block attached to a list element", attached}}
		for i, o := range outer {
			for _, in := range inside {
				if i == 2 && in.name != "a list" {
					continue
				}
				add(in.name+" in "+o.name, o.build, in.build)
			}
		}
	}
	values := map[*ssa.Function]bool{}
	for f, forms := range c.valueEliminators("types.AttributeReference") {
		if forms["a list"] == "" {
			values[f] = true
		}
	}
	maps := w.mapEliminators(values)
	run1 := func(sc scenario, kind string) string {
		run := w.newC10Run()
		run.x.limit = 400000
		run.allSubs = kind == "types.AttributeReference"
		s := newAState()
		isKind := map[string]bool{}
		n := 0
		elem := func() xval {
			o := run.obj(s, kind, nil)
			isKind[o.s] = true
			return o
		}
		depth := 0
		run.start(s, maps)
		run.inState = func(st *astate) []xval {
			depth++
			old := s
			s = st
			defer func() { s = old }()
			again := para
			if sc.again != nil && st.data["parsed again"] == "" {
				again = sc.again
			}
			st.data["parsed again"] = "1"
			if sc.several {
				return []xval{again(run, st, elem), again(run, st, elem)}
			}
			return []xval{again(run, st, elem)}
		}
		root := sc.build(run, s, elem)
		els := run.x.newList(s, []xval{root})
		s.mem["frag.Elements"] = els
		run.watched["frag.Elements"] = "the elements of the fragment"
		s.mem["frag.Error"] = xconst("nil")
		bad := ""
		var step func(i int, s *astate)
		step = func(i int, s *astate) {
			if bad != "" || run.x.over {
				return
			}
			if i == len(stages) {
				n++
				for _, t := range sortedKeys(run.attrs) {
					if bad == "" && s.data["done "+t] == "" {
						bad = "the values of its attributes are not processed on some path"
					}
				}
				if bad != "" {
					return
				}
				bad = run.remains(s, func(v xval) bool {
					if isKind[v.s] {
						return true
					}
					for _, f := range run.x.typeFacts(s, v) {
						if f.yes && typeName(deref(f.t)) == "types.ListElements" {
							return true
						}
					}
					return false
				})
				return
			}
			g := stages[i]
			var args []xval
			for _, p := range g.Params {
				if typeName(deref(p.Type())) == "types.DocumentFragment" {
					args = append(args, xval{k: 'S', s: "frag"})
				} else {
					args = append(args, xterm("param "+p.Name()))
				}
			}
			run.x.run(g, args, nil, s, func(fr *aframe, s *astate, res []xval, ret *ssa.Return) {
				if len(res) != 1 || bad != "" {
					return
				}
				e := s.load(res[0].s + ".Error")
				if l, ok := s.link[res[0].s]; ok && e.k == 'T' {
					e = s.load(l + ".Error")
				}
				if e.k != 'C' || e.s != "nil" {
					return
				}
				els := s.load(res[0].s + ".Elements")
				if l, ok := s.link[res[0].s]; ok && els.k == 'T' {
					els = s.load(l + ".Elements")
				}
				s = s.clone()
				s.mem["frag.Elements"] = els
				s.mem["frag.Error"] = xconst("nil")
				step(i+1, s)
			})
		}
		step(0, s)
		if run.x.over {
			return "not decided within the limit"
		}
		if n == 0 && bad == "" {
			return "no path through " + strings.Join(names, ", ") + " keeps the elements"
		}
		return bad
	}
	for _, sc := range scs {
		why := run1(sc, "types.RawLine")
		r.Check("content", sc.name, w.pos(stages[0].Pos()), why == "", "the lines or the elements of lists in "+sc.name+" are not processed by "+strings.Join(names, ", ")+": "+why)
	}
	r.Count("scenarios of blocks", len(scs))
	// references in the attributes, titles, locations and values of blocks
	blocks := map[string]bool{}
	if x := c.g.rules["DocumentFragment"]; x != nil {
		for t := range c.yields[x.expr] {
			blocks[t] = true
		}
	}
	for _, t := range listElements {
		blocks[t] = true
	}
	attachable := map[string]bool{}
	for t := range c.direct[fieldPlace{"types.ListContinuation", "Element"}] {
		attachable[t] = true
	}
	n := 0
	for _, t := range sortedKeys(blocks) {
		tn := w.typ("pkg/types", strings.TrimPrefix(t, "types."))
		if tn == nil || t == "types.FrontMatter" {
			continue
		}
		st, ok := tn.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			attributes := typeName(f.Type()) == "types.Attributes"
			location := typeName(deref(f.Type())) == "types.Location"
			direct := c.direct[fieldPlace{t, f.Name()}]["types.AttributeReference"]
			if !attributes && !location && !direct {
				continue
			}
			n++
			sc := scenario{build: func(run *c10Run, s *astate, elem func() xval) xval {
				m := F()
				switch {
				case attributes:
					a := xterm("attributes of " + t)
					run.attrs[a.s] = t
					m[f.Name()] = a
				case location:
					m[f.Name()] = run.obj(s, "types.Location", F("Path", []xval{elem()}))
				default:
					m[f.Name()] = []xval{elem()}
				}
				o := run.obj(s, t, m)
				for _, l := range listElements {
					if l == t {
						return run.obj(s, "types.ListElements", F("Elements", []xval{o}))
					}
				}
				return o
			}}
			why := run1(sc, "types.AttributeReference")
			r.Check("references", t+"."+f.Name(), w.pos(stages[0].Pos()), why == "", "references to attributes in "+t+"."+f.Name()+" are not replaced by "+strings.Join(names, ", ")+": "+why)
			if !attachable[t] || direct {
				continue
			}
			in := sc.build
			sc.build = func(run *c10Run, s *astate, elem func() xval) xval {
				return items("types.UnorderedListElement", func(run *c10Run, s *astate, _ func() xval) xval { return in(run, s, elem) })(run, s, func() xval { return run.obj(s, "types.StringElement", nil) })
			}
			why = run1(sc, "types.AttributeReference")
			r.Check("references", t+"."+f.Name()+" attached to a list element", w.pos(stages[0].Pos()), why == "", "references to attributes in "+t+"."+f.Name()+", attached to an element of a list, are not replaced by "+strings.Join(names, ", ")+": "+why)
		}
	}
	r.Floor("fields of blocks with references", n, 8)
}
