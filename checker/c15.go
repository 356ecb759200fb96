package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: identifiers of sections are unique, and everything which can be referenced is registered.

func init() {
	register(&checkDef{id: "C15", title: "Section identifiers are unique and registered under the rendered name", run: runC15,
		explanation: "The functions which choose the identifier of a section (they are given the references, and write the key `id`) are followed along all their paths: where one returns without an error, the identifier which it has written is the one which a test of the same path found not to be referenced, and each test used is itself followed: it must answer no only after all the references were compared (regardless of case, if a template renders the identifiers of sections in lower case) or when the lookup of exactly this identifier fails. The stage which collects the references is followed for a fragment with an element of each type which can be referenced: when the element was processed, the references must have its title under its identifier, sections get their identifier from a function which is given the same references before that, and the document which is returned has these references. The Reference method of each of these types is followed with an identifier and a title, and with elements nested in each place where the type can have blocks, up to two containers deep: each of them must be in the references at the end. The types are those which have the method, and those whose attributes the renderer gives to both the function for identifiers and the one for titles. References are looked up in the renderer under the identifier of the cross reference, unchanged.",
		assumptions: []string{"elements are not changed between the aggregation and the rendering (C06)", "sections have no elements yet when they are registered: the stage adds the elements after them one by one, and registers each of them"}})
}

var guardCache = map[*ssa.Function]int{} // 0: false is free, 1: true is free, 2: not a test

type c15Run struct {
	*c24Run
	want map[string]xval // identifier -> the title expected in the references
	any  map[string]bool // accepted with any value
}

func runC15(w *World, r *Report) {
	w.buildCallGraph()
	refsT := w.typ("pkg/types", "ElementReferences")
	refd := w.typ("pkg/types", "Referencable")
	section := w.typ("pkg/types", "Section")
	if refsT == nil || refd == nil || section == nil {
		r.Fail("references", "types", "", "the types of references are not found")
		return
	}
	c15Unique(w, r, refsT)
	impl := c15Types(w, r, refd)
	c15Methods(w, r, refsT, section, impl)
	c15Stage(w, r, refsT, section, impl)
	c15Lookups(w, r, refsT)
}

func c15Param(g *ssa.Function, t types.Type) int {
	for i, p := range g.Params {
		if types.Identical(p.Type(), t) {
			return i
		}
	}
	return -1
}

// c15Unique: the identifiers which are generated were tested against the references.
func c15Unique(w *World, r *Report, refsT types.Type) {
	fold := c15Fold(w)
	if fold {
		r.Note("templates render the identifiers of sections in lower case: tests have to ignore the case")
	}
	n := 0
	guards := map[*ssa.Function]bool{}
	for _, g := range w.Funcs {
		if c15Param(g, refsT) < 0 || !returnsError(g) || !writesKey(g, "id", 0) {
			continue
		}
		n++
		pi := c15Param(g, refsT)
		ref := xval{k: 'O', s: "refs"}
		x := &absint{w: w, maxDepth: 6}
		x.inline = func(h *ssa.Function) bool {
			return w.inScopeFn(h) && !w.isGenerated(h) && c15Param(h, refsT) < 0 && writesKey(h, "id", 0)
		}
		x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
			h := fn.fn
			if h == nil || c15Param(h, refsT) < 0 || !inPkgs(h) {
				return nil, false
			}
			j := c15Param(h, refsT)
			if len(args) != len(h.Params) || args[j].s != "refs" || h.Signature.Results().Len() != 1 || h.Signature.Results().At(0).Type().String() != "bool" {
				return nil, false
			}
			for i, p := range h.Params {
				if p.Type().String() == "string" {
					guards[h] = true
					return []xval{xterm("guard " + fnName(h) + "(" + args[i].s + ")")}, true
				}
			}
			return nil, false
		}
		args := make([]xval, len(g.Params))
		for i, p := range g.Params {
			args[i] = xval{k: 'O', s: "param " + p.Name()}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b != nil {
				args[i] = xterm("param " + p.Name())
			}
		}
		args[pi] = ref
		returns := 0
		x.run(g, args, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			e := res[len(res)-1]
			if e.k != 'C' || e.s != "nil" {
				if v, ok := s.conds[x.binop(token.EQL, e, xconst("nil")).s]; ok && !v {
					return
				}
				if e.k != 'T' { // a new error
					return
				}
			}
			returns++
			ids := map[string]bool{}
			for i, p := range g.Params {
				st, ok := deref(p.Type()).Underlying().(*types.Struct)
				if !ok {
					if typeName(p.Type()) == "types.Attributes" {
						if v, ok := s.mem[args[i].s+"[\"id\"]"]; ok {
							ids[v.s] = true
						}
					}
					continue
				}
				for j := 0; j < st.NumFields(); j++ {
					if typeName(st.Field(j).Type()) == "types.Attributes" {
						if v, ok := s.mem[s.load(args[i].s+"."+st.Field(j).Name()).s+"[\"id\"]"]; ok {
							ids[v.s] = true
						}
					}
				}
			}
			if len(ids) == 0 {
				r.Fail("unique", fnName(g), w.pos(ret.Pos()), "no identifier is set on a path which returns without an error")
				return
			}
			for id := range ids {
				free := false
				if v, ok := s.conds["found refs["+id+"]"]; ok && !v && !fold {
					free = true
				}
				for h := range guards {
					if v, ok := s.conds["guard "+fnName(h)+"("+id+")"]; ok {
						if neg, known := c15Guard(w, r, h, refsT, fold); known && v == neg {
							free = true
						}
					}
				}
				r.Check("unique", fnName(g), w.pos(ret.Pos()), free, "the identifier which is set is not known to be free: no test of this path says that no element is registered under it")
			}
		})
		if x.over {
			r.Fail("unique", fnName(g), w.pos(g.Pos()), "not decided within the limit")
		}
		if returns == 0 {
			r.Fail("unique", fnName(g), w.pos(g.Pos()), "no path returns without an error")
		}
	}
	r.Floor("functions which choose identifiers", n, 1)
}

func inPkgs(h *ssa.Function) bool { return h.Pkg != nil && len(h.Blocks) > 0 }

func returnsError(g *ssa.Function) bool {
	l := g.Signature.Results()
	return l.Len() > 0 && l.At(l.Len()-1).Type().String() == "error"
}

// writesKey: the function, or one which it calls, writes the key of a map.
func writesKey(g *ssa.Function, key string, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, in := range instrs(g) {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			if c, ok := in.Key.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "\""+key+"\"" {
				return true
			}
		case *ssa.Call:
			if h := in.Call.StaticCallee(); h != nil && h.Pkg == g.Pkg && len(h.Blocks) > 0 && h != g && writesKey(h, key, depth+1) {
				return true
			}
		}
	}
	return false
}

// c15Fold: a template renders the identifiers of sections in lower case.
func c15Fold(w *World) bool {
	for _, b := range w.templates().backends {
		for _, tree := range b.trees {
			if tree != nil && tree.Root != nil && strings.Contains(tree.Root.String(), "toLower .ID") {
				return true
			}
		}
	}
	return false
}

// c15Guard: the value which the test returns when nothing is registered under the identifier.
func c15Guard(w *World, r *Report, h *ssa.Function, refsT types.Type, fold bool) (neg, known bool) {
	if v, ok := guardCache[h]; ok {
		return v == 1, v != 2
	}
	var id xval
	x := &absint{w: w, maxDepth: 4}
	args := make([]xval, len(h.Params))
	for i, p := range h.Params {
		args[i] = xterm("param " + p.Name())
		switch {
		case types.Identical(p.Type(), refsT):
			args[i] = xval{k: 'O', s: "refs"}
		case p.Type().String() == "string" && id.k == 0:
			id = xterm("the id")
			args[i] = id
		}
	}
	x.inline = func(g *ssa.Function) bool { return w.inScopeFn(g) && !w.isGenerated(g) }
	x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
		if fn.fn == nil || fn.fn.Pkg == nil {
			return nil, false
		}
		switch fn.fn.Pkg.Pkg.Path() + "." + fn.fn.Name() {
		case "strings.EqualFold":
			a, b := args[0].s, args[1].s
			if b < a {
				a, b = b, a
			}
			return []xval{xterm("(" + a + " ~~ " + b + ")")}, true
		case "strings.ToLower", "strings.ToUpper":
			return []xval{xterm(fn.fn.Name() + "(" + args[0].s + ")")}, true
		}
		return nil, false
	}
	// differs: the path says that the key which is looked at is another one
	same := func(s *astate) (yes, no bool) {
		for k, v := range s.conds {
			if !strings.Contains(k, "the id") {
				continue
			}
			eq := strings.Contains(k, " ~~ ") || strings.Contains(k, " == ") && (!fold || strings.Count(k, "ToLower(") == 2 || strings.Count(k, "ToUpper(") == 2)
			if !eq && !strings.Contains(k, " == ") {
				continue
			}
			if v {
				yes = true
			} else if eq {
				no = true
			}
		}
		return
	}
	ends := func(s *astate) bool { // all the references were looked at, or the lookup fails
		for k, v := range s.conds {
			if !v && (strings.HasPrefix(k, "next ") || !fold && k == "found refs[the id]") {
				return true
			}
		}
		return false
	}
	bad := ""
	var frees, taken []string
	iter := false
	x.loop = func(f *aframe, s *astate, head *ssa.BasicBlock) {
		if f.fn == h {
			iter = true
			if yes, no := same(s); yes || !no {
				bad = "a reference may be passed over without being compared with the identifier"
			}
		}
	}
	x.visit = func(f *aframe, s *astate, in ssa.Instruction) {
		if e, ok := in.(*ssa.Extract); ok && e.Index == 0 {
			if n, ok := e.Tuple.(*ssa.Next); ok {
				f.env[n] = xval{k: 'Q', list: []xval{xterm("next " + n.Name()), xterm("key " + n.Name()), xterm("value " + n.Name())}}
			}
		}
	}
	x.run(h, args, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		v := res[0]
		if v.k == 'T' && (v.s == "found refs[the id]" || v.s == "!found refs[the id]") && !fold {
			if strings.HasPrefix(v.s, "!") {
				frees = append(frees, "true")
			} else {
				frees = append(frees, "false")
			}
			return
		}
		if v.k != 'C' {
			bad = "the result is not known (" + v.s + ")"
			return
		}
		if yes, _ := same(s); yes {
			taken = append(taken, v.s)
			return
		}
		if ends(s) {
			frees = append(frees, v.s)
			return
		}
		taken = append(taken, v.s)
	})
	if x.over {
		bad = "not decided within the limit"
	}
	free := ""
	for _, v := range frees {
		if free != "" && free != v {
			bad = "the result does not say whether the identifier is free"
		}
		free = v
	}
	for _, v := range taken {
		if v == free {
			bad = "the identifier is said to be free without all the references being compared with it"
		}
	}
	if free == "" && bad == "" {
		bad = "no path finds the identifier to be free"
	}
	_ = iter
	r.Check("test", fnName(h), w.pos(h.Pos()), bad == "", bad)
	st := 2
	if bad == "" {
		if free == "true" {
			st = 1
		} else {
			st = 0
		}
	}
	guardCache[h] = st
	return st == 1, st != 2
}

// c15Types: the types of blocks which can be referenced.
func c15Types(w *World, r *Report, refd *types.Named) []types.Type {
	impl := w.implementers(refd.Underlying().(*types.Interface))
	r.Floor("types which can be referenced", len(impl), 6)
	has := map[string]bool{}
	for _, t := range impl {
		has[typeName(deref(t))] = true
	}
	// those which the renderer gives both an identifier and a title
	sgml := w.SSA[pkgPath("pkg/renderer/sgml")]
	n := 0
	seen := map[string]bool{}
	for _, g := range w.Funcs {
		if g.Pkg != sgml {
			continue
		}
		ids, titles := map[string]bool{}, map[string]bool{}
		for _, in := range instrs(g) {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			h := call.Call.StaticCallee()
			if h == nil || h.Pkg != sgml {
				continue
			}
			for _, a := range call.Call.Args {
				u, ok := a.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || typeName(a.Type()) != "types.Attributes" {
					continue
				}
				t := typeName(deref(fa.X.Type()))
				if readsKey(h, "id") {
					ids[t] = true
				}
				if readsKey(h, "title") {
					titles[t] = true
				}
			}
		}
		for t := range ids {
			if titles[t] && !seen[t] {
				seen[t] = true
				n++
				r.Check("referencable", t, w.pos(g.Pos()), has[t], "it is rendered with an identifier and a title (in "+fnName(g)+"), but cannot be registered: it has no method Reference")
			}
		}
	}
	r.Floor("types rendered with an identifier and a title", n, 4)
	return impl
}

// readsKey: the function itself reads the key of a map.
func readsKey(g *ssa.Function, key string) bool {
	for _, in := range instrs(g) {
		switch in := in.(type) {
		case *ssa.Lookup:
			if c, ok := in.Index.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "\""+key+"\"" {
				return true
			}
		case *ssa.Call:
			for _, a := range in.Call.Args {
				if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "\""+key+"\"" {
					return true
				}
			}
		}
	}
	return false
}

// element makes an element of the type, with an identifier and a title.
func (c *c15Run) element(s *astate, t types.Type, refdTypes []types.Type, nested []types.Type) xval {
	c.n++
	o := xval{k: 'O', s: fmt.Sprintf("obj%d", c.n)}
	c.x.assume(s, o, t, true)
	id := xterm(fmt.Sprintf("id%d.", c.n))
	title := xterm(fmt.Sprintf("title%d.", c.n))
	c.x.assume(s, id, types.Typ[types.String], true)
	for _, v := range []xval{xconst("\"\""), xconst("nil")} {
		c.x.learn(s, c.x.binop(token.NEQ, id, v), true)
		if typeName(deref(t)) != "types.Section" { // the title of a section may be empty
			c.x.learn(s, c.x.binop(token.NEQ, title, v), true)
		}
	}
	l := xterm("len(" + id.s + ")")
	c.x.learn(s, c.x.binop(token.EQL, l, xconst("0")), false)
	s.data["\x00known "+o.s] = "1"
	st := deref(t).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if len(nested) == 0 {
			switch f.Type().Underlying().(type) {
			case *types.Slice, *types.Pointer:
				s.mem[o.s+"."+f.Name()] = xconst("nil")
			}
		}
		if typeName(f.Type()) == "types.Attributes" {
			a := o.s + ".attrs"
			s.mem[o.s+"."+f.Name()] = xval{k: 'O', s: a}
			s.mem[a+"[\"id\"]"] = id
			s.mem[a+"[\"title\"]"] = title
		} else if f.Name() == "Title" {
			s.mem[o.s+"."+f.Name()] = title
		}
	}
	c.want[id.s] = title
	if len(nested) > 0 {
		c.fill(s, o.s, t, refdTypes, nested, 0)
	}
	return o
}

// fill places an element of the first of the nested types wherever the type can have blocks.
func (c *c15Run) fill(s *astate, addr string, t types.Type, refdTypes []types.Type, nested []types.Type, depth int) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return
	}
	read := map[string]bool{}
	get := c.w.methodOf(t, "GetElements")
	if get != nil {
		for _, f := range append([]*ssa.Function{get}, get.AnonFuncs...) {
			for _, in := range instrs(f) {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					read[xfield(fa)] = true
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		a := addr + "." + f.Name()
		switch u := f.Type().Underlying().(type) {
		case *types.Struct:
			if f.Embedded() {
				c.fill(s, a, f.Type(), refdTypes, nested, depth+1)
			}
		case *types.Slice:
			if get != nil && !read[f.Name()] {
				continue
			}
			switch e := u.Elem().Underlying().(type) {
			case *types.Interface:
				if e.Empty() {
					s.mem[a] = c.x.newList(s, []xval{c.element(s, nested[0], refdTypes, nested[1:]), c.element(s, nested[0], refdTypes, nested[1:])})
					continue
				}
				if types.AssignableTo(nested[0], u.Elem()) {
					s.mem[a] = c.x.newList(s, []xval{c.element(s, nested[0], refdTypes, nested[1:]), c.element(s, nested[0], refdTypes, nested[1:])})
				}
			case *types.Pointer:
				var l []xval
				for j := 0; j < 2; j++ {
					l = append(l, c.part(s, u.Elem(), refdTypes, nested, depth))
				}
				s.mem[a] = c.x.newList(s, l)
			}
		case *types.Pointer:
			if c.holdsBlocks(f.Type(), 0) {
				s.mem[a] = c.part(s, f.Type(), refdTypes, nested, depth)
			}
		}
	}
}

// part makes a part of a block (row, cell) which is not an element of its own.
func (c *c15Run) part(s *astate, t types.Type, refdTypes []types.Type, nested []types.Type, depth int) xval {
	c.n++
	o := xval{k: 'O', s: fmt.Sprintf("obj%d", c.n)}
	c.x.assume(s, o, t, true)
	c.fill(s, o.s, t, refdTypes, nested, depth+1)
	return o
}

func (c *c15Run) holdsBlocks(t types.Type, depth int) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if e, ok := sl.Elem().Underlying().(*types.Interface); ok && e.Empty() {
			return true
		}
		if p, ok := sl.Elem().Underlying().(*types.Pointer); ok && c.holdsBlocks(p, depth+1) {
			return true
		}
	}
	return false
}

// missing: an element which is not in the references.
func (c *c15Run) missing(s *astate, refs string, skip map[string]bool) string {
	var ids []string
	for id := range c.want {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if skip[id] {
			continue
		}
		v, ok := s.mem[refs+"["+id+"]"]
		if !ok {
			return "an element is not registered"
		}
		if v.key() != c.want[id].key() {
			return "an element is not registered with its title"
		}
	}
	return ""
}

func c15Containers(w *World, section types.Type, impl []types.Type) []types.Type {
	var l []types.Type
	elem := w.typ("pkg/types", "ListElement")
	for _, t := range impl {
		n := typeName(deref(t))
		if elem != nil && types.Implements(t, elem.Underlying().(*types.Interface)) || n == "types.List" || n == "types.DelimitedBlock" || n == "types.Table" {
			l = append(l, t)
		}
	}
	return l
}

// c15Methods: the methods which register elements.
func c15Methods(w *World, r *Report, refsT, section types.Type, impl []types.Type) {
	conts := c15Containers(w, section, impl)
	r.Floor("types of blocks with blocks", len(conts), 4)
	elem := w.typ("pkg/types", "ListElement")
	isElem := func(t types.Type) bool {
		return elem != nil && types.Implements(t, elem.Underlying().(*types.Interface))
	}
	try := func(t types.Type, nested []types.Type) string {
		m := w.methodOf(t, "Reference")
		if m == nil || len(m.Params) != 2 {
			return "no method Reference"
		}
		c := &c15Run{c24Run: &c24Run{w: w}, want: map[string]xval{}}
		c.x = &absint{w: w, lists: true, maxDepth: 40, limit: 20000,
			inline: func(g *ssa.Function) bool { return w.inScopeFn(g) && !w.isGenerated(g) }}
		s := newAState()
		ref := xval{k: 'O', s: "refs"}
		o := c.element(s, t, impl, nested)
		bad := ""
		n := 0
		c.x.run(m, []xval{o, ref}, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			n++
			if why := c.missing(s, "refs", nil); why != "" {
				bad = why
			}
		})
		if c.x.over {
			return "not decided within the limit"
		}
		if n == 0 {
			return "no path of " + fnName(m) + " returns"
		}
		return bad
	}
	pos := func(t types.Type) string {
		if m := w.methodOf(t, "Reference"); m != nil {
			return w.pos(m.Pos())
		}
		return ""
	}
	para := w.typ("pkg/types", "Paragraph")
	broken := map[string]bool{}
	for _, t := range impl {
		n := typeName(deref(t))
		why := try(t, nil)
		r.Check("registers", n, pos(t), why == "", why)
		r.Count("scenarios", 1)
		if why != "" {
			broken[n] = true
		}
	}
	for _, a := range conts {
		if broken[typeName(deref(a))] {
			continue
		}
		for _, t := range impl {
			if types.Identical(deref(t), section) || typeName(deref(a)) == "types.List" != isElem(t) {
				continue // list elements are in lists only
			}
			n := typeName(deref(t)) + " in " + typeName(deref(a))
			why := try(a, []types.Type{t})
			r.Count("scenarios", 1)
			if broken[typeName(deref(t))] {
				continue
			}
			r.Check("registers", n, pos(a), why == "", why)
			if why != "" {
				broken[typeName(deref(a))] = true
				break
			}
		}
	}
	if para == nil {
		return
	}
	for _, a := range conts {
		for _, b := range conts {
			if broken[typeName(deref(a))] || broken[typeName(deref(b))] || typeName(deref(a)) == "types.List" != isElem(b) {
				continue
			}
			if typeName(deref(b)) == "types.List" {
				continue // its elements come first
			}
			why := try(a, []types.Type{b, types.NewPointer(para)})
			r.Count("scenarios", 1)
			if why != "" {
				r.Fail("registers", "types.Paragraph in "+typeName(deref(b))+" in "+typeName(deref(a)), pos(a), why)
			}
		}
	}
}

// c15Stage: the stage which collects the references of all elements.
func c15Stage(w *World, r *Report, refsT, section types.Type, impl []types.Type) {
	n := 0
	for _, g := range w.Funcs {
		makes := false
		for _, in := range instrs(g) {
			if m, ok := in.(*ssa.MakeMap); ok && types.Identical(m.Type(), refsT) {
				makes = true
			}
		}
		stream := -1
		for i, p := range g.Params {
			if ch, ok := p.Type().Underlying().(*types.Chan); ok && typeName(ch.Elem()) == "types.DocumentFragment" {
				stream = i
			}
		}
		if !makes || stream < 0 {
			continue
		}
		n++
		for _, t := range impl {
			why, pos := c15Fragment(w, g, stream, t, refsT, section)
			if pos == "" {
				pos = w.pos(g.Pos())
			}
			r.Check("stage", typeName(deref(t)), pos, why == "", why)
			r.Count("scenarios", 1)
		}
	}
	r.Floor("stages which collect the references", n, 1)
}

func c15Fragment(w *World, g *ssa.Function, stream int, t, refsT, section types.Type) (bad, pos string) {
	c := &c15Run{c24Run: &c24Run{w: w}, want: map[string]xval{}}
	c.x = &absint{w: w, lists: true, maxDepth: 8, limit: 3000}
	refs := ""
	for _, in := range instrs(g) {
		if m, ok := in.(*ssa.MakeMap); ok && types.Identical(m.Type(), refsT) {
			refs = "1." + m.Name()
		}
	}
	isSection := types.Identical(deref(t), section)
	var elem xval
	c.x.inline = func(h *ssa.Function) bool {
		if !w.inScopeFn(h) || w.isGenerated(h) {
			return false
		}
		for _, p := range h.Params {
			if types.Identical(p.Type(), refsT) {
				return true
			}
		}
		return h.Pkg == w.SSA[pkgPath("pkg/types")] && strings.Contains(h.RelString(nil), "Attributes)")
	}
	c.x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
		h := fn.fn
		if h == nil || !writesKey(h, "id", 0) || c15Param(h, refsT) < 0 || !returnsError(h) {
			return nil, false
		}
		for i, p := range h.Params {
			if i < len(args) && types.Identical(deref(p.Type()), section) && args[i].s == elem.s {
				if args[c15Param(h, refsT)].s != refs {
					bad, pos = "the identifier of the section is chosen with other references than those which are collected", w.pos(in.Pos())
				}
				if s.data["\x00resolved"] != "" {
					return nil, false
				}
				id := xterm("chosen.")
				c.x.assume(s, id, types.Typ[types.String], true)
				for _, v := range []xval{xconst("\"\""), xconst("nil")} {
					c.x.learn(s, c.x.binop(token.NEQ, id, v), true)
				}
				c.x.learn(s, c.x.binop(token.EQL, xterm("len("+id.s+")"), xconst("0")), false)
				s.mem[elem.s+".attrs[\"id\"]"] = id
				s.data["\x00resolved"] = "1"
				return []xval{xterm("resolve")}, true
			}
		}
		return nil, false
	}
	s := newAState()
	elem = c.element(s, t, nil, nil)
	title := c.want["id1."]
	args := make([]xval, len(g.Params))
	for i, p := range g.Params {
		args[i] = xterm("param " + p.Name())
	}
	base := "<-(param " + g.Params[stream].Name() + ")"
	for _, b := range []string{base, base + "#0"} {
		s.mem[b+".Elements"] = c.x.newList(s, []xval{elem})
	}
	s.mem[base+".Error"], s.mem[base+"#0.Error"] = xconst("nil"), xconst("nil")
	done := 0
	c.x.keep = func(addr string) bool {
		return strings.HasPrefix(addr, "obj") || strings.HasPrefix(addr, "list") || strings.HasPrefix(addr, "<-(")
	}
	c.x.loop = func(f *aframe, s *astate, head *ssa.BasicBlock) {
		if f.fn != g {
			return
		}
		ch := false
		for _, in := range head.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				ch = true
			}
			if _, ok := in.(*ssa.Select); ok {
				ch = true
			}
		}
		if !ch {
			return
		}
		if v, ok := s.conds["(nil == resolve)"]; ok && !v {
			done++ // refused or logged: C02
			return
		}
		if v, ok := s.conds["(resolve == nil)"]; ok && !v {
			done++
			return
		}
		if s.data["\x00seen"] == "" && !strings.Contains(s.key(), elem.s+":") {
			return
		}
		done++
		id := "id1."
		if isSection {
			id = "chosen."
			if s.data["\x00resolved"] == "" {
				bad = "the identifier of the section is not made unique"
				return
			}
		}
		v, ok := s.mem[refs+"["+id+"]"]
		switch {
		case !ok && isSection && s.mem[refs+"[id1.]"].k != 0:
			bad = "the section is registered before its identifier is chosen"
		case !ok:
			bad = "the element is not registered in the references which are collected"
		case v.key() != title.key():
			bad = "the element is not registered with its title"
		}
	}
	returned := 0
	c.x.run(g, args, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		if len(res) == 0 || res[0].k == 'C' {
			return
		}
		returned++
		v := s.load(res[0].s + ".ElementReferences")
		if v.s == refs {
			return
		}
		empty := false
		for k, val := range s.conds {
			if val && (k == "(0 == len("+refs+"))" || k == "(len("+refs+") == 0)") {
				empty = true
			}
		}
		if !empty {
			bad, pos = "the document is returned without the references which were collected", w.pos(ret.Pos())
		}
	})
	switch {
	case c.x.over:
		return "not decided within the limit", pos
	case bad != "":
	case done == 0:
		bad = "no path of " + fnName(g) + " processes an element"
	case returned == 0:
		bad = "no path of " + fnName(g) + " returns a document"
	}
	return bad, pos
}

// c15Lookups: the renderer looks references up under the identifier of the cross reference.
func c15Lookups(w *World, r *Report, refsT types.Type) {
	n := 0
	for _, g := range w.Funcs {
		if g.Pkg != w.SSA[pkgPath("pkg/renderer/sgml")] {
			continue
		}
		for _, in := range instrs(g) {
			l, ok := in.(*ssa.Lookup)
			if !ok || !types.Identical(l.X.Type(), refsT) {
				continue
			}
			n++
			v := l.Index
			for {
				switch u := v.(type) {
				case *ssa.Extract:
					v = u.Tuple
					continue
				case *ssa.TypeAssert:
					v = u.X
					continue
				case *ssa.Phi:
					if len(u.Edges) > 0 {
						v = u.Edges[0]
						continue
					}
				}
				break
			}
			ok = false
			switch u := v.(type) {
			case *ssa.UnOp:
				if fa, isF := u.X.(*ssa.FieldAddr); isF {
					ok = xfield(fa) == "ID"
				}
			case *ssa.Parameter:
				ok = true
			case *ssa.Next:
				ok = true
			}
			r.Check("lookup", fnName(g), w.pos(l.Pos()), ok, "the reference is not looked up under the identifier of the cross reference")
		}
	}
	r.Floor("lookups of references", n, 1)
}
