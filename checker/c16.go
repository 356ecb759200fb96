package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: every footnote is collected and numbered once, wherever it occurs.

func init() {
	register(&checkDef{id: "C16", title: "Every footnote is collected and numbered once, wherever it occurs", run: runC16,
		explanation: "The places where a footnote can be are read from the program: the fields with elements which the renderer reads, those which give the elements of a type, and the attributes whose values are elements and which the renderer reads (titles and labels). The stage which collects the footnotes is followed, with all methods which it reaches, for an element of each type with a footnote in each of its places, within each of the other types too: on every path each footnote must be replaced by a reference with its number, be in the list once, and the numbers must be those of the order of rendering. For up to three footnotes with arbitrary names, with and without content, the conditions of each path must agree with the rule (a name which was defined is referenced again, a footnote with content is new, anything else is invalid) for all values of the names which the path allows; a footnote in a footnote is replaced too. The function which starts the stages gives the document the list of the same footnotes, and the renderer writes each of them.",
		assumptions: []string{"elements are given to the stage in the order of the document (C04)", "preambles, the elements of sections and lists are put together after the stage, from elements which went through it"}})
}

type c16Place struct {
	t     types.Type // pointer to a structure
	field string     // a field with elements, or
	key   string     // a key of the attributes
}

type c16Run struct {
	*c24Run
	places map[string][]c16Place // by type
	next   int
	put    []string // addresses where the footnotes were put, in order
	notes  []string
}

func runC16(w *World, r *Report) {
	w.buildCallGraph()
	notesT, noteT, refT := w.typ("pkg/types", "Footnotes"), w.typ("pkg/types", "Footnote"), w.typ("pkg/types", "FootnoteReference")
	if notesT == nil || noteT == nil || refT == nil {
		r.Fail("footnotes", "types", "", "the types of footnotes are not found")
		return
	}
	var mk *ssa.Function
	for _, g := range w.Funcs {
		if len(g.Params) == 0 && g.Parent() == nil && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), types.NewPointer(notesT)) {
			mk = g
		}
	}
	if mk == nil {
		r.Fail("footnotes", "constructor", "", "no function makes the list of footnotes")
		return
	}
	var stages []*ssa.Function
	for g := range w.stageFunctions() {
		for _, p := range g.Params {
			if types.Identical(p.Type(), types.NewPointer(notesT)) {
				stages = append(stages, g)
			}
		}
	}
	sort.Slice(stages, func(i, j int) bool { return fnName(stages[i]) < fnName(stages[j]) })
	r.Floor("stages which collect footnotes", len(stages), 1)
	c := &c16Check{w: w, r: r, mk: mk, notesT: notesT, noteT: noteT, refT: refT, para: w.typ("pkg/types", "Paragraph"), text: w.typ("pkg/types", "StringElement")}
	c.findPlaces()
	for _, g := range stages {
		c.positions(g)
		c.sequences(g)
	}
	c.wiring()
	c.rendering()
}

type c16Check struct {
	w                   *World
	r                   *Report
	mk                  *ssa.Function
	notesT, noteT, refT *types.Named
	para, text          *types.Named
	places              map[string][]c16Place
	names               []string
	typesOf             map[string]types.Type
	holders             []string // types which hold other elements
}

// the types which are put together after the stage, or are parts of others
var c16read map[string]bool // types which the renderer knows

var c16Later = map[string]bool{"types.Document": true, "types.DocumentFragment": true, "types.Preamble": true, "types.Footnote": true, "types.TableCell": true, "types.TableRow": true, "types.List": true}

func c16Elements(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := sl.Elem().Underlying().(*types.Interface)
	return ok && i.Empty()
}

// findPlaces: where footnotes can be.
func (c *c16Check) findPlaces() {
	w := c.w
	c.places = map[string][]c16Place{}
	c.typesOf = map[string]types.Type{}
	sgml := w.SSA[pkgPath("pkg/renderer/sgml")]
	var add func(t types.Type, field, key string)
	add = func(t types.Type, field, key string) {
		if _, ok := t.(*types.Pointer); !ok {
			t = types.NewPointer(t)
		}
		n := typeName(deref(t))
		if c16Later[n] && key != "" {
			for _, from := range c.attributesFrom(n) {
				add(from, field, key)
			}
		}
		if c16Later[n] || !strings.HasPrefix(n, "types.") || field == "Elements" && (n == "types.Section" || n == "types.DocumentHeader") {
			return
		}
		for _, p := range c.places[n] {
			if p.field == field && p.key == key {
				return
			}
		}
		c.places[n] = append(c.places[n], c16Place{t, field, key})
		c.typesOf[n] = t
	}
	for _, g := range w.Funcs {
		if g.Pkg != sgml {
			continue
		}
		for _, in := range instrs(g) {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if c16Elements(deref(in.Type())) && c16Loaded(in) {
					add(in.X.Type(), xfield(in), "")
				}
			case *ssa.Field:
				st, _ := in.X.Type().Underlying().(*types.Struct)
				if st != nil && c16Elements(in.Type()) {
					add(in.X.Type(), st.Field(in.Field).Name(), "")
				}
			case *ssa.Call:
				h := in.Call.StaticCallee()
				if h == nil || h.Pkg != sgml {
					continue
				}
				for i, a := range in.Call.Args {
					if owner := c16Owner(a); owner != nil && i < len(h.Params) && rendersKey(h, h.Params[i], "title") {
						add(owner, "", "title")
					}
				}
			case *ssa.Lookup:
				k, ok := in.Index.(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				if owner := c16Owner(in.X); owner != nil {
					switch s := k.Value.ExactString(); s {
					case `"title"`:
						add(owner, "", "title")
					case `"xrefLabel"`, `"` + c16Const(w, "AttrXRefLabel") + `"`:
						add(owner, "", strings.Trim(s, `"`))
					}
				}
			}
		}
	}
	// whose elements are given by their methods
	if n := w.typ("pkg/types", "WithElements"); n != nil {
		for _, t := range w.implementers(n.Underlying().(*types.Interface)) {
			get := w.methodOf(t, "GetElements")
			st, ok := deref(t).Underlying().(*types.Struct)
			if get == nil || !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !c16Elements(f.Type()) {
					continue
				}
				for _, in := range instrs(get) {
					if fa, ok := in.(*ssa.FieldAddr); ok && xfield(fa) == f.Name() && types.Identical(deref(fa.X.Type()), deref(t)) {
						add(t, f.Name(), "")
					}
				}
			}
			nm := typeName(deref(t))
			if !c16Later[nm] && nm != "types.Section" && nm != "types.DocumentHeader" {
				c.holders = append(c.holders, nm)
				c.typesOf[nm] = t
			}
		}
	}
	for n := range c.places {
		c.names = append(c.names, n)
	}
	sort.Strings(c.names)
	// in the order of rendering: titles, then the fields in their order
	for _, n := range c.names {
		st := deref(c.places[n][0].t).Underlying().(*types.Struct)
		idx := map[string]int{"": -1}
		for i := 0; i < st.NumFields(); i++ {
			idx[st.Field(i).Name()] = i
		}
		l := c.places[n]
		sort.SliceStable(l, func(i, j int) bool { return idx[l[i].field] < idx[l[j].field] })
	}
	total := 0
	for _, l := range c.places {
		total += len(l)
	}
	c.r.Count("places of footnotes", total)
	c.r.Floor("types with places of footnotes", len(c.names), 10)
}

// attributesFrom: the types of the elements whose attributes are moved to those of the given type, which is put together later.
func (c *c16Check) attributesFrom(later string) (res []types.Type) {
	for _, g := range c.w.libraryFuncs() {
		for _, in := range instrs(g) {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || xfield(fa) != "Attributes" || typeName(deref(fa.X.Type())) != later {
				continue
			}
			if call, ok := st.Val.(*ssa.Call); ok && call.Call.IsInvoke() && len(call.Call.Args) == 0 {
				if i, ok := call.Call.Value.Type().Underlying().(*types.Interface); ok {
					res = append(res, c.w.implementers(i)...)
				}
				continue
			}
			if owner := c16Owner(st.Val); owner != nil && typeName(deref(owner)) != later {
				res = append(res, owner)
			}
		}
	}
	return res
}

func c16Const(w *World, name string) string {
	if k, ok := w.member("pkg/types", name).(*ssa.NamedConst); ok {
		return strings.Trim(k.Value.Value.ExactString(), `"`)
	}
	return ""
}

func c16Loaded(fa *ssa.FieldAddr) bool {
	for _, u := range refs(fa) {
		if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
			return true
		}
	}
	return false
}

// c16Owner: the structure whose attributes these are.
func c16Owner(v ssa.Value) types.Type {
	if typeName(v.Type()) != "types.Attributes" {
		return nil
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X.Type()
		}
	}
	return nil
}

// rendersKey: the function renders the value of the key of these attributes as elements.
func rendersKey(h *ssa.Function, p *ssa.Parameter, key string) bool {
	for _, in := range instrs(h) {
		l, ok := in.(*ssa.Lookup)
		if !ok || l.X != ssa.Value(p) {
			continue
		}
		if k, ok := l.Index.(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() != `"`+key+`"` {
			continue
		}
		for _, in := range instrs(h) {
			if a, ok := in.(*ssa.TypeAssert); ok && c16Elements(a.AssertedType) {
				return true
			}
		}
	}
	return false
}

func (c *c16Check) newRun() *c16Run {
	k := &c16Run{c24Run: &c24Run{w: c.w}, places: c.places}
	k.x = &absint{w: c.w, lists: true, maxDepth: 40, limit: 30000,
		inline: func(g *ssa.Function) bool { return c.w.inScopeFn(g) && !c.w.isGenerated(g) }}
	k.x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
		if fn.fn != nil && fn.fn.Name() == "IsLevelEnabled" {
			return []xval{xconst("false")}, true
		}
		return nil, false
	}
	return k
}

// note makes a footnote with content.
func (c *c16Check) note(k *c16Run, s *astate, ref xval, elements []xval) xval {
	k.n++
	o := xval{k: 'O', s: fmt.Sprintf("note%d", k.n)}
	k.x.assume(s, o, types.NewPointer(c.noteT), true)
	st := c.noteT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		a := o.s + "." + st.Field(i).Name()
		switch {
		case c16Elements(st.Field(i).Type()):
			s.mem[a] = k.x.newList(s, elements)
		case st.Field(i).Type().String() == "string":
			s.mem[a] = ref
		default:
			s.mem[a] = xconst("0")
		}
	}
	return o
}

func (c *c16Check) word(k *c16Run, s *astate) xval {
	k.n++
	o := xval{k: 'O', s: fmt.Sprintf("text%d", k.n)}
	k.x.assume(s, o, types.NewPointer(c.text), true)
	return o
}

// element makes an element with a footnote in each of its places, or with the elements given there.
func (c *c16Check) element(k *c16Run, s *astate, name string, nested func() []xval) xval {
	t := c.typesOf[name]
	k.n++
	o := xval{k: 'O', s: fmt.Sprintf("obj%d", k.n)}
	k.x.assume(s, o, t, true)
	s.data["\x00known "+o.s] = "1"
	st := deref(t).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map:
			s.mem[o.s+"."+st.Field(i).Name()] = xconst("nil")
		}
	}
	c.fill(k, s, o.s, t, name, nested, 0)
	return o
}

func (c *c16Check) fill(k *c16Run, s *astate, addr string, t types.Type, name string, nested func() []xval, depth int) {
	list := func(a string) {
		if nested != nil {
			s.mem[a] = k.x.newList(s, nested())
			return
		}
		n := c.note(k, s, xconst(`""`), []xval{c.word(k, s)})
		l := k.x.newList(s, []xval{c.word(k, s), n})
		k.put = append(k.put, l.s+"[1]")
		k.notes = append(k.notes, n.s)
		s.mem[a] = l
	}
	st := deref(t).Underlying().(*types.Struct)
	attrs := ""
	for i := 0; i < st.NumFields(); i++ {
		if typeName(st.Field(i).Type()) == "types.Attributes" {
			attrs = st.Field(i).Name()
		}
	}
	for _, p := range c.places[name] {
		if p.key != "" && attrs != "" && nested == nil && depth == 0 {
			a := addr + ".attrs"
			s.mem[addr+"."+attrs] = xval{k: 'O', s: a}
			s.data["\x00map "+a] = "1"
			v := fmt.Sprintf("%s[\"%s\"]", a, p.key)
			list(v)
			k.x.assume(s, s.mem[v], types.NewSlice(types.NewInterfaceType(nil, nil)), true)
		}
	}
	holder := false
	for _, h := range c.holders {
		holder = holder || h == name
	}
	var order []int // footers are rendered last
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "Footer" {
			order = append(order, i)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Footer" {
			order = append(order, i)
		}
	}
	for _, i := range order {
		f := st.Field(i)
		a := addr + "." + f.Name()
		place := false
		for _, p := range c.places[name] {
			place = place || p.field == f.Name()
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			if c16Elements(f.Type()) {
				if place || nested != nil && holder || depth > 0 {
					list(a)
				}
				continue
			}
			if e, ok := u.Elem().(*types.Pointer); ok && c16Later[typeName(deref(e))] {
				var l []xval
				for j := 0; j < 2; j++ {
					l = append(l, c.part(k, s, e, nested, depth))
				}
				s.mem[a] = k.x.newList(s, l)
			}
		case *types.Pointer:
			if c16Later[typeName(deref(u))] {
				s.mem[a] = c.part(k, s, f.Type(), nested, depth)
			}
		case *types.Struct:
			if f.Embedded() {
				c.fill(k, s, a, f.Type(), name, nested, depth+1)
			}
		case *types.Interface:
			if u.Empty() && holder && nested != nil && place {
				if l := nested(); len(l) > 0 {
					s.mem[a] = l[0]
				}
			}
		}
	}
}

func (c *c16Check) part(k *c16Run, s *astate, t types.Type, nested func() []xval, depth int) xval {
	k.n++
	o := xval{k: 'O', s: fmt.Sprintf("obj%d", k.n)}
	k.x.assume(s, o, t, true)
	s.data["\x00known "+o.s] = "1"
	c.fill(k, s, o.s, t, "", nested, depth+1)
	return o
}

// follow runs the constructor of the footnotes, then the stage.
func (c *c16Check) follow(k *c16Run, g *ssa.Function, build func(s *astate) []xval, done func(s *astate, notes string)) string {
	n := 0
	k.x.run(c.mk, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		notes := res[0]
		s.data["\x00known "+notes.s] = "1"
		k.globalInits(s, map[*ssa.Package]bool{g.Pkg: true})
		s.mem["frag.Elements"] = k.x.newList(s, append([]xval{c.word(k, s)}, build(s)...))
		s.mem["frag.Error"] = xconst("nil")
		var args []xval
		for _, p := range g.Params {
			switch {
			case types.Identical(p.Type(), types.NewPointer(c.notesT)):
				args = append(args, notes)
			case typeName(p.Type()) == "types.DocumentFragment":
				args = append(args, xval{k: 'S', s: "frag"})
			default:
				args = append(args, xterm("param "+p.Name()))
			}
		}
		k.x.run(g, args, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			n++
			done(s, notes.s)
		})
	})
	if k.x.over {
		return "not decided within the limit"
	}
	if n == 0 {
		return "no path of " + fnName(g) + " returns"
	}
	return ""
}

func c16Field(t *types.Named, basic string) string {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == basic {
			return st.Field(i).Name()
		}
	}
	return ""
}

// listed: the notes of the list.
func (c *c16Check) listed(k *c16Run, s *astate, notes string) ([]xval, bool) {
	st := c.notesT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(deref(sl.Elem()), c.noteT) {
			return k.x.listElems(s, s.load(notes+"."+st.Field(i).Name()))
		}
	}
	return nil, false
}

func (c *c16Check) positions(g *ssa.Function) {
	try := func(path []string) string {
		k := c.newRun()
		bad := ""
		var build func(s *astate, path []string) xval
		build = func(s *astate, path []string) xval {
			if len(path) == 1 {
				return c.element(k, s, path[0], nil)
			}
			return c.element(k, s, path[0], func() []xval { return []xval{build(s, path[1:])} })
		}
		why := c.follow(k, g, func(s *astate) []xval {
			l := []xval{build(s, path)}
			if len(path) == 1 {
				l = append(l, build(s, path)) // the next element
			}
			return l
		}, func(s *astate, notes string) {
			if bad != "" {
				return
			}
			l, ok := c.listed(k, s, notes)
			if !ok {
				bad = "the list of footnotes is not known"
				return
			}
			id := c16Field(c.noteT, "int")
			rid := c16Field(c.refT, "int")
			for i, at := range k.put {
				v := s.mem[at]
				if v.s == k.notes[i] {
					bad = "a footnote is not replaced by a reference"
					return
				}
				if v.k != 'O' || k.x.decides(s, v, types.NewPointer(c.refT)) != 1 {
					bad = "a footnote is replaced by something else than a reference"
					return
				}
				found := 0
				for _, e := range l {
					if e.s == k.notes[i] {
						found++
					}
				}
				if found != 1 {
					bad = fmt.Sprintf("a footnote is listed %d times", found)
					return
				}
				want := fmt.Sprint(i + 1)
				if got := s.load(k.notes[i] + "." + id); got.s != want {
					bad = "a footnote does not have the number of its position (" + got.s + " instead of " + want + ")"
					return
				}
				if got := s.load(v.s + "." + rid); got.s != want {
					bad = "a reference does not have the number of its footnote (" + got.s + " instead of " + want + ")"
					return
				}
				if i < len(l) && l[i].s != k.notes[i] {
					bad = "the footnotes are not listed in the order of their numbers"
					return
				}
			}
			if len(l) != len(k.put) {
				bad = "more footnotes are listed than there are"
			}
		})
		if why != "" {
			return why
		}
		if len(k.put) == 0 {
			return "skip"
		}
		return bad
	}
	pos := func(n string) string {
		if m := c.w.methodOf(c.typesOf[n], "SubstituteFootnotes"); m != nil {
			return c.w.pos(m.Pos())
		}
		return c.w.pos(g.Pos())
	}
	broken := map[string]bool{}
	for _, n := range c.names {
		why := try([]string{n})
		if why == "skip" {
			continue
		}
		var l []string
		for _, p := range c.places[n] {
			if p.key != "" {
				l = append(l, "["+p.key+"]")
			} else {
				l = append(l, p.field)
			}
		}
		c.r.Count("scenarios", 1)
		if typeName(c.typesOf[n]) == "" {
			continue
		}
		direct := c.readByRenderer(n)
		if !direct {
			continue // holds blocks only
		}
		c.r.Check("position", n, pos(n), why == "", why+" (in "+strings.Join(l, ", ")+")")
		broken[n] = why != ""
	}
	sort.Strings(c.holders)
	for _, h := range c.holders {
		if broken[h] {
			continue
		}
		bad := ""
		for _, n := range c.names {
			if broken[n] || !c.readByRenderer(n) {
				continue
			}
			why := try([]string{h, n})
			if why == "skip" {
				continue
			}
			c.r.Count("scenarios", 1)
			if why != "" {
				bad = n + ": " + why
				break
			}
		}
		c.r.Check("position", "elements of "+h, pos(h), bad == "", bad)
	}
}

func (c *c16Check) readByRenderer(name string) bool {
	sgml := c.w.SSA[pkgPath("pkg/renderer/sgml")]
	if c16read == nil {
		c16read = map[string]bool{}
		for _, g := range c.w.Funcs {
			if g.Pkg != sgml {
				continue
			}
			for _, p := range g.Params {
				c16read[typeName(deref(p.Type()))] = true
			}
			for _, in := range instrs(g) {
				if a, ok := in.(*ssa.TypeAssert); ok {
					c16read[typeName(deref(a.AssertedType))] = true
				}
			}
		}
	}
	return c16read[name]
}

// sequences: footnotes with arbitrary names.
func (c *c16Check) sequences(g *ssa.Function) {
	bad := ""
	for n := 1; n <= 3 && bad == ""; n++ {
		for m := 0; m < 1<<n && bad == ""; m++ {
			k := c.newRun()
			var at, notes []string
			why := c.follow(k, g, func(s *astate) []xval {
				k.n++
				o := xval{k: 'O', s: fmt.Sprintf("obj%d", k.n)}
				k.x.assume(s, o, types.NewPointer(c.para), true)
				var l []xval
				for i := 0; i < n; i++ {
					var content []xval
					if m&(1<<i) != 0 {
						content = []xval{c.word(k, s)}
					}
					f := c.note(k, s, xterm(fmt.Sprintf("name%d.", i)), content)
					notes = append(notes, f.s)
					l = append(l, f)
				}
				v := k.x.newList(s, l)
				for i := range l {
					at = append(at, fmt.Sprintf("%s[%d]", v.s, i))
				}
				st := c.para.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if c16Elements(st.Field(i).Type()) {
						s.mem[o.s+"."+st.Field(i).Name()] = v
					} else {
						s.mem[o.s+"."+st.Field(i).Name()] = xconst("nil")
					}
				}
				return []xval{o}
			}, func(s *astate, ns string) {
				if bad == "" {
					bad = c.agrees(k, s, ns, at, notes, n, m)
				}
			})
			if why != "" && bad == "" {
				bad = why
			}
			c.r.Count("sequences", 1)
		}
	}
	c.r.Check("names", fnName(g), c.w.pos(g.Pos()), bad == "", bad)
	// a footnote in a footnote
	k := c.newRun()
	bad = ""
	var outer, inner string
	why := c.follow(k, g, func(s *astate) []xval {
		k.n++
		o := xval{k: 'O', s: fmt.Sprintf("obj%d", k.n)}
		k.x.assume(s, o, types.NewPointer(c.para), true)
		i := c.note(k, s, xconst(`""`), []xval{c.word(k, s)})
		e := c.note(k, s, xconst(`""`), []xval{c.word(k, s), i})
		inner, outer = i.s, e.s
		st := c.para.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if c16Elements(st.Field(i).Type()) {
				s.mem[o.s+"."+st.Field(i).Name()] = k.x.newList(s, []xval{e})
			} else {
				s.mem[o.s+"."+st.Field(i).Name()] = xconst("nil")
			}
		}
		return []xval{o}
	}, func(s *astate, ns string) {
		l, ok := c.listed(k, s, ns)
		st := c.noteT.Underlying().(*types.Struct)
		in := false
		for i := 0; i < st.NumFields(); i++ {
			if c16Elements(st.Field(i).Type()) {
				es, ok := k.x.listElems(s, s.load(outer+"."+st.Field(i).Name()))
				if ok && len(es) == 2 && es[1].s != inner && k.x.decides(s, es[1], types.NewPointer(c.refT)) == 1 {
					in = true
				}
			}
		}
		if !ok || len(l) != 2 || !in || l[0].s == l[1].s {
			bad = "a footnote in a footnote is not replaced by a reference and listed"
			return
		}
		id := c16Field(c.noteT, "int")
		for i, e := range l {
			if s.load(e.s+"."+id).s != fmt.Sprint(i+1) {
				bad = "the footnotes are not listed in the order of their numbers"
			}
		}
	})
	if why != "" {
		bad = why
	}
	c.r.Check("nested", fnName(g), c.w.pos(g.Pos()), bad == "", bad)
}

// agrees: what the path does is what the names ask for, whatever they are.
func (c *c16Check) agrees(k *c16Run, s *astate, ns string, at, notes []string, n, m int) string {
	list, ok := c.listed(k, s, ns)
	if !ok {
		return "the list of footnotes is not known"
	}
	id, dup := c16Field(c.refT, "int"), c16Field(c.refT, "bool")
	names := make([]int, n) // 0: no name
	var try func(i int) string
	try = func(i int) string {
		if i < n {
			for v := 0; v <= n; v++ {
				names[i] = v
				if why := try(i + 1); why != "" {
					return why
				}
			}
			return ""
		}
		val := map[string]int{`""`: 0}
		for j, v := range names {
			val[fmt.Sprintf("name%d.", j)] = v
		}
		for cond, holds := range s.conds {
			p := strings.SplitN(strings.TrimSuffix(strings.TrimPrefix(cond, "("), ")"), " == ", 2)
			if len(p) != 2 {
				continue
			}
			a, ok1 := val[p[0]]
			b, ok2 := val[p[1]]
			if ok1 && ok2 && (a == b) != holds {
				return "" // the path is not for these names
			}
			if l0 := strings.TrimSuffix(strings.TrimPrefix(p[1], "len("), ")"); p[0] == "0" {
				if a, ok := val[l0]; ok && (a == 0) != holds {
					return ""
				}
			}
		}
		defined := map[int]int{}
		var want []string
		for j := 0; j < n; j++ {
			v := s.mem[at[j]]
			if v.s == notes[j] {
				return "a footnote is not replaced by a reference"
			}
			gid, gdup := s.load(v.s+"."+id).s, s.load(v.s+"."+dup).s
			wid, wdup, what := "-1", "false", "a reference to a footnote which is not defined is not marked as invalid"
			if d, ok := defined[names[j]]; ok && names[j] != 0 {
				wid, wdup, what = fmt.Sprint(d), "true", "a name which is defined is not a reference to the same footnote"
			} else if m&(1<<j) != 0 {
				want = append(want, notes[j])
				defined[names[j]] = len(want)
				wid, what = fmt.Sprint(len(want)), "a new footnote does not get the next number"
			}
			if gid != wid || gdup != wdup {
				return what
			}
		}
		if len(want) != len(list) {
			return "the list does not have each footnote once"
		}
		for j := range want {
			if list[j].s != want[j] {
				return "the list does not have each footnote once"
			}
		}
		return ""
	}
	return try(0)
}

// wiring: the document gets the footnotes which were collected.
func (c *c16Check) wiring() {
	w := c.w
	n := 0
	for _, g := range w.Funcs {
		var mks []*ssa.Call
		for _, in := range instrs(g) {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == c.mk {
				mks = append(mks, call)
			}
		}
		if len(mks) == 0 {
			continue
		}
		n++
		bad, pos := "", w.pos(g.Pos())
		x := &absint{w: w, maxDepth: 3}
		x.inline = func(h *ssa.Function) bool { return false }
		x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
			h := fn.fn
			if h == c.mk {
				k := "notes " + in.(*ssa.Call).Name()
				return []xval{{k: 'O', s: k}}, true
			}
			if h == nil {
				return nil, false
			}
			for i, p := range h.Params {
				if types.Identical(p.Type(), types.NewPointer(c.notesT)) && i < len(args) {
					s.data["given"] = args[i].s
				}
			}
			return nil, false
		}
		returned := 0
		x.run(g, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			if len(res) == 0 || res[0].k == 'C' {
				return
			}
			returned++
			notes := s.data["given"]
			if notes == "" {
				bad, pos = "the footnotes are not given to the stage which collects them", w.pos(ret.Pos())
				return
			}
			ok := false
			for k, v := range s.mem {
				if strings.HasPrefix(k, res[0].s+".") && strings.HasPrefix(v.s, "*"+notes+".") {
					ok = true
				}
			}
			for k, v := range s.conds {
				if v && strings.HasPrefix(k, "(0 == len(*"+notes+".") {
					ok = true
				}
			}
			if !ok {
				bad, pos = "the document is returned without the footnotes which were collected", w.pos(ret.Pos())
			}
		})
		if returned == 0 {
			bad = "no path returns a document"
		}
		c.r.Check("document", fnName(g), pos, bad == "", bad)
	}
	c.r.Floor("functions which make a list of footnotes", n, 1)
}

// rendering: each footnote of the document is written.
func (c *c16Check) rendering() {
	w := c.w
	isList := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(deref(sl.Elem()), c.noteT)
	}
	n, calls := 0, 0
	for _, g := range w.Funcs {
		if g.Pkg != w.SSA[pkgPath("pkg/renderer/sgml")] {
			continue
		}
		for _, in := range instrs(g) {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			for i, p := range call.Call.StaticCallee().Params {
				if !isList(p.Type()) || i >= len(call.Call.Args) {
					continue
				}
				calls++
				a := call.Call.Args[i]
				ok := false
				switch v := a.(type) {
				case *ssa.Parameter:
					ok = true
				case *ssa.UnOp:
					if fa, isF := v.X.(*ssa.FieldAddr); isF {
						ok = typeName(deref(fa.X.Type())) == "types.Document"
					}
				}
				c.r.Check("given", fnName(g), w.pos(call.Pos()), ok, "the footnotes which are rendered are not those of the document")
			}
		}
		pi := -1
		for i, p := range g.Params {
			if isList(p.Type()) {
				pi = i
			}
		}
		if pi < 0 {
			continue
		}
		each := false
		for _, in := range instrs(g) {
			if call, ok := in.(*ssa.Call); ok {
				if h := call.Call.StaticCallee(); h != nil {
					for _, p := range h.Params {
						each = each || types.Identical(p.Type(), types.NewPointer(c.noteT))
					}
				}
			}
		}
		if !each {
			continue
		}
		n++
		bad := ""
		k := c.newRun()
		k.x.inline = func(h *ssa.Function) bool { return false }
		k.x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
			h := fn.fn
			if h == nil {
				return nil, false
			}
			for i, p := range h.Params {
				if types.Identical(p.Type(), types.NewPointer(c.noteT)) && i < len(args) {
					return []xval{xterm("rendered " + args[i].s), xterm("error " + args[i].s)}, true
				}
			}
			if h.Name() == "WriteString" && len(args) == 2 {
				s.data["written"] += args[1].s + ";"
				return []xval{xterm("n"), xterm("error of write")}, true
			}
			return nil, false
		}
		s := newAState()
		args := make([]xval, len(g.Params))
		for i, p := range g.Params {
			args[i] = xterm("param " + p.Name())
		}
		var l []xval
		want := ""
		for i := 0; i < 2; i++ {
			o := c.note(k, s, xterm("a name"), []xval{c.word(k, s)})
			s.mem[o.s+"."+c16Field(c.noteT, "int")] = xterm("number of " + o.s)
			l = append(l, o)
			want += "rendered " + o.s + ";"
		}
		args[pi] = k.x.newList(s, l)
		ends := 0
		k.x.run(g, args, nil, s, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			for cond, v := range s.conds {
				if strings.Contains(cond, "error ") && !v {
					return // an error: C02
				}
			}
			ends++
			if s.data["written"] != want {
				bad = "not each footnote is written, in order"
			}
		})
		if ends == 0 {
			bad = "no path renders the footnotes"
		}
		c.r.Check("rendered", fnName(g), w.pos(g.Pos()), bad == "", bad)
		c.written(g)
	}
	c.r.Floor("functions which render the footnotes", n, 1)
	c.r.Floor("calls with the footnotes of the document", calls, 1)
}

// written: what is rendered is in the result of the functions which ask for it.
func (c *c16Check) written(g *ssa.Function) {
	w := c.w
	n := 0
	for _, h := range w.Funcs {
		calls := false
		for _, in := range instrs(h) {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == g {
				calls = true
			}
		}
		if !calls || h == g {
			continue
		}
		n++
		bad, pos := "", w.pos(h.Pos())
		x := &absint{w: w, maxDepth: 3, inline: func(*ssa.Function) bool { return false }}
		x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
			switch {
			case fn.fn == g:
				return []xval{xterm("the footnotes"), xterm("error of footnotes")}, true
			case fn.fn != nil && strings.HasPrefix(fn.fn.Name(), "Write") && len(args) == 2:
				s.data["written"] += args[1].s + ";"
			case fn.fn != nil && fn.fn.Name() == "String" && len(args) == 1:
				return []xval{xterm("[" + s.data["written"] + "]")}, true
			}
			return nil, false
		}
		ends := 0
		x.run(h, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			if len(res) < 2 || res[1].k != 'C' {
				return
			}
			ends++
			if !strings.Contains(res[0].s, "the footnotes") {
				bad, pos = "the footnotes are not in the result on each path", w.pos(ret.Pos())
			}
		})
		if ends == 0 {
			bad = "no path renders the footnotes"
		}
		c.r.Check("written", fnName(h), pos, bad == "", bad)
	}
	c.r.Floor("functions which write the footnotes", n, 1)
}
