package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C01", title: "No document or configuration can crash a conversion", run: runC01,
		explanation: "Every instruction of the hand-written functions which a conversion may run and which can panic is an obligation: indexing and slicing (0 <= low <= high <= length, proved as differences of integers and lengths from the tested conditions, the definitions, the edges of loops by induction, the results of callees and all callers), dereferences and method calls (not nil, from tests, comma-ok results, errors which were nil, constructors and fields which are always set), updates of maps, type assertions without comma-ok, divisions, negative repeat counts and lengths, comparisons of interfaces, explicit panics.",
		assumptions: []string{
			"panics inside the actions of the generated grammar are recovered by the generated parser, and those inside the execution of a template by text/template; neither is an obligation",
			"the caller of the library gives a configuration, a reader and a writer which are not nil, and attributes made by the package",
			"the elements of the lists and the values of the maps of the document model are not nil, and standard-library functions which return no error return a value",
			"invariants of the model, established by the grammar or by the constructors: a list and a table row have an element, a section has a level of 0 or more, a table has a column, an aggregator is never empty",
			"the preamble of a document is a part of its elements; a cell of a table has a column",
		}})
}

// c01Invariants: what the grammar and the constructors of the model establish.
var c01Invariants = map[string]int64{
	"parser.aggregator":                        1,
	"types.List.Elements":                      1,
	"types.TableRow.Cells":                     1,
	"types.RawSection.Level":                   0,
	"(*pkg/types.Table).Columns#0":             1,
	"non-nil types.DocumentAuthors":            1,
	"(*pkg/parser.aggregator).indexOfParent#0": 0,
}

func runC01(w *World, r *Report) {
	theWorld = w
	b := newBounds(w)
	b.atLeast = c01Invariants
	b.exempt = c01Exempt
	scope := c01Scope(w)
	// what must not be nil is assumed not to be, until no more of it is refuted
	for again := true; again; {
		n := len(b.asked)
		for _, f := range scope {
			for _, in := range instrs(f) {
				if d := dereferenced(in); d != nil {
					b.notNilElem(d, in.Block())
				}
				if x, ok := in.(*ssa.Store); ok && putInList(x) != nil {
					b.notNilElem(putInList(x), x.Block())
				}
				if x, ok := in.(*ssa.MapUpdate); ok {
					_ = b.nonNil(x.Map, x.Block(), nil, 0) || b.keyOf(x.Key, x.Map)
				}
			}
		}
		again = b.settle() || len(b.asked) != n
	}
	n := 0
	for _, f := range scope {
		if b.exempt(f) {
			r.Note("not decided: %s", fnName(f))
		}
		for _, in := range instrs(f) {
			check := func(rule, what string, ok bool, how, why string) {
				n++
				if ok {
					r.OK(rule, fnName(f)+": "+what, w.pos(in.Pos()), how)
				} else {
					r.Fail(rule, fnName(f)+": "+what, w.pos(in.Pos()), why)
				}
			}
			if d := dereferenced(in); d != nil {
				check("nil", b.describe(d), b.notNilElem(d, in.Block()), "is not nil here", "is nil for some callers or on some paths: the conversion would panic")
			}
			switch x := in.(type) {
			case *ssa.TypeAssert:
				if !x.CommaOk {
					check("assert", typeName(x.AssertedType), false, "", "asserts a type without checking it: panics on any other type")
				}
			case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
				i, s, ok := indexed(in)
				if !ok || b.exempt(f) || typeName(deref(elemType(s))) == "types.TableColumn" {
					continue
				}
				check("index", "element of "+b.describe(s), b.index(i, s, in.Block()), "0 <= position < length", "nothing which is tested or known bounds this position by the length: panics when it is out of range")
			case *ssa.Slice:
				if (x.Low != nil || x.High != nil) && !b.exempt(f) {
					_, ok := b.slice(x)
					check("slice", "part of "+b.describe(x.X), ok, "0 <= low <= high <= length", "nothing which is tested or known bounds these positions by the length: panics when they are out of range")
				}
			case *ssa.Store:
				if v := putInList(x); v != nil {
					check("element", typeName(v.Type()), b.notNilElem(v, x.Block()), "what is put in the list is not nil", "what is put in the list may be nil, which those who go through the list do not expect")
				}
			case *ssa.MapUpdate:
				check("map", b.describe(x.Map), b.nonNil(x.Map, x.Block(), nil, 0) || b.keyOf(x.Key, x.Map), "the map is made before it is updated", "updates a map which may be nil")
			case *ssa.MakeSlice:
				if _, ok := constInt(x.Len); !ok && !b.exempt(f) {
					check("length", "make", b.atLeastAt(b.norm(x.Len), 0, x.Block()), "0 <= length", "the length may be negative")
				}
			case *ssa.BinOp:
				switch {
				case (x.Op == token.QUO || x.Op == token.REM) && basicClass(x.X.Type()) == "int":
					y := b.norm(x.Y)
					check("div", "divisor", y.t.k == 'z' && y.off != 0 || b.atLeastAt(y, 1, x.Block()), "the divisor is positive", "the divisor may be zero")
				case (x.Op == token.EQL || x.Op == token.NEQ) && types.IsInterface(x.X.Type()) && types.IsInterface(x.Y.Type()) && !isNilConst(x.X) && !isNilConst(x.Y):
					check("compare", "interfaces", comparable(x.X) || comparable(x.Y), "one side has a comparable type", "both sides may be of the same type which cannot be compared (a list or a map)")
				}
			case *ssa.Panic:
				if x.Pos().IsValid() {
					check("panic", "panic", false, "", "explicit panic in a conversion")
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || g.Pkg == nil || w.inScopeFn(g) {
					continue
				}
				for _, a := range x.Call.Args {
					if mayBeNotFound(a, map[ssa.Value]bool{}) {
						check("found", b.describe(a)+" given to "+g.Name(), b.notNilElem(a, x.Block()), "is not nil here", "is nil when it was not found: the called function would panic")
					}
				}
				switch path := g.Pkg.Pkg.Path(); {
				case (path == "strings" || path == "bytes") && g.Name() == "Repeat":
					check("repeat", "Repeat", b.atLeastAt(b.norm(x.Call.Args[1]), 0, x.Block()), "0 <= count", "the count may be negative")
				case strings.HasPrefix(g.Name(), "Must"):
					ok := len(x.Call.Args) > 0
					for _, a := range x.Call.Args {
						_, isConst := a.(*ssa.Const)
						ok = ok && isConst
					}
					check("panic", g.Name(), ok, "constant argument", "panics on an invalid argument")
				case path == "os" && g.Name() == "Exit" || path == "log" && strings.HasPrefix(g.Name(), "Fatal") || path == "log" && strings.HasPrefix(g.Name(), "Panic"),
					strings.HasSuffix(path, "/logrus") && (strings.HasPrefix(g.Name(), "Fatal") || strings.HasPrefix(g.Name(), "Panic")):
					check("panic", g.Name(), false, "", "ends the process or panics")
				}
			}
		}
	}
	r.Count("functions", len(scope))
	r.Count("obligations", n)
	r.Floor("functions which a conversion may run", len(scope), 150)
	r.Floor("instructions which may panic", n, 400)
}

func elemType(s ssa.Value) types.Type {
	if t, ok := s.Type().Underlying().(*types.Slice); ok {
		return t.Elem()
	}
	return types.Typ[types.Invalid]
}

// indexed: the position and what it is a position of; not for arrays and maps.
func indexed(in ssa.Instruction) (i, s ssa.Value, ok bool) {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return x.Index, x.X, true
		}
	case *ssa.Index:
		return x.Index, x.X, true
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return x.Index, x.X, true
		}
	}
	return nil, nil, false
}

// nilWhenNotFound: functions of other libraries which return nil, and no error, for what they do not know.
var nilWhenNotFound = map[string]bool{
	"github.com/alecthomas/chroma/v2/lexers.Get":     true,
	"github.com/alecthomas/chroma/v2/lexers.Match":   true,
	"github.com/alecthomas/chroma/v2/lexers.Analyse": true,
	"(*text/template.Template).Lookup":               true,
	"(*html/template.Template).Lookup":               true,
}

// mayBeNotFound: the value may come from one of them.
func mayBeNotFound(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && nilWhenNotFound[g.String()]
	case *ssa.Phi:
		for _, e := range x.Edges {
			if mayBeNotFound(e, seen) {
				return true
			}
		}
	case *ssa.ChangeInterface:
		return mayBeNotFound(x.X, seen)
	}
	return false
}

// putInList: the pointer which becomes an element of a list.
func putInList(st *ssa.Store) ssa.Value {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if al, ok := ia.X.(*ssa.Alloc); ok { // the arguments of a function of another library
		for _, r := range refs(al) {
			sl, ok := r.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, r := range refs(sl) {
				if c, ok := r.(ssa.CallInstruction); ok {
					if _, builtin := c.Common().Value.(*ssa.Builtin); builtin {
						continue
					}
					if g := c.Common().StaticCallee(); g == nil || !theWorld.inScopeFn(g) {
						return nil
					}
				}
			}
		}
	}
	v := st.Val
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	if strings.HasPrefix(typeName(v.Type()), "*types.") {
		return v
	}
	return nil
}

// comparable: the interface holds a value of a known type which can be compared.
func comparable(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return types.Comparable(x.X.Type()) && !types.IsInterface(x.X.Type())
	case *ssa.ChangeInterface:
		return comparable(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !comparable(e) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	}
	return false
}

// c01Scope: the functions which may run in a conversion, except in the actions of the grammar, whose panics the parser recovers.
func c01Scope(w *World) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && w.inScopeFn(f) && !w.isGenerated(f) && !isTest(w, f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range w.Funcs {
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && (relPkg(f.Pkg.Pkg) == "" || relPkg(f.Pkg.Pkg) == "." || f.Signature.Recv() == nil && relPkg(f.Pkg.Pkg) == "pkg/configuration") {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, in := range instrs(f) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.calleesOf(c) {
					add(g)
				}
			}
		}
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	var res []*ssa.Function
	for _, f := range w.Funcs {
		if seen[f] {
			res = append(res, f)
		}
	}
	return res
}

// c01Exempt: functions whose positions are related in a way which is not decided (see DESIGN.md).
func c01Exempt(f *ssa.Function) bool {
	if fnName(f) == "(*pkg/types.Paragraph).AddElement" {
		return true
	}
	// the preamble is a part of the elements of the document
	pre, doc := false, false
	for _, v := range f.Params {
		doc = doc || typeName(deref(v.Type())) == "types.Document"
	}
	for _, in := range instrs(f) {
		if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "types.Preamble.Elements" {
			pre = true
		}
	}
	return pre && doc
}

// nonNil: the map, the pointer or the interface is not nil.
func (p *bounds) nonNil(v ssa.Value, at *ssa.BasicBlock, extra []cond, depth int) bool {
	return p.nonNil0(v, at, extra, depth, map[ssa.Value]bool{})
}

func (p *bounds) nonNil0(v ssa.Value, at *ssa.BasicBlock, extra []cond, depth int, seen map[ssa.Value]bool) bool {
	if depth > 10 {
		return false
	}
	c := p.canon(v)
	facts := append(append([]cond{}, extra...), factsAt(at)...)
	if p.tested(c, facts) {
		return true
	}
	if seen[c] {
		return true
	}
	seen[c] = true
	switch x := c.(type) {
	case *ssa.Const:
		return x.Value != nil
	case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return p.nonNil0(x.X, at, extra, depth+1, seen)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return true
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			if !p.nonNil0(e, pred, edgeFact(pred, x.Block()), depth+1, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if typeName(x.Type()) == "*configuration.Configuration" {
			return true // given by the caller of the library
		}
		return p.assumed(x)
	case *ssa.FreeVar:
		return p.assumed(x)
	case *ssa.Extract, *ssa.Call:
		call, idx := c, 0
		if e, ok := c.(*ssa.Extract); ok {
			call, idx = e.Tuple, e.Index
		}
		k, ok := call.(*ssa.Call)
		if !ok {
			_, isNext := call.(*ssa.Next) // elements of maps
			return isNext && p.elems && idx == 2
		}
		if k.Call.IsInvoke() || k.Call.StaticCallee() == nil { // whichever function of the repository is called
			for _, g := range p.w.calleesOf(k) {
				if g.Pkg != nil && p.w.inScopeFn(g) && len(g.Blocks) > 0 && !p.assumed(resultKey{g, idx}) {
					return false
				}
			}
			return p.elems
		}
		if g := k.Call.StaticCallee(); p.elems && g != nil && !p.w.inScopeFn(g) {
			return !nilWhenNotFound[g.String()]
		}
		if g := k.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && p.w.inScopeFn(g) {
			for _, in := range instrs(g) {
				rt, ok := in.(*ssa.Return)
				if !ok || idx >= len(rt.Results) || p.notReturned(rt, k, facts) {
					continue
				}
				if p.implied(bgoal{c: -1, a: zeroExpr, b: zeroExpr}, factsAt(rt.Block()), nil) {
					continue // cannot be reached
				}
				var given []cond
				for _, f := range facts { // what is known of the other results
					f = f.norm()
					if e, ok := f.v.(*ssa.Extract); ok && e.Tuple == call && e.Index < len(rt.Results) {
						given = append(given, cond{v: resultOf(rt, e.Index), val: f.val})
					}
					if b, ok := f.v.(*ssa.BinOp); ok && isNilConst(b.Y) && (b.Op == token.EQL || b.Op == token.NEQ) {
						if e, ok := b.X.(*ssa.Extract); ok && e.Tuple == call && e.Index < len(rt.Results) {
							v := resultOf(rt, e.Index)
							given = append(given, cond{v: &ssa.BinOp{Op: b.Op, X: v, Y: ssa.NewConst(nil, v.Type())}, val: f.val})
						}
					}
				}
				if !p.nonNil0(resultOf(rt, idx), rt.Block(), given, depth+1, seen) {
					return false
				}
			}
			return true
		}
		return false
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if al, made := p.variable(x.X); al != nil {
			var stores []*ssa.Store
			for _, r := range refs(al) {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					stores = append(stores, st)
				}
			}
			if p.storedByClosure(al) {
				return false
			}
			if len(stores) == 1 { // what is known later about what was stored
				later := at
				if made != nil {
					later = made.Block()
				}
				if later.Parent() == al.Parent() && stores[0].Block().Dominates(later) {
					return p.nonNil0(stores[0].Val, later, nil, depth+1, seen)
				}
			}
			for _, st := range stores {
				if !p.nonNil0(st.Val, st.Block(), nil, depth+1, seen) {
					return false
				}
			}
			return len(stores) > 0
		}
		if p.elems {
			switch x.X.(type) {
			case *ssa.IndexAddr:
				return true
			case *ssa.Global:
				return true
			}
		}
		f, _, ok := fieldOf(x.X)
		if !ok {
			return false
		}
		if x, ok := u0(x); ok {
			fa := x.X.(*ssa.FieldAddr)
			if p.location(p.canon(fa.X), fa.Field, x, extra, 0) {
				return true
			}
		}
		return p.assumed(f)
	}
	return false
}

// bindings: what is bound to the variable where the closure is made, and where.
func (p *bounds) bindings(fv *ssa.FreeVar) (res []ssa.Value, made []*ssa.MakeClosure) {
	f := fv.Parent()
	idx := -1
	for i, q := range f.FreeVars {
		if q == fv {
			idx = i
		}
	}
	p.closureIndex()
	for _, m := range p.closures[f] {
		if idx >= 0 && idx < len(m.Bindings) {
			res = append(res, m.Bindings[idx])
			made = append(made, m)
		}
	}
	return res, made
}

// methodValues: where the method is bound to a receiver.
func (p *bounds) methodValues(f *ssa.Function) (res []*ssa.MakeClosure) {
	p.closureIndex()
	for fn, ms := range p.closures {
		w := fn.(*ssa.Function)
		if w.Synthetic == "" || len(w.FreeVars) != 1 {
			continue
		}
		for _, in := range instrs(w) {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == f {
				res = append(res, ms...)
			}
		}
	}
	return res
}

func (p *bounds) closureIndex() {
	if p.closures != nil {
		return
	}
	p.closures = map[ssa.Value][]*ssa.MakeClosure{}
	for _, g := range p.w.Funcs {
		for _, in := range instrs(g) {
			if m, ok := in.(*ssa.MakeClosure); ok {
				p.closures[m.Fn] = append(p.closures[m.Fn], m)
			}
		}
	}
}

// tested: the conditions tell that the value is not nil.
func (p *bounds) tested(c ssa.Value, facts []cond) bool {
	for _, f := range facts {
		f = f.norm()
		// a map which has something
		if p.hasElement(c, f) {
			return true
		}
		if b, ok := f.v.(*ssa.BinOp); ok && (b.Op == token.NEQ) == f.val && isNilConst(b.Y) && (b.Op == token.EQL || b.Op == token.NEQ) && p.sameGetter(b.X, c) {
			return true
		}
		if b, ok := f.v.(*ssa.BinOp); ok && (b.Op == token.NEQ) == f.val && (b.Op == token.EQL || b.Op == token.NEQ) && isNilConst(b.Y) && p.canon(b.X) == c {
			return true
		}
		// what a comma-ok expression gives
		if e, ok := f.v.(*ssa.Extract); ok && e.Index == 1 && f.val {
			if x, ok := c.(*ssa.Extract); ok && x.Tuple == e.Tuple && x.Index == 0 {
				return true
			}
			if x, ok := c.(*ssa.Extract); ok && x.Index == 0 { // the same assertion, made again
				t1, ok1 := e.Tuple.(*ssa.TypeAssert)
				t2, ok2 := x.Tuple.(*ssa.TypeAssert)
				if ok1 && ok2 && types.Identical(t1.AssertedType, t2.AssertedType) && p.canon(t1.X) == p.canon(t2.X) {
					return true
				}
			}
		}
		// what is being iterated
		if e, ok := f.v.(*ssa.Extract); ok && e.Index == 0 && f.val {
			if nx, ok := e.Tuple.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok && p.canon(rg.X) == c {
					return true
				}
			}
		}
		// what has at least one key
		if b, ok := f.v.(*ssa.BinOp); ok {
			if s := lengthOf(b.X); s != nil && p.canon(s) == c {
				if n, ok := constInt(b.Y); ok && n == 0 && ((b.Op == token.GTR || b.Op == token.NEQ) == f.val) && b.Op != token.LSS {
					return true
				}
			}
		}
	}
	return false
}

// sameGetter: both calls give the same field of the same value.
func (p *bounds) sameGetter(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 || x.Call.Method != y.Call.Method || x.Call.StaticCallee() != y.Call.StaticCallee() || len(x.Call.Args) != len(y.Call.Args) {
		return false
	}
	if x.Call.IsInvoke() && p.canon(x.Call.Value) != p.canon(y.Call.Value) {
		return false
	}
	for i := range x.Call.Args {
		if p.canon(x.Call.Args[i]) != p.canon(y.Call.Args[i]) {
			return false
		}
	}
	gs := p.w.calleesOf(y)
	for _, g := range gs {
		for _, in := range instrs(g) {
			switch in := in.(type) {
			case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef:
			case *ssa.UnOp:
				if _, kind := p.memKey(in.X); in.Op != token.MUL || kind != "" && !p.unchanged(x, y, kind) {
					return false
				}
			default:
				return false
			}
		}
	}
	return len(gs) > 0
}

// hasElement: the condition tells that something was found in the map.
func (p *bounds) hasElement(m ssa.Value, f cond) bool {
	in := func(v ssa.Value) bool {
		if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
			v = e.Tuple
		}
		l, ok := v.(*ssa.Lookup)
		return ok && p.canon(l.X) == m
	}
	switch x := f.v.(type) {
	case *ssa.Extract:
		if x.Index != 1 || !f.val {
			return false
		}
		if a, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return in(a.X)
		}
		l, ok := x.Tuple.(*ssa.Lookup)
		return ok && p.canon(l.X) == m
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		same := (x.Op == token.EQL) == f.val
		for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if !in(pair[0]) {
				continue
			}
			if _, isIface := pair[1].(*ssa.MakeInterface); same && isIface || !same && isNilConst(pair[1]) {
				return true
			}
		}
	}
	return false
}

// resultKey: a result of a function, whatever the call.
type resultKey struct {
	fn  *ssa.Function
	idx int
}

// locKey: a field of what a parameter points to, when the function is called.
type locKey struct {
	param *ssa.Parameter
	field int
}

// location: on every way to the instruction the field of the base is given a value which is not nil, or is tested not to be.
func (p *bounds) location(base ssa.Value, field int, in ssa.Instruction, extra []cond, depth int) bool {
	if depth > 4 {
		return false
	}
	t, ok := deref(base.Type()).Underlying().(*types.Struct)
	if !ok || field >= t.NumFields() {
		return false
	}
	kind := "f:" + fieldName(base.Type(), field)
	steps := 0
	onPath := map[*ssa.BasicBlock]bool{}
	is := func(a ssa.Value) bool {
		fa, ok := a.(*ssa.FieldAddr)
		return ok && fa.Field == field && p.canon(fa.X) == base
	}
	var walk func(b *ssa.BasicBlock, n int, facts []cond) bool
	walk = func(b *ssa.BasicBlock, n int, facts []cond) bool {
		if steps++; steps > 500 {
			return false
		}
		for i := n - 1; i >= 0; i-- {
			in := b.Instrs[i]
			switch in := in.(type) {
			case *ssa.Store:
				if is(in.Addr) {
					return p.nonNil(in.Val, b, nil, 2)
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && is(in.X) && p.tested(p.canon(in), facts) {
					return true
				}
			case *ssa.Alloc:
				if ssa.Value(in) == base {
					return false
				}
			case *ssa.Call:
				if p.changes(in, kind) {
					return p.afterCall(in, base, field, facts, depth)
				}
			}
			if p.changes(in, kind) {
				return false
			}
		}
		if len(b.Preds) == 0 {
			q, ok := base.(*ssa.Parameter)
			return ok && p.assumed(locKey{q, field})
		}
		if onPath[b] {
			return true
		}
		onPath[b] = true
		defer delete(onPath, b)
		for _, pr := range b.Preds {
			if !walk(pr, len(pr.Instrs), append(append([]cond{}, facts...), edgeFact(pr, b)...)) {
				return false
			}
		}
		return true
	}
	n := 0
	for i, x := range in.Block().Instrs {
		if x == in {
			n = i
		}
	}
	return walk(in.Block(), n, append(append([]cond{}, extra...), factsAt(in.Block())...))
}

// afterCall: whenever the called function returns, it left the field with a value which is not nil.
func (p *bounds) afterCall(c *ssa.Call, base ssa.Value, field int, facts []cond, depth int) bool {
	g := c.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !p.w.inScopeFn(g) {
		return false
	}
	for i, a := range c.Call.Args {
		if p.canon(a) != base || i >= len(g.Params) {
			continue
		}
		for _, in := range instrs(g) {
			rt, ok := in.(*ssa.Return)
			if !ok || p.notReturned(rt, c, facts) {
				continue
			}
			if !p.location(g.Params[i], field, rt, nil, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// reached: a function which may run in a conversion.
func (p *bounds) reached(f *ssa.Function) bool {
	if p.reach == nil {
		p.reach = map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, c01Scope(p.w)...)
		for _, f := range p.w.Funcs {
			if p.w.isGenerated(f) {
				work = append(work, f)
			}
		}
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			if p.reach[f] {
				continue
			}
			p.reach[f] = true
			for _, in := range instrs(f) {
				if c, ok := in.(ssa.CallInstruction); ok {
					work = append(work, p.w.calleesOf(c)...)
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					work = append(work, m.Fn.(*ssa.Function))
				}
			}
		}
	}
	return p.reach[f]
}

// nilKey: a parameter, a free variable or a field, assumed not to be nil until something shows that it may be.
type nilKey struct {
	what  interface{} // ssa.Value or the name of a field
	elems bool
}

func (p *bounds) assumed(what interface{}) bool {
	k := nilKey{what, p.elems}
	bad, ok := p.mayBeNil[k]
	if !ok {
		if p.mayBeNil == nil {
			p.mayBeNil = map[nilKey]bool{}
		}
		p.mayBeNil[k] = false
		p.asked = append(p.asked, k)
	}
	return !bad
}

// settle: finds which of the assumptions do not hold; true if any changed.
func (p *bounds) settle() bool {
	any := false
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(p.asked); i++ { // grows
			k := p.asked[i]
			if p.mayBeNil[k] {
				continue
			}
			old := p.elems
			p.elems = k.elems
			if !p.holds(k.what) {
				p.mayBeNil[k] = true
				changed, any = true, true
			}
			p.elems = old
		}
	}
	return any
}

func (p *bounds) holds(what interface{}) bool {
	switch x := what.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		cs := p.callersOf(f)
		if len(cs) == 0 && !strings.Contains(relPkg(f.Pkg.Pkg), "/") && f.Object() != nil && f.Object().Exported() {
			return true // given by the caller of the library
		}
		for _, s := range cs {
			if !p.reached(s.Parent()) {
				continue
			}
			a := argOf(s, f, x)
			if c := s.Common(); c.StaticCallee() == nil && !c.IsInvoke() && len(c.Args) == len(f.Params)-1 { // a method value
				if x == f.Params[0] {
					for _, m := range p.methodValues(f) {
						if !p.nonNil(m.Bindings[0], m.Block(), nil, 0) {
							return false
						}
					}
					continue
				}
				for i, q := range f.Params {
					if q == x {
						a = c.Args[i-1]
					}
				}
			}
			if a == nil || !p.nonNil(a, s.Block(), nil, 0) {
				return false
			}
		}
		return len(cs) > 0
	case *ssa.FreeVar:
		vs, made := p.bindings(x)
		for i, r := range vs {
			if !p.nonNil(r, made[i].Block(), nil, 0) {
				return false
			}
		}
		return len(vs) > 0
	case resultKey:
		for _, in := range instrs(x.fn) {
			rt, ok := in.(*ssa.Return)
			if !ok || x.idx >= len(rt.Results) || rt.Block() == x.fn.Recover && !recovers(x.fn) {
				continue
			}
			// the other results tell the caller: an error, or false
			told := false
			for j := range rt.Results {
				r := resultOf(rt, j)
				if j == x.idx {
					continue
				}
				if isErrorType(r.Type()) && !isNilConst(r) {
					told = true
				}
				if b, ok := r.(*ssa.Const); ok && b.Value != nil && b.Value.Kind() == constant.Bool && !constant.BoolVal(b.Value) {
					told = true
				}
			}
			if !told && !p.nonNil(resultOf(rt, x.idx), rt.Block(), nil, 0) {
				return false
			}
		}
		return true
	case locKey:
		for _, s := range p.callersOf(x.param.Parent()) {
			if !p.reached(s.Parent()) {
				continue
			}
			a := argOf(s, x.param.Parent(), x.param)
			if c := s.Common(); a == nil || c.StaticCallee() == nil || !p.location(p.canon(a), x.field, s.(ssa.Instruction), nil, 0) {
				return false
			}
		}
		return true
	case string:
		return p.fieldNonNil(x)
	}
	return false
}

// alwaysReached: whatever is executed after the first block until the function returns (with no error) goes through one of the others.
func (p *bounds) alwaysReached(from *ssa.BasicBlock, to []*ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var avoid func(b *ssa.BasicBlock) bool
	avoid = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, x := range to {
			if x == b {
				return false
			}
		}
		if len(b.Succs) == 0 {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				return false
			}
			for i, r := range rt.Results {
				if v := resultOf(rt, i); isErrorType(r.Type()) && !isNilConst(v) && p.isError(v, rt.Block()) {
					return false
				}
			}
			return true
		}
		for _, n := range b.Succs {
			if avoid(n) {
				return true
			}
		}
		return false
	}
	return len(to) > 0 && !avoid(from)
}

// isError: what is returned as an error is made there, or known not to be nil.
func (p *bounds) isError(v ssa.Value, at *ssa.BasicBlock) bool {
	if c, ok := p.canon(v).(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil && !p.w.inScopeFn(g) {
			return true
		}
	}
	return p.nonNil(v, at, nil, 8)
}

// fieldNonNil: the field is given a value which is not nil wherever its struct is made, and wherever it is assigned.
func (p *bounds) fieldNonNil(f string) bool {
	owner := f[:strings.LastIndexByte(f, '.')]
	if p.madeOf == nil {
		p.madeOf = map[string][]*ssa.Alloc{}
		p.storesTo = map[string][]*ssa.Store{}
		for _, g := range p.w.Funcs {
			if isTest(p.w, g) {
				continue
			}
			for _, in := range instrs(g) {
				switch in := in.(type) {
				case *ssa.Alloc:
					n := typeName(deref(in.Type()))
					p.madeOf[n] = append(p.madeOf[n], in)
				case *ssa.Store:
					if n, _, isF := fieldOf(in.Addr); isF {
						p.storesTo[n] = append(p.storesTo[n], in)
					}
				}
			}
		}
	}
	for _, in := range p.madeOf[owner] {
		whole := false
		var set []*ssa.BasicBlock
		for _, r := range refs(in) {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if fieldName(in.Type(), r.Field) == f {
					for _, s := range refs(r) {
						if st, isS := s.(*ssa.Store); isS && st.Addr == r {
							set = append(set, st.Block())
						}
					}
				}
			case *ssa.Store:
				whole = whole || r.Addr == in
			}
		}
		if !whole && !p.alwaysReached(in.Block(), set) {
			return false
		}
	}
	for _, st := range p.storesTo[f] {
		if !p.nonNil(st.Val, st.Block(), nil, 0) {
			return false
		}
	}
	return len(p.madeOf[owner]) > 0
}

// variable: the variable which a closure knows, and where the (outermost) closure is made; also for the function of the variable.
func (p *bounds) variable(v ssa.Value) (*ssa.Alloc, *ssa.MakeClosure) {
	var made *ssa.MakeClosure
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, made
		case *ssa.FreeVar:
			vs, ms := p.bindings(x)
			if len(vs) != 1 {
				return nil, nil
			}
			v, made = vs[0], ms[0]
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// storedByClosure: a closure assigns the variable.
func (p *bounds) storedByClosure(al *ssa.Alloc) bool {
	p.closureIndex()
	var stored func(v ssa.Value, depth int) bool
	stored = func(v ssa.Value, depth int) bool {
		for _, r := range refs(v) {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v && v != ssa.Value(al) {
					return true
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v && (depth > 6 || stored(r.Fn.(*ssa.Function).FreeVars[i], depth+1)) {
						return true
					}
				}
			}
		}
		return false
	}
	return stored(al, 0)
}

// keyOf: the key comes from a list of the keys of the map.
func (p *bounds) keyOf(k, m ssa.Value) bool {
	u, ok := k.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	c, ok := p.canon(ia.X).(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 || p.canon(c.Call.Args[0]) != p.canon(m) {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || len(g.Params) != 1 || len(g.Blocks) == 0 {
		return false
	}
	n := 0
	for _, in := range instrs(g) {
		switch x := in.(type) {
		case *ssa.MakeSlice:
			if l, ok := constInt(x.Len); !ok || l != 0 {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				n++
				if !p.nonNil(g.Params[0], x.Block(), nil, 9) {
					return false
				}
			}
		}
	}
	return n > 0
}

// dereferenced: the pointer or the interface which must not be nil for the instruction.
func dereferenced(in ssa.Instruction) ssa.Value {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		return in.X
	case *ssa.UnOp:
		if in.Op == token.MUL {
			switch in.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Alloc, *ssa.FreeVar:
				return nil
			}
			return in.X
		}
	case ssa.CallInstruction:
		if in.Common().IsInvoke() {
			return in.Common().Value
		}
	}
	return nil
}

// notNilElem: as nonNil, where the elements of lists, the values of successful assertions, and the results of functions of other libraries
// which come with no error are not nil.
func (p *bounds) notNilElem(v ssa.Value, at *ssa.BasicBlock) bool {
	p.elems = true
	ok := p.nonNil(v, at, nil, 0)
	p.elems = false
	return ok
}

func (p *bounds) describe(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if f, _, ok := fieldOf(u.X); ok {
			return f
		}
	}
	return typeName(v.Type())
}

var zeroExpr = bexpr{t: bterm{k: 'z'}}

// u0: a load of a field.
func u0(u *ssa.UnOp) (*ssa.UnOp, bool) {
	_, ok := u.X.(*ssa.FieldAddr)
	return u, ok && u.Op == token.MUL
}
