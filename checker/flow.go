package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// small helpers on types and values

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// typeName is the module-relative name of a named type ("types.Section", "parser.ParseContext").
func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeName(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isNamed(t types.Type, name string) bool { return typeName(deref(t)) == name }

// fieldName gives "types.Section.Title" for a field selection.
func fieldName(x types.Type, idx int) string {
	t := deref(x)
	st, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok || idx >= st.NumFields() {
		return "?"
	}
	return typeName(t) + "." + st.Field(idx).Name()
}

func fieldOf(v ssa.Value) (string, ssa.Value, bool) {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldName(v.X.Type(), v.Field), v.X, true
	case *ssa.Field:
		return fieldName(v.X.Type(), v.Field), v.X, true
	}
	return "", nil, false
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	i, ok := constant.Int64Val(c.Value)
	return i, ok
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// stripConv removes conversions that keep the value.
func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// dominatesInstr: a is executed before b on every path that reaches b.
func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// instrs lists the instructions of a function.
func instrs(fn *ssa.Function) []ssa.Instruction {
	var r []ssa.Instruction
	for _, b := range fn.Blocks {
		r = append(r, b.Instrs...)
	}
	return r
}

// closures returns fn and the anonymous functions nested in it.
func withClosures(fn *ssa.Function) []*ssa.Function {
	r := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		r = append(r, withClosures(a)...)
	}
	return r
}

// ---------------------------------------------------------------------------
// branch facts

// cond is a condition known to be true or false at a point.
type cond struct {
	v   ssa.Value
	val bool
	at  *ssa.If
}

// factsAt returns the branch conditions decided on every path to the block
// (dominating single-predecessor edges, iteratively; conjunctions are split by the
// compiler into control flow).
func factsAt(b *ssa.BasicBlock) []cond {
	var r []cond
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		ifi, ok := lastInstr(id).(*ssa.If)
		if !ok {
			continue
		}
		t, f := id.Succs[0], id.Succs[1]
		if t == f {
			continue
		}
		// edge id->t dominates b when t dominates b and t has only this predecessor
		tt := edgeDominates(id, t, b)
		ff := edgeDominates(id, f, b)
		if tt && !ff {
			r = append(r, cond{ifi.Cond, true, ifi})
		} else if ff && !tt {
			r = append(r, cond{ifi.Cond, false, ifi})
		}
	}
	return r
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

// edgeDominates: every path from the entry to b uses the edge from->to.
func edgeDominates(from, to, b *ssa.BasicBlock) bool {
	if !to.Dominates(b) {
		return false
	}
	n := 0
	for _, p := range to.Preds {
		if p == from {
			n++
			continue
		}
		// other predecessors are fine when they are themselves dominated by `to` (loop back edges)
		if !to.Dominates(p) {
			return false
		}
	}
	return n == 1
}

// negate strips logical negations.
func (c cond) norm() cond {
	for {
		u, ok := c.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return c
		}
		c = cond{u.X, !c.val, c.at}
	}
}

// ---------------------------------------------------------------------------
// origins: interprocedural backward slicing of a value to its sources

// source is a leaf of the backward slice.
type source struct {
	kind string // const, field, attr, global, param, call, alloc, other
	name string
	pos  token.Pos
}

func (s source) String() string { return s.kind + ":" + s.name }

type slicer struct {
	w *World
	// followFields: continue through stores to struct fields of the scope
	followFields bool
	// stop returns a leaf name when the value must not be followed
	stop func(v ssa.Value) (source, bool)
	seen map[ssa.Value]bool
	out  map[string]source
	max  int
	// expand gives the values a value is made of, instead of the default treatment
	expand func(v ssa.Value) ([]ssa.Value, bool)
	// transparent external calls (arguments flow to the result)
	transparent func(name string) bool
}

func (w *World) newSlicer() *slicer {
	return &slicer{w: w, seen: map[ssa.Value]bool{}, out: map[string]source{}, max: 20000, transparent: defaultTransparent}
}

func defaultTransparent(n string) bool {
	for _, p := range []string{"strings.", "path/filepath.", "path.", "fmt.Sprint", "strconv.", "(*strings.Builder)", "(*bytes.Buffer)", "html.", "text/template.HTMLEscape", "(*strings.Replacer).", "bytes.", "net/url.", "(*net/url.URL)", "slices.", "maps.", "unicode"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (s *slicer) leaf(kind, name string, pos token.Pos) {
	l := source{kind, name, pos}
	if _, ok := s.out[l.String()]; !ok {
		s.out[l.String()] = l
	}
}

func (s *slicer) sources() []source {
	var r []source
	for _, l := range s.out {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (s *slicer) add(v ssa.Value) {
	if v == nil || s.seen[v] {
		return
	}
	if len(s.seen) > s.max {
		s.leaf("other", "slice-too-large", v.Pos())
		return
	}
	s.seen[v] = true
	if s.stop != nil {
		if l, ok := s.stop(v); ok {
			s.leaf(l.kind, l.name, v.Pos())
			return
		}
	}
	if s.expand != nil {
		if vs, ok := s.expand(v); ok {
			for _, x := range vs {
				s.add(x)
			}
			return
		}
	}
	w := s.w
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			s.leaf("const", "nil", v.Pos())
		} else if str, ok := constString(v); ok {
			s.leaf("const", fmt.Sprintf("%q", str), v.Pos())
		} else {
			s.leaf("const", v.Value.String(), v.Pos())
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			s.add(e)
		}
	case *ssa.ChangeType:
		s.add(v.X)
	case *ssa.ChangeInterface:
		s.add(v.X)
	case *ssa.Convert:
		s.add(v.X)
	case *ssa.MakeInterface:
		s.add(v.X)
	case *ssa.TypeAssert:
		s.add(v.X)
	case *ssa.Slice:
		s.add(v.X)
	case *ssa.Extract:
		if s.expand != nil {
			if vs, ok := s.expand(v.Tuple); ok {
				for _, x := range vs {
					s.add(x)
				}
				return
			}
		}
		s.addCallResult(v.Tuple, v.Index)
	case *ssa.Call:
		s.addCallResult(v, -1)
	case *ssa.BinOp:
		s.add(v.X)
		s.add(v.Y)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			s.addLoad(v.X, v.Pos())
			return
		}
		if v.Op == token.ARROW {
			s.leaf("other", "receive", v.Pos())
			return
		}
		s.add(v.X)
	case *ssa.Field:
		s.addFieldLeaf(v, v.X.Type(), v.Field)
	case *ssa.FieldAddr:
		s.addLoad(v, v.Pos())
	case *ssa.Index:
		s.add(v.X)
	case *ssa.IndexAddr:
		s.add(v.X)
	case *ssa.Lookup:
		if k, ok := constString(v.Index); ok {
			s.leaf("attr", k, v.Pos())
		} else if _, ok := types.Unalias(v.X.Type()).Underlying().(*types.Map); ok {
			s.leaf("map", typeName(v.X.Type()), v.Pos())
			s.add(v.X)
		} else {
			s.add(v.X)
		}
	case *ssa.Next, *ssa.Range:
		s.leaf("other", "range", v.Pos())
	case *ssa.Global:
		s.leaf("global", v.RelString(nil), v.Pos())
	case *ssa.Parameter:
		s.addParam(v)
	case *ssa.FreeVar:
		fn := v.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == v {
				idx = i
			}
		}
		found := false
		if fn.Parent() != nil {
			for _, in := range instrs(fn.Parent()) {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && idx >= 0 {
					found = true
					s.add(mc.Bindings[idx])
				}
			}
		}
		if !found {
			s.leaf("other", "freevar "+v.Name(), v.Pos())
		}
	case *ssa.Alloc:
		// contents of a local: everything stored in it (or into its elements)
		s.addStores(v)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		s.addStores(v)
		s.leaf("alloc", v.Type().String(), v.Pos())
	case *ssa.MakeClosure:
		s.leaf("func", fnName(v.Fn.(*ssa.Function)), v.Pos())
	case *ssa.Function:
		s.leaf("func", fnName(v), v.Pos())
	case *ssa.Builtin:
		s.leaf("builtin", v.Name(), v.Pos())
	default:
		s.leaf("other", fmt.Sprintf("%T", v), v.Pos())
	}
	_ = w
}

// addStores follows the values stored in an allocation, its elements and fields.
func (s *slicer) addStores(a ssa.Value) {
	for _, ref := range refs(a) {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr == a {
				s.add(r.Val)
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			for _, rr := range refs(r.(ssa.Value)) {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == r.(ssa.Value) {
					s.add(st.Val)
				}
			}
		case *ssa.MapUpdate:
			if r.Map == a {
				s.add(r.Value)
			}
		case *ssa.Call:
			// builders: arguments of the methods called on it
			n := callName(r.Common())
			if strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bytes.Buffer).Write") {
				for _, arg := range r.Call.Args[1:] {
					s.add(arg)
				}
			}
		}
	}
}

func refs(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

// fieldStores indexes the stores to fields by "types.T.F".
func (w *World) fieldStores() map[string][]ssa.Value {
	if w.fstores != nil {
		return w.fstores
	}
	w.fstores = map[string][]ssa.Value{}
	for _, fn := range w.Funcs {
		for _, in := range instrs(fn) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					n := fieldName(fa.X.Type(), fa.Field)
					w.fstores[n] = append(w.fstores[n], st.Val)
				}
			}
		}
	}
	return w.fstores
}

func (s *slicer) addFieldLeaf(v ssa.Value, xt types.Type, idx int) {
	n := fieldName(xt, idx)
	if s.followFields {
		if vals := s.w.fieldStores()[n]; len(vals) > 0 {
			for _, x := range vals {
				s.add(x)
			}
			return
		}
	}
	s.leaf("field", n, v.Pos())
}

func (s *slicer) addLoad(addr ssa.Value, pos token.Pos) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		s.addFieldLeaf(a, a.X.Type(), a.Field)
	case *ssa.Global:
		s.leaf("global", a.RelString(nil), pos)
	case *ssa.Alloc, *ssa.FreeVar:
		s.add(a.(ssa.Value))
	case *ssa.IndexAddr:
		s.add(a.X)
	default:
		s.add(addr)
	}
}

func (s *slicer) addParam(p *ssa.Parameter) {
	fn := p.Parent()
	idx := -1
	for i, x := range fn.Params {
		if x == p {
			idx = i
		}
	}
	s.w.buildCallGraph()
	callers := s.w.callers[fn]
	n := 0
	for _, c := range callers {
		arg, ok := argFor(c, fn, idx)
		if !ok {
			continue
		}
		n++
		s.add(arg)
	}
	if n == 0 || fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil && isAPI(fn) {
		s.leaf("param", fnName(fn)+"#"+p.Name(), p.Pos())
	}
}

// isAPI: exported functions of the root package and of the configuration package.
func isAPI(fn *ssa.Function) bool {
	rp := relPkg(fn.Pkg.Pkg)
	return rp == "" || rp == "pkg/configuration"
}

// argFor returns the argument bound to parameter idx of fn at the call.
func argFor(c ssa.CallInstruction, fn *ssa.Function, idx int) (ssa.Value, bool) {
	cc := c.Common()
	if cc.IsInvoke() {
		if idx == 0 {
			return cc.Value, true
		}
		if idx-1 < len(cc.Args) {
			return cc.Args[idx-1], true
		}
		return nil, false
	}
	if idx >= 0 && idx < len(cc.Args) && len(cc.Args) == len(fn.Params) {
		return cc.Args[idx], true
	}
	// bound method closures and the like
	if idx > 0 && len(cc.Args) == len(fn.Params)-1 {
		return cc.Args[idx-1], true
	}
	return nil, false
}

func (s *slicer) addCallResult(t ssa.Value, idx int) {
	switch c := t.(type) {
	case *ssa.Call:
		n := callName(c.Common())
		if b, ok := c.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" || b.Name() == "cap" {
				s.leaf("const", "len", c.Pos())
				return
			}
			for _, a := range c.Call.Args {
				s.add(a)
			}
			return
		}
		if attrGetters[n] && len(c.Call.Args) > 1 {
			if k, ok := constString(c.Call.Args[1]); ok {
				s.leaf("attr", k, c.Pos())
			} else {
				ks := s.w.newSlicer()
				ks.stop = s.stop
				ks.add(c.Call.Args[1])
				for _, k := range ks.sources() {
					s.leaf("attrkey", k.String(), c.Pos())
				}
			}
			if len(c.Call.Args) > 2 { // default value
				s.add(c.Call.Args[2])
			}
			return
		}
		callees := s.w.calleesOf(c)
		any := false
		for _, f := range callees {
			if !s.w.inScopeFn(f) {
				continue
			}
			any = true
			for _, b := range f.Blocks {
				ret, ok := lastInstr(b).(*ssa.Return)
				if !ok {
					continue
				}
				for i, rv := range ret.Results {
					if idx < 0 || i == idx {
						s.add(rv)
					}
				}
			}
		}
		if any {
			return
		}
		if s.transparent(n) {
			for _, a := range c.Call.Args {
				s.add(a)
			}
			return
		}
		s.leaf("call", n, c.Pos())
	case *ssa.TypeAssert:
		if idx == 0 {
			s.add(c.X)
		}
	case *ssa.Lookup:
		if idx == 0 {
			if k, ok := constString(c.Index); ok {
				s.leaf("attr", k, c.Pos())
			} else {
				s.leaf("map", typeName(c.X.Type()), c.Pos())
				s.add(c.X)
			}
		}
	case *ssa.Next:
		if rg, ok := c.Iter.(*ssa.Range); ok {
			if idx == 2 {
				s.add(rg.X)
			} else if idx == 1 {
				if _, ok := types.Unalias(rg.X.Type()).Underlying().(*types.Map); ok {
					s.leaf("other", "map-key", c.Pos())
				}
			}
		}
	case *ssa.UnOp:
		s.leaf("other", "receive", c.Pos())
	case *ssa.Select:
		s.leaf("other", "receive", c.Pos())
	default:
		s.leaf("other", fmt.Sprintf("%T", t), t.Pos())
	}
}

const typesPkg = modulePath + "/pkg/types"

var attrGetters = map[string]bool{
	"(" + typesPkg + ".Attributes).GetAsString":            true,
	"(" + typesPkg + ".Attributes).GetAsStringWithDefault": true,
	"(" + typesPkg + ".Attributes).GetAsIntWithDefault":    true,
	"(" + typesPkg + ".Attributes).GetAsBoolWithDefault":   true,
}
