package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An inclusion-based points-to analysis of the whole program: field sensitive, filtered by types,
// with the call graph resolved on the way (static calls, closures, interface dispatch). Functions
// that return what they allocate are analysed once per call string (so that two objects made by
// the same constructor at different calls are told apart); the others once.

type bits []uint64

func (b bits) has(i int) bool { return i>>6 < len(b) && b[i>>6]&(1<<(uint(i)&63)) != 0 }

func (b *bits) add(i int) bool {
	for i>>6 >= len(*b) {
		*b = append(*b, 0)
	}
	if (*b)[i>>6]&(1<<(uint(i)&63)) != 0 {
		return false
	}
	(*b)[i>>6] |= 1 << (uint(i) & 63)
	return true
}

func (b bits) each(f func(int)) {
	for w, x := range b {
		for x != 0 {
			t := x & -x
			n := 0
			for t > 1 {
				t >>= 1
				n++
			}
			f(w<<6 + n)
			x &= x - 1
		}
	}
}

// ptObj is an abstract object.
type ptObj struct {
	id     int
	kind   byte // 'c' variable or field, 'm' map, 'a' array of a slice, 'h' channel, 'f' function, 'x' unknown value
	typ    types.Type
	name   string
	pos    token.Pos
	opaque bool // comes from outside of the program
	parent *ptObj
	fn     *ptInst // functions
	subs   map[string]*ptObj
	cont   *ptNode // what it contains
	keys   *ptNode
	depth  int
	source string  // of opaque objects
	owner  *ptInst // which allocates it
}

func relQualifier(p *types.Package) string { return p.Name() }

func (o *ptObj) root() *ptObj {
	for o.parent != nil {
		o = o.parent
	}
	return o
}

type ptNode struct {
	typ  types.Type
	pts  bits
	todo bits
	out  map[*ptNode]bool
	on   []func(o *ptObj)
	inq  bool
}

type ptInst struct {
	fn     *ssa.Function
	ctx    string
	depth  int
	vals   map[ssa.Value]*ptNode
	tuples map[ssa.Value]map[int]*ptNode
	res    []*ptNode
	free   []*ptNode
	calls  map[*ptInst]ssa.CallInstruction
	gos    []ptGo
	writes []ptWrite
	parent *ptInst // closures: the instance of the function which creates them
	done   bool
}

type ptGo struct {
	site   *ssa.Go
	target *ptInst
}

type ptWrite struct {
	base *ptNode
	what string
	in   ssa.Instruction
	elem bool // the elements of the slice are written (not the map or variable itself)
}

type pta struct {
	w       *World
	objs    []*ptObj
	insts   map[string]*ptInst
	order   []*ptInst
	glob    map[*ssa.Global]*ptNode
	queue   []*ptNode
	fqueue  []*ptInst
	soup    *ptNode
	actions bool
	compat  map[types.Type]map[string]bool
	steps   int
	clone   map[*ssa.Function]bool
	allocs  map[string]*ptObj
	iface   map[string][]*ssa.Function
}

func (w *World) newPTA() *pta {
	w.buildCallGraph()
	p := &pta{w: w, insts: map[string]*ptInst{}, glob: map[*ssa.Global]*ptNode{}, compat: map[types.Type]map[string]bool{}, clone: map[*ssa.Function]bool{}, allocs: map[string]*ptObj{}}
	p.soup = &ptNode{typ: types.NewInterfaceType(nil, nil)}
	for _, fn := range w.Funcs {
		if p.constructor(fn) {
			p.clone[fn] = true
		}
	}
	return p
}

// constructor: a short function which returns what it allocates, or starts goroutines.
func (p *pta) constructor(fn *ssa.Function) bool {
	n := 0
	alloc, ptr := false, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.MakeClosure); ok && len(fn.Blocks) == 1 {
				alloc = true
			}
		}
	}
	if p.w.isGenerated(fn) && !alloc {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n++
			switch in := in.(type) {
			case *ssa.Alloc:
				alloc = alloc || in.Heap
			case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				alloc = true
			case *ssa.Go:
				return true
			case *ssa.Return:
				for _, r := range in.Results {
					ptr = ptr || pointerish(r.Type()) && !isErrorType(r.Type())
				}
			}
		}
	}
	return n < 150 && alloc && ptr || n < 80 && !p.w.isGenerated(fn) && setter(fn)
}

// setter: a short method which changes fields of its receiver.
func setter(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 {
		return false
	}
	if _, ok := fn.Params[0].Type().(*types.Pointer); !ok {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(fn.Params[0]) {
					return true
				}
			}
		}
	}
	return false
}

func pointerish(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerish(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerish(u.Elem())
	}
	return false
}

func (p *pta) newObj(kind byte, t types.Type, name string, pos token.Pos) *ptObj {
	o := &ptObj{id: len(p.objs), kind: kind, typ: t, name: name, pos: pos}
	p.objs = append(p.objs, o)
	return o
}

func (p *pta) accepts(t types.Type, o *ptObj) bool {
	if t == nil {
		return true
	}
	m := p.compat[t]
	if m == nil {
		m = map[string]bool{}
		p.compat[t] = m
	}
	k := string(o.kind)
	if o.typ != nil {
		k += types.TypeString(o.typ, nil)
	}
	if r, ok := m[k]; ok {
		return r
	}
	r := p.accepts0(t, o)
	m[k] = r
	return r
}

func (p *pta) accepts0(t types.Type, o *ptObj) bool {
	if o.kind == 'x' {
		_, iface := types.Unalias(t).Underlying().(*types.Interface)
		_, st := types.Unalias(t).Underlying().(*types.Struct)
		return iface || st
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Pointer:
		return o.kind == 'c' && types.Identical(u.Elem(), o.typ)
	case *types.Slice:
		if o.kind == 'a' {
			return types.Identical(u.Elem(), o.typ)
		}
		if o.kind == 'c' {
			if a, ok := types.Unalias(o.typ).Underlying().(*types.Array); ok {
				return types.Identical(u.Elem(), a.Elem())
			}
		}
		return false
	case *types.Map:
		return o.kind == 'm' && types.Identical(u, o.typ.Underlying())
	case *types.Chan:
		return o.kind == 'h' && types.Identical(u.Elem(), types.Unalias(o.typ).Underlying().(*types.Chan).Elem())
	case *types.Signature:
		return o.kind == 'f'
	case *types.Interface:
		if u.NumMethods() == 0 || o.kind != 'c' {
			return true
		}
		return types.Implements(types.NewPointer(o.typ), u) || types.Implements(o.typ, u)
	}
	return true
}

func (p *pta) add(n *ptNode, o *ptObj) {
	if n == nil || !p.accepts(n.typ, o) {
		return
	}
	if n.pts.add(o.id) {
		n.todo.add(o.id)
		if !n.inq {
			n.inq = true
			p.queue = append(p.queue, n)
		}
	}
}

func (p *pta) edge(a, b *ptNode) {
	if a == nil || b == nil || a == b || a.out[b] {
		return
	}
	if a.out == nil {
		a.out = map[*ptNode]bool{}
	}
	a.out[b] = true
	a.pts.each(func(i int) { p.add(b, p.objs[i]) })
}

func (p *pta) each(n *ptNode, f func(o *ptObj)) {
	if n == nil {
		return
	}
	n.on = append(n.on, f)
	n.pts.each(func(i int) { f(p.objs[i]) })
}

// sub is the part of an object: a field, or its elements.
func (p *pta) sub(o *ptObj, name string, t types.Type) *ptObj {
	if o.subs == nil {
		o.subs = map[string]*ptObj{}
	}
	s := o.subs[name]
	if s == nil {
		s = p.newObj('c', t, o.name+"."+name, o.pos)
		s.parent, s.opaque, s.depth, s.source = o, o.opaque, o.depth+1, o.source
		o.subs[name] = s
	}
	return s
}

// content is the node of what a variable, field, map, or channel contains.
func (p *pta) content(o *ptObj) *ptNode {
	if o.cont == nil {
		t := o.typ
		switch o.kind {
		case 'm':
			t = types.Unalias(o.typ).Underlying().(*types.Map).Elem()
		case 'h':
			t = types.Unalias(o.typ).Underlying().(*types.Chan).Elem()
		case 'a':
			return p.content(p.sub(o, "[]", o.typ))
		}
		o.cont = &ptNode{typ: t}
		if o.opaque {
			p.unknown(o.cont, t, o.name+"*", o)
		}
	}
	return o.cont
}

// unknown adds an object which stands for a value coming from outside.
func (p *pta) unknown(n *ptNode, t types.Type, name string, from *ptObj) *ptObj {
	if n != nil && n.typ == nil {
		n.typ = t
	}
	// one object per type for everything that comes from the same source
	src := name
	if from != nil {
		src = from.source
		name = src + " of type " + types.TypeString(t, relQualifier)
	}
	var o *ptObj
	mk := func(kind byte, t types.Type) {
		k := "unknown " + src + "|" + string(kind) + types.TypeString(t, nil)
		o = p.allocs[k]
		if o == nil {
			o = p.newObj(kind, t, name, token.NoPos)
			o.opaque, o.source = true, src
			if from != nil {
				o.pos = from.pos
			}
			p.allocs[k] = o
		}
		p.add(n, o)
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		mk('c', u.Elem())
	case *types.Slice:
		mk('a', u.Elem())
	case *types.Map:
		mk('m', t)
	case *types.Chan:
		mk('h', t)
	case *types.Interface:
		mk('x', t)
	}
	return o
}

// leaves: the content nodes of a variable, through its fields when it is a structure.
func (p *pta) leaves(o *ptObj, f func(n *ptNode)) {
	switch u := types.Unalias(o.typ).Underlying().(type) {
	case *types.Struct:
		if o.depth > 12 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			if pointerish(u.Field(i).Type()) {
				p.leaves(p.sub(o, u.Field(i).Name(), u.Field(i).Type()), f)
			}
		}
	case *types.Array:
		p.leaves(p.sub(o, "[]", u.Elem()), f)
	default:
		f(p.content(o))
	}
}

func (p *pta) load(base, dst *ptNode) {
	p.each(base, func(o *ptObj) {
		switch o.kind {
		case 'c':
			p.leaves(o, func(n *ptNode) { p.edge(n, dst) })
		case 'a':
			p.leaves(p.sub(o, "[]", o.typ), func(n *ptNode) { p.edge(n, dst) })
		}
	})
}

func (p *pta) store(base, src *ptNode) {
	if src == nil {
		return
	}
	p.each(base, func(o *ptObj) {
		switch o.kind {
		case 'c':
			p.leaves(o, func(n *ptNode) { p.edge(src, n) })
		case 'a':
			p.leaves(p.sub(o, "[]", o.typ), func(n *ptNode) { p.edge(src, n) })
		}
	})
}

func (p *pta) keysOf(o *ptObj) *ptNode {
	if o.keys == nil {
		t := types.Unalias(o.typ).Underlying().(*types.Map).Key()
		o.keys = &ptNode{typ: t}
		if o.opaque && pointerish(t) {
			p.unknown(o.keys, t, o.name+" keys", o)
		}
	}
	return o.keys
}

// inst returns the instance of a function for a call string.
func (p *pta) inst(fn *ssa.Function, ctx string, depth int, parent *ptInst) *ptInst {
	k := fmt.Sprintf("%p|%s", fn, ctx)
	if i := p.insts[k]; i != nil {
		return i
	}
	i := &ptInst{fn: fn, ctx: ctx, depth: depth, vals: map[ssa.Value]*ptNode{}, tuples: map[ssa.Value]map[int]*ptNode{}, calls: map[*ptInst]ssa.CallInstruction{}, parent: parent}
	for j := 0; j < fn.Signature.Results().Len(); j++ {
		i.res = append(i.res, p.typed(fn, fn.Signature.Results().At(j).Type()))
	}
	for _, v := range fn.FreeVars {
		i.free = append(i.free, &ptNode{typ: v.Type()})
	}
	p.insts[k] = i
	p.order = append(p.order, i)
	p.fqueue = append(p.fqueue, i)
	return i
}

func (p *pta) typed(fn *ssa.Function, t types.Type) *ptNode {
	if !pointerish(t) {
		return nil
	}
	if p.w.isGenerated(fn) && !p.clone[fn] && !p.actions {
		if u, ok := types.Unalias(t).Underlying().(*types.Interface); ok && u.NumMethods() == 0 {
			return p.soup
		}
	}
	return &ptNode{typ: t}
}

func (p *pta) val(i *ptInst, v ssa.Value) *ptNode {
	switch v := v.(type) {
	case nil, *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return p.global(v)
	case *ssa.Function:
		n := &ptNode{typ: v.Type()}
		p.add(n, p.funcObj(v, nil))
		return n
	case *ssa.FreeVar:
		for j, f := range i.fn.FreeVars {
			if f == v {
				return i.free[j]
			}
		}
	}
	if n, ok := i.vals[v]; ok {
		return n
	}
	n := p.typed(i.fn, v.Type())
	i.vals[v] = n
	return n
}

func (p *pta) tuple(i *ptInst, v ssa.Value, idx int, t types.Type) *ptNode {
	m := i.tuples[v]
	if m == nil {
		m = map[int]*ptNode{}
		i.tuples[v] = m
	}
	if n, ok := m[idx]; ok {
		return n
	}
	n := p.typed(i.fn, t)
	m[idx] = n
	return n
}

func (p *pta) global(g *ssa.Global) *ptNode {
	n := p.glob[g]
	if n == nil {
		n = &ptNode{typ: g.Type()}
		o := p.newObj('c', deref(g.Type()), "variable "+g.String(), g.Pos())
		o.source = o.name
		o.opaque = g.Pkg == nil || !p.w.inScope[g.Pkg.Pkg] || p.w.genFiles[p.w.Fset.Position(g.Pos()).Filename]
		p.glob[g] = n
		p.add(n, o)
	}
	return n
}

func (p *pta) funcObj(fn *ssa.Function, mk *ptInst) *ptObj {
	ctx, depth := "", 0
	if mk != nil {
		ctx, depth = mk.ctx, mk.depth
		if fn.Parent() == nil {
			ctx, depth = "", 0
		}
	}
	k := fmt.Sprintf("func %p %s", fn, ctx)
	o := p.allocs[k]
	if o == nil {
		o = p.newObj('f', fn.Signature, "function "+fnName(fn), fn.Pos())
		o.fn = p.inst(fn, ctx, depth, mk)
		p.allocs[k] = o
	}
	return o
}

func (p *pta) alloc(i *ptInst, v ssa.Instruction, kind byte, t types.Type, what string) *ptObj {
	k := fmt.Sprintf("%p %s %s %c", v, i.ctx, what, kind)
	o := p.allocs[k]
	if o == nil {
		o = p.newObj(kind, t, what+" in "+fnName(i.fn), v.Pos())
		if i.ctx != "" {
			o.name += " (called from " + p.ctxName(i.ctx) + ")"
		}
		o.owner = i
		p.allocs[k] = o
	}
	return o
}

func (p *pta) ctxName(ctx string) string {
	var l []string
	for _, x := range strings.Split(strings.TrimSuffix(strings.TrimSuffix(ctx, "*"), ";"), ";") {
		l = append(l, strings.SplitN(x, ">", 2)[0])
	}
	return strings.Join(l, ", ")
}

func (p *pta) solve() {
	for len(p.queue) > 0 || len(p.fqueue) > 0 {
		for len(p.fqueue) > 0 {
			i := p.fqueue[0]
			p.fqueue = p.fqueue[1:]
			if !i.done {
				i.done = true
				p.body(i)
			}
		}
		if len(p.queue) == 0 {
			continue
		}
		n := p.queue[len(p.queue)-1]
		p.queue = p.queue[:len(p.queue)-1]
		n.inq = false
		p.steps++
		todo := n.todo
		n.todo = nil
		outs := make([]*ptNode, 0, len(n.out))
		for d := range n.out {
			outs = append(outs, d)
		}
		ons := len(n.on)
		todo.each(func(x int) {
			o := p.objs[x]
			for _, d := range outs {
				p.add(d, o)
			}
			for j := 0; j < ons; j++ {
				n.on[j](o)
			}
		})
	}
}

func (p *pta) write(i *ptInst, base *ptNode, what string, in ssa.Instruction, elem bool) {
	if base != nil {
		i.writes = append(i.writes, ptWrite{base, what, in, elem})
	}
}

func (p *pta) body(i *ptInst) {
	gen := p.w.isGenerated(i.fn)
	for _, b := range i.fn.Blocks {
		for _, in := range b.Instrs {
			if i.fn.Name() == "init" && i.fn.Parent() == nil && in.Pos().IsValid() && p.w.genFiles[p.w.Fset.Position(in.Pos()).Filename] {
				continue // the tables of the generated parser are opaque
			}
			p.instr(i, in, gen)
		}
	}
}

func (p *pta) instr(i *ptInst, in ssa.Instruction, gen bool) {
	switch in := in.(type) {
	case *ssa.Alloc:
		p.add(p.val(i, in), p.alloc(i, in, 'c', deref(in.Type()), "object made"))
	case *ssa.MakeMap:
		p.add(p.val(i, in), p.alloc(i, in, 'm', in.Type(), "map made"))
	case *ssa.MakeSlice:
		p.add(p.val(i, in), p.alloc(i, in, 'a', types.Unalias(in.Type()).Underlying().(*types.Slice).Elem(), "slice made"))
	case *ssa.MakeChan:
		p.add(p.val(i, in), p.alloc(i, in, 'h', in.Type(), "channel made"))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := p.funcObj(fn, i)
		for j, bnd := range in.Bindings {
			p.edge(p.val(i, bnd), o.fn.free[j])
		}
		p.add(p.val(i, in), o)
	case *ssa.MakeInterface:
		p.edge(p.val(i, in.X), p.val(i, in))
	case *ssa.ChangeInterface:
		p.edge(p.val(i, in.X), p.val(i, in))
	case *ssa.ChangeType:
		p.edge(p.val(i, in.X), p.val(i, in))
	case *ssa.Convert:
		if pointerish(in.Type()) {
			if pointerish(in.X.Type()) {
				p.edge(p.val(i, in.X), p.val(i, in))
			} else if s, ok := types.Unalias(in.Type()).Underlying().(*types.Slice); ok {
				p.add(p.val(i, in), p.alloc(i, in, 'a', s.Elem(), "bytes converted"))
			}
		}
	case *ssa.Field:
		p.edge(p.val(i, in.X), p.val(i, in))
	case *ssa.Index:
		p.edge(p.val(i, in.X), p.val(i, in))
	case *ssa.Slice:
		p.edge(p.val(i, in.X), p.val(i, in))
	case *ssa.Phi:
		for _, e := range in.Edges {
			p.edge(p.val(i, e), p.val(i, in))
		}
	case *ssa.FieldAddr:
		st := types.Unalias(deref(in.X.Type())).Underlying().(*types.Struct).Field(in.Field)
		dst := p.val(i, in)
		p.each(p.val(i, in.X), func(o *ptObj) {
			if o.kind == 'c' {
				p.add(dst, p.sub(o, st.Name(), st.Type()))
			}
		})
	case *ssa.IndexAddr:
		dst := p.val(i, in)
		p.each(p.val(i, in.X), func(o *ptObj) {
			if o.kind == 'a' || o.kind == 'c' {
				p.add(dst, p.sub(o, "[]", deref(in.Type())))
			}
		})
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if pointerish(in.Type()) {
				if v := storedLocally(in); v != nil {
					p.edge(p.val(i, v), p.val(i, in))
				} else {
					p.load(p.val(i, in.X), p.val(i, in))
				}
			}
		case token.ARROW:
			dst := p.val(i, in)
			if in.CommaOk {
				dst = p.tuple(i, in, 0, in.Type().(*types.Tuple).At(0).Type())
			}
			p.each(p.val(i, in.X), func(o *ptObj) {
				if o.kind == 'h' {
					p.edge(p.content(o), dst)
				}
			})
		}
	case *ssa.Store:
		if pointerish(in.Val.Type()) {
			p.store(p.val(i, in.Addr), p.val(i, in.Val))
		}
		if _, local := in.Addr.(*ssa.Alloc); !local {
			p.write(i, p.val(i, in.Addr), "assignment", in, false)
		}
	case *ssa.MapUpdate:
		p.each(p.val(i, in.Map), func(o *ptObj) {
			if o.kind == 'm' {
				p.edge(p.val(i, in.Key), p.keysOf(o))
				p.edge(p.val(i, in.Value), p.content(o))
			}
		})
		p.write(i, p.val(i, in.Map), "assignment to an entry", in, false)
	case *ssa.Lookup:
		if _, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map); ok {
			dst := p.val(i, in)
			if in.CommaOk {
				dst = p.tuple(i, in, 0, in.Type().(*types.Tuple).At(0).Type())
			}
			p.each(p.val(i, in.X), func(o *ptObj) {
				if o.kind == 'm' {
					p.edge(p.content(o), dst)
				}
			})
		}
	case *ssa.Next:
		if rg, ok := in.Iter.(*ssa.Range); ok && !in.IsString {
			k := p.tuple(i, in, 1, in.Type().(*types.Tuple).At(1).Type())
			v := p.tuple(i, in, 2, in.Type().(*types.Tuple).At(2).Type())
			p.each(p.val(i, rg.X), func(o *ptObj) {
				if o.kind == 'm' {
					p.edge(p.keysOf(o), k)
					p.edge(p.content(o), v)
				}
			})
		}
	case *ssa.Extract:
		switch t := in.Tuple.(type) {
		case *ssa.Call, *ssa.UnOp, *ssa.Lookup, *ssa.Next, *ssa.TypeAssert, *ssa.Select:
			p.edge(p.tuple(i, t, in.Index, in.Type()), p.val(i, in))
		}
	case *ssa.TypeAssert:
		dst := p.val(i, in)
		if in.CommaOk {
			dst = p.tuple(i, in, 0, in.AssertedType)
		}
		if dst == nil {
			return
		}
		src := p.val(i, in.X)
		p.edge(src, dst)
		p.each(src, func(o *ptObj) {
			// values given by the caller are not elements of documents
			if o.kind == 'x' && o.source == "parameter config" {
				return // the values of attributes are strings
			}
			if o.kind == 'x' && (!p.moduleType(in.AssertedType) || gen && o.source == "variable "+i.fn.Pkg.Pkg.Path()+".g") {
				p.unknown(dst, in.AssertedType, o.name+".("+types.TypeString(in.AssertedType, nil)+")", o)
			}
		})
	case *ssa.Send:
		p.each(p.val(i, in.Chan), func(o *ptObj) {
			if o.kind == 'h' {
				p.edge(p.val(i, in.X), p.content(o))
			}
		})
	case *ssa.Select:
		k := 2
		for _, st := range in.States {
			st := st
			if st.Dir == types.SendOnly {
				p.each(p.val(i, st.Chan), func(o *ptObj) {
					if o.kind == 'h' {
						p.edge(p.val(i, st.Send), p.content(o))
					}
				})
				continue
			}
			dst := p.tuple(i, in, k, types.Unalias(st.Chan.Type()).Underlying().(*types.Chan).Elem())
			k++
			p.each(p.val(i, st.Chan), func(o *ptObj) {
				if o.kind == 'h' {
					p.edge(p.content(o), dst)
				}
			})
		}
	case *ssa.Return:
		for j, r := range in.Results {
			p.edge(p.val(i, r), i.res[j])
		}
	case *ssa.Call:
		p.call(i, in, in)
	case *ssa.Defer:
		p.call(i, in, nil)
	case *ssa.Go:
		p.call(i, in, nil)
	}
}

// storedLocally: the value which the field of a local variable has when it is loaded, if it is
// assigned on all paths and nothing else can change it in between.
func storedLocally(load *ssa.UnOp) ssa.Value {
	fa, ok := load.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	a, ok := fa.X.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return nil
	}
	var stores, others []ssa.Instruction
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			others = append(others, u) // of the whole variable, or of its address
		case *ssa.FieldAddr:
			for _, x := range *u.Referrers() {
				switch x := x.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if x.Addr == u {
						if u.Field == fa.Field {
							stores = append(stores, x)
						}
						continue
					}
					others = append(others, x)
				default:
					if u.Field == fa.Field {
						others = append(others, x)
					}
				}
			}
		default:
			others = append(others, u)
		}
	}
	for _, s := range stores {
		if !dominatesInstr(s, load) {
			continue
		}
		ok := true
		for _, t := range append(append([]ssa.Instruction{}, stores...), others...) {
			if t == s || !reaches(t, load) {
				continue
			}
			// an assignment which precedes the one considered is overwritten
			if st, plain := t.(*ssa.Store); plain && st.Val != ssa.Value(a) && !reachesWithout(t, load, func(x ssa.Instruction) bool { return x == s }) {
				continue
			}
			ok = false
		}
		if ok {
			return s.(*ssa.Store).Val
		}
	}
	return nil
}

func (p *pta) moduleType(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && p.w.inScope[n.Obj().Pkg()]
}

func (p *pta) link(i *ptInst, site ssa.CallInstruction, t *ptInst, args []ssa.Value, recv *ptNode, v *ssa.Call) {
	i.calls[t] = site
	if g, ok := site.(*ssa.Go); ok {
		i.gos = append(i.gos, ptGo{g, t})
	}
	params := t.fn.Params
	if recv != nil && len(params) > 0 {
		p.edge(recv, p.val(t, params[0]))
		params = params[1:]
	}
	for j, a := range args {
		if j < len(params) {
			p.edge(p.val(i, a), p.val(t, params[j]))
		}
	}
	if v != nil {
		if len(t.res) == 1 {
			p.edge(t.res[0], p.val(i, v))
		} else {
			for j, r := range t.res {
				p.edge(r, p.tuple(i, v, j, t.fn.Signature.Results().At(j).Type()))
			}
		}
	}
}

// maxDepth: the length of the call strings.
const maxDepth = 6

func (p *pta) target(i *ptInst, site ssa.CallInstruction, fn *ssa.Function) *ptInst {
	if p.clone[fn] && strings.Contains(i.ctx, fmt.Sprintf("%p", fn)) {
		return p.inst(fn, strings.TrimSuffix(i.ctx, "*")+"*", i.depth+1, nil)
	}
	if p.clone[fn] && i.depth < maxDepth {
		return p.inst(fn, fmt.Sprintf("%s%s>%d %p;", i.ctx, p.w.pos(site.Pos()), p.w.Fset.Position(site.Pos()).Column, fn), i.depth+1, nil)
	}
	if p.clone[fn] {
		// beyond the bound, only the last call is kept apart
		return p.inst(fn, fmt.Sprintf("%s>%d %p;", p.w.pos(site.Pos()), p.w.Fset.Position(site.Pos()).Column, fn), maxDepth, nil)
	}
	return p.inst(fn, "", 0, nil)
}

func (p *pta) call(i *ptInst, site ssa.CallInstruction, v *ssa.Call) {
	cc := site.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		p.builtin(i, site, b, v)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			t := p.funcObj(f, i)
			p.instr(i, mc, false)
			p.link(i, site, t.fn, cc.Args, nil, v)
			return
		}
		if len(f.Blocks) > 0 && f.Pkg != nil && p.w.inScope[f.Pkg.Pkg] || f.Pkg == nil && len(f.Blocks) > 0 {
			p.link(i, site, p.target(i, site, f), cc.Args, nil, v)
			return
		}
		p.external(i, site, v)
		return
	}
	if cc.IsInvoke() {
		recv := p.val(i, cc.Value)
		seen := map[*ssa.Function]bool{}
		ext, elem := false, false
		p.each(recv, func(o *ptObj) {
			var t types.Type
			switch o.kind {
			case 'c':
				t = types.NewPointer(o.typ)
			case 'm':
				t = o.typ
			case 'x':
				if !ext {
					ext = true
					p.external(i, site, v)
				}
				if elem {
					return
				}
				elem = true
				// the elements made by the grammar, which are not followed themselves
				for _, f := range p.w.calleesOf(site) {
					if p.w.inScopeFn(f) && !p.w.isGenerated(f) && !seen[f] {
						seen[f] = true
						p.link(i, site, p.target(i, site, f), cc.Args, recv, v)
					}
				}
				return
			default:
				return
			}
			f := p.method(t, cc.Method)
			if f == nil && o.kind == 'c' {
				f = p.method(o.typ, cc.Method)
			}
			if f == nil || seen[f] {
				if f == nil && !ext {
					ext = true
					p.external(i, site, v)
				}
				return
			}
			seen[f] = true
			if len(f.Blocks) == 0 || f.Pkg != nil && !p.w.inScope[f.Pkg.Pkg] {
				if !ext {
					ext = true
					p.external(i, site, v)
				}
				return
			}
			p.link(i, site, p.target(i, site, f), cc.Args, recv, v)
		})
		// dynamic types which are not objects (structures and basic types by value)
		for _, f := range p.w.calleesOf(site) {
			if p.w.inScopeFn(f) && f.Signature.Recv() != nil && !seen[f] {
				if _, ptr := types.Unalias(f.Signature.Recv().Type()).(*types.Pointer); !ptr {
					seen[f] = true
					p.link(i, site, p.target(i, site, f), cc.Args, recv, v)
				}
			}
		}
		return
	}
	seen := map[*ptInst]bool{}
	p.each(p.val(i, cc.Value), func(o *ptObj) {
		if o.kind == 'f' && !seen[o.fn] && types.Identical(o.fn.fn.Signature.Params(), cc.Signature().Params()) {
			seen[o.fn] = true
			if len(o.fn.fn.Blocks) > 0 {
				p.link(i, site, o.fn, cc.Args, nil, v)
			}
		}
	})
}

func (p *pta) method(t types.Type, m *types.Func) *ssa.Function {
	ms := p.w.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.w.Prog.MethodValue(sel)
}

func (p *pta) builtin(i *ptInst, site ssa.CallInstruction, b *ssa.Builtin, v *ssa.Call) {
	args := site.Common().Args
	switch b.Name() {
	case "append":
		a := p.val(i, args[0])
		if v == nil {
			return
		}
		res := p.val(i, v)
		p.edge(a, res)
		sl := types.Unalias(v.Type()).Underlying().(*types.Slice)
		o := p.alloc(i, site, 'a', sl.Elem(), "slice extended")
		p.add(res, o)
		p.write(i, a, "append", site, true)
		if pointerish(sl.Elem()) {
			tmp := &ptNode{typ: nil}
			p.load(a, tmp)
			if len(args) > 1 {
				p.load(p.val(i, args[1]), tmp)
			}
			p.store(res, tmp)
		}
	case "copy":
		if pointerish(types.Unalias(args[0].Type()).Underlying().(*types.Slice).Elem()) {
			tmp := &ptNode{}
			p.load(p.val(i, args[1]), tmp)
			p.store(p.val(i, args[0]), tmp)
		}
		p.write(i, p.val(i, args[0]), "copy", site, true)
	case "delete", "clear":
		p.write(i, p.val(i, args[0]), b.Name(), site, false)
	}
}

// readOnlyMethods: external types whose methods do not change what can be observed.
func readOnlyExternal(n string) bool {
	for _, p := range []string{"(*regexp.Regexp).", "(*strings.Replacer).", "(*sync.", "(*time.", "(*net/url.URL).String", "(*net/url.URL).Query", "(*github.com/sirupsen/logrus.", "(error).Error", "(*go/ast.",
		"(*text/template.Template).Execute", "(*text/template.Template).Lookup", "(*text/template.Template).Name", "(*text/template.Template).DefinedTemplates", "(*text/template.Template).Templates",
		"(*html/template.Template).Execute", "(fmt.Stringer).String", "(*encoding/base64.Encoding).Encode", "(*encoding/base64.Encoding).Decode", "(*strings.Reader).Len", "(github.com/alecthomas/chroma/v2.Lexer).", "(*github.com/alecthomas/chroma/v2.Style).", "(*github.com/alecthomas/chroma/v2/formatters/html.Formatter).", "(reflect."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// externalMutates: the arguments (by index) written by external functions.
func externalMutates(n string) []int {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Float64s", "maps.Copy", "maps.DeleteFunc", "math/rand.Shuffle", "encoding/binary.PutUvarint":
		return []int{0}
	case "io.ReadFull", "io.ReadAtLeast", "encoding/json.Unmarshal", "gopkg.in/yaml.v2.Unmarshal", "gopkg.in/yaml.v3.Unmarshal", "github.com/BurntSushi/toml.Decode":
		return []int{1}
	case "fmt.Fscan", "fmt.Fscanf", "fmt.Fscanln", "fmt.Sscan", "fmt.Sscanf", "fmt.Sscanln":
		return []int{1, 2}
	}
	if strings.HasPrefix(n, "slices.") {
		switch strings.SplitN(strings.TrimPrefix(n, "slices."), "[", 2)[0] {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Insert", "Compact", "CompactFunc", "Replace":
			return []int{0}
		}
	}
	return nil
}

func (p *pta) external(i *ptInst, site ssa.CallInstruction, v *ssa.Call) {
	cc := site.Common()
	n := callName(cc)
	sig := cc.Signature()
	args := cc.Args
	if cc.IsInvoke() {
		if !readOnlyExternal(n) && (cc.Method.Pkg() == nil || !p.w.inScope[cc.Method.Pkg()]) {
			p.write(i, p.val(i, cc.Value), n, site, false)
		}
	} else if sig.Recv() != nil && len(args) > 0 {
		if _, ptr := types.Unalias(args[0].Type()).Underlying().(*types.Pointer); ptr && !readOnlyExternal(n) {
			p.write(i, p.val(i, args[0]), n, site, false)
		}
	}
	for _, k := range externalMutates(n) {
		if k < len(args) {
			_, isSlice := types.Unalias(args[k].Type()).Underlying().(*types.Slice)
			p.write(i, p.val(i, args[k]), n, site, isSlice)
		}
	}
	// callbacks
	for _, a := range args {
		if !pointerish(a.Type()) {
			continue
		}
		p.each(p.val(i, a), func(o *ptObj) {
			if o.kind == 'f' && len(o.fn.fn.Blocks) > 0 {
				i.calls[o.fn] = site
			}
		})
	}
	if v == nil {
		return
	}
	result := func(n2 *ptNode, t types.Type, j int) {
		if n2 == nil || isErrorType(t) {
			return
		}
		o := p.unknown(nil, t, fmt.Sprintf("result %d of %s", j, n), nil)
		if o != nil {
			o.pos = site.Pos()
			p.add(n2, o)
		}
		for _, a := range args {
			if pointerish(a.Type()) {
				p.edge(p.val(i, a), n2)
			}
		}
	}
	rs := sig.Results()
	if rs.Len() == 1 {
		result(p.val(i, v), rs.At(0).Type(), 0)
		return
	}
	for j := 0; j < rs.Len(); j++ {
		result(p.tuple(i, v, j, rs.At(j).Type()), rs.At(j).Type(), j)
	}
}

// reach: the instances which run when one is called.
func (p *pta) reach(roots ...*ptInst) []*ptInst {
	seen := map[*ptInst]bool{}
	var l []*ptInst
	var visit func(i *ptInst)
	visit = func(i *ptInst) {
		if seen[i] {
			return
		}
		seen[i] = true
		l = append(l, i)
		for t, site := range i.calls {
			if _, ok := site.(*ssa.Go); ok {
				continue
			}
			visit(t)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return l
}

// written: the objects written by an instruction.
func (p *pta) written(wr ptWrite) []*ptObj {
	var l []*ptObj
	wr.base.pts.each(func(x int) {
		o := p.objs[x]
		if wr.elem && o.kind != 'a' && o.kind != 'c' {
			return
		}
		l = append(l, o)
	})
	return l
}
