package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// frame is a calling context: the call by which the function was entered.
type frame struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	up   *frame
}

func (f *frame) key() string {
	s := ""
	for ; f != nil; f = f.up {
		s += fmt.Sprintf("%p/", f.site)
	}
	return s
}

func (f *frame) depth() int {
	n := 0
	for ; f != nil; f = f.up {
		n++
	}
	return n
}

func (f *frame) has(site ssa.CallInstruction) bool {
	for ; f != nil; f = f.up {
		if f.site == site {
			return true
		}
	}
	return false
}

// outermost appends a frame at the outer end of the context.
func (f *frame) outermost(site ssa.CallInstruction, fn *ssa.Function) *frame {
	if f == nil {
		return &frame{site: site, fn: fn}
	}
	return &frame{site: f.site, fn: f.fn, up: f.up.outermost(site, fn)}
}

// place is a value in a calling context.
type place struct {
	v   ssa.Value
	ctx *frame
	ops string // the operations applied on the way, when the tracer records them
}

// tracer finds where a value comes from, following copies: phis, local
// variables, captured variables, parameters (by the calling context when there
// is one, from every caller otherwise), results of the functions of the
// program and, on request, struct fields.
type tracer struct {
	w *World
	// stop makes the value a leaf
	stop func(v ssa.Value, ctx *frame) bool
	// fields: follow the loads of struct fields to every store of the field
	fields func(name string, t types.Type) bool
	// through: operands which the result of an instruction is a copy of (nil: not handled)
	through func(v ssa.Value) []ssa.Value
	// op: the operation which makes the value from others, recorded along the trace
	op  func(v ssa.Value, ctx *frame) (name string, operands []ssa.Value)
	cur string
	// noCallers: parameters without context are leaves
	noCallers bool
	hitParam  *ssa.Parameter
	// incomplete is set when the exploration was cut
	incomplete bool

	seen map[string]bool
	out  []place
}

func (t *tracer) leaf(v ssa.Value, ctx *frame) { t.out = append(t.out, place{v, ctx, t.cur}) }

func (t *tracer) trace(v ssa.Value, ctx *frame) {
	if v == nil {
		return
	}
	if t.seen == nil {
		t.seen = map[string]bool{}
	}
	k := fmt.Sprintf("%p|%s%s", v, ctx.key(), t.cur)
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	if ctx.depth() > 14 || len(t.seen) > 20000 {
		t.incomplete = true
		return
	}
	if t.stop != nil && t.stop(v, ctx) {
		t.leaf(v, ctx)
		return
	}
	if t.op != nil {
		if name, ops := t.op(v, ctx); ops != nil {
			save := t.cur
			t.cur = addOp(t.cur, name)
			for _, o := range ops {
				t.trace(o, ctx)
			}
			t.cur = save
			return
		}
	}
	if t.through != nil {
		if ops := t.through(v); ops != nil {
			for _, o := range ops {
				t.trace(o, ctx)
			}
			return
		}
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.trace(e, ctx)
		}
	case *ssa.ChangeType:
		t.trace(v.X, ctx)
	case *ssa.ChangeInterface:
		t.trace(v.X, ctx)
	case *ssa.MakeInterface:
		t.trace(v.X, ctx)
	case *ssa.Convert:
		t.trace(v.X, ctx)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			t.trace(v.X, ctx)
			return
		}
		t.leaf(v, ctx)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			t.load(v, v.X, ctx)
			return
		}
		t.leaf(v, ctx)
	case *ssa.Field:
		n := fieldName(v.X.Type(), v.Field)
		if t.fields != nil && t.fields(n, v.Type()) {
			t.field(n)
			return
		}
		t.leaf(v, ctx)
	case *ssa.Parameter:
		t.param(v, ctx)
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			t.trace(b, ctx)
			return
		}
		t.leaf(v, ctx)
	case *ssa.Extract:
		switch tp := v.Tuple.(type) {
		case *ssa.Call:
			t.call(v, tp, v.Index, ctx)
		case *ssa.TypeAssert:
			if v.Index == 0 {
				t.trace(tp.X, ctx)
				return
			}
			t.leaf(v, ctx)
		default:
			t.leaf(v, ctx)
		}
	case *ssa.Call:
		t.call(v, v, 0, ctx)
	default:
		t.leaf(v, ctx)
	}
}

// addOp adds an operation to a sorted set of operations.
func addOp(set, op string) string {
	if op == "" {
		return set
	}
	var l []string
	for _, x := range strings.Fields(set) {
		if x == op {
			return set
		}
		l = append(l, x)
	}
	l = append(l, op)
	sort.Strings(l)
	return strings.Join(l, " ")
}

// load follows the load of a local variable to its stores.
func (t *tracer) load(v *ssa.UnOp, addr ssa.Value, ctx *frame) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		t.cell(a, v, ctx)
	case *ssa.FreeVar:
		if b := bindingOf(a); b != nil {
			if al, ok := b.(*ssa.Alloc); ok {
				t.cell(al, v, ctx)
				return
			}
			t.load(v, b, ctx)
			return
		}
		t.leaf(v, ctx)
	case *ssa.Parameter, *ssa.UnOp:
		// a pointer given by the caller: what it points to
		sub := &tracer{w: t.w, noCallers: t.noCallers}
		sub.trace(a.(ssa.Value), ctx)
		if sub.hitParam != nil && t.hitParam == nil {
			t.hitParam = sub.hitParam
		}
		any := false
		for _, l := range sub.out {
			switch x := l.v.(type) {
			case *ssa.FieldAddr:
				n := fieldName(x.X.Type(), x.Field)
				if t.fields != nil && t.fields(n, v.Type()) {
					any = true
					t.field(n)
				}
			case *ssa.Alloc:
				any = true
				t.cell(x, v, l.ctx)
			}
		}
		if !any {
			t.leaf(v, ctx)
		}
	case *ssa.FieldAddr:
		n := fieldName(a.X.Type(), a.Field)
		if t.fields != nil && t.fields(n, v.Type()) {
			t.field(n)
			return
		}
		// a field of a local struct
		if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
			found := false
			for _, r := range refs(al) {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == a.Field {
					for _, rr := range refs(fa) {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
							found = true
							t.trace(st.Val, ctx)
						}
					}
				}
			}
			if found {
				return
			}
		}
		t.leaf(v, ctx)
	default:
		t.leaf(v, ctx)
	}
}

// cell follows every store to a local variable, also those of closures.
func (t *tracer) cell(a *ssa.Alloc, v ssa.Value, ctx *frame) {
	vals := cellStores(a)
	if vals == nil {
		t.leaf(v, ctx)
		return
	}
	for _, x := range vals {
		t.trace(x, ctx)
	}
}

// cellStores returns every value stored in a local variable, in its function and in the
// closures which capture it.
func cellStores(a ssa.Value) []ssa.Value {
	var vals []ssa.Value
	var visit func(addr ssa.Value)
	visit = func(addr ssa.Value) {
		for _, r := range refs(addr) {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == addr {
					vals = append(vals, r.Val)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == addr && i < len(fn.FreeVars) {
						visit(fn.FreeVars[i])
					}
				}
			}
		}
	}
	visit(a)
	return vals
}

func (t *tracer) field(n string) {
	for _, x := range t.w.fieldStores()[n] {
		t.trace(x, nil)
	}
	// stores made by a function which is given the address of the field
	for _, l := range t.w.fieldLoans()[n] {
		for _, val := range cellStores(l.param) {
			t.trace(val, &frame{site: l.site, fn: l.fn})
		}
		for _, val := range cellStoresVia(l.param) {
			t.trace(val, &frame{site: l.site, fn: l.fn})
		}
	}
}

// loan: the address of a field is given to a function.
type loan struct {
	site  ssa.CallInstruction
	fn    *ssa.Function
	param *ssa.Parameter
}

func (w *World) fieldLoans() map[string][]loan {
	if w.loans != nil {
		return w.loans
	}
	w.loans = map[string][]loan{}
	forCalls(w.Funcs, func(fn *ssa.Function, c ssa.CallInstruction) {
		f := c.Common().StaticCallee()
		if f == nil || !w.inScopeFn(f) {
			return
		}
		for i, a := range c.Common().Args {
			if fa, ok := a.(*ssa.FieldAddr); ok && i < len(f.Params) {
				n := fieldName(fa.X.Type(), fa.Field)
				w.loans[n] = append(w.loans[n], loan{c, f, f.Params[i]})
			}
		}
	})
	return w.loans
}

// cellStoresVia: the stores through a pointer parameter which was spilled in a variable because it is captured.
func cellStoresVia(p *ssa.Parameter) []ssa.Value {
	var vals []ssa.Value
	var via func(addr ssa.Value)
	via = func(addr ssa.Value) {
		for _, r := range refs(addr) {
			switch r := r.(type) {
			case *ssa.UnOp:
				if r.Op == token.MUL {
					vals = append(vals, cellStores(r)...)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == addr && i < len(fn.FreeVars) {
						via(fn.FreeVars[i])
					}
				}
			}
		}
	}
	for _, r := range refs(p) {
		if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(p) {
			via(st.Addr)
		}
	}
	return vals
}

// addrFields: the fields whose address the value may be, in the context.
func (w *World) addrFields(v ssa.Value, ctx *frame) (names []string, hit *ssa.Parameter) {
	t := &tracer{w: w, noCallers: true}
	t.trace(v, ctx)
	for _, l := range t.out {
		if fa, ok := l.v.(*ssa.FieldAddr); ok {
			names = append(names, fieldName(fa.X.Type(), fa.Field))
		}
	}
	return names, t.hitParam
}

// inContexts evaluates something that may depend on parameters in every calling context that
// settles them.
func (w *World) inContexts(eval func(ctx *frame) *ssa.Parameter, done func(ctx *frame)) {
	w.buildCallGraph()
	var rec func(ctx *frame)
	rec = func(ctx *frame) {
		hit := eval(ctx)
		if hit != nil && ctx.depth() < 4 {
			n := 0
			for _, site := range w.callers[hit.Parent()] {
				if w.inScopeFn(site.Parent()) && !ctx.has(site) {
					n++
					rec(ctx.outermost(site, hit.Parent()))
				}
			}
			if n > 0 {
				return
			}
		}
		done(ctx)
	}
	rec(nil)
}

func (t *tracer) param(p *ssa.Parameter, ctx *frame) {
	fn := p.Parent()
	idx := -1
	for i, x := range fn.Params {
		if x == p {
			idx = i
		}
	}
	for f := ctx; f != nil; f = f.up {
		if f.fn == fn {
			if arg, ok := argFor(f.site, fn, idx); ok {
				t.trace(arg, f.up)
				return
			}
			t.leaf(p, ctx)
			return
		}
	}
	t.hitParam = p
	if t.noCallers {
		t.leaf(p, ctx)
		return
	}
	t.w.buildCallGraph()
	n := 0
	for _, c := range t.w.callers[fn] {
		if !t.w.inScopeFn(c.Parent()) {
			continue
		}
		if arg, ok := argFor(c, fn, idx); ok {
			n++
			t.trace(arg, nil)
		}
	}
	if n == 0 || fn.Object() != nil && fn.Object().Exported() && isAPI(fn) {
		t.leaf(p, ctx)
	}
}

// callees of a call in a context: the function values are traced.
func (t *tracer) callees(c ssa.CallInstruction, ctx *frame) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{unwrapSynthetic(f)}
	}
	if !cc.IsInvoke() {
		sub := &tracer{w: t.w, noCallers: t.noCallers}
		sub.trace(cc.Value, ctx)
		if sub.hitParam != nil && t.hitParam == nil {
			t.hitParam = sub.hitParam
		}
		var fs []*ssa.Function
		ok := len(sub.out) > 0
		for _, l := range sub.out {
			switch f := l.v.(type) {
			case *ssa.MakeClosure:
				fs = append(fs, unwrapSynthetic(f.Fn.(*ssa.Function)))
			case *ssa.Function:
				fs = append(fs, unwrapSynthetic(f))
			default:
				ok = false
			}
		}
		if ok {
			return fs
		}
	}
	return t.w.calleesOf(c)
}

func (t *tracer) call(v ssa.Value, c *ssa.Call, idx int, ctx *frame) {
	if ctx.has(c) {
		return // recursion: nothing new
	}
	any := false
	for _, f := range t.callees(c, ctx) {
		if !t.w.inScopeFn(f) {
			continue
		}
		any = true
		sub := &frame{site: c, fn: f, up: ctx}
		for _, b := range f.Blocks {
			if ret, ok := lastInstr(b).(*ssa.Return); ok && idx < len(ret.Results) {
				t.trace(ret.Results[idx], sub)
			}
		}
	}
	if !any {
		t.leaf(v, ctx)
	}
}
