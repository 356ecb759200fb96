package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id: "C18", title: "files and locks are given back", run: runC18,
		explanation: "Ownership analysis over the SSA form of the library and the command: every call that opens a file is an acquisition; every path from its success to a return of the function (or back to the acquisition) must close the file, register a deferred close, or hand the ownership to the caller (the file itself, or a function that closes it on all its paths), in which case each call site inherits the obligation. The same for locks: every path from Lock to a return releases the same lock. No code is run.",
		assumptions: []string{"a file is released by its Close method only; finalizers are not counted"},
	})
}

var fileOpeners = map[string]bool{"os.Open": true, "os.Create": true, "os.OpenFile": true, "os.CreateTemp": true, "os.NewFile": true, "io/ioutil.TempFile": true}

type ownership struct {
	w *World
	r *Report
	n int
}

// valueRoot follows conversions, loads of locals stored once, and phis of a single value.
func valueRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			if s := soleStore(x.X); s != nil {
				v = s
				continue
			}
			return v
		case *ssa.FreeVar:
			b := bindingOf(x)
			if b == nil {
				return v
			}
			if s := soleStore(b); s != nil {
				return valueRoot(s)
			}
			v = b
		default:
			return v
		}
	}
	return v
}

// soleStore: the only value stored in the variable (an allocation, possibly captured).
func soleStore(addr ssa.Value) ssa.Value {
	if fv, ok := addr.(*ssa.FreeVar); ok {
		addr = bindingOf(fv)
	}
	a, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, r := range refs(a) {
		switch st := r.(type) {
		case *ssa.Store:
			if st.Addr == a {
				n++
				val = st.Val
			}
		case *ssa.MakeClosure:
			// stores in the closure
			for i, b := range st.Bindings {
				if b == ssa.Value(a) {
					for _, rr := range refs(st.Fn.(*ssa.Function).FreeVars[i]) {
						if s2, ok := rr.(*ssa.Store); ok && s2.Addr == ssa.Value(st.Fn.(*ssa.Function).FreeVars[i]) {
							n++
						}
					}
				}
			}
		}
	}
	if n == 1 {
		return val
	}
	return nil
}

func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	for i, x := range fn.FreeVars {
		if x != fv {
			continue
		}
		for _, in := range instrs(fn.Parent()) {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[i]
			}
		}
	}
	return nil
}

// handle of a resource: the closer itself or a function that releases it
type handle struct {
	v      ssa.Value
	isFunc bool
}

func (o *ownership) isHandle(v ssa.Value, hs []handle) (handle, bool) {
	r := valueRoot(v)
	for _, h := range hs {
		if r == h.v || r == valueRoot(h.v) {
			return h, true
		}
	}
	return handle{}, false
}

// releases: the instruction releases the resource or registers its release.
func (o *ownership) releases(in ssa.Instruction, hs []handle, depth int) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || depth > 5 {
		return false
	}
	if _, isGo := in.(*ssa.Go); isGo {
		return false
	}
	cc := c.Common()
	// h.Close()
	if cc.IsInvoke() {
		if cc.Method.Name() == "Close" {
			if h, ok := o.isHandle(cc.Value, hs); ok && !h.isFunc {
				return true
			}
		}
		return false
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Name() == "Close" && f.Signature.Recv() != nil && len(cc.Args) > 0 {
			if h, ok := o.isHandle(cc.Args[0], hs); ok && !h.isFunc {
				return true
			}
		}
		// bound method value f.Close deferred: closure "Close$bound"
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && strings.HasSuffix(f.Name(), "Close$bound") && len(mc.Bindings) == 1 {
			if h, ok := o.isHandle(mc.Bindings[0], hs); ok && !h.isFunc {
				return true
			}
		}
		if o.w.inScopeFn(f) {
			// a function (or closure) that releases it on all its paths
			sub := append([]handle{}, hs...)
			for i, a := range cc.Args {
				if h, ok := o.isHandle(a, hs); ok && i < len(f.Params) {
					sub = append(sub, handle{f.Params[i], h.isFunc})
				}
			}
			return mustPass(f, func(i ssa.Instruction) bool { return o.releases(i, sub, depth+1) })
		}
		return false
	}
	// call of a function value
	if h, ok := o.isHandle(cc.Value, hs); ok && h.isFunc {
		return true
	}
	return false
}

// releasingFunc: the value is a function that releases the resource when called.
func (o *ownership) releasingFunc(v ssa.Value, hs []handle, depth int) bool {
	if depth > 4 {
		return false
	}
	v = valueRoot(v)
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		if strings.HasSuffix(f.Name(), "Close$bound") && len(x.Bindings) == 1 {
			h, ok := o.isHandle(x.Bindings[0], hs)
			return ok && !h.isFunc
		}
		sub := append([]handle{}, hs...)
		for i, b := range x.Bindings {
			if h, ok := o.isHandle(b, hs); ok && i < len(f.FreeVars) {
				sub = append(sub, handle{f.FreeVars[i], h.isFunc})
			}
		}
		return mustPass(f, func(i ssa.Instruction) bool { return o.releases(i, sub, 0) })
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !o.w.inScopeFn(f) {
			return false
		}
		var sub []handle
		for i, a := range x.Call.Args {
			if h, ok := o.isHandle(a, hs); ok && i < len(f.Params) {
				sub = append(sub, handle{f.Params[i], h.isFunc})
			}
		}
		if len(sub) == 0 {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			ret, ok := lastInstr(b).(*ssa.Return)
			if !ok || b == f.Recover {
				continue
			}
			n++
			if len(ret.Results) == 0 || !o.releasingFunc(ret.Results[0], sub, depth+1) {
				return false
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !o.releasingFunc(e, hs, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

// owned checks the paths from just after `acq` (a call whose error result is errv) on.
func (o *ownership) owned(fn *ssa.Function, acq ssa.Instruction, errv ssa.Value, hs []handle, what string, depth int) {
	o.n++
	if depth > 6 {
		o.r.Fail("file-closed", fnName(topFunc(fn))+" "+what, o.w.pos(acq.Pos()), "ownership chain too long")
		return
	}
	type transfer struct {
		ret *ssa.Return
		idx map[int]bool // result index -> is function
	}
	var leak token.Pos
	leakMsg := ""
	transfers := map[int]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == acq {
				leak, leakMsg = in.Pos(), "opened again before it is closed"
				return
			}
			if o.releases(in, hs, 0) {
				return
			}
			if ret, ok := in.(*ssa.Return); ok {
				given := false
				for k, rv := range ret.Results {
					if h, ok := o.isHandle(rv, hs); ok {
						given = true
						transfers[k] = h.isFunc
					} else if o.releasingFunc(rv, hs, 0) {
						given = true
						transfers[k] = true
					}
				}
				if !given {
					leak, leakMsg = ret.Pos(), "not closed on the way out"
					if !leak.IsValid() {
						leak = acq.Pos()
					}
				}
				return
			}
		}
		for k, s := range b.Succs {
			if ifi, ok := lastInstr(b).(*ssa.If); ok && errv != nil {
				n := cond{v: ifi.Cond, val: k == 0}.norm()
				if bo, ok := n.v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isNilConst(bo.Y) && (valueRoot(bo.X) == errv || loadsJustStored(bo.X, errv)) {
					if (bo.Op == token.NEQ) == n.val {
						continue // opening failed: nothing to close
					}
				}
			}
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(acq.Block(), instrIndex(acq)+1)
	name := fnName(topFunc(fn)) + " " + what
	if leak.IsValid() {
		o.r.Fail("file-closed", name, o.w.pos(acq.Pos()), "the file opened here is "+leakMsg+" at "+o.w.pos(leak))
		return
	}
	o.r.OK("file-closed", name, o.w.pos(acq.Pos()), fmt.Sprintf("closed on every path, or handed to the caller (results %v)", keysOf(transfers)))
	if len(transfers) == 0 {
		return
	}
	o.w.buildCallGraph()
	sites := o.w.callers[fn]
	for _, site := range sites {
		call, ok := site.(*ssa.Call)
		if !ok {
			o.r.Fail("file-closed", fnName(topFunc(site.Parent()))+" calls "+fnName(fn), o.w.pos(site.Pos()), "the result, which must be closed, is discarded (go or defer)")
			continue
		}
		var hs2 []handle
		var err2 ssa.Value
		if fn.Signature.Results().Len() == 1 {
			hs2 = append(hs2, handle{call, transfers[0]})
		} else {
			for _, ref := range refs(call) {
				if e, ok := ref.(*ssa.Extract); ok {
					if isF, ok := transfers[e.Index]; ok {
						hs2 = append(hs2, handle{e, isF})
					}
					if isErrorType(e.Type()) {
						err2 = e
					}
				}
			}
		}
		o.owned(site.Parent(), call, err2, hs2, "owns the result of "+fnName(fn), depth+1)
	}
}

// loadsJustStored: v is a load of a variable in which val was stored last, in the same block.
func loadsJustStored(v, val ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	b := u.Block()
	for i := instrIndex(u) - 1; i >= 0; i-- {
		if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == u.X {
			return st.Val == val
		}
	}
	return false
}

func keysOf(m map[int]bool) []int {
	var r []int
	for k := 0; k < 10; k++ {
		if _, ok := m[k]; ok {
			r = append(r, k)
		}
	}
	return r
}

func runC18(w *World, r *Report) {
	o := &ownership{w: w, r: r}
	n := 0
	for _, fn := range w.Funcs {
		for _, in := range instrs(fn) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			name := callName(c.Common())
			if !fileOpeners[name] {
				continue
			}
			n++
			call, ok := in.(*ssa.Call)
			if !ok {
				r.Fail("file-closed", fnName(topFunc(fn))+" "+name, w.pos(in.Pos()), "the opened file is discarded")
				continue
			}
			var hs []handle
			var errv ssa.Value
			if _, isTuple := call.Type().(*types.Tuple); !isTuple {
				hs = append(hs, handle{call, false})
			}
			for _, ref := range refs(call) {
				if e, ok := ref.(*ssa.Extract); ok {
					if e.Index == 0 {
						hs = append(hs, handle{e, false})
					} else {
						errv = e
					}
				}
			}
			o.owned(fn, call, errv, hs, name, 0)
		}
	}
	r.Floor("files opened", n, 2)
	r.Count("ownership obligations", o.n)
	lockDiscipline(w, r, false)
}
