package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// buildCallGraph resolves every call of the scope: static calls, interface
// dispatch and calls of function values (variable type analysis on top of
// class hierarchy analysis).
func (w *World) buildCallGraph() {
	if w.callees != nil {
		return
	}
	all := ssautil.AllFunctions(w.Prog)
	g := vta.CallGraph(all, cha.CallGraph(w.Prog))
	w.callees = map[ssa.CallInstruction][]*ssa.Function{}
	w.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for fn, n := range g.Nodes {
		if fn == nil {
			continue
		}
		for _, e := range n.Out {
			if e.Site == nil || e.Callee == nil || e.Callee.Func == nil {
				continue
			}
			callee := unwrapSynthetic(e.Callee.Func)
			w.callees[e.Site] = append(w.callees[e.Site], callee)
			w.callers[callee] = append(w.callers[callee], e.Site)
		}
	}
	for site, c := range w.callees {
		sort.Slice(c, func(i, j int) bool { return c[i].String() < c[j].String() })
		w.callees[site] = c
	}
	for _, c := range w.callers {
		sort.Slice(c, func(i, j int) bool { return c[i].Pos() < c[j].Pos() })
	}
}

// unwrapSynthetic maps promoted-method wrappers, thunks and bound methods to the declared method.
func unwrapSynthetic(fn *ssa.Function) *ssa.Function {
	for i := 0; i < 4 && fn.Synthetic != "" && len(fn.Blocks) > 0; i++ {
		o, _ := fn.Object().(*types.Func)
		if o == nil {
			return fn
		}
		d := fn.Prog.FuncValue(o)
		if d == nil || d == fn {
			return fn
		}
		fn = d
	}
	return fn
}

// calleesOf returns the possible callees of a call within the whole program.
func (w *World) calleesOf(c ssa.CallInstruction) []*ssa.Function {
	if f := c.Common().StaticCallee(); f != nil {
		return []*ssa.Function{unwrapSynthetic(f)}
	}
	w.buildCallGraph()
	return w.callees[c]
}

// calleeObj returns the declared function or method called statically or through an interface.
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		o, _ := f.Object().(*types.Func)
		return o
	}
	return nil
}

// qname is the qualified name of a function: "os.Open", "(*os.File).Close", "(io.Writer).Write".
func qname(o *types.Func) string {
	if o == nil {
		return ""
	}
	return o.FullName()
}

func callName(c *ssa.CallCommon) string { return qname(calleeObj(c)) }

// inScopeFn tells whether the function is declared in the analysed program.
func (w *World) inScopeFn(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && w.inScope[f.Pkg.Pkg] && len(f.Blocks) > 0
}

// reachable returns the scope functions reachable from the given roots (following anonymous
// functions whose closure is created, and every resolved call).
func (w *World) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	w.buildCallGraph()
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range w.calleesOf(c) {
						visit(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						visit(v)
					case *ssa.MakeClosure:
						visit(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// reachPath returns a call path from a root to the target (for diagnosis).
func (w *World) reachPath(target *ssa.Function, roots map[*ssa.Function]bool) []string {
	w.buildCallGraph()
	type item struct {
		f    *ssa.Function
		next *item
	}
	seen := map[*ssa.Function]bool{target: true}
	q := []*item{{f: target}}
	for len(q) > 0 {
		it := q[0]
		q = q[1:]
		if roots[it.f] {
			var p []string
			for x := it; x != nil; x = x.next {
				p = append(p, fnName(x.f))
			}
			return p
		}
		var ups []*ssa.Function
		for _, c := range w.callers[it.f] {
			ups = append(ups, c.Parent())
		}
		if it.f.Parent() != nil {
			ups = append(ups, it.f.Parent())
		}
		for _, u := range ups {
			if !seen[u] {
				seen[u] = true
				q = append(q, &item{u, it})
			}
		}
	}
	return []string{fnName(target)}
}

// libraryFuncs are the scope functions outside the command.
func (w *World) libraryFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.Funcs {
		if relPkg(f.Pkg.Pkg) != "cmd/libasciidoc" {
			r = append(r, f)
		}
	}
	return r
}

// forCalls visits every call instruction (call, go, defer) of the functions.
func forCalls(fns []*ssa.Function, visit func(fn *ssa.Function, c ssa.CallInstruction)) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(f, c)
				}
			}
		}
	}
}
