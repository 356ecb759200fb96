package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C22", title: "Rendering an element does not depend on what was rendered before it", run: runC22,
		explanation: "Every field of the rendering context (and of the renderer) that is assigned by a function reachable from the rendering of an element is followed along all paths of the functions that assign it, deferred calls and helpers included: when the function returns, normally or with an error, the field must have the value it had at the entry. The maps of the context which are updated while rendering must be those of the counters and of the attributes of the document.",
		assumptions: []string{"panics end the conversion"}})
}

type stateCheck struct {
	w      *World
	r      *Report
	reach  map[*ssa.Function]bool
	direct map[*ssa.Function]bool // assign fields
	ran    map[*ssa.Function]bool
	helper map[*ssa.Function]bool // leave a field changed, to be followed by their callers
}

// stateField: a field of the rendering state, reached through a pointer which is shared.
func stateField(fa *ssa.FieldAddr) string {
	n := fieldName(fa.X.Type(), fa.Field)
	if !strings.HasPrefix(n, "sgml.context.") && !strings.HasPrefix(n, "sgml.sgmlRenderer.") {
		return ""
	}
	if a, ok := fa.X.(*ssa.Alloc); ok {
		_ = a
		return "" // a copy, or a new one
	}
	return n
}

func runC22(w *World, r *Report) {
	roots := rendererRoots(w)
	reach := w.reachable(roots...)
	c := &stateCheck{w: w, r: r, reach: reach, direct: map[*ssa.Function]bool{}, ran: map[*ssa.Function]bool{}, helper: map[*ssa.Function]bool{}}
	nStores, nMaps := 0, 0
	fields := map[string]bool{}
	var fns []*ssa.Function
	for f := range reach {
		if w.inScopeFn(f) || f.Parent() != nil && w.inScopeFn(topFunc(f)) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		for _, in := range instrs(f) {
			switch in := in.(type) {
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && stateField(fa) != "" {
					nStores++
					fields[stateField(fa)] = true
					c.direct[topFunc(f)] = true
				}
			case *ssa.MapUpdate:
				nMaps += c.mapUpdate(f, in, in.Map)
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					nMaps += c.mapUpdate(f, in, in.Call.Args[0])
				}
			}
		}
	}
	r.Count("assignments of the rendering state", nStores)
	r.Count("updates of the maps of the rendering state", nMaps)
	r.Floor("fields of the rendering state assigned while rendering", len(fields), 1)
	r.Floor("functions reachable from the rendering of an element", len(fns), 60)
	work := []*ssa.Function{}
	for f := range c.direct {
		work = append(work, f)
	}
	sort.Slice(work, func(i, j int) bool { return work[i].String() < work[j].String() })
	done := map[*ssa.Function]bool{}
	var closures []*ssa.Function
	for len(work) > 0 || closures == nil {
		if len(work) == 0 { // closures called elsewhere
			closures = []*ssa.Function{}
			for _, f := range fns {
				if f.Parent() != nil && !c.ran[f] && c.stores(f) && !givenToOnce(f) {
					work = append(work, f)
				}
			}
			continue
		}
		f := work[0]
		work = work[1:]
		if done[f] {
			continue
		}
		done[f] = true
		bad, pos, paths, over := c.neutral(f)
		switch {
		case over:
			r.Fail("restored", fnName(f)+" (too many paths)", w.pos(f.Pos()), "the paths of the function could not all be followed")
		case len(bad) == 0:
			r.OK("restored", fnName(f), w.pos(f.Pos()), fmt.Sprintf("%d paths", paths))
		case c.isHelper(f):
			c.helper[f] = true
			for _, site := range w.callers[f] {
				p := topFunc(site.Parent())
				if reach[p] {
					done[p] = false
					work = append(work, p)
				}
			}
		default:
			var ns []string
			for n := range bad {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				r.Fail("restored", fnName(f)+" "+n, pos[n], fmt.Sprintf("%s may be %s, so that what is rendered next depends on this element", n, bad[n]))
			}
		}
	}
}

// rendererRoots: the functions which render an element, given as any.
func rendererRoots(w *World) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range w.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "sgml" || f.Parent() != nil {
			continue
		}
		sig := f.Signature
		if !rendersText(sig) {
			continue
		}
		for i := 0; i < sig.Params().Len(); i++ {
			t := types.Unalias(sig.Params().At(i).Type()).Underlying()
			if it, ok := t.(*types.Interface); ok && it.NumMethods() == 0 {
				l = append(l, f)
				break
			}
			if s, ok := t.(*types.Slice); ok {
				if it, ok := types.Unalias(s.Elem()).Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
					l = append(l, f)
					break
				}
			}
		}
	}
	return l
}

// rendersText: the function gives a text and an error.
func rendersText(sig *types.Signature) bool {
	res := sig.Results()
	if res.Len() != 2 || !isErrorType(res.At(1).Type()) {
		return false
	}
	b, ok := types.Unalias(res.At(0).Type()).Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (c *stateCheck) mapUpdate(f *ssa.Function, in ssa.Instruction, m ssa.Value) int {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		return 0
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || stateField(fa) == "" {
		return 0
	}
	n := stateField(fa)
	mt := types.Unalias(m.Type()).Underlying().(*types.Map)
	b, isInt := types.Unalias(mt.Elem()).Underlying().(*types.Basic)
	ok = isInt && b.Info()&types.IsInteger != 0 || isNamed(m.Type(), "types.Attributes")
	c.r.Check("maps", fnName(f)+" "+n, c.w.pos(in.Pos()), ok, "only the counters and the attributes of the document change while rendering")
	return 1
}

// isHelper: a short function which gives no rendered text, and is called from the functions of the renderer only.
func (c *stateCheck) isHelper(f *ssa.Function) bool {
	if rendersText(f.Signature) || len(c.w.callers[f]) == 0 {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isErrorType(f.Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// neutral follows the paths of the function.
func (c *stateCheck) neutral(f *ssa.Function) (bad map[string]sval, pos map[string]string, paths int, over bool) {
	bad, pos = map[string]sval{}, map[string]string{}
	x := &symExec{w: c.w, ran: c.ran, tracked: stateField, inline: func(g *ssa.Function) bool { return c.helper[g] }}
	x.loopBad = func(b *ssa.BasicBlock, n string) {
		if _, ok := bad[n]; !ok {
			bad[n] = sval{kind: 'S'}
			pos[n] = c.w.pos(f.Pos())
		}
	}
	x.run(f, func(s *sstate, ret *ssa.Return) {
		paths++
		for n, v := range s.fields {
			if v.kind != 'E' || v.name != n || v.n != 0 {
				if _, ok := bad[n]; !ok {
					bad[n] = v
					pos[n] = c.w.pos(ret.Pos())
				}
			}
		}
	})
	return bad, pos, paths, x.over
}

func (c *stateCheck) stores(f *ssa.Function) bool {
	for _, in := range instrs(f) {
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && stateField(fa) != "" {
				return true
			}
		}
	}
	return false
}

// givenToOnce: the closure is executed once per renderer.
func givenToOnce(f *ssa.Function) bool {
	n := 0
	for _, in := range instrs(f.Parent()) {
		mc, ok := in.(*ssa.MakeClosure)
		if !ok || mc.Fn != f {
			continue
		}
		for _, r := range refs(mc) {
			if c, ok := r.(ssa.CallInstruction); ok && callName(c.Common()) == "(*sync.Once).Do" {
				n++
				continue
			}
			if _, ok := r.(*ssa.DebugRef); !ok {
				return false
			}
		}
	}
	return n > 0
}
