package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small constant propagation over the memory of straight-line code: enough
// to know the string in every field of a table of templates, whether it is
// written as a composite literal, built by assignments, by helpers, or copied
// and overridden.

type aval struct {
	kind byte // 't' unknown, 'n' undefined (zero), 's' string, 'i' integer, 'b' bool, 'S' struct, 'p' pointer
	str  string
	n    int64
	flds map[int]aval
	cell *acell
	path []int
	pos  token.Pos // where the string was put in place
}

type acell struct{ name string }

var top = aval{kind: 't'}

func (a aval) field(i int) aval {
	switch a.kind {
	case 'S':
		if f, ok := a.flds[i]; ok {
			return f
		}
		return aval{kind: 'n'}
	case 'n':
		return aval{kind: 'n'}
	}
	return top
}

func (a aval) with(path []int, v aval) aval {
	if len(path) == 0 {
		return v
	}
	if a.kind != 'S' && a.kind != 'n' {
		return top
	}
	n := aval{kind: 'S', flds: map[int]aval{}}
	for k, x := range a.flds {
		n.flds[k] = x
	}
	n.flds[path[0]] = n.field(path[0]).with(path[1:], v)
	return n
}

func (a aval) equal(b aval) bool {
	if a.kind != b.kind || a.str != b.str || a.n != b.n || a.cell != b.cell || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	for k, x := range a.flds {
		if !x.equal(b.field(k)) {
			return false
		}
	}
	for k, x := range b.flds {
		if !x.equal(a.field(k)) {
			return false
		}
	}
	return true
}

func joinVal(a, b aval) aval {
	if a.equal(b) {
		return a
	}
	if (a.kind == 'S' || a.kind == 'n') && (b.kind == 'S' || b.kind == 'n') {
		n := aval{kind: 'S', flds: map[int]aval{}}
		for k := range a.flds {
			n.flds[k] = joinVal(a.field(k), b.field(k))
		}
		for k := range b.flds {
			n.flds[k] = joinVal(a.field(k), b.field(k))
		}
		return n
	}
	return top
}

type amem map[*acell]aval

func (m amem) clone() amem {
	n := amem{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

type cinterp struct {
	w       *World
	globals map[*ssa.Global]*acell
	gmem    amem
	inits   map[*ssa.Package]bool
	allocs  map[*ssa.Alloc]*acell
	descend func(f *ssa.Function) bool // nil: every function of the program
	budget  int
	onCall  func(c ssa.CallInstruction, args []aval, stack []*ssa.Function)
	stack   []*ssa.Function
}

func (w *World) newInterp() *cinterp {
	return &cinterp{w: w, globals: map[*ssa.Global]*acell{}, gmem: amem{}, inits: map[*ssa.Package]bool{}, allocs: map[*ssa.Alloc]*acell{}, budget: 2000000}
}

func (ci *cinterp) globalCell(g *ssa.Global, mem amem) *acell {
	if c, ok := ci.globals[g]; ok {
		return c
	}
	c := &acell{name: g.Name()}
	ci.globals[g] = c
	ci.gmem[c] = aval{kind: 'n'}
	if g.Pkg != nil && ci.w.inScope[g.Pkg.Pkg] && !ci.inits[g.Pkg] {
		ci.inits[g.Pkg] = true
		if init := g.Pkg.Func("init"); init != nil && len(init.Blocks) > 0 {
			save := ci.onCall
			ci.onCall = nil
			m, _ := ci.run(init, nil, amem{})
			ci.onCall = save
			for _, gc := range ci.globals {
				if v, ok := m[gc]; ok {
					ci.gmem[gc] = v
				}
			}
		}
	}
	return c
}

func (ci *cinterp) load(mem amem, p aval) aval {
	if p.kind != 'p' {
		return top
	}
	v, ok := mem[p.cell]
	if !ok {
		if v, ok = ci.gmem[p.cell]; !ok {
			return top
		}
	}
	for _, i := range p.path {
		v = v.field(i)
	}
	return v
}

func (ci *cinterp) store(mem amem, p, v aval, pos token.Pos) {
	if p.kind != 'p' {
		return
	}
	if v.kind == 's' && !v.pos.IsValid() {
		v.pos = pos
	}
	old, ok := mem[p.cell]
	if !ok {
		if old, ok = ci.gmem[p.cell]; !ok {
			old = top
		}
	}
	mem[p.cell] = old.with(p.path, v)
}

// run interprets the function and returns the joined memory and results of its returns.
func (ci *cinterp) run(fn *ssa.Function, args []aval, mem amem) (amem, []aval) {
	if len(ci.stack) > 8 {
		return mem, nil
	}
	for _, f := range ci.stack {
		if f == fn {
			return mem, nil
		}
	}
	ci.stack = append(ci.stack, fn)
	defer func() { ci.stack = ci.stack[:len(ci.stack)-1] }()
	env := map[ssa.Value]aval{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = top
		}
	}
	in := make([]amem, len(fn.Blocks))
	in[0] = mem.clone()
	visits := make([]int, len(fn.Blocks))
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var outMem amem
	var results []aval
	edgeDone := map[[2]int]bool{}
	for len(work) > 0 {
		// lowest block first: the blocks are roughly in topological order
		bi := 0
		for i := range work {
			if work[i].Index < work[bi].Index {
				bi = i
			}
		}
		b := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		visits[b.Index]++
		if visits[b.Index] > 6 {
			continue
		}
		m := in[b.Index].clone()
		for _, ins := range b.Instrs {
			ci.budget--
			ci.step(ins, env, m, edgeDone)
		}
		switch l := lastInstr(b).(type) {
		case *ssa.Return:
			var res []aval
			for _, x := range l.Results {
				res = append(res, ci.value(x, env, m))
			}
			if outMem == nil {
				outMem, results = m, res
			} else {
				outMem = joinMem(outMem, m)
				for i := range results {
					results[i] = joinVal(results[i], res[i])
				}
			}
		default:
			succs := b.Succs
			if f, ok := l.(*ssa.If); ok {
				if c := ci.value(f.Cond, env, m); c.kind == 'b' {
					if c.n == 1 {
						succs = b.Succs[:1]
					} else {
						succs = b.Succs[1:]
					}
				}
			}
			for _, s := range succs {
				edgeDone[[2]int{b.Index, s.Index}] = true
				if in[s.Index] == nil {
					in[s.Index] = m.clone()
					work = append(work, s)
					continue
				}
				j := joinMem(in[s.Index], m)
				if !memEqual(j, in[s.Index]) || visits[s.Index] == 0 {
					in[s.Index] = j
					work = append(work, s)
				}
			}
		}
	}
	if outMem == nil {
		outMem = mem
	}
	return outMem, results
}

func joinMem(a, b amem) amem {
	n := amem{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			n[k] = joinVal(v, w)
		} else {
			n[k] = v
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			n[k] = v
		}
	}
	return n
}

func memEqual(a, b amem) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !v.equal(w) {
			return false
		}
	}
	return true
}

func (ci *cinterp) value(v ssa.Value, env map[ssa.Value]aval, mem amem) aval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := types.Unalias(v.Type()).Underlying().(*types.Struct); ok {
				return aval{kind: 'n'}
			}
			return top
		}
		switch v.Value.Kind() {
		case constant.String:
			return aval{kind: 's', str: constant.StringVal(v.Value)}
		case constant.Int:
			n, _ := constant.Int64Val(v.Value)
			return aval{kind: 'i', n: n}
		case constant.Bool:
			if constant.BoolVal(v.Value) {
				return aval{kind: 'b', n: 1}
			}
			return aval{kind: 'b'}
		}
		return top
	case *ssa.Global:
		return aval{kind: 'p', cell: ci.globalCell(v, mem)}
	}
	if x, ok := env[v]; ok {
		return x
	}
	return top
}

func (ci *cinterp) step(ins ssa.Instruction, env map[ssa.Value]aval, mem amem, edges map[[2]int]bool) {
	switch i := ins.(type) {
	case *ssa.Alloc:
		c, ok := ci.allocs[i]
		if !ok {
			c = &acell{name: i.Name()}
			ci.allocs[i] = c
		}
		mem[c] = aval{kind: 'n'}
		env[i] = aval{kind: 'p', cell: c}
	case *ssa.FieldAddr:
		p := ci.value(i.X, env, mem)
		if p.kind == 'p' {
			p.path = append(append([]int{}, p.path...), i.Field)
			env[i] = p
		} else {
			env[i] = top
		}
	case *ssa.Field:
		env[i] = ci.value(i.X, env, mem).field(i.Field)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			env[i] = ci.load(mem, ci.value(i.X, env, mem))
			if z := env[i]; z.kind == 'n' {
				if b, ok := types.Unalias(i.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					env[i] = aval{kind: 's'}
				}
			}
		} else {
			env[i] = top
		}
	case *ssa.Store:
		pos := i.Pos()
		ci.store(mem, ci.value(i.Addr, env, mem), ci.value(i.Val, env, mem), pos)
	case *ssa.BinOp:
		x, y := ci.value(i.X, env, mem), ci.value(i.Y, env, mem)
		env[i] = top
		if x.kind == 's' && y.kind == 's' {
			switch i.Op {
			case token.ADD:
				env[i] = aval{kind: 's', str: x.str + y.str}
			case token.EQL, token.NEQ:
				r := aval{kind: 'b'}
				if (x.str == y.str) == (i.Op == token.EQL) {
					r.n = 1
				}
				env[i] = r
			}
		}
	case *ssa.Phi:
		first := true
		var r aval
		for k, e := range i.Edges {
			if !edges[[2]int{i.Block().Preds[k].Index, i.Block().Index}] {
				continue
			}
			x := ci.value(e, env, mem)
			if first {
				r, first = x, false
			} else {
				r = joinVal(r, x)
			}
		}
		if first {
			r = top
		}
		env[i] = r
	case *ssa.ChangeType:
		env[i] = ci.value(i.X, env, mem)
	case *ssa.Convert:
		env[i] = ci.value(i.X, env, mem)
	case *ssa.Extract:
		if t, ok := i.Tuple.(*ssa.Call); ok {
			env[i] = ci.callResult(t, env).field(i.Index)
			return
		}
		env[i] = top
	case *ssa.Call:
		ci.doCall(i, env, mem)
	case *ssa.Defer, *ssa.Go:
		for _, a := range ins.(ssa.CallInstruction).Common().Args {
			ci.escape(ci.value(a, env, mem), mem)
		}
	case ssa.Value:
		// other operations: their operands may be changed through them
		env[i] = top
		if _, ok := ins.(*ssa.MakeClosure); ok {
			for _, b := range ins.(*ssa.MakeClosure).Bindings {
				ci.escape(ci.value(b, env, mem), mem)
			}
		}
	}
}

// escape: what the pointer designates is no longer known.
func (ci *cinterp) escape(p aval, mem amem) {
	if p.kind == 'p' {
		ci.store(mem, p, top, token.NoPos)
	}
}

func (ci *cinterp) callResult(c *ssa.Call, env map[ssa.Value]aval) aval {
	if v, ok := env[c]; ok {
		return v
	}
	return top
}

func (ci *cinterp) doCall(c *ssa.Call, env map[ssa.Value]aval, mem amem) {
	var args []aval
	for _, a := range c.Call.Args {
		args = append(args, ci.value(a, env, mem))
	}
	if ci.onCall != nil {
		ci.onCall(c, args, ci.stack)
	}
	env[c] = top
	switch callName(c.Common()) {
	case "strings.ReplaceAll":
		if args[0].kind == 's' && args[1].kind == 's' && args[2].kind == 's' {
			env[c] = aval{kind: 's', str: strings.ReplaceAll(args[0].str, args[1].str, args[2].str)}
		}
		return
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		if args[0].kind == 's' && args[1].kind == 's' {
			r := false
			switch callName(c.Common()) {
			case "strings.HasPrefix":
				r = strings.HasPrefix(args[0].str, args[1].str)
			case "strings.HasSuffix":
				r = strings.HasSuffix(args[0].str, args[1].str)
			case "strings.Contains":
				r = strings.Contains(args[0].str, args[1].str)
			default:
				r = strings.EqualFold(args[0].str, args[1].str)
			}
			env[c] = aval{kind: 'b'}
			if r {
				env[c] = aval{kind: 'b', n: 1}
			}
		}
		return
	case "strings.ToLower":
		if args[0].kind == 's' {
			env[c] = aval{kind: 's', str: strings.ToLower(args[0].str)}
		}
		return
	case "strings.TrimSpace":
		if args[0].kind == 's' {
			env[c] = aval{kind: 's', str: strings.TrimSpace(args[0].str)}
		}
		return
	}
	if f := c.Call.StaticCallee(); f != nil && ci.w.inScopeFn(f) && f.Name() != "init" && f.Parent() == nil && (ci.descend == nil || ci.descend(f)) && ci.budget > 0 {
		m, res := ci.run(f, args, mem)
		for k, v := range m {
			mem[k] = v
		}
		switch len(res) {
		case 0:
		case 1:
			env[c] = res[0]
		default:
			t := aval{kind: 'S', flds: map[int]aval{}}
			for i, x := range res {
				t.flds[i] = x
			}
			env[c] = t
		}
		return
	}
	for _, a := range args {
		ci.escape(a, mem)
	}
}
