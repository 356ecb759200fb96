package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive evaluation of a few fields of a shared structure: each path of a function is followed with
// the fields in terms of their values at the entry; equal conditions agree along a path; loops must leave the
// fields as they found them. Helpers which are known to change fields are followed at their calls, the others
// are taken to leave them as they were.

// sval is an abstract value: the entry value of a field plus a number, a constant, a closure, a cell, or a symbol.
type sval struct {
	kind byte // 'E', 'C', 'F', 'A', 'S'
	name string
	n    int64
	clo  *sclosure
}

type sclosure struct {
	fn   *ssa.Function
	free []sval
}

func (v sval) String() string {
	switch v.kind {
	case 'E':
		switch {
		case v.n > 0:
			return fmt.Sprintf("its value at the entry + %d", v.n)
		case v.n < 0:
			return fmt.Sprintf("its value at the entry - %d", -v.n)
		}
		return "its value at the entry"
	case 'C':
		return fmt.Sprintf("the constant %s", v.name)
	}
	return "another value"
}

func (v sval) key() string { return fmt.Sprintf("%c%s%d", v.kind, v.name, v.n) }

type sstate struct {
	fields map[string]sval
	cells  map[string]sval
	conds  map[string]bool
}

func (s *sstate) clone() *sstate {
	c := &sstate{map[string]sval{}, map[string]sval{}, map[string]bool{}}
	for k, v := range s.fields {
		c.fields[k] = v
	}
	for k, v := range s.cells {
		c.cells[k] = v
	}
	for k, v := range s.conds {
		c.conds[k] = v
	}
	return c
}

func (s *sstate) key() string {
	var l []string
	for k, v := range s.fields {
		l = append(l, k+"="+v.key())
	}
	for k, v := range s.cells {
		l = append(l, k+"="+v.key())
	}
	for k, v := range s.conds {
		l = append(l, fmt.Sprint(k, "?", v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

type sdefer struct {
	clo  *sclosure
	args []sval
}

type sframe struct {
	id     int
	fn     *ssa.Function
	env    map[ssa.Value]sval
	defers []sdefer
	loops  map[*ssa.BasicBlock]map[string]sval // fields at the entry of the loops being followed
	path   map[*ssa.BasicBlock]bool
	seen   map[string]bool
	depth  int
}

type symExec struct {
	w       *World
	tracked func(fa *ssa.FieldAddr) string    // the name of the field, "" when it is not followed
	inline  func(f *ssa.Function) bool        // helpers to be followed
	entries func(m ssa.Value) string          // the name of the map whose entries are followed (nil: none)
	loopBad func(b *ssa.BasicBlock, f string) // a loop changes the field
	ran     map[*ssa.Function]bool            // what was followed
	frames  int
	steps   int
	over    bool
}

func (x *symExec) run(fn *ssa.Function, done func(s *sstate, ret *ssa.Return)) {
	s := &sstate{map[string]sval{}, map[string]sval{}, map[string]bool{}}
	x.call(fn, nil, nil, s, 0, func(s *sstate, res []sval, ret *ssa.Return) { done(s, ret) })
}

// run2 gives the values which are returned, too.
func (x *symExec) run2(fn *ssa.Function, done func(s *sstate, res []sval, ret *ssa.Return)) {
	s := &sstate{map[string]sval{}, map[string]sval{}, map[string]bool{}}
	x.call(fn, nil, nil, s, 0, done)
}

func (x *symExec) call(fn *ssa.Function, args, free []sval, s *sstate, depth int, k func(s *sstate, res []sval, ret *ssa.Return)) {
	x.frames++
	if x.ran != nil {
		x.ran[fn] = true
	}
	f := &sframe{id: x.frames, fn: fn, env: map[ssa.Value]sval{}, loops: map[*ssa.BasicBlock]map[string]sval{}, path: map[*ssa.BasicBlock]bool{}, seen: map[string]bool{}, depth: depth}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		}
	}
	x.block(f, fn.Blocks[0], nil, s, k)
}

func (x *symExec) val(f *sframe, v ssa.Value) sval {
	if r, ok := f.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return sval{kind: 'C', name: "nil"}
		}
		return sval{kind: 'C', name: v.Value.ExactString()}
	case *ssa.Function:
		return sval{kind: 'F', name: fnName(v), clo: &sclosure{fn: v}}
	}
	return sval{kind: 'S', name: fmt.Sprintf("%d.%s", f.id, v.Name())}
}

func (x *symExec) field(s *sstate, name string) sval {
	if v, ok := s.fields[name]; ok {
		return v
	}
	return sval{kind: 'E', name: name}
}

func inLoop(b, h *ssa.BasicBlock) bool { return h.Dominates(b) && blockReaches(b, h) }

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		for _, n := range c.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return false
}

func (x *symExec) block(f *sframe, b, from *ssa.BasicBlock, s *sstate, k func(s *sstate, res []sval, ret *ssa.Return)) {
	x.steps++
	if x.steps > 200000 {
		x.over = true
		return
	}
	if f.path[b] { // a loop is closed
		if in, ok := f.loops[b]; ok {
			for n, v := range s.fields {
				o, ok := in[n]
				if !ok {
					o = sval{kind: 'E', name: n}
				}
				if o.key() != v.key() {
					x.loopBad(b, n)
				}
			}
		}
		return
	}
	header := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			header = true
		}
	}
	fr := *f // environments belong to a path
	fr.env = make(map[ssa.Value]sval, len(f.env)+8)
	for k, v := range f.env {
		fr.env[k] = v
	}
	fr.path = make(map[*ssa.BasicBlock]bool, len(f.path)+1)
	for k := range f.path {
		fr.path[k] = true
	}
	fr.path[b] = true
	fr.defers = append([]sdefer{}, f.defers...)
	s = s.clone()
	if header {
		fr.loops = make(map[*ssa.BasicBlock]map[string]sval, len(f.loops)+1)
		for k, v := range f.loops {
			fr.loops[k] = v
		}
		in := map[string]sval{}
		for k, v := range s.fields {
			in[k] = v
		}
		fr.loops[b] = in
		// variables assigned by the loop
		for _, bb := range f.fn.Blocks {
			if !inLoop(bb, b) {
				continue
			}
			for _, in := range bb.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a := x.val(&fr, st.Addr); a.kind == 'A' {
						s.cells[a.name] = sval{kind: 'S', name: fmt.Sprintf("loop %d.%d %s", f.id, b.Index, a.name)}
					}
				}
			}
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if header {
			fr.env[phi] = sval{kind: 'S', name: fmt.Sprintf("%d.%s", f.id, phi.Name())}
			continue
		}
		for i, p := range b.Preds {
			if p == from {
				fr.env[phi] = x.val(f, phi.Edges[i])
			}
		}
	}
	key := fmt.Sprintf("%d|", b.Index)
	if from != nil {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				key += fr.env[phi].key() + ","
			}
		}
	}
	var hs []string
	for h := range fr.loops {
		if fr.path[h] && inLoop(b, h) {
			hs = append(hs, fmt.Sprint(h.Index))
		}
	}
	sort.Strings(hs)
	key += strings.Join(hs, ",") + fmt.Sprint(len(fr.defers)) + s.key()
	if f.seen[key] {
		return
	}
	f.seen[key] = true
	x.instrs(&fr, b, 0, s, k)
}

func (x *symExec) instrs(f *sframe, b *ssa.BasicBlock, i int, s *sstate, k func(s *sstate, res []sval, ret *ssa.Return)) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
		case *ssa.Alloc:
			f.env[in] = sval{kind: 'A', name: fmt.Sprintf("%d.%s", f.id, in.Name())}
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
				if n := x.tracked(fa); n != "" {
					s.fields[n] = x.val(f, in.Val)
					continue
				}
			}
			if a := x.val(f, in.Addr); a.kind == 'A' {
				s.cells[a.name] = x.val(f, in.Val)
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if fa, ok := in.X.(*ssa.FieldAddr); ok {
					if n := x.tracked(fa); n != "" {
						f.env[in] = x.field(s, n)
						continue
					}
				}
				if a := x.val(f, in.X); a.kind == 'A' {
					if v, ok := s.cells[a.name]; ok {
						f.env[in] = v
						continue
					}
				}
			}
			if in.Op == token.NOT {
				if v := x.val(f, in.X); v.kind == 'C' {
					f.env[in] = sval{kind: 'C', name: fmt.Sprint(v.name != "true")}
					continue
				}
			}
		case *ssa.BinOp:
			a, c := x.val(f, in.X), x.val(f, in.Y)
			if in.Op == token.ADD || in.Op == token.SUB {
				if a.kind == 'E' && c.kind == 'C' {
					var n int64
					if _, err := fmt.Sscan(c.name, &n); err == nil {
						if in.Op == token.SUB {
							n = -n
						}
						a.n += n
						f.env[in] = a
						continue
					}
				}
			}
			if a.kind == 'C' && c.kind == 'C' && (in.Op == token.EQL || in.Op == token.NEQ) {
				f.env[in] = sval{kind: 'C', name: fmt.Sprint((a.name == c.name) == (in.Op == token.EQL))}
			}
		case *ssa.ChangeType:
			f.env[in] = x.val(f, in.X)
		case *ssa.Lookup:
			if n := x.entry(f, in.X, in.Index); n != "" {
				v, set := s.fields[n]
				if !set {
					v = sval{kind: 'E', name: n}
				}
				if !in.CommaOk {
					f.env[in] = v
					continue
				}
				found := sval{kind: 'S', name: "found " + n}
				if set {
					found = sval{kind: 'C', name: "true"}
				}
				for _, r := range refs(in) {
					if e, ok := r.(*ssa.Extract); ok {
						f.env[e] = v
						if e.Index == 1 {
							f.env[e] = found
						}
					}
				}
			}
		case *ssa.MapUpdate:
			if n := x.entry(f, in.Map, in.Key); n != "" {
				s.fields[n] = x.val(f, in.Value)
			}
		case *ssa.MakeClosure:
			c := &sclosure{fn: in.Fn.(*ssa.Function)}
			for _, v := range in.Bindings {
				c.free = append(c.free, x.val(f, v))
			}
			f.env[in] = sval{kind: 'F', name: fmt.Sprintf("%d.%s", f.id, in.Name()), clo: c}
		case *ssa.Defer:
			if c := x.callee(f, in.Common()); c != nil {
				d := sdefer{clo: c}
				for _, a := range in.Call.Args {
					d.args = append(d.args, x.val(f, a))
				}
				f.defers = append(f.defers, d)
			}
		case *ssa.RunDefers:
			ds := f.defers
			f.defers = nil
			x.deferred(f, ds, s, func(s *sstate) { x.instrs(f, b, i+1, s, k) })
			return
		case *ssa.Call:
			c := x.callee(f, in.Common())
			if c == nil || f.depth > 5 {
				continue
			}
			var args []sval
			for _, a := range in.Call.Args {
				args = append(args, x.val(f, a))
			}
			env := f.env
			x.call(c.fn, args, c.free, s, f.depth+1, func(s *sstate, res []sval, _ *ssa.Return) {
				f2 := *f
				f2.env = make(map[ssa.Value]sval, len(env)+1)
				for k, v := range env {
					f2.env[k] = v
				}
				if len(res) == 1 {
					f2.env[in] = res[0]
				} else {
					for _, r := range refs(in) {
						if e, ok := r.(*ssa.Extract); ok && e.Index < len(res) {
							f2.env[e] = res[e.Index]
						}
					}
				}
				f2.defers = append([]sdefer{}, f.defers...)
				x.instrs(&f2, b, i+1, s.clone(), k)
			})
			return
		case *ssa.If:
			cv := x.val(f, in.Cond)
			if cv.kind == 'C' {
				j := 1
				if cv.name == "true" {
					j = 0
				}
				x.block(f, b.Succs[j], b, s, k)
				return
			}
			ck, neg := x.condKey(f, in.Cond)
			if v, ok := s.conds[ck]; ok {
				j := 1
				if v != neg {
					j = 0
				}
				x.block(f, b.Succs[j], b, s, k)
				return
			}
			for j, n := range b.Succs {
				s2 := s.clone()
				if x.recurs(f.fn, in.Cond) || strings.HasPrefix(ck, "Sfound ") {
					s2.conds[ck] = (j == 0) != neg
				}
				x.block(f, n, b, s2, k)
			}
			return
		case *ssa.Jump:
			x.block(f, b.Succs[0], b, s, k)
			return
		case *ssa.Return:
			var res []sval
			for _, r := range in.Results {
				res = append(res, x.val(f, r))
			}
			k(s, res, in)
			return
		case *ssa.Panic:
			return
		}
	}
}

func (x *symExec) deferred(f *sframe, ds []sdefer, s *sstate, k func(s *sstate)) {
	if len(ds) == 0 {
		k(s)
		return
	}
	d := ds[len(ds)-1]
	x.call(d.clo.fn, d.args, d.clo.free, s.clone(), f.depth+1, func(s *sstate, _ []sval, _ *ssa.Return) {
		x.deferred(f, ds[:len(ds)-1], s.clone(), k)
	})
}

// callee: the function to be followed, nil when the call leaves the fields as they were.
func (x *symExec) callee(f *sframe, c *ssa.CallCommon) *sclosure {
	if c.IsInvoke() {
		return nil
	}
	if v := x.val(f, c.Value); v.kind == 'F' && v.clo != nil {
		if len(v.clo.fn.Blocks) > 0 && (v.clo.fn.Parent() != nil || x.inline(v.clo.fn)) {
			return v.clo
		}
		return nil
	}
	if g := c.StaticCallee(); g != nil && len(g.Blocks) > 0 && x.inline(g) {
		return &sclosure{fn: g}
	}
	return nil
}

// condKey is the same for conditions on the same values; negated ones are told by the second result.
func (x *symExec) condKey(f *sframe, v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			k, n := x.condKey(f, v.X)
			return k, !n
		}
	case *ssa.BinOp:
		op, neg := v.Op, false
		a, b := x.val(f, v.X).key(), x.val(f, v.Y).key()
		switch op {
		case token.NEQ:
			op, neg = token.EQL, true
		case token.GEQ:
			op, neg = token.LSS, true
		case token.LEQ: // a <= b is !(b < a)
			op, neg, a, b = token.LSS, true, b, a
		case token.GTR:
			op, a, b = token.LSS, b, a
		}
		if op == token.EQL && b < a {
			a, b = b, a
		}
		return fmt.Sprintf("%s %s %s", a, op, b), neg
	}
	return x.val(f, v).key(), false
}

// recurs: another branch of the function tests the same values.
func (x *symExec) recurs(fn *ssa.Function, v ssa.Value) bool {
	shape := func(v ssa.Value) string {
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v = u.X
		}
		if b, ok := v.(*ssa.BinOp); ok {
			n := func(v ssa.Value) string {
				if c, ok := v.(*ssa.Const); ok {
					if c.Value == nil {
						return "nil"
					}
					return c.Value.ExactString()
				}
				return "v"
			}
			l := []string{n(b.X), n(b.Y)}
			sort.Strings(l)
			return strings.Join(l, ",")
		}
		return v.Name()
	}
	k, n := shape(v), 0
	for _, b := range fn.Blocks {
		if i, ok := lastInstr(b).(*ssa.If); ok && shape(i.Cond) == k {
			n++
		}
	}
	return n > 1
}

// entry is the name of the entry of a map which is followed.
func (x *symExec) entry(f *sframe, m, k ssa.Value) string {
	if x.entries == nil {
		return ""
	}
	n := x.entries(m)
	if n == "" {
		return ""
	}
	return n + "[" + x.val(f, k).key() + "]"
}
