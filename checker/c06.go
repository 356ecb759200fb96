package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C06", title: "Conversion output is deterministic", run: runC06,
		explanation: "Each iteration over a map is shown not to depend on its order: its body only updates entries under the key iterated over, gathers values which are sorted, counts, or answers with constants, and what it calls writes nothing that lasts between iterations otherwise. What the clock, randomness, the environment, spew or unordered enumerations give only reaches the log. No value printed with fmt has a type that shows addresses. Each select either waits for the end of the conversion or for one channel.",
		assumptions: []string{"the elements of the document found under different entries of a map are distinct", "values of interface types which are printed hold no element (their static type does not tell)", "maps of attributes built by Attributes.Set hold the grouped keys only (roles, options)"}})
}

func runC06(w *World, r *Report) {
	p, roots := w.conversions()
	var insts []*ptInst
	byFn := map[*ssa.Function][]*ptInst{}
	for _, i := range p.reachAll(append(append([]*ptInst{}, roots...), w.ptSettings...)...) {
		insts = append(insts, i)
		byFn[i.fn] = append(byFn[i.fn], i)
	}
	d := &detCheck{w: w, r: r, p: p, byFn: byFn}
	n, sel := 0, 0
	done := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, i := range insts {
		if !done[i.fn] {
			done[i.fn] = true
			fns = append(fns, i.fn)
		}
	}
	for _, f := range fns {
		for _, in := range instrs(f) {
			switch in := in.(type) {
			case *ssa.Range:
				if _, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map); !ok {
					continue
				}
				n++
				why, pos := d.mapLoop(f, in)
				if pos == token.NoPos {
					pos = in.Pos()
				}
				r.Check("map-order", fnName(f)+" "+types.TypeString(in.X.Type(), relQualifier), w.pos(pos), why == "", why)
			case *ssa.Select:
				sel++
				why := selectChoice(w, in)
				r.Check("no-race-of-channels", fnName(f), w.pos(in.Pos()), why == "", why)
			}
		}
	}
	r.Floor("iterations over maps", n, 8)
	r.Floor("selects", sel, 4)
	d.sources(fns)
	d.addresses(insts)
}

// selectChoice: a select waits for one channel, or for the end of the conversion (a channel of which
// nothing is kept).
func selectChoice(w *World, s *ssa.Select) string {
	if !s.Blocking {
		return "what is done depends on whether a channel is ready"
	}
	work := 0
	for k, st := range s.States {
		if st.Dir == types.SendOnly {
			work++
			continue
		}
		used := false
		nrecv := 2
		for j := 0; j < k; j++ {
			if s.States[j].Dir == types.RecvOnly {
				nrecv++
			}
		}
		for _, u := range refs(s) {
			if e, ok := u.(*ssa.Extract); ok && e.Index == nrecv && len(refs(e)) > 0 {
				used = true
			}
		}
		if used {
			work++
		}
	}
	if work > 1 {
		return fmt.Sprintf("%d channels may be ready, in any order", work)
	}
	return ""
}

type detCheck struct {
	w    *World
	r    *Report
	p    *pta
	byFn map[*ssa.Function][]*ptInst
}

type mapLoop struct {
	body map[*ssa.BasicBlock]bool
	head *ssa.BasicBlock
	k, v ssa.Value
	rg   *ssa.Range
}

func (d *detCheck) mapLoop(fn *ssa.Function, rg *ssa.Range) (string, token.Pos) {
	l := &mapLoop{body: map[*ssa.BasicBlock]bool{}, rg: rg}
	var next *ssa.Next
	for _, u := range refs(rg) {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return "", token.NoPos
	}
	l.head = next.Block()
	var entry *ssa.BasicBlock
	for _, u := range refs(next) {
		e, ok := u.(*ssa.Extract)
		if !ok {
			continue
		}
		switch e.Index {
		case 0:
			if i, ok := lastInstr(l.head).(*ssa.If); ok && i.Cond == ssa.Value(e) {
				entry = l.head.Succs[0]
			}
		case 1:
			l.k = e
		case 2:
			l.v = e
		}
	}
	if entry == nil {
		return "the iteration is not understood", token.NoPos
	}
	for _, b := range fn.Blocks {
		if entry.Dominates(b) && b != l.head {
			l.body[b] = true
		}
	}
	// whether blocks belong to the body: the exit of the loop does not
	exit := l.head.Succs[1]
	if exit != entry {
		for b := range l.body {
			if exit.Dominates(b) {
				delete(l.body, b)
			}
		}
	}
	if d.distinctEntries(rg.X, 0) {
		return "", token.NoPos // entries of a constant table, which do not meet
	}
	for _, b := range fn.Blocks {
		if !l.body[b] {
			// values which leave the loop
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for j, e := range phi.Edges {
					if !l.body[b.Preds[j]] {
						continue
					}
					if why := d.carried(l, phi, e, map[ssa.Value]bool{}); why != "" {
						return why, phi.Pos()
					}
				}
			}
			continue
		}
		for _, in := range b.Instrs {
			if why := d.effect(fn, l, in); why != "" {
				return why, in.Pos()
			}
		}
	}
	return "", token.NoPos
}

// distinctEntries: the map is a table of constants, whose values differ from each other and from the keys.
func (d *detCheck) distinctEntries(m ssa.Value, depth int) bool {
	if depth > 3 {
		return false
	}
	switch m := m.(type) {
	case *ssa.MakeMap:
		seen := map[string]bool{}
		n := 0
		for _, u := range refs(m) {
			mu, ok := u.(*ssa.MapUpdate)
			if !ok || mu.Map != ssa.Value(m) {
				continue
			}
			k, ok1 := constString(mu.Key)
			v, ok2 := constString(mu.Value)
			if !ok1 || !ok2 || seen[k] || seen[v] || k == v {
				return false
			}
			seen[k], seen[v] = true, true
			n++
		}
		return n > 0
	case *ssa.Parameter:
		fn := m.Parent()
		idx := -1
		for j, prm := range fn.Params {
			if prm == m {
				idx = j
			}
		}
		if fn.Pkg == nil && len(d.w.callers[fn]) == 0 {
			return true // a wrapper which is not used
		}
		if fn.Pkg == nil || isAPI(fn) {
			return false
		}
		sites := d.w.callers[fn]
		for _, c := range sites {
			a, ok := argFor(c, fn, idx)
			if !ok || !d.distinctEntries(a, depth+1) {
				return false
			}
		}
		return len(sites) > 0
	case *ssa.ChangeType:
		return d.distinctEntries(m.X, depth)
	}
	return false
}

// variant: the value may differ from one iteration to the next.
func (l *mapLoop) variant(v ssa.Value, depth int) bool {
	if v == nil || depth > 12 {
		return v != nil
	}
	if v == l.k || v == l.v {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		// what is carried from one iteration to the next
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == l.head {
			return true
		}
		if e, ok := v.(*ssa.Extract); ok && e.Tuple.(ssa.Instruction).Block() == l.head {
			return true
		}
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if l.variant(e, depth+1) {
				return true
			}
		}
		return len(v.Edges) > 1 && !sameAll(v.Edges)
	case *ssa.Call, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
		return true
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && l.variant(*op, depth+1) {
			return true
		}
	}
	return false
}

func sameAll(vs []ssa.Value) bool {
	for _, v := range vs[1:] {
		if !sameExpr(v, vs[0], 0) {
			return false
		}
	}
	return true
}

// sameExpr: the same computation.
func sameExpr(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 5 {
		return false
	}
	if x, ok := a.(*ssa.Const); ok {
		y, ok := b.(*ssa.Const)
		return ok && x.String() == y.String()
	}
	x, ok1 := a.(ssa.Instruction)
	y, ok2 := b.(ssa.Instruction)
	if !ok1 || !ok2 || fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	switch a := a.(type) {
	case *ssa.Field:
		return a.Field == b.(*ssa.Field).Field && sameExpr(a.X, b.(*ssa.Field).X, depth+1)
	case *ssa.FieldAddr:
		return a.Field == b.(*ssa.FieldAddr).Field && sameExpr(a.X, b.(*ssa.FieldAddr).X, depth+1)
	case *ssa.UnOp:
		return a.Op == b.(*ssa.UnOp).Op && sameExpr(a.X, b.(*ssa.UnOp).X, depth+1)
	case *ssa.BinOp, *ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface:
		if z, ok := a.(*ssa.BinOp); ok && z.Op != b.(*ssa.BinOp).Op {
			return false
		}
		xo, yo := x.Operands(nil), y.Operands(nil)
		for i := range xo {
			if !sameExpr(*xo[i], *yo[i], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// carried: a variable after an iteration.
func (d *detCheck) carried(l *mapLoop, phi *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) string {
	if e == ssa.Value(phi) || seen[e] || isErrorType(e.Type()) {
		return ""
	}
	seen[e] = true
	if !l.variant(e, 0) {
		// several constants: the last one wins
		for _, o := range d.sets(l, phi) {
			if !sameExpr(o, e, 0) {
				return "the variable " + phi.Comment + " is given different values in an order which is not defined"
			}
		}
		return ""
	}
	switch x := e.(type) {
	case *ssa.Phi:
		if x.Block() == l.head {
			return "" // unchanged
		}
		for _, y := range x.Edges {
			if why := d.carried(l, phi, y, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.BinOp:
		if commutes(x, phi) {
			return ""
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if carriedFrom(x.Call.Args[0], phi, 0) && sortedAfter(l, phi) {
				return ""
			}
			return "the elements are gathered in an order which is not defined, and not sorted"
		}
	}
	return "the variable " + phi.Comment + " depends on the order of the iteration"
}

func carriedFrom(v ssa.Value, phi *ssa.Phi, depth int) bool {
	if v == ssa.Value(phi) {
		return true
	}
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if carriedFrom(e, phi, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return carriedFrom(v.Call.Args[0], phi, depth+1)
		}
	}
	return false
}

func commutes(x *ssa.BinOp, phi *ssa.Phi) bool {
	b, ok := types.Unalias(x.Type()).Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	switch x.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		return carriedFrom(x.X, phi, 0) || carriedFrom(x.Y, phi, 0)
	case token.SUB:
		return carriedFrom(x.X, phi, 0)
	}
	return false
}

// sets: the values which do not depend on the iteration, given to a variable.
func (d *detCheck) sets(l *mapLoop, phi *ssa.Phi) []ssa.Value {
	var res []ssa.Value
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v == ssa.Value(phi) {
			return
		}
		seen[v] = true
		if x, ok := v.(*ssa.Phi); ok && (l.body[x.Block()] || x.Block() == l.head) {
			if x.Block() == l.head {
				return
			}
			for _, e := range x.Edges {
				visit(e)
			}
			return
		}
		if !l.variant(v, 0) {
			res = append(res, v)
		}
	}
	for j, e := range phi.Edges {
		if l.body[phi.Block().Preds[j]] {
			visit(e)
		}
	}
	return res
}

// sortedAfter: what is gathered is sorted after the loop, before any other use.
func sortedAfter(l *mapLoop, phi *ssa.Phi) bool {
	var sorts, uses []ssa.Instruction
	var visit func(v ssa.Value, depth int)
	visit = func(v ssa.Value, depth int) {
		for _, u := range refs(v) {
			if l.body[u.Block()] || u.Block() == nil || u.Block() == l.head {
				continue
			}
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.MakeInterface, *ssa.ChangeType:
				if depth < 3 {
					visit(u.(ssa.Value), depth+1)
					continue
				}
			case *ssa.Phi:
				if depth < 3 {
					visit(u, depth+1)
					continue
				}
			case *ssa.Call:
				n := callName(u.Common())
				if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
					sorts = append(sorts, u)
					continue
				}
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
			}
			uses = append(uses, u)
		}
	}
	visit(phi, 0)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			ok = ok || dominatesInstr(s, u)
		}
		if !ok {
			return false
		}
	}
	return len(sorts) > 0
}

// derived: the value is, or belongs to, the entry iterated over.
func (l *mapLoop) derived(v ssa.Value, depth int) bool {
	if v == l.k || v == l.v {
		return v != nil
	}
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return l.derived(v.X, depth+1)
	case *ssa.IndexAddr:
		return l.derived(v.X, depth+1)
	case *ssa.Field:
		return l.derived(v.X, depth+1)
	case *ssa.UnOp:
		return l.derived(v.X, depth+1)
	case *ssa.TypeAssert:
		return l.derived(v.X, depth+1)
	case *ssa.Extract:
		if t, ok := v.Tuple.(*ssa.TypeAssert); ok {
			return l.derived(t.X, depth+1)
		}
	case *ssa.ChangeType:
		return l.derived(v.X, depth+1)
	case *ssa.MakeInterface:
		return l.derived(v.X, depth+1)
	}
	return false
}

// local: a variable or value made in the body.
func (l *mapLoop) local(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return l.body[v.Block()]
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return l.body[v.(ssa.Instruction).Block()]
	case *ssa.FieldAddr:
		return l.local(v.X, depth+1)
	case *ssa.IndexAddr:
		return l.local(v.X, depth+1)
	case *ssa.Slice:
		return l.local(v.X, depth+1)
	case *ssa.MakeInterface:
		return l.local(v.X, depth+1)
	}
	return false
}

// keyed: a key which is different for each iteration.
func (l *mapLoop) keyed(k ssa.Value, depth int) bool {
	if k == l.k {
		return k != nil
	}
	if depth > 5 {
		return false
	}
	switch k := k.(type) {
	case *ssa.ChangeType:
		return l.keyed(k.X, depth+1)
	case *ssa.MakeInterface:
		return l.keyed(k.X, depth+1)
	case *ssa.Convert:
		return l.keyed(k.X, depth+1)
	case *ssa.BinOp:
		if k.Op == token.ADD {
			return l.keyed(k.X, depth+1) && !l.variant(k.Y, 0) || l.keyed(k.Y, depth+1) && !l.variant(k.X, 0)
		}
	}
	return false
}

func (d *detCheck) effect(fn *ssa.Function, l *mapLoop, in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Store:
		if l.local(in.Addr, 0) || l.derived(in.Addr, 0) || isErrorType(in.Val.Type()) || !l.variant(in.Val, 0) {
			return ""
		}
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok && l.keyed(ia.Index, 0) {
			return ""
		}
		if b, ok := in.Val.(*ssa.BinOp); ok {
			if u, ok := b.X.(*ssa.UnOp); ok && u.X == in.Addr && (b.Op == token.ADD || b.Op == token.OR) {
				if bt, ok := types.Unalias(b.Type()).Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
					return ""
				}
			}
		}
		return "an assignment keeps a value of the last iteration"
	case *ssa.MapUpdate:
		if l.local(in.Map, 0) || l.keyed(in.Key, 0) || !l.variant(in.Value, 0) {
			return ""
		}
		return "an entry is assigned under a key which several iterations may share"
	case *ssa.Send, *ssa.Go, *ssa.Defer:
		return "what is sent or started follows the order of the iteration"
	case *ssa.Select:
		return "what is sent or received follows the order of the iteration"
	case *ssa.Return:
		var bad ssa.Value
		for _, res := range in.Results {
			if isErrorType(res.Type()) {
				if !isNilConst(res) {
					return "" // the conversion fails anyway
				}
				continue
			}
			if l.variant(res, 0) {
				bad = res
			}
		}
		if bad != nil {
			return "the result is taken from the first matching iteration"
		}
		return ""
	case *ssa.Call:
		return d.callEffect(fn, l, in)
	}
	return ""
}

func (d *detCheck) callEffect(fn *ssa.Function, l *mapLoop, c *ssa.Call) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear":
			if !l.local(c.Call.Args[0], 0) && !l.derived(c.Call.Args[0], 0) {
				return "what is copied follows the order of the iteration"
			}
		}
		return ""
	}
	n := callName(c.Common())
	if logOnly(n) {
		return ""
	}
	args := c.Call.Args
	// external writers
	if writesText(n) && len(args) > 0 && !l.local(args[0], 0) {
		return "what is written by " + n + " follows the order of the iteration"
	}
	if c.Call.IsInvoke() && c.Call.Method.Name() == "Write" && !l.local(c.Call.Value, 0) {
		return "what is written follows the order of the iteration"
	}
	for _, i := range d.byFn[fn] {
		own := map[*ptInst]bool{}
		var targets []*ptInst
		for t, site := range i.calls {
			if site == ssa.CallInstruction(c) {
				targets = append(targets, t)
			}
		}
		reach := d.p.reach(targets...)
		for _, x := range reach {
			own[x] = true
		}
		// what the body makes and gives to the function
		for _, a := range args {
			m, ok := a.(*ssa.Call)
			if !ok || !l.body[m.Block()] || !freshResult(m.Call.StaticCallee(), 0) {
				continue
			}
			for t, site := range i.calls {
				if site == ssa.CallInstruction(m) {
					for _, x := range d.p.reach(t) {
						own[x] = true
					}
				}
			}
		}
		mine := map[*ptObj]bool{} // what belongs to the entry
		for _, v := range []ssa.Value{l.k, l.v} {
			if v == nil {
				continue
			}
			if node := d.p.tuple(i, v.(*ssa.Extract).Tuple, v.(*ssa.Extract).Index, v.Type()); node != nil {
				var objs []*ptObj
				node.pts.each(func(x int) { objs = append(objs, d.p.objs[x]) })
				for o := range d.p.reachObjs(objs, false) {
					mine[o] = true
				}
			}
		}
		for _, x := range reach {
			for _, wr := range x.writes {
				if wr.what == "append" || wr.what == "delete" || writesText(wr.what) && d.w.isGenerated(x.fn) {
					continue
				}
				if mu, ok := wr.in.(*ssa.MapUpdate); ok && d.keyedParam(l, c, x, mu) {
					continue
				}
				if fa, ok := wr.in.(*ssa.Store); ok && isErrorType(fa.Val.Type()) {
					continue
				}
				for _, o := range d.p.written(wr) {
					root := o.root()
					if root.owner != nil && own[root.owner] || mine[o] || mine[root] || root.opaque && root.owner == nil && !strings.HasPrefix(root.source, "parameter ") {
						continue
					}
					if root.kind == 'c' && d.element(root.typ) {
						continue // an element of the document
					}
					rt := types.Unalias(root.typ).Underlying()
					if a, ok := rt.(*types.Array); ok && root.kind == 'c' {
						rt = types.Unalias(a.Elem()).Underlying()
					} else if root.kind != 'a' {
						rt = nil
					}
					if it, ok := rt.(*types.Interface); ok && it.NumMethods() == 0 {
						continue // elements of the document, which belong to one entry
					}
					return fmt.Sprintf("%s (called here) changes %s at %s, in the order of the iteration", fnName(x.fn), o.name, d.w.pos(wr.in.Pos()))
				}
			}
		}
	}
	return ""
}

// freshResult: the function returns what it has just made.
func freshResult(f *ssa.Function, depth int) bool {
	if f == nil || len(f.Blocks) == 0 || depth > 3 {
		return false
	}
	n := 0
	for _, in := range instrs(f) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			continue
		}
		for _, r := range ret.Results {
			if !pointerish(r.Type()) || isNilConst(r) || isErrorType(r.Type()) {
				continue
			}
			n++
			switch r := r.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			case *ssa.Call:
				if !freshResult(r.Call.StaticCallee(), depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return n > 0
}

// keyedParam: an entry assigned by a function called in the loop, under the key iterated over.
func (d *detCheck) keyedParam(l *mapLoop, c *ssa.Call, x *ptInst, mu *ssa.MapUpdate) bool {
	callee := x.fn
	if c.Call.StaticCallee() != callee {
		return false
	}
	isKey := func(v ssa.Value) bool {
		prm, ok := stripConv(v).(*ssa.Parameter)
		if !ok {
			return false
		}
		for j, q := range callee.Params {
			if q == prm && j < len(c.Call.Args) {
				return l.keyed(c.Call.Args[j], 0)
			}
		}
		return false
	}
	if isKey(mu.Key) {
		return true
	}
	// a constant, when the key is one
	if _, ok := constString(mu.Key); ok {
		for _, f := range factsAt(mu.Block()) {
			if b, ok := f.v.(*ssa.BinOp); ok && b.Op == token.EQL && f.val {
				if _, cs := constString(b.Y); cs && isKey(b.X) {
					return true
				}
				if _, cs := constString(b.X); cs && isKey(b.Y) {
					return true
				}
			}
		}
	}
	return false
}

func logOnly(n string) bool {
	return strings.HasPrefix(n, "github.com/sirupsen/logrus.") || strings.HasPrefix(n, "(*github.com/sirupsen/logrus.") || strings.HasPrefix(n, "log.")
}

func writesText(n string) bool {
	for _, p := range []string{"(*strings.Builder).Write", "(*bytes.Buffer).Write", "fmt.Fprint", "io.WriteString", "(io.Writer).Write", "(*bufio.Writer).Write", "(*text/template.Template).Execute"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// unstable: functions whose results are not the same for each conversion.
func unstable(n string) string {
	for p, what := range map[string]string{
		"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock", "time.After": "the clock", "time.Tick": "the clock", "time.NewTimer": "the clock",
		"math/rand.": "randomness", "math/rand/v2.": "randomness", "crypto/rand.": "randomness", "(*math/rand.Rand).": "randomness", "hash/maphash.": "randomness", "(*hash/maphash.Hash).": "randomness",
		"os.Getenv": "the environment", "os.LookupEnv": "the environment", "os.Environ": "the environment", "os.ExpandEnv": "the environment", "os.Hostname": "the environment",
		"os.Getpid": "the process", "os.Getppid": "the process", "os.Getuid": "the user", "os.UserHomeDir": "the user", "os/user.": "the user", "os.TempDir": "the environment", "os.MkdirTemp": "randomness", "os.CreateTemp": "randomness",
		"runtime.NumGoroutine": "the scheduler", "runtime.NumCPU": "the machine", "runtime.GOMAXPROCS": "the machine", "runtime.Caller": "the build", "runtime.Stack": "the scheduler", "runtime.ReadMemStats": "the memory",
		"(reflect.Value).MapKeys": "the order of a map", "(reflect.Value).MapRange": "the order of a map", "(reflect.Value).Pointer": "an address", "(reflect.Value).UnsafePointer": "an address",
		"maps.Keys": "the order of a map", "maps.Values": "the order of a map", "maps.All": "the order of a map",
		"golang.org/x/exp/maps.": "the order of a map", "(*sync.Map).Range": "the order of a map",
		"github.com/davecgh/go-spew/spew.": "addresses (spew)", "github.com/google/uuid.": "randomness",
	} {
		if n == p || strings.HasPrefix(n, p) && strings.HasSuffix(p, ".") || strings.HasPrefix(n, p+"[") {
			return what
		}
	}
	return ""
}

// sources: what is not stable only reaches the log.
func (d *detCheck) sources(fns []*ssa.Function) {
	n := 0
	for _, f := range fns {
		for _, in := range instrs(f) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			q := callName(c.Common())
			what := unstable(q)
			if what == "" {
				continue
			}
			n++
			why, at := "", in.Pos()
			if v, ok := in.(*ssa.Call); ok {
				t := &taint{w: d.w, seen: map[ssa.Value]bool{}}
				t.value(v)
				t.run()
				if t.why != "" {
					why, at = what+" "+t.why, t.pos
				}
			} else {
				why = what + " is used in a way which is not followed"
			}
			r := d.r
			r.Check("only-logged", fnName(f)+" "+q, d.w.pos(at), why == "", why)
		}
	}
	d.r.Floor("uses of unstable sources", n, 10)
	for q, want := range map[string]bool{"time.Now": true, "math/rand.Intn": true, "os.Getenv": true, "maps.Keys[map[string]int]": true, "time.Duration.Seconds": false, "strings.Join": false} {
		d.r.SelfTest("unstable source: "+q, (unstable(q) != "") == want)
	}
}

// taint follows values forward.
type taint struct {
	w    *World
	seen map[ssa.Value]bool
	work []ssa.Value
	why  string
	pos  token.Pos
}

func (t *taint) value(v ssa.Value) {
	if v != nil && !t.seen[v] {
		t.seen[v] = true
		t.work = append(t.work, v)
	}
}

func (t *taint) fail(in ssa.Instruction, why string) {
	if t.why == "" {
		t.why, t.pos = why, in.Pos()
	}
}

func (t *taint) run() {
	for len(t.work) > 0 && t.why == "" {
		v := t.work[0]
		t.work = t.work[1:]
		for _, u := range refs(v) {
			t.use(v, u)
		}
	}
}

func (t *taint) use(v ssa.Value, u ssa.Instruction) {
	switch u := u.(type) {
	case *ssa.DebugRef:
	case *ssa.If:
		t.fail(u, "decides what is done")
	case *ssa.Store:
		if u.Addr == v {
			return
		}
		t.cell(u, u.Addr)
	case *ssa.MapUpdate, *ssa.Send:
		t.fail(u, "is kept")
	case *ssa.Return:
		fn := u.Parent()
		idx := -1
		for j, r := range u.Results {
			if r == v {
				idx = j
			}
		}
		if fn.Parent() != nil {
			t.fail(u, "is returned by a function whose calls are not followed")
			return
		}
		for _, c := range t.w.callers[fn] {
			cv, ok := c.(*ssa.Call)
			if !ok {
				continue
			}
			if fn.Signature.Results().Len() == 1 {
				t.value(cv)
				continue
			}
			for _, x := range refs(cv) {
				if e, ok := x.(*ssa.Extract); ok && e.Index == idx {
					t.value(e)
				}
			}
		}
		if fn.Pkg != nil && isAPI(fn) && fn.Object() != nil && fn.Object().Exported() {
			t.fail(u, "is returned to the caller")
		}
	case ssa.CallInstruction:
		n := callName(u.Common())
		if logOnly(n) {
			return
		}
		if b, ok := u.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return
		}
		if f := u.Common().StaticCallee(); f != nil && t.w.inScopeFn(f) {
			for j, a := range u.Common().Args {
				if a == v && j < len(f.Params) {
					t.value(f.Params[j])
				}
			}
			return
		}
		if cs := t.w.calleesOf(u); len(cs) > 0 && t.w.inScopeFn(cs[0]) {
			t.fail(u, "is given to a function which is not followed")
			return
		}
		if writesText(n) {
			t.fail(u, "is written")
			return
		}
		if r, ok := u.(ssa.Value); ok {
			t.value(r)
		}
	case ssa.Value:
		if bo, ok := u.(*ssa.BinOp); ok && bo.Op == token.EQL {
			t.value(bo)
			return
		}
		t.value(u)
	default:
		t.fail(u, "is used in a way which is not followed")
	}
}

// cell: a variable which holds such a value.
func (t *taint) cell(at ssa.Instruction, addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		t.loads(a)
	case *ssa.FreeVar:
		t.loads(a)
		for _, b := range bindings(a) {
			t.cell(at, b)
		}
	case *ssa.IndexAddr:
		if x, ok := a.X.(*ssa.Alloc); ok {
			t.loads(x)
			for _, u := range refs(x) {
				if s, ok := u.(*ssa.Slice); ok {
					t.value(s)
				}
			}
			return
		}
		t.fail(at, "is kept")
	default:
		t.fail(at, "is kept")
	}
}

func bindings(fv *ssa.FreeVar) []ssa.Value {
	var l []ssa.Value
	fn := fv.Parent()
	for j, f := range fn.FreeVars {
		if f != fv || fn.Parent() == nil {
			continue
		}
		for _, in := range instrs(fn.Parent()) {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				l = append(l, mc.Bindings[j])
			}
		}
	}
	return l
}

func (t *taint) loads(a ssa.Value) {
	for _, u := range refs(a) {
		switch u := u.(type) {
		case *ssa.UnOp:
			t.value(u)
		case *ssa.MakeClosure:
			fn := u.Fn.(*ssa.Function)
			for j, b := range u.Bindings {
				if b == a && !t.seen[fn.FreeVars[j]] {
					t.seen[fn.FreeVars[j]] = true
					t.loads(fn.FreeVars[j])
				}
			}
		}
	}
}

// showsAddress: printing a value of the type with %v may show an address.
func showsAddress(t types.Type, depth int, seen map[types.Type]bool) string {
	t = types.Unalias(t)
	if seen[t] || depth > 6 {
		return ""
	}
	seen[t] = true
	for _, m := range []string{"String", "Error", "Format", "GoString"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if f, ok := o.(*types.Func); ok && f.Exported() {
				// only if the method belongs to the method set of the value
				ms := types.NewMethodSet(t)
				if ms.Lookup(nil, m) != nil {
					return ""
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return types.TypeString(t, relQualifier)
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return showsAddress(u.Elem(), depth+1, seen)
		}
		return types.TypeString(t, relQualifier)
	case *types.Chan, *types.Signature:
		return types.TypeString(t, relQualifier)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := showsAddress(u.Field(i).Type(), depth+1, seen); s != "" {
				return s
			}
		}
	case *types.Slice:
		return showsAddress(u.Elem(), depth+1, seen)
	case *types.Array:
		return showsAddress(u.Elem(), depth+1, seen)
	case *types.Map:
		if s := showsAddress(u.Key(), depth+1, seen); s != "" {
			return s
		}
		return showsAddress(u.Elem(), depth+1, seen)
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
	}
	return ""
}

func (d *detCheck) addresses(insts []*ptInst) {
	n := 0
	seen := map[ssa.Instruction]bool{}
	for _, i := range insts {
		for _, in := range instrs(i.fn) {
			c, ok := in.(*ssa.Call)
			if !ok || seen[in] {
				continue
			}
			q := callName(c.Common())
			if !strings.HasPrefix(q, "fmt.Sprint") && !strings.HasPrefix(q, "fmt.Fprint") && !strings.HasPrefix(q, "fmt.Append") {
				continue
			}
			seen[in] = true
			n++
			format := ""
			for _, a := range c.Call.Args {
				if s, ok := constString(a); ok {
					format = s
				}
			}
			why := ""
			if strings.Contains(strings.ReplaceAll(format, "%%", ""), "%p") {
				why = "the format prints an address"
			}
			for _, v := range varargs(c.Call.Args[len(c.Call.Args)-1]) {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					if s := showsAddress(mi.X.Type(), 0, map[types.Type]bool{}); s != "" {
						why = "a value of type " + types.TypeString(mi.X.Type(), relQualifier) + " is printed, with the address of its " + s
					}
				}
			}
			d.r.Check("no-address-printed", fnName(i.fn)+" "+q, d.w.pos(in.Pos()), why == "", why)
		}
	}
	d.r.Floor("values formatted", n, 4)
	st := types.NewStruct([]*types.Var{types.NewField(0, nil, "X", types.NewPointer(types.Typ[types.Int]), false)}, nil)
	d.r.SelfTest("a pointer in a structure shows an address", showsAddress(types.NewPointer(st), 0, map[types.Type]bool{}) != "")
	d.r.SelfTest("a string shows none", showsAddress(types.Typ[types.String], 0, map[types.Type]bool{}) == "")
}

// varargs: the values given to a variadic parameter.
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	var l []ssa.Value
	for _, u := range refs(sl.X) {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, x := range refs(ia) {
				if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					l = append(l, st.Val)
				}
			}
		}
	}
	return l
}

// element: the type of an element of the document, with a content of its own.
func (d *detCheck) element(t types.Type) bool {
	n := 0
	ms := d.w.Prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "SetElements", "SetAttributes", "RawText", "Stringify":
			n++
		}
	}
	return n > 0
}
