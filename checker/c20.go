package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: content disabled by a conditional has no effect.

func init() {
	register(&checkDef{id: "C20", title: "Content disabled by a conditional has no effect", run: runC20,
		explanation: "The record of the conditions is found from where the result of their evaluation is stored, and the functions which push, pop and combine the records are decided on all their paths: one record is added with the result of the condition itself, the last one is removed, and the combination is false exactly when one of the records is false. The function which reads the lines is then followed along all paths of an iteration, through its helpers, with what is known of the type of the line and of the combination: each effect (output, attributes, options, tracking of blocks, files, any call to a function which may change something) happens only on paths where the combination is known to be true; each conditional or end of condition updates the records once whether the lines are excluded or not, and nothing else does; the combination is recomputed after each update. Conditions with content on their line emit it only if they are true.",
		assumptions: []string{"the generated parser, which reads one line at a time, only changes its own state"}})
}

type condCheck struct {
	w       *World
	r       *Report
	rec     *types.Named // the record of a condition
	recEval string       // its result
	stack   *types.Named // the records
	field   string
	pure    map[*ssa.Function]int
	gates   map[string]bool // fields which hold the combination
	combine map[*ssa.Function]bool
	root    *ssa.Function
	heads   []*ssa.BasicBlock
	res     map[string]string
	order   []string
	where   map[string]string
	n       int
}

func runC20(w *World, r *Report) {
	w.buildCallGraph()
	c := &condCheck{w: w, r: r, pure: map[*ssa.Function]int{}, gates: map[string]bool{}, combine: map[*ssa.Function]bool{}, res: map[string]string{}, where: map[string]string{}}
	if !c.findRecords() {
		r.Floor("records of conditions", 0, 1)
		return
	}
	r.Floor("records of conditions", 1, 1)
	c.combination()
	c.updates()
	c.lines()
	c.flush()
}

func (c *condCheck) note(rule, construct, pos, bad string) {
	k := rule + "|" + construct
	if old, ok := c.res[k]; !ok {
		c.order = append(c.order, k)
		c.res[k], c.where[k] = bad, pos
	} else if old == "" && bad != "" {
		c.res[k], c.where[k] = bad, pos
	}
}

func (c *condCheck) flush() {
	for _, k := range c.order {
		p := strings.SplitN(k, "|", 2)
		c.r.Check(p[0], p[1], c.where[k], c.res[k] == "", c.res[k])
	}
}

// isEval: the evaluation of a condition.
func isEval(in ssa.Instruction) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	com := call.Common()
	if com.IsInvoke() {
		n, ok := types.Unalias(com.Value.Type()).(*types.Named)
		return ok && relPkg(n.Obj().Pkg()) == "pkg/types" && n.Obj().Name() == "ConditionalInclusion" && com.Method.Name() == "Eval"
	}
	g := com.StaticCallee()
	return g != nil && g.Pkg != nil && relPkg(g.Pkg.Pkg) == "pkg/types" && g.Name() == "Eval" && strings.HasSuffix(typeName(g.Params[0].Type()), "Condition")
}

func (c *condCheck) inParser(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && relPkg(f.Pkg.Pkg) == "pkg/parser" && !c.w.isGenerated(f)
}

// findRecords: the structure in which the result of Eval is stored, and the one with a slice of them.
func (c *condCheck) findRecords() bool {
	for _, f := range c.w.Funcs {
		if !c.inParser(f) {
			continue
		}
		for _, in := range instrs(f) {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			n, ok := types.Unalias(deref(fa.X.Type())).(*types.Named)
			if b, isB := st.Val.Type().Underlying().(*types.Basic); !ok || !isB || b.Kind() != types.Bool {
				continue
			}
			// a record has a result which comes from an evaluation
			if !c.comesFromEval(st.Val, 0) {
				continue
			}
			if s := c.stackOf(n); s != nil {
				c.rec, c.recEval = n, xfield(fa)
				c.stack = s
			}
		}
	}
	return c.stack != nil
}

func (c *condCheck) comesFromEval(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		if isEval(v) {
			return true
		}
		if g := v.Call.StaticCallee(); g != nil && c.inParser(g) {
			for _, b := range g.Blocks {
				if ret, ok := lastInstr(b).(*ssa.Return); ok {
					for _, x := range ret.Results {
						if c.comesFromEval(x, depth+1) {
							return true
						}
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if c.comesFromEval(e, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		return v.Op == token.NOT && c.comesFromEval(v.X, depth+1)
	case *ssa.BinOp:
		return c.comesFromEval(v.X, depth+1) || c.comesFromEval(v.Y, depth+1)
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p != v {
				continue
			}
			for _, s := range c.w.callers[v.Parent()] {
				if a := s.Common().Args; i < len(a) && c.comesFromEval(a[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (c *condCheck) stackOf(rec *types.Named) *types.Named {
	sc := rec.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		n, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := n.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(deref(sl.Elem()), rec) {
				c.field = st.Field(i).Name()
				return n.Type().(*types.Named)
			}
		}
	}
	return nil
}

func (c *condCheck) isStack(t types.Type) bool { return types.Identical(deref(t), c.stack) }

func (c *condCheck) hasStackParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if c.isStack(p.Type()) {
			return true
		}
	}
	return false
}

// writesStack: the function, or those it calls, changes the records.
func (c *condCheck) writesStack(f *ssa.Function, depth int) bool {
	for _, in := range instrs(f) {
		switch in := in.(type) {
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && c.isStack(fa.X.Type()) && xfield(fa) == c.field {
				return true
			}
		case ssa.CallInstruction:
			if g := in.Common().StaticCallee(); g != nil && depth < 4 && c.inParser(g) && c.hasStackParam(g) && c.writesStack(g, depth+1) {
				return true
			}
		}
	}
	return false
}

// combination decides the functions which tell whether all records are true.
func (c *condCheck) combination() {
	for _, f := range c.w.Funcs {
		if !c.inParser(f) || !c.hasStackParam(f) || f.Parent() != nil || c.writesStack(f, 0) {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 1 || !isBool(res.At(0).Type()) {
			continue
		}
		c.combine[f] = true
	}
	for f := range c.combine {
		name := fnName(f)
		pos := c.w.pos(f.Pos())
		c.note("combined", name, pos, "")
		x := &absint{w: c.w, inline: func(g *ssa.Function) bool { return c.inParser(g) && g != f && !c.combine[g] }}
		x.call = func(f2 *aframe, s *astate, in ssa.CallInstruction, fv xval, args []xval) ([]xval, bool) {
			if isEval(in) {
				c.note("combined", name, c.w.pos(in.Pos()), "the conditions are evaluated again, with the attributes of another line")
			}
			if fv.fn != nil && c.combine[fv.fn] && fv.fn != f {
				s.data["delegated"] = "1"
				return []xval{xterm("combined")}, true
			}
			return nil, false
		}
		// the value of the record of the iteration
		evals := func(s *astate) (val, known bool) {
			for k, v := range s.conds {
				if strings.HasPrefix(k, "*") && strings.HasSuffix(k, "]."+c.recEval) && strings.Contains(k, "."+c.field+"[") {
					return v, true
				}
			}
			return false, false
		}
		x.loop = func(f2 *aframe, s *astate, head *ssa.BasicBlock) {
			v, known := evals(s)
			if known && v {
				return
			}
			// a result which is kept in a variable: it must become false
			for _, in := range head.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok || !isBool(phi.Type()) {
					continue
				}
				for i, p := range head.Preds {
					if f2.path[p] && head.Dominates(p) {
						e := x.val(f2, phi.Edges[i])
						if e.k == 'C' && e.s == "false" || strings.HasSuffix(e.s, "]."+c.recEval) {
							return
						}
					}
				}
			}
			c.note("combined", name, pos, "a record which is false may be ignored")
		}
		x.run(f, nil, nil, newAState(), func(f2 *aframe, s *astate, out []xval, ret *ssa.Return) {
			p := c.w.pos(ret.Pos())
			if s.data["delegated"] != "" {
				if out[0].s != "combined" {
					c.note("combined", name, p, "the result is not the one of the combination")
				}
				return
			}
			v, known := evals(s)
			switch {
			case out[0].k == 'C' && out[0].s == "true":
				if known && !v {
					c.note("combined", name, p, "the result is true although a record is false")
				}
				if known && v {
					c.note("combined", name, p, "the result is true before all records were tested")
				}
				c.exits(name, p, s)
			case out[0].k == 'C':
				if !known || v {
					c.note("combined", name, p, "the result is false although no record is false")
				}
			default:
				// a variable which is true before the loop
				if !c.accumulated(f, ret.Results[0]) {
					c.note("combined", name, p, "the result is not known to be true when all records are")
				}
			}
		})
		if x.over {
			c.note("combined", name, pos, "too many paths")
		}
	}
	c.r.Floor("combinations of the records", len(c.combine), 1)
}

// exits: all records were tested, or there are none.
func (c *condCheck) exits(name, pos string, s *astate) {
	for k, v := range s.conds {
		if strings.Contains(k, "len(") && strings.Contains(k, c.field) && (!v && strings.Contains(k, " < ") || v && strings.Contains(k, "0 == ")) {
			return
		}
		if v && strings.Contains(k, " < 0)") {
			return
		}
	}
	c.note("combined", name, pos, "the result is true before all records were tested")
}

// accumulated: a variable which starts true, and becomes false with a record which is false.
func (c *condCheck) accumulated(f *ssa.Function, v ssa.Value) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		switch e := e.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e2 := range e.Edges {
				switch e2 := e2.(type) {
				case *ssa.Const, *ssa.Phi:
				case *ssa.UnOp:
					fa, ok := e2.X.(*ssa.FieldAddr)
					if !ok || xfield(fa) != c.recEval {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.UnOp:
			fa, ok := e.X.(*ssa.FieldAddr)
			if !ok || xfield(fa) != c.recEval {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// change classifies the value stored in the records: +1, -1, or what is wrong.
func (c *condCheck) change(s *astate, addr string, old, v xval) (int, string) {
	o := old.s
	switch {
	case v.key() == old.key():
		return 0, ""
	case strings.HasPrefix(v.s, "append("+o+","):
		arr := strings.TrimSuffix(v.s[len("append("+o+","):], ")")
		if _, two := s.mem[arr+"[1]."+c.recEval]; two {
			return 0, "more than one record is added"
		}
		e := s.load(arr + "[0]." + c.recEval)
		if el := s.load(arr + "[0]"); el.k == 'O' { // records by address
			e = s.load(el.s + "." + c.recEval)
		}
		if !strings.HasPrefix(e.s, "eval(") && !(e.k == 'C' && c.excluded(s)) {
			return 0, "the record which is added does not have the result of the condition"
		}
		return 1, ""
	case v.s == "slice("+o+",,(len("+o+") - 1))" || v.s == "slice("+o+",0,(len("+o+") - 1))":
		return -1, ""
	}
	return 0, "the records are changed otherwise than by adding one or removing the last one"
}

// excluded: the lines are known to be excluded by the records there are.
func (c *condCheck) excluded(s *astate) bool {
	for k, v := range s.conds {
		if !v && c.isGate(k) {
			return true
		}
	}
	return false
}

// isGate: the condition is the combination of the records.
func (c *condCheck) isGate(k string) bool {
	if strings.HasPrefix(k, "combined ") {
		return true
	}
	if strings.HasPrefix(k, "loop ") || strings.HasPrefix(k, "*") {
		if i := strings.LastIndexByte(k, '.'); i >= 0 {
			return c.gates[k[i+1:]]
		}
	}
	return false
}

// updates decides the functions which change the records.
func (c *condCheck) updates() {
	n := 0
	for _, f := range c.w.Funcs {
		if !c.inParser(f) {
			continue
		}
		for _, in := range instrs(f) {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && c.isStack(fa.X.Type()) && xfield(fa) == c.field {
				if _, fresh := fa.X.(*ssa.Alloc); !fresh || c.hasStackParam(f) {
					n++
				}
			}
		}
	}
	c.r.Floor("changes of the records", n, 2)
}

// impure: the function may change something which outlives it.
func (c *condCheck) impure(f *ssa.Function) bool {
	if v, ok := c.pure[f]; ok {
		return v == 2
	}
	c.pure[f] = 1
	if c.w.isGenerated(f) {
		return false
	}
	res := false
	for _, in := range instrs(f) {
		switch in := in.(type) {
		case *ssa.Store:
			if !localAddr(in.Addr, 0) {
				res = true
			}
		case *ssa.MapUpdate:
			if _, ok := in.Map.(*ssa.MakeMap); !ok {
				res = true
			}
		case ssa.CallInstruction:
			com := in.Common()
			if g := com.StaticCallee(); g != nil && len(g.Blocks) > 0 && c.w.inScopeFn(g) {
				res = res || c.impure(g)
			} else if g != nil {
				res = res || outsideEffect(g)
			} else if com.IsInvoke() {
				for _, h := range c.w.calleesOf(in) {
					if c.w.inScopeFn(h) && len(h.Blocks) > 0 {
						res = res || c.impure(h)
					}
				}
			} else if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				res = true
			}
		}
	}
	if res {
		c.pure[f] = 2
	}
	return res
}

func localAddr(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return depth < 8 && localAddr(v.X, depth+1)
	case *ssa.IndexAddr:
		return depth < 8 && localAddr(v.X, depth+1)
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return depth < 8 && localAddr(v.X, depth+1)
	}
	return false
}

// outsideEffect: the library function changes something.
func outsideEffect(g *ssa.Function) bool {
	if g.Pkg == nil {
		return false
	}
	switch p := g.Pkg.Pkg.Path(); p {
	case "os", "io/ioutil", "net", "net/http", "os/exec", "syscall":
		return true
	case "fmt":
		return strings.HasPrefix(g.Name(), "Fprint")
	case "io":
		return g.Name() == "WriteString" || strings.HasPrefix(g.Name(), "Copy")
	case "strings", "bytes", "bufio":
		r := g.Signature.Recv()
		if r == nil {
			return false
		}
		t := typeName(deref(r.Type()))
		return (strings.HasSuffix(t, "Builder") || strings.HasSuffix(t, "Buffer") || strings.HasSuffix(t, "Writer")) && (strings.HasPrefix(g.Name(), "Write") || g.Name() == "Reset" || g.Name() == "Truncate" || g.Name() == "ReadFrom")
	case "sync":
		return false
	}
	return false
}

// lines follows the function which reads the lines.
func (c *condCheck) lines() {
	// the fields which hold the combination
	type store struct{ gate, other bool }
	fields := map[string]*store{}
	for _, f := range c.w.Funcs {
		if !c.inParser(f) {
			continue
		}
		for _, in := range instrs(f) {
			st, ok := in.(*ssa.Store)
			if !ok || !isBool(st.Val.Type()) {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			n := xfield(fa)
			if types.Identical(deref(fa.X.Type()), c.rec) {
				continue
			}
			if fields[n] == nil {
				fields[n] = &store{}
			}
			if call, ok := st.Val.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && c.inParser(g) && c.hasStackParam(g) {
					fields[n].gate = true
				}
			}
		}
	}
	for n, s := range fields {
		if s.gate {
			c.gates[n] = true
		}
	}
	// where the records are made
	roots := map[*ssa.Function]bool{}
	for _, f := range c.w.Funcs {
		if !c.inParser(f) || c.hasStackParam(f) {
			continue
		}
		for _, in := range instrs(f) {
			if g, ok := in.(ssa.CallInstruction); ok {
				if k := g.Common().StaticCallee(); k != nil && c.inParser(k) && c.hasStackParam(k) {
					top := f
					for top.Parent() != nil {
						top = top.Parent()
					}
					roots[top] = true
				}
			}
		}
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return fnName(list[i]) < fnName(list[j]) })
	ne, nu := 0, 0
	for _, root := range list {
		e, u := c.follow(root)
		ne += e
		nu += u
	}
	c.r.Floor("functions which read lines", len(list), 1)
	c.r.Floor("effects of lines", ne, 5)
	c.r.Floor("updates of the records", nu, 2)
}

func (c *condCheck) follow(root *ssa.Function) (effects, updates int) {
	name := fnName(root)
	var heads []*ssa.BasicBlock
	for _, b := range root.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				heads = append(heads, b)
			}
		}
	}
	line := func(f *aframe, b *ssa.BasicBlock) bool {
		for f.up != nil {
			b = f.site.Block()
			f = f.up
		}
		for _, h := range heads {
			if b != h && inLoop(b, h) {
				return true
			}
		}
		return false
	}
	fields := func(g *ssa.Function) bool { // a parameter with the combination or the records
		for _, p := range g.Params {
			if c.isStack(p.Type()) {
				return true
			}
			if st, ok := deref(p.Type()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if c.gates[st.Field(i).Name()] && isBool(st.Field(i).Type()) {
						return true
					}
					if c.isStack(st.Field(i).Type()) {
						return true
					}
				}
			}
		}
		return false
	}
	elements := map[string][]typeTest{}
	x := &absint{w: c.w, limit: 400000}
	x.inline = func(g *ssa.Function) bool {
		return c.inParser(g) && !c.combine[g] && g != root && (fields(g) || c.predicate(g))
	}
	version := func(s *astate) string {
		if v := s.data["version"]; v != "" {
			return v
		}
		return "0"
	}
	enabled := func(s *astate) bool {
		for k, v := range s.conds {
			if v && c.isGate(k) {
				return true
			}
		}
		return false
	}
	single := func(s *astate) (bool, bool) {
		for k, v := range s.conds {
			if strings.HasPrefix(k, "single(") {
				return v, true
			}
		}
		return false, false
	}
	isCond := func(s *astate) (cond, end bool) {
		for _, facts := range s.types {
			for _, t := range facts {
				if !t.yes {
					continue
				}
				n := typeName(deref(t.t))
				switch {
				case strings.HasSuffix(n, "ConditionalInclusion"), strings.HasSuffix(n, "IfdefCondition"), strings.HasSuffix(n, "IfndefCondition"), strings.HasSuffix(n, "IfevalCondition"):
					cond = true
				case strings.HasSuffix(n, "EndOfCondition"):
					end = true
				}
			}
		}
		return
	}
	effect := func(f *aframe, s *astate, in ssa.Instruction, what string) {
		if !line(f, in.Block()) {
			return
		}
		effects++
		// where in the function which reads the lines
		at := f
		site := in
		for at.up != nil {
			site = at.site
			at = at.up
		}
		construct := name + ": " + what
		pos := c.w.pos(site.Pos())
		if !enabled(s) {
			c.note("effect", construct, pos, "also on lines which are excluded by a condition")
			return
		}
		if cond, _ := isCond(s); cond {
			ok := false
			for k, v := range s.conds {
				ok = ok || v && strings.HasPrefix(k, "eval(")
			}
			if !ok {
				c.note("effect", construct, pos, "also when the condition of the line is false")
				return
			}
		}
		c.note("effect", construct, pos, "")
	}
	older := func(f *aframe, addr string) bool { // made before the line was read
		for f.up != nil {
			f = f.up
		}
		pre := fmt.Sprintf("%d.", f.id)
		if strings.HasPrefix(addr, "param ") || strings.HasPrefix(addr, "*param ") || strings.HasPrefix(addr, "global ") || strings.HasPrefix(addr, "*global ") {
			return true
		}
		if !strings.HasPrefix(strings.TrimPrefix(addr, "*"), pre) {
			return false
		}
		id := strings.TrimPrefix(strings.TrimPrefix(addr, "*"), pre)
		if i := strings.IndexAny(id, ".[#"); i >= 0 {
			id = id[:i]
		}
		for _, b := range root.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && v.Name() == id {
					for _, h := range heads {
						if inLoop(b, h) {
							return false
						}
					}
					return true
				}
			}
		}
		return false
	}
	x.visit = func(f *aframe, s *astate, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			addr := x.val(f, in.Addr).s
			i := strings.LastIndexByte(addr, '.')
			if i < 0 || !older(f, addr) {
				return
			}
			fa, ok := in.Addr.(*ssa.FieldAddr)
			if ok && c.isStack(fa.X.Type()) && xfield(fa) == c.field {
				if !line(f, in.Block()) {
					return
				}
				updates++
				d, bad := c.change(s, addr, x.loadAddr(s, addr), x.val(f, in.Val))
				pos := c.w.pos(in.Pos())
				c.note("records", fnName(f.fn), pos, bad)
				s.data["version"] = fmt.Sprint(len(s.data["changes"]) + 1)
				s.data["changes"] += map[int]string{1: "+", -1: "-", 0: "="}[d]
				return
			}
			if ok && c.gates[xfield(fa)] && isBool(in.Val.Type()) {
				if line(f, in.Block()) {
					v := x.val(f, in.Val)
					bad := ""
					if v.s != "combined "+version(s) {
						bad = "what tells whether the lines are excluded is not the combination of all conditions"
					}
					c.note("gate", fnName(f.fn)+" "+xfield(fa), c.w.pos(in.Pos()), bad)
				} else if v := x.val(f, in.Val); (v.k != 'C' || v.s != "true") && !strings.HasPrefix(v.s, "combined ") {
					c.note("gate", fnName(f.fn)+" "+xfield(fa), c.w.pos(in.Pos()), "the lines are excluded at the beginning")
				}
				return
			}
			effect(f, s, in, "assignment of "+addr[i+1:])
		case *ssa.MapUpdate:
			if a := x.val(f, in.Map).s; older(f, a) {
				effect(f, s, in, "change of a map")
			}
		case *ssa.Return:
			if f.up == nil {
				return
			}
		}
	}
	x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fv xval, args []xval) ([]xval, bool) {
		if isEval(in.(ssa.Instruction)) {
			recv := ""
			if in.Common().IsInvoke() {
				recv = x.val(f, in.Common().Value).s
			} else {
				recv = args[0].s
			}
			return []xval{xterm("eval(" + recv + ")")}, true
		}
		if in.Common().IsInvoke() {
			if in.Common().Method.Name() == "SingleLineContent" {
				v := x.val(f, in.Common().Value).s
				return []xval{xterm("content(" + v + ")"), xterm("single(" + v + ")")}, true
			}
			for _, g := range c.w.calleesOf(in) {
				if c.w.inScopeFn(g) && len(g.Blocks) > 0 && c.impure(g) {
					effect(f, s, in.(ssa.Instruction), "call of "+in.Common().Method.Name())
					break
				}
			}
			return nil, false
		}
		g := fv.fn
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			effect(f, s, in.(ssa.Instruction), "change of a map")
		}
		if g == nil {
			return nil, false
		}
		if c.combine[g] {
			return []xval{xterm("combined " + version(s))}, true
		}
		if x.followed(f, in.Common(), fv) != nil {
			return nil, false
		}
		if c.w.inScopeFn(g) && len(g.Blocks) > 0 {
			if c.impure(g) {
				effect(f, s, in.(ssa.Instruction), "call of "+fnName(g))
			}
		} else if outsideEffect(g) {
			effect(f, s, in.(ssa.Instruction), "output")
		}
		return nil, false
	}
	x.loop = func(f *aframe, s *astate, head *ssa.BasicBlock) {
		if f.up != nil || f.fn != root {
			return
		}
		pos := c.w.pos(root.Pos())
		cond, end := isCond(s)
		changes := s.data["changes"]
		sv, sk := single(s)
		switch {
		case cond && sk && sv:
			c.note("nesting", name+": condition with content", pos, tern(changes == "", "", "a condition with content on its line is recorded"))
		case cond:
			c.note("nesting", name+": condition", pos, tern(changes == "+", "", "a condition is not recorded exactly once, although its lines may be excluded by another one"))
		case end:
			okay := changes == "-"
			if changes == "" { // no record
				for k, v := range s.conds {
					okay = okay || v && strings.Contains(k, "0 == len(") && strings.HasSuffix(k, "."+c.field+"))")
				}
			}
			c.note("nesting", name+": end of condition", pos, tern(okay, "", "the end of a condition does not remove its record exactly once, although its lines may be excluded by another one"))
		default:
			c.note("nesting", name+": other lines", pos, tern(changes == "", "", "the records are changed by another line"))
			for k, v := range elements {
				if nilErr, known := s.conds["("+strings.TrimSuffix(k, "#0")+"#1 == nil)"]; known && !nilErr {
					continue // not parsed
				}
				for _, t := range v {
					if x.decides(s, t.v, t.t) != -1 {
						c.note("nesting", name+": lines which are ignored", pos, "a condition, or the end of one, may be ignored: "+t.t.String())
					}
				}
			}
		}
		// the combination is up to date
		if changes != "" {
			for addr, v := range s.mem {
				i := strings.LastIndexByte(addr, '.')
				if i < 0 || !c.gates[addr[i+1:]] || !older(f, addr) {
					continue
				}
				c.note("gate", name+": after an update", pos, tern(v.s == "combined "+version(s), "", "the lines are still excluded or not as before the update of the records"))
			}
		}
	}
	x.run(root, nil, nil, newAState(), func(*aframe, *astate, []xval, *ssa.Return) {})
	// once more, knowing which values may be conditions
	for _, t := range x.tests {
		if n := typeName(deref(t.t)); strings.HasSuffix(n, "ConditionalInclusion") || strings.HasSuffix(n, "EndOfCondition") {
			elements[t.v.s] = append(elements[t.v.s], t)
		}
	}
	c.note("nesting", name+": lines which are ignored", c.w.pos(root.Pos()), tern(len(elements) > 0, "", "no line is known to be a condition"))
	effects, updates = 0, 0
	x.frames, x.steps = 0, 0
	x.run(root, nil, nil, newAState(), func(*aframe, *astate, []xval, *ssa.Return) {})
	if x.over {
		c.note("effect", name, c.w.pos(root.Pos()), "too many paths")
	}
	return
}

// predicate: the function tells something about an element, and changes nothing.
func (c *condCheck) predicate(g *ssa.Function) bool {
	res := g.Signature.Results()
	if res.Len() != 1 || !isBool(res.At(0).Type()) || c.impure(g) {
		return false
	}
	for _, p := range g.Params {
		if types.IsInterface(p.Type()) {
			return true
		}
	}
	return false
}

func tern(ok bool, a, b string) string {
	if ok {
		return a
	}
	return b
}
