package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C25", title: "Captions are numbered consecutively per kind", run: runC25,
		explanation: "The functions that update the counters of the rendering context are evaluated along all their paths: each adds exactly one to one counter and gives the new value. Each place which takes a number is found with the name of the counter, the caption attribute and the placeholder it is for (through helpers, per call): they must correspond one to one. A number is taken only when the element has a title, at most once per element, outside of loops, and it is rendered unchanged. The counters start empty with each rendering context, a context is made once per conversion, and no container renders its elements twice, or in another order.",
		assumptions: []string{"elements are rendered in the order of the calls of the rendering functions"}})
}

type numberSite struct {
	fn     *ssa.Function
	call   ssa.CallInstruction
	key    string
	label  map[string]bool // caption attributes
	holder map[string]bool // placeholders
	via    []ssa.CallInstruction
}

type captionCheck struct {
	w     *World
	r     *Report
	inc   map[*ssa.Function]int // functions which increment: index of the parameter which is the key, -1 when it is a constant
	konst map[*ssa.Function]string
}

func isCounters(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldName(fa.X.Type(), fa.Field) == "sgml.context.counters"
}

func runC25(w *World, r *Report) {
	w.buildCallGraph()
	c := &captionCheck{w: w, r: r, inc: map[*ssa.Function]int{}, konst: map[*ssa.Function]string{}}
	// 1. the functions which update the counters
	for _, f := range w.Funcs {
		upd := false
		for _, in := range instrs(f) {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				upd = upd || isCounters(in.Map)
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && isCounters(in.Call.Args[0]) {
					r.Fail("one-step", fnName(f)+" "+b.Name(), w.pos(in.Pos()), "a counter is removed")
				}
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "sgml.context.counters" {
					mk, ok := in.Val.(*ssa.MakeMap)
					r.Check("fresh", fnName(f), w.pos(in.Pos()), ok, "the counters start empty")
					if ok {
						for _, u := range refs(mk) {
							if mu, ok := u.(*ssa.MapUpdate); ok && !nonNegZero(mu.Value) {
								r.Fail("fresh", fnName(f)+" initial value", w.pos(mu.Pos()), "a counter does not start at zero")
							}
						}
					}
					c.madeOnce(f)
				}
			}
		}
		if upd {
			c.step(f)
		}
	}
	r.Floor("functions updating counters", len(c.inc), 1)
	// 2. the places which take a number
	var sites []*numberSite
	reach := w.reachable(rendererRoots(w)...)
	for f := range c.inc {
		sites = append(sites, c.sitesOf(f, c.konst[f], nil, 0)...)
	}
	live := sites[:0]
	for _, s := range sites {
		if reach[s.fn] {
			live = append(live, s)
		}
	}
	sites = live
	sort.Slice(sites, func(i, j int) bool {
		return w.pos(sites[i].call.Pos())+sites[i].key < w.pos(sites[j].call.Pos())+sites[j].key
	})
	r.Floor("places which take a number", len(sites), 3)
	c.kinds(sites)
	for _, s := range sites {
		name := fnName(s.fn) + " " + s.key
		pos := w.pos(s.call.Pos())
		r.Check("titled-only", name, pos, c.titled(s), "the number is taken when the element has a title")
		in := s.call.(ssa.Instruction)
		r.Check("once", name, pos, !blockReaches(in.Block(), in.Block()), "the number is taken outside of loops")
		for _, t := range sites {
			if t != s && t.fn == s.fn && t.key == s.key && t.call != s.call && reaches(s.call.(ssa.Instruction), t.call.(ssa.Instruction)) {
				r.Fail("once", name+" twice", pos, "another number is taken for the same element at "+w.pos(t.call.Pos()))
			}
		}
		if v := s.call.Value(); v != nil {
			how := c.rendered(v)
			r.Check("rendered", name, pos, how == "", "the number is rendered as it is"+how)
		}
	}
	c.renderedOnce()
}

func nonNegZero(v ssa.Value) bool {
	n, ok := constInt(v)
	return ok && n == 0
}

// step: the function adds one to a counter, on each path, and gives the new value.
func (c *captionCheck) step(f *ssa.Function) {
	x := &symExec{w: c.w, tracked: func(fa *ssa.FieldAddr) string { return "" }, inline: func(*ssa.Function) bool { return false }}
	x.entries = func(m ssa.Value) string {
		if isCounters(m) {
			return "counters"
		}
		return ""
	}
	bad := ""
	x.loopBad = func(b *ssa.BasicBlock, n string) { bad = "a counter is changed by a loop" }
	paths := 0
	x.run2(f, func(s *sstate, res []sval, ret *ssa.Return) {
		paths++
		if len(s.fields) != 1 {
			bad = fmt.Sprintf("%d counters are updated on a path", len(s.fields))
			return
		}
		for n, v := range s.fields {
			absent := false
			if found, ok := s.conds["Sfound "+n+"0"]; ok {
				absent = !found
			}
			one := v.kind == 'E' && v.name == n && v.n == 1 || absent && v.kind == 'C' && v.name == "1"
			if !one {
				bad = "a counter is changed to " + v.String()
			}
			given := false
			for _, q := range res {
				given = given || q.key() == v.key()
			}
			if len(res) > 0 && !given {
				bad = "what is returned is not the new value of the counter"
			}
		}
	})
	if x.over {
		bad = "the paths could not be followed"
	}
	c.r.Check("one-step", fnName(f), c.w.pos(f.Pos()), bad == "", fmt.Sprintf("%d paths; %s", paths, bad))
	// the key
	for _, in := range instrs(f) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isCounters(mu.Map) {
			continue
		}
		if k, ok := constString(mu.Key); ok {
			c.inc[f], c.konst[f] = -1, k
			return
		}
		for i, p := range f.Params {
			if p == mu.Key {
				c.inc[f] = i
				return
			}
		}
		c.r.Fail("one-step", fnName(f)+" key", c.w.pos(in.Pos()), "the name of the counter is neither a constant nor a parameter")
		return
	}
}

// sitesOf: the calls of an incrementing function, beyond the functions which only give its result.
func (c *captionCheck) sitesOf(f *ssa.Function, key string, via []ssa.CallInstruction, depth int) []*numberSite {
	var l []*numberSite
	if depth > 4 {
		return nil
	}
	for _, site := range c.w.callers[f] {
		p := site.Parent()
		if p.Pkg == nil && p.Synthetic != "" { // a bound method
			continue
		}
		k := key
		if i := c.inc[f]; k == "" && i >= 0 {
			a, ok := argFor(site, f, i)
			if !ok {
				continue
			}
			if s, ok := constString(a); ok {
				k = s
			} else if prm, ok := a.(*ssa.Parameter); ok && c.forwards(p, site) {
				j := paramIndex(p, prm)
				c.inc[p] = j
				l = append(l, c.sitesOf(p, "", append(via, site), depth+1)...)
				continue
			} else {
				k = "?" // told per call below
			}
		}
		if c.forwards(p, site) && len(c.w.callers[p]) > 0 {
			l = append(l, c.sitesOf(p, k, append(via, site), depth+1)...)
			continue
		}
		l = append(l, c.contexts(p, site, f, k)...)
	}
	return l
}

func paramIndex(f *ssa.Function, p *ssa.Parameter) int {
	for i, q := range f.Params {
		if q == p {
			return i
		}
	}
	return -1
}

// forwards: the function does nothing but give the result of the call.
func (c *captionCheck) forwards(f *ssa.Function, site ssa.CallInstruction) bool {
	n := 0
	for _, in := range instrs(f) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			continue
		}
		n++
		if len(ret.Results) != 1 || ret.Results[0] != ssa.Value(site.Value()) {
			return false
		}
	}
	return n > 0
}

// contexts: the place, once for each call of its function when the names are given as parameters.
func (c *captionCheck) contexts(fn *ssa.Function, site ssa.CallInstruction, inc *ssa.Function, key string) []*numberSite {
	var prms []*ssa.Parameter
	use := func(v ssa.Value) {
		if p, ok := v.(*ssa.Parameter); ok {
			if b, ok := types.Unalias(p.Type()).Underlying().(*types.Basic); ok && b.Kind() == types.String {
				prms = append(prms, p)
			}
			if _, ok := types.Unalias(p.Type()).Underlying().(*types.Signature); ok {
				prms = append(prms, p)
			}
		}
	}
	for _, in := range instrs(fn) {
		for _, op := range in.Operands(nil) {
			if *op != nil {
				use(*op)
			}
		}
	}
	mk := func(env map[ssa.Value]ssa.Value, k string, via []ssa.CallInstruction) *numberSite {
		s := &numberSite{fn: fn, call: site, key: k, label: map[string]bool{}, holder: map[string]bool{}, via: via}
		for _, in := range instrs(fn) {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				v := *op
				if e, ok := env[v]; ok {
					v = e
				}
				if str, ok := constString(v); ok {
					if strings.HasSuffix(str, "-caption") {
						s.label[str] = true
					}
					if i := strings.Index(str, "{counter:"); i >= 0 {
						str = str[i:]
						if j := strings.Index(str, "}"); j > 0 {
							str = str[:j+1]
						}
						s.holder[str] = true
					}
				}
			}
		}
		return s
	}
	if len(prms) == 0 || len(c.w.callers[fn]) == 0 {
		return []*numberSite{mk(nil, key, nil)}
	}
	var l []*numberSite
	for _, call := range c.w.callers[fn] {
		env := map[ssa.Value]ssa.Value{}
		for _, p := range prms {
			if a, ok := argFor(call, fn, paramIndex(fn, p)); ok {
				env[p] = a
			}
		}
		k := key
		if k == "?" {
			if i := c.inc[inc]; i >= 0 {
				if a, ok := argFor(site, inc, i); ok {
					if e, ok := env[a]; ok {
						a = e
					}
					if s, ok := constString(a); ok {
						k = s
					}
				}
			}
		}
		// the function which counts is a parameter
		if p, ok := site.Common().Value.(*ssa.Parameter); ok && !site.Common().IsInvoke() {
			g := funcValue(env[p])
			if g == nil || g != inc && !c.leads(g, inc, 0) {
				continue
			}
			if ck := c.konst[g]; ck != "" {
				k = ck
			}
		}
		l = append(l, mk(env, k, []ssa.CallInstruction{call}))
	}
	return l
}

func (c *captionCheck) leads(g, inc *ssa.Function, depth int) bool {
	if g == inc {
		return true
	}
	if depth > 3 || g == nil {
		return false
	}
	for _, in := range instrs(g) {
		if call, ok := in.(ssa.CallInstruction); ok {
			if f := call.Common().StaticCallee(); f != nil && c.leads(f, inc, depth+1) {
				return true
			}
		}
	}
	return false
}

// funcValue: the function given as a value.
func funcValue(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return unwrapSynthetic(v)
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		if f.Synthetic != "" {
			return unwrapSynthetic(f)
		}
		return f
	case *ssa.ChangeType:
		return funcValue(v.X)
	}
	return nil
}

// kinds: counters, caption attributes and placeholders correspond one to one.
func (c *captionCheck) kinds(sites []*numberSite) {
	of := func(m map[string]bool) string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return strings.Join(l, "+")
	}
	type pair struct{ what, a, b string }
	fwd, bwd := map[string]map[string]*numberSite{}, map[string]map[string]*numberSite{}
	add := func(m map[string]map[string]*numberSite, a, b string, s *numberSite) {
		if m[a] == nil {
			m[a] = map[string]*numberSite{}
		}
		if m[a][b] == nil {
			m[a][b] = s
		}
	}
	for _, s := range sites {
		lab, hol := of(s.label), of(s.holder)
		if lab != "" {
			add(fwd, "counter "+s.key+" of captions", lab, s)
			add(bwd, "caption "+lab, s.key, s)
		} else {
			lab = fnName(s.fn)
		}
		if hol != "" {
			add(fwd, "counter "+s.key+" of placeholders", hol, s)
			add(bwd, "placeholder "+hol, s.key, s)
		}
	}
	for _, m := range []map[string]map[string]*numberSite{fwd, bwd} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			var bs []string
			var last *numberSite
			for b, s := range m[k] {
				bs = append(bs, b)
				if last == nil || c.w.pos(last.call.Pos()) < c.w.pos(s.call.Pos()) {
					last = s
				}
			}
			sort.Strings(bs)
			c.r.Check("own-counter", k, c.w.pos(last.call.Pos()), len(bs) == 1, strings.Join(bs, ", "))
		}
	}
	_ = pair{}
}

// titled: the number is taken where the element is known to have a title.
func (c *captionCheck) titled(s *numberSite) bool {
	return c.titledAt(s.call.(ssa.Instruction), 0)
}

func (c *captionCheck) titledAt(in ssa.Instruction, depth int) bool {
	for _, f := range factsAt(in.Block()) {
		if c.titleCond(f.norm()) {
			return true
		}
	}
	if depth >= 2 {
		return false
	}
	callers := c.w.callers[topFunc(in.Parent())]
	if len(callers) == 0 {
		return false
	}
	for _, call := range callers {
		if !c.titledAt(call.(ssa.Instruction), depth+1) {
			return false
		}
	}
	return true
}

func (c *captionCheck) titleCond(f cond) bool {
	switch v := f.v.(type) {
	case *ssa.BinOp:
		x, y := v.X, v.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		if s, ok := constString(y); ok && s == "" && f.val == (v.Op == token.NEQ) && (v.Op == token.NEQ || v.Op == token.EQL) {
			return c.aboutTitle(x, 0)
		}
		if l, ok := x.(*ssa.Call); ok {
			if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				n, _ := constInt(y)
				if n == 0 && (f.val && (v.Op == token.GTR || v.Op == token.NEQ) || !f.val && (v.Op == token.EQL || v.Op == token.LEQ)) {
					return c.aboutTitle(l.Call.Args[0], 0)
				}
			}
		}
	case *ssa.Call:
		return f.val && c.aboutTitle(v, 0)
	case *ssa.Extract:
		return f.val && c.aboutTitle(v, 0)
	}
	return false
}

// aboutTitle: the value tells about the title of the element.
func (c *captionCheck) aboutTitle(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Extract:
		return c.aboutTitle(v.Tuple, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if c.aboutTitle(e, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, s := range cellStores(a) {
				if c.aboutTitle(s, depth+1) {
					return true
				}
			}
		}
	case *ssa.Lookup:
		s, ok := constString(v.Index)
		return ok && s == "title"
	case *ssa.Parameter:
		for _, call := range c.w.callers[v.Parent()] {
			if a, ok := argFor(call, v.Parent(), paramIndex(v.Parent(), v)); !ok || !c.aboutTitle(a, depth+1) {
				return false
			}
		}
		return len(c.w.callers[v.Parent()]) > 0
	case *ssa.Call:
		for _, a := range v.Call.Args {
			if s, ok := constString(a); ok && s == "title" {
				return true
			}
		}
		if f := v.Call.StaticCallee(); f != nil && c.w.inScopeFn(f) {
			for _, in := range instrs(f) {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						if s, ok := constString(*op); ok && s == "title" {
							return true
						}
					}
				}
			}
		}
		for _, a := range v.Call.Args {
			if c.aboutTitle(a, depth+1) {
				return true
			}
		}
	}
	return false
}

// rendered: the number is written as text, and there is no arithmetic on it.
func (c *captionCheck) rendered(v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	used := false
	bad := ""
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if v == nil || seen[v] || depth > 6 {
			return
		}
		seen[v] = true
		for _, in := range refs(v) {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
					bad = ": it is changed at " + c.w.pos(in.Pos())
				}
			case *ssa.Phi:
				walk(in, depth)
			case *ssa.Convert:
				walk(in, depth)
			case *ssa.ChangeType:
				walk(in, depth)
			case *ssa.MakeInterface:
				walk(in, depth)
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.Alloc:
					for _, r := range refs(a) {
						if u, ok := r.(*ssa.UnOp); ok {
							walk(u, depth)
						}
					}
				case *ssa.IndexAddr: // the arguments of a variadic function
					if al, ok := a.X.(*ssa.Alloc); ok {
						for _, r := range refs(al) {
							if sl, ok := r.(*ssa.Slice); ok {
								walk(sl, depth)
							}
						}
					}
				case *ssa.FieldAddr:
					// a field of what is given to a template, or of another structure: read where?
					name := fieldName(a.X.Type(), a.Field)
					for _, f := range c.w.Funcs {
						for _, fin := range instrs(f) {
							if u, ok := fin.(*ssa.UnOp); ok {
								if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == name && name != "" {
									walk(u, depth+1)
								}
							}
						}
					}
				}
			case *ssa.Return:
				for i, r := range in.Results {
					if r != v {
						continue
					}
					for _, site := range c.w.callers[in.Parent()] {
						sv := site.Value()
						if sv == nil {
							continue
						}
						if len(in.Results) == 1 {
							walk(sv, depth+1)
							continue
						}
						for _, x := range refs(sv) {
							if e, ok := x.(*ssa.Extract); ok && e.Index == i {
								walk(e, depth+1)
							}
						}
					}
				}
			case ssa.CallInstruction:
				if g := in.Common().StaticCallee(); g != nil {
					if c.w.inScopeFn(g) && len(g.Blocks) > 0 {
						for i, a := range in.Common().Args {
							if a == v && i < len(g.Params) {
								walk(g.Params[i], depth+1)
							}
						}
						continue
					}
					n := callName(in.Common())
					if (strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "fmt.")) && in.Value() != nil && len(refs(in.Value())) > 0 {
						used = true
					}
				}
			}
		}
	}
	walk(v, 0)
	if bad == "" && !used {
		bad = ": it is not written"
	}
	return bad
}

// madeOnce: the function which makes the counters is called once per conversion, outside of loops, and never while an
// element is rendered.
func (c *captionCheck) madeOnce(f *ssa.Function) {
	reach := c.w.reachable(rendererRoots(c.w)...)
	if reach[f] {
		c.r.Fail("fresh", fnName(f)+" while rendering", c.w.pos(f.Pos()), "the counters may start again while the elements are rendered")
	}
	for _, site := range c.w.callers[f] {
		in := site.(ssa.Instruction)
		ok := !blockReaches(in.Block(), in.Block())
		c.r.Check("fresh", fnName(f)+" in "+fnName(site.Parent()), c.w.pos(site.Pos()), ok, "called outside of loops")
	}
}

// renderedOnce: no function renders the elements of one container twice, or backwards.
func (c *captionCheck) renderedOnce() {
	w := c.w
	reach := w.reachable(rendererRoots(w)...)
	var fns []*ssa.Function
	for f := range reach {
		if w.inScopeFn(f) && f.Pkg.Pkg.Name() == "sgml" {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	for _, f := range fns {
		calls := map[string][]ssa.Instruction{}
		var names []string
		for _, in := range instrs(f) {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !reach[g] || !rendersText(g.Signature) {
				continue
			}
			for _, a := range call.Call.Args {
				if k := contentKey(a); k != "" {
					n++
					if calls[k] == nil {
						names = append(names, k)
					}
					calls[k] = append(calls[k], in)
				}
			}
		}
		for _, k := range names {
			bad := ""
			for i, a := range calls[k] {
				for j, b := range calls[k] {
					if i != j && reaches(a, b) {
						bad = fmt.Sprintf("rendered at %s and again at %s", w.pos(a.Pos()), w.pos(b.Pos()))
					}
				}
				if bad == "" && blockReaches(a.Block(), a.Block()) && !variesInLoop(a) {
					bad = "rendered by each iteration of a loop"
				}
			}
			c.r.Check("elements-once", fnName(f)+" "+strings.SplitN(k, "@", 2)[0], w.pos(calls[k][0].Pos()), bad == "", bad)
		}
		c.forward(f)
	}
	c.r.Floor("renderings of the elements of a container", n, 10)
}

// contentKey: the elements of a container, which may contain captioned blocks.
func contentKey(a ssa.Value) string {
	if !isElements(a.Type()) {
		return ""
	}
	switch v := stripConv(a).(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			n := fieldName(fa.X.Type(), fa.Field)
			if strings.HasPrefix(n, "types.") && strings.HasSuffix(n, ".Elements") {
				return n + "@" + valueName(fa.X)
			}
		}
	case *ssa.Call:
		if strings.HasSuffix(callName(v.Common()), ".GetElements") {
			if v.Call.IsInvoke() {
				return "GetElements@" + valueName(v.Call.Value)
			}
			return "GetElements@" + valueName(v.Call.Args[0])
		}
	case *ssa.Parameter:
		return "parameter " + v.Name() + "@" + v.Name()
	}
	return ""
}

func isElements(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	it, ok := types.Unalias(s.Elem()).Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

func valueName(v ssa.Value) string { return v.Name() }

// variesInLoop: what is rendered depends on the iteration.
func variesInLoop(in ssa.Instruction) bool {
	call := in.(*ssa.Call)
	for _, a := range call.Call.Args {
		if !isElements(a.Type()) {
			continue
		}
		v, ok := stripConv(a).(ssa.Instruction)
		if !ok {
			return false
		}
		for i := 0; i < 6; i++ {
			u, ok := v.(*ssa.UnOp)
			if !ok {
				break
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				break
			}
			nv, ok := fa.X.(ssa.Instruction)
			if !ok {
				return false
			}
			v = nv
		}
		return blockReaches(v.Block(), v.Block())
	}
	return true
}

// forward: the loops over elements go forward.
func (c *captionCheck) forward(f *ssa.Function) {
	for _, in := range instrs(f) {
		ia, ok := in.(*ssa.IndexAddr)
		if ok && isElements(ia.X.Type()) && direction(ia.Index, 0) < 0 {
			c.backward(f, ia)
		}
	}
}

// direction: 1 if the value grows with the iterations of a loop, -1 if it gets smaller, 0 if neither is known.
func direction(v ssa.Value, depth int) int {
	if depth > 8 {
		return 0
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(v) {
				continue
			}
			n, isC := constInt(b.Y)
			switch {
			case !isC || n == 0:
			case b.Op == token.ADD && n > 0 || b.Op == token.SUB && n < 0:
				return 1
			case b.Op == token.SUB || b.Op == token.ADD:
				return -1
			}
		}
	case *ssa.BinOp:
		x, y := direction(v.X, depth+1), direction(v.Y, depth+1)
		switch {
		case v.Op == token.ADD && (x == 0 || y == 0 || x == y):
			if x == 0 {
				return y
			}
			return x
		case v.Op == token.SUB && (x == 0 || y == 0 || x == -y):
			if x == 0 {
				return -y
			}
			return x
		}
	}
	return 0
}

func (c *captionCheck) backward(f *ssa.Function, ia *ssa.IndexAddr) {
	// only when what is found is rendered
	for _, in := range instrs(f) {
		call, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		g := call.Call.StaticCallee()
		if g == nil || !rendersText(g.Signature) {
			continue
		}
		for _, a := range call.Call.Args {
			if u, ok := stripConv(a).(*ssa.UnOp); ok && u.X == ssa.Value(ia) {
				c.r.Fail("in-order", fnName(f), c.w.pos(ia.Pos()), "the elements are rendered from the last to the first")
			}
		}
	}
}
