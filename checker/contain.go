package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which kinds of elements the fields of elements may contain. The grammar is walked for what its actions make and
// return; what is bound to a label is followed through the code of the action and the constructors into the fields
// where it ends. The same is done for what the library parses again by itself.

// fieldPlace: a field of a structure of the library.
type fieldPlace struct {
	typ   string // types.Footnote
	field string // Elements ("" for the values of a map)
}

func (p fieldPlace) String() string {
	if p.field == "" {
		return p.typ
	}
	return p.typ + "." + p.field
}

type containment struct {
	w      *World
	g      *grammar
	makes  map[*ssa.Function]map[string]bool
	flows  map[flowKey]*flowsTo
	yields map[*gexpr]map[string]bool
	in     map[fieldPlace]map[string]bool
	direct map[fieldPlace]map[string]bool // by the actions of the grammar only
	change bool
}

type flowKey struct {
	f *ssa.Function
	i int
}

// flowsTo: where a value ends.
type flowsTo struct {
	fields   map[fieldPlace]bool
	returned bool
}

func (w *World) containment() *containment {
	if w.contains != nil {
		return w.contains
	}
	w.buildCallGraph()
	c := &containment{w: w, g: w.grammar(), makes: map[*ssa.Function]map[string]bool{}, flows: map[flowKey]*flowsTo{}, yields: map[*gexpr]map[string]bool{}, in: map[fieldPlace]map[string]bool{}, direct: map[fieldPlace]map[string]bool{}}
	w.contains = c
	for c.change = true; c.change; {
		c.change = false
		for _, r := range c.g.order {
			c.eval(r.expr)
		}
		c.parsedAgain()
	}
	return c
}

// made: the types of structures (and maps with a name) which a function makes and returns.
func (c *containment) made(f *ssa.Function) map[string]bool {
	if m, ok := c.makes[f]; ok {
		return m
	}
	m := map[string]bool{}
	c.makes[f] = m
	if f == nil {
		return m
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, depth int)
	result := func(g *ssa.Function, i, depth int) {
		if g == nil || !c.w.inScopeFn(g) || depth > 8 {
			return
		}
		for _, in := range instrs(g) {
			if ret, ok := in.(*ssa.Return); ok && i < len(ret.Results) {
				walk(ret.Results[i], depth+1)
			}
		}
	}
	walk = func(v ssa.Value, depth int) {
		if seen[v] {
			return
		}
		seen[v] = true
		if n, ok := deref(v.Type()).(*types.Named); ok && strings.HasPrefix(typeName(n), "types.") {
			switch n.Underlying().(type) {
			case *types.Struct, *types.Map:
				if p, ok := v.(*ssa.Parameter); !ok || p.Parent() == nil {
					m[typeName(n)] = true
				}
				return
			}
		}
		switch v := v.(type) {
		case *ssa.MakeInterface:
			walk(v.X, depth)
		case *ssa.ChangeInterface:
			walk(v.X, depth)
		case *ssa.ChangeType:
			walk(v.X, depth)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, depth)
			}
		case *ssa.Extract:
			if call, ok := v.Tuple.(*ssa.Call); ok {
				for _, g := range c.w.calleesOf(call) {
					result(g, v.Index, depth)
				}
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					for _, a := range v.Call.Args {
						walk(a, depth)
					}
				}
				return
			}
			for _, g := range c.w.calleesOf(v) {
				result(g, 0, depth)
			}
		case *ssa.Slice:
			walk(v.X, depth)
		case *ssa.Alloc:
			for _, ref := range refs(v) {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr == v {
						walk(ref.Val, depth)
					}
				case *ssa.IndexAddr:
					for _, q := range refs(ref) {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ref {
							walk(st.Val, depth)
						}
					}
				}
			}
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok {
				walk(a, depth)
			}
		case *ssa.MakeSlice:
			for _, ref := range refs(v) {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, q := range refs(ia) {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
							walk(st.Val, depth)
						}
					}
				}
			}
		}
	}
	result(f, 0, 0)
	return m
}

func (c *containment) addAll(to map[string]bool, from map[string]bool) {
	for k := range from {
		if !to[k] {
			to[k] = true
			c.change = true
		}
	}
}

func (c *containment) put(p fieldPlace, from map[string]bool) {
	m := c.in[p]
	if m == nil {
		m = map[string]bool{}
		c.in[p] = m
	}
	c.addAll(m, from)
}

func (c *containment) eval(x *gexpr) map[string]bool {
	m := c.yields[x]
	if m == nil {
		m = map[string]bool{}
		c.yields[x] = m
	}
	switch x.kind {
	case "and", "not", "andCode", "notCode", "stateCode":
		for _, k := range x.kids {
			c.eval(k)
		}
		return m
	case "ref":
		if r := c.g.rules[x.name]; r != nil {
			if v := c.yields[r.expr]; v != nil {
				c.addAll(m, v)
			}
		}
		return m
	case "action":
		c.addAll(m, c.made(x.run))
		for _, k := range x.kids {
			c.eval(k)
		}
		var labels func(k *gexpr)
		labels = func(k *gexpr) {
			if k.kind == "action" || k.kind == "and" || k.kind == "not" {
				return
			}
			if k.kind == "label" && x.run != nil {
				for i, p := range x.run.Params {
					if p.Name() == k.name {
						f := c.flow(x.run, i)
						v := c.yields[k]
						for _, p := range sortedPlaces(f.fields) {
							c.put(p, v)
							if c.direct[p] == nil {
								c.direct[p] = map[string]bool{}
							}
							c.addAll(c.direct[p], v)
						}
						if f.returned {
							c.addAll(m, v)
						}
					}
				}
			}
			for _, kk := range k.kids {
				labels(kk)
			}
		}
		for _, k := range x.kids {
			labels(k)
		}
		return m
	}
	for _, k := range x.kids {
		c.addAll(m, c.eval(k))
	}
	return m
}

func sortedPlaces(m map[fieldPlace]bool) []fieldPlace {
	var l []fieldPlace
	for p := range m {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// flow: where the argument of a function ends.
func (c *containment) flow(f *ssa.Function, i int) *flowsTo {
	k := flowKey{f, i}
	if r, ok := c.flows[k]; ok {
		return r
	}
	r := &flowsTo{fields: map[fieldPlace]bool{}}
	c.flows[k] = r
	if i < len(f.Params) {
		c.forward(f.Params[i], r, nil)
	}
	return r
}

// forward: where a value ends. Calls (if given) are told the calls which get it.
func (c *containment) forward(v ssa.Value, r *flowsTo, calls func(call ssa.CallInstruction)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	field := func(fa *ssa.FieldAddr) {
		if n, ok := deref(fa.X.Type()).(*types.Named); ok {
			r.fields[fieldPlace{typeName(n), deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()}] = true
		}
	}
	var into func(a ssa.Value)
	into = func(a ssa.Value) {
		switch a := a.(type) {
		case *ssa.FieldAddr:
			field(a)
		case *ssa.IndexAddr:
			walk(a.X)
			into(a.X)
		case *ssa.UnOp:
			into(a.X) // an element of what the field contains
		case *ssa.Slice:
			into(a.X)
		case *ssa.Alloc:
			walk(a)
		case *ssa.Phi:
			if !seen[a] {
				walk(a)
			}
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.TypeAssert, *ssa.Phi, *ssa.Slice, *ssa.IndexAddr, *ssa.Index, *ssa.Range, *ssa.Next, *ssa.Lookup, *ssa.Extract:
				if t, ok := ref.(ssa.Value); ok {
					if b, ok := t.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
						continue
					}
					walk(t)
				}
			case *ssa.UnOp:
				walk(ref)
			case *ssa.Store:
				if ref.Val == v {
					into(ref.Addr)
				}
			case *ssa.MapUpdate:
				if ref.Value == v {
					walk(ref.Map)
					if n, ok := ref.Map.Type().(*types.Named); ok {
						r.fields[fieldPlace{typeName(n), ""}] = true
					}
				}
			case *ssa.Return:
				r.returned = true
			case ssa.CallInstruction:
				if calls != nil {
					calls(ref)
				}
				cc := ref.Common()
				res, _ := ref.(ssa.Value)
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && res != nil {
						walk(res)
					}
					if b.Name() == "copy" && len(cc.Args) == 2 && cc.Args[1] == v {
						walk(cc.Args[0])
						into(cc.Args[0])
					}
					continue
				}
				for _, g := range c.w.calleesOf(ref) {
					if !c.w.inScopeFn(g) || c.w.isGenerated(g) || len(g.Blocks) == 0 {
						continue
					}
					args := cc.Args
					off := 0
					if cc.IsInvoke() {
						off = 1
					}
					for j, a := range args {
						if a == v && j+off < len(g.Params) {
							f := c.flow(g, j+off)
							for p := range f.fields {
								r.fields[p] = true
							}
							if f.returned && res != nil {
								walk(res)
							}
						}
					}
				}
			}
		}
	}
	walk(v)
}

// parsedAgain: what the library parses with another rule, and puts into elements.
func (c *containment) parsedAgain() {
	for _, p := range c.again() {
		r := c.g.rules[p.rule]
		if r == nil {
			continue
		}
		for _, f := range sortedPlaces(p.to.fields) {
			c.put(f, c.yields[r.expr])
		}
	}
}

type parsedWith struct {
	rule string
	fn   *ssa.Function
	call ssa.CallInstruction
	to   *flowsTo
}

func (c *containment) again() []parsedWith {
	if c.w.parsed != nil {
		return c.w.parsed
	}
	c.w.parsed = []parsedWith{}
	for _, f := range c.w.libraryFuncs() {
		if c.w.isGenerated(f) || isTest(c.w, f) {
			continue
		}
		for _, in := range instrs(f) {
			e, ok := in.(*ssa.Call)
			if !ok || e.Call.StaticCallee() == nil || e.Call.StaticCallee().Name() != "Entrypoint" || len(e.Call.Args) != 1 {
				continue
			}
			rule, ok := constString(e.Call.Args[0])
			if !ok {
				continue
			}
			// the calls which get the option
			opt := &flowsTo{fields: map[fieldPlace]bool{}}
			found := map[ssa.CallInstruction]bool{}
			c.forward(e, opt, func(call ssa.CallInstruction) { found[call] = true })
			for _, in := range instrs(f) {
				call, ok := in.(ssa.CallInstruction)
				if !ok || !found[call] {
					continue
				}
				if v, ok := call.(ssa.Value); ok {
					to := &flowsTo{fields: map[fieldPlace]bool{}}
					c.results(v, to, 0)
					c.w.parsed = append(c.w.parsed, parsedWith{rule, f, call, to})
				}
			}
		}
	}
	return c.w.parsed
}

// results: where the content which a call returns ends.
func (c *containment) results(v ssa.Value, to *flowsTo, depth int) {
	content := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Interface:
			return u.NumMethods() == 0
		case *types.Slice:
			i, ok := u.Elem().Underlying().(*types.Interface)
			return ok && i.NumMethods() == 0
		}
		return false
	}
	var vals []ssa.Value
	if tup, ok := v.Type().(*types.Tuple); ok {
		for _, ref := range refs(v) {
			if ex, ok := ref.(*ssa.Extract); ok && content(tup.At(ex.Index).Type()) {
				vals = append(vals, ex)
			}
		}
	} else if content(v.Type()) {
		vals = append(vals, v)
	}
	for _, x := range vals {
		r := &flowsTo{fields: map[fieldPlace]bool{}}
		c.forward(x, r, nil)
		for p := range r.fields {
			to.fields[p] = true
		}
		if r.returned && depth < 3 {
			for _, site := range c.w.callers[v.Parent()] {
				if sv, ok := site.(ssa.Value); ok {
					c.results(sv, to, depth+1)
				}
			}
		}
	}
}

// reaches: the types which may be found in an element of a type, at any depth.
func (c *containment) within(t string, seen map[string]bool) map[string]bool {
	if seen == nil {
		seen = map[string]bool{}
	}
	for p, l := range c.in {
		if p.typ != t {
			continue
		}
		for k := range l {
			if !seen[k] {
				seen[k] = true
				c.within(k, seen)
			}
		}
	}
	return seen
}
