package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: the attributes set by the caller win over those of the document.

func init() {
	register(&checkDef{id: "C08", title: "Attributes set by the caller win over those of the document", run: runC08,
		explanation: "The maps in which the parser keeps the attributes of the caller and those of the document are found from where the attributes of the configuration are stored. Each read of an attribute of the document is followed along the paths of its function: what is returned may only come from it on paths where the caller did not set the same name; merged maps get the attributes of the caller last. Each write in the attributes of the renderer, which start as a copy of those of the caller, is made under the condition that the caller did not set the same name. Attributes of the caller are never written. Functions which interpret declarations on their own are only called when the caller did not set the names, or consult the attributes of the caller.",
		assumptions: []string{"the name of an attribute is given to the tables as it is written (no aliases between names)"}})
}

type attrCheck struct {
	w      *World
	r      *Report
	caller map[string]bool // fields which hold the attributes of the caller
	doc    map[string]bool // fields which hold those of the document
	mixed  map[string]bool // fields which start as a copy of those of the caller
}

const configAttributes = "configuration.Configuration.Attributes"

func isAttributes(t types.Type) bool {
	m, ok := types.Unalias(t).Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := types.Unalias(m.Key()).Underlying().(*types.Basic)
	it, ok2 := types.Unalias(m.Elem()).Underlying().(*types.Interface)
	return ok && ok2 && b.Info()&types.IsString != 0 && it.NumMethods() == 0
}

// mapField: the value is loaded from a field which holds attributes.
func mapField(v ssa.Value) string {
	v = stripConv(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && isAttributes(v.Type()) {
			return fieldName(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

func runC08(w *World, r *Report) {
	w.buildCallGraph()
	c := &attrCheck{w: w, r: r, caller: map[string]bool{configAttributes: true}, doc: map[string]bool{}, mixed: map[string]bool{}}
	c.findFields()
	var names []string
	for n := range c.doc {
		names = append(names, n)
	}
	sort.Strings(names)
	r.Floor("tables of the attributes of the document", len(c.doc), 1)
	r.Floor("tables of the attributes of the renderer", len(c.mixed), 1)
	nr, nw := 0, 0
	for _, f := range w.Funcs {
		if !c.inLibrary(f) {
			continue
		}
		nr += c.reads(f)
		nw += c.writes(f)
	}
	r.Floor("reads of the attributes of the document", nr, 3)
	r.Floor("writes of the attributes of the renderer", nw, 2)
	c.interpreters()
}

func (c *attrCheck) inLibrary(f *ssa.Function) bool {
	p := relPkg(f.Pkg.Pkg)
	return p != "cmd/libasciidoc" && p != "pkg/configuration"
}

// findFields: where the attributes of the configuration are stored.
func (c *attrCheck) findFields() {
	type st struct {
		name string
		base string
		val  ssa.Value
		pos  token.Pos
		f    *ssa.Function
	}
	var all []st
	for _, f := range c.w.Funcs {
		if !c.inLibrary(f) {
			continue
		}
		for _, in := range instrs(f) {
			s, ok := in.(*ssa.Store)
			if !ok || !isAttributes(s.Val.Type()) {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			n := fieldName(fa.X.Type(), fa.Field)
			p := strings.SplitN(n, ".", 2)[0]
			if p != "parser" && p != "sgml" {
				continue
			}
			all = append(all, st{n, typeName(deref(fa.X.Type())), s.Val, s.Pos(), f})
		}
	}
	// the tables which are written
	written := map[string]bool{}
	for _, f := range c.w.Funcs {
		for _, in := range instrs(f) {
			if m, _, ok := mapWrite(in); ok {
				written[mapField(m)] = true
			}
		}
	}
	// the caller's
	for changed := true; changed; {
		changed = false
		for _, s := range all {
			if from := c.from(s.val, 0); !c.caller[s.name] && (from == "caller" || from == "copy" && !written[s.name]) {
				c.caller[s.name] = true
				changed = true
			}
			if !c.mixed[s.name] && !c.caller[s.name] && c.from(s.val, 0) == "copy" {
				c.mixed[s.name] = true
				changed = true
			}
		}
	}
	// a copy of a field of the caller in the same field is still the caller's
	owner := map[string]bool{}
	for n := range c.caller {
		if n != configAttributes {
			owner[n[:strings.LastIndex(n, ".")]] = true
		}
	}
	for n := range c.caller {
		delete(c.mixed, n)
	}
	for _, s := range all {
		switch {
		case c.caller[s.name]:
			from := c.from(s.val, 0)
			c.r.Check("callers-kept", fnName(s.f)+" "+s.name, c.w.pos(s.pos), from == "caller" || from == "copy", "the attributes come from the caller")
		case c.mixed[s.name]:
			from := c.from(s.val, 0)
			c.r.Check("callers-kept", fnName(s.f)+" "+s.name, c.w.pos(s.pos), from == "copy", "the attributes start as a copy of those of the caller")
		case owner[s.base]:
			c.doc[s.name] = true
		}
	}
	for _, s := range all {
		if c.doc[s.name] {
			ok := false
			switch v := stripConv(s.val).(type) {
			case *ssa.MakeMap:
				ok = true
			case *ssa.Call:
				ok = len(v.Call.Args) > 0 && isClone(&v.Call) && c.doc[mapField(v.Call.Args[0])]
			}
			c.r.Check("document-only", fnName(s.f)+" "+s.name, c.w.pos(s.pos), ok, "the table starts empty, or with the attributes of the document")
		}
	}
	// updates of the configuration (by the library)
	for _, f := range c.w.Funcs {
		if !c.inLibrary(f) {
			continue
		}
		for _, in := range instrs(f) {
			m, k, ok := mapWrite(in)
			if !ok || !c.caller[mapField(m)] {
				continue
			}
			name := "?"
			if s, isC := constString(k); k != nil && isC {
				name = s
			}
			fine := name == "doctype" && mapField(m) == configAttributes // the manual pages with problems, see C26
			c.r.Check("callers-kept", fnName(f)+" "+mapField(m)+"["+name+"]", c.w.pos(in.Pos()), fine, "the attributes of the caller are not written")
		}
	}
}

func isClone(c *ssa.CallCommon) bool {
	n := callName(c)
	return strings.HasSuffix(n, ".Clone")
}

// mapWrite: an update of a map, or the removal of an entry.
func mapWrite(in ssa.Instruction) (m, k ssa.Value, ok bool) {
	switch in := in.(type) {
	case *ssa.MapUpdate:
		if isAttributes(in.Map.Type()) {
			return in.Map, in.Key, true
		}
	case *ssa.Call:
		b, isB := in.Call.Value.(*ssa.Builtin)
		if isB && b.Name() == "delete" && isAttributes(in.Call.Args[0].Type()) {
			return in.Call.Args[0], in.Call.Args[1], true
		}
		if isB && b.Name() == "clear" && isAttributes(in.Call.Args[0].Type()) {
			return in.Call.Args[0], nil, true
		}
	}
	return nil, nil, false
}

// from: "caller" if the map is the one of the caller, "copy" if it is a copy of it.
func (c *attrCheck) from(v ssa.Value, depth int) string {
	if depth > 6 {
		return ""
	}
	v = stripConv(v)
	if c.caller[mapField(v)] {
		return "caller"
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		f := v.Parent()
		i := paramIndex(f, v)
		res := ""
		for _, site := range c.w.callers[f] {
			a, ok := argFor(site, f, i)
			if !ok {
				return ""
			}
			x := c.from(a, depth+1)
			if x == "" || res != "" && res != x {
				return ""
			}
			res = x
		}
		return res
	case *ssa.Call:
		if len(v.Call.Args) > 0 && isClone(&v.Call) && c.from(v.Call.Args[0], depth+1) != "" {
			return "copy"
		}
		if callName(&v.Call) == "maps.Clone" && c.from(v.Call.Args[0], depth+1) != "" {
			return "copy"
		}
	case *ssa.MakeMap:
		// filled with those of the caller
		for _, u := range refs(v) {
			if call, ok := u.(*ssa.Call); ok && callName(&call.Call) == "maps.Copy" && len(call.Call.Args) == 2 && call.Call.Args[0] == ssa.Value(v) && c.from(call.Call.Args[1], depth+1) != "" {
				return "copy"
			}
			if mu, ok := u.(*ssa.MapUpdate); ok {
				if rg := rangeOf(mu.Key); rg != nil && c.from(rg.X, depth+1) != "" {
					return "copy"
				}
			}
		}
	}
	return ""
}

// rangeOf: the value is the key of an iteration over a map.
func rangeOf(v ssa.Value) *ssa.Range {
	e, ok := v.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return nil
	}
	n, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return nil
	}
	rg, _ := n.Iter.(*ssa.Range)
	return rg
}

// ---------------------------------------------------------------------------
// conditions: the caller did not set the name

// lacks: the condition means that the caller did not set the name.
func (c *attrCheck) lacks(f cond, key ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	f = f.norm()
	switch v := f.v.(type) {
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 1 {
			return !f.val && c.caller[mapField(l.X)] && sameKey(l.Index, key)
		}
		if call, ok := v.Tuple.(*ssa.Call); ok && !f.val && v.Index == 1 && len(call.Call.Args) == 2 && c.caller[mapField(call.Call.Args[0])] {
			return strings.HasPrefix(methodName(&call.Call), "Get") && sameKey(call.Call.Args[1], key)
		}
	case *ssa.BinOp:
		if v.Op == token.EQL && f.val || v.Op == token.NEQ && !f.val {
			// a comparison of booleans
			if b, ok := v.Y.(*ssa.Const); ok && b.Value != nil && b.Value.String() == "false" {
				return c.lacks(cond{v.X, false, f.at}, key, depth+1)
			}
		}
	case *ssa.Call:
		n := methodName(&v.Call)
		if n == "Has" && len(v.Call.Args) == 2 && c.caller[mapField(v.Call.Args[0])] {
			return !f.val && sameKey(v.Call.Args[1], key)
		}
		g := v.Call.StaticCallee()
		if g == nil || !c.w.inScopeFn(g) {
			return false
		}
		// a predicate
		for i, p := range g.Params {
			if i >= len(v.Call.Args) || !sameKey(v.Call.Args[i], key) {
				continue
			}
			all, n := true, 0
			for _, in := range instrs(g) {
				ret, ok := in.(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				n++
				if !c.lacksVia(g, ret, ret.Results[0], f.val, p, depth+1) {
					all = false
				}
			}
			return all && n > 0
		}
	}
	return false
}

func (c *attrCheck) lacksVia(g *ssa.Function, ret *ssa.Return, v ssa.Value, val bool, key ssa.Value, depth int) bool {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		if (k.Value.String() == "true") != val {
			return true // not this value
		}
		return c.guarded(ret.Block(), key)
	}
	if p, ok := v.(*ssa.Phi); ok {
		for i, x := range p.Edges {
			if k, ok := x.(*ssa.Const); ok && k.Value != nil && (k.Value.String() == "true") != val {
				continue
			}
			if c.lacksVia(g, ret, x, val, key, depth+1) || c.guarded(p.Block().Preds[i], key) {
				continue
			}
			return false
		}
		return true
	}
	return c.lacks(cond{v, val, nil}, key, depth) || c.guarded(ret.Block(), key)
}

func methodName(c *ssa.CallCommon) string {
	n := callName(c)
	return n[strings.LastIndex(n, ".")+1:]
}

func sameKey(a, b ssa.Value) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	x, ok1 := constString(a)
	y, ok2 := constString(b)
	if ok1 && ok2 {
		return x == y
	}
	// two loads of the same field
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
	}
	return false
}

// guarded: the block is only reached when the caller did not set the name.
func (c *attrCheck) guarded(b *ssa.BasicBlock, key ssa.Value) bool {
	for _, f := range factsAt(b) {
		if c.lacks(f, key, 0) {
			return true
		}
	}
	return false
}

// guardedAt: so it is, here or where the function is called.
func (c *attrCheck) guardedAt(in ssa.Instruction, key ssa.Value, depth int) bool {
	if key == nil {
		return false
	}
	if c.guarded(in.Block(), key) {
		return true
	}
	p, ok := key.(*ssa.Parameter)
	if !ok || depth > 3 {
		return false
	}
	f := p.Parent()
	i := paramIndex(f, p)
	sites := c.w.callers[f]
	if len(sites) == 0 || isAPI(f) {
		return false
	}
	for _, s := range sites {
		a, ok := argFor(s, f, i)
		if !ok || !c.guardedAt(s.(ssa.Instruction), a, depth+1) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// the renderer

func (c *attrCheck) writes(f *ssa.Function) int {
	n := 0
	for _, in := range instrs(f) {
		if m, k, ok := mapWrite(in); ok && c.mixed[mapField(m)] {
			n++
			c.r.Check("guarded", fnName(f)+" "+mapField(m), c.w.pos(in.Pos()), c.guardedAt(in, k, 0), "an attribute is set or removed when the caller did not set it")
			continue
		}
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		for i, a := range call.Common().Args {
			field := mapField(a)
			if !c.mixed[field] && !c.caller[field] {
				continue
			}
			if callName(call.Common()) == "maps.Copy" && i == 0 {
				c.r.Fail("guarded", fnName(f)+" "+field+" maps.Copy", c.w.pos(in.Pos()), "attributes are set without looking at those of the caller")
				continue
			}
			for _, g := range c.w.calleesOf(call) {
				if c.w.inScopeFn(g) && i < len(g.Params) && c.writesMap(g, i, 0) {
					key := ssa.Value(nil)
					if len(call.Common().Args) > i+1 && isText(call.Common().Args[i+1].Type()) {
						key = call.Common().Args[i+1]
					}
					ok := c.mixed[field] && c.guardedAt(in, key, 0)
					n++
					c.r.Check("guarded", fnName(f)+" "+field+" "+g.Name(), c.w.pos(in.Pos()), ok, "an attribute is set or removed when the caller did not set it")
				}
			}
		}
	}
	return n
}

// writesMap: the function writes in the map which is its parameter.
func (c *attrCheck) writesMap(g *ssa.Function, i int, depth int) bool {
	if depth > 3 || i >= len(g.Params) {
		return false
	}
	p := ssa.Value(g.Params[i])
	for _, in := range instrs(g) {
		if m, _, ok := mapWrite(in); ok && stripConv(m) == p {
			return true
		}
		if call, ok := in.(ssa.CallInstruction); ok {
			for j, a := range call.Common().Args {
				if stripConv(a) != p {
					continue
				}
				if callName(call.Common()) == "maps.Copy" && j == 0 {
					return true
				}
				if h := call.Common().StaticCallee(); h != nil && c.w.inScopeFn(h) && c.writesMap(h, j, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// the parser

type attrState struct {
	b, from *ssa.BasicBlock
	lacks   map[string]bool      // names which the caller did not set
	taint   map[ssa.Value]string // values of the document, by name
	maps    map[ssa.Value]int    // maps which were filled: 1 by the caller, 2 by the document last
}

func (s *attrState) clone() *attrState {
	t := &attrState{b: s.b, from: s.from, lacks: map[string]bool{}, taint: map[ssa.Value]string{}, maps: map[ssa.Value]int{}}
	for k, v := range s.lacks {
		t.lacks[k] = v
	}
	for k, v := range s.taint {
		t.taint[k] = v
	}
	for k, v := range s.maps {
		t.maps[k] = v
	}
	return t
}

func (s *attrState) id() string {
	var l []string
	for k, v := range s.lacks {
		l = append(l, fmt.Sprint("l", k, v))
	}
	for k, v := range s.taint {
		l = append(l, "t"+k.Name()+v)
	}
	for k, v := range s.maps {
		l = append(l, fmt.Sprint("m", k.Name(), v))
	}
	sort.Strings(l)
	from := -1
	if s.from != nil {
		from = s.from.Index
	}
	return fmt.Sprint(s.b.Index, from, l)
}

func keyName(v ssa.Value) string {
	if s, ok := constString(v); ok {
		return fmt.Sprintf("%q", s)
	}
	return v.Name()
}

// reads follows the attributes of the document which the function reads.
func (c *attrCheck) reads(f *ssa.Function) int {
	n := 0
	var pos token.Pos
	for _, in := range instrs(f) {
		for _, o := range in.Operands(nil) {
			if *o != nil && c.doc[mapField(*o)] {
				if _, ok := in.(*ssa.MapUpdate); ok {
					continue
				}
				n++
				pos = in.Pos()
			}
		}
	}
	if n == 0 {
		return 0
	}
	bad := ""
	seen := map[string]bool{}
	q := []*attrState{(&attrState{b: f.Blocks[0]}).clone()}
	for len(q) > 0 && bad == "" {
		s := q[len(q)-1]
		q = q[:len(q)-1]
		k := s.id()
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 4000 {
			bad = "too many paths"
		}
		if s.from != nil {
			pi := -1
			for i, p := range s.b.Preds {
				if p == s.from {
					pi = i
				}
			}
			nt := map[ssa.Value]string{}
			nm := map[ssa.Value]int{}
			var gone []ssa.Value
			for _, in := range s.b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				e := phi.Edges[pi]
				if t, ok := s.taint[e]; ok {
					nt[phi] = t
				}
				if m, ok := s.maps[e]; ok {
					nm[phi] = m
				}
				gone = append(gone, phi)
			}
			for _, g := range gone {
				delete(s.taint, g)
				delete(s.maps, g)
			}
			for v, t := range nt {
				s.taint[v] = t
			}
			for v, t := range nm {
				s.maps[v] = t
			}
		}
		ended := false
		for _, in := range s.b.Instrs {
			if b := c.readStep(f, s, in); b != "" {
				bad = b
				break
			}
			if _, ok := in.(*ssa.Return); ok {
				ended = true
			}
		}
		if bad != "" || ended {
			continue
		}
		br, isIf := lastInstr(s.b).(*ssa.If)
		for i, b := range s.b.Succs {
			t := s.clone()
			t.b, t.from = b, s.b
			if isIf {
				c.learn(t, cond{br.Cond, i == 0, nil}.norm(), i)
			}
			q = append(q, t)
		}
	}
	c.r.Check("caller-first", fnName(f), c.w.pos(pos), bad == "", bad)
	return n
}

// learn: what is known on a branch.
func (c *attrCheck) learn(s *attrState, f cond, succ int) {
	// the end of an iteration over the attributes of the caller
	if e, ok := f.v.(*ssa.Extract); ok && e.Index == 0 && !f.val {
		if nx, ok := e.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && c.caller[mapField(rg.X)] {
				for _, u := range instrs(nx.Parent()) {
					mu, ok := u.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					if r2 := rangeOf(mu.Key); r2 == rg && c.eachIteration(mu, nx) {
						if ex, ok := mu.Value.(*ssa.Extract); ok && ex.Tuple == ssa.Value(nx) {
							s.maps[stripConv(mu.Map)] = 1
						}
					}
				}
			}
		}
	}
	// names looked up in the attributes of the caller
	var keys []ssa.Value
	switch v := f.v.(type) {
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup:
			keys = append(keys, t.Index)
		case *ssa.Call:
			keys = append(keys, t.Call.Args...)
		}
	case *ssa.Call:
		keys = append(keys, v.Call.Args...)
	}
	for _, k := range keys {
		if isText(k.Type()) && c.lacks(f, k, 0) {
			s.lacks[keyName(k)] = true
		}
	}
}

// eachIteration: the update is made by each iteration.
func (c *attrCheck) eachIteration(mu *ssa.MapUpdate, nx *ssa.Next) bool {
	for _, p := range nx.Block().Preds {
		if nx.Block().Dominates(p) && !mu.Block().Dominates(p) {
			return false
		}
	}
	return true
}

func (c *attrCheck) readStep(f *ssa.Function, s *attrState, in ssa.Instruction) string {
	at := func() string { return " at " + c.w.pos(in.Pos()) }
	var m string
	switch in := in.(type) {
	case *ssa.Lookup:
		if m = mapField(in.X); c.doc[m] {
			s.taint[in] = keyName(in.Index)
		} else if k, ok := s.maps[stripConv(in.X)]; ok && k == 2 {
			s.taint[in] = keyName(in.Index)
		}
	case *ssa.Extract:
		if t, ok := s.taint[in.Tuple]; ok {
			s.taint[in] = t
		}
	case *ssa.Phi:
	case *ssa.MakeInterface:
		c.pass(s, in, in.X)
	case *ssa.ChangeInterface:
		c.pass(s, in, in.X)
	case *ssa.ChangeType:
		c.pass(s, in, in.X)
		if k, ok := s.maps[in.X]; ok {
			s.maps[in] = k
		}
	case *ssa.Convert:
		c.pass(s, in, in.X)
	case *ssa.TypeAssert:
		c.pass(s, in, in.X)
	case *ssa.BinOp:
		c.pass(s, in, in.X)
		c.pass(s, in, in.Y)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if a, ok := in.X.(*ssa.Alloc); ok {
				delete(s.taint, in)
				c.pass(s, in, a)
			}
			break
		}
		c.pass(s, in, in.X)
	case *ssa.Store:
		if a, ok := in.Addr.(*ssa.Alloc); ok {
			if t, ok := s.taint[in.Val]; ok {
				s.taint[a] = t
			} else {
				delete(s.taint, a)
			}
			break
		}
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && c.doc[fieldName(fa.X.Type(), fa.Field)] {
			break
		}
		if t, ok := s.taint[in.Val]; ok && !s.lacks[t] {
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if _, ok := ia.X.(*ssa.Alloc); ok {
					break // the arguments of a variadic function
				}
			}
			return "the value of the document for " + t + " is kept" + at() + " although the caller may have set it"
		}
		if c.doc[mapField(in.Val)] {
			return "the attributes of the document are kept elsewhere" + at()
		}
	case *ssa.MapUpdate:
		dst := stripConv(in.Map)
		if c.doc[mapField(dst)] {
			break
		}
		if rg := rangeOf(in.Key); rg != nil && c.doc[mapField(rg.X)] {
			if c.guarded(in.Block(), in.Key) || s.maps[dst] == 1 && absent(in, dst) {
				break
			}
			s.maps[dst] = 2
		}
	case *ssa.Return:
		for _, v := range in.Results {
			if t, ok := s.taint[v]; ok && !s.lacks[t] {
				return "the value of the document for " + t + " is returned" + at() + " although the caller may have set it"
			}
			if s.maps[stripConv(v)] == 2 {
				return "the attributes of the document replace those of the caller in what is returned" + at()
			}
			if c.doc[mapField(v)] {
				return "the attributes of the document are returned" + at() + " without those of the caller"
			}
		}
	case ssa.CallInstruction:
		com := in.Common()
		if isLog(com) || strings.Contains(callName(com), "go-spew") {
			break
		}
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "delete", "clear":
				return ""
			}
		}
		if callName(com) == "maps.Copy" {
			dst := stripConv(com.Args[0])
			if c.doc[mapField(com.Args[1])] && !c.doc[mapField(dst)] {
				s.maps[dst] = 2
			}
			if c.caller[mapField(com.Args[1])] {
				s.maps[dst] = 1
			}
			break
		}
		for i, a := range com.Args {
			if !c.doc[mapField(a)] {
				continue
			}
			if isClone(com) || callName(com) == "maps.Clone" {
				if in.Value() != nil {
					stored := len(refs(in.Value())) > 0
					for _, u := range refs(in.Value()) {
						st, ok := u.(*ssa.Store)
						if !ok {
							stored = false
							continue
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						stored = stored && ok && c.doc[fieldName(fa.X.Type(), fa.Field)]
					}
					if !stored {
						s.maps[in.Value()] = 2
					}
				}
				continue
			}
			g := com.StaticCallee()
			key := ssa.Value(nil)
			if len(com.Args) > i+1 && isText(com.Args[i+1].Type()) {
				key = com.Args[i+1]
			}
			switch {
			case g != nil && c.w.inScopeFn(g) && c.writesMap(g, i, 0):
			case g != nil && key != nil && in.Value() != nil:
				s.taint[in.Value()] = keyName(key)
			case g != nil && c.w.inScopeFn(g) && in.Value() != nil:
				s.taint[in.Value()] = "any name"
			default:
				return "the attributes of the document are given to " + callName(com) + at()
			}
		}
		if v := in.Value(); v != nil {
			for _, a := range com.Args {
				c.pass(s, v, a)
			}
		}
	}
	return ""
}

// absent: the update is made when the map has no such entry.
func absent(mu *ssa.MapUpdate, dst ssa.Value) bool {
	for _, f := range factsAt(mu.Block()) {
		f = f.norm()
		if e, ok := f.v.(*ssa.Extract); ok && !f.val && e.Index == 1 {
			if l, ok := e.Tuple.(*ssa.Lookup); ok && stripConv(l.X) == dst && l.Index == mu.Key {
				return true
			}
		}
	}
	return false
}

func (c *attrCheck) pass(s *attrState, v, x ssa.Value) {
	if t, ok := s.taint[x]; ok {
		s.taint[v] = t
	}
}

// ---------------------------------------------------------------------------
// functions which interpret declarations

// interpreters: functions which compare the name of a declaration (or of a reset) with a constant.
func (c *attrCheck) interpreters() {
	n := 0
	interpreters, where := map[*ssa.Function][]string{}, map[*ssa.Function]token.Pos{}
	for _, f := range c.w.Funcs {
		if !c.inLibrary(f) || c.w.isGenerated(f) {
			continue
		}
		names := map[string]bool{}
		var pos token.Pos
		for _, in := range instrs(f) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				continue
			}
			x, y := b.X, b.Y
			if _, ok := constString(x); ok {
				x, y = y, x
			}
			k, ok := constString(y)
			if !ok {
				continue
			}
			u, ok := x.(*ssa.UnOp)
			if !ok {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			switch fieldName(fa.X.Type(), fa.Field) {
			case "types.AttributeDeclaration.Name", "types.AttributeReset.Name":
				names[k] = true
				pos = b.Pos()
			}
		}
		if len(names) == 0 {
			continue
		}
		n++
		var list []string
		for k := range names {
			list = append(list, k)
		}
		sort.Strings(list)
		bad := c.interprets(f, list, 0, map[*ssa.Function]bool{})
		c.r.Check("interpreted", fnName(f)+" "+strings.Join(list, " "), c.w.pos(pos), bad == "", bad)
		interpreters[f] = list
		where[f] = pos
	}
	// what a declaration in the document does, an attribute set by the caller does too
	for f, list := range interpreters {
		if c.valueRead(f) {
			continue // the values are copied to the tables, see the rule `interpreted`
		}
		found := false
		for _, g := range c.w.Funcs {
			if c.inLibrary(g) && !found {
				found = c.consults(g, list, 0) && !c.onlyWithDeclaration(g, list)
			}
		}
		c.r.Check("honoured", fnName(f)+" "+strings.Join(list, " "), c.w.pos(where[f]), found, "no function reads the attribute which the caller set: only the declarations of the document have an effect")
	}
	c.r.Floor("functions which interpret declarations", n, 2)
}

// interprets tells where the function is used although the caller may have set the attributes.
func (c *attrCheck) interprets(f *ssa.Function, names []string, depth int, seen map[*ssa.Function]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	if !c.valueRead(f) && c.consults(f, names, 0) {
		return "" // the attributes are read from the tables
	}
	if depth > 5 || isAPI(f) && relPkg(f.Pkg.Pkg) == "" {
		return "used by " + fnName(f) + " whatever the caller set"
	}
	sites := c.w.callers[f]
	for _, s := range sites {
		g := s.Parent()
		if !c.inLibrary(g) {
			continue
		}
		if g == f {
			continue
		}
		in := s.(ssa.Instruction)
		guarded := true
		for _, k := range names {
			ok := false
			for _, fact := range factsAt(in.Block()) {
				ok = ok || c.lacksConst(fact, k)
			}
			guarded = guarded && ok
		}
		if guarded || c.consults(g, names, 0) || c.onlyGuardedWrites(s) {
			continue
		}
		// it forwards what it finds?
		if bad := c.interprets(g, names, depth+1, seen); bad != "" {
			return bad
		}
		if len(c.w.callers[g]) == 0 {
			return "used by " + fnName(g) + " whatever the caller set"
		}
	}
	return ""
}

// valueRead: the function reads the value of declarations.
func (c *attrCheck) valueRead(f *ssa.Function) bool {
	for _, in := range instrs(f) {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != "types.AttributeDeclaration.Value" {
			continue
		}
		for _, u := range refs(fa) {
			ld, ok := u.(*ssa.UnOp)
			if !ok {
				continue
			}
			for _, x := range refs(ld) {
				if call, ok := x.(ssa.CallInstruction); ok && c.storesValue(call) {
					continue
				}
				return true
			}
		}
	}
	return false
}

// storesValue: the call sets an attribute, or computes the new value of the declaration.
func (c *attrCheck) storesValue(call ssa.CallInstruction) bool {
	if g := call.Common().StaticCallee(); g != nil && c.setsAttribute(g) {
		return true
	}
	v := call.Value()
	if v == nil {
		return false
	}
	results := []ssa.Value{v}
	if _, ok := v.Type().(*types.Tuple); ok {
		results = nil
		for _, u := range refs(v) {
			if e, ok := u.(*ssa.Extract); ok && !isErrorType(e.Type()) {
				results = append(results, e)
			}
		}
	}
	for _, x := range results {
		for _, u := range refs(x) {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				fa, ok := u.Addr.(*ssa.FieldAddr)
				if !ok || u.Val != x || fieldName(fa.X.Type(), fa.Field) != "types.AttributeDeclaration.Value" {
					return false
				}
			case ssa.CallInstruction:
				if g := u.Common().StaticCallee(); g == nil || !c.setsAttribute(g) {
					return false
				}
			default:
				return false
			}
		}
	}
	return len(results) > 0
}

// setsAttribute: the function sets an attribute in a table.
func (c *attrCheck) setsAttribute(g *ssa.Function) bool {
	for _, h := range withClosures(g) {
		for _, in := range instrs(h) {
			if m, _, ok := mapWrite(in); ok && (c.doc[mapField(m)] || c.mixed[mapField(m)]) {
				return true
			}
			if call, ok := in.(*ssa.Call); ok {
				if k := call.Call.StaticCallee(); k != nil && k != g && c.w.inScopeFn(k) && c.setsTable(k) {
					return true
				}
			}
		}
	}
	return false
}

func (c *attrCheck) setsTable(g *ssa.Function) bool {
	for _, in := range instrs(g) {
		if m, _, ok := mapWrite(in); ok && (c.doc[mapField(m)] || c.mixed[mapField(m)]) {
			return true
		}
	}
	return false
}

// lacksConst: the condition means that the caller did not set the name.
func (c *attrCheck) lacksConst(f cond, k string) bool {
	f = f.norm()
	var keys []ssa.Value
	switch v := f.v.(type) {
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup:
			keys = append(keys, t.Index)
		case *ssa.Call:
			keys = append(keys, t.Call.Args...)
		}
	case *ssa.Call:
		keys = append(keys, v.Call.Args...)
		// a predicate about some names
		if g := v.Call.StaticCallee(); g != nil && c.w.inScopeFn(g) && methodName(&v.Call) != "Has" {
			all, n := true, 0
			for _, in := range instrs(g) {
				ret, ok := in.(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				n++
				if !c.predicateConst(ret.Results[0], f.val, k, ret.Block(), 0) {
					all = false
				}
			}
			if all && n > 0 {
				return true
			}
		}
	}
	for _, key := range keys {
		if s, ok := constString(key); ok && s == k && c.lacks(f, key, 0) {
			return true
		}
	}
	if p, ok := f.v.(*ssa.Phi); ok {
		return c.predicateConst(p, f.val, k, p.Block(), 0)
	}
	return false
}

func (c *attrCheck) predicateConst(v ssa.Value, val bool, k string, b *ssa.BasicBlock, depth int) bool {
	if depth > 5 {
		return false
	}
	for _, f := range factsAt(b) {
		if _, ok := f.v.(*ssa.Phi); !ok && c.lacksConst(f, k) {
			return true
		}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && (v.Value.String() == "true") != val
	case *ssa.Phi:
		for i, x := range v.Edges {
			pred := v.Block().Preds[i]
			ok := c.predicateConst(x, val, k, pred, depth+1)
			if !ok {
				if br, isIf := lastInstr(pred).(*ssa.If); isIf {
					ok = c.lacksConst(cond{br.Cond, pred.Succs[0] == v.Block(), nil}, k)
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return c.lacksConst(cond{v, val, nil}, k)
}

// consults: the function reads one of the attributes from a table in which the caller wins.
func (c *attrCheck) consults(f *ssa.Function, names []string, depth int) bool {
	for _, in := range instrs(f) {
		if c.consult(in, names) {
			return true
		}
	}
	return false
}

// consult: the instruction reads one of the attributes where the caller sets them.
func (c *attrCheck) consult(in ssa.Instruction, names []string) bool {
	var m, k ssa.Value
	switch in := in.(type) {
	case *ssa.Lookup:
		m, k = in.X, in.Index
	case *ssa.Call:
		com := &in.Call
		if com.IsInvoke() || len(com.Args) < 2 {
			return false
		}
		m, k = com.Args[0], com.Args[1]
		if g := com.StaticCallee(); g != nil && c.w.inScopeFn(g) && c.readsTable(g) && c.namesOne(k, names, 0) {
			return true
		}
	default:
		return false
	}
	n := mapField(m)
	return (c.caller[n] || c.mixed[n]) && c.namesOne(k, names, 0)
}

// onlyWithDeclaration: the attributes are read after a declaration with their names was found.
func (c *attrCheck) onlyWithDeclaration(f *ssa.Function, names []string) bool {
	for _, in := range instrs(f) {
		if !c.consult(in, names) {
			continue
		}
		after := false
		for _, fact := range factsAt(in.Block()) {
			b, ok := fact.v.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || fact.val != (b.Op == token.EQL) {
				continue
			}
			if c.namesOne(b.X, names, 0) || c.namesOne(b.Y, names, 0) {
				after = true
			}
		}
		if !after {
			return false
		}
	}
	return true
}

// readsTable: the function reads the attributes of the caller.
func (c *attrCheck) readsTable(g *ssa.Function) bool { return c.readsTableVia(g, 0) }

func (c *attrCheck) readsTableVia(g *ssa.Function, depth int) bool {
	for _, in := range instrs(g) {
		switch in := in.(type) {
		case *ssa.Lookup:
			if n := mapField(in.X); c.caller[n] || c.mixed[n] {
				return true
			}
		case *ssa.Call:
			for _, a := range in.Call.Args {
				if n := mapField(a); c.caller[n] || c.mixed[n] {
					return true
				}
			}
			if h := in.Call.StaticCallee(); h != nil && depth < 2 && c.w.inScopeFn(h) && isAttributes(in.Type()) && c.readsTableVia(h, depth+1) {
				return true
			}
		case *ssa.Range:
			if n := mapField(in.X); c.caller[n] || c.mixed[n] {
				return true
			}
		}
	}
	return false
}

func (c *attrCheck) namesOne(k ssa.Value, names []string, depth int) bool {
	if depth > 5 || k == nil {
		return false
	}
	if s, ok := constString(k); ok {
		for _, n := range names {
			if s == n {
				return true
			}
		}
		return false
	}
	switch v := k.(type) {
	case *ssa.Phi:
		for _, x := range v.Edges {
			if c.namesOne(x, names, depth+1) {
				return true
			}
		}
	case *ssa.BinOp:
		return c.namesOne(v.X, names, depth+1)
	case *ssa.Call:
		for _, a := range v.Call.Args {
			if c.namesOne(a, names, depth+1) {
				return true
			}
		}
	}
	return false
}

// onlyGuardedWrites: what is found is only used to set attributes, if the caller did not.
func (c *attrCheck) onlyGuardedWrites(s ssa.CallInstruction) bool {
	v := s.Value()
	if v == nil {
		return false
	}
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value, depth int) bool
	only = func(v ssa.Value, depth int) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, u := range refs(v) {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if !isNilConst(u.X) && !isNilConst(u.Y) {
					return false
				}
			case *ssa.Phi:
				if !only(u, depth) {
					return false
				}
			case *ssa.ChangeType:
				if !only(u, depth) {
					return false
				}
			case ssa.CallInstruction:
				g := u.Common().StaticCallee()
				if g == nil || !c.w.inScopeFn(g) {
					return false
				}
				if c.setsAttribute(g) {
					continue
				}
				if uv := u.Value(); uv != nil && isAttributes(uv.Type()) && depth < 3 {
					if !only(uv, depth+1) {
						return false
					}
					continue
				}
				return false
			default:
				return false
			}
		}
		return true
	}
	return only(v, 0)
}
