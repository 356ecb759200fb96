package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A prover of differences: x - y <= c, for integers and lengths of slices and strings at a place of a function, from the
// conditions which are tested on the way, the definitions of the values, and (by induction) the edges of loops.
// What it cannot prove within a function it tries in every caller, or in what the called functions return.

type bterm struct {
	k byte // 'z' zero, 'v' the value of an integer, 'l' the length
	v ssa.Value
}

type bexpr struct {
	t   bterm
	off int64
}

type bounds struct {
	w        *World
	canonOf  map[ssa.Value]ssa.Value
	mods     map[string]map[*ssa.Function]bool
	steps    int
	mayBeNil map[nilKey]bool
	asked    []nilKey
	reach    map[*ssa.Function]bool
	madeOf   map[string][]*ssa.Alloc
	storesTo map[string][]*ssa.Store
	elems    bool // elements of lists are not nil
	closures map[ssa.Value][]*ssa.MakeClosure
	exempt   func(f *ssa.Function) bool
	atLeast  map[string]int64 // invariants of fields and of types
}

func newBounds(w *World) *bounds {
	return &bounds{w: w, canonOf: map[ssa.Value]ssa.Value{}, mods: map[string]map[*ssa.Function]bool{}}
}

// memKey describes what an address denotes: a field of a value, an element of a list, a variable.
func (p *bounds) memKey(a ssa.Value) (key string, kind string) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%p.%d", p.canon(a.X), a.Field), "f:" + fieldName(a.X.Type(), a.Field)
	case *ssa.IndexAddr:
		i := p.norm(a.Index)
		return fmt.Sprintf("%p[%p+%d]", p.canon(a.X), i.t.v, i.off), "e:" + types.TypeString(deref(a.Type()), nil)
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return fmt.Sprintf("%p", a), "v:" + fmt.Sprintf("%p", a)
	case *ssa.Parameter:
		return fmt.Sprintf("%p", a), "p:" + typeName(a.Type())
	}
	return "", ""
}

// changes: the instruction may change memory of the kind.
func (p *bounds) changes(in ssa.Instruction, kind string) bool {
	switch in := in.(type) {
	case *ssa.Store:
		_, k := p.memKey(in.Addr)
		if k == kind {
			return true
		}
		if al, ok := in.Addr.(*ssa.FreeVar); ok && strings.HasPrefix(kind, "v:") && al != nil {
			return true
		}
		// a whole value is stored
		if _, ok := in.Val.Type().Underlying().(*types.Struct); ok && strings.HasPrefix(kind, "f:"+typeName(in.Val.Type())+".") {
			return true
		}
	case ssa.CallInstruction:
		for _, g := range p.w.calleesOf(in) {
			if p.w.inScopeFn(g) && p.mayChange(g, kind) {
				return true
			}
		}
		if strings.HasPrefix(kind, "v:") { // closures which know the variable
			for _, g := range in.Parent().AnonFuncs {
				if p.mayChange(g, "v:") {
					return true
				}
			}
		}
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "copy" && strings.HasPrefix(kind, "e:") {
			return true
		}
	}
	return false
}

func (p *bounds) mayChange(g *ssa.Function, kind string) bool {
	m := p.mods[kind]
	if m == nil {
		m = map[*ssa.Function]bool{}
		p.mods[kind] = m
		// every function which stores, and those which call them
		direct := map[*ssa.Function]bool{}
		for _, f := range p.w.Funcs {
			for _, in := range instrs(f) {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				k := ""
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					k = "f:" + fieldName(a.X.Type(), a.Field)
				case *ssa.IndexAddr:
					k = "e:" + types.TypeString(deref(a.Type()), nil)
				case *ssa.FreeVar:
					k = "v:"
				case *ssa.Parameter:
					k = "p:" + typeName(a.Type())
				}
				if k == kind {
					direct[f] = true
				}
			}
		}
		var work []*ssa.Function
		for f := range direct {
			m[f] = true
			work = append(work, f)
		}
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			for _, c := range p.w.callers[f] {
				if u := c.Parent(); !m[u] {
					m[u] = true
					work = append(work, u)
				}
			}
		}
	}
	return m[g]
}

// unchanged: no way from a to b (which does not pass a again) changes memory of the kind.
func (p *bounds) unchanged(a, b ssa.Instruction, kind string) bool {
	after := func(x ssa.Instruction) []ssa.Instruction { return x.Block().Instrs }
	idx := func(x ssa.Instruction) int {
		for i, y := range after(x) {
			if y == x {
				return i
			}
		}
		return -1
	}
	ab, ai, bb, bi := a.Block(), idx(a), b.Block(), idx(b)
	if ab == bb && ai < bi {
		for _, x := range ab.Instrs[ai+1 : bi] {
			if p.changes(x, kind) {
				return false
			}
		}
		return true
	}
	// blocks on ways from a to b
	fwd := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, ab.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if fwd[x] || x == ab {
			continue
		}
		fwd[x] = true
		work = append(work, x.Succs...)
	}
	bwd := map[*ssa.BasicBlock]bool{}
	work = append([]*ssa.BasicBlock{}, bb.Preds...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if bwd[x] || x == ab {
			continue
		}
		bwd[x] = true
		work = append(work, x.Preds...)
	}
	for _, x := range ab.Instrs[ai+1:] {
		if p.changes(x, kind) {
			return false
		}
	}
	for x := range fwd {
		if bwd[x] {
			for _, in := range x.Instrs {
				if p.changes(in, kind) {
					return false
				}
			}
		}
	}
	for _, x := range bb.Instrs[:bi] {
		if p.changes(x, kind) {
			return false
		}
	}
	return true
}

// canon: one of the values which are equal to the value.
func (p *bounds) canon(v ssa.Value) ssa.Value {
	if c, ok := p.canonOf[v]; ok {
		return c
	}
	p.canonOf[v] = v
	c := p.canon0(v)
	p.canonOf[v] = c
	return c
}

func (p *bounds) canon0(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return p.canon(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return v
		}
		key, kind := p.memKey(x.X)
		if key == "" {
			return v
		}
		var best ssa.Value = v
		var at ssa.Instruction = x
		for _, in := range instrs(x.Parent()) {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in == x || in.Op != token.MUL || !dominatesInstr(in, x) {
					continue
				}
				if k, _ := p.memKey(in.X); k == key && p.unchanged(in, x, kind) && (at == ssa.Instruction(x) || dominatesInstr(in, at)) {
					best, at = in, in
				}
			case *ssa.Store:
				if !dominatesInstr(in, x) {
					continue
				}
				if k, _ := p.memKey(in.Addr); k == key && p.unchanged(in, x, kind) {
					return p.canon(in.Val)
				}
			}
		}
		if best != v {
			return p.canon(best)
		}
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return p.sameAssert(v, t)
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return p.sameAssert(v, x)
		}
	}
	return v
}

// sameAssert: the value of an earlier assertion of the same value to the same type.
func (p *bounds) sameAssert(v ssa.Value, t *ssa.TypeAssert) ssa.Value {
	x := p.canon(t.X)
	for _, in := range instrs(t.Parent()) {
		u, ok := in.(*ssa.TypeAssert)
		if !ok || u == t || !types.Identical(u.AssertedType, t.AssertedType) || p.canon(u.X) != x || !dominatesInstr(u, t) {
			continue
		}
		if !u.CommaOk {
			return u
		}
		for _, r := range refs(u) {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
				return e
			}
		}
	}
	return v
}

// norm: the integer as a term and an offset.
func (p *bounds) norm(v ssa.Value) bexpr {
	if n, ok := constInt(v); ok {
		return bexpr{bterm{k: 'z'}, n}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if n, ok := constInt(x.Y); ok {
				e := p.norm(x.X)
				if x.Op == token.SUB {
					n = -n
				}
				e.off += n
				return e
			}
			if n, ok := constInt(x.X); ok && x.Op == token.ADD {
				e := p.norm(x.Y)
				e.off += n
				return e
			}
		}
	case *ssa.Convert:
		if basicClass(x.X.Type()) == "int" && basicClass(x.Type()) == "int" {
			return p.norm(x.X)
		}
	case *ssa.ChangeType:
		return p.norm(x.X)
	case *ssa.Call:
		if s := lengthOf(v); s != nil {
			return p.length(s)
		}
	}
	return bexpr{bterm{'v', p.canon(v)}, 0}
}

func (p *bounds) length(s ssa.Value) bexpr {
	s = p.canon(s)
	switch x := s.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return bexpr{bterm{k: 'z'}, 0}
		}
		if x.Value.Kind() == constant.String {
			return bexpr{bterm{k: 'z'}, int64(len(constant.StringVal(x.Value)))}
		}
	case *ssa.MakeSlice:
		return p.norm(x.Len)
	case *ssa.Slice:
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && x.High == nil {
			n := a.Len()
			if x.Low != nil {
				l, ok := constInt(x.Low)
				if !ok {
					break
				}
				n -= l
			}
			return bexpr{bterm{k: 'z'}, n}
		}
		var e bexpr
		if x.High == nil {
			if _, isArr := deref(x.X.Type()).Underlying().(*types.Array); isArr {
				break
			}
			e = p.length(x.X)
		} else {
			e = p.norm(x.High)
		}
		if x.Low != nil {
			l := p.norm(x.Low)
			if l.t.k != 'z' {
				if l.t == e.t {
					return bexpr{bterm{k: 'z'}, e.off - l.off}
				}
				break
			}
			e.off -= l.off
		}
		return e
	case *ssa.Convert:
		if isByteSlice(x.Type()) && basicClass(x.X.Type()) == "string" || basicClass(x.Type()) == "string" && isByteSlice(x.X.Type()) {
			return p.length(x.X)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// a known number of elements is added
			if n := p.length(x.Call.Args[1]); n.t.k == 'z' {
				e := p.length(x.Call.Args[0])
				e.off += n.off
				return e
			}
			if n := p.length(x.Call.Args[0]); n.t.k == 'z' {
				e := p.length(x.Call.Args[1])
				e.off += n.off
				return e
			}
		}
	}
	return bexpr{bterm{'l', s}, 0}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

type bedge struct {
	a, b bterm
	c    int64 // a - b <= c
}

// constraints from the conditions
func (p *bounds) fromFacts(facts []cond) (res []bedge, neq []bexpr) {
	le := func(x, y bexpr, c int64) { res = append(res, bedge{x.t, y.t, c - x.off + y.off}) }
	for _, f := range facts {
		f = f.norm()
		switch v := f.v.(type) {
		case *ssa.BinOp:
			op := v.Op
			if !f.val {
				switch op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					op = negOp(op)
				default:
					continue
				}
			}
			if basicClass(v.X.Type()) == "string" { // compared with a constant
				x, k := v.X, v.Y
				if _, ok := constString(x); ok {
					x, k = k, x
				}
				s, ok := constString(k)
				if !ok {
					continue
				}
				l := p.length(x)
				n := bexpr{bterm{k: 'z'}, int64(len(s))}
				if op == token.EQL {
					le(l, n, 0)
					le(n, l, 0)
				} else if op == token.NEQ && s == "" {
					le(bexpr{bterm{k: 'z'}, 1}, l, 0)
				}
				continue
			}
			if basicClass(v.X.Type()) != "int" {
				if _, ok := v.X.Type().Underlying().(*types.Slice); ok && op == token.EQL && isNilConst(v.Y) {
					le(p.length(v.X), bexpr{t: bterm{k: 'z'}}, 0)
				}
				continue
			}
			x, y := p.norm(v.X), p.norm(v.Y)
			switch op {
			case token.LSS:
				le(x, y, -1)
			case token.LEQ:
				le(x, y, 0)
			case token.GTR:
				le(y, x, -1)
			case token.GEQ:
				le(y, x, 0)
			case token.EQL:
				le(x, y, 0)
				le(y, x, 0)
			case token.NEQ:
				if y.t.k == 'z' {
					neq = append(neq, bexpr{x.t, y.off - x.off}) // x.t != off
				} else if x.t.k == 'z' {
					neq = append(neq, bexpr{y.t, x.off - y.off})
				}
			}
		case *ssa.Call:
			g := v.Call.StaticCallee()
			if g == nil || !f.val || g.Pkg == nil || len(v.Call.Args) < 2 {
				continue
			}
			if pk := g.Pkg.Pkg.Path(); pk == "strings" || pk == "bytes" {
				switch g.Name() {
				case "HasPrefix", "HasSuffix", "Contains":
					le(p.length(v.Call.Args[1]), p.length(v.Call.Args[0]), 0)
				}
			}
		}
	}
	return res, neq
}

// structural constraints of a term
func (p *bounds) fromTerm(t bterm) (res []bedge) {
	z := bterm{k: 'z'}
	le := func(x, y bexpr, c int64) { res = append(res, bedge{x.t, y.t, c - x.off + y.off}) }
	me := bexpr{t: t}
	zero := bexpr{t: z}
	switch t.k {
	case 'l':
		res = append(res, bedge{z, t, 0})
		if n, ok := p.least(t.v); ok {
			res = append(res, bedge{z, t, -n})
		}
		c, ok := t.v.(*ssa.Call)
		if !ok {
			if s, ok := t.v.(*ssa.Slice); ok { // s[l:h]
				if s.High == nil {
					le(me, p.length(s.X), 0)
				} else {
					le(me, p.norm(s.High), 0)
				}
			}
			return
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			le(p.length(c.Call.Args[0]), me, 0)
			le(p.length(c.Call.Args[1]), me, 0)
		}
		if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil {
			switch g.Pkg.Pkg.Path() + "." + g.Name() {
			case "strings.Split":
				if s, ok := constString(c.Call.Args[1]); ok && s != "" {
					le(bexpr{z, 1}, me, 0)
				}
			case "strings.SplitN":
				s, ok := constString(c.Call.Args[1])
				if n, ok2 := constInt(c.Call.Args[2]); ok && ok2 && s != "" && n > 0 {
					le(bexpr{z, 1}, me, 0)
					le(me, bexpr{z, n}, 0)
				}
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatBool", "strconv.Quote":
				le(bexpr{z, 1}, me, 0)
			case "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimLeftFunc", "strings.TrimRightFunc", "bytes.TrimSpace", "path/filepath.Ext", "path.Ext":
				le(me, p.length(c.Call.Args[0]), 0)
			}
		}
	case 'v':
		if n, ok := p.least(t.v); ok {
			res = append(res, bedge{z, t, -n})
		}
		switch x := t.v.(type) {
		case *ssa.Extract:
			if n, ok := x.Tuple.(*ssa.Next); ok && n.IsString && x.Index == 1 {
				le(zero, me, 0)
				if r, ok := n.Iter.(*ssa.Range); ok {
					le(me, p.length(r.X), -1)
				}
			}
		case *ssa.Convert:
			if c, ok := x.X.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Pkg != nil && c.Call.StaticCallee().Pkg.Pkg.Path() == "math" && c.Call.StaticCallee().Name() == "Min" {
				for _, a := range c.Call.Args {
					if k, ok := a.(*ssa.Convert); ok {
						le(me, p.norm(k.X), 0)
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "copy":
					le(zero, me, 0)
					le(me, p.length(x.Call.Args[0]), 0)
					le(me, p.length(x.Call.Args[1]), 0)
				case "cap":
					le(p.length(x.Call.Args[0]), me, 0)
				case "min":
					for _, a := range x.Call.Args {
						le(me, p.norm(a), 0)
					}
				case "max":
					for _, a := range x.Call.Args {
						le(p.norm(a), me, 0)
					}
				}
			}
			if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil {
				switch pk := g.Pkg.Pkg.Path(); {
				case pk == "strings" || pk == "bytes":
					switch n := g.Name(); {
					case strings.HasPrefix(n, "Index") || strings.HasPrefix(n, "LastIndex"):
						le(bexpr{z, -1}, me, 0)
						c := int64(-1)
						if n == "Index" || n == "LastIndex" {
							if l := p.length(x.Call.Args[1]); l.t.k == 'z' {
								c = -l.off
							} else {
								c = 0
							}
						}
						if c <= -1 {
							// -1 is never beyond either
							le(me, p.length(x.Call.Args[0]), -1)
							// when it was found: see found
						} else {
							le(me, p.length(x.Call.Args[0]), 0)
						}
					case n == "Count":
						le(zero, me, 0)
					}
				case pk == "unicode/utf8" && strings.HasPrefix(g.Name(), "RuneCount"):
					le(zero, me, 0)
					le(me, p.length(x.Call.Args[0]), 0)
				}
			}
		case *ssa.BinOp:
			if x.Op == token.REM {
				if n, ok := constInt(x.Y); ok && n > 0 {
					le(me, bexpr{z, n - 1}, 0)
					le(bexpr{z, -(n - 1)}, me, 0)
				}
			}
			if x.Op == token.SUB { // x - y, y >= 0 when it is a length
				if y := p.norm(x.Y); y.t.k == 'l' && y.off >= 0 {
					le(me, p.norm(x.X), 0)
				}
			}
			if x.Op == token.AND {
				if n, ok := constInt(x.Y); ok && n >= 0 {
					le(zero, me, 0)
					le(me, bexpr{z, n}, 0)
				}
			}
		}
	}
	return res
}

// least: the invariant of the field or of the type which the value comes from: the least number, or the least length.
func (p *bounds) least(v ssa.Value) (int64, bool) {
	if n, ok := p.atLeast[typeName(v.Type())]; ok {
		if _, isU := v.(*ssa.UnOp); isU {
			return n, true
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		if c, ok := e.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
			n, ok := p.atLeast[fmt.Sprintf("%s#%d", fnName(c.Call.StaticCallee()), e.Index)]
			return n, ok
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if f, _, ok := fieldOf(u.X); ok {
			n, ok := p.atLeast[f]
			return n, ok
		}
	}
	return 0, false
}

type bgoal struct {
	a, b bexpr
	c    int64
}

// found: positions of what was found: when the position is not negative, what was looked for fits.
func (p *bounds) found(t bterm) (bedge, bool) {
	x, ok := t.v.(*ssa.Call)
	if t.k != 'v' || !ok || x.Call.StaticCallee() == nil || x.Call.StaticCallee().Pkg == nil {
		return bedge{}, false
	}
	g := x.Call.StaticCallee()
	if pk := g.Pkg.Pkg.Path(); pk != "strings" && pk != "bytes" || g.Name() != "Index" && g.Name() != "LastIndex" {
		return bedge{}, false
	}
	l, s := p.length(x.Call.Args[1]), p.length(x.Call.Args[0])
	if l.t.k != 'z' {
		return bedge{}, false
	}
	return bedge{t, s.t, s.off - l.off}, true
}

// implied: the least c such that the constraints imply a - b <= c.
func (p *bounds) implied(goal bgoal, facts []cond, extra []bedge) bool {
	edges, neq := p.fromFacts(facts)
	edges = append(edges, extra...)
	seen := map[bterm]bool{}
	var terms []bterm
	addTerm := func(t bterm) {
		if !seen[t] {
			seen[t] = true
			terms = append(terms, t)
		}
	}
	addTerm(bterm{k: 'z'})
	addTerm(goal.a.t)
	addTerm(goal.b.t)
	for _, e := range edges {
		addTerm(e.a)
		addTerm(e.b)
	}
	for _, n := range neq {
		addTerm(n.t)
	}
	for i := 0; i < len(terms) && i < 80; i++ {
		for _, e := range p.fromTerm(terms[i]) {
			edges = append(edges, e)
			addTerm(e.a)
			addTerm(e.b)
		}
		if a, b, ok := p.difference(terms[i]); ok {
			addTerm(a.t)
			addTerm(b.t)
		}
	}
	const inf = int64(1) << 40
	dist := func(from, to bterm) int64 { // the least c with from - to <= c
		d := map[bterm]int64{from: 0}
		for i := 0; i <= len(terms); i++ {
			changed := false
			for _, e := range edges {
				if x, ok := d[e.a]; ok {
					if y, ok := d[e.b]; !ok || x+e.c < y {
						d[e.b] = x + e.c
						changed = true
					}
				}
			}
			if !changed {
				break
			}
			if i == len(terms) {
				return -inf // contradiction: the place cannot be reached
			}
		}
		if x, ok := d[to]; ok {
			return x
		}
		return inf
	}
	z := bterm{k: 'z'}
	for round := 0; round < 3; round++ {
		changed := false
		for i, n := range neq {
			if n.t.k == 0 {
				continue
			}
			if dist(n.t, z) == n.off { // x <= off and x != off
				edges = append(edges, bedge{n.t, z, n.off - 1})
				neq[i].t.k = 0
				changed = true
			} else if dist(z, n.t) == -n.off { // x >= off
				edges = append(edges, bedge{z, n.t, -n.off - 1})
				neq[i].t.k = 0
				changed = true
			}
		}
		for _, t := range terms { // t = a - b
			a, b, ok := p.difference(t)
			if !ok {
				continue
			}
			add := func(x, y bterm, c int64) {
				if c > -inf && c < inf && dist(x, y) > c {
					edges = append(edges, bedge{x, y, c})
					changed = true
				}
			}
			if d := dist(b.t, a.t); d > -inf && d < inf {
				add(z, t, d+b.off-a.off) // -t = b - a
			}
			if d := dist(a.t, b.t); d > -inf && d < inf {
				add(t, z, d+a.off-b.off)
			}
			if d := dist(z, b.t); d > -inf && d < inf {
				add(t, a.t, d-b.off+a.off) // t - a = -b
			}
			if d := dist(b.t, z); d > -inf && d < inf {
				add(a.t, t, d+b.off-a.off)
			}
		}
		for _, t := range terms {
			if e, ok := p.found(t); ok && dist(z, t) <= 0 {
				edges = append(edges, e)
			}
		}
		if !changed && round > 0 {
			break
		}
	}
	return dist(goal.a.t, goal.b.t) <= goal.c-goal.a.off+goal.b.off
}

// prove that a - b <= c whenever the block is reached.
func (p *bounds) prove(g bgoal, at *ssa.BasicBlock, extra []cond, depth int, hyp []bedge) bool {
	p.steps++
	if depth > 12 || p.steps > 40000 {
		return false
	}
	facts := append(append([]cond{}, extra...), factsAt(at)...)
	if p.implied(g, facts, hyp) {
		return true
	}
	// what is subtracted is not negative
	for _, t := range []bterm{g.a.t, g.b.t} {
		x, y, ok := p.difference(t)
		if !ok || depth > 4 {
			continue
		}
		zero := bexpr{t: bterm{k: 'z'}}
		if p.prove(bgoal{zero, y, 0}, at, extra, depth+2, nil) {
			h := append(append([]bedge{}, hyp...), bedge{t, x.t, x.off})
			if p.implied(g, facts, h) {
				return true
			}
		}
	}
	// what is added is not negative
	for _, t := range []bterm{g.a.t, g.b.t} {
		s, ok := t.v.(*ssa.BinOp)
		if !ok || t.k != 'v' || s.Op != token.ADD || depth > 4 {
			continue
		}
		for _, xy := range [][2]ssa.Value{{s.X, s.Y}, {s.Y, s.X}} {
			x, y := p.norm(xy[0]), p.norm(xy[1])
			if p.prove(bgoal{bexpr{t: bterm{k: 'z'}}, y, 0}, at, extra, depth+2, nil) {
				h := append(append([]bedge{}, hyp...), bedge{x.t, t, -x.off})
				if p.implied(g, facts, h) {
					return true
				}
			}
		}
	}
	// lists of a type which are not empty unless they are nil
	if n, ok := p.atLeast["non-nil "+typeName(typeOfTerm(g.b.t))]; ok && g.b.t.k == 'l' && g.a.t.k == 'z' && g.a.off-g.b.off-g.c <= n {
		for _, f := range facts {
			f = f.norm()
			if b, ok := f.v.(*ssa.BinOp); ok && (b.Op == token.NEQ) == f.val && (b.Op == token.EQL || b.Op == token.NEQ) && isNilConst(b.Y) && p.canon(b.X) == g.b.t.v {
				return true
			}
		}
	}
	// what is to be proved holds for the values of the previous iteration
	sub := append(append([]bedge{}, hyp...), bedge{g.a.t, g.b.t, g.c - g.a.off + g.b.off})
	// phis of either side: by induction
	for _, t := range []bterm{g.a.t, g.b.t} {
		ph, ok := t.v.(*ssa.Phi)
		if !ok || t.k == 'z' {
			continue
		}
		// the facts at the place may be needed: only when the goal does not hold on all edges by itself
		all := true
		for i, e := range ph.Edges {
			pred := ph.Block().Preds[i]
			n := g
			ok := true
			for _, side := range []*bexpr{&n.a, &n.b} {
				q, isPhi := side.t.v.(*ssa.Phi)
				if side.t.k == 'z' {
					continue
				}
				if isPhi && q.Block() == ph.Block() {
					o := side.off
					if side.t.k == 'v' {
						*side = p.norm(q.Edges[i])
					} else {
						*side = p.length(q.Edges[i])
					}
					side.off += o
				} else if in, isIn := side.t.v.(ssa.Instruction); isIn && in.Block() != nil && !in.Block().Dominates(ph.Block()) {
					ok = false // computed after the phi
				}
			}
			_ = e
			if !ok || !p.prove(n, pred, edgeFact(pred, ph.Block()), depth+1, sub) {
				all = false
				break
			}
		}
		if all && len(ph.Edges) > 0 {
			return true
		}
	}
	// by another variable of the loop, which the conditions are about
	if ph, ok := g.b.t.v.(*ssa.Phi); ok && g.a.t.k == 'z' && depth < 5 {
		for _, in := range ph.Block().Instrs {
			q, ok := in.(*ssa.Phi)
			if !ok || ssa.Value(q) == ph || basicClass(q.Type()) != "int" {
				continue
			}
			other := bexpr{t: bterm{'v', q}}
			for k := int64(0); k <= 2; k++ { // k <= q, hence it is enough that q <= b + (c - k)
				if !p.implied(bgoal{g.a, other, -k}, facts, hyp) {
					continue
				}
				if p.prove(bgoal{other, g.b, g.c + k}, ph.Block(), nil, depth+2, nil) {
					return true
				}
			}
		}
	}
	// the lower bound of a minimum
	if cv, ok := g.b.t.v.(*ssa.Convert); ok && g.b.t.k == 'v' {
		if c, ok := cv.X.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Min" && c.Call.StaticCallee().Pkg.Pkg.Path() == "math" {
			all := true
			for _, a := range c.Call.Args {
				k, ok := a.(*ssa.Convert)
				if !ok {
					all = false
					break
				}
				n := g
				n.b = p.norm(k.X)
				n.b.off += g.b.off
				all = all && p.prove(n, at, extra, depth+1, hyp)
			}
			if all {
				return true
			}
		}
	}
	// the product and the quotient of what is not negative
	if bo, ok := g.b.t.v.(*ssa.BinOp); ok && g.b.t.k == 'v' && g.a.t.k == 'z' && g.a.off-g.b.off-g.c <= 0 {
		if bo.Op == token.MUL || bo.Op == token.QUO || bo.Op == token.REM || bo.Op == token.ADD {
			zero := bexpr{t: bterm{k: 'z'}}
			if p.prove(bgoal{zero, p.norm(bo.X), 0}, at, extra, depth+1, hyp) && (bo.Op == token.REM || p.prove(bgoal{zero, p.norm(bo.Y), 0}, at, extra, depth+1, hyp)) {
				return true
			}
		}
	}
	// a difference: a - (x - y) <= c
	if bo, ok := g.b.t.v.(*ssa.BinOp); ok && g.b.t.k == 'v' && bo.Op == token.SUB && g.a.t.k == 'z' {
		// 0 <= x - y + k  is  y - x <= k
		if p.prove(bgoal{p.norm(bo.Y), p.norm(bo.X), g.c - g.a.off + g.b.off}, at, extra, depth+1, hyp) {
			return true
		}
	}
	// the remainder of a division by what is positive
	if bo, ok := g.a.t.v.(*ssa.BinOp); ok && g.a.t.k == 'v' && bo.Op == token.REM {
		n := g
		n.a = p.norm(bo.Y)
		n.a.off += g.a.off - 1
		if p.prove(n, at, extra, depth+1, hyp) {
			return true
		}
	}
	// what a function returns
	for si, t := range []bterm{g.a.t, g.b.t} {
		v, idx := t.v, 0
		if t.k == 'z' {
			continue
		}
		if e, ok := v.(*ssa.Extract); ok {
			v, idx = e.Tuple, e.Index
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			continue
		}
		fn := c.Call.StaticCallee()
		if fn == nil || !p.w.inScopeFn(fn) || p.w.isGenerated(fn) || len(fn.Blocks) == 0 {
			continue
		}
		other := g.b
		if si == 1 {
			other = g.a
		}
		all, some := true, false
		for _, in := range instrs(fn) {
			rt, ok := in.(*ssa.Return)
			if !ok || idx >= len(rt.Results) {
				continue
			}
			some = true
			// not this way: the error (or the ok) says so
			if p.notReturned(rt, c, facts) {
				continue
			}
			o, ok := p.inCallee(other, c, fn)
			if !ok {
				all = false
				break
			}
			var me bexpr
			if t.k == 'v' {
				me = p.norm(resultOf(rt, idx))
			} else {
				me = p.length(resultOf(rt, idx))
			}
			n := bgoal{me, o, g.c}
			if si == 1 {
				n = bgoal{o, me, g.c}
				n.b.off += g.b.off
			} else {
				n.a.off += g.a.off
			}
			if !p.prove(n, rt.Block(), nil, depth+1, hyp) {
				all = false
				break
			}
		}
		if all && some {
			return true
		}
	}
	// what the result of a function says about its arguments
	for _, f := range facts {
		f = f.norm()
		v, idx := f.v, 0
		nilness, notNil := false, false
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && isNilConst(b.Y) {
			v, nilness, notNil = b.X, true, (b.Op == token.NEQ) == f.val
		}
		if e, ok := v.(*ssa.Extract); ok {
			v, idx = e.Tuple, e.Index
		}
		c, ok := v.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			continue
		}
		fn := c.Call.StaticCallee()
		if !p.w.inScopeFn(fn) || p.w.isGenerated(fn) || len(fn.Blocks) == 0 {
			continue
		}
		a, ok1 := p.inCallee(g.a, c, fn)
		b, ok2 := p.inCallee(g.b, c, fn)
		if !ok1 || !ok2 {
			continue
		}
		all, some := true, false
		for _, in := range instrs(fn) {
			rt, ok := in.(*ssa.Return)
			if !ok || idx >= len(rt.Results) {
				continue
			}
			if k, ok := resultOf(rt, idx).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != f.val {
				continue
			}
			if nilness {
				_, made := resultOf(rt, idx).(*ssa.MakeInterface)
				if notNil && isNilConst(resultOf(rt, idx)) || !notNil && made {
					continue
				}
			}
			some = true
			given := []cond{{v: resultOf(rt, idx), val: f.val}}
			if nilness {
				r := resultOf(rt, idx)
				given[0] = cond{v: &ssa.BinOp{Op: token.NEQ, X: r, Y: ssa.NewConst(nil, r.Type())}, val: notNil}
			}
			if !p.prove(bgoal{a, b, g.c}, rt.Block(), given, depth+2, nil) {
				all = false
				break
			}
		}
		if all && some {
			return true
		}
	}
	// every caller
	fn := at.Parent()
	inParams := func(e bexpr) bool { return e.t.k == 'z' || p.overParams(e.t.v, 0) }
	if inParams(g.a) && inParams(g.b) && (g.a.t.k != 'z' || g.b.t.k != 'z') && depth < 6 {
		callers := p.callersOf(fn)
		if len(callers) > 0 {
			all := true
			for _, c := range callers {
				if p.exempt != nil && p.exempt(c.Parent()) {
					continue
				}
				a, ok1 := p.inCaller(g.a, c)
				b, ok2 := p.inCaller(g.b, c)
				if !ok1 || !ok2 || !p.prove(bgoal{a, b, g.c}, c.Block(), nil, depth+1, nil) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// callersOf: all calls of a function which is only called directly; nil when it may be called from elsewhere.
func (p *bounds) callersOf(f *ssa.Function) []ssa.CallInstruction {
	if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && !strings.Contains(relPkg(f.Pkg.Pkg), "pkg/") {
		return nil
	}
	var res []ssa.CallInstruction
	for _, c := range p.w.callers[f] {
		if isTest(p.w, c.Parent()) {
			continue
		}
		res = append(res, c)
	}
	return res
}

// overParams: the value is a parameter, or a part of one.
func (p *bounds) overParams(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL && depth < 3 {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return p.overParams(p.canon(fa.X), depth+1)
			}
		}
	}
	return false
}

func argOf(c ssa.CallInstruction, f *ssa.Function, q *ssa.Parameter) ssa.Value {
	args := c.Common().Args
	if c.Common().IsInvoke() {
		args = append([]ssa.Value{c.Common().Value}, args...)
	}
	for i, r := range f.Params {
		if r == q && i < len(args) {
			return args[i]
		}
	}
	return nil
}

func (p *bounds) inCaller(e bexpr, c ssa.CallInstruction) (bexpr, bool) {
	if e.t.k == 'z' {
		return e, true
	}
	v := p.valueInCaller(e.t.v, c)
	if v == nil {
		return e, false
	}
	var r bexpr
	if e.t.k == 'l' {
		r = p.length(v)
	} else {
		r = p.norm(v)
	}
	r.off += e.off
	return r, true
}

func (p *bounds) valueInCaller(v ssa.Value, c ssa.CallInstruction) ssa.Value {
	switch x := v.(type) {
	case *ssa.Parameter:
		return argOf(c, x.Parent(), x)
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		b := p.valueInCaller(p.canon(fa.X), c)
		if b == nil {
			return nil
		}
		// a load of the same field of the argument, before the call
		_, kind := p.memKey(fa)
		for _, in := range instrs(c.Parent()) {
			switch in := in.(type) {
			case *ssa.UnOp:
				f2, ok := in.X.(*ssa.FieldAddr)
				if in.Op == token.MUL && ok && f2.Field == fa.Field && p.canon(f2.X) == p.canon(b) && dominatesInstr(in, c) && p.unchanged(in, c, kind) {
					return in
				}
			case *ssa.Store:
				f2, ok := in.Addr.(*ssa.FieldAddr)
				if ok && f2.Field == fa.Field && p.canon(f2.X) == p.canon(b) && dominatesInstr(in, c) && p.unchanged(in, c, kind) {
					return in.Val
				}
			}
		}
	}
	return nil
}

// inCallee: the term, which is about the arguments of the call, as one about the parameters.
func (p *bounds) inCallee(e bexpr, c *ssa.Call, fn *ssa.Function) (bexpr, bool) {
	if e.t.k == 'z' {
		return e, true
	}
	args := c.Call.Args
	for i, a := range args {
		if i >= len(fn.Params) {
			break
		}
		var n bexpr
		if e.t.k == 'l' {
			if _, ok := a.Type().Underlying().(*types.Slice); !ok && basicClass(a.Type()) != "string" {
				continue
			}
			n = p.length(a)
		} else {
			if basicClass(a.Type()) != "int" {
				continue
			}
			n = p.norm(a)
		}
		if n.t == e.t {
			return bexpr{bterm{e.t.k, fn.Params[i]}, e.off - n.off}, true
		}
	}
	// what an argument points at, which the function does not change
	u, ok := e.t.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return e, false
	}
	_, kind := p.memKey(u.X)
	if kind == "" || p.mayChange(fn, kind) || !(dominatesInstr(u, c) && p.unchanged(u, c, kind) || dominatesInstr(c, u) && p.unchanged(c, u, kind)) {
		return e, false
	}
	base, field := u.X, -1
	if fa, ok := u.X.(*ssa.FieldAddr); ok {
		base, field = fa.X, fa.Field
	}
	for i, a := range args {
		if i >= len(fn.Params) || p.canon(a) != p.canon(base) {
			continue
		}
		for _, in := range instrs(fn) {
			l, ok := in.(*ssa.UnOp)
			if !ok || l.Op != token.MUL {
				continue
			}
			addr, f := l.X, -1
			if fa, ok := l.X.(*ssa.FieldAddr); ok {
				addr, f = fa.X, fa.Field
			}
			if f == field && p.canon(addr) == fn.Params[i] {
				return bexpr{bterm{e.t.k, p.canon(l)}, e.off}, true
			}
		}
	}
	return e, false
}

// notReturned: what is known of another result of the call excludes this return.
func (p *bounds) notReturned(rt *ssa.Return, c *ssa.Call, facts []cond) bool {
	if rt.Block() == rt.Parent().Recover && !recovers(rt.Parent()) {
		return true
	}
	for _, f := range facts {
		f = f.norm()
		if ex, ok := f.v.(*ssa.Extract); ok && ex.Tuple == c && ex.Index < len(rt.Results) {
			if k, ok := resultOf(rt, ex.Index).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != f.val {
				return true
			}
		}
		b, ok := f.v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || !isNilConst(b.Y) {
			continue
		}
		if ex, ok := b.X.(*ssa.Extract); ok && ex.Tuple == c && ex.Index < len(rt.Results) {
			isNil := (b.Op == token.EQL) == f.val
			r := resultOf(rt, ex.Index)
			if isNil && !isNilConst(r) {
				if _, ok := r.(*ssa.MakeInterface); ok {
					return true
				}
				if k, ok := r.(*ssa.Call); ok && k.Call.StaticCallee() != nil && !p.w.inScopeFn(k.Call.StaticCallee()) {
					return true // errors.New, fmt.Errorf, ...
				}
				for _, f := range factsAt(rt.Block()) { // return err, when err != nil
					f = f.norm()
					if b, ok := f.v.(*ssa.BinOp); ok && (b.Op == token.NEQ) == f.val && b.X == r && isNilConst(b.Y) {
						return true
					}
				}
			}
			if !isNil && isNilConst(r) {
				return true
			}
		}
	}
	return false
}

// index: 0 <= i < len(s)
func (p *bounds) index(i, s ssa.Value, at *ssa.BasicBlock) bool {
	p.steps = 0
	zero := bexpr{t: bterm{k: 'z'}}
	if n, ok := constInt(i); ok && n >= 0 && n < p.matchOf(s, nil) {
		return true
	}
	return p.prove(bgoal{zero, p.norm(i), 0}, at, nil, 0, nil) && p.prove(bgoal{p.norm(i), p.length(s), -1}, at, nil, 0, nil)
}

// slice: 0 <= low <= high <= len(s)
func (p *bounds) slice(x *ssa.Slice) (string, bool) {
	p.steps = 0
	zero := bexpr{t: bterm{k: 'z'}}
	if (x.Low == nil || p.matched(x.Low, x.X, 0)) && (x.High == nil || p.matched(x.High, x.X, 0)) {
		return "", true
	}
	low, high := zero, zero
	var l bexpr
	if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
		l = bexpr{bterm{k: 'z'}, a.Len()}
	} else {
		l = p.length(x.X)
	}
	high = l
	if x.Low != nil {
		low = p.norm(x.Low)
		if !p.prove(bgoal{zero, low, 0}, x.Block(), nil, 0, nil) {
			return "the lower bound may be negative", false
		}
	}
	if x.High != nil {
		high = p.norm(x.High)
		if !p.prove(bgoal{high, l, 0}, x.Block(), nil, 0, nil) {
			return "the upper bound may be beyond the length", false
		}
	}
	if !p.prove(bgoal{low, high, 0}, x.Block(), nil, 0, nil) {
		if x.High == nil {
			return "the lower bound may be beyond the length", false
		}
		return "the upper bound may be less than the lower one", false
	}
	return "", true
}

// matched: positions which a regular expression gives for the text, in order.
func (p *bounds) matched(v, text ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := p.canon(v).(type) {
	case *ssa.Const:
		n, ok := constInt(x)
		return ok && n == 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !p.matched(e, text, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return p.matchOf(ia.X, text) >= 0
		}
	}
	return false
}

// matchOf: the number of positions in the match of a regular expression, -1 when it is none.
func (p *bounds) matchOf(m, text ssa.Value) int64 {
	m = p.canon(m)
	c, ok := m.(*ssa.Call)
	if !ok {
		u, ok := m.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return -1
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return -1
		}
		if c, ok = p.canon(ia.X).(*ssa.Call); !ok {
			return -1
		}
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "regexp" || !strings.HasSuffix(g.Name(), "Index") || text != nil && p.canon(c.Call.Args[1]) != p.canon(text) {
		return -1
	}
	if !strings.Contains(g.Name(), "Submatch") {
		return 2
	}
	gl, ok := loadedFrom(c.Call.Args[0]).(*ssa.Global)
	if !ok || gl.Pkg == nil {
		return -1
	}
	for _, in := range instrs(gl.Pkg.Func("init")) {
		st, ok := in.(*ssa.Store)
		if !ok || st.Addr != gl {
			continue
		}
		k, ok := st.Val.(*ssa.Call)
		if !ok || len(k.Call.Args) != 1 {
			return -1
		}
		pat, ok := constString(k.Call.Args[0])
		if !ok {
			return -1
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			return -1
		}
		return 2 * int64(re.NumSubexp()+1)
	}
	return -1
}

// atLeastAt: n <= v
func (p *bounds) atLeastAt(v bexpr, n int64, at *ssa.BasicBlock) bool {
	p.steps = 0
	return p.prove(bgoal{bexpr{bterm{k: 'z'}, n}, v, 0}, at, nil, 0, nil)
}

func typeOfTerm(t bterm) types.Type {
	if t.v == nil {
		return types.Typ[types.Int]
	}
	return t.v.Type()
}

// resultOf: what is returned, also when it was put in a variable for the deferred calls.
func resultOf(rt *ssa.Return, idx int) ssa.Value {
	v := rt.Results[idx]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != rt.Block() {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for _, r := range refs(al) {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Addr != al {
				return v
			}
		default:
			return v // a deferred call may change it
		}
	}
	for _, in := range rt.Block().Instrs {
		if in == ssa.Instruction(u) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == al {
			v = st.Val
		}
	}
	return v
}

// recovers: a call which the function defers may end a panic.
func recovers(f *ssa.Function) bool {
	for _, in := range instrs(f) {
		d, ok := in.(*ssa.Defer)
		if !ok {
			continue
		}
		g := d.Call.StaticCallee()
		if g == nil {
			if _, ok := d.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			return true
		}
		for _, in := range instrs(g) {
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// difference: the term is a - b.
func (p *bounds) difference(t bterm) (a, b bexpr, ok bool) {
	x, isBin := t.v.(*ssa.BinOp)
	if t.k != 'v' || !isBin || x.Op != token.SUB {
		return a, b, false
	}
	return p.norm(x.X), p.norm(x.Y), true
}
