package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values which are refused: a function makes an error because a string is none of the ones which it expects (a chain
// of comparisons, or a lookup in a table). What the string may be is traced: the constants which the program and the
// grammar give to it have to be expected, and a value which is written in the document (in an attribute) must not
// make the conversion fail.

// refusedValue is a string which decides that an error is made.
type refusedValue struct {
	v        ssa.Value
	expected map[string]bool // the error is made when the value is none of these
	equal    map[string]bool // the error is made when the value is one of these
}

func makesError(in ssa.Instruction) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	g := c.Call.StaticCallee()
	if g == nil || g.Pkg == nil {
		return nil
	}
	switch p := g.Pkg.Pkg.Path(); {
	case p == "fmt" && g.Name() == "Errorf", strings.HasSuffix(p, "errors") && (g.Name() == "New" || g.Name() == "Errorf"):
		return c
	}
	return nil
}

func unboxed(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

func valueKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fmt.Sprintf("%p.%d", fa.X, fa.Field)
		}
	case *ssa.ChangeType:
		return valueKey(x.X)
	case *ssa.Convert:
		return valueKey(x.X)
	}
	return fmt.Sprintf("%p", v)
}

// refusedValues: the strings which lead to the block.
func (w *World) refusedValues(b *ssa.BasicBlock) map[string]*refusedValue {
	res := map[string]*refusedValue{}
	get := func(v ssa.Value) *refusedValue {
		k := valueKey(v)
		if res[k] == nil {
			res[k] = &refusedValue{v: v, expected: map[string]bool{}, equal: map[string]bool{}}
		}
		return res[k]
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		taken := -1
		for i, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				taken = i
			}
		}
		if taken < 0 {
			continue
		}
		holds := taken == 0
		cond := f.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, holds = u.X, !holds
		}
		switch c := cond.(type) {
		case *ssa.BinOp:
			if c.Op != token.EQL && c.Op != token.NEQ {
				continue
			}
			v, k := unboxed(c.X), unboxed(c.Y)
			s, ok := "", false
			if kc, isC := k.(*ssa.Const); isC {
				s, ok = constString(kc)
			} else if kc, isC := v.(*ssa.Const); isC {
				v = k
				s, ok = constString(kc)
			}
			if !ok {
				continue
			}
			if (c.Op == token.EQL) == holds {
				get(v).equal[s] = true
			} else {
				get(v).expected[s] = true
			}
		case *ssa.Extract:
			l, ok := c.Tuple.(*ssa.Lookup)
			if !ok || c.Index != 1 || basicClass(l.Index.Type()) != "string" || holds {
				continue
			}
			keys := w.constKeys(l.X)
			if len(keys) == 0 {
				continue
			}
			for _, s := range keys {
				get(l.Index).expected[s] = true
			}
		}
	}
	for k, r := range res {
		for s := range r.equal {
			delete(r.expected, s)
		}
		if len(r.equal) > 0 { // equal to a constant: what it is not equal to does not matter
			r.expected = map[string]bool{}
		}
		_ = k
	}
	return res
}

// constKeys: the keys of a table which only the initialisation of the package fills.
func (w *World) constKeys(m ssa.Value) []string {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return nil
	}
	var made ssa.Value
	var keys []string
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, in := range instrs(init) {
		if st, ok := in.(*ssa.Store); ok && st.Addr == g {
			made = st.Val
		}
	}
	if made == nil {
		return nil
	}
	for _, in := range refs(made) {
		if mu, ok := in.(*ssa.MapUpdate); ok && mu.Map == made {
			if k, ok := mu.Key.(*ssa.Const); ok {
				if s, ok := constString(k); ok {
					keys = append(keys, s)
				}
			}
		}
	}
	sort.Strings(keys)
	return keys
}

// finite: the texts which the expression matches, when there are few of them.
func (g *grammar) finite(x *gexpr, depth int) ([]string, bool) {
	if depth > 12 || x == nil {
		return nil, false
	}
	uniq := func(l []string) []string {
		m := map[string]bool{}
		for _, s := range l {
			m[s] = true
		}
		return sortedKeys(m)
	}
	switch x.kind {
	case "lit":
		return []string{x.val}, !x.fold
	case "class":
		if x.inverted || len(x.ranges) > 0 || len(x.classes) > 0 || x.fold {
			return nil, false
		}
		var l []string
		for _, c := range x.chars {
			l = append(l, string(c))
		}
		return l, true
	case "and", "not", "andCode", "notCode", "stateCode":
		return []string{""}, true
	case "action", "label":
		return g.finite(x.kids[0], depth+1)
	case "ref":
		if r := g.rules[x.name]; r != nil {
			return g.finite(r.expr, depth+1)
		}
	case "opt":
		l, ok := g.finite(x.kids[0], depth+1)
		return uniq(append(l, "")), ok
	case "choice":
		var l []string
		for _, k := range x.kids {
			m, ok := g.finite(k, depth+1)
			if !ok {
				return nil, false
			}
			l = append(l, m...)
		}
		return uniq(l), true
	case "seq":
		l := []string{""}
		for _, k := range x.kids {
			m, ok := g.finite(k, depth+1)
			if !ok || len(l)*len(m) > 200 {
				return nil, false
			}
			var n []string
			for _, a := range l {
				for _, b := range m {
					n = append(n, a+b)
				}
			}
			l = uniq(n)
		}
		return l, true
	}
	return nil, false
}

// c10MayRefuse: the attributes of which a value may be refused, with the reason.
var c10MayRefuse = map[string]string{
	"tag":  "the included file has no such tag: reported as an unresolved directive",
	"tags": "the included file has no such tag: reported as an unresolved directive",
}

// c10Removed: the values which elements have when they are removed before they are rendered (C24).
var c10Removed = map[string]string{"types.DelimitedBlock.Kind": "comment"}

// attributeRead: the value is read in attributes; the name when it is known.
func attributeRead(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Index == 0 {
			return attributeRead(x.Tuple.(ssa.Value))
		}
	case *ssa.Lookup:
		if isAttributes(x.X.Type()) {
			if k, ok := x.Index.(*ssa.Const); ok {
				s, _ := constString(k)
				return s, true
			}
			return "?", true
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g != nil && g.Signature.Recv() != nil && isAttributes(g.Signature.Recv().Type()) {
			for _, a := range x.Call.Args[1:] {
				if k, ok := a.(*ssa.Const); ok {
					if s, ok := constString(k); ok {
						return s, true
					}
				}
			}
			return "?", true
		}
	}
	return "", false
}

func c10Refusals(w *World, r *Report, c *containment) {
	codes := map[*ssa.Function][]*gexpr{}
	for _, x := range c.g.exprs {
		if x.run != nil {
			codes[c.g.code(x.run)] = append(codes[c.g.code(x.run)], x)
		}
	}
	sites, values, known := 0, 0, 0
	for _, f := range w.Funcs {
		if w.isGenerated(f) || isTest(w, f) || !strings.HasPrefix(relPkgOf(f), "pkg/") {
			continue
		}
		seen := map[string]bool{}
		for _, in := range instrs(f) {
			call := makesError(in)
			if call == nil {
				continue
			}
			sites++
			rv := w.refusedValues(in.Block())
			var keys []string
			for k := range rv {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return rv[keys[i]].v.Pos() < rv[keys[j]].v.Pos() })
			for _, k := range keys {
				if seen[k] {
					continue
				}
				seen[k] = true
				values++
				v := rv[k]
				t := &tracer{w: w,
					fields: func(name string, _ types.Type) bool {
						return strings.HasPrefix(name, "types.") && !strings.HasPrefix(name, "types.Attribute.")
					},
					stop: func(v ssa.Value, _ *frame) bool {
						if p, ok := v.(*ssa.Parameter); ok && codes[p.Parent()] != nil {
							return true // what a label stands for
						}
						_, ok := attributeRead(v)
						return ok
					},
					through: func(v ssa.Value) []ssa.Value {
						if l := w.onlyEqual(v); l != nil {
							return l
						}
						switch v := v.(type) {
						case *ssa.Convert:
							return []ssa.Value{v.X}
						case *ssa.Call:
							if g := v.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "strings" && basicClass(v.Type()) == "string" {
								return v.Call.Args[:1]
							}
						}
						return nil
					}}
				t.trace(v.v, nil)
				bad := map[string]bool{}
				n := 0
				removed := c10Removed[c10Describe(v.v)]
				may := func(s, from string) {
					if s == removed && s != "" {
						return
					}
					n++
					if len(v.equal) > 0 && v.equal[s] || len(v.equal) == 0 && !v.expected[s] {
						bad[fmt.Sprintf("%s may be %q, which it refuses", from, s)] = true
					}
				}
				for _, p := range t.out {
					if name, ok := attributeRead(p.v); ok {
						if c10MayRefuse[name] == "" {
							n++
							bad[fmt.Sprintf("the value of the attribute %q, which is written in the document, is refused when it is not expected", name)] = true
						}
						continue
					}
					if k, ok := p.v.(*ssa.Const); ok {
						if s, ok := constString(k); ok {
							may(s, "the value")
						}
						continue
					}
					if u, ok := p.v.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldName(fa.X.Type(), fa.Field), ".current.text") {
							for _, x := range codes[u.Parent()] {
								if l, ok := c.g.finite(x, 0); ok {
									for _, s := range l {
										may(s, "the text matched by "+x.where())
									}
								}
							}
						}
					}
				}
				if n == 0 {
					continue
				}
				known++
				construct := fnName(f) + ": " + c10Describe(v.v)
				r.Check("refused", construct, w.pos(call.Pos()), len(bad) == 0, "an element is refused because of a value which it may have: "+strings.Join(sortedKeys(bad), "; "))
			}
		}
	}
	r.Count("errors made by functions", sites)
	r.Count("strings which decide of an error", values)
	r.Floor("strings of which the values are known", known, 3)
}

// onlyEqual: the constants which the value is equal to wherever it is stored.
func (w *World) onlyEqual(v ssa.Value) (l []ssa.Value) {
	if _, ok := v.(ssa.Instruction); !ok || basicClass(v.Type()) != "string" {
		return nil
	}
	if _, ok := v.(*ssa.Const); ok {
		return nil
	}
	for _, in := range refs(v) {
		switch in := in.(type) {
		case *ssa.BinOp, *ssa.DebugRef:
		case *ssa.Store:
			rv := w.refusedValues(in.Block())[valueKey(v)]
			if rv == nil || len(rv.equal) == 0 {
				return nil
			}
			for _, s := range sortedKeys(rv.equal) {
				l = append(l, ssa.NewConst(constant.MakeString(s), v.Type()))
			}
		default:
			return nil
		}
	}
	return l
}

func c10Describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field)
		}
	case *ssa.ChangeType:
		return c10Describe(x.X)
	case *ssa.Convert:
		return c10Describe(x.X)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Extract:
		return c10Describe(x.Tuple)
	}
	if n, ok := attributeRead(v); ok {
		return "attribute " + n
	}
	return "a value of type " + typeName(v.Type())
}
