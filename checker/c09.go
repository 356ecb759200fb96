package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: document text cannot break out of the markup it is placed in.

func init() {
	register(&checkDef{id: "C09", title: "Document text cannot break out of the markup it is placed in", run: runC09,
		explanation: "Every action of every template is placed in its context (content, quoted attribute), and the value given to it is followed backwards to its origins; texts of the document must be escaped for the context on the way, or be the result of rendering an element. The same is shown for the results of the renderers of elements and of plain texts."})
}

type c09 struct {
	w *World
	r *Report
	m *tmplModel

	escapes     map[*ssa.Function]bool
	renders     map[*ssa.Function]bool // render elements
	dispatch    *ssa.Function
	self        *ssa.Function          // whose result is followed
	plain       map[*ssa.Function]bool // render elements without markup
	plainEscape string                 // the field with the function which escapes plain texts
	globals     map[*ssa.Global][]ssa.Value
	enums       map[*types.TypeName]bool // types of texts which are not enumerations
}

// c09Leaf is where a text comes from.
type c09Leaf struct {
	class     string // const, number, escaped, markup, plain, raw
	covers    string // the characters which are escaped
	v         ssa.Value
	unescaped bool          // escapes are undone
	fn        *ssa.Function // which renders elements
	name      string
	pos       token.Pos
}

func runC09(w *World, r *Report) {
	w.buildCallGraph()
	c := &c09{w: w, r: r, m: w.templates(), escapes: map[*ssa.Function]bool{}, renders: map[*ssa.Function]bool{}, plain: map[*ssa.Function]bool{}}
	c.findRenders()
	c.findPlain()
	type hole struct{ tmpl, hole, kind, attr string }
	done := map[hole]bool{}
	for _, b := range c.m.backends {
		for _, n := range c.m.names {
			tr := b.trees[n]
			if tr == nil {
				continue
			}
			paths, _ := enumPaths(tr.Root)
			for _, p := range paths {
				_, _, ctxs := lexMarkup(p.pieces, b.xml)
				for _, h := range ctxs {
					k := hole{n, h.hole, h.kind, h.attr}
					if done[k] {
						continue
					}
					done[k] = true
				}
			}
		}
	}
	var all []hole
	for k := range done {
		all = append(all, k)
	}
	sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
	found := map[string][]string{}
	inContent := map[*ssa.Function]bool{}
	ok := map[string]int{}
	poss := map[string]token.Pos{}
	for _, k := range all {
		ls := c.holeLeaves(k.tmpl, k.hole)
		if len(ls) == 0 {
			r.Note("the origin of %s in the template %s is not known", k.hole, k.tmpl)
			continue
		}
		ok["holes"]++
		for _, n := range sortedKeys(ls) {
			l := ls[n]
			rule, why := "content", ""
			if k.kind == "attr" {
				rule = "attribute"
			}
			why = c.bad(k.kind == "attr", l)
			if l.fn != nil && k.kind == "text" {
				inContent[l.fn] = true
			}
			if k.kind != "attr" && k.kind != "text" {
				rule, why = "attribute", ""
				if l.class != "const" && l.class != "number" {
					why = "not a constant or a number in a " + k.kind
				}
			}
			if os.Getenv("C09") != "" {
				fmt.Println("HOLE", k.tmpl, k.hole, k.kind, k.attr, "::", n, w.pos(l.pos), why)
			}
			r.Count("texts", 1)
			if why == "" {
				ok[rule]++
				continue
			}
			key := rule + "\x00" + l.name + ", " + why
			if l.v != nil && l.v.Parent() != nil && l.fn == nil {
				key += " (" + fnName(l.v.Parent()) + ")"
			}
			found[key] = append(found[key], k.tmpl+" "+k.hole)
			poss[key] = l.pos
		}
	}
	// what the renderers of elements give, for those whose result is placed in the content
	if c.dispatch != nil {
		inContent[c.dispatch] = true
	}
	for rendered := map[*ssa.Function]bool{}; ; {
		n := len(rendered)
		for _, f := range sortedFns(inContent) {
			if rendered[f] || c.plain[f] {
				continue
			}
			rendered[f] = true
			for _, g := range c.rendered(f, "rendered", found, poss, ok) {
				inContent[g] = true
			}
		}
		if len(rendered) == n {
			break
		}
	}
	for _, f := range sortedFns(c.plain) {
		c.rendered(f, "plain", found, poss, ok)
	}
	c.characters(found, poss, ok)
	c.options(found, poss, ok)
	c.escapedPassthrough(found, poss, ok)
	for _, k := range sortedKeys(found) {
		x := strings.SplitN(k, "\x00", 2)
		h := found[k]
		if len(h) > 4 {
			h = append(h[:4:4], "...")
		}
		r.Fail(x[0], x[1], w.pos(poss[k]), "reaches "+strings.Join(h, "; "))
	}
	for _, k := range sortedKeys(ok) {
		r.OK(k, fmt.Sprintf("%d texts", ok[k]), "", "")
	}
	r.Count("holes", ok["holes"])
	r.Floor("holes", ok["holes"], 100)

}

// bad says why a text may not be placed in the content or in an attribute.
func (c *c09) bad(attr bool, l c09Leaf) string {
	switch l.class {
	case "const", "number":
		return ""
	case "markup":
		if !attr {
			return ""
		}
		return "markup in an attribute"
	case "plain":
		if !attr {
			return ""
		}
		return "quotes are not escaped"
	case "escaped":
		need := "<>&"
		if attr {
			need = "<>\""
		}
		for _, r := range need {
			if !strings.ContainsRune(l.covers, r) {
				return fmt.Sprintf("%c is not escaped", r)
			}
		}
		return ""
	}
	if !attr && l.name == "types.StringElement.Content" {
		return ""
	}
	return "not escaped"
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return fnName(l[i]) < fnName(l[j]) })
	return l
}

var reText = regexp.MustCompile(`^([^<>&"]|&#?[A-Za-z0-9]+;)*$`)

// characters: special characters and symbols are rendered without markup.
func (c *c09) characters(found map[string][]string, poss map[string]token.Pos, ok map[string]int) {
	for _, f := range c.w.Funcs {
		if relPkgOf(f) != sgmlPkg || isTest(c.w, f) || f.Signature.Results().Len() == 0 || basicClass(f.Signature.Results().At(0).Type()) != "string" {
			continue
		}
		for _, p := range f.Params {
			n := typeName(deref(p.Type()))
			if n != "types.SpecialCharacter" && n != "types.Symbol" {
				continue
			}
			for _, v := range returned(f, 0) {
				for _, l := range c.leaves(place{v: v}) {
					k, isConst := l.v.(*ssa.Const)
					if !isConst {
						continue
					}
					s, isString := constString(k)
					if !isString || l.class == "escaped" || strings.HasPrefix(l.name, "parameter") {
						continue
					}
					if reText.MatchString(s) {
						ok["character"]++
						continue
					}
					key := "character\x00" + n + " rendered as " + s + " (" + fnName(f) + ")"
					found[key] = append(found[key], fnName(f))
					poss[key] = f.Pos()
				}
			}
		}
	}
}

// options: what is given to the highlighter for its attributes.
func (c *c09) options(found map[string][]string, poss map[string]token.Pos, ok map[string]int) {
	for _, f := range c.w.Funcs {
		if relPkgOf(f) != sgmlPkg || isTest(c.w, f) {
			continue
		}
		for _, in := range instrs(f) {
			call, isCall := in.(*ssa.Call)
			if !isCall || !strings.HasSuffix(callName(call.Common()), "/formatters/html.ClassPrefix") {
				continue
			}
			for _, l := range c.leaves(place{v: call.Call.Args[0]}) {
				if why := c.bad(true, l); why != "" {
					key := "attribute\x00" + l.name + ", " + why + " (" + fnName(f) + ")"
					found[key] = append(found[key], "the classes of the highlighter")
					poss[key] = call.Pos()
				} else {
					ok["attribute"]++
				}
			}
		}
	}
}

// escapedPassthrough: the kind of passthrough whose content is text, not markup.
func (c *c09) escapedPassthrough(found map[string][]string, poss map[string]token.Pos, ok map[string]int) {
	kind := constantOf(c.w, "pkg/types", "SinglePlusPassthrough")
	for _, f := range c.w.Funcs {
		if relPkgOf(f) != sgmlPkg || isTest(c.w, f) || !c.w.reachable(c.dispatch)[f] || kind == "" {
			continue
		}
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			br, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !isIf {
				continue
			}
			cmp, isCmp := br.Cond.(*ssa.BinOp)
			if !isCmp || (cmp.Op != token.EQL && cmp.Op != token.NEQ) {
				continue
			}
			s, isConst := constString(cmp.Y)
			if !isConst {
				s, isConst = constString(cmp.X)
			}
			if !isConst || s != kind || !strings.HasSuffix(cmp.X.Type().String(), "PassthroughKind") {
				continue
			}
			succ := b.Succs[0]
			if cmp.Op == token.NEQ {
				succ = b.Succs[1]
			}
			for _, x := range f.Blocks {
				if len(x.Instrs) == 0 || !succ.Dominates(x) || len(succ.Preds) > 1 {
					continue
				}
				ret, isRet := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
				if !isRet || len(ret.Results) == 0 {
					continue
				}
				for _, l := range c.leaves(place{v: ret.Results[0]}) {
					why := c.bad(false, l)
					if l.class == "raw" || l.class == "markup" {
						why = "not escaped"
					}
					if why == "" {
						ok["passthrough"]++
						continue
					}
					key := "passthrough\x00" + l.name + ", " + why + " (" + fnName(f) + ")"
					found[key] = append(found[key], fnName(f))
					poss[key] = ret.Pos()
				}
			}
		}
	}
}

func constantOf(w *World, pkg, name string) string {
	for _, p := range w.Prog.AllPackages() {
		if relPkg(p.Pkg) == pkg {
			if k, ok := p.Members[name].(*ssa.NamedConst); ok {
				s, _ := constString(k.Value)
				return s
			}
		}
	}
	return ""
}

func (c *c09) rendered(f *ssa.Function, rule string, found map[string][]string, poss map[string]token.Pos, ok map[string]int) (fns []*ssa.Function) {
	for _, v := range returned(f, 0) {
		save := c.self
		c.self = f
		ls := c.leaves(place{v: v})
		c.self = save
		for _, l := range ls {
			c.r.Count("texts", 1)
			y := c.bad(false, l)
			if l.fn != nil {
				fns = append(fns, l.fn)
			}
			if os.Getenv("C09") != "" {
				fmt.Println("REND", rule, fnName(f), "::", l.class, l.name, c.w.pos(l.pos), y)
			}
			if y == "" {
				ok[rule]++
				continue
			}
			key := rule + "\x00" + l.name + ", " + y
			if l.v != nil && l.v.Parent() != nil && l.fn == nil {
				key += " (" + fnName(l.v.Parent()) + ")"
			}
			found[key] = append(found[key], fnName(f))
			poss[key] = l.pos
		}
	}
	return fns
}

// findRenders: the function which renders an element of any kind, and those which reach it with elements.
func (c *c09) findRenders() {
	best := 0
	for _, f := range c.w.Funcs {
		if relPkgOf(f) != sgmlPkg || isTest(c.w, f) || f.Signature.Recv() == nil {
			continue
		}
		n := 0
		for _, in := range instrs(f) {
			if ta, ok := in.(*ssa.TypeAssert); ok && strings.HasPrefix(typeName(deref(ta.AssertedType)), "types.") {
				n++
			}
		}
		if n > best && strings.HasSuffix(typeName(deref(f.Signature.Recv().Type())), "sgmlRenderer") {
			best, c.dispatch = n, f
		}
	}
	for _, f := range c.w.Funcs {
		if relPkgOf(f) != sgmlPkg || c.dispatch == nil || f.Signature.Results().Len() == 0 || f.Signature.Results().At(0).Type().String() != "string" {
			continue
		}
		takes := false
		for _, p := range f.Params {
			if t := p.Type().Underlying().String(); t == "interface{}" || t == "[]interface{}" || t == "any" || t == "[]any" {
				takes = true
			}
		}
		if takes && c.w.reachable(f)[c.dispatch] {
			c.renders[f] = true
		}
	}
}

// findPlain: the exported functions which render an element of any kind without the renderer of
// markup, and the field of the function with which they escape.
func (c *c09) findPlain() {
	for _, f := range c.w.Funcs {
		if relPkgOf(f) != sgmlPkg || isTest(c.w, f) || f.Signature.Results().Len() == 0 || basicClass(f.Signature.Results().At(0).Type()) != "string" || c.w.reachable(f)[c.dispatch] {
			continue
		}
		n := 0
		for _, in := range instrs(f) {
			if ta, ok := in.(*ssa.TypeAssert); ok && strings.HasPrefix(typeName(deref(ta.AssertedType)), "types.") {
				n++
			}
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == nil {
				if u, ok := call.Call.Value.(*ssa.UnOp); ok && len(call.Call.Args) == 1 && basicClass(call.Type()) == "string" {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && f.Signature.Recv() != nil {
						c.plainEscape = fieldName(fa.X.Type(), fa.Field)
					}
				}
			}
		}
		if n >= 8 {
			c.plain[f] = true
		}
	}
	// and those which give elements to them
	inner := sortedFns(c.plain)
	for _, f := range c.w.Funcs {
		if relPkgOf(f) != sgmlPkg || isTest(c.w, f) || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() == 0 || basicClass(f.Signature.Results().At(0).Type()) != "string" || c.w.reachable(f)[c.dispatch] {
			continue
		}
		for _, g := range inner {
			if c.w.reachable(f)[g] {
				c.plain[f] = true
			}
		}
	}
}

func relPkgOf(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	return relPkg(f.Pkg.Pkg)
}

// holePath is what a hole of a template shows: the functions applied to the value of a field.
var reHolePath = regexp.MustCompile(`^\.?[A-Za-z_][A-Za-z0-9_]*(\[\d+\])?(\.[A-Za-z_][A-Za-z0-9_]*(\[\d+\])?)*$|^\.$`)

func (c *c09) holeParts(hole string) (funcs []string, path []string) {
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ", "|", " ").Replace(hole))
	for _, t := range toks {
		if strings.HasPrefix(t, ".") && reHolePath.MatchString(t) && path == nil {
			for _, s := range strings.Split(t[1:], ".") {
				if k := strings.Index(s, "["); k >= 0 {
					s = s[:k]
				}
				path = append(path, s)
			}
			continue
		}
		if c.m.funcVals[t] != nil {
			funcs = append(funcs, t)
		} else if t == "html" || t == "urlquery" || t == "js" || t == "len" {
			funcs = append(funcs, t)
		}
	}
	return funcs, path
}

// holeLeaves: where the text shown in a hole comes from.
func (c *c09) holeLeaves(tmpl, hole string) map[string]c09Leaf {
	funcs, path := c.holeParts(hole)
	res := map[string]c09Leaf{}
	add := func(ls []c09Leaf) {
		for _, l := range ls {
			for _, f := range funcs {
				l = c.applied(f, l, res)
			}
			res[l.class+" "+l.name] = l
		}
	}
	if path == nil {
		return res
	}
	for _, e := range c.m.execs {
		has := false
		for _, f := range e.fields {
			has = has || f == tmpl
		}
		if !has {
			continue
		}
		for _, d := range e.data {
			if path[0] == "" { // the data itself
				add(c.leaves(d))
				continue
			}
			t := d.v.Type()
			if mi, ok := d.v.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			// numbers, whatever their values
			names, last := fieldPath(t, path)
			if last == nil {
				continue
			}
			if b, ok := last.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
				add([]c09Leaf{{class: "number", name: names[len(names)-1], pos: e.pos()}})
				continue
			}
			if len(path) == 1 {
				pl := e.fieldPlaces(d, path[0])
				for _, v := range pl {
					add(c.leaves(v))
				}
				if len(pl) > 0 {
					continue
				}
			}
			// a field of a value made elsewhere: whatever is stored in it
			n := names[len(names)-1]
			vals := c.w.fieldStores()[n]
			for _, v := range vals {
				add(c.leaves(place{v: v}))
			}
		}
	}
	return res
}

// fieldPath: the qualified names of the fields on the path, and the type of the last one.
func fieldPath(t types.Type, path []string) ([]string, types.Type) {
	var names []string
	for _, p := range path {
		t = deref(t)
		for {
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = deref(s.Elem())
				continue
			}
			break
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == p {
				names = append(names, fieldName(t, i))
				t, found = st.Field(i).Type(), true
				break
			}
		}
		if !found {
			return nil, nil
		}
	}
	for {
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
			continue
		}
		break
	}
	return names, t
}

// applied: the value after a function of the templates. Other values which the function may give
// are added to the result.
func (c *c09) applied(name string, l c09Leaf, res map[string]c09Leaf) c09Leaf {
	switch name {
	case "html", "urlquery", "js":
		l.class, l.covers = "escaped", allMarkup
		return l
	case "len":
		l.class = "number"
		return l
	}
	f := fnOfValue(c.m.funcVals[name])
	if f == nil || len(f.Blocks) == 0 {
		return l
	}
	covers, viaParam, undone := allMarkup, false, false
	for _, rv := range returned(f, 0) {
		for _, x := range c.leaves(place{v: rv}) {
			if _, ok := x.v.(*ssa.Parameter); ok {
				viaParam = true
				undone = undone || x.unescaped && x.class != "escaped"
				if x.class != "escaped" {
					covers = ""
				} else {
					covers = intersectChars(covers, x.covers)
				}
				continue
			}
			if x.class == "raw" && strings.HasPrefix(x.name, "parameter") {
				viaParam, covers = true, ""
				continue
			}
			res[x.class+" "+x.name] = x
		}
	}
	if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
		l.class = "number"
		return l
	}
	if !viaParam {
		l.class = "const"
		return l
	}
	if undone && l.class != "const" && l.class != "number" {
		l.class, l.covers = "raw", ""
		return l
	}
	if covers != "" && l.class != "const" && l.class != "number" {
		l.class, l.covers = "escaped", covers
	}
	return l
}

func fnOfValue(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeInterface:
		return fnOfValue(v.X)
	case *ssa.ChangeType:
		return fnOfValue(v.X)
	case *ssa.MakeClosure:
		return fnOfValue(v.Fn)
	}
	return nil
}

func returned(f *ssa.Function, i int) []ssa.Value {
	var res []ssa.Value
	for _, in := range instrs(f) {
		if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
			res = append(res, r.Results[i])
		}
	}
	return res
}

const allMarkup = `<>&"`

func intersectChars(a, b string) string {
	res := ""
	for _, r := range a {
		if strings.ContainsRune(b, r) {
			res += string(r)
		}
	}
	return res
}

// replacerCovers: which of the characters of the markup a replacer always replaces.
func (c *c09) replacerCovers(v ssa.Value) string {
	var call *ssa.Call
	switch v := v.(type) {
	case *ssa.Call:
		call = v
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		if !ok {
			return ""
		}
		n := 0
		for _, fn := range c.w.Funcs {
			for _, in := range instrs(fn) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					n++
					call, _ = st.Val.(*ssa.Call)
				}
			}
		}
		if init := g.Pkg.Func("init"); init != nil {
			for _, in := range instrs(init) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) && call == nil {
					n++
					call, _ = st.Val.(*ssa.Call)
				}
			}
		}
	}
	if call == nil || callName(call.Common()) != "strings.NewReplacer" {
		return ""
	}
	var args []string
	for _, a := range orderedVarargs(call.Call.Args[0]) {
		s, ok := constString(a)
		if !ok {
			return ""
		}
		args = append(args, s)
	}
	res := ""
	for _, r := range allMarkup {
		ok := false
		for i := 0; i+1 < len(args); i += 2 {
			if args[i] == string(r) {
				ok = !strings.ContainsAny(args[i+1], `<>"`)
				if r == '&' {
					ok = strings.HasPrefix(args[i+1], "&") && strings.HasSuffix(args[i+1], ";")
				}
				break
			}
		}
		// longer texts which are kept
		for i := 0; i+1 < len(args); i += 2 {
			if len(args[i]) > 1 && r != '&' && strings.ContainsRune(args[i+1], r) {
				ok = false
			}
		}
		if ok {
			res += string(r)
		}
	}
	return res
}

func orderedVarargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	byIdx := map[int64]ssa.Value{}
	max := int64(-1)
	for _, u := range refs(sl.X) {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, x := range refs(ia) {
			if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				byIdx[k.Int64()] = st.Val
				if k.Int64() > max {
					max = k.Int64()
				}
			}
		}
	}
	var res []ssa.Value
	for i := int64(0); i <= max; i++ {
		if byIdx[i] == nil {
			return nil
		}
		res = append(res, byIdx[i])
	}
	return res
}

func (c *c09) stop(v ssa.Value, ctx *frame) bool {
	if p, ok := v.(*ssa.Parameter); ok && c.self != nil && p.Parent() == c.self && types.IsInterface(p.Type()) {
		return true
	}
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if m, _ := attributeGetter(call); m != nil {
		return true
	}
	if callName(call.Common()) == "(*text/template.Template).Execute" || call.Call.IsInvoke() {
		return true
	}
	f := call.Call.StaticCallee()
	return f != nil && (c.renders[f] || f == c.dispatch || c.plain[f])
}

func (c *c09) leaves(p place) []c09Leaf {
	w := c.w
	t := &tracer{w: w,
		fields: func(n string, t types.Type) bool {
			if strings.HasPrefix(n, "sgml.") && !strings.HasPrefix(n, "sgml.plaintextRenderer.") {
				return !strings.HasPrefix(n, "sgml.sgmlRenderer.")
			}
			return strings.HasPrefix(n, "types.ToCSection.") && n != "types.ToCSection.ID"
		},
		stop: c.stop,
	}
	t.op = func(v ssa.Value, ctx *frame) (string, []ssa.Value) {
		o, ops := c.op(v, ctx)
		if o == "unescape" && strings.Contains(t.cur, "escape:") {
			o = ""
		}
		return o, ops
	}
	t.trace(p.v, p.ctx)
	if t.incomplete {
		c.r.Note("the origin of a text is followed in part only: %s", w.pos(p.v.Pos()))
	}
	var res []c09Leaf
	for _, l := range t.out {
		res = append(res, c.classify(l))
	}
	return res
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && basicClass(s.Elem()) == "string"
}

func isStringMap(t types.Type) bool {
	s, ok := t.Underlying().(*types.Map)
	return ok && basicClass(s.Elem()) == "string"
}

// op: the operands of an operation on texts, and of the lists and tables of texts.
func (c *c09) op(v ssa.Value, ctx *frame) (string, []ssa.Value) {
	w := c.w
	if e, ok := v.(*ssa.Extract); ok {
		switch tp := e.Tuple.(type) {
		case *ssa.Lookup:
			if e.Index == 0 && isStringMap(tp.X.Type()) {
				return "", []ssa.Value{tp.X}
			}
		case *ssa.Next:
			if rg, ok := tp.Iter.(*ssa.Range); ok && tp.IsString && e.Index == 2 {
				return "", []ssa.Value{rg.X}
			} else if ok && isStringMap(rg.X.Type()) && e.Index == 2 {
				return "", []ssa.Value{rg.X}
			}
		case *ssa.Call:
			if e.Index == 0 {
				if f := tp.Call.StaticCallee(); f != nil && !w.inScopeFn(unwrapSynthetic(f)) {
					v = tp
				}
			}
		}
	}
	switch v := v.(type) {
	case *ssa.Lookup:
		if basicClass(v.X.Type()) == "string" {
			return "", []ssa.Value{v.X}
		}
		if isStringMap(v.X.Type()) {
			return "", []ssa.Value{v.X}
		}
	case *ssa.MakeMap:
		if vals := c.mapValues(v); len(vals) > 0 {
			return "", vals
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return "", nil
		}
		if ia, ok := v.X.(*ssa.IndexAddr); ok && isStrings(ia.X.Type()) {
			return "", []ssa.Value{ia.X}
		}
		if g, ok := v.X.(*ssa.Global); ok {
			if vals := c.globalValues(g); len(vals) > 0 {
				return "", vals
			}
		}
	case *ssa.MakeSlice:
		if isStrings(v.Type()) {
			return "", c.sliceElems(v)
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && isStrings(v.Type()) {
				ops := append([]ssa.Value{}, v.Call.Args...)
				return "", append(ops, c.sliceElems(v)...)
			}
			return "", nil
		}
		f := v.Call.StaticCallee()
		if f == nil {
			// the function with which a plain text is escaped
			if u, ok := v.Call.Value.(*ssa.UnOp); ok && len(v.Call.Args) == 1 {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == c.plainEscape {
					return "escape:" + allMarkup, v.Call.Args
				}
			}
			return "", nil
		}
		n := callName(v.Common())
		switch n {
		case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
			return "", c.written(v.Call.Args[0])
		case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
			return "", append([]ssa.Value{v.Call.Args[0]}, varargs(v.Call.Args[len(v.Call.Args)-1])...)
		case "(*strings.Replacer).Replace":
			if k := c.replacerCovers(v.Call.Args[0]); k != "" {
				return "escape:" + k, v.Call.Args[1:2]
			}
			return "", v.Call.Args[1:2]
		case "strings.Join":
			return "", v.Call.Args
		case "net/url.PathEscape", "net/url.QueryEscape":
			return "escape:" + allMarkup, v.Call.Args
		case "html/template.HTMLEscape", "text/template.HTMLEscape":
			return "escape:" + allMarkup, v.Call.Args[1:]
		case "html.UnescapeString":
			return "unescape", v.Call.Args
		case "strings.Map", "strings.ToValidUTF8", "strings.Fields", "strings.Split", "strings.SplitN":
			return "", v.Call.Args[len(v.Call.Args)-1:]
		}
		if n == "strings.Split" || n == "strings.SplitN" || n == "strings.Fields" {
			return "", v.Call.Args[:1]
		}
		if w.inScopeFn(unwrapSynthetic(f)) {
			return "", nil
		}
		if o := normOp(n); o != "" {
			var ops []ssa.Value
			for _, a := range v.Call.Args {
				if basicClass(a.Type()) == "string" {
					ops = append(ops, a)
				}
			}
			if o == "escape" {
				o = "escape:" + allMarkup
			} else {
				o = ""
			}
			if len(ops) > 0 {
				return o, ops
			}
		}
	case *ssa.BinOp:
		if v.Op == token.ADD && basicClass(v.Type()) == "string" {
			return "", []ssa.Value{v.X, v.Y}
		}
	case *ssa.Slice:
		if basicClass(v.Type()) == "string" {
			return "", []ssa.Value{v.X}
		}
		if isStrings(v.Type()) {
			if _, ok := v.X.(*ssa.Alloc); ok {
				return "", append(c.sliceElems(v), c.sliceElems(v.X)...)
			}
			return "", append([]ssa.Value{v.X}, c.sliceElems(v)...)
		}
	}
	return "", nil
}

// sliceElems: what is stored in the elements of a list.
func (c *c09) sliceElems(v ssa.Value) []ssa.Value {
	var res []ssa.Value
	for _, u := range refs(v) {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, x := range refs(ia) {
				if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					res = append(res, st.Val)
				}
			}
		}
	}
	return res
}

// mapValues: what is stored in a table, also by the functions which are given it.
func (c *c09) mapValues(m ssa.Value) []ssa.Value {
	var res []ssa.Value
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, r := range refs(v) {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				if r.Map == v && basicClass(r.Value.Type()) == "string" {
					res = append(res, r.Value)
				}
			case *ssa.Phi:
				visit(r)
			case *ssa.ChangeType:
				visit(r)
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v {
						visit(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.Store:
				// kept in a variable
				if al, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					for _, x := range refs(al) {
						if u, ok := x.(*ssa.UnOp); ok {
							visit(u)
						}
						if mc, ok := x.(*ssa.MakeClosure); ok {
							for i, b := range mc.Bindings {
								if b == ssa.Value(al) {
									for _, y := range refs(mc.Fn.(*ssa.Function).FreeVars[i]) {
										if u, ok := y.(*ssa.UnOp); ok {
											visit(u)
										}
									}
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				if f := r.Common().StaticCallee(); f != nil && c.w.inScopeFn(f) {
					for i, a := range r.Common().Args {
						if a == v && i < len(f.Params) {
							visit(f.Params[i])
						}
					}
				}
			}
		}
	}
	visit(m)
	return res
}

// globalValues: what is stored in a variable of the package, if it is never stored in elsewhere
// than in its initialisation.
func (c *c09) globalValues(g *ssa.Global) []ssa.Value {
	if c.globals == nil {
		c.globals = map[*ssa.Global][]ssa.Value{}
		seen := map[*ssa.Function]bool{}
		visit := func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			for _, in := range instrs(f) {
				if st, ok := in.(*ssa.Store); ok {
					if x, ok := st.Addr.(*ssa.Global); ok {
						c.globals[x] = append(c.globals[x], st.Val)
					}
				}
			}
		}
		for _, f := range c.w.Funcs {
			visit(f)
			if f.Pkg != nil && f.Pkg.Func("init") != nil {
				visit(f.Pkg.Func("init"))
			}
		}
	}
	if g.Pkg == nil || relPkg(g.Pkg.Pkg) == "" {
		return nil
	}
	t := deref(g.Type())
	if !isStringMap(t) && !isStrings(t) && basicClass(t) != "string" {
		return nil
	}
	return c.globals[g]
}

// written: what is written into a builder.
func (c *c09) written(b ssa.Value) []ssa.Value {
	var res []ssa.Value
	var visit func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, r := range refs(v) {
			switch r := r.(type) {
			case *ssa.MakeInterface:
				visit(r)
			case *ssa.ChangeInterface:
				visit(r)
			case *ssa.Call:
				n := callName(r.Common())
				switch {
				case strings.HasSuffix(n, ".WriteString") || strings.HasSuffix(n, ").Write") || strings.HasSuffix(n, ".WriteRune") || strings.HasSuffix(n, ".WriteByte"):
					if r.Call.Args[0] == v {
						res = append(res, r.Call.Args[1])
					}
				case n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "fmt.Fprintln" || n == "io.WriteString":
					if n != "fmt.Fprint" && n != "fmt.Fprintln" {
						res = append(res, r.Call.Args[1])
					}
					res = append(res, varargs(r.Call.Args[len(r.Call.Args)-1])...)
				case n == "(*text/template.Template).Execute":
					res = append(res, r)
				case strings.HasPrefix(n, "(*strings.Builder)"), strings.HasPrefix(n, "(*bytes.Buffer)"):
				default:
					if f := r.Call.StaticCallee(); f != nil && c.w.inScopeFn(f) {
						for i, a := range r.Call.Args {
							if a == v && i < len(f.Params) {
								visit(f.Params[i])
							}
						}
					} else {
						res = append(res, r)
					}
				}
			}
		}
	}
	visit(b)
	return res
}

func (c *c09) classify(l place) c09Leaf {
	v := l.v
	res := c09Leaf{class: "raw", name: c.w.leafName(l), pos: v.Pos(), v: v}
	if k, ok := v.(*ssa.Const); ok {
		s, ok := constString(k)
		res.class = "const"
		if ok && strings.Contains(s, "\"") {
			res.class = "markup"
		}
		return res
	}
	res.unescaped = strings.Contains(" "+l.ops, " unescape")
	if l.ops != "" && strings.Contains(l.ops, "escape:") {
		for _, o := range strings.Fields(l.ops) {
			if strings.HasPrefix(o, "escape:") {
				for _, r := range o[len("escape:"):] {
					if !strings.ContainsRune(res.covers, r) {
						res.covers += string(r)
					}
				}
			}
		}
		if !strings.Contains(" "+l.ops, " unescape") {
			res.class = "escaped"
			return res
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	if call, ok := v.(*ssa.Call); ok {
		f := call.Call.StaticCallee()
		n := callName(call.Common())
		switch {
		case n == "(*text/template.Template).Execute", f != nil && (c.renders[f] || f == c.dispatch):
			res.class = "markup"
			if n != "(*text/template.Template).Execute" {
				res.fn, res.name = f, "the result of "+fnName(f)
			}
		case call.Call.IsInvoke() && call.Call.Method.Name() == "Execute":
			res.class = "markup" // the macro of the caller
		case f != nil && c.plain[f]:
			res.class = "plain"
			res.name = "the result of " + fnName(f)
			if f.Signature.Variadic() { // unless the options say otherwise
				if k, ok := call.Call.Args[len(call.Call.Args)-1].(*ssa.Const); !ok || !k.IsNil() {
					res.class = "raw"
				}
			}
		case strings.HasPrefix(n, "(time.Time)."), strings.HasPrefix(n, "strconv."), strings.HasPrefix(n, "(*encoding/base64."), strings.HasSuffix(n, "/formatters/html.Formatter).Format"):
			res.class = "const"
		}
	}
	t := l.v.Type()
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 && b.Kind() != types.Rune && b.Kind() != types.Byte {
		res.class = "number"
	}
	if res.class == "raw" && c.enumeration(t) {
		res.class = "const"
	}
	return res
}

// enumeration: a type of texts whose values are all constants.
func (c *c09) enumeration(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || basicClass(t) != "string" || relPkg(n.Obj().Pkg()) == "" {
		return false
	}
	if c.enums == nil {
		c.enums = map[*types.TypeName]bool{}
		for _, f := range c.w.Funcs {
			for _, in := range instrs(f) {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				var x ssa.Value
				switch v := v.(type) {
				case *ssa.ChangeType:
					x = v.X
				case *ssa.Convert:
					x = v.X
				case *ssa.BinOp:
					x = v.X
				default:
					continue
				}
				if m, ok := types.Unalias(v.Type()).(*types.Named); ok {
					if _, isConst := x.(*ssa.Const); !isConst {
						c.enums[m.Obj()] = true // made of other texts
					}
				}
			}
		}
	}
	return !c.enums[n.Obj()]
}
