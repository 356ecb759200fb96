package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: the problems found while validating a document are reported, and the document is rendered as an article.

func init() {
	register(&checkDef{id: "C26", title: "A manual page that fails validation is reported and rendered as an article", run: runC26,
		explanation: "Each function of the API is followed along all its paths, through the helpers of its package, with what is known of the configuration, of the document and of the problems: before the document is rendered it is validated with the type set by the caller or else declared in the document; with problems, they are all logged (at the level of warnings at least) and the configuration given to the renderer is a copy of the caller's in which the type is `article`; without, the type is unchanged; the document is rendered in both cases unless the validation itself fails. Each problem made by the validator is in what it returns, on each path. The layout of manual pages is only used under the condition that the type of the document, as the renderer reads it, is `manpage`.",
		assumptions: []string{"the attributes of the caller win while rendering (C08)"}})
}

type manCheck struct {
	w          *World
	r          *Report
	validators map[*ssa.Function]bool
	renders    map[*ssa.Function]bool
	problem    *types.Named
	severities []string // the constants, quoted
	inRoot     map[*ssa.Function]bool
	done       map[string]string
	order      []string
	where      map[string]string
	copied     map[string]string // maps filled with the entries of another one
	logLoops   map[string]bool   // loops which report the problems
}

func runC26(w *World, r *Report) {
	w.buildCallGraph()
	c := &manCheck{w: w, r: r, validators: map[*ssa.Function]bool{}, renders: map[*ssa.Function]bool{}, done: map[string]string{}, where: map[string]string{}, copied: map[string]string{}, logLoops: map[string]bool{}}
	c.find()
	c.converters()
	c.validator()
	c.layout()
}

// find locates the entry points of the validator and of the renderer.
func (c *manCheck) find() {
	for _, f := range c.w.Funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		switch relPkg(f.Pkg.Pkg) {
		case "pkg/validator":
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if s, ok := res.At(i).Type().Underlying().(*types.Slice); ok {
					if n, ok := types.Unalias(deref(s.Elem())).(*types.Named); ok && n.Obj().Pkg() == f.Pkg.Pkg {
						c.validators[f] = true
						c.problem = n
					}
				}
			}
		case "pkg/renderer":
			c.renders[f] = true
		}
	}
	c.r.Floor("entry points of the validator", len(c.validators), 1)
	c.r.Floor("entry points of the renderer", len(c.renders), 1)
	if c.problem == nil {
		return
	}
	st, _ := c.problem.Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		n, ok := types.Unalias(st.Field(i).Type()).(*types.Named)
		if !ok || n.Obj().Pkg() != c.problem.Obj().Pkg() {
			continue
		}
		sc := n.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			if k, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(k.Type(), n) {
				c.severities = append(c.severities, k.Val().ExactString())
			}
		}
	}
}

func (c *manCheck) fail(rule, construct, pos, detail string) {
	k := rule + "|" + construct
	if d, ok := c.done[k]; !ok || d == "" {
		if !ok {
			c.order = append(c.order, k)
		}
		c.done[k] = detail
		c.where[k] = pos
	}
}

func (c *manCheck) pass(rule, construct, pos string) {
	k := rule + "|" + construct
	if _, ok := c.done[k]; !ok {
		c.order = append(c.order, k)
		c.done[k] = ""
		c.where[k] = pos
	}
}

func (c *manCheck) flush() {
	for _, k := range c.order {
		p := strings.SplitN(k, "|", 2)
		c.r.Check(p[0], p[1], c.where[k], c.done[k] == "", c.done[k])
	}
	c.order, c.done = nil, map[string]string{}
}

// logLevel is the level of a call which logs something (0: not logged, 1: below warnings, 2: warnings and above).
func logLevel(g *ssa.Function) int {
	if g == nil || g.Pkg == nil || !strings.Contains(g.Pkg.Pkg.Path(), "logrus") && g.Pkg.Pkg.Path() != "log" && g.Pkg.Pkg.Path() != "log/slog" {
		return 0
	}
	n := g.Name()
	for _, p := range []string{"Warn", "Error", "Fatal", "Panic"} {
		if strings.HasPrefix(n, p) {
			return 2
		}
	}
	for _, p := range []string{"Info", "Debug", "Trace", "Print"} {
		if strings.HasPrefix(n, p) {
			return 1
		}
	}
	return 0
}

const (
	manProblems = "problems found"
	manError    = "error of the validator"
	manDoctype  = `"doctype"`
)

// attributes gives a meaning to the methods of the attributes.
func attrCall(s *astate, in ssa.CallInstruction, fn xval, args []xval) ([]xval, bool) {
	g := fn.fn
	if g == nil || g.Signature.Recv() == nil || !isAttributes(g.Signature.Recv().Type()) || len(args) == 0 {
		return nil, false
	}
	at := func(i int) string { return args[0].s + "[" + args[i].s + "]" }
	switch g.Name() {
	case "Clone":
		// a copy of the same attributes
		id := "clone " + args[0].s
		for k, v := range s.mem {
			if strings.HasPrefix(k, args[0].s+"[") {
				s.mem[id+k[len(args[0].s):]] = v
			}
		}
		return []xval{{k: 'O', s: id}}, true
	case "Has":
		if len(args) == 2 {
			if _, ok := s.mem[at(1)]; ok {
				return []xval{xconst("true")}, true
			}
			return []xval{xterm("found " + at(1))}, true
		}
	case "Set":
		if len(args) == 3 {
			s.mem[at(1)] = args[2]
			return []xval{args[0]}, true
		}
	case "Unset":
		if len(args) == 2 {
			s.mem[at(1)] = xconst("nil")
			return nil, true
		}
	case "GetAsString":
		if len(args) == 2 {
			return []xval{xterm("str(" + at(1) + ")"), xterm("found " + at(1))}, true
		}
	case "GetAsStringWithDefault":
		if len(args) == 3 {
			return []xval{xterm("str(" + at(1) + "," + args[2].s + ")")}, true
		}
	}
	return nil, false
}

// converters: what the functions of the API do with the problems.
func (c *manCheck) converters() {
	nv, nr := 0, 0
	root := func(g *ssa.Function) bool { return g.Pkg != nil && relPkg(g.Pkg.Pkg) == "" }
	for _, fn := range c.w.Funcs {
		if !root(fn) || fn.Parent() != nil || !isAPI(fn) {
			continue
		}
		name := fnName(fn)
		x := &absint{w: c.w, inline: root}
		fromCaller, fromDoc := false, false
		x.visit = func(f *aframe, s *astate, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				if x.val(f, in.X).s == manProblems {
					s.data["pending"] = "1"
				}
			case *ssa.MapUpdate:
				if src := rangedOver(in.Key); src != nil {
					c.copied[x.val(f, in.Map).s] = x.val(f, src).s
				}
			}
		}
		x.loop = func(f *aframe, s *astate, head *ssa.BasicBlock) {
			if s.data["each"] != "" {
				for k, v := range s.conds {
					if v && strings.HasSuffix(k, "< len("+manProblems+"))") {
						c.logLoops[k] = true
					}
				}
			}
			if s.data["pending"] != "1" || s.data["reported"] != "" || c.exhausted(s) {
				return
			}
			c.fail("reported", name, c.w.pos(head.Instrs[0].Pos()), "a problem may not be reported by the loop over the problems")
		}
		x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fv xval, args []xval) ([]xval, bool) {
			if res, ok := attrCall(s, in, fv, args); ok {
				return res, true
			}
			g := fv.fn
			pos := c.w.pos(in.Pos())
			switch {
			case g == nil:
				return nil, false
			case c.validators[g]:
				nv++
				s.data["validated"] = args[0].s
				ok := false
				for _, a := range args {
					if !strings.HasPrefix(a.s, "str(") {
						continue
					}
					ok = strings.HasSuffix(a.s, `,"article")`) && strings.Contains(a.s, "["+manDoctype+"]")
					if strings.Contains(a.s, ".Attributes["+manDoctype+"]") {
						fromCaller = true
					} else if v, known := s.conds["found *param config.Attributes["+manDoctype+"]"]; known && !v {
						fromDoc = true
					}
				}
				if !ok {
					c.fail("doctype", name, pos, "the document is not validated with the type of document of the caller or of the document, an article by default")
				} else {
					c.pass("doctype", name, pos)
				}
				return []xval{xterm(manProblems), xterm(manError)}, true
			case c.renders[g]:
				nr++
				c.rendered(name, f, s, pos, args)
				s.data["rendered"] = "1"
				return []xval{xterm("metadata"), xterm("error of the renderer")}, true
			case logLevel(g) > 0:
				if logLevel(g) == 2 && s.conds["(0 == len("+manProblems+"))"] == false {
					c.logged(x, s, args)
				}
				return nil, true
			}
			return nil, false
		}
		relevant := false
		x.run(fn, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			if s.data["validated"] == "" {
				return
			}
			relevant = true
			none, known := s.conds["(0 == len("+manProblems+"))"]
			failed := false
			for k, v := range s.conds {
				if k == "("+manError+" == nil)" && !v {
					failed = true
				}
			}
			if failed || s.data["rendered"] != "" {
				return
			}
			if !known || !none {
				c.fail("fallback", name, c.w.pos(ret.Pos()), "the document is not rendered when there are problems")
			}
		})
		if x.over {
			c.fail("fallback", name, c.w.pos(fn.Pos()), "too many paths")
		}
		if relevant {
			k := "whose type is declared"
			c.r.Check("doctype", name+" set by the caller", c.w.pos(fn.Pos()), fromCaller, "the type of document set by the caller is validated")
			ok := fromDoc && c.readsDeclarations(x.ran)
			c.r.Check("doctype", name+" "+k, c.w.pos(fn.Pos()), ok, "the type of document declared in the document is validated, unless the caller sets one")
		}
	}
	c.flush()
	c.r.Floor("validations", nv, 1)
	c.r.Floor("documents rendered", nr, 1)
}

// rangedOver is the map whose keys the value goes through.
func rangedOver(k ssa.Value) ssa.Value {
	e, ok := k.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return nil
	}
	n, ok := e.Tuple.(*ssa.Next)
	if !ok {
		return nil
	}
	if r, ok := n.Iter.(*ssa.Range); ok {
		return r.X
	}
	return nil
}

// exhausted: the severity of the problem is none of the constants.
func (c *manCheck) exhausted(s *astate) bool {
	if len(c.severities) == 0 {
		return false
	}
	for _, k := range c.severities {
		found := false
		for cond, v := range s.conds {
			if !v && strings.Contains(cond, manProblems) && strings.Contains(cond, " == ") && strings.Contains(cond, k) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// logged: the arguments contain all problems, or the one of the iteration.
func (c *manCheck) logged(x *absint, s *astate, args []xval) {
	var vals []xval
	for _, a := range args {
		vals = append(vals, a)
		for k, v := range s.mem {
			if strings.HasPrefix(k, a.s+"[") {
				vals = append(vals, v)
			}
		}
	}
	for _, v := range vals {
		switch {
		case v.s == manProblems:
			s.data["reported"] = "all"
		case strings.Contains(v.s, manProblems+"["):
			s.data["pending"] = ""
			s.data["each"] = "1"
		case v.k == 'O' || v.k == 'S': // a copy of the problem
			if l := s.link[v.s]; strings.Contains(l, manProblems+"[") {
				s.data["pending"] = ""
				s.data["each"] = "1"
			}
		}
	}
}

// rendered checks the document and the configuration which are given to the renderer.
func (c *manCheck) rendered(name string, f *aframe, s *astate, pos string, args []xval) {
	if s.data["validated"] != args[0].s {
		c.fail("validated", name, pos, "the document was not validated")
		return
	}
	c.pass("validated", name, pos)
	var config xval
	for _, a := range args {
		if strings.HasPrefix(a.s, "param config") || s.link[a.s] != "" {
			config = a
		}
	}
	if config.s == "" || config.k != 'T' && !strings.HasPrefix(s.link[config.s], "param ") {
		c.fail("fallback", name, pos, "the configuration is neither the one of the caller nor a copy of it")
		return
	}
	attrs := s.load(config.s + ".Attributes")
	dt, set := s.mem[attrs.s+"["+manDoctype+"]"]
	none, known := s.conds["(0 == len("+manProblems+"))"]
	switch {
	case !known:
		c.fail("fallback", name, pos, "the document is rendered in the same way whether there are problems or not")
	case none:
		if set {
			c.fail("kept", name, pos, "the type of the document is changed although there are no problems")
		} else {
			c.pass("kept", name, pos)
		}
	default:
		if !set || dt.k != 'C' || dt.s != `"article"` {
			c.fail("fallback", name, pos, "the document has problems, and is not rendered as an article")
		} else if !strings.Contains(attrs.s, "param config.Attributes") && !strings.Contains(c.copied[attrs.s], "param config.Attributes") {
			c.fail("fallback", name, pos, "the other attributes of the caller are lost")
		} else {
			c.pass("fallback", name, pos)
		}
		ended := false
		for k, v := range s.conds {
			ended = ended || !v && c.logLoops[k]
		}
		if s.data["reported"] == "" && !ended {
			c.fail("reported", name, pos, "the document has problems, and they are not reported")
		} else {
			c.pass("reported", name, pos)
		}
	}
}

// readsDeclarations: the values of the declarations are put in the attributes which are read.
func (c *manCheck) readsDeclarations(ran map[*ssa.Function]bool) bool {
	for f := range ran {
		for _, in := range instrs(f) {
			var v ssa.Value
			if _, _, ok := mapWrite(in); ok {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					v = mu.Value
				}
			} else if call, ok := in.(*ssa.Call); ok && len(call.Call.Args) == 3 && isAttributes(call.Call.Args[0].Type()) {
				v = call.Call.Args[2]
			}
			if u, ok := v.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "types.AttributeDeclaration.Value" {
					return true
				}
			}
		}
	}
	return false
}

// validator: the problems which are found are returned.
func (c *manCheck) validator() {
	if c.problem == nil {
		return
	}
	makes := func(g *ssa.Function) bool {
		if g.Pkg == nil || g.Pkg.Pkg != c.problem.Obj().Pkg() {
			return false
		}
		res := g.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if strings.Contains(types.TypeString(res.At(i).Type(), nil), "."+c.problem.Obj().Name()) {
				return true
			}
		}
		for i := 0; i < g.Signature.Params().Len(); i++ {
			if strings.Contains(types.TypeString(g.Signature.Params().At(i).Type(), nil), "."+c.problem.Obj().Name()) {
				return true
			}
		}
		return false
	}
	n := 0
	for v := range c.validators {
		name := fnName(v)
		x := &absint{w: c.w, inline: makes}
		compared := false
		x.visit = func(f *aframe, s *astate, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Alloc:
				if a, ok := deref(in.Type()).Underlying().(*types.Array); ok && types.Identical(a.Elem(), c.problem) {
					n++
					s.data["made "+fmt.Sprintf("%d.%s", f.id, in.Name())] = c.w.pos(in.Pos())
				}
			case *ssa.If:
				cv := x.val(f, in.Cond)
				if strings.Contains(cv.s, "== param ") && strings.Contains(cv.s, `"manpage"`) {
					compared = true
				}
			}
		}
		x.run(v, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
			for k, pos := range s.data {
				if !strings.HasPrefix(k, "made ") {
					continue
				}
				id := k[len("made "):]
				found := false
				for _, r := range res {
					t := strings.FieldsFunc(r.s, func(c rune) bool { return c == '(' || c == ',' || c == ')' })
					for _, w := range t {
						found = found || w == id
					}
				}
				if !found {
					c.fail("returned", name, pos, "a problem which was found is not returned on a path")
				} else {
					c.pass("returned", name, pos)
				}
			}
		})
		if x.over {
			c.fail("returned", name, c.w.pos(v.Pos()), "too many paths")
		}
		c.flush()
		c.r.Check("same-type", name, c.w.pos(v.Pos()), compared, "documents whose type is `manpage` are validated")
	}
	c.r.Floor("problems", n, 1)
}

// layout: the renderer uses the layout of the manual pages only for them.
func (c *manCheck) layout() {
	n := 0
	var guarded func(f *ssa.Function, depth int, seen map[*ssa.Function]bool) string
	isMan := func(f cond) bool {
		f = f.norm()
		b, ok := f.v.(*ssa.BinOp)
		if !ok || !f.val {
			return false
		}
		k, ok := constString(b.Y)
		v := b.X
		if !ok {
			k, ok = constString(b.X)
			v = b.Y
		}
		if !ok || k != "manpage" {
			return false
		}
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		for _, a := range call.Call.Args {
			if s, ok := constString(a); ok && s == "doctype" {
				return true
			}
		}
		return false
	}
	guarded = func(f *ssa.Function, depth int, seen map[*ssa.Function]bool) string {
		if seen[f] {
			return ""
		}
		seen[f] = true
		sites := c.w.callers[f]
		if len(sites) == 0 || depth > 8 {
			return fnName(f) + " may be used for any type of document"
		}
		for _, s := range sites {
			ok := false
			for _, fact := range factsAt(s.(ssa.Instruction).Block()) {
				ok = ok || isMan(fact)
			}
			if ok {
				n++
				continue
			}
			if bad := guarded(s.Parent(), depth+1, seen); bad != "" {
				return bad
			}
		}
		return ""
	}
	for _, f := range c.w.Funcs {
		// the accessor of the template
		for _, in := range instrs(f) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(fieldName(fa.X.Type(), fa.Field), ".ManpageHeader") || relPkg(f.Pkg.Pkg) != "pkg/renderer/sgml" {
				continue
			}
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			bad := guarded(top, 0, map[*ssa.Function]bool{})
			c.r.Check("layout", fnName(top), c.w.pos(fa.Pos()), bad == "", bad)
		}
	}
	c.r.Floor("uses of the layout of manual pages", n, 1)
}
