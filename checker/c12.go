package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C12", title: "Emitted markup is well formed", run: runC12,
		explanation: "Every path through the conditions and loops of every template of both backends is enumerated (conditions on the same expression agree, loops are unrolled up to two times); the text of each path, with the values as opaque holes, is read as HTML or XHTML markup: tags, attributes, quoting, nesting, references. Templates whose elements are left open for the next execution are checked as a sequence, together with the code that chooses the values of the conditions. Markup in string constants of the renderer is checked in the same way.",
		assumptions: []string{"the values in the holes are themselves well formed: rendered content by induction, document text by C09", "the content of passthroughs and of templates given by the caller is the responsibility of their author"}})
}

func runC12(w *World, r *Report) {
	m := w.templates()
	total := 0
	for _, b := range m.backends {
		carried := map[string]bool{}
		for _, n := range m.names {
			tr := b.trees[n]
			if tr == nil {
				if b.texts[n].str != "" {
					r.Fail("template-known", b.name+"."+n, w.pos(b.texts[n].pos), "the template cannot be read")
				}
				continue
			}
			pos := w.pos(b.texts[n].pos)
			paths, complete := enumPaths(tr.Root)
			if !complete {
				r.Fail("paths-complete", b.name+"."+n, pos, "the template has too many paths, or a construct which is not supported (undecided)")
				continue
			}
			total += len(paths)
			r.Count("paths through templates", len(paths))
			if seq := sequential(paths, b.xml); seq != nil {
				carried[n] = true
				why := seq.wired(m, n)
				r.Check("sequence-closed", b.name+"."+n, pos, why == "", why)
				r.Count("templates closed across executions", 1)
				continue
			}
			bad := map[string]string{}
			for _, p := range paths {
				toks, errs, _ := lexMarkup(p.pieces, b.xml)
				r.Count("tags read", countTags(toks))
				open, errs2 := nest(toks, nil, b.xml)
				if len(open) > 0 && len(errs2) == 0 {
					errs2 = append(errs2, "<"+strings.Join(open, "><")+"> is not closed")
				}
				for _, e := range append(errs, errs2...) {
					if _, ok := bad[e]; !ok {
						bad[e] = envString(p.env)
					}
				}
			}
			if len(bad) == 0 {
				r.OK("markup", b.name+"."+n, pos, fmt.Sprintf("%d paths", len(paths)))
			}
			for _, e := range sortedKeys(bad) {
				r.Fail("markup", b.name+"."+n+": "+e, pos, e+" ("+bad[e]+")")
			}
		}
	}
	r.Floor("templates of both backends", len(m.backends), 2)
	r.Floor("paths", total, 300)
	c12Literals(w, r, m)
	// self-tests
	for _, t := range []struct {
		text string
		xml  bool
	}{{"<p>{{ .A }}", false}, {"<p {{ .A }}></p>", false}, {"<a href={{ .A }}></a>", false}, {"<br>", true}, {"{{ if .A }}<b>{{ end }}x{{ if .B }}</b>{{ end }}", false}, {"<p><b></p></b>", false}, {"<p class=\"a\"{{ if .A }}class=\"b\"{{ end }}></p>", false}, {"&nbsp;", true}, {"<p>a & b</p>", false}} {
		tr := parse.New("x")
		tr.Mode = parse.SkipFuncCheck
		if _, err := tr.Parse(t.text, "", "", map[string]*parse.Tree{}, nil); err != nil {
			continue
		}
		fired := false
		paths, _ := enumPaths(tr.Root)
		for _, p := range paths {
			toks, errs, _ := lexMarkup(p.pieces, t.xml)
			open, errs2 := nest(toks, nil, t.xml)
			if len(errs)+len(errs2)+len(open) > 0 {
				fired = true
			}
		}
		r.SelfTest("markup", fired)
	}
}

func countTags(ts []mtoken) int {
	n := 0
	for _, t := range ts {
		if t.kind == "start" || t.kind == "end" {
			n++
		}
	}
	return n
}

// sequence is the contract of a template that leaves elements open for its next execution: when the
// condition `in` holds, the elements are already open; they are left open exactly when none of `closes` holds.
type sequence struct {
	in     string
	open   []string
	closes []string // conditions: the elements are closed when one of them holds
}

// sequential finds such a contract, nil when there is none.
func sequential(paths []tpath, xml bool) *sequence {
	unbalanced := false
	set := map[string]bool{}
	for _, p := range paths {
		toks, errs, _ := lexMarkup(p.pieces, xml)
		if len(errs) > 0 {
			return nil
		}
		open, errs2 := nest(toks, nil, xml)
		if len(open) > 0 || len(errs2) > 0 {
			unbalanced = true
		}
		for a := range p.env {
			set[a] = true
		}
	}
	if !unbalanced {
		return nil
	}
	// what may be left open
	var S []string
	for _, p := range paths {
		toks, _, _ := lexMarkup(p.pieces, xml)
		if open, errs := nest(toks, nil, xml); len(errs) == 0 && len(open) > 0 && (S == nil || len(open) < len(S)) {
			S = open
		}
	}
	if S == nil {
		return nil
	}
	for _, in := range sortedKeys(set) {
		var leaves, closes []map[string]bool
		ok := true
		for _, p := range paths {
			v, known := p.env[in]
			if !known {
				ok = false
				break
			}
			var start []string
			if v {
				start = S
			}
			toks, _, _ := lexMarkup(p.pieces, xml)
			open, errs := nest(toks, start, xml)
			switch {
			case len(errs) > 0:
				ok = false
			case len(open) == 0:
				closes = append(closes, p.env)
			case strings.Join(open, " ") == strings.Join(S, " "):
				leaves = append(leaves, p.env)
			default:
				ok = false
			}
		}
		if !ok || len(leaves) == 0 || len(closes) == 0 {
			continue
		}
		// the elements are closed exactly when one of the conditions holds
		var cl []string
		for a := range set {
			if a == in {
				continue
			}
			never := true
			for _, e := range leaves {
				if v, known := e[a]; !known || v {
					never = false
				}
			}
			if never {
				cl = append(cl, a)
			}
		}
		sort.Strings(cl)
		good := len(cl) > 0
		for _, e := range closes {
			some := false
			for _, a := range cl {
				if e[a] {
					some = true
				}
			}
			if !some {
				good = false
			}
		}
		if good {
			return &sequence{in: in, open: S, closes: cl}
		}
	}
	return nil
}

// wired checks the code which executes the template in a sequence: the first time `in` is false;
// the next times it is true exactly when the previous execution has left the elements open; the last execution closes.
func (s *sequence) wired(m *tmplModel, n string) string {
	w := m.w
	name := strings.TrimPrefix(s.in, ".")
	found := 0
	for _, e := range m.execs {
		has := false
		for _, f := range e.fields {
			has = has || f == n
		}
		if !has {
			continue
		}
		for _, d := range e.data {
			found++
			// the conditions that close, by kind: a text (closed when it is not empty) and a flag of the last execution
			var texts []ssa.Value
			last := false
			for _, c := range s.closes {
				vals := e.fieldPlaces(d, strings.TrimPrefix(c, "."))
				for _, v := range vals {
					if basicClass(v.v.Type()) == "string" {
						texts = append(texts, v.v)
						continue
					}
					if why := isLastFlag(w, v); why != "" {
						return "the condition " + c + " should hold for the last element exactly: " + why
					}
					last = true
				}
			}
			if !last {
				return "<" + strings.Join(s.open, "><") + "> is left open by an execution without " + strings.Join(s.closes, ", ") + ": nothing closes it when it is the last one"
			}
			// in: false at first, then "the text is empty"
			t := &tracer{w: w}
			initial, next := false, false
			for _, v := range e.fieldPlaces(d, name) {
				t.trace(v.v, v.ctx)
			}
			for _, l := range t.out {
				if c, ok := l.v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					if constant.BoolVal(c.Value) {
						return "the condition " + s.in + " may hold for the first element"
					}
					initial = true
					continue
				}
				x, ok := emptinessOf(l.v)
				if !ok {
					return "the condition " + s.in + " comes from " + l.v.String() + " which is not recognised as the state left by the previous execution"
				}
				same := false
				for _, tx := range texts {
					if sameText(w, tx, x) {
						same = true
					}
				}
				if !same {
					return "the condition " + s.in + " does not depend on the text with which the previous execution closes the elements"
				}
				next = true
			}
			if !initial || !next || t.incomplete {
				return "the condition " + s.in + " is not recognised as the state left by the previous execution"
			}
		}
	}
	if found == 0 {
		return "the execution of the template is not found"
	}
	return ""
}

// emptinessOf: v is `x == ""` or `len(x) == 0`.
func emptinessOf(v ssa.Value) (ssa.Value, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	switch b.Op {
	case token.EQL:
		if k, ok := constString(y); ok && k == "" {
			return x, true
		}
		if k, ok := constInt(y); ok && k == 0 {
			if c, ok := x.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return c.Call.Args[0], true
				}
			}
		}
	}
	return nil, false
}

func sameText(w *World, a, b ssa.Value) bool {
	ra, rb := stripConv(a), stripConv(b)
	return ra == rb || valueRoot(ra) == valueRoot(rb)
}

// isLastFlag: the value is true for the last element of a loop over a slice and only for it.
func isLastFlag(w *World, p place) string {
	t := &tracer{w: w}
	t.trace(p.v, p.ctx)
	if len(t.out) == 0 {
		return "its value is not known"
	}
	for _, l := range t.out {
		b, ok := l.v.(*ssa.BinOp)
		if !ok {
			return "it comes from " + l.v.String()
		}
		if !(b.Op == token.EQL || b.Op == token.GEQ || b.Op == token.LEQ) {
			return "it is the comparison " + b.String()
		}
		// i (+c1) compared with len(x) (+c2): c1 - c2 == 1
		dx, vx := offset(b.X)
		dy, vy := offset(b.Y)
		if b.Op == token.LEQ || isLen(vx) {
			dx, vx, dy, vy = dy, vy, dx, vx
		}
		if !isLen(vy) {
			return "it is not compared with the length of the list"
		}
		if dx-dy != 1 {
			return fmt.Sprintf("the index is compared with the length %+d", dy-dx)
		}
		_, isPhi := vx.(*ssa.Phi)
		_, isNext := vx.(*ssa.Extract)
		if bo, ok := vx.(*ssa.BinOp); ok && bo.Op == token.ADD {
			isPhi = true
		}
		if !isPhi && !isNext {
			return "the index is not that of a loop"
		}
	}
	return ""
}

func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// offset splits a value in a base and a constant. The range index of SSA is itself phi+1: it is kept as the base.
func offset(v ssa.Value) (int64, ssa.Value) {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return 0, v
	}
	if b.Op == token.ADD || b.Op == token.SUB {
		if k, ok := constInt(b.Y); ok {
			if p, isPhi := b.X.(*ssa.Phi); isPhi && b.Op == token.ADD && k == 1 {
				for _, e := range p.Edges {
					if e == ssa.Value(b) && strings.Contains(p.Comment, "rangeindex") {
						return 0, v
					}
				}
			}
			d, base := offset(b.X)
			if b.Op == token.SUB {
				k = -k
			}
			return d + k, base
		}
	}
	return 0, v
}

// c12Literals: markup written as string constants in the renderer.
func c12Literals(w *World, r *Report, m *tmplModel) {
	n := 0
	texts := map[string]bool{}
	for _, b := range m.backends {
		for _, t := range b.texts {
			texts[t.str] = true
		}
	}
	for _, fn := range w.Funcs {
		if !strings.HasPrefix(relPkg(fn.Pkg.Pkg), sgmlPkg) || isTest(w, fn) || fn.Synthetic != "" && fn.Parent() == nil {
			continue
		}
		seen := map[ssa.Value]bool{}
		for _, in := range instrs(fn) {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				k, ok := constString(*op)
				if !ok || !strings.Contains(k, "<") || !hasTag(k) || texts[k] || strings.Contains(k, "{{") {
					continue
				}
				v := in
				// the whole concatenation
				var val ssa.Value
				if x, ok := v.(*ssa.BinOp); ok && x.Op == token.ADD {
					val = x
					for again := true; again; {
						again = false
						for _, ref := range refs(val) {
							if y, ok := ref.(*ssa.BinOp); ok && y.Op == token.ADD {
								val, again = y, true
								break
							}
						}
					}
				}
				var ps []piece
				if val != nil {
					if seen[val] {
						continue
					}
					seen[val] = true
					ps = concatPieces(val)
				} else if c, ok := in.(ssa.CallInstruction); ok && callName(c.Common()) == "fmt.Sprintf" {
					ps = formatPieces(k)
				} else {
					ps = []piece{{text: k}}
				}
				n++
				// the code is common to both backends
				toks, errs, _ := lexMarkup(ps, true)
				open, errs2 := nest(toks, nil, true)
				errs = append(errs, errs2...)
				if len(open) > 0 {
					errs = append(errs, "<"+strings.Join(open, "><")+"> is not closed in the same expression")
				}
				txt := ""
				for _, p := range ps {
					if p.hole != "" {
						txt += hl + hr
					}
					txt += p.text
				}
				r.Check("literal-markup", fnName(topFunc(fn))+": "+txt, w.pos(in.Pos()), len(errs) == 0, strings.Join(errs, "; "))
			}
		}
	}
	r.Count("markup written by the code", n)
}

func hasTag(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '<' && (s[i+1] == '/' || s[i+1] >= 'a' && s[i+1] <= 'z') {
			return true
		}
	}
	return false
}

func concatPieces(v ssa.Value) []piece {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if bt, ok := types.Unalias(b.Type()).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return append(concatPieces(b.X), concatPieces(b.Y)...)
		}
	}
	if k, ok := constString(v); ok {
		return []piece{{text: k}}
	}
	return []piece{{hole: v.Name()}}
}

func formatPieces(f string) []piece {
	var ps []piece
	cur := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			cur += f[i : i+1]
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] == '%' {
			cur += "%"
			continue
		}
		ps = append(ps, piece{text: cur}, piece{hole: fmt.Sprintf("arg%d", len(ps))})
		cur = ""
	}
	return append(ps, piece{text: cur})
}
