package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C19", title: "Conversion terminates", run: runC19,
		explanation: "Four sources of endless work are decided. (1) grammar: for every repetition of the compiled grammar, the repeated expression cannot match without consuming a character (in the middle of the content and at its end); no rule can reach itself at the same place; the expressions which are parsed one after the other consume something. (2) loops: every loop of the library is of a form which ends: a counter with a bound which the loop does not change, a slice which gets shorter, a list which grows up to a bound, an iterator, a walk down a tree, a search for a key which a finite table does not have. (3) recursion: every cycle of the call graph has a call which is given a part of what the function was given, or which is made below a bound on a depth which it increases, and the depth is copied wherever the context is. (4) the loop which parses the document stops when there is an error.",
		assumptions: []string{"The trees of elements are finite and have no cycles.", "Readers of files, tables and templates of the standard library end."}})
}

func runC19(w *World, r *Report) {
	c19Grammar(w, r)
	c19Loops(w, r)
	c19Recursion(w, r)
}

// ---------------------------------------------------------------------------------------------
// The grammar

// charset is a set of characters (indices of representatives; the last one is the end of the content).
type charset [4]uint64

func (b *charset) set(i int)      { b[i/64] |= 1 << uint(i%64) }
func (b *charset) has(i int) bool { return b[i/64]&(1<<uint(i%64)) != 0 }

// what expressions do before each character
type progress struct {
	g     *grammar
	w     *World
	chars []rune
	end   int
	null  map[*gexpr]*charset // may match without consuming
	must  map[*gexpr]*charset // always matches
	fail  map[*gexpr]*charset // never matches
	cons  map[*gexpr]*charset // may consume
	preds map[string]bool
}

func newProgress(w *World, g *grammar) *progress {
	p := &progress{g: g, w: w, null: map[*gexpr]*charset{}, must: map[*gexpr]*charset{}, fail: map[*gexpr]*charset{}, cons: map[*gexpr]*charset{}, preds: map[string]bool{}}
	// representatives: every character of the grammar, the ends of its ranges, and some others
	set := map[rune]bool{'a': true, 'Q': true, '5': true, 'é': true, '\u4e16': true, '\x01': true, ' ': true, '\n': true, '\r': true, '\t': true}
	for _, x := range g.exprs {
		switch x.kind {
		case "lit":
			for i, c := range x.val {
				if i == 0 {
					set[c] = true
				}
			}
		case "class":
			for _, c := range x.chars {
				set[c] = true
			}
			for i := 0; i+1 < len(x.ranges); i += 2 {
				set[x.ranges[i]], set[x.ranges[i+1]] = true, true
			}
		}
	}
	for c := range set {
		p.chars = append(p.chars, c)
	}
	sort.Slice(p.chars, func(i, j int) bool { return p.chars[i] < p.chars[j] })
	if len(p.chars) > 250 {
		p.chars = p.chars[:250]
	}
	p.end = len(p.chars)
	for _, x := range g.exprs {
		p.null[x], p.must[x], p.fail[x], p.cons[x] = &charset{}, &charset{}, &charset{}, &charset{}
	}
	fix := func(m map[*gexpr]*charset, f func(x *gexpr, c int) bool) {
		for changed := true; changed; {
			changed = false
			for i := len(g.exprs) - 1; i >= 0; i-- {
				x := g.exprs[i]
				for c := 0; c <= p.end; c++ {
					if !m[x].has(c) && f(x, c) {
						m[x].set(c)
						changed = true
					}
				}
			}
		}
	}
	// each is proved from the previous ones: what must match needs what fails, and the other way round
	for round := 0; round < 4; round++ {
		for _, x := range g.exprs {
			p.cons[x] = &charset{}
		}
		fix(p.cons, p.cons0)
		fix(p.must, p.must0)
		fix(p.fail, p.fail0)
	}
	fix(p.null, p.null0)
	return p
}

// inClass: whether the class has the character, when it is known.
func (p *progress) inClass(x *gexpr, c int) (in, known bool) {
	if c == p.end {
		return false, true
	}
	r := p.chars[c]
	for _, k := range x.chars {
		if k == r || x.fold && strings.EqualFold(string(k), string(r)) {
			return !x.inverted, true
		}
	}
	for i := 0; i+1 < len(x.ranges); i += 2 {
		if r >= x.ranges[i] && r <= x.ranges[i+1] {
			return !x.inverted, true
		}
	}
	return x.inverted, len(x.classes) == 0 && !x.fold
}

func (p *progress) must0(x *gexpr, c int) bool {
	switch x.kind {
	case "any":
		return c != p.end
	case "class":
		in, known := p.inClass(x, c)
		return in && known
	case "lit":
		return x.val == "" || c != p.end && x.val == string(p.chars[c])
	case "star", "opt":
		return true
	case "action", "label", "plus", "and":
		return p.must[x.kids[0]].has(c)
	case "not":
		return p.fail[x.kids[0]].has(c)
	case "ref":
		r := p.g.rules[x.name]
		return r != nil && p.must[r.expr].has(c)
	case "choice":
		for _, k := range x.kids {
			if p.must[k].has(c) {
				return true
			}
		}
	case "stateCode":
		return true
	case "seq":
		for i, k := range x.kids {
			if !p.must[k].has(c) {
				return false
			}
			if p.eats(k, c) {
				// what consumes must be followed by what always matches
				for _, n := range x.kids[i+1:] {
					for d := 0; d <= p.end; d++ {
						if !p.must[n].has(d) {
							return false
						}
					}
				}
				return true
			}
		}
		return true
	}
	return false
}

// eats: the expression may consume something there.
func (p *progress) eats(x *gexpr, c int) bool {
	if p.fail[x].has(c) {
		return false
	}
	return p.cons[x].has(c)
}

func (p *progress) cons0(x *gexpr, c int) bool {
	if p.fail[x].has(c) {
		return false
	}
	switch x.kind {
	case "any", "class":
		return true
	case "lit":
		return x.val != ""
	case "and", "not", "andCode", "notCode", "stateCode":
		return false
	case "ref":
		r := p.g.rules[x.name]
		return r == nil || p.cons[r.expr].has(c)
	case "star", "opt", "plus", "action", "label", "choice", "seq":
		for _, k := range x.kids {
			if p.cons[k].has(c) {
				return true
			}
		}
		return false
	}
	return true
}

func (p *progress) fail0(x *gexpr, c int) bool {
	switch x.kind {
	case "any":
		return c == p.end
	case "class":
		in, known := p.inClass(x, c)
		return !in && known
	case "lit":
		if x.val == "" {
			return false
		}
		if c == p.end {
			return true
		}
		first := string([]rune(x.val)[0])
		return first != string(p.chars[c]) && !(x.fold && strings.EqualFold(first, string(p.chars[c])))
	case "action", "label", "plus", "and":
		return p.fail[x.kids[0]].has(c)
	case "not":
		return p.must[x.kids[0]].has(c)
	case "ref":
		r := p.g.rules[x.name]
		return r != nil && p.fail[r.expr].has(c)
	case "choice":
		for _, k := range x.kids {
			if !p.fail[k].has(c) {
				return false
			}
		}
		return len(x.kids) > 0
	case "seq":
		for _, k := range x.kids {
			if p.fail[k].has(c) {
				return true
			}
			// the next one is at the same place when nothing was consumed: lookaheads, and what cannot match there
			if !p.eats(k, c) {
				continue
			}
			return false
		}
	}
	return false
}

func (p *progress) null0(x *gexpr, c int) bool {
	switch x.kind {
	case "any", "class":
		return false
	case "lit":
		return x.val == ""
	case "star", "opt":
		return !p.must[x.kids[0]].has(c) || p.null[x.kids[0]].has(c)
	case "andCode", "notCode", "stateCode":
		return true
	case "and":
		return !p.fail[x.kids[0]].has(c)
	case "not":
		return !p.must[x.kids[0]].has(c)
	case "action", "label", "plus":
		return p.null[x.kids[0]].has(c)
	case "ref":
		r := p.g.rules[x.name]
		return r == nil || p.null[r.expr].has(c)
	case "choice":
		for _, k := range x.kids {
			if p.null[k].has(c) {
				return true
			}
			if p.must[k].has(c) {
				return false // the next ones are not tried
			}
		}
		return false
	case "seq":
		for i, k := range x.kids {
			if !p.null[k].has(c) {
				return false
			}
			if k.kind == "andCode" && p.refused(x.kids[:i], k, c) {
				return false
			}
		}
		return true
	}
	return true
}

// refused: the predicate is false when nothing was consumed before it.
func (p *progress) refused(before []*gexpr, k *gexpr, c int) bool {
	code := p.g.code(k.run)
	if code == nil || len(code.Blocks) == 0 {
		return false
	}
	x := &absint{w: p.w, lists: true, maxDepth: 10, limit: 4000, inline: func(g *ssa.Function) bool { return p.w.inScopeFn(g) && !p.w.isGenerated(g) }}
	s := newAState()
	key := fmt.Sprintf("%p", code)
	args := []xval{xterm("c")}
	for _, q := range code.Params[1:] {
		v := xterm("label " + q.Name())
		for _, b := range before {
			if b.kind == "label" && b.name == q.Name() {
				v = p.value(x, s, b.kids[0], c)
			}
		}
		key += "|" + p.shape(x, s, v)
		args = append(args, v)
	}
	if v, ok := p.preds[key]; ok {
		return v
	}
	refused := true
	n := 0
	x.run(code, args, nil, s, func(_ *aframe, s *astate, res []xval, _ *ssa.Return) {
		n++
		if len(res) == 0 || res[0].k != 'C' || res[0].s != "false" {
			refused = false
		}
	})
	refused = refused && n > 0 && !x.over
	p.preds[key] = refused
	return refused
}

func (p *progress) shape(x *absint, s *astate, v xval) string {
	if l, ok := x.listElems(s, v); ok && v.k == 'O' {
		r := "["
		for _, e := range l {
			r += p.shape(x, s, e) + ","
		}
		return r + "]"
	}
	return string(v.k) + v.s
}

// value: what the expression gives when it matches without consuming.
func (p *progress) value(x *absint, s *astate, e *gexpr, c int) xval {
	list := func(l []xval) xval {
		v := x.newList(s, l)
		x.assume(s, v, types.NewSlice(types.NewInterfaceType(nil, nil)), true)
		return v
	}
	switch e.kind {
	case "and", "not", "andCode", "notCode", "stateCode":
		return xconst("nil")
	case "opt":
		if !p.null[e.kids[0]].has(c) {
			return xconst("nil")
		}
	case "star":
		if !p.null[e.kids[0]].has(c) {
			return list(nil)
		}
	case "label":
		return p.value(x, s, e.kids[0], c)
	case "seq":
		var l []xval
		for _, k := range e.kids {
			l = append(l, p.value(x, s, k, c))
		}
		return list(l)
	case "choice":
		var only *gexpr
		for _, k := range e.kids {
			if p.null[k].has(c) {
				if only != nil {
					return xterm(fmt.Sprintf("value %p", e))
				}
				only = k
			}
		}
		if only != nil {
			return p.value(x, s, only, c)
		}
	case "ref":
		if r := p.g.rules[e.name]; r != nil && r.expr != nil && r.expr.kind != "action" {
			return p.value(x, s, r.expr, c)
		}
	}
	return xterm(fmt.Sprintf("value %p", e))
}

// where: a place before which the expression may match without consuming.
func (p *progress) where(x *gexpr) string {
	b := p.null[x]
	if b == nil {
		return ""
	}
	for c := 0; c < p.end; c++ {
		if b.has(c) {
			return fmt.Sprintf("before %q", p.chars[c])
		}
	}
	if b.has(p.end) {
		return "at the end of the content"
	}
	return ""
}

func c19Grammar(w *World, r *Report) {
	g := w.grammar()
	p := newProgress(w, g)
	reps := 0
	count := map[string]int{}
	for _, x := range g.exprs {
		if x.kind != "star" && x.kind != "plus" {
			continue
		}
		reps++
		count[x.rule.name]++
		bad := p.where(x.kids[0])
		if bad != "" {
			r.Fail("repetition", fmt.Sprintf("%s: repetition of %s", x.rule.name, describeExpr(x.kids[0])), w.pos(x.pos), "the repeated expression may match "+bad+" without consuming anything, hence it is repeated for ever")
			continue
		}
		r.OK("repetition", fmt.Sprintf("%s %d", x.rule.name, count[x.rule.name]), w.pos(x.pos), "consumes")
	}
	r.Floor("repetitions of the grammar", reps, 100)
	// rules which reach themselves at the same place
	first := map[string]map[string]bool{}
	var heads func(x *gexpr, out map[string]bool)
	heads = func(x *gexpr, out map[string]bool) {
		switch x.kind {
		case "ref":
			out[x.name] = true
		case "seq":
			for _, k := range x.kids {
				heads(k, out)
				if p.where(k) == "" {
					return
				}
			}
		default:
			for _, k := range x.kids {
				heads(k, out)
			}
		}
	}
	for _, rule := range g.order {
		first[rule.name] = map[string]bool{}
		if rule.expr != nil {
			heads(rule.expr, first[rule.name])
		}
	}
	for _, rule := range g.order {
		seen := map[string]bool{}
		var reach func(n string) bool
		reach = func(n string) bool {
			for _, m := range sortedKeys(first[n]) {
				if m == rule.name {
					return true
				}
				if !seen[m] {
					seen[m] = true
					if reach(m) {
						return true
					}
				}
			}
			return false
		}
		r.Check("left recursion", rule.name, w.pos(rule.pos), !reach(rule.name), "the rule reaches itself without consuming anything, hence it is entered for ever")
	}
	r.Floor("rules of the grammar", len(g.order), 100)
	// what is parsed one after the other
	n := 0
	for _, f := range w.Funcs {
		if isTest(w, f) || w.isGenerated(f) || f.Pkg != g.pkg {
			continue
		}
		for _, l := range loopsOf(f) {
			for _, c := range l.calls() {
				h := c.Common().StaticCallee()
				if h == nil || !c19ParsesNext(w, h) {
					continue
				}
				entries := map[string]bool{}
				w.entriesOf(f, 0, entries)
				if len(entries) == 0 {
					w.entriesOf(topFunc(f), 0, entries)
				}
				if len(entries) == 0 { // options which are kept in a context
					for _, k := range w.Funcs {
						if !isTest(w, k) && !w.isGenerated(k) && k.Pkg == f.Pkg && storesOptions(k) {
							w.entriesOf(k, 4, entries)
						}
					}
				}
				for _, e := range sortedKeys(entries) {
					rule := g.rules[e]
					if rule == nil {
						continue
					}
					n++
					r.Check("fragments", e, w.pos(rule.pos), p.where(rule.expr) == "" || p.where(rule.expr) == "at the end of the content", "the rule, which is applied until the end of the document, may match without consuming anything")
				}
				// it stops when there is an error
				bad := ""
				if v, ok := c.(ssa.Value); ok {
					for _, ref := range refs(v) {
						ex, ok := ref.(*ssa.Extract)
						if !ok || !isErrorType(ex.Type()) {
							continue
						}
						if b := l.continuesOnError(ex); b != "" {
							bad = b
						}
					}
				}
				r.Check("stops on error", fnName(f), w.pos(c.Pos()), bad == "", "the loop goes on after an error of the parser, which does not advance: "+bad)
			}
		}
	}
	r.Floor("rules applied until the end of the document", n, 1)
}

// storesOptions: the function gives a list of options of the parser to a field.
func storesOptions(k *ssa.Function) bool {
	for _, in := range instrs(k) {
		if st, ok := in.(*ssa.Store); ok {
			if _, ok := st.Addr.(*ssa.FieldAddr); !ok {
				continue
			}
			if sl, ok := st.Val.Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "parser.Option" {
				return true
			}
		}
	}
	return false
}

func describeExpr(x *gexpr) string {
	switch x.kind {
	case "ref":
		return x.name
	case "action", "label":
		return describeExpr(x.kids[0])
	case "lit":
		return fmt.Sprintf("%q", x.val)
	case "seq", "choice":
		var l []string
		for _, k := range x.kids {
			l = append(l, describeExpr(k))
		}
		return x.kind + "(" + strings.Join(l, ",") + ")"
	}
	return x.kind
}

// c19ParsesNext: the function parses one more part of the content: it is a method of the parser of the grammar, which is not generated.
func c19ParsesNext(w *World, h *ssa.Function) bool {
	return h.Signature.Recv() != nil && typeName(deref(h.Signature.Recv().Type())) == "parser.parser" && !w.isGenerated(h) && h.Signature.Results().Len() == 2
}

// ---------------------------------------------------------------------------------------------
// Loops

type natLoop struct {
	fn      *ssa.Function
	head    *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

func loopsOf(f *ssa.Function) []*natLoop {
	var res []*natLoop
	for _, h := range f.Blocks {
		l := &natLoop{fn: f, head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
		for _, p := range h.Preds {
			if h.Dominates(p) {
				l.latches = append(l.latches, p)
			}
		}
		if len(l.latches) == 0 {
			continue
		}
		work := append([]*ssa.BasicBlock{}, l.latches...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l.blocks[b] {
				continue
			}
			l.blocks[b] = true
			work = append(work, b.Preds...)
		}
		res = append(res, l)
	}
	return res
}

func (l *natLoop) calls() (res []ssa.CallInstruction) {
	for _, b := range l.fn.Blocks {
		if l.blocks[b] {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					res = append(res, c)
				}
			}
		}
	}
	return res
}

func (l *natLoop) has(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.blocks[in.Block()]
}

// exits: the conditions which are tested on each iteration, one outcome of which leaves the loop.
func (l *natLoop) exits() (res []exitTest) {
	for b := range l.blocks {
		f, ok := lastInstr(b).(*ssa.If)
		if !ok {
			continue
		}
		always := true
		for _, t := range l.latches {
			always = always && b.Dominates(t)
		}
		if !always {
			continue
		}
		for i, s := range b.Succs {
			if !l.blocks[s] && !(i == 1 && b.Succs[0] == s) {
				res = append(res, exitTest{f.Cond, i == 0, b})
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].b.Index < res[j].b.Index })
	return res
}

type exitTest struct {
	cond ssa.Value
	when bool // the outcome which leaves the loop
	b    *ssa.BasicBlock
}

// continuesOnError: a way from the error to the next iteration.
func (l *natLoop) continuesOnError(err ssa.Value) string {
	tested := false
	for b := range l.blocks {
		f, ok := lastInstr(b).(*ssa.If)
		if !ok {
			continue
		}
		c := cond{v: f.Cond, val: true}.norm()
		bo, ok := c.v.(*ssa.BinOp)
		if !ok || bo.X != err && bo.Y != err || !isNilConst(bo.X) && !isNilConst(bo.Y) {
			continue
		}
		tested = true
		failed := b.Succs[0]
		if (bo.Op == token.EQL) == c.val {
			failed = b.Succs[1]
		}
		// from there, within the loop
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{failed}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if x == l.head {
				return "the error is tested, but the next iteration may follow"
			}
			if seen[x] || !l.blocks[x] {
				continue
			}
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	if !tested {
		return "the error is not tested"
	}
	return ""
}

// invariant: the loop does not change the value.
func (l *natLoop) invariant(v ssa.Value) bool { return l.invariant0(v, 0) }

func (l *natLoop) invariant0(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !l.blocks[x.Block()] {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return l.invariant0(x.Call.Args[0], depth+1)
		}
	case *ssa.BinOp:
		return l.invariant0(x.X, depth+1) && l.invariant0(x.Y, depth+1)
	case *ssa.Convert:
		return l.invariant0(x.X, depth+1)
	case *ssa.ChangeType:
		return l.invariant0(x.X, depth+1)
	case *ssa.FieldAddr:
		return l.invariant0(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return l.invariant0(x.X, depth+1)
		}
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		if !l.invariant0(fa.X, depth+1) {
			return false
		}
		n := fieldName(fa.X.Type(), fa.Field)
		// a field which the loop does not assign
		return !l.assigns(n, l.blocks, map[*ssa.Function]bool{}, l.fn)
	}
	return false
}

// assigns: the field is assigned within the blocks, or in the functions called there.
func (l *natLoop) assigns(field string, blocks map[*ssa.BasicBlock]bool, seen map[*ssa.Function]bool, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if blocks != nil && !blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
					return true
				}
			case ssa.CallInstruction:
				for _, g := range theWorld.calleesOf(in) {
					if !seen[g] && theWorld.inScopeFn(g) {
						seen[g] = true
						if l.assigns(field, nil, seen, g) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

var theWorld *World

// steps: the operations which make the next value of the variable (a phi at the head of the loop) from its value, on
// each way to the next iteration.
func (l *natLoop) steps(p *ssa.Phi, ok func(v ssa.Value, p *ssa.Phi) bool) bool {
	for i, e := range p.Edges {
		pred := p.Block().Preds[i]
		if !l.blocks[pred] {
			continue
		}
		if !l.stepped(e, p, ok, 0) {
			return false
		}
	}
	return true
}

func (l *natLoop) stepped(v ssa.Value, p *ssa.Phi, ok func(v ssa.Value, p *ssa.Phi) bool, depth int) bool {
	if depth > 6 {
		return false
	}
	if ok(v, p) {
		return true
	}
	if q, isPhi := v.(*ssa.Phi); isPhi && q != p && l.blocks[q.Block()] {
		for _, e := range q.Edges {
			if !l.stepped(e, p, ok, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// derived: the value is computed from the other one, within the loop.
func (l *natLoop) derived(v ssa.Value, from func(v ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if from(v) {
		return true
	}
	if seen[v] || !l.has(v) {
		return false
	}
	seen[v] = true
	in := v.(ssa.Instruction)
	for _, o := range in.Operands(nil) {
		if *o != nil && l.derived(*o, from, seen) {
			return true
		}
	}
	return false
}

// distinct: what is looked up differs for each value of the counter: nothing on the way maps many numbers to one.
func (l *natLoop) distinct(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == p {
		return true
	}
	if seen[v] || !l.has(v) {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.REM, token.QUO, token.AND, token.OR, token.SHR, token.SHL, token.AND_NOT:
			return false
		}
	case *ssa.Slice, *ssa.Index:
		if _, isArr := v.(*ssa.Slice); isArr {
			if _, ok := v.(*ssa.Slice).X.(*ssa.Alloc); ok {
				break // the arguments of a call
			}
		}
		return false
	case *ssa.Convert:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int8 || b.Kind() == types.Uint8) {
			return false
		}
	case *ssa.Alloc:
		for _, r := range refs(x) {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, q := range refs(ia) {
					if st, ok := q.(*ssa.Store); ok && l.distinct(st.Val, p, seen) {
						return true
					}
				}
			}
			if st, ok := r.(*ssa.Store); ok && st.Addr == x && l.distinct(st.Val, p, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && theWorld.inScopeFn(g) {
			for _, in := range instrs(g) {
				if b, ok := in.(*ssa.BinOp); ok {
					switch b.Op {
					case token.REM, token.QUO, token.AND, token.OR, token.SHR, token.SHL, token.AND_NOT:
						return false
					}
				}
			}
		}
	case *ssa.Phi:
		some := false
		for i, e := range x.Edges {
			if l.distinct(e, p, seen) {
				some = true
				continue
			}
			// for one value of the counter only
			one := false
			pred := x.Block().Preds[i]
			for _, f := range append(factsAt(pred), edgeFact(pred, x.Block())...) {
				f = f.norm()
				if b, ok := f.v.(*ssa.BinOp); ok && (b.Op == token.EQL) == f.val && (b.Op == token.EQL || b.Op == token.NEQ) && (b.X == p || increments(1)(b.X, p)) {
					one = true
				}
			}
			if !one {
				return false
			}
		}
		return some
	}
	in := v.(ssa.Instruction)
	for _, o := range in.Operands(nil) {
		if *o != nil && l.distinct(*o, p, seen) {
			return true
		}
	}
	return false
}

// edgeFact: what is known on the way from the block to the next one.
func edgeFact(b, next *ssa.BasicBlock) []cond {
	f, ok := lastInstr(b).(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return nil
	}
	return []cond{{v: f.Cond, val: b.Succs[0] == next}}
}

func increments(sign int64) func(v ssa.Value, p *ssa.Phi) bool {
	return func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		n, isC := constInt(b.Y)
		x := b.X
		if !isC && b.Op == token.ADD {
			n, isC = constInt(b.X)
			x = b.Y
		}
		if !isC || x != p {
			return false
		}
		if b.Op == token.SUB {
			n = -n
		}
		return n*sign > 0
	}
}

// lengthOf: the value is the length of a slice or a string.
func lengthOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// ends: why the loop ends; empty when it is not known.
func (w *World) ends(l *natLoop) string {
	exits := l.exits()
	// an iterator
	for _, x := range exits {
		c := cond{v: x.cond, val: x.when}.norm()
		v := c.v
		if e, ok := v.(*ssa.Extract); ok {
			if nx, ok := e.Tuple.(*ssa.Next); ok && e.Index == 0 && !c.val {
				if rg, ok := nx.Iter.(*ssa.Range); ok && !l.has(rg) {
					for _, in := range l.instrs() {
						if mu, ok := in.(*ssa.MapUpdate); ok && mu.Map == rg.X && mu.Key != nextKey(nx) {
							return ""
						}
					}
					return "a range"
				}
			}
			if u, ok := e.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk && e.Index == 1 && !c.val {
				return "a channel which is closed"
			}
			if k, ok := e.Tuple.(*ssa.Call); ok && !c.val && w.isGenerated(l.fn) {
				if g := k.Call.StaticCallee(); g != nil && w.isGenerated(g) && strings.HasSuffix(typeName(deref(g.Signature.Recv().Type())), ".parser") {
					return "a repetition of the grammar"
				}
			}
		}
		if k, ok := v.(*ssa.Call); ok && !c.val {
			if g := k.Call.StaticCallee(); g != nil && !w.inScopeFn(g) && g.Signature.Recv() != nil && (g.Name() == "Scan" || g.Name() == "Next") {
				return "an iterator"
			}
		}
		// the next part of the content: nothing more is given at its end
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL) == c.val && (isNilConst(b.X) || isNilConst(b.Y)) {
			for _, y := range []ssa.Value{b.X, b.Y} {
				if e, ok := y.(*ssa.Extract); ok && e.Index == 0 {
					if k, ok := e.Tuple.(*ssa.Call); ok {
						if g := k.Call.StaticCallee(); g != nil && c19ParsesNext(w, g) {
							return "the end of the document"
						}
					}
				}
			}
		}
	}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// counters
		for _, sign := range []int64{1, -1} {
			if !l.steps(p, increments(sign)) {
				continue
			}
			for _, x := range exits {
				c := cond{v: x.cond, val: x.when}.norm()
				b, ok := c.v.(*ssa.BinOp)
				if !ok {
					continue
				}
				isCounter := func(v ssa.Value) bool { return v == p || increments(sign)(v, p) }
				op, bound := b.Op, b.Y
				if !isCounter(b.X) {
					if !isCounter(b.Y) {
						continue
					}
					bound = b.X
					op = flipOp(op)
				}
				if !c.val {
					op = negOp(op)
				}
				// it leaves when the counter is beyond the bound
				if (sign > 0 && (op == token.GEQ || op == token.GTR) || sign < 0 && (op == token.LEQ || op == token.LSS)) && l.invariant(bound) {
					return "a counter with a bound"
				}
			}
			// a search: the table of keys is finite
			for _, x := range exits {
				hasMap := l.derived(x.cond, func(v ssa.Value) bool { _, ok := v.Type().Underlying().(*types.Map); return ok && v != x.cond }, map[ssa.Value]bool{})
				if hasMap && l.distinct(x.cond, p, map[ssa.Value]bool{}) && !l.addsKeys() {
					return "a search for a key which is not in a table"
				}
			}
		}
		// slices which get shorter
		if _, ok := p.Type().Underlying().(*types.Slice); ok || basicClass(p.Type()) == "string" {
			shorter := func(v ssa.Value, p *ssa.Phi) bool {
				s, ok := v.(*ssa.Slice)
				if !ok || s.X != p {
					return false
				}
				if s.Low != nil && l.positive(s.Low) {
					return true
				}
				if b, ok := s.High.(*ssa.BinOp); ok && b.Op == token.SUB && lengthOf(b.X) == p {
					n, ok := constInt(b.Y)
					return ok && n > 0
				}
				return false
			}
			if l.steps(p, shorter) {
				return "a slice which gets shorter"
			}
			longer := func(v ssa.Value, p *ssa.Phi) bool {
				c, ok := v.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := c.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "append" && c.Call.Args[0] == p && appendsSome(c.Call.Args[1])
			}
			if l.steps(p, longer) {
				for _, x := range exits {
					c := cond{v: x.cond, val: x.when}.norm()
					b, ok := c.v.(*ssa.BinOp)
					if !ok {
						continue
					}
					op, bound := b.Op, b.Y
					if lengthOf(b.X) != p {
						if lengthOf(b.Y) != p {
							continue
						}
						bound, op = b.X, flipOp(op)
					}
					if !c.val {
						op = negOp(op)
					}
					if (op == token.GEQ || op == token.GTR) && l.invariant(bound) {
						return "a list which grows up to a bound"
					}
				}
			}
		}
		// down a tree
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			if l.steps(p, func(v ssa.Value, p *ssa.Phi) bool { return partOf(v, func(v ssa.Value) bool { return v == p }, 0) }) && len(exits) > 0 {
				return "a walk through the parts of an element"
			}
		}
	}
	return ""
}

func (l *natLoop) instrs() (res []ssa.Instruction) {
	for _, b := range l.fn.Blocks {
		if l.blocks[b] {
			res = append(res, b.Instrs...)
		}
	}
	return res
}

// addsKeys: the loop may go on after it has put a key into a table.
func (l *natLoop) addsKeys() bool {
	for _, in := range l.instrs() {
		if mu, ok := in.(*ssa.MapUpdate); ok {
			for _, t := range l.latches {
				if mu.Block().Dominates(t) || blockReachesWithin(mu.Block(), t, l) {
					return true
				}
			}
		}
	}
	return false
}

func blockReachesWithin(a, b *ssa.BasicBlock, l *natLoop) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if seen[x] || !l.blocks[x] {
			continue
		}
		seen[x] = true
		for _, s := range x.Succs {
			if s != l.head {
				work = append(work, s)
			}
		}
	}
	return false
}

func nextKey(nx *ssa.Next) ssa.Value {
	for _, in := range refs(nx) {
		if e, ok := in.(*ssa.Extract); ok && e.Index == 1 {
			return e
		}
	}
	return nil
}

// positive: the value is at least one.
func (l *natLoop) positive(v ssa.Value) bool {
	if n, ok := constInt(v); ok {
		return n > 0
	}
	// the least of the length of the slice, which the loop tests, and of a number which is positive
	if cv, ok := v.(*ssa.Convert); ok {
		if c, ok := cv.X.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "math" && g.Name() == "Min" {
				for _, a := range c.Call.Args {
					if k, ok := a.(*ssa.Convert); ok {
						if !l.positive(k.X) {
							return false
						}
						continue
					}
					return false
				}
				return true
			}
		}
		return l.positive(cv.X)
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			for _, a := range c.Call.Args {
				if !l.positive(a) {
					return false
				}
			}
			return true
		}
	}
	if s := lengthOf(v); s != nil { // tested by the loop
		for _, x := range l.exits() {
			c := cond{v: x.cond, val: !x.when}.norm()
			if b, ok := c.v.(*ssa.BinOp); ok && lengthOf(b.X) == s {
				n, isC := constInt(b.Y)
				if isC && n == 0 && (c.val && (b.Op == token.GTR || b.Op == token.NEQ) || !c.val && (b.Op == token.EQL || b.Op == token.LEQ)) {
					return true
				}
			}
		}
	}
	if ph, ok := v.(*ssa.Phi); ok && !ph.Block().Dominates(l.head) {
		for i, e := range ph.Edges {
			if !l.positiveAt(e, ph.Block().Preds[i]) {
				return false
			}
		}
		return len(ph.Edges) > 0
	}
	if positiveIn(v, l.head) {
		return true
	}
	if l.divided(v) { // a division by zero would have failed before, and a negative number cannot slice
		return true
	}
	if p, ok := v.(*ssa.Parameter); ok { // tested, or given by every caller
		idx := -1
		for i, q := range p.Parent().Params {
			if q == p {
				idx = i
			}
		}
		n := 0
		for _, site := range theWorld.callers[p.Parent()] {
			if isTest(theWorld, site.Parent()) || site.Common().IsInvoke() || idx >= len(site.Common().Args) {
				continue
			}
			n++
			a := site.Common().Args[idx]
			if k, ok := constInt(a); ok && k > 0 {
				continue
			}
			if !positiveIn(a, site.Block()) {
				return false
			}
		}
		return n > 0
	}
	return false
}

// divided: before the loop, something was divided by the value, which is hence not zero.
func (l *natLoop) divided(v ssa.Value) bool {
	for _, b := range l.fn.Blocks {
		if b != l.head && !b.Dominates(l.head) || b == l.head {
			continue
		}
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.REM) && bo.Y == v {
				return true
			}
		}
	}
	return false
}

func (l *natLoop) positiveAt(v ssa.Value, b *ssa.BasicBlock) bool {
	return l.positive(v) || positiveIn(v, b)
}

// positiveIn: what was tested before the block says that the value is positive.
func positiveIn(v ssa.Value, b *ssa.BasicBlock) bool {
	if n, ok := constInt(v); ok {
		return n > 0
	}
	nonzero, nonneg := false, lengthOf(v) != nil
	for _, f := range factsAt(b) {
		c := f.norm()
		bo, ok := c.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, k := bo.Op, bo.Y
		if !sameValue(bo.X, v) {
			if !sameValue(bo.Y, v) {
				continue
			}
			k, op = bo.X, flipOp(op)
		}
		if !c.val {
			op = negOp(op)
		}
		n, ok := constInt(k)
		if !ok {
			continue
		}
		switch {
		case op == token.GTR && n >= 0, op == token.GEQ && n >= 1, op == token.EQL && n > 0:
			return true
		case op == token.NEQ && n == 0:
			nonzero = true
		case op == token.GEQ && n == 0, op == token.GTR && n == -1:
			nonneg = true
		}
	}
	return nonzero && nonneg
}

// sameValue: equal values, also two lengths of the same slice or two loads of the same field of a value.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if x, y := lengthOf(a), lengthOf(b); x != nil && y != nil {
		return sameValue(x, y)
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		f, ok1 := x.X.(*ssa.FieldAddr)
		g, ok2 := y.X.(*ssa.FieldAddr)
		if ok1 && ok2 && f.Field == g.Field && sameValue(f.X, g.X) {
			return true
		}
	}
	return false
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// appendsSome: the variadic argument has at least one element.
func appendsSome(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	arr, ok := deref(a.Type()).Underlying().(*types.Array)
	return ok && arr.Len() > 0 && s.Low == nil && s.High == nil
}

// partOf: the value is a part of another one: at least one field or element has been selected on the way.
func partOf(v ssa.Value, whole func(v ssa.Value) bool, depth int) bool {
	return partOf0(v, whole, false, depth, map[ssa.Value]bool{})
}

func partOf0(v ssa.Value, whole func(v ssa.Value) bool, part bool, depth int, seen map[ssa.Value]bool) bool {
	if whole(v) {
		return part
	}
	if depth > 24 {
		return false
	}
	if seen[v] {
		_, ok := v.(*ssa.Phi)
		return ok // the other edges decide
	}
	seen[v] = true
	rec := func(u ssa.Value, part bool) bool { return partOf0(u, whole, part, depth+1, seen) }
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return rec(x.X, part)
		}
	case *ssa.FieldAddr:
		return rec(x.X, true)
	case *ssa.Field:
		return rec(x.X, true)
	case *ssa.IndexAddr:
		return rec(x.X, true)
	case *ssa.Index:
		return rec(x.X, true)
	case *ssa.Lookup:
		return rec(x.X, true)
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return rec(rg.X, true)
			}
		}
		return rec(x.Tuple, part)
	case *ssa.TypeAssert:
		return rec(x.X, part)
	case *ssa.MakeInterface:
		return rec(x.X, part)
	case *ssa.ChangeInterface:
		return rec(x.X, part)
	case *ssa.ChangeType:
		return rec(x.X, part)
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok { // a list which was just made of parts
			return rec(a, part)
		}
		return rec(x.X, part || x.Low != nil || x.High != nil)
	case *ssa.Alloc: // every value stored in it
		n := 0
		for _, in := range refs(x) {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr != x {
					return false
				}
				n++
				if !rec(in.Val, part) {
					return false
				}
			case *ssa.IndexAddr:
				for _, r := range refs(in) {
					if st, ok := r.(*ssa.Store); ok && st.Addr == in {
						n++
						if !rec(st.Val, part) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			if !rec(e, part) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" { // a list of parts
				for _, a := range x.Call.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value == nil {
						continue
					}
					if !rec(a, part) {
						return false
					}
				}
				return true
			}
			return false
		}
		// an accessor: its result is a part of its receiver
		if x.Call.IsInvoke() {
			return len(x.Call.Args) == 0 && strings.HasPrefix(x.Call.Method.Name(), "Get") && rec(x.Call.Value, true)
		}
		if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(x.Call.Args) == 1 && len(g.Blocks) > 0 {
			all := true
			for _, in := range instrs(g) {
				if rt, ok := in.(*ssa.Return); ok {
					for _, v := range rt.Results {
						if k, ok := v.(*ssa.Const); ok && k.Value == nil {
							continue
						}
						all = all && partOf(v, func(v ssa.Value) bool { return v == g.Params[0] }, depth+1)
					}
				}
			}
			return all && rec(x.Call.Args[0], true)
		}
	}
	return false
}

func c19Loops(w *World, r *Report) {
	theWorld = w
	n := 0
	why := map[string]int{}
	for _, f := range w.Funcs {
		if isTest(w, f) {
			continue
		}
		num := 0
		for _, l := range loopsOf(f) {
			n++
			num++
			e := w.ends(l)
			why[e]++
			pos := token.NoPos
			for _, in := range l.instrs() {
				if in.Pos() != token.NoPos && (pos == token.NoPos || in.Pos() < pos) {
					pos = in.Pos()
				}
			}
			r.Check("loop", fmt.Sprintf("%s loop %d", fnName(f), num), w.pos(pos), e != "", "no reason is known why this loop ends: no counter with a bound, shrinking slice, iterator, walk down a tree or search in a finite table")
		}
	}
	for k, v := range why {
		r.Count("loops: "+k, v)
	}
	r.Floor("loops", n, 50)
}

// ---------------------------------------------------------------------------------------------
// Recursion

func c19Recursion(w *World, r *Report) {
	type edge struct {
		to   *ssa.Function
		site ssa.CallInstruction
	}
	succ := map[*ssa.Function][]edge{}
	for _, f := range w.Funcs {
		if isTest(w, f) || w.isGenerated(f) {
			continue
		}
		for _, in := range instrs(f) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callees := w.calleesOf(c)
			if l := storedInGlobal(c); l != nil {
				callees = l
			}
			for _, g := range callees {
				if w.inScopeFn(g) && !w.isGenerated(g) && !isTest(w, g) {
					succ[f] = append(succ[f], edge{g, c})
				}
			}
		}
		for _, g := range f.AnonFuncs {
			succ[f] = append(succ[f], edge{g, nil})
		}
	}
	sccs := func(keep func(f *ssa.Function, e edge) bool) [][]*ssa.Function {
		index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
		on := map[*ssa.Function]bool{}
		var stack []*ssa.Function
		var res [][]*ssa.Function
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			index[f] = len(index) + 1
			low[f] = index[f]
			stack = append(stack, f)
			on[f] = true
			self := false
			for _, e := range succ[f] {
				if !keep(f, e) {
					continue
				}
				if e.to == f {
					self = true
				}
				if index[e.to] == 0 {
					visit(e.to)
					if low[e.to] < low[f] {
						low[f] = low[e.to]
					}
				} else if on[e.to] && index[e.to] < low[f] {
					low[f] = index[e.to]
				}
			}
			if low[f] == index[f] {
				var c []*ssa.Function
				for {
					g := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[g] = false
					c = append(c, g)
					if g == f {
						break
					}
				}
				if len(c) > 1 || self {
					res = append(res, c)
				}
			}
		}
		for _, f := range w.Funcs {
			if index[f] == 0 && (len(succ[f]) > 0) {
				visit(f)
			}
		}
		return res
	}
	all := sccs(func(*ssa.Function, edge) bool { return true })
	n := 0
	decreasing := map[ssa.CallInstruction]string{}
	for _, c := range all {
		in := map[*ssa.Function]bool{}
		for _, f := range c {
			in[f] = true
		}
		for _, f := range c {
			for _, e := range succ[f] {
				if !in[e.to] || e.site == nil {
					continue
				}
				if why := w.decreases(f, e.site, in); why != "" {
					decreasing[e.site] = why
				}
			}
		}
		n += len(c)
	}
	r.Count("functions in cycles of the call graph", n)
	r.Floor("cycles of the call graph", len(all), 2)
	count := map[string]int{}
	for _, why := range decreasing {
		count[why]++
	}
	for k, v := range count {
		r.Count("recursive calls: "+k, v)
	}
	left := sccs(func(f *ssa.Function, e edge) bool { return e.site == nil || decreasing[e.site] == "" })
	leftIn := map[*ssa.Function]bool{}
	for _, c := range left {
		var names []string
		for _, f := range c {
			names = append(names, fnName(f))
			leftIn[f] = true
		}
		sort.Strings(names)
		r.Fail("recursion", names[0], w.pos(c[0].Pos()), "a cycle of calls which nothing bounds: no call is given a part of what the function was given, or is made below a bound on a depth: "+strings.Join(names, ", "))
	}
	for _, c := range all {
		var names []string
		bad := false
		for _, f := range c {
			names = append(names, fnName(f))
			bad = bad || leftIn[f]
		}
		sort.Strings(names)
		if !bad {
			r.OK("recursion", names[0], w.pos(c[0].Pos()), "bounded")
		}
	}
	// depths which bound a recursion are copied with their context
	for _, d := range sortedKeys(w.depths) {
		i := strings.LastIndexByte(d, '.')
		owner := d[:i]
		in := map[*ssa.Function]bool{}
		for _, c := range all {
			for _, f := range c {
				in[f] = true
			}
		}
		var roots []*ssa.Function
		for f := range in {
			roots = append(roots, f)
		}
		for f := range w.reachable(roots...) {
			if !w.inScopeFn(f) || w.isGenerated(f) || isTest(w, f) {
				continue
			}
			for _, i := range instrs(f) {
				al, ok := i.(*ssa.Alloc)
				if !ok || typeName(deref(al.Type())) != owner {
					continue
				}
				copied, whole := false, false
				for _, ref := range refs(al) {
					switch ref := ref.(type) {
					case *ssa.FieldAddr:
						if fieldName(al.Type(), ref.Field) != d {
							continue
						}
						for _, st := range refs(ref) {
							if s, ok := st.(*ssa.Store); ok && s.Addr == ref {
								if _, isC := s.Val.(*ssa.Const); !isC {
									copied = true
								}
							}
						}
					case *ssa.Store:
						whole = whole || ref.Addr == al
					}
				}
				r.Check("depth", fnName(f)+": "+d, w.pos(al.Pos()), copied || whole, "a new context starts with depth zero, hence the bound on the depth is never reached")
			}
			for _, i := range instrs(f) {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if n, _, ok := fieldOf(st.Addr); ok && n == d {
					if _, isC := st.Val.(*ssa.Const); isC {
						r.Fail("depth", fnName(f)+": resets "+d, w.pos(st.Pos()), "the depth which bounds a recursion is reset")
					}
				}
			}
		}
	}
}

// decreases: why the recursive call cannot be repeated for ever.
func (w *World) decreases(f *ssa.Function, site ssa.CallInstruction, in map[*ssa.Function]bool) string {
	args := site.Common().Args
	if site.Common().IsInvoke() {
		args = append([]ssa.Value{site.Common().Value}, args...)
	}
	whole := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		}
		return false
	}
	for _, a := range args {
		if !carriesElements(a.Type()) {
			continue
		}
		if n := typeName(deref(a.Type())); strings.HasSuffix(n, "Context") || strings.HasSuffix(n, "context") || strings.HasSuffix(n, "Renderer") || strings.HasSuffix(n, "substitutions") {
			continue
		}
		if partOf(a, whole, 0) {
			return "a part of an element"
		}
	}
	if g := site.Common().StaticCallee(); g == f {
		if why := flatAgain(f, site); why != "" {
			return why
		}
		if why := filteredAgain(f, site); why != "" {
			return why
		}
	}
	// a bound on a depth
	for _, c := range factsAt(site.Block()) {
		if n := boundedField(c, 0); n != "" && w.incremented(f, site, n) {
			if w.depths == nil {
				w.depths = map[string]bool{}
			}
			w.depths[n] = true
			return "below a bound on " + n
		}
	}
	return ""
}

// boundedField: the field which the condition says is below a constant; the condition may be the result of a function.
func boundedField(c cond, depth int) string {
	c = c.norm()
	if k, ok := c.v.(*ssa.Call); ok && depth < 3 {
		g := k.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return ""
		}
		field := ""
		for _, in := range instrs(g) {
			rt, ok := in.(*ssa.Return)
			if !ok || len(rt.Results) != 1 {
				continue
			}
			n := ""
			if k, isC := rt.Results[0].(*ssa.Const); isC {
				if k.Value == nil || (k.Value.String() == "true") != c.val {
					continue // not this result
				}
				for _, f := range factsAt(rt.Block()) {
					if m := boundedField(f, depth+1); m != "" {
						n = m
					}
				}
			} else {
				n = boundedField(cond{v: rt.Results[0], val: c.val}, depth+1)
			}
			if n == "" || field != "" && n != field {
				return ""
			}
			field = n
		}
		return field
	}
	if e, ok := c.v.(*ssa.BinOp); ok {
		if (e.Op == token.EQL) == c.val && (e.Op == token.EQL || e.Op == token.NEQ) && isNilConst(e.Y) && isErrorType(e.X.Type()) && depth < 3 {
			return boundedWhenNil(e.X, depth)
		}
		x, bound, op := e.X, e.Y, e.Op
		n, _, isF := fieldOf(loadedFrom(x))
		if !isF {
			x, bound, op = e.Y, e.X, flipOp(op)
			n, _, isF = fieldOf(loadedFrom(x))
		}
		if !isF {
			return ""
		}
		if _, isC := constInt(bound); !isC {
			return ""
		}
		if !c.val {
			op = negOp(op)
		}
		if op == token.LSS || op == token.LEQ {
			return n
		}
		return ""
	}
	return ""
}

// boundedWhenNil: the field which is below a constant when the error of the function is nil.
func boundedWhenNil(v ssa.Value, depth int) string {
	idx := 0
	if ex, ok := v.(*ssa.Extract); ok {
		v, idx = ex.Tuple, ex.Index
	}
	k, ok := v.(*ssa.Call)
	if !ok || k.Call.StaticCallee() == nil || len(k.Call.StaticCallee().Blocks) == 0 {
		return ""
	}
	field := ""
	for _, in := range instrs(k.Call.StaticCallee()) {
		rt, ok := in.(*ssa.Return)
		if !ok || idx >= len(rt.Results) {
			continue
		}
		e := rt.Results[idx]
		if !isNilConst(e) {
			if _, ok := e.(*ssa.Phi); ok {
				return ""
			}
			continue // an error
		}
		n := ""
		for _, f := range factsAt(rt.Block()) {
			if m := boundedField(f, depth+1); m != "" {
				n = m
			}
		}
		if n == "" || field != "" && n != field {
			return ""
		}
		field = n
	}
	return field
}

// incremented: the field is incremented on every way to the call.
func (w *World) incremented(f *ssa.Function, site ssa.Instruction, n string) bool {
	for _, i := range instrs(f) {
		if !dominatesInstr(i, site) {
			continue
		}
		switch i := i.(type) {
		case *ssa.Store:
			if m, _, ok := fieldOf(i.Addr); ok && m == n && addsSome(i.Val) {
				return true
			}
		case *ssa.Call:
			g := i.Call.StaticCallee()
			if g == nil || !w.inScopeFn(g) || len(g.Blocks) == 0 {
				continue
			}
			for _, j := range instrs(g) {
				st, ok := j.(*ssa.Store)
				if !ok {
					continue
				}
				m, _, ok := fieldOf(st.Addr)
				if !ok || m != n || !addsSome(st.Val) {
					continue
				}
				all := true
				for _, k := range instrs(g) {
					rt, ok := k.(*ssa.Return)
					if !ok || dominatesInstr(st, rt) {
						continue
					}
					if n := len(rt.Results); n > 0 && isErrorType(rt.Results[n-1].Type()) && !isNilConst(rt.Results[n-1]) {
						continue // an error
					}
					all = false
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func addsSome(v ssa.Value) bool {
	inc, ok := v.(*ssa.BinOp)
	if !ok || inc.Op != token.ADD {
		return false
	}
	k, ok := constInt(inc.Y)
	if !ok {
		k, ok = constInt(inc.X)
	}
	return ok && k > 0
}

func loadedFrom(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

// storedInGlobal: the functions which may be called when the one which is called is a field of the value of a global variable.
func storedInGlobal(c ssa.CallInstruction) []*ssa.Function {
	if c.Common().IsInvoke() || c.Common().StaticCallee() != nil {
		return nil
	}
	fa, ok := loadedFrom(c.Common().Value).(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	gl, ok := loadedFrom(fa.X).(*ssa.Global)
	if !ok || gl.Pkg == nil {
		return nil
	}
	var res []*ssa.Function
	for _, m := range gl.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, in := range instrs(f) {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr == gl {
				al, ok := st.Val.(*ssa.Alloc)
				if !ok {
					return nil
				}
				for _, r := range refs(al) {
					if a, ok := r.(*ssa.FieldAddr); ok && a.Field == fa.Field {
						for _, s := range refs(a) {
							if s, ok := s.(*ssa.Store); ok && s.Addr == a {
								if g := fnValue(s.Val); g != nil {
									res = append(res, g)
								}
							}
						}
					}
				}
			} else if a, ok := st.Addr.(*ssa.FieldAddr); ok && a.Field == fa.Field && loadedFrom(a.X) == gl {
				return nil
			}
		}
	}
	return res
}

func fnValue(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return fnValue(v.X)
	}
	return nil
}

// assertedAt: the value is known to be of the type (ok), or not to be of it (!ok), in the block.
func assertedAt(b *ssa.BasicBlock, ok bool, match func(t *ssa.TypeAssert) bool) bool {
	for _, c := range factsAt(b) {
		c = c.norm()
		ex, isE := c.v.(*ssa.Extract)
		if !isE || ex.Index != 1 || c.val != ok {
			continue
		}
		if t, isT := ex.Tuple.(*ssa.TypeAssert); isT && match(t) {
			return true
		}
	}
	return false
}

// flatAgain: the function calls itself for the elements which are lists, with a list which has none.
func flatAgain(f *ssa.Function, site ssa.CallInstruction) string {
	for _, c := range factsAt(site.Block()) {
		c = c.norm()
		ex, ok := c.v.(*ssa.Extract)
		if !ok || ex.Index != 1 || !c.val {
			continue
		}
		t, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok {
			continue
		}
		list := func(v ssa.Value) bool { return types.Identical(v.Type(), t.AssertedType) }
		whole := func(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }
		if !partOf(t.X, whole, 0) || !list(f.Params[0]) {
			continue
		}
		flat := false
		for _, a := range site.Common().Args {
			if list(a) && flatList(f, a, t.AssertedType, map[ssa.Value]bool{}) {
				flat = true
			}
		}
		if !flat {
			continue
		}
		for _, in := range instrs(f) { // and so is what the function returns
			if rt, ok := in.(*ssa.Return); ok {
				for _, v := range rt.Results {
					if list(v) && !flatList(f, v, t.AssertedType, map[ssa.Value]bool{}) {
						flat = false
					}
				}
			}
		}
		if flat {
			return "a list which has no list"
		}
	}
	return ""
}

// flatList: the list has no element of the type, provided the results of the function have none.
func flatList(f *ssa.Function, v ssa.Value, t types.Type, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !flatList(f, e, t, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				if !flatList(f, a, t, seen) {
					return false
				}
			}
			return true
		}
		return x.Call.StaticCallee() == f
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return flatList(f, x.X, t, seen)
		}
		for _, in := range refs(a) {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				for _, r := range refs(in) {
					if st, ok := r.(*ssa.Store); ok && st.Addr == in {
						if !notOfType(st.Val, st.Block(), t) {
							return false
						}
					}
				}
			case *ssa.Store:
				return false
			}
		}
		return true
	}
	return false
}

func notOfType(v ssa.Value, b *ssa.BasicBlock, t types.Type) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return !types.Identical(m.X.Type(), t)
	}
	return assertedAt(b, false, func(a *ssa.TypeAssert) bool { return a.X == v && types.Identical(a.AssertedType, t) })
}

// filteredAgain: the function calls itself with what it was given without the elements of a type, and only when it found elements of that type.
func filteredAgain(f *ssa.Function, site ssa.CallInstruction) string {
	for i, a := range site.Common().Args {
		h, ok := a.(*ssa.Call)
		if !ok || h.Call.StaticCallee() == nil || len(h.Call.Args) == 0 || i >= len(f.Params) {
			continue
		}
		given := false
		for _, q := range h.Call.Args {
			given = given || q == f.Params[i]
		}
		if !given {
			continue
		}
		g := h.Call.StaticCallee()
		for _, t := range assertedTypes(g) {
			if !filters(g, t) {
				continue
			}
			for _, c := range factsAt(site.Block()) {
				c = c.norm()
				k, ok := c.v.(*ssa.Call)
				if ok && k.Call.StaticCallee() != nil && countsOnly(k.Call.StaticCallee(), t, c.val) {
					return "without the elements which were found"
				}
			}
		}
	}
	return ""
}

func assertedTypes(g *ssa.Function) (res []types.Type) {
	for _, in := range instrs(g) {
		if t, ok := in.(*ssa.TypeAssert); ok {
			res = append(res, t.AssertedType)
		}
	}
	return res
}

// filters: what the function returns has no element of the type: what it adds to lists is not of that type.
func filters(g *ssa.Function, t types.Type) bool {
	n := 0
	for _, in := range instrs(g) {
		c, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			n++
			for _, a := range c.Call.Args[1:] {
				if !flatList(g, a, t, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	for _, in := range instrs(g) {
		rt, ok := in.(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range rt.Results {
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
			}
			if p, ok := v.(*ssa.Parameter); ok { // when it is no list
				if !assertedAt(rt.Block(), false, func(a *ssa.TypeAssert) bool {
					_, isList := a.AssertedType.Underlying().(*types.Slice)
					return a.X == p && isList
				}) {
					return false
				}
				continue
			}
			if !flatList(g, v, t, map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return n > 0
}

// countsOnly: the function gives the result only if it has found elements of the type.
func countsOnly(g *ssa.Function, t types.Type, val bool) bool {
	ok := false
	for _, in := range instrs(g) {
		rt, isR := in.(*ssa.Return)
		if !isR || len(rt.Results) != 1 {
			continue
		}
		if k, isC := rt.Results[0].(*ssa.Const); isC {
			if k.Value != nil && (k.Value.String() == "true") == val && !assertedAt(rt.Block(), true, func(a *ssa.TypeAssert) bool { return types.Identical(a.AssertedType, t) }) {
				return false
			}
			ok = true
			continue
		}
		b, isB := rt.Results[0].(*ssa.BinOp)
		if !isB {
			return false
		}
		n, isC := constInt(b.Y)
		if !isC || n != 0 {
			return false
		}
		switch b.Op { // not the result for zero
		case token.EQL, token.LEQ, token.GEQ:
			if val {
				return false
			}
		case token.NEQ, token.GTR, token.LSS:
			if !val {
				return false
			}
		}
		// the counter changes only for elements of the type
		seen := map[ssa.Value]bool{}
		var counter func(v ssa.Value) bool
		counter = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Const:
				n, ok := constInt(x)
				return ok && n == 0
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !counter(e) {
						return false
					}
				}
				return true
			case *ssa.BinOp:
				return counter(x.X) && assertedAt(x.Block(), true, func(a *ssa.TypeAssert) bool { return types.Identical(a.AssertedType, t) })
			}
			return false
		}
		if !counter(b.X) {
			return false
		}
		ok = true
	}
	return ok
}
