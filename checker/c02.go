package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: no failure is swallowed.

func init() {
	register(&checkDef{id: "C02", title: "No failure is swallowed", run: runC02,
		explanation: "Each error which a call may give, and each error of a fragment of the document, is followed along all paths of the function: it is returned (possibly wrapped), sent in a fragment, added to the errors of the parser, or looked at; and from the branch in which it is not nil, every path ends with an error being returned or sent (or the text on which the operation failed is kept as it is). Every scanner is asked for its error after the last line was read, panics of the parser are turned into errors, and the entry points of the parser return the errors which were collected.",
		assumptions: []string{"writes in memory (strings.Builder, bytes.Buffer) and closing a file which was only read do not fail", "a number which cannot be parsed in an attribute which is only about layout is replaced by its default"}})
}

type errorFlow struct {
	w      *World
	r      *Report
	never  map[*ssa.Function]int // 1: never fails, 2: may fail
	always map[*ssa.Function]int // 1: never nil
	cons   map[string]int
	agg    map[*ssa.Function]bool
}

// errorSource: where an error comes from.
type errorSource struct {
	in    ssa.Instruction // the call, or the load
	vals  []ssa.Value     // the error (or what contains it)
	what  string
	text  []ssa.Value // the content on which the operation is applied
	tuple bool
}

func runC02(w *World, r *Report) {
	w.buildCallGraph()
	e := newErrorFlow(w, r)
	roots := apiRoots(w)
	live := w.reachable(roots...)
	for _, f := range w.grammarFuncs() {
		live[f] = true
	}
	var fns []*ssa.Function
	for f := range live {
		if w.inScopeFn(f) && relPkg(f.Pkg.Pkg) != "cmd/libasciidoc" {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	r.Count("functions reachable from the API", len(fns))
	n := 0
	for _, f := range fns {
		n += e.function(f)
		e.recovers(f)
		e.entryPoint(f)
		e.scanners(f)
	}
	r.Floor("errors followed", n, 300)
}

func newErrorFlow(w *World, r *Report) *errorFlow {
	return &errorFlow{w: w, r: r, never: map[*ssa.Function]int{}, always: map[*ssa.Function]int{}, cons: map[string]int{}}
}

func apiRoots(w *World) []*ssa.Function {
	return []*ssa.Function{w.fn("", "Convert"), w.fn("", "ConvertFile")}
}

// grammarFuncs: the actions and predicates of the grammar, which are called through tables.
func (w *World) grammarFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range w.Funcs {
		if w.isGenerated(f) && f.Signature.Recv() != nil && typeName(deref(f.Signature.Recv().Type())) == "parser.current" {
			r = append(r, f)
		}
	}
	return r
}

func holdsError(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	n := typeName(deref(t))
	return n == "types.DocumentFragment"
}

func (e *errorFlow) function(f *ssa.Function) int {
	n := 0
	for _, src := range e.sources(f) {
		n++
		bad := e.follow(f, src)
		name := fnName(f) + " " + src.what
		rule := "propagated"
		if strings.HasSuffix(src.what, "DocumentFragment.Error") {
			rule = "fragment-errors"
			if e.aggregates(f) {
				name = "Aggregate " + src.what
			}
		}
		e.r.Check(rule, name, e.w.pos(src.in.Pos()), bad == "", bad)
	}
	return n
}

// aggregates: the function is a part of the last stage, which makes the document of the fragments.
func (e *errorFlow) aggregates(f *ssa.Function) bool {
	g := e.w.fn("pkg/parser", "Aggregate")
	if g == nil {
		return false
	}
	if e.agg == nil {
		e.agg = e.w.reachable(g)
	}
	return e.agg[f] && f.Pkg == g.Pkg
}

func (e *errorFlow) sources(f *ssa.Function) []errorSource {
	var out []errorSource
	for _, in := range instrs(f) {
		switch in := in.(type) {
		case ssa.CallInstruction:
			c := in.Common()
			res := c.Signature().Results()
			idx := -1
			for i := 0; i < res.Len(); i++ {
				if isErrorType(res.At(i).Type()) {
					idx = i
				}
			}
			if idx < 0 || e.constructor(in) || e.cannotFail(in) {
				continue
			}
			what := callName(c)
			if what == "" || what == "?" {
				what = "call of a function value"
				if g := calleesNames(e.w, in); g != "" {
					what = g
				}
			}
			src := errorSource{in: in, what: what}
			if v := in.Value(); v != nil {
				if res.Len() == 1 {
					src.vals = append(src.vals, v)
				} else {
					src.tuple = true
					for _, u := range refs(v) {
						if x, ok := u.(*ssa.Extract); ok && x.Index == idx {
							src.vals = append(src.vals, x)
						}
					}
				}
			}
			for _, a := range c.Args {
				if isText(a.Type()) {
					if _, ok := a.(*ssa.Const); !ok {
						src.text = append(src.text, a)
					}
				}
			}
			out = append(out, src)
		case *ssa.UnOp:
			fa, ok := in.X.(*ssa.FieldAddr)
			if ok && in.Op == token.MUL && fieldName(fa.X.Type(), fa.Field) == "types.DocumentFragment.Error" {
				out = append(out, errorSource{in: in, what: "DocumentFragment.Error", vals: []ssa.Value{in, fa.X}})
			}
		case *ssa.Field:
			if fieldName(in.X.Type(), in.Field) == "types.DocumentFragment.Error" {
				out = append(out, errorSource{in: in, what: "DocumentFragment.Error", vals: []ssa.Value{in, in.X}})
			}
		}
	}
	return out
}

func calleesNames(w *World, c ssa.CallInstruction) string {
	if g := c.Common().StaticCallee(); g != nil {
		return fnName(g)
	}
	return ""
}

func isText(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := types.Unalias(u.Elem()).Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// constructor: the call makes an error.
func (e *errorFlow) constructor(in ssa.CallInstruction) bool {
	switch callName(in.Common()) {
	case "errors.New", "fmt.Errorf", "errors.Join",
		"github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf",
		"github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		return true
	}
	if g := in.Common().StaticCallee(); g != nil && e.w.inScopeFn(g) {
		return e.alwaysFails(g)
	}
	return false
}

// cannotFail: operations in memory, and closing a file which was read.
func (e *errorFlow) cannotFail(in ssa.CallInstruction) bool {
	c := in.Common()
	n := callName(c)
	switch {
	case strings.HasPrefix(n, "(*strings.Builder).Write"), strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*strings.Reader)."), strings.HasPrefix(n, "(*bytes.Reader)."):
		return true
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString":
		return e.memory(c.Args[0], 0)
	case n == "(*os.File).Close" || n == "(io.Closer).Close":
		return !e.mayWriteFiles()
	case c.IsInvoke() && strings.HasSuffix(n, ".Write"):
		return e.memory(c.Value, 0)
	}
	gs := e.w.calleesOf(in)
	if len(gs) == 0 || !c.IsInvoke() && c.StaticCallee() == nil {
		return false
	}
	for _, g := range gs {
		if !e.w.inScopeFn(g) || !e.neverFails(g) {
			return false
		}
	}
	return true
}

// memory: the writer is a buffer.
func (e *errorFlow) memory(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch t := typeName(deref(v.Type())); t {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return e.memory(v.X, depth+1)
	case *ssa.ChangeInterface:
		return e.memory(v.X, depth+1)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !e.memory(x, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := v.Parent()
		if isAPI(f) || len(e.w.callers[f]) == 0 {
			return false
		}
		i := paramIndex(f, v)
		for _, c := range e.w.callers[f] {
			a, ok := argFor(c, f, i)
			if !ok || !e.memory(a, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// mayWriteFiles: the library opens files for something else than reading.
func (e *errorFlow) mayWriteFiles() bool {
	found := false
	forCalls(e.w.libraryFuncs(), func(f *ssa.Function, c ssa.CallInstruction) {
		switch callName(c.Common()) {
		case "os.Create", "os.OpenFile", "os.CreateTemp":
			found = true
		}
	})
	return found
}

// neverFails: the error which is returned is always nil.
func (e *errorFlow) neverFails(f *ssa.Function) bool {
	switch e.never[f] {
	case 1:
		return true
	case 2:
		return false
	}
	e.never[f] = 1 // recursion
	ok := true
	for _, in := range instrs(f) {
		ret, isRet := in.(*ssa.Return)
		if !isRet {
			continue
		}
		for _, v := range ret.Results {
			if isErrorType(v.Type()) && !e.alwaysNil(v, map[ssa.Value]bool{}) {
				ok = false
			}
		}
	}
	if !ok {
		e.never[f] = 2
	}
	return ok
}

func (e *errorFlow) alwaysNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !e.alwaysNil(x, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return e.cannotFail(v)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return e.cannotFail(c)
		}
	}
	return false
}

// alwaysFails: the error which is returned is never nil.
func (e *errorFlow) alwaysFails(f *ssa.Function) bool {
	switch e.always[f] {
	case 1:
		return true
	case 2:
		return false
	}
	e.always[f] = 2
	n := 0
	for _, in := range instrs(f) {
		ret, isRet := in.(*ssa.Return)
		if !isRet {
			continue
		}
		for _, v := range ret.Results {
			if isErrorType(v.Type()) {
				n++
				if !e.notNil(v, 0) {
					return false
				}
			}
		}
	}
	if n == 0 {
		return false
	}
	e.always[f] = 1
	return true
}

// resolveLoad: the value of a (named) result, as it was stored before.
func resolveLoad(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	b, i := u.Block(), instrIndex(u)-1
	for n := 0; n < 50; n++ {
		for ; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				return st.Val
			}
		}
		if len(b.Preds) != 1 {
			return v
		}
		b = b.Preds[0]
		i = len(b.Instrs) - 1
	}
	return v
}

func (e *errorFlow) notNil(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	v = resolveLoad(v)
	switch v := v.(type) {
	case *ssa.Call:
		switch n := callName(&v.Call); n {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return true
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
			return e.notNil(v.Call.Args[0], depth+1)
		}
		if g := v.Call.StaticCallee(); g != nil && e.w.inScopeFn(g) && v.Type() != nil && isErrorType(v.Type()) {
			return e.alwaysFails(g)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && e.w.inScopeFn(g) {
				return e.alwaysFails(g)
			}
		}
	case *ssa.MakeInterface:
		switch x := v.X.(type) {
		case *ssa.Alloc:
			return true
		default:
			_, ptr := types.Unalias(x.Type()).Underlying().(*types.Pointer)
			return !ptr
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			if x != ssa.Value(v) && !e.notNil(x, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && isErrorType(v.Type()) {
			return g != nil // errors which are declared
		}
	case *ssa.ChangeInterface:
		return e.notNil(v.X, depth+1)
	}
	return false
}

// ---------------------------------------------------------------------------
// along the paths

type errState struct {
	b      *ssa.BasicBlock
	from   *ssa.BasicBlock
	start  int
	failed bool
	set    map[ssa.Value]bool
}

func (s *errState) id() string {
	var ids []string
	for v := range s.set {
		ids = append(ids, v.Name())
	}
	sort.Strings(ids)
	from := -1
	if s.from != nil {
		from = s.from.Index
	}
	return fmt.Sprint(s.b.Index, " ", from, " ", s.failed, " ", ids)
}

// follow tells what is wrong with the handling of an error.
func (e *errorFlow) follow(f *ssa.Function, src errorSource) string {
	if _, ok := src.in.(*ssa.Call); !ok {
		if c, isCall := src.in.(ssa.CallInstruction); isCall {
			_ = c
			return "the error of a deferred call, or of a goroutine, is lost"
		}
	}
	if len(src.vals) == 0 && !e.benign(f, src) {
		return "the error is not looked at"
	}
	seen := map[string]bool{}
	set := map[ssa.Value]bool{}
	for _, v := range src.vals {
		set[v] = true
	}
	q := []*errState{{b: src.in.Block(), start: instrIndex(src.in) + 1, set: set}}
	bad := ""
	for len(q) > 0 && bad == "" {
		s := q[len(q)-1]
		q = q[:len(q)-1]
		if k := s.id(); s.start == 0 {
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		if len(seen) > 5000 {
			return "too many paths"
		}
		// phis
		if s.from != nil {
			pi := -1
			for i, p := range s.b.Preds {
				if p == s.from {
					pi = i
				}
			}
			upd := map[ssa.Value]bool{}
			for _, in := range s.b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				upd[phi] = pi >= 0 && s.set[phi.Edges[pi]]
			}
			for v, in := range upd {
				if in {
					s.set[v] = true
				} else {
					delete(s.set, v)
				}
			}
		}
		done := false
		for i := s.start; i < len(s.b.Instrs) && !done && bad == ""; i++ {
			in := s.b.Instrs[i]
			if in == src.in {
				if s.failed {
					bad = "after a failure, the loop goes on as if nothing had happened"
				} else {
					bad = "the error is replaced before it was looked at"
				}
				break
			}
			done, bad = e.step(f, s, in, src)
		}
		if done || bad != "" {
			continue
		}
		last := lastInstr(s.b)
		next := func(b *ssa.BasicBlock, failed bool) {
			set := make(map[ssa.Value]bool, len(s.set))
			for v := range s.set {
				set[v] = true
			}
			q = append(q, &errState{b: b, from: s.b, failed: failed, set: set})
		}
		if br, ok := last.(*ssa.If); ok {
			c := cond{br.Cond, true, nil}.norm()
			if b, ok := c.v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				x, y := b.X, b.Y
				if isNilConst(x) {
					x, y = y, x
				}
				if isNilConst(y) && s.set[x] {
					isNil := (b.Op == token.EQL) == c.val
					t, fl := s.b.Succs[0], s.b.Succs[1]
					if isNil {
						next(fl, true)
					} else {
						next(t, true)
					}
					continue
				}
			}
		}
		for _, b := range s.b.Succs {
			next(b, s.failed)
		}
	}
	if bad != "" && e.benign(f, src) {
		return ""
	}
	return bad
}

// step interprets an instruction; it returns whether the path ends, and what is wrong.
func (e *errorFlow) step(f *ssa.Function, s *errState, in ssa.Instruction, src errorSource) (bool, string) {
	switch in := in.(type) {
	case *ssa.Return:
		for _, v := range in.Results {
			if s.set[v] {
				return true, ""
			}
			if s.failed && isErrorType(v.Type()) && e.notNil(v, 0) {
				return true, ""
			}
		}
		for _, v := range in.Results {
			if !s.failed && isErrorType(v.Type()) && e.onFailure(v, in.Block()) {
				return true, "" // another failure
			}
		}
		if s.failed && e.kept(f, in, src) {
			return true, ""
		}
		if f.Parent() != nil {
			// a variable of the enclosing function, which returns it
			for v := range s.set {
				if fv, ok := v.(*ssa.FreeVar); ok && e.parentReturns(f, fv) {
					return true, ""
				}
			}
		}
		if s.failed {
			return true, "a failure leads to a return at " + e.w.pos(in.Pos()) + " without an error"
		}
		return true, "the error is not looked at before the return at " + e.w.pos(in.Pos())
	case *ssa.Panic:
		return true, ""
	case *ssa.Send:
		if s.set[in.X] {
			return true, ""
		}
	case *ssa.Select:
		for _, st := range in.States {
			if st.Dir == types.SendOnly && s.set[st.Send] {
				return true, ""
			}
		}
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.Alloc:
			if s.set[in.Val] {
				s.set[a] = true
			} else {
				delete(s.set, a)
			}
		case *ssa.FreeVar:
			if s.set[in.Val] {
				s.set[a] = true
			} else {
				delete(s.set, a)
			}
		case *ssa.IndexAddr:
			if s.set[in.Val] {
				s.set[a.X] = true
			}
		case *ssa.FieldAddr:
			if s.set[in.Val] {
				s.set[a.X] = true
				if _, ok := stripConv(a.X).(*ssa.Parameter); ok && fieldName(a.X.Type(), a.Field) != "" && e.keptField(a) {
					return true, ""
				}
			}
		}
	case *ssa.UnOp:
		if in.Op != token.MUL {
			break
		}
		switch a := in.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			if s.set[a] {
				s.set[in] = true
			} else {
				delete(s.set, in)
			}
		case *ssa.FieldAddr:
			if s.set[a.X] && holdsError(in.Type()) {
				s.set[in] = true
			}
		}
	case *ssa.Slice:
		if s.set[in.X] {
			s.set[in] = true
		}
	case *ssa.MakeInterface:
		if s.set[in.X] {
			s.set[in] = true
		}
	case *ssa.ChangeInterface:
		if s.set[in.X] {
			s.set[in] = true
		}
	case *ssa.ChangeType:
		if s.set[in.X] {
			s.set[in] = true
		}
	case *ssa.TypeAssert:
		if s.set[in.X] {
			s.set[in] = true
		}
	case *ssa.Extract:
		if s.set[in.Tuple] && holdsError(in.Type()) {
			s.set[in] = true
		}
	case *ssa.MakeClosure:
		for _, b := range in.Bindings {
			if s.set[b] {
				s.set[in] = true
			}
		}
	case ssa.CallInstruction:
		c := in.Common()
		hit := false
		for i, a := range c.Args {
			if !s.set[a] {
				continue
			}
			hit = true
			for _, g := range e.w.calleesOf(in) {
				j := i
				if c.IsInvoke() {
					j++
				}
				if e.consumes(g, j, 0) {
					return true, ""
				}
			}
		}
		if hit && in.Value() != nil {
			res := c.Signature().Results()
			for i := 0; i < res.Len(); i++ {
				if holdsError(res.At(i).Type()) {
					s.set[in.Value()] = true
				}
			}
		}
		if s.failed && !hit {
			// what could not be processed is kept as it is
			for _, a := range c.Args {
				for _, t := range src.text {
					if a == t && callName(c) != callName(callCommon(src.in)) && !isLog(c) && keepsText(e.w, in) {
						return true, ""
					}
				}
			}
		}
	}
	return false, ""
}

// kept: what could not be processed comes from a parameter, which is returned as it is (or belongs to the caller).
func (e *errorFlow) kept(f *ssa.Function, ret *ssa.Return, src errorSource) bool {
	roots := map[*ssa.Parameter]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, depth int)
	visit = func(v ssa.Value, depth int) {
		if v == nil || seen[v] || depth > 10 {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Parameter:
			roots[v] = true
		case *ssa.Const, *ssa.Global, *ssa.FreeVar, *ssa.Alloc:
		case *ssa.Call:
			for _, a := range v.Call.Args {
				visit(a, depth+1)
			}
		case ssa.Instruction:
			for _, o := range v.Operands(nil) {
				visit(*o, depth+1)
			}
		}
	}
	c, ok := src.in.(*ssa.Call)
	if !ok || c.Call.IsInvoke() {
		return false
	}
	for _, a := range c.Call.Args {
		if t := typeName(deref(a.Type())); isText(a.Type()) || t == "io.Reader" {
			visit(a, 0)
		}
	}
	if len(roots) != 1 {
		return false
	}
	for p := range roots {
		if len(ret.Results) == 0 {
			_, ptr := types.Unalias(p.Type()).Underlying().(*types.Pointer)
			return ptr
		}
		for _, v := range ret.Results {
			if v == ssa.Value(p) {
				return true
			}
		}
	}
	return false
}

func callCommon(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return &ssa.CallCommon{}
}

func isLog(c *ssa.CallCommon) bool {
	return strings.Contains(callName(c), "sirupsen/logrus")
}

// keepsText: the call writes the text.
func keepsText(w *World, in ssa.CallInstruction) bool {
	n := callName(in.Common())
	i := strings.LastIndex(n, ".")
	return strings.HasPrefix(n[i+1:], "Write") || strings.HasPrefix(n[i+1:], "write")
}

// keptField: errors which are kept in a field (of a fragment) through a pointer.
func (e *errorFlow) keptField(fa *ssa.FieldAddr) bool {
	return fieldName(fa.X.Type(), fa.Field) == "types.DocumentFragment.Error"
}

// consumes: the parameter (an error) is sent, or kept in what another parameter points to.
func (e *errorFlow) consumes(g *ssa.Function, i int, depth int) bool {
	if depth > 5 || !e.w.inScopeFn(g) || i >= len(g.Params) {
		return false
	}
	k := fmt.Sprint(g.String(), " ", i)
	switch e.cons[k] {
	case 1:
		return true
	case 2:
		return false
	}
	e.cons[k] = 2
	set := map[ssa.Value]bool{g.Params[i]: true}
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if v != nil && !set[v] {
				set[v] = true
				changed = true
			}
		}
		for _, in := range instrs(g) {
			switch in := in.(type) {
			case *ssa.Send:
				if set[in.X] {
					e.cons[k] = 1
					return true
				}
			case *ssa.Select:
				for _, st := range in.States {
					if st.Dir == types.SendOnly && set[st.Send] {
						e.cons[k] = 1
						return true
					}
				}
			case *ssa.Panic:
				if set[in.X] {
					e.cons[k] = 1
					return true
				}
			case *ssa.Store:
				if !set[in.Val] {
					continue
				}
				base := in.Addr
				for {
					if fa, ok := base.(*ssa.FieldAddr); ok {
						base = fa.X
						continue
					}
					if ia, ok := base.(*ssa.IndexAddr); ok {
						base = ia.X
						continue
					}
					break
				}
				switch b := base.(type) {
				case *ssa.Alloc:
					add(b)
				case *ssa.Parameter:
					e.cons[k] = 1
					return true
				case *ssa.UnOp: // a field of a parameter
					e.cons[k] = 1
					return true
				}
			case ssa.CallInstruction:
				for j, a := range in.Common().Args {
					if !set[a] {
						continue
					}
					if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
						add(in.Value())
						continue
					}
					for _, h := range e.w.calleesOf(in) {
						jj := j
						if in.Common().IsInvoke() {
							jj++
						}
						if e.consumes(h, jj, depth+1) {
							e.cons[k] = 1
							return true
						}
					}
					if in.Value() != nil {
						add(in.Value())
					}
				}
			case *ssa.MakeInterface:
				if set[in.X] {
					add(in)
				}
			case *ssa.ChangeInterface:
				if set[in.X] {
					add(in)
				}
			case *ssa.Slice:
				if set[in.X] {
					add(in)
				}
			case *ssa.Phi:
				for _, x := range in.Edges {
					if set[x] {
						add(in)
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && set[in.X] {
					add(in)
				}
			}
		}
	}
	return false
}

// parentReturns: the captured variable is returned by the function which declares it.
func (e *errorFlow) parentReturns(f *ssa.Function, fv *ssa.FreeVar) bool {
	p := f.Parent()
	for _, in := range instrs(p) {
		mc, ok := in.(*ssa.MakeClosure)
		if !ok || mc.Fn != ssa.Value(f) {
			continue
		}
		for i, b := range mc.Bindings {
			if f.FreeVars[i] != fv {
				continue
			}
			for _, u := range refs(b) {
				ld, ok := u.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				for _, x := range refs(ld) {
					switch x.(type) {
					case *ssa.Return, *ssa.BinOp:
						return true
					}
				}
			}
		}
	}
	return false
}

// benign: failures which do not concern the content.
func (e *errorFlow) benign(f *ssa.Function, src errorSource) bool {
	n := src.what
	pkg := f.Pkg.Pkg.Name()
	switch {
	case strings.HasPrefix(n, "strconv."):
		// a default is used instead: while rendering, or by a function which gives no error (not while evaluating directives)
		res := f.Signature.Results()
		fails := false
		for i := 0; i < res.Len(); i++ {
			fails = fails || isErrorType(res.At(i).Type())
		}
		return pkg == "sgml" || !fails
	case n == "os.ReadFile" || n == "os.Open":
		// the images to embed: the document is complete without them
		return pkg == "sgml"
	}
	return false
}

// recovers: a panic becomes an error.
func (e *errorFlow) recovers(f *ssa.Function) {
	for _, in := range instrs(f) {
		c, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "recover" {
			continue
		}
		good := false
		for _, x := range instrs(f) {
			st, ok := x.(*ssa.Store)
			if !ok || !isErrorType(st.Val.Type()) || isNilConst(st.Val) {
				continue
			}
			if fv, ok := st.Addr.(*ssa.FreeVar); ok && e.parentReturnsNamed(f, fv) {
				good = true
				// on each path where something was recovered
				for _, y := range instrs(f) {
					ret, ok := y.(*ssa.Return)
					if !ok {
						continue
					}
					if avoid(in.Block(), ret.Block(), st.Block()) && !nilRecover(in, ret.Block(), st.Block()) {
						good = false
					}
				}
			}
		}
		e.r.Check("recovered", fnName(f), e.w.pos(in.Pos()), good, "a panic which is recovered becomes the error which is returned")
	}
}

// avoid: b is reachable from a without passing through c.
func avoid(a, b, c *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		if x == c || seen[x] {
			return false
		}
		seen[x] = true
		if x == b {
			return true
		}
		for _, s := range x.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(a)
}

// nilRecover: the only way around is the one where there was no panic.
func nilRecover(rec ssa.Instruction, ret, st *ssa.BasicBlock) bool {
	br, ok := lastInstr(rec.Block()).(*ssa.If)
	if !ok {
		return false
	}
	c := cond{br.Cond, true, nil}.norm()
	b, ok := c.v.(*ssa.BinOp)
	if !ok || !(isNilConst(b.X) || isNilConst(b.Y)) {
		return false
	}
	panicked := rec.Block().Succs[0]
	if (b.Op == token.EQL) == c.val {
		panicked = rec.Block().Succs[1]
	}
	return !avoid(panicked, ret, st)
}

func (e *errorFlow) parentReturnsNamed(f *ssa.Function, fv *ssa.FreeVar) bool {
	return f.Parent() != nil && e.parentReturns(f, fv)
}

// entryPoint: functions of the parser which run a rule return the errors collected.
func (e *errorFlow) entryPoint(f *ssa.Function) {
	if f.Signature.Recv() == nil || typeName(deref(f.Signature.Recv().Type())) != "parser.parser" {
		return
	}
	res := f.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return
	}
	var rules []ssa.Instruction
	for _, in := range instrs(f) {
		c, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		g := c.Call.StaticCallee()
		if g == nil || g.Signature.Recv() == nil || typeName(deref(g.Signature.Recv().Type())) != "parser.parser" {
			continue
		}
		r := g.Signature.Results()
		if r.Len() == 2 && r.At(1).Type() == types.Typ[types.Bool] {
			rules = append(rules, in)
		}
	}
	if len(rules) == 0 {
		return
	}
	for _, in := range instrs(f) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			continue
		}
		if f.Recover == ret.Block() {
			continue // the way out after a panic: see the rule "recovered"
		}
		before := true
		for _, c := range rules {
			before = before && !reachable2(c, ret)
		}
		if before && atEndOfInput(ret.Block()) {
			continue // nothing is left
		}
		v := ret.Results[len(ret.Results)-1]
		e.r.Check("collected", fnName(f), e.w.pos(ret.Pos()), e.collected(v, ret, 0), "the errors found while parsing are returned")
	}
}

// atEndOfInput: the block is reached on a condition about the position of the parser.
func atEndOfInput(b *ssa.BasicBlock) bool {
	for _, f := range factsAt(b) {
		c := f.norm()
		bo, ok := c.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.EQL, token.GEQ, token.LEQ:
			ok = c.val
		default:
			ok = !c.val
		}
		if !ok {
			continue
		}
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			for i := 0; i < 4; i++ {
				switch x := o.(type) {
				case *ssa.UnOp:
					o = x.X
				case *ssa.Call:
					if len(x.Call.Args) > 0 {
						o = x.Call.Args[0]
					}
				case *ssa.FieldAddr:
					if typeName(deref(x.X.Type())) == "parser.savepoint" || typeName(deref(x.X.Type())) == "parser.position" || fieldName(x.X.Type(), x.Field) == "parser.parser.pt" || fieldName(x.X.Type(), x.Field) == "parser.parser.data" {
						return true
					}
					o = x.X
				}
			}
		}
	}
	return false
}

// collected: the value is made from the errors of the parser.
func (e *errorFlow) collected(v ssa.Value, ret *ssa.Return, depth int) bool {
	if depth > 6 {
		return false
	}
	v = resolveLoad(v)
	switch v := v.(type) {
	case *ssa.Call:
		for _, a := range v.Call.Args {
			if u, ok := a.(*ssa.UnOp); ok {
				if u2, ok := u.X.(*ssa.UnOp); ok {
					u = u2
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "parser.parser.errs" {
					return true
				}
			}
		}
		if g := v.Call.StaticCallee(); g != nil && e.w.inScopeFn(g) && g.Signature.Recv() != nil && typeName(deref(g.Signature.Recv().Type())) == "parser.parser" {
			return true // has its own obligation
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && typeName(deref(g.Signature.Recv().Type())) == "parser.parser" {
				return true
			}
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !e.collected(x, ret, depth+1) {
				return false
			}
		}
		return true
	}
	return e.notNil(v, 0)
}

// scanners: Err is called after the last line was scanned.
func (e *errorFlow) scanners(f *ssa.Function) {
	for _, in := range instrs(f) {
		c, ok := in.(*ssa.Call)
		if !ok || callName(&c.Call) != "bufio.NewScanner" {
			continue
		}
		e.scanner(f, c)
	}
}

func (e *errorFlow) scanner(f *ssa.Function, mk *ssa.Call) {
	bad := ""
	type item struct {
		b       *ssa.BasicBlock
		i       int
		scanned bool
	}
	type key struct {
		b       *ssa.BasicBlock
		scanned bool
	}
	seen := map[key]bool{}
	q := []item{{mk.Block(), instrIndex(mk) + 1, false}}
	for len(q) > 0 && bad == "" {
		it := q[len(q)-1]
		q = q[:len(q)-1]
		if it.i == 0 {
			if seen[key{it.b, it.scanned}] {
				continue
			}
			seen[key{it.b, it.scanned}] = true
		}
		stop := false
		for i := it.i; i < len(it.b.Instrs) && !stop; i++ {
			switch in := it.b.Instrs[i].(type) {
			case ssa.CallInstruction:
				scans, errs := e.scanEffect(in, mk, 0)
				if scans {
					it.scanned = true
				}
				if errs {
					it.scanned = false
				}
			case *ssa.Return:
				stop = true
				if !it.scanned {
					break
				}
				fails := false
				for _, v := range in.Results {
					if isErrorType(v.Type()) && (e.notNil(v, 0) || e.onFailure(v, in.Block())) {
						fails = true
					}
				}
				if !fails {
					bad = "lines were read, and the error of the scanner is not asked for before the return at " + e.w.pos(in.Pos())
				}
			case *ssa.Panic:
				stop = true
			}
		}
		if stop {
			continue
		}
		for _, s := range it.b.Succs {
			q = append(q, item{s, 0, it.scanned})
		}
	}
	e.r.Check("scanner-error", fnName(f), e.w.pos(mk.Pos()), bad == "", bad)
}

// onFailure: the block is only reached when the value (or what it wraps) is not nil.
func (e *errorFlow) onFailure(v ssa.Value, b *ssa.BasicBlock) bool {
	base := resolveLoad(v)
	for i := 0; i < 4; i++ {
		if c, ok := base.(*ssa.Call); ok && e.constructor(c) && len(c.Call.Args) > 0 && isErrorType(c.Call.Args[0].Type()) {
			base = c.Call.Args[0]
		}
	}
	for _, fact := range factsAt(b) {
		c := fact.norm()
		bo, ok := c.v.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := bo.X, bo.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) && x == base && (bo.Op == token.NEQ) == c.val {
			return true
		}
	}
	return false
}

// scanEffect: whether the call reads lines with the scanner, and whether it asks for its error afterwards.
func (e *errorFlow) scanEffect(in ssa.CallInstruction, sc ssa.Value, depth int) (scans, errs bool) {
	c := in.Common()
	if len(c.Args) == 0 || depth > 4 {
		return
	}
	for i, a := range c.Args {
		if !sameScanner(a, sc) {
			continue
		}
		switch callName(c) {
		case "(*bufio.Scanner).Scan":
			return true, false
		case "(*bufio.Scanner).Err":
			return false, true
		}
		g := c.StaticCallee()
		if g == nil || !e.w.inScopeFn(g) || i >= len(g.Params) {
			continue
		}
		for _, x := range instrs(g) {
			if ci, ok := x.(ssa.CallInstruction); ok {
				s2, e2 := e.scanEffect(ci, g.Params[i], depth+1)
				scans = scans || s2
				errs = errs || e2
			}
		}
	}
	return
}

func sameScanner(a, sc ssa.Value) bool {
	if a == sc {
		return true
	}
	if u, ok := a.(*ssa.UnOp); ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range refs(al) {
				if st, ok := r.(*ssa.Store); ok && st.Val == sc {
					return true
				}
			}
		}
	}
	return false
}
