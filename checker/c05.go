package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C05", title: "Concurrent conversions do not interfere", run: runC05,
		explanation: "A points-to analysis of the whole program (field sensitive, generated parser included) gives the objects that every assignment, map update, append, delete, copy and mutating external call may write. None of those that run during a conversion may write an object reachable from a package-level variable; no function that changes the state of the process is called; and no object captured by two of the goroutines started for a conversion is written by one of them.",
		assumptions: []string{"the types of the standard library documented as safe for concurrent use are (regexp, strings.Replacer, text/template execution, sync, logrus)", "the readers, writers, macros and configurations given to concurrent conversions are not shared, or safe for concurrent use, or only read"}})
}

// conversions returns the points-to analysis of the program started by the entry points of the
// library, and the instances of these.
func (w *World) conversions() (*pta, []*ptInst) {
	if w.pt != nil {
		return w.pt, w.ptRoots
	}
	p := w.newPTA()
	for _, pk := range w.Scope {
		if f := w.SSA[pk.PkgPath].Func("init"); f != nil {
			p.inst(f, "", 0, nil)
		}
	}
	var roots []*ptInst
	for _, n := range []string{"Convert", "ConvertFile"} {
		f := w.fn("", n)
		i := p.inst(f, "", 0, nil)
		roots = append(roots, i)
		for _, prm := range f.Params {
			if pointerish(prm.Type()) {
				o := p.unknown(nil, prm.Type(), "parameter "+prm.Name(), nil)
				if o != nil {
					o.pos = prm.Pos()
					p.add(p.val(i, prm), o)
				}
			}
		}
	}
	w.ptSettings = p.settings()
	p.solve()
	w.pt, w.ptRoots = p, roots
	return p, roots
}

// settings: the configuration is made by NewConfiguration from any of the settings.
func (p *pta) settings() []*ptInst {
	w := p.w
	cfg := w.fn("pkg/configuration", "NewConfiguration")
	if cfg == nil {
		return nil
	}
	root := p.inst(cfg, "", 0, nil)
	roots := []*ptInst{root}
	var given *ptObj
	for _, prm := range cfg.Params {
		if s, ok := types.Unalias(prm.Type()).Underlying().(*types.Slice); ok {
			given = p.newObj('a', s.Elem(), "settings", prm.Pos())
			p.add(p.val(root, prm), given)
		}
	}
	for _, f := range w.Funcs {
		if f.Pkg != cfg.Pkg || f.Parent() != nil || f == cfg || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		i := p.inst(f, "", 0, nil)
		roots = append(roots, i)
		for _, prm := range f.Params {
			if pointerish(prm.Type()) {
				if o := p.unknown(nil, prm.Type(), "parameter "+prm.Name()+" of "+fnName(f), nil); o != nil {
					o.pos = prm.Pos()
					p.add(p.val(i, prm), o)
				}
			}
		}
		if given != nil {
			for _, res := range i.res {
				if res != nil {
					p.edge(res, p.content(given))
				}
			}
		}
	}
	return roots
}

// reachObjs: the objects reachable from some, with the path by which they are.
func (p *pta) reachObjs(from []*ptObj, channels bool) map[*ptObj]string {
	res := map[*ptObj]string{}
	var work []*ptObj
	push := func(o *ptObj, path string) {
		if _, ok := res[o]; !ok {
			res[o] = path
			if debugPTA {
				res[o] = path + " -> " + o.name
			}
			work = append(work, o)
		}
	}
	for _, o := range from {
		push(o, o.name)
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		path := res[o]
		var names []string
		for n := range o.subs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			push(o.subs[n], path)
		}
		if o.kind == 'h' && !channels {
			continue
		}
		for _, n := range []*ptNode{o.cont, o.keys} {
			if n != nil {
				n.pts.each(func(x int) { push(p.objs[x], path) })
			}
		}
		if o.kind == 'f' && o.fn != nil {
			for _, n := range o.fn.free {
				n.pts.each(func(x int) { push(p.objs[x], path) })
			}
		}
	}
	return res
}

var debugPTA = os.Getenv("DEBUG_PTA") != ""

// grammarActions is an analysis of the actions of the grammar, which the generated parser calls through
// its tables: what they are given is unknown.
func (w *World) grammarActions() (*pta, []*ptInst) {
	p := w.newPTA()
	p.actions = true
	for _, pk := range w.Scope {
		if f := w.SSA[pk.PkgPath].Func("init"); f != nil {
			p.inst(f, "", 0, nil)
		}
	}
	var roots []*ptInst
	for _, f := range w.Funcs {
		if !w.isGenerated(f) || f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		if n, ok := types.Unalias(deref(f.Signature.Recv().Type())).(*types.Named); !ok || n.Obj().Name() != "current" {
			continue
		}
		i := p.inst(f, "", 0, nil)
		roots = append(roots, i)
		for _, prm := range f.Params {
			if pointerish(prm.Type()) {
				if o := p.unknown(nil, prm.Type(), "what is given to the actions of the grammar", nil); o != nil {
					p.add(p.val(i, prm), o)
				}
			}
		}
	}
	p.solve()
	return p, roots
}

func runC05(w *World, r *Report) {
	p, roots := w.conversions()
	live := p.reachAll(roots...)
	c05State(w, r, p, live, "of the conversions", 300)
	c05Process(w, r, live, "")
	c05Goroutines(w, r, p, live)
	p2, roots2 := w.grammarActions()
	live2 := p2.reachAll(roots2...)
	c05State(w, r, p2, live2, "of the actions of the grammar", 100)
	c05Process(w, r, live2, " in the actions of the grammar")
	r.Count("actions of the grammar", len(roots2))
}

func c05State(w *World, r *Report, p *pta, live []*ptInst, what string, floor int) {
	// 1. package-level state
	var gs []*ssa.Global
	for g := range p.glob {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	var gobjs []*ptObj
	for _, g := range gs {
		p.glob[g].pts.each(func(x int) { gobjs = append(gobjs, p.objs[x]) })
	}
	shared := p.reachObjs(gobjs, true)
	nw := 0
	bad := map[string]bool{}
	for _, i := range live {
		for _, wr := range i.writes {
			nw++
			for _, o := range p.written(wr) {
				path, ok := shared[o]
				if !ok {
					continue
				}
				key := fmt.Sprintf("%s %s %s", fnName(topFunc(i.fn)), wr.what, path)
				if bad[key] {
					continue
				}
				bad[key] = true
				r.Fail("no-package-state", key, w.pos(wr.in.Pos()), fmt.Sprintf("%s (%s) may change %s, which is reachable from the package-level %s and shared by all conversions", fnName(i.fn), wr.what, o.name, path))
			}
		}
	}
	for _, i := range live {
		for _, in := range instrs(i.fn) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !keepsState(callName(c.Common())) || len(c.Common().Args) == 0 {
				continue
			}
			n := p.val(i, c.Common().Args[0])
			if n == nil {
				continue
			}
			if callName(c.Common()) == "(*sync.Pool).Put" && p.emptied(live, n) {
				continue // the pool gives memory only
			}
			n.pts.each(func(x int) {
				o := p.objs[x]
				path, ok := shared[o]
				key := fmt.Sprintf("%s %s %s", fnName(topFunc(i.fn)), callName(c.Common()), path)
				if ok && !bad[key] {
					bad[key] = true
					r.Fail("no-package-state", key, w.pos(in.Pos()), fmt.Sprintf("%s keeps something in the package-level %s, which other conversions use", fnName(i.fn), path))
				}
			})
		}
	}
	r.OK("no-package-state", fmt.Sprintf("%d writes of %d functions %s", nw, len(live), what), "", fmt.Sprintf("compared with the %d objects reachable from %d package-level variables", len(shared), len(gs)))
	r.Floor("writes "+what, nw, floor)
	r.Floor("package-level variables used "+what, len(gs), 3)
	r.Count("abstract objects", len(p.objs))
}

// processState: functions which change the state of the process that others observe.
func processState(n string) string {
	switch n {
	case "os.Chdir", "(*os.File).Chdir":
		return "changes the working directory"
	case "os.Setenv", "os.Unsetenv", "os.Clearenv":
		return "changes the environment"
	case "math/rand.Seed":
		return "changes the random generator of the process"
	case "runtime.GOMAXPROCS", "runtime/debug.SetGCPercent", "runtime/debug.SetMaxStack", "runtime/debug.SetMemoryLimit", "runtime/debug.SetPanicOnFault", "runtime/debug.SetTraceback", "runtime/debug.SetMaxThreads":
		return "changes the runtime settings"
	case "mime.AddExtensionType", "net/http.Handle", "net/http.HandleFunc", "expvar.Publish", "encoding/gob.Register", "image.RegisterFormat":
		return "changes a registry of the process"
	}
	last := n[strings.LastIndex(n, ".")+1:]
	switch {
	case strings.HasPrefix(n, "github.com/sirupsen/logrus.") || strings.HasPrefix(n, "(*github.com/sirupsen/logrus.Logger)."):
		if strings.HasPrefix(last, "Set") || last == "AddHook" || last == "ReplaceHooks" || last == "RegisterExitHandler" || last == "DeferExitHandler" {
			return "changes the logger of the process"
		}
	case strings.HasPrefix(n, "log.Set"), strings.HasPrefix(n, "(*log.Logger).Set"), n == "log/slog.SetDefault", n == "log/slog.SetLogLoggerLevel":
		return "changes the logger of the process"
	case strings.HasPrefix(n, "os/signal."):
		return "changes the handling of signals"
	case strings.HasPrefix(n, "flag.") && last != "NewFlagSet", strings.HasPrefix(n, "github.com/spf13/pflag.") && last != "NewFlagSet":
		return "uses the flags of the process"
	case strings.HasPrefix(n, "github.com/alecthomas/chroma/v2/") && strings.HasSuffix(last, "Register"), strings.HasPrefix(n, "(*github.com/alecthomas/chroma/v2.LexerRegistry)") && last == "Register":
		return "changes the registry of the highlighter"
	case strings.HasPrefix(n, "syscall."):
		return "may change the process"
	}
	return ""
}

// keepsState: methods of the synchronised types which keep values between conversions.
func keepsState(n string) bool {
	switch n {
	case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync.Map).CompareAndSwap", "(*sync.Map).LoadAndDelete", "(*sync.Map).Delete", "(*sync.Map).Clear", "(*sync.Map).CompareAndDelete", "(*sync.Pool).Put":
		return true
	}
	if strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "sync/atomic.") {
		last := n[strings.LastIndex(n, ".")+1:]
		return !strings.HasPrefix(last, "Load")
	}
	return false
}

// emptied: what is taken from a pool or given back is emptied in a function that does it.
func (p *pta) emptied(live []*ptInst, pool *ptNode) bool {
	for _, i := range live {
		uses := false
		for _, in := range instrs(i.fn) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || len(c.Common().Args) == 0 {
				continue
			}
			if n := callName(c.Common()); n == "(*sync.Pool).Get" || n == "(*sync.Pool).Put" {
				if x := p.val(i, c.Common().Args[0]); x != nil {
					x.pts.each(func(o int) { uses = uses || pool.pts.has(o) })
				}
			}
		}
		if !uses {
			continue
		}
		for _, in := range instrs(i.fn) {
			switch in := in.(type) {
			case ssa.CallInstruction:
				n := callName(in.Common())
				if b, ok := in.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") || strings.HasSuffix(n, ").Reset") || strings.HasSuffix(n, ").Truncate") {
					return true
				}
			case *ssa.Slice:
				if k, ok := in.High.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
					return true
				}
			}
		}
	}
	return false
}

func c05Process(w *World, r *Report, live []*ptInst, what string) {
	n := 0
	seen := map[string]bool{}
	for _, i := range live {
		for _, in := range instrs(i.fn) {
			for _, op := range in.Operands(nil) {
				f, ok := (*op).(*ssa.Function)
				if !ok || f.Object() == nil {
					continue
				}
				o, _ := f.Object().(*types.Func)
				if o == nil || o.Pkg() != nil && w.inScope[o.Pkg()] {
					continue
				}
				n++
				q := qname(o)
				if e := processState(q); e != "" && !seen[fnName(i.fn)+q] {
					seen[fnName(i.fn)+q] = true
					r.Fail("no-process-state", fnName(topFunc(i.fn))+" uses "+q, w.pos(in.Pos()), "a conversion "+e+", which others use at the same time")
				}
			}
		}
	}
	r.OK("no-process-state", fmt.Sprintf("%d uses of external functions", n), "", "compared with the table of functions that change the state of the process")
	r.Floor("uses of external functions"+what, n, 100)
	for q, want := range map[string]bool{"os.Chdir": true, "github.com/sirupsen/logrus.SetLevel": true, "(*github.com/sirupsen/logrus.Logger).SetOutput": true, "strings.Join": false, "github.com/sirupsen/logrus.Debugf": false} {
		r.SelfTest("process state: "+q, (processState(q) != "") == want)
	}
}

type thread struct {
	name   string
	pos    string
	conv   *ptInst // the function which starts several of them
	target *ptInst // nil: the goroutine of the caller
	starts map[*ptInst]bool
	caps   map[*ptObj]string
	writes map[*ptObj]ptWrite
}

func (p *pta) threadOf(name string, insts []*ptInst, seeds []*ptObj) *thread {
	t := &thread{name: name, caps: p.reachObjs(seeds, false), writes: map[*ptObj]ptWrite{}}
	for _, i := range insts {
		for _, wr := range i.writes {
			for _, o := range p.written(wr) {
				if _, ok := t.writes[o]; !ok {
					t.writes[o] = wr
				}
			}
		}
	}
	return t
}

// c05Goroutines: what is captured by two goroutines is written by none.
func c05Goroutines(w *World, r *Report, p *pta, live []*ptInst) {
	var threads []*thread
	starters := map[*ptInst]bool{} // instances which start goroutines, directly or not
	for changed := true; changed; {
		changed = false
		for _, i := range live {
			if starters[i] {
				continue
			}
			s := len(i.gos) > 0
			for t, site := range i.calls {
				if _, ok := site.(*ssa.Go); !ok && starters[t] {
					s = true
				}
			}
			if s {
				starters[i] = true
				changed = true
			}
		}
	}
	seeds := func(ns ...*ptNode) []*ptObj {
		var l []*ptObj
		for _, n := range ns {
			if n != nil {
				n.pts.each(func(x int) { l = append(l, p.objs[x]) })
			}
		}
		return l
	}
	convs := p.conversionsOf(live, starters)
	for _, i := range live {
		for _, g := range i.gos {
			ns := append([]*ptNode{}, g.target.free...)
			for _, a := range g.site.Call.Args {
				ns = append(ns, p.val(i, a))
			}
			t := p.threadOf("the goroutine started in "+fnName(i.fn), p.reach(g.target), seeds(ns...))
			t.pos = w.pos(g.site.Pos())
			t.target, t.conv = g.target, convs[i]
			threads = append(threads, t)
		}
	}
	nGo := len(threads)
	// the goroutine of the caller, once others are started
	for _, i := range live {
		if !starters[i] {
			continue
		}
		// the calls after which goroutines run
		var first []ssa.Instruction
		for _, in := range instrs(i.fn) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := in.(*ssa.Go); ok {
				first = append(first, in)
				continue
			}
			for t, site := range i.calls {
				if site == c && starters[t] && !p.joins(t) {
					first = append(first, in)
				}
			}
		}
		after := func(in ssa.Instruction) bool {
			for _, f := range first {
				if f != in && reaches(f, in) {
					return true
				}
			}
			return false
		}
		for t, site := range i.calls {
			if _, ok := site.(*ssa.Go); ok || !after(site) {
				continue
			}
			if _, ok := site.(*ssa.Defer); ok {
				continue
			}
			var ns []*ptNode
			for _, prm := range t.fn.Params {
				ns = append(ns, p.val(t, prm))
			}
			ns = append(ns, t.free...)
			th := p.threadOf(fnName(t.fn)+" called by "+fnName(i.fn), p.reach(t), seeds(ns...))
			th.pos, th.conv = w.pos(site.Pos()), convs[i]
			th.starts = map[*ptInst]bool{}
			for _, x := range p.reach(t) {
				for _, g := range x.gos {
					th.starts[g.target] = true
				}
			}
			threads = append(threads, th)
		}
		// accesses of the function itself
		for _, in := range instrs(i.fn) {
			u, ok := in.(*ssa.UnOp)
			if !ok || !after(in) {
				continue
			}
			n := p.val(i, u.X)
			if n == nil {
				continue
			}
			joined := false
			for t, site := range i.calls {
				if p.joins(t) && dominatesInstr(site, in) {
					joined = true
				}
			}
			why := ""
			n.pts.each(func(x int) {
				o := p.objs[x]
				for _, th := range threads[:nGo] {
					if _, ok := th.caps[o]; !ok {
						continue
					}
					if wr, ok := th.writes[o]; ok && !joined && p.startedBy(i, th.target) {
						why = fmt.Sprintf("%s is read here and written by %s at %s", o.name, th.name, w.pos(wr.in.Pos()))
					}
				}
			})
			if why != "" {
				r.Fail("joined-before-use", fnName(i.fn)+" "+describeAddr(u.X), w.pos(in.Pos()), why)
			}
		}
	}
	before := map[*ptInst]map[*ptInst]bool{} // what runs outside of the goroutines
	for _, t := range threads {
		if before[t.conv] == nil {
			m := map[*ptInst]bool{}
			for _, i := range p.reach(t.conv) {
				m[i] = true
			}
			for _, i := range p.callersOf(live, t.conv) {
				m[i] = true
			}
			before[t.conv] = m
		}
	}
	c05Sent(w, r, threads[:nGo])
	n := 0
	for a := range threads {
		for b := range threads {
			if a >= b {
				continue
			}
			x, y := threads[a], threads[b]
			if x.conv != y.conv || x.target == nil && y.target == nil || x.starts[y.target] && y.target != nil || y.starts[x.target] && x.target != nil {
				continue
			}
			n++
			why := ""
			var objs []*ptObj
			for o := range x.caps {
				if own := o.root().owner; own != nil && !before[x.conv][own] {
					continue // made by a goroutine, which gives it to the next one
				}
				if _, ok := y.caps[o]; ok {
					objs = append(objs, o)
				}
			}
			sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
			for _, o := range objs {
				if wr, ok := x.writes[o]; ok {
					why = fmt.Sprintf("%s is shared and written by the first at %s (%s)", o.name, w.pos(wr.in.Pos()), wr.what)
				} else if wr, ok := y.writes[o]; ok {
					why = fmt.Sprintf("%s is shared and written by the second at %s (%s)", o.name, w.pos(wr.in.Pos()), wr.what)
				}
				if why != "" {
					if debugPTA {
						why += "\n   " + x.caps[o] + "\n   " + y.caps[o]
					}
					break
				}
			}
			r.Check("goroutines-share-nothing-mutable", x.name+" / "+y.name, x.pos, why == "", why)
		}
	}
	r.Floor("goroutines", nGo, 6)
	r.Count("pairs of goroutines", n)
}

// conversionsOf gives the outermost instance which starts several goroutines (itself or by what it
// calls) and by which each one is started.
func (p *pta) conversionsOf(live []*ptInst, starters map[*ptInst]bool) map[*ptInst]*ptInst {
	callers := map[*ptInst][]*ptInst{}
	several := map[*ptInst]bool{}
	for _, i := range live {
		n := len(i.gos)
		for t, site := range i.calls {
			callers[t] = append(callers[t], i)
			if _, ok := site.(*ssa.Go); !ok && starters[t] {
				n++
			}
		}
		several[i] = n > 1
	}
	res := map[*ptInst]*ptInst{}
	for _, i := range live {
		best := i
		seen := map[*ptInst]bool{}
		level := []*ptInst{i}
		for len(level) > 0 {
			var next []*ptInst
			for _, x := range level {
				if seen[x] {
					continue
				}
				seen[x] = true
				if several[x] {
					best = x
				}
				next = append(next, callers[x]...)
			}
			level = next
		}
		res[i] = best
	}
	return res
}

// callersOf: the instances by which one is called, and what they call.
func (p *pta) callersOf(live []*ptInst, i *ptInst) []*ptInst {
	in := map[*ptInst]bool{i: true}
	for changed := true; changed; {
		changed = false
		for _, c := range live {
			if in[c] {
				continue
			}
			for t := range c.calls {
				if in[t] {
					in[c], changed = true, true
					break
				}
			}
		}
	}
	var l []*ptInst
	for c := range in {
		if c == i {
			continue
		}
		l = append(l, c)
		for t, site := range c.calls {
			if _, ok := site.(*ssa.Go); !ok && !in[t] {
				l = append(l, p.reach(t)...)
			}
		}
	}
	return l
}

// c05Sent: what a goroutine sends is not used by it afterwards.
func c05Sent(w *World, r *Report, threads []*thread) {
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, t := range threads {
		if seen[t.target.fn] {
			continue
		}
		seen[t.target.fn] = true
		for _, in := range instrs(t.target.fn) {
			var sent []ssa.Value
			switch in := in.(type) {
			case *ssa.Send:
				sent = append(sent, in.X)
			case *ssa.Select:
				for _, st := range in.States {
					if st.Dir == types.SendOnly {
						sent = append(sent, st.Send)
					}
				}
			}
			for _, v := range sent {
				n++
				if u := usedAfter(v, in, 0); u != nil {
					r.Fail("sent-is-given-up", fnName(topFunc(in.Parent()))+" "+types.TypeString(v.Type(), relQualifier), w.pos(u.Pos()), "what is sent at "+w.pos(in.Pos())+" is still used here, when the next goroutine uses it too")
				} else {
					r.OK("sent-is-given-up", fnName(topFunc(in.Parent()))+" "+v.String(), w.pos(in.Pos()), "")
				}
			}
		}
	}
	r.Floor("values sent", n, 4)
}

// usedAfter: an instruction by which the value, or what it may be the same as, is used once it is sent.
func usedAfter(v ssa.Value, at ssa.Instruction, depth int) ssa.Instruction {
	if _, ok := v.(*ssa.Const); ok || depth > 6 || !pointerish(v.Type()) {
		return nil
	}
	switch v.(type) {
	case *ssa.Global, *ssa.FreeVar, *ssa.Parameter, *ssa.Function:
		if depth > 0 {
			return nil // contexts and the like, compared above
		}
	}
	def, _ := v.(ssa.Instruction)
	if v.Referrers() != nil {
		for _, u := range *v.Referrers() {
			if _, ok := u.(*ssa.DebugRef); ok || u == at {
				continue
			}
			if fld, ok := u.(*ssa.Field); ok && !pointerish(fld.Type()) {
				continue
			}
			if reachesWithout(at, u, func(x ssa.Instruction) bool { return x == def }) {
				return u
			}
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return usedAfter(x.X, at, depth+1)
	case *ssa.ChangeType:
		return usedAfter(x.X, at, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if i, ok := e.(ssa.Instruction); ok && i.Block() != nil && !x.Block().Dominates(i.Block()) {
				if u := usedAfter(e, at, depth+1); u != nil {
					return u
				}
			}
		}
	case *ssa.UnOp:
		if _, local := x.X.(*ssa.Alloc); local && x.X.Referrers() != nil {
			for _, u := range *x.X.Referrers() {
				given := func(y ssa.Instruction) bool {
					s, ok := y.(*ssa.Store)
					return ok && s.Addr == x.X
				}
				if l, ok := u.(*ssa.UnOp); ok && l != x && pointerish(l.Type()) && reachesWithout(at, l, given) {
					return l
				}
				if fa, ok := u.(*ssa.FieldAddr); ok && fa.Referrers() != nil {
					for _, l := range *fa.Referrers() {
						if l, ok := l.(*ssa.UnOp); ok && pointerish(l.Type()) && reachesWithout(at, l, given) {
							return l
						}
					}
				}
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if types.Identical(a.Type(), x.Type()) {
				if u := usedAfter(a, at, depth+1); u != nil {
					return u
				}
			}
		}
	}
	return nil
}

func describeAddr(v ssa.Value) string {
	if n, _, ok := fieldOf(v); ok {
		return n
	}
	return v.Name()
}

func (p *pta) startedBy(i *ptInst, t *ptInst) bool {
	for _, x := range p.reach(i) {
		for _, g := range x.gos {
			if g.target == t {
				return true
			}
		}
	}
	return false
}

// joins: the function receives until the end of a stream.
func (p *pta) joins(i *ptInst) bool {
	for _, x := range p.reach(i) {
		for _, in := range instrs(x.fn) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
				return true
			}
			if s, ok := in.(*ssa.Select); ok {
				for _, st := range s.States {
					if st.Dir == types.RecvOnly {
						return true
					}
				}
			}
		}
	}
	return false
}

// reachAll: as reach, also through go statements.
func (p *pta) reachAll(roots ...*ptInst) []*ptInst {
	seen := map[*ptInst]bool{}
	var l []*ptInst
	var visit func(i *ptInst)
	visit = func(i *ptInst) {
		if seen[i] {
			return
		}
		seen[i] = true
		l = append(l, i)
		for t := range i.calls {
			visit(t)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	sort.Slice(l, func(a, b int) bool {
		if l[a].fn.Pos() != l[b].fn.Pos() {
			return l[a].fn.Pos() < l[b].fn.Pos()
		}
		return l[a].ctx < l[b].ctx
	})
	return l
}
