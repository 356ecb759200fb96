package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// model of the parsing pipeline: channels, stages, events

const fragmentType = "types.DocumentFragment"

type pipeline struct {
	w *World
	// functions started by a go statement, with the statement
	gos []*ssa.Go
	// channels with at least one send in the program, by origin
	sends []chanOp
	recvs []chanOp
}

// chanOp is one channel operation (a plain send or receive, or one state of a select).
type chanOp struct {
	in    ssa.Instruction
	sel   *ssa.Select
	state int
	ch    ssa.Value
	val   ssa.Value // sent value
}

func (w *World) newPipeline() *pipeline {
	p := &pipeline{w: w}
	for _, fn := range w.libraryFuncs() {
		for _, in := range instrs(fn) {
			switch in := in.(type) {
			case *ssa.Go:
				p.gos = append(p.gos, in)
			case *ssa.Send:
				p.sends = append(p.sends, chanOp{in: in, ch: in.Chan, val: in.X})
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					p.recvs = append(p.recvs, chanOp{in: in, ch: in.X})
				}
			case *ssa.Select:
				for i, s := range in.States {
					op := chanOp{in: in, sel: in, state: i, ch: s.Chan, val: s.Send}
					if s.Dir == types.SendOnly {
						p.sends = append(p.sends, op)
					} else {
						p.recvs = append(p.recvs, op)
					}
				}
			}
		}
	}
	return p
}

// origins of a channel value: the make instructions (or nil constants, unresolved values).
func (p *pipeline) origins(v ssa.Value) map[ssa.Value]bool {
	res := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	ret := func(f *ssa.Function, idx int) bool {
		if !p.w.inScopeFn(f) {
			return false
		}
		for _, b := range f.Blocks {
			if b == f.Recover {
				continue
			}
			if r, ok := lastInstr(b).(*ssa.Return); ok && idx < len(r.Results) {
				add(r.Results[idx])
			}
		}
		return true
	}
	add = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeChan, *ssa.Const, *ssa.Global:
			res[v] = true
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.ChangeType:
			add(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					add(a.(ssa.Value))
					return
				case *ssa.FieldAddr:
					n := fieldName(a.X.Type(), a.Field)
					vals := p.w.fieldStores()[n]
					for _, s := range vals {
						add(s)
					}
					if len(vals) == 0 {
						res[v] = true
					}
					return
				}
			}
			res[v] = true
		case *ssa.Alloc:
			n := 0
			for _, r := range refs(x) {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					n++
					add(st.Val)
				}
			}
			if n == 0 {
				res[v] = true
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			found := false
			for i, fv := range fn.FreeVars {
				if fv != x || fn.Parent() == nil {
					continue
				}
				for _, in := range instrs(fn.Parent()) {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						found = true
						add(mc.Bindings[i])
					}
				}
			}
			if !found {
				res[v] = true
			}
		case *ssa.Parameter:
			fn := x.Parent()
			p.w.buildCallGraph()
			n := 0
			for i, q := range fn.Params {
				if q != x {
					continue
				}
				for _, c := range p.w.callers[fn] {
					if a, ok := argFor(c, fn, i); ok {
						n++
						add(a)
					}
				}
			}
			if n == 0 {
				res[v] = true
			}
		case *ssa.Call:
			any := false
			for _, f := range p.w.calleesOf(x) {
				any = ret(f, 0) || any
			}
			if !any {
				res[v] = true
			}
		case *ssa.Extract:
			any := false
			if c, ok := x.Tuple.(*ssa.Call); ok {
				for _, f := range p.w.calleesOf(c) {
					any = ret(f, x.Index) || any
				}
			}
			if !any {
				res[v] = true
			}
		default:
			res[v] = true
		}
	}
	add(v)
	return res
}

func sameOrigins(a, b map[ssa.Value]bool) bool {
	for v := range a {
		if b[v] {
			return true
		}
	}
	return false
}

func (p *pipeline) describe(v ssa.Value) string {
	return p.w.pos(v.Pos())
}

// isSignal: no value is ever sent on the channel; it is only closed (a stop signal).
func (p *pipeline) isSignal(o map[ssa.Value]bool) bool {
	for _, s := range p.sends {
		if sameOrigins(o, p.origins(s.ch)) {
			return false
		}
	}
	return true
}

func isFragmentChan(t types.Type) bool {
	c, ok := types.Unalias(t).Underlying().(*types.Chan)
	return ok && typeName(c.Elem()) == fragmentType
}

// ---------------------------------------------------------------------------
// must-close: on every way out of fn (normal returns; deferred closes also cover panics)
// the channel with the given origins is closed.

// closesOnAllExits: every path from the entry of fn to a return passes an instruction that
// closes the channel (a close call, a deferred close, or a call that itself does so).
func (p *pipeline) closesOnAllExits(fn *ssa.Function, o map[ssa.Value]bool, depth int) bool {
	if depth > 4 || len(fn.Blocks) == 0 {
		return false
	}
	closes := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		if b, ok := c.Common().Value.(*ssa.Builtin); ok {
			return b.Name() == "close" && sameOrigins(o, p.origins(c.Common().Args[0]))
		}
		if f := c.Common().StaticCallee(); f != nil && p.w.inScopeFn(f) && f != fn {
			return p.closesOnAllExits(f, o, depth+1)
		}
		return false
	}
	return mustPass(fn, closes)
}

// mustPass: every path from the entry to a return passes an instruction satisfying ok.
func mustPass(fn *ssa.Function, ok func(ssa.Instruction) bool) bool {
	return escapePath(fn.Blocks[0], 0, ok) == nil
}

// escapePath finds a return reachable from the given point without passing an instruction
// satisfying ok; nil when there is none.
func escapePath(b *ssa.BasicBlock, from int, ok func(ssa.Instruction) bool) *ssa.Return {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, i int) *ssa.Return
	visit = func(b *ssa.BasicBlock, i int) *ssa.Return {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if ok(in) {
				return nil
			}
			if r, is := in.(*ssa.Return); is {
				return r
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if r := visit(s, 0); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return visit(b, from)
}

// reaches: can control flow from just after a to b?
func reaches(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(a.Block())
}

// ---------------------------------------------------------------------------
// C03

func init() {
	register(&checkDef{
		id: "C03", title: "pipeline: no deadlock, no leak", run: runC03,
		explanation: "Channel-discipline analysis over the SSA form of all library packages: every make, send, receive, select and close is enumerated and each channel is traced to its make instruction through calls, closures and results. Decided: each send can be abandoned (select with a stop signal, or first send on a channel nobody has sent on); each stream is closed on every exit of the goroutine that sends on it, which is started before the channel is handed out; the stop signal is closed by a defer that precedes every use in the function that makes it; blocking receives are on such streams only; no wait group or condition variable; no lock is taken while it is held. No code is run.",
		assumptions: []string{
			"the grammar-driven parser returns from every call of next (C19 decides the structural part of this)",
			"reads from the caller's reader return",
		},
	})
	register(&checkDef{
		id: "C04", title: "pipeline: exactly once, in order", run: runC04,
		explanation: "Typestate analysis of every pipeline stage (receive -> exactly one send of the value derived from the received fragment -> next receive; exit only when the input is exhausted or the stop signal fired), dataflow of the sent value (each stage function applied once), path analysis of the stage functions (content of a fragment accessed only where its error is known to be nil; fragments with an error returned as they are; error fragments keep the position), and order of composition of the stages in the orchestrator. No code is run.",
		assumptions: []string{"channels deliver values in the order they are sent (Go language)"},
	})
}

func runC03(w *World, r *Report) {
	p := w.newPipeline()
	nSelectSends, nDirect, nRecv, nMake := 0, 0, 0, 0
	// makes
	var makes []*ssa.MakeChan
	for _, fn := range w.libraryFuncs() {
		for _, in := range instrs(fn) {
			if mc, ok := in.(*ssa.MakeChan); ok {
				makes = append(makes, mc)
			}
		}
	}
	// signals: made in a function that closes them by a defer which precedes every use
	signalOK := map[*ssa.MakeChan]bool{}
	for _, mc := range makes {
		nMake++
		o := map[ssa.Value]bool{mc: true}
		fn := mc.Parent()
		name := fnName(topFunc(fn)) + " make " + typeName(mc.Type().Underlying().(*types.Chan).Elem())
		if p.isSignal(o) {
			var def ssa.Instruction
			for _, in := range instrs(fn) {
				d, ok := in.(*ssa.Defer)
				if !ok {
					continue
				}
				if b, ok := d.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" && sameOrigins(o, p.origins(d.Call.Args[0])) {
					def = in
				}
				if f := d.Call.StaticCallee(); f != nil && w.inScopeFn(f) && p.closesOnAllExits(f, o, 0) {
					def = in
				}
			}
			ok := def != nil
			detail := "closed by a defer that precedes every call and return of the function"
			if !ok {
				detail = "the stop signal is not closed by a defer in the function that makes it: goroutines waiting for it are leaked when the function returns early"
			} else {
				for _, in := range instrs(fn) {
					if in == def || in.Block() == fn.Recover {
						continue
					}
					_, isRet := in.(*ssa.Return)
					c, isCall := in.(*ssa.Call)
					if isCall {
						isCall = callUsesChan(p, c, o)
					}
					if _, isGo := in.(*ssa.Go); isGo {
						isCall = true
					}
					if (isRet || isCall) && reachable2(mc, in) && !dominatesInstr(def, in) {
						ok = false
						detail = "the stop signal is used or the function left before the deferred close is registered (" + w.pos(in.Pos()) + ")"
					}
				}
			}
			signalOK[mc] = ok
			r.Check("signal-raised", name, w.pos(mc.Pos()), ok, detail)
			continue
		}
		// a stream: found closed on all exits of exactly the goroutine that sends on it
		senders := map[*ssa.Function]bool{}
		for _, g := range p.gos {
			for _, f := range w.calleesOf(g) {
				for x := range p.localFuncs(f) {
					for _, s := range p.sends {
						if s.in.Parent() == x && sameOrigins(o, p.origins(s.ch)) {
							senders[f] = true
						}
					}
				}
			}
		}
		if len(senders) == 0 {
			r.Fail("stream-closed", name, w.pos(mc.Pos()), "no goroutine sends on this channel: its receivers block for ever")
			continue
		}
		if len(senders) > 1 {
			r.Fail("stream-closed", name, w.pos(mc.Pos()), fmt.Sprintf("%d different goroutine bodies send on this channel: a close by one makes the others panic, and the order of fragments is lost", len(senders)))
			continue
		}
		for f := range senders {
			ok := p.closesOnAllExits(f, o, 0)
			r.Check("stream-closed", name, w.pos(mc.Pos()), ok, "closed on every way out of the goroutine "+fnName(f)+map[bool]string{false: " - NOT the case: a receiver would wait for ever", true: ""}[ok])
			// started before the channel leaves the creator
			started := false
			for _, g := range p.gos {
				for _, c := range w.calleesOf(g) {
					if c == f && g.Parent() == fn {
						started = true
						for _, b := range fn.Blocks {
							if ret, isRet := lastInstr(b).(*ssa.Return); isRet && b != fn.Recover && !dominatesInstr(g, ret) {
								// returns that hand out the channel
								for _, rv := range ret.Results {
									if _, isChan := types.Unalias(rv.Type()).Underlying().(*types.Chan); isChan && sameOrigins(o, p.origins(rv)) {
										started = false
									}
								}
							}
						}
					}
				}
			}
			if !started {
				// the goroutine may be started by a helper which receives the channel
				started = p.startedByHelper(fn, f)
			}
			r.Check("producer-started", name, w.pos(mc.Pos()), started, "the goroutine that sends on the channel is started before the channel is handed out")
		}
	}
	// closes: no double close, no close by a receiver: each stream has one closing function
	for _, s := range p.sends {
		fn := s.in.Parent()
		name := fnName(topFunc(fn)) + " send " + p.valueName(s.val)
		if s.sel != nil {
			nSelectSends++
			if !s.sel.Blocking {
				r.OK("send-abandonable", name, w.pos(s.in.Pos()), "non-blocking select")
				continue
			}
			ok := false
			detail := "the select has no receive from a stop signal: the goroutine blocks for ever once the consumer is gone"
			for i, st := range s.sel.States {
				if i == s.state || st.Dir != types.RecvOnly {
					continue
				}
				good, why := p.goodSignal(st.Chan, signalOK)
				if good {
					ok = true
				} else if why != "" {
					detail = why
				}
			}
			if ok {
				detail = "select with a stop signal that is closed on every exit of the orchestrator"
			}
			r.Check("send-abandonable", name, w.pos(s.in.Pos()), ok, detail)
			continue
		}
		nDirect++
		o := p.origins(s.ch)
		ok := true
		detail := "first and only send: no other send on the channel can precede it"
		for v := range o {
			mc, isMake := v.(*ssa.MakeChan)
			if !isMake {
				ok = false
				detail = "the channel cannot be traced to its make instruction"
				continue
			}
			if n, isConst := constInt(mc.Size); !isConst || n < 1 {
				ok = false
				detail = "plain send on a channel without buffer: the goroutine blocks for ever once the consumer is gone"
			}
		}
		for _, t := range p.sends {
			if t.in.Parent() == fn && sameOrigins(o, p.origins(t.ch)) && (t.in != s.in && reaches(t.in, s.in) || t.in == s.in && reaches(s.in, s.in)) {
				ok = false
				detail = "plain send (no select with the stop signal) after other sends: the goroutine blocks for ever once the consumer is gone"
			}
			if t.in.Parent() != fn && sameOrigins(o, p.origins(t.ch)) {
				ok = false
				detail = "plain send (no select with the stop signal) on a channel that other functions send on"
			}
		}
		r.Check("send-abandonable", name, w.pos(s.in.Pos()), ok, detail)
	}
	for _, c := range p.recvs {
		nRecv++
		fn := c.in.Parent()
		name := fnName(topFunc(fn)) + " receive " + typeName(types.Unalias(c.ch.Type()).Underlying().(*types.Chan).Elem())
		o := p.origins(c.ch)
		if c.sel != nil && (len(c.sel.States) > 1 || !c.sel.Blocking) {
			// one of several alternatives; at least one must be a stream of the pipeline or a send
			other := !c.sel.Blocking
			for i, st := range c.sel.States {
				if i != c.state && (st.Dir == types.SendOnly || !p.isSignal(p.origins(st.Chan))) {
					other = true
				}
			}
			if !other {
				other = !p.isSignal(o)
			}
			r.Check("receive-ends", name, w.pos(c.in.Pos()), other, "alternative of a select together with a send, or a stream closed by its producer")
			continue
		}
		ok := true
		detail := "from a stream closed by its producer"
		if p.isSignal(o) {
			ok = false
			detail = "blocking receive from the stop signal, which is only raised after the parsing ended"
		}
		for v := range o {
			if _, isMake := v.(*ssa.MakeChan); !isMake {
				ok = false
				detail = "the channel cannot be traced to its make instruction (" + v.String() + ")"
			}
		}
		r.Check("receive-ends", name, w.pos(c.in.Pos()), ok, detail)
	}
	// other blocking primitives
	nBlock := 0
	forCalls(w.libraryFuncs(), func(fn *ssa.Function, c ssa.CallInstruction) {
		n := callName(c.Common())
		switch n {
		case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "(*golang.org/x/sync/errgroup.Group).Wait", "runtime.Gosched":
			nBlock++
			r.Fail("no-other-blocking", fnName(topFunc(fn))+" -> "+n, w.pos(c.Pos()), "blocking call outside the channel discipline that is decided here")
		}
	})
	r.OK("no-other-blocking", fmt.Sprintf("%d other blocking calls", nBlock), "", "")
	lockDiscipline(w, r, true)
	r.Count("channels made", nMake)
	r.Count("plain sends", nDirect)
	r.Count("receives", nRecv)
	r.Floor("goroutines", len(p.gos), 1)
	r.Floor("sends in a select", nSelectSends, 1)
	r.Floor("channels made", nMake, 2)
}

func reachable2(a, b ssa.Instruction) bool { return dominatesInstr(a, b) || reaches(a, b) }

func callUsesChan(p *pipeline, c ssa.CallInstruction, o map[ssa.Value]bool) bool {
	for _, a := range c.Common().Args {
		if _, ok := types.Unalias(a.Type()).Underlying().(*types.Chan); ok && sameOrigins(o, p.origins(a)) {
			return true
		}
	}
	return false
}

func (p *pipeline) valueName(v ssa.Value) string {
	v = stripConv(v)
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil {
			return "result of " + fnName(f)
		}
		return "result of call"
	}
	return typeName(v.Type())
}

// localFuncs: f and the scope functions it calls that perform channel operations on parameters.
func (p *pipeline) localFuncs(f *ssa.Function) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || res[f] || !p.w.inScopeFn(f) || d > 3 {
			return
		}
		res[f] = true
		for _, in := range instrs(f) {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !p.w.inScopeFn(g) {
				continue
			}
			if g.Parent() != nil {
				visit(g, d+1)
				continue
			}
			for _, a := range c.Call.Args {
				if _, ok := types.Unalias(a.Type()).Underlying().(*types.Chan); ok {
					visit(g, d+1)
				}
			}
		}
	}
	visit(f, 0)
	return res
}

func (p *pipeline) startedByHelper(creator, body *ssa.Function) bool {
	for _, g := range p.gos {
		for _, c := range p.w.calleesOf(g) {
			if c != body {
				continue
			}
			h := topFunc(g.Parent())
			for _, in := range instrs(creator) {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == h {
					if mustPass(h, func(i ssa.Instruction) bool { return i == ssa.Instruction(g) }) {
						return mustPass(creator, func(i ssa.Instruction) bool { return i == ssa.Instruction(call) })
					}
				}
			}
		}
	}
	return false
}

func (p *pipeline) goodSignal(ch ssa.Value, signalOK map[*ssa.MakeChan]bool) (bool, string) {
	o := p.origins(ch)
	if len(o) == 0 {
		return false, "the stop signal cannot be traced"
	}
	for v := range o {
		mc, ok := v.(*ssa.MakeChan)
		if !ok {
			return false, "the stop signal of the select may be " + v.String() + ", which is never closed"
		}
		if !p.isSignal(map[ssa.Value]bool{mc: true}) {
			return false, "" // a data stream
		}
		if !signalOK[mc] {
			return false, "the stop signal of the select is not closed on every exit of the function that makes it"
		}
	}
	return true, ""
}

// ---------------------------------------------------------------------------
// locks

// lockDiscipline checks the mutexes: with reentry, that no lock is taken (directly or in a
// callee) while the same lock is held; otherwise that each lock is released on every exit.
func lockDiscipline(w *World, r *Report, reentry bool) {
	kind := func(n string) (string, bool) {
		switch n {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			return "Lock", true
		case "(*sync.RWMutex).RLock":
			return "RLock", true
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			return "Unlock", false
		case "(*sync.RWMutex).RUnlock":
			return "RUnlock", false
		}
		return "", false
	}
	lockName := func(c *ssa.CallCommon) string {
		v := c.Args[0]
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		if n, _, ok := fieldOf(v); ok {
			return n
		}
		if g, ok := v.(*ssa.Global); ok {
			return g.RelString(nil)
		}
		return typeName(v.Type())
	}
	// functions that may take a lock, transitively
	takes := map[*ssa.Function]map[string]bool{}
	lib := w.libraryFuncs()
	for _, fn := range lib {
		for _, in := range instrs(fn) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if k, acq := kind(callName(c.Common())); k != "" && acq {
					if takes[fn] == nil {
						takes[fn] = map[string]bool{}
					}
					takes[fn][lockName(c.Common())] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range lib {
			for _, in := range instrs(fn) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				for _, g := range w.calleesOf(c) {
					for l := range takes[g] {
						if !takes[fn][l] {
							if takes[fn] == nil {
								takes[fn] = map[string]bool{}
							}
							takes[fn][l] = true
							changed = true
						}
					}
				}
			}
		}
	}
	n := 0
	for _, fn := range lib {
		for _, in := range instrs(fn) {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			k, acq := kind(callName(c.Common()))
			if k == "" || !acq {
				continue
			}
			n++
			l := lockName(c.Common())
			want := map[string]string{"Lock": "Unlock", "RLock": "RUnlock"}[k]
			releases := func(i ssa.Instruction) bool {
				d, ok := i.(ssa.CallInstruction)
				if !ok {
					return false
				}
				rk, a := kind(callName(d.Common()))
				if rk == want && !a && lockName(d.Common()) == l {
					return true
				}
				if f := d.Common().StaticCallee(); f != nil && w.inScopeFn(f) && f != fn && len(f.Blocks) > 0 && !takes[f][l] {
					// helper or deferred closure that releases on all its exits
					return mustPass(f, func(j ssa.Instruction) bool {
						e, ok := j.(ssa.CallInstruction)
						if !ok {
							return false
						}
						rk, a := kind(callName(e.Common()))
						return rk == want && !a && lockName(e.Common()) == l
					})
				}
				return false
			}
			name := fnName(fn) + " " + k + " " + l
			if !reentry {
				ret := escapePath(c.Block(), instrIndex(c)+1, releases)
				ok := ret == nil
				d := "released on every way out (" + want + ")"
				if !ok {
					d = "the lock taken here is not released (" + want + ") on the way out at " + w.pos(ret.Pos())
				}
				r.Check("lock-released", name, w.pos(c.Pos()), ok, d)
				continue
			}
			// instructions executed while the lock is held
			bad := ""
			heldRegion(c, func(i ssa.Instruction) bool {
				if _, isDefer := i.(*ssa.Defer); !isDefer && releases(i) {
					return false
				}
				if d, ok := i.(*ssa.Call); ok && i != ssa.Instruction(c) {
					if rk, a := kind(callName(d.Common())); rk != "" && a && lockName(d.Common()) == l {
						bad = "locked again at " + w.pos(d.Pos())
					}
					for _, g := range w.calleesOf(d) {
						if takes[g][l] {
							bad = "call of " + fnName(g) + " at " + w.pos(d.Pos()) + ", which takes the same lock"
						}
					}
				}
				return true
			})
			d := "no second acquisition while held"
			if bad != "" {
				d = "deadlock: while the lock is held, " + bad
			}
			r.Check("lock-not-reentered", name, w.pos(c.Pos()), bad == "", d)
		}
	}
	r.Count("lock acquisitions", n)
}

// heldRegion visits the instructions after start until visit returns false on a path.
func heldRegion(start ssa.Instruction, visit func(ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if !visit(b.Instrs[i]) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(start.Block(), instrIndex(start)+1)
}

// ---------------------------------------------------------------------------
// C04: typestate of the stages

type phase int

const (
	phInit phase = iota
	phRecvd
	phHolding
	phIdle
	phClosed
	phFinished
	phDone
)

var phaseNames = map[phase]string{phInit: "before the first fragment", phRecvd: "after a receive whose end of stream was not tested", phHolding: "holding a fragment", phIdle: "after having sent the fragment", phClosed: "after the end of the input", phFinished: "after having sent an error", phDone: "after the stop signal"}

type pstate struct {
	ph    phase
	sel   *ssa.Select
	cases uint // remaining possible cases of sel (bit len(States) = default)
	ok    ssa.Value
	// result of a helper call known in this state
	asm    ssa.Value
	asmVal bool
}

// exitState: phase at a return, with the constant boolean returned (-1: none)
type exitState struct {
	ph  phase
	ret int
}

type stageAnalysis struct {
	p        *pipeline
	fn       *ssa.Function
	producer bool
	problems map[string]token.Pos
	nextFn   *ssa.Function
	depth    int
}

func (s *stageAnalysis) problem(pos token.Pos, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	if _, ok := s.problems[m]; !ok {
		s.problems[m] = pos
	}
}

func (s *stageAnalysis) onRecv(st phase, pos token.Pos) {
	switch st {
	case phHolding:
		s.problem(pos, "a fragment is dropped: the next one is received while the previous one was not sent")
	case phRecvd:
		s.problem(pos, "the end of the input is not tested")
	case phClosed:
		s.problem(pos, "the input is read again after its end: the stage never ends")
	case phFinished:
		s.problem(pos, "the source is read again after an error was sent")
	}
}

func (s *stageAnalysis) onSend(st phase, val ssa.Value, pos token.Pos) phase {
	errFrag := false
	if c, ok := stripConv(val).(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.Name() == "NewErrorFragment" {
			errFrag = true
		}
	}
	switch st {
	case phInit:
		if !(s.producer && errFrag) {
			s.problem(pos, "a fragment is sent before any was received")
		}
		return phFinished
	case phIdle:
		s.problem(pos, "a second fragment is sent for a received one")
	case phClosed, phFinished:
		s.problem(pos, "a fragment is sent %s", phaseNames[st])
	case phRecvd:
		s.problem(pos, "a fragment is sent without testing the end of the input")
	case phDone:
		return phDone
	}
	if s.producer && errFrag {
		return phFinished
	}
	return phIdle
}

// run analyses fn from the given initial phases and returns the phases at its exits.
func (s *stageAnalysis) run(fn *ssa.Function, init map[phase]bool, depth int) map[exitState]bool {
	exits := map[exitState]bool{}
	if depth > 4 {
		s.problem(fn.Pos(), "call depth exceeded")
		return exits
	}
	in := map[*ssa.BasicBlock]map[pstate]bool{}
	var work []*ssa.BasicBlock
	put := func(b *ssa.BasicBlock, st pstate) {
		if in[b] == nil {
			in[b] = map[pstate]bool{}
		}
		if !in[b][st] {
			in[b][st] = true
			work = append(work, b)
		}
	}
	for ph := range init {
		put(fn.Blocks[0], pstate{ph: ph})
	}
	done := map[*ssa.BasicBlock]map[pstate]bool{}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if done[b] == nil {
			done[b] = map[pstate]bool{}
		}
		for st := range in[b] {
			if done[b][st] {
				continue
			}
			done[b][st] = true
			s.block(fn, b, st, put, exits, depth)
		}
	}
	return exits
}

// resolveSel gives the phases after the select for the remaining cases.
func (s *stageAnalysis) afterCase(st pstate, k int) pstate {
	if k >= len(st.sel.States) { // default
		return pstate{ph: st.ph}
	}
	c := st.sel.States[k]
	if c.Dir == types.SendOnly {
		if isFragmentChan(c.Chan.Type()) {
			return pstate{ph: s.onSend(st.ph, c.Send, st.sel.Pos())}
		}
		return pstate{ph: st.ph}
	}
	if isFragmentChan(c.Chan.Type()) {
		if st.ph == phDone {
			return pstate{ph: phDone}
		}
		s.onRecv(st.ph, st.sel.Pos())
		var ok ssa.Value
		for _, r := range refs(st.sel) {
			if e, is := r.(*ssa.Extract); is && e.Index == 1 {
				ok = e
			}
		}
		return pstate{ph: phRecvd, ok: ok}
	}
	return pstate{ph: phDone}
}

func (s *stageAnalysis) settle(st pstate) []pstate {
	if st.sel == nil {
		return []pstate{st}
	}
	var r []pstate
	for k := 0; k <= len(st.sel.States); k++ {
		if st.cases&(1<<k) != 0 {
			r = append(r, s.afterCase(st, k))
		}
	}
	return r
}

func (s *stageAnalysis) block(fn *ssa.Function, b *ssa.BasicBlock, st0 pstate, put func(*ssa.BasicBlock, pstate), exits map[exitState]bool, depth int) {
	states := []pstate{st0}
	event := func(f func(st pstate) []pstate) {
		var n []pstate
		for _, st := range states {
			for _, x := range s.settle(st) {
				n = append(n, f(x)...)
			}
		}
		states = dedup(n)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Send:
			if isFragmentChan(in.Chan.Type()) {
				event(func(st pstate) []pstate { return []pstate{{ph: s.onSend(st.ph, in.X, in.Pos())}} })
			}
		case *ssa.Select:
			event(func(st pstate) []pstate {
				c := uint(1)<<len(in.States) - 1
				if !in.Blocking {
					c |= 1 << len(in.States)
				}
				return []pstate{{ph: st.ph, sel: in, cases: c}}
			})
		case *ssa.UnOp:
			if in.Op != token.ARROW {
				continue
			}
			if !isFragmentChan(in.X.Type()) {
				event(func(st pstate) []pstate { return []pstate{{ph: phDone}} })
				continue
			}
			event(func(st pstate) []pstate {
				if st.ph == phDone {
					return []pstate{st}
				}
				s.onRecv(st.ph, in.Pos())
				var ok ssa.Value
				if in.CommaOk {
					for _, r := range refs(in) {
						if e, is := r.(*ssa.Extract); is && e.Index == 1 {
							ok = e
						}
					}
				}
				return []pstate{{ph: phRecvd, ok: ok}}
			})
		case *ssa.Call:
			f := in.Call.StaticCallee()
			if s.producer && f != nil && f == s.nextFn {
				event(func(st pstate) []pstate {
					if st.ph == phDone {
						return []pstate{st}
					}
					s.onRecv(st.ph, in.Pos())
					var val ssa.Value
					for _, r := range refs(in) {
						if e, is := r.(*ssa.Extract); is && e.Index == 0 {
							val = e
						}
					}
					return []pstate{{ph: phHolding, ok: val}}
				})
				continue
			}
			if f == nil || !s.p.w.inScopeFn(f) || !s.p.hasStreamOps(f, map[*ssa.Function]bool{}) {
				continue
			}
			event(func(st pstate) []pstate {
				var r []pstate
				for x := range s.run(f, map[phase]bool{st.ph: true}, depth+1) {
					n := pstate{ph: x.ph}
					if x.ret >= 0 {
						n.asm, n.asmVal = in, x.ret == 1
					}
					r = append(r, n)
				}
				return r
			})
		case *ssa.Return:
			event(func(st pstate) []pstate { return []pstate{st} })
			for _, st := range states {
				rv := -1
				if len(in.Results) == 1 {
					if c, ok := in.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
						rv = 0
						if constant.BoolVal(c.Value) {
							rv = 1
						}
					}
				}
				exits[exitState{st.ph, rv}] = true
			}
			return
		case *ssa.Panic:
			return
		}
	}
	if ifi, ok := lastInstr(b).(*ssa.If); ok {
		for _, st := range states {
			for i, succ := range b.Succs {
				if n, feasible := s.refine(st, ifi.Cond, i == 0); feasible {
					put(succ, n)
				}
			}
		}
		return
	}
	for _, st := range states {
		for _, succ := range b.Succs {
			put(succ, st)
		}
	}
}

func dedup(s []pstate) []pstate {
	m := map[pstate]bool{}
	var r []pstate
	for _, x := range s {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func (s *stageAnalysis) refine(st pstate, c ssa.Value, val bool) (pstate, bool) {
	n := cond{v: c, val: val}.norm()
	if st.asm != nil && n.v == st.asm && n.val != st.asmVal {
		return st, false
	}
	if bo, ok := n.v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		eq := n.val == (bo.Op == token.EQL)
		if st.sel != nil {
			if e, ok := bo.X.(*ssa.Extract); ok && e.Tuple == st.sel && e.Index == 0 {
				if k, ok := constInt(bo.Y); ok && k >= 0 {
					bit := uint(1) << uint(k)
					if eq {
						if st.cases&bit == 0 {
							return st, false
						}
						return s.afterCase(st, int(k)), true
					}
					st.cases &^= bit
					return st, st.cases != 0
				}
			}
		}
		// element == nil for the producer
		if st.ph == phHolding && s.producer && st.ok != nil && stripConv(bo.X) == st.ok && isNilConst(bo.Y) {
			if eq {
				return pstate{ph: phClosed}, true
			}
			return st, true
		}
	}
	if st.ph == phRecvd && st.ok != nil && n.v == st.ok {
		if n.val {
			return pstate{ph: phHolding}, true
		}
		return pstate{ph: phClosed}, true
	}
	return st, true
}

// hasStreamOps: does the function (or one it calls statically, with a stream argument) operate on streams?
func (p *pipeline) hasStreamOps(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || !p.w.inScopeFn(f) {
		return false
	}
	seen[f] = true
	for _, in := range instrs(f) {
		switch in := in.(type) {
		case *ssa.Send:
			if isFragmentChan(in.Chan.Type()) {
				return true
			}
		case *ssa.Select:
			return true
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return true
			}
		case *ssa.Call:
			if g := in.Call.StaticCallee(); g != nil && p.hasStreamOps(g, seen) {
				return true
			}
		}
	}
	return false
}

// streamOps of a goroutine body and the helpers it calls.
func (p *pipeline) bodyOps(f *ssa.Function) (sends, recvs []chanOp) {
	fs := p.localFuncs(f)
	for _, s := range p.sends {
		if fs[s.in.Parent()] && isFragmentChan(s.ch.Type()) {
			sends = append(sends, s)
		}
	}
	for _, c := range p.recvs {
		if fs[c.in.Parent()] && isFragmentChan(c.ch.Type()) {
			recvs = append(recvs, c)
		}
	}
	return
}

func runC04(w *World, r *Report) {
	p := w.newPipeline()
	var bodies []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, g := range p.gos {
		// one goroutine per stage: not started in a loop, nor within another goroutine
		if reaches(g, g) {
			r.Fail("one-goroutine-per-stage", fnName(topFunc(g.Parent())), w.pos(g.Pos()), "goroutines are started in a loop: the order of the fragments is lost")
		}
		for _, f := range w.calleesOf(g) {
			if !seen[f] && w.inScopeFn(f) {
				seen[f] = true
				bodies = append(bodies, f)
			}
		}
	}
	sort.Slice(bodies, func(i, j int) bool { return bodies[i].Pos() < bodies[j].Pos() })
	for _, g := range p.gos {
		for _, f := range bodies {
			for x := range p.localFuncs(f) {
				if g.Parent() == x {
					r.Fail("one-goroutine-per-stage", fnName(topFunc(g.Parent())), w.pos(g.Pos()), "a stage starts further goroutines: the order of the fragments is lost")
				}
			}
		}
	}
	next := w.method("pkg/parser", "parser", "next")
	transforms := map[*ssa.Function]bool{}
	nStage, nProd := 0, 0
	for _, f := range bodies {
		sends, recvs := p.bodyOps(f)
		if len(sends) == 0 && len(recvs) == 0 {
			continue
		}
		name := fnName(topFunc(f))
		sa := &stageAnalysis{p: p, fn: f, problems: map[string]token.Pos{}, nextFn: next}
		if len(recvs) == 0 {
			sa.producer = true
			nProd++
			if next == nil {
				r.Fail("stage-typestate", name, w.pos(f.Pos()), "the call that provides the parsed elements cannot be identified")
				continue
			}
		} else {
			nStage++
		}
		exits := sa.run(f, map[phase]bool{phInit: true}, 0)
		for x := range exits {
			switch x.ph {
			case phClosed, phDone, phFinished:
			default:
				sa.problem(f.Pos(), "the stage ends %s, before the end of its input: the rest of the document is lost", phaseNames[x.ph])
			}
		}
		var ms []string
		for m := range sa.problems {
			ms = append(ms, m+" ("+w.pos(sa.problems[m])+")")
		}
		sort.Strings(ms)
		r.Check("stage-typestate", name, w.pos(f.Pos()), len(ms) == 0, "one receive, one send per iteration, until the end of the input"+prefixed(ms))
		// dataflow of the sent values
		for _, s := range sends {
			ok, how, ts := p.sentValue(s, sa.producer)
			for _, t := range ts {
				transforms[t] = true
			}
			r.Check("sent-value", name+" send "+p.valueName(s.val), w.pos(s.in.Pos()), ok, how)
		}
		// at most one call of each transform per fragment
		for x := range p.localFuncs(f) {
			calls := map[*ssa.Function][]*ssa.Call{}
			for _, in := range instrs(x) {
				if c, ok := in.(*ssa.Call); ok {
					for _, t := range w.calleesOf(c) {
						if transforms[t] {
							calls[t] = append(calls[t], c)
						}
					}
				}
			}
			for t, cs := range calls {
				for _, a := range cs {
					for _, b := range cs {
						if reachesWithout(a, b, func(i ssa.Instruction) bool { return p.isRecv(i) }) {
							r.Fail("applied-once", name+" -> "+fnName(t), w.pos(b.Pos()), "the stage function can be applied twice to the same fragment")
						}
					}
				}
				r.OK("applied-once", name+" -> "+fnName(t), w.pos(cs[0].Pos()), "applied at most once between two receives")
			}
		}
	}
	// consumers: functions receiving fragments outside goroutines
	nCons := 0
	for _, c := range p.recvs {
		if !isFragmentChan(c.ch.Type()) || c.sel != nil {
			continue
		}
		fn := c.in.Parent()
		inBody := false
		for _, f := range bodies {
			if p.localFuncs(f)[fn] {
				inBody = true
			}
		}
		if inBody {
			continue
		}
		nCons++
		c04Consumer(w, r, p, fn, c)
	}
	r.Floor("stages", nStage, 1)
	r.Floor("producers", nProd, 1)
	r.Floor("consumers", nCons, 1)
	r.Floor("stage functions", len(transforms), 5)
	var ts []*ssa.Function
	for t := range transforms {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].Pos() < ts[j].Pos() })
	for _, t := range ts {
		c04Transform(w, r, t)
	}
	c04Order(w, r, p)
}

func prefixed(ms []string) string {
	if len(ms) == 0 {
		return ""
	}
	return " - NOT the case: " + strings.Join(ms, "; ")
}

func (p *pipeline) isRecv(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.UnOp:
		return i.Op == token.ARROW && isFragmentChan(i.X.Type())
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.RecvOnly && isFragmentChan(s.Chan.Type()) {
				return true
			}
		}
	}
	return false
}

// reachesWithout: control can flow from after a to b without passing an instruction satisfying stop.
func reachesWithout(a, b ssa.Instruction, stop func(ssa.Instruction) bool) bool {
	found := false
	heldRegion(a, func(i ssa.Instruction) bool {
		if i == b {
			found = true
			return false
		}
		return !stop(i)
	})
	return found
}

func (w *World) method(pkg, typ, name string) *ssa.Function {
	t := w.typ(pkg, typ)
	if t == nil {
		return nil
	}
	for _, x := range []types.Type{types.NewPointer(t), t} {
		if sel := types.NewMethodSet(x).Lookup(t.Obj().Pkg(), name); sel != nil {
			if o, ok := sel.Obj().(*types.Func); ok {
				return w.Prog.FuncValue(o)
			}
		}
	}
	return nil
}

// sentValue traces the value sent by a stage back to the received fragment; it returns the
// stage functions applied on the way.
func (p *pipeline) sentValue(s chanOp, producer bool) (bool, string, []*ssa.Function) {
	var ts []*ssa.Function
	var bad []string
	good := 0
	type key struct {
		v  ssa.Value
		fs string
	}
	seen := map[key]bool{}
	var trace func(v ssa.Value, applied []*ssa.Function)
	trace = func(v ssa.Value, applied []*ssa.Function) {
		var sb strings.Builder
		for _, f := range applied {
			sb.WriteString(f.String() + ";")
		}
		k := key{v, sb.String()}
		if seen[k] {
			return
		}
		seen[k] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				trace(e, applied)
			}
		case *ssa.ChangeType:
			trace(x.X, applied)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.UnOp:
				trace(t, applied)
			case *ssa.Select:
				good++
			default:
				bad = append(bad, v.String())
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				if isFragmentChan(x.X.Type()) {
					good++
					return
				}
			}
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok {
					whole := false
					for _, r := range refs(a) {
						if st, ok := r.(*ssa.Store); ok && st.Addr == a {
							whole = true
							trace(st.Val, applied)
						}
					}
					if !whole {
						if producer {
							good++ // composite literal built from the parsed element
						} else {
							bad = append(bad, "a new fragment")
						}
					}
					return
				}
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					trace(fv, applied)
					return
				}
			}
			bad = append(bad, v.String())
		case *ssa.Alloc:
			for _, r := range refs(x) {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					trace(st.Val, applied)
				}
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			for i, fv := range fn.FreeVars {
				if fv == x && fn.Parent() != nil {
					for _, in := range instrs(fn.Parent()) {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							trace(mc.Bindings[i], applied)
						}
					}
				}
			}
		case *ssa.Parameter:
			fn := x.Parent()
			p.w.buildCallGraph()
			n := 0
			for i, q := range fn.Params {
				if q == x {
					for _, c := range p.w.callers[fn] {
						if a, ok := argFor(c, fn, i); ok {
							n++
							trace(a, applied)
						}
					}
				}
			}
			if n == 0 {
				bad = append(bad, "parameter "+x.Name()+" of "+fnName(fn))
			}
		case *ssa.Const:
			bad = append(bad, "an empty fragment")
		case *ssa.Call:
			callees := p.w.calleesOf(x)
			if len(callees) == 0 {
				bad = append(bad, "the result of an unresolved call")
				return
			}
			for _, f := range callees {
				if !p.w.inScopeFn(f) {
					bad = append(bad, "the result of "+f.String())
					continue
				}
				if f.Name() == "NewErrorFragment" {
					if producer {
						good++
					} else {
						// only allowed with the position of the fragment; accepted by the error rules of stage functions
						bad = append(bad, "an error fragment made outside the stage function")
					}
					continue
				}
				for _, g := range applied {
					if g == f {
						bad = append(bad, "the result of "+fnName(f)+" applied twice")
						return
					}
				}
				nArg := 0
				for _, a := range x.Call.Args {
					if typeName(deref(a.Type())) == fragmentType {
						nArg++
						trace(a, append(append([]*ssa.Function{}, applied...), f))
					}
				}
				if nArg != 1 {
					if producer {
						good++
						continue
					}
					bad = append(bad, "the result of "+fnName(f)+", which does not receive the fragment")
					continue
				}
				known := false
				for _, t := range ts {
					known = known || t == f
				}
				if !known {
					ts = append(ts, f)
				}
			}
		default:
			bad = append(bad, fmt.Sprintf("%T", v))
		}
	}
	trace(s.val, nil)
	var names []string
	for _, t := range ts {
		names = append(names, fnName(t))
	}
	if len(bad) > 0 {
		return false, "the value sent is " + strings.Join(bad, ", ") + " instead of the received fragment processed once", ts
	}
	if good == 0 {
		return false, "the value sent does not come from the received fragment", ts
	}
	if producer {
		return true, "made from the parsed element", nil
	}
	return true, "the received fragment, processed by: " + strings.Join(names, ", "), ts
}

// errNilFact: is the field Error of the fragment known to be nil (true) or non-nil (false) at the block?
func errFact(b *ssa.BasicBlock, frag ssa.Value) (isNil, isErr bool) {
	for _, c := range factsAt(b) {
		n := c.norm()
		bo, ok := n.v.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
			continue
		}
		x, y := bo.X, bo.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isNilConst(y) {
			continue
		}
		name, base := loadedField(x)
		if name != fragmentType+".Error" || !sameFrag(base, frag) {
			continue
		}
		if (bo.Op == token.EQL) == n.val {
			isNil = true
		} else {
			isErr = true
		}
	}
	return
}

// loadedField: the value is the content of a struct field; gives its name and the struct.
func loadedField(v ssa.Value) (string, ssa.Value) {
	switch x := v.(type) {
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field), x.X
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldName(fa.X.Type(), fa.Field), fa.X
			}
		}
	}
	return "", nil
}

// sameFrag: both values denote the same fragment (parameter, its local copy, or a load of it).
func sameFrag(a, b ssa.Value) bool {
	return fragRoot(a) != nil && fragRoot(a) == fragRoot(b)
}

func fragRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.Alloc:
			// initialised by a single whole store
			var st *ssa.Store
			n := 0
			for _, r := range refs(x) {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					st, n = s, n+1
				}
			}
			if n != 1 {
				return v
			}
			v = st.Val
		case *ssa.Extract:
			return v
		default:
			return v
		}
	}
	return v
}

// c04Transform checks a stage function: content only touched when there is no error; the
// fragment returned as it is otherwise; error fragments keep the position.
func c04Transform(w *World, r *Report, t *ssa.Function) {
	var frag *ssa.Parameter
	for _, q := range t.Params {
		if typeName(deref(q.Type())) == fragmentType {
			frag = q
		}
	}
	if frag == nil {
		r.Fail("error-untouched", fnName(t), w.pos(t.Pos()), "no fragment parameter")
		return
	}
	isFrag := func(v ssa.Value) bool { return fragRoot(v) == ssa.Value(frag) }
	bad := ""
	nAcc := 0
	for _, in := range instrs(t) {
		var name string
		var base ssa.Value
		switch x := in.(type) {
		case *ssa.Field:
			name, base = fieldName(x.X.Type(), x.Field), x.X
		case *ssa.FieldAddr:
			name, base = fieldName(x.X.Type(), x.Field), x.X
		default:
			continue
		}
		if base == nil || !isFrag(base) {
			continue
		}
		stored := false
		if fa, ok := in.(*ssa.FieldAddr); ok {
			for _, rr := range refs(fa) {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
					stored = true
				}
			}
		}
		if name == fragmentType+".Elements" || stored {
			nAcc++
			if isNil, _ := errFact(in.Block(), frag); !isNil {
				bad = "the content of the fragment is accessed where its error is not known to be nil (" + w.pos(in.Pos()) + ")"
			}
		}
	}
	if bad == "" {
		bad = wholeContent(w, t, isFrag)
	}
	if nAcc == 0 && bad == "" {
		// delegates?
		delegated := false
		for _, in := range instrs(t) {
			if c, ok := in.(*ssa.Call); ok {
				for _, a := range c.Call.Args {
					if typeName(deref(a.Type())) == fragmentType && isFrag(a) {
						for _, g := range w.calleesOf(c) {
							if w.inScopeFn(g) && g != t {
								delegated = true
								c04Transform(w, r, g)
							}
						}
					}
				}
			}
		}
		if !delegated {
			bad = "the stage function does not process the content of the fragment"
		}
	}
	if bad == "" {
		r.OK("error-untouched", fnName(t), w.pos(t.Pos()), "the content is accessed only where the error of the fragment is nil")
	} else {
		r.Fail("error-untouched", fnName(t), w.pos(t.Pos()), bad)
	}
	// returned values
	for _, b := range t.Blocks {
		ret, ok := lastInstr(b).(*ssa.Return)
		if !ok || b == t.Recover || len(ret.Results) == 0 {
			continue
		}
		var leaves []retLeaf
		phiLeaves(ret.Results[0], b, map[ssa.Value]bool{}, &leaves)
		for _, l := range leaves {
			if typeName(deref(l.v.Type())) != fragmentType {
				continue
			}
			if isFrag(l.v) {
				continue
			}
			isNil, _ := errFact(l.b, frag)
			c, isCall := l.v.(*ssa.Call)
			switch {
			case isCall && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "NewErrorFragment":
				s := w.newSlicer()
				s.add(c.Call.Args[0])
				posOK := false
				for _, src := range s.sources() {
					if src.String() == "field:"+fragmentType+".Position" {
						posOK = true
					}
				}
				good := isNil && posOK && !isNilConst(c.Call.Args[1])
				d := "error of the stage, with the position of the fragment"
				if !isNil {
					d = "the error carried by a fragment is replaced by another one"
				} else if !posOK {
					d = "the error fragment loses the position of the fragment"
				} else if !good {
					d = "the error fragment carries no error"
				}
				r.Check("error-fragment", fnName(t)+" -> NewErrorFragment", w.pos(c.Pos()), good, d)
			case isCall && passesFrag(c, isFrag):
				r.OK("error-fragment", fnName(t)+" -> "+p04(c), w.pos(c.Pos()), "delegates to another stage function")
			default:
				d := "a new fragment is returned where the error of the received one is nil"
				if !isNil {
					d = "a fragment with an error is not returned unchanged"
				}
				r.Check("error-fragment", fnName(t)+" -> new fragment", w.pos(ret.Pos()), isNil, d)
			}
		}
	}
}

// wholeContent: the elements of the fragment are neither sub-sliced, nor skipped in a loop.
func wholeContent(w *World, t *ssa.Function, isFrag func(ssa.Value) bool) string {
	for _, in := range instrs(t) {
		v, ok := in.(ssa.Value)
		if !ok {
			continue
		}
		n, base := loadedField(v)
		if n != fragmentType+".Elements" || !isFrag(base) {
			continue
		}
		for _, ref := range refs(v) {
			switch x := ref.(type) {
			case *ssa.Slice:
				if x.Low != nil || x.High != nil {
					return "only a part of the content of the fragment is processed (" + w.pos(x.Pos()) + ")"
				}
			case *ssa.IndexAddr:
				for _, rr := range refs(x) {
					ld, ok := rr.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						continue
					}
					again := false
					heldRegion(ld, func(i ssa.Instruction) bool {
						if i == ssa.Instruction(ld) {
							again = true
							return false
						}
						for _, op := range i.Operands(nil) {
							if *op != nil && stripConv(*op) == ssa.Value(ld) {
								switch i.(type) {
								case *ssa.MakeInterface, *ssa.ChangeInterface:
									continue
								}
								if c, ok := i.(ssa.CallInstruction); ok {
									if o := calleeObj(c.Common()); o != nil && o.Pkg() != nil && !w.inScope[o.Pkg()] {
										continue
									}
								}
								if st, ok := i.(*ssa.Store); ok {
									if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
										if a, ok := ia.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
											continue
										}
									}
								}
								return false
							}
						}
						return true
					})
					if again {
						return "elements of the fragment can be skipped by the loop at " + w.pos(x.Pos())
					}
				}
			}
		}
	}
	return ""
}

func p04(c *ssa.Call) string {
	if f := c.Call.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "call"
}

func passesFrag(c *ssa.Call, isFrag func(ssa.Value) bool) bool {
	for _, a := range c.Call.Args {
		if typeName(deref(a.Type())) == fragmentType && isFrag(a) {
			return true
		}
	}
	return false
}

type retLeaf struct {
	v ssa.Value
	b *ssa.BasicBlock
}

// phiLeaves expands phis (and single-store locals are left to the caller), remembering the
// block at whose end the value is chosen.
func phiLeaves(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool, out *[]retLeaf) {
	if seen[v] {
		return
	}
	if phi, ok := v.(*ssa.Phi); ok {
		seen[v] = true
		for i, e := range phi.Edges {
			phiLeaves(e, phi.Block().Preds[i], seen, out)
		}
		return
	}
	// a value computed in a block is chosen there
	*out = append(*out, retLeaf{v, b})
}

// c04Consumer: every fragment received without error has each of its elements added to the
// document.
func c04Consumer(w *World, r *Report, p *pipeline, fn *ssa.Function, c chanOp) {
	name := fnName(topFunc(fn))
	u := c.in.(*ssa.UnOp)
	var frag ssa.Value = u
	var okv ssa.Value
	for _, x := range refs(u) {
		if e, ok := x.(*ssa.Extract); ok {
			if e.Index == 0 {
				frag = e
			} else {
				okv = e
			}
		}
	}
	root := fragRoot(frag)
	isF := func(v ssa.Value) bool {
		x := fragRoot(v)
		return x == root || x == frag
	}
	// the elements loaded
	var loads []ssa.Instruction
	for _, in := range instrs(fn) {
		switch x := in.(type) {
		case *ssa.Field:
			if fieldName(x.X.Type(), x.Field) == fragmentType+".Elements" && isF(x.X) {
				loads = append(loads, in)
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fieldName(fa.X.Type(), fa.Field) == fragmentType+".Elements" && isF(fa.X) {
				loads = append(loads, in)
			}
		case *ssa.Call:
			// handed on as a whole
			for _, a := range x.Call.Args {
				if typeName(deref(a.Type())) == fragmentType && isF(a) {
					loads = append(loads, in)
				}
			}
		}
	}
	if okv == nil {
		r.Fail("consumer", name, w.pos(u.Pos()), "the end of the input is not tested")
		return
	}
	// from the receive: every path back to the receive passes a load of the elements, or the branch where Error != nil
	isLoad := map[ssa.Instruction]bool{}
	for _, l := range loads {
		isLoad[l] = true
	}
	dropped := token.NoPos
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if isLoad[in] {
				return
			}
			if in == ssa.Instruction(u) {
				dropped = u.Pos()
				return
			}
		}
		for k, s := range b.Succs {
			if ifi, ok := lastInstr(b).(*ssa.If); ok {
				n := cond{v: ifi.Cond, val: k == 0}.norm()
				if n.v == okv && !n.val {
					continue // end of the input
				}
				if bo, ok := n.v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isNilConst(bo.Y) {
					if f, base := loadedField(bo.X); f == fragmentType+".Error" && isF(base) && (bo.Op == token.NEQ) == n.val {
						continue // the fragment carries an error
					}
				}
			}
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(u.Block(), instrIndex(u)+1)
	r.Check("consumer", name+" takes each fragment", w.pos(u.Pos()), dropped == token.NoPos && len(loads) > 0, "every fragment without error has its elements processed before the next one is received")
	// each element is appended: range over the elements, every iteration passes a call that adds the element
	for _, l := range loads {
		if _, ok := l.(*ssa.Call); ok {
			continue
		}
		v := l.(ssa.Value)
		for _, ref := range refs(v) {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, rr := range refs(ia) {
				ld, ok := rr.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				adds := func(in ssa.Instruction) bool {
					call, ok := in.(*ssa.Call)
					if !ok {
						return false
					}
					for ai, a := range call.Call.Args {
						if stripConv(a) != ssa.Value(ld) {
							continue
						}
						if call.Call.IsInvoke() {
							if call.Call.Method.Name() == "AddElement" {
								return true
							}
							continue
						}
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							return true
						}
						if f := call.Call.StaticCallee(); f != nil && w.inScopeFn(f) && addsParam(w, f, ai, 0) {
							return true
						}
					}
					// append of a one-element slice
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(call.Call.Args) == 2 {
						if sl, ok := call.Call.Args[1].(*ssa.Slice); ok {
							if al, ok := sl.X.(*ssa.Alloc); ok {
								for _, q := range refs(al) {
									if ia2, ok := q.(*ssa.IndexAddr); ok {
										for _, q2 := range refs(ia2) {
											if st, ok := q2.(*ssa.Store); ok && stripConv(st.Val) == ssa.Value(ld) {
												return true
											}
										}
									}
								}
							}
						}
					}
					return false
				}
				// walk from the load: reaching it again without adding means the element was dropped
				again := false
				heldRegion(ld, func(i ssa.Instruction) bool {
					if adds(i) {
						return false
					}
					if i == ssa.Instruction(ld) || i == ssa.Instruction(u) {
						again = true
						return false
					}
					return true
				})
				r.Check("consumer", name+" keeps each element", w.pos(ld.Pos()), !again, "every element of a fragment is added to the document before the next one is looked at"+map[bool]string{true: " - NOT the case", false: ""}[again])
			}
		}
	}
}

// addsParam: on every path to a return without error... the parameter is handed to AddElement
// (structural: every path from the entry to a return passes a call that receives the parameter
// and adds it, or returns a non-nil error).
func addsParam(w *World, f *ssa.Function, idx int, depth int) bool {
	if depth > 4 || idx >= len(f.Params) {
		return false
	}
	prm := f.Params[idx]
	var isPrm func(v ssa.Value, d int) bool
	isPrm = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		v = stripConv(v)
		switch x := v.(type) {
		case *ssa.Parameter:
			return x == prm
		case *ssa.TypeAssert:
			return isPrm(x.X, d+1)
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				return isPrm(ta.X, d+1)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !isPrm(e, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	ok := func(in ssa.Instruction) bool {
		c, is := in.(*ssa.Call)
		if !is {
			return false
		}
		for ai, a := range c.Call.Args {
			if !isPrm(a, 0) {
				continue
			}
			if c.Call.IsInvoke() && c.Call.Method.Name() == "AddElement" {
				return true
			}
			if g := c.Call.StaticCallee(); g != nil && g.Name() == "AddElement" {
				return true
			}
			if g := c.Call.StaticCallee(); g != nil && w.inScopeFn(g) && g != f && addsParam(w, g, ai, depth+1) {
				return true
			}
		}
		return false
	}
	return mustPass(f, ok)
}

// c04Order: the order in which the stages are composed.
func c04Order(w *World, r *Report, p *pipeline) {
	agg := w.fn("pkg/parser", "Aggregate")
	root := w.fn("pkg/parser", "ParseDocument")
	if agg == nil || root == nil {
		r.Fail("stage-order", "pipeline", "", "ParseDocument or Aggregate not found")
		return
	}
	known := map[string]bool{"ParseDocumentFragments": true, "RefineFragments": true, "ApplySubstitutions": true, "CollectFootnotes": true, "ArrangeLists": true, "FilterOut": true}
	// find the call of Aggregate reachable from ParseDocument
	var call *ssa.Call
	for f := range w.reachable(root) {
		for _, in := range instrs(f) {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == agg {
				call = c
			}
		}
	}
	if call == nil {
		r.Fail("stage-order", "pipeline", "", "Aggregate is not called")
		return
	}
	var order []string
	bad := ""
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if depth > 40 {
			bad = "composition too deep"
			return
		}
		v = stripConv(v)
		switch x := v.(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				bad = "a stage is called through a function value"
				return
			}
			if known[f.Name()] && relPkg(f.Pkg.Pkg) == "pkg/parser" {
				order = append(order, f.Name())
				for _, a := range x.Call.Args {
					if isFragmentChan(a.Type()) {
						walk(a, depth+1)
					}
				}
				return
			}
			if !w.inScopeFn(f) {
				bad = "a fragment stream comes from " + f.String()
				return
			}
			for _, b := range f.Blocks {
				if ret, ok := lastInstr(b).(*ssa.Return); ok && b != f.Recover {
					for _, rv := range ret.Results {
						if isFragmentChan(rv.Type()) {
							walk(rv, depth+1)
						}
					}
				}
			}
		case *ssa.Parameter:
			w.buildCallGraph()
			for i, q := range x.Parent().Params {
				if q == x {
					for _, c := range w.callers[x.Parent()] {
						if a, ok := argFor(c, x.Parent(), i); ok {
							walk(a, depth+1)
						}
					}
				}
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, q := range refs(a) {
					if st, ok := q.(*ssa.Store); ok && st.Addr == a {
						walk(st.Val, depth+1)
					}
				}
				return
			}
			bad = "a fragment stream cannot be traced"
		default:
			bad = fmt.Sprintf("a fragment stream cannot be traced (%T)", v)
		}
	}
	for _, a := range call.Call.Args {
		if isFragmentChan(a.Type()) {
			walk(a, 0)
		}
	}
	// reverse: source first
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	idx := map[string]int{}
	for i, n := range order {
		if _, dup := idx[n]; dup {
			bad = n + " is part of the pipeline twice"
		}
		idx[n] = i
	}
	for n := range known {
		if _, ok := idx[n]; !ok && bad == "" {
			bad = n + " is not part of the pipeline"
		}
	}
	before := [][2]string{{"ParseDocumentFragments", "RefineFragments"}, {"RefineFragments", "ApplySubstitutions"}, {"ApplySubstitutions", "CollectFootnotes"}, {"ApplySubstitutions", "ArrangeLists"}, {"ArrangeLists", "FilterOut"}}
	for _, b := range before {
		ok := bad == "" && idx[b[0]] < idx[b[1]]
		d := "composition: " + strings.Join(order, " -> ") + " -> Aggregate"
		if bad != "" {
			d = bad
		}
		r.Check("stage-order", b[0]+" before "+b[1], w.pos(call.Pos()), ok, d)
	}
}
