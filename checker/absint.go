package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path-sensitive abstract interpretation: values are terms over what a function is given, the memory is kept per
// address, conditions on equal terms agree along a path, and facts about dynamic types exclude each other. Helpers
// chosen by the client are followed at their calls; the client says what the other calls mean. A loop is entered
// with anything it may assign being unknown, and followed once.

type xval struct {
	k    byte // 'C' constant, 'O' address or object, 'F' function, 'S' structure copied from the address s, 'Q' tuple, 'T' term
	s    string
	fn   *ssa.Function
	free []xval
	list []xval
}

func (v xval) key() string {
	if v.k == 'Q' {
		var l []string
		for _, x := range v.list {
			l = append(l, x.key())
		}
		return "Q(" + strings.Join(l, ",") + ")"
	}
	return string(v.k) + v.s
}

func xconst(s string) xval { return xval{k: 'C', s: s} }
func xterm(s string) xval  { return xval{k: 'T', s: s} }

type typeFact struct {
	t   types.Type
	yes bool
}

type astate struct {
	mem   map[string]xval
	link  map[string]string // structures copied from elsewhere
	conds map[string]bool
	types map[string][]typeFact
	data  map[string]string // kept by the client
}

func newAState() *astate {
	return &astate{map[string]xval{}, map[string]string{}, map[string]bool{}, map[string][]typeFact{}, map[string]string{}}
}

func (s *astate) clone() *astate {
	c := newAState()
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.link {
		c.link[k] = v
	}
	for k, v := range s.conds {
		c.conds[k] = v
	}
	for k, v := range s.types {
		c.types[k] = v[:len(v):len(v)]
	}
	for k, v := range s.data {
		c.data[k] = v
	}
	return c
}

func (s *astate) key() string {
	var l []string
	for k, v := range s.mem {
		l = append(l, k+"="+v.key())
	}
	for k, v := range s.link {
		l = append(l, k+"->"+v)
	}
	for k, v := range s.conds {
		l = append(l, fmt.Sprint(k, "?", v))
	}
	for k, v := range s.types {
		for _, f := range v {
			l = append(l, fmt.Sprint(k, ":", f.t, f.yes))
		}
	}
	for k, v := range s.data {
		l = append(l, k+":="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

type adefer struct {
	call *ssa.CallCommon
	fn   xval
	args []xval
	in   ssa.Instruction
}

type aframe struct {
	id     int
	fn     *ssa.Function
	env    map[ssa.Value]xval
	path   map[*ssa.BasicBlock]bool
	defers []adefer
	depth  int
	seen   map[string]bool
	up     *aframe
	site   ssa.Instruction
}

type absint struct {
	w      *World
	inline func(g *ssa.Function) bool
	// call: the meaning of a call which is not followed; ok is false when the client does not know it
	call func(f *aframe, s *astate, in ssa.CallInstruction, fn xval, args []xval) (res []xval, ok bool)
	// visit: each instruction, before it is executed
	visit func(f *aframe, s *astate, in ssa.Instruction)
	// loop: a path reaches the head of a loop again
	loop     func(f *aframe, s *astate, head *ssa.BasicBlock)
	maxDepth int
	frames   int
	steps    int
	limit    int
	over     bool
	ran      map[*ssa.Function]bool
	tests    map[string]typeTest
	from     *ssa.BasicBlock // in loop: where the path comes from
	// lists: slices of known length have their elements in the memory, loops over them are followed for each of
	// their elements, and methods are looked up by the known dynamic types
	lists bool
	nlist int
	// keep: what is at the address is given by the client for one iteration, and not forgotten at the loop
	keep func(addr string) bool
	// forget: when a function returns, what is only known about its own values is forgotten, and the paths which
	// are the same then are followed once
	forget bool
}

var valueToken = regexp.MustCompile(`\b(?:\d+(?:r\d+)?\.[A-Za-z0-9_]+|list\d+(?:r\d+)?)\b`)

// canonical renames the values of the frames and lists which are new, and removes those which nothing refers to.
func (s *astate) canonical(res []xval, frame, list int) string {
	number := func(t string) int {
		i := 0
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		n, _ := strconv.Atoi(t[:i])
		return n
	}
	isNew := func(t string) bool {
		if strings.HasPrefix(t, "list") {
			return number(t[4:]) >= list
		}
		return number(t) >= frame
	}
	names := map[string]string{}
	var work []string
	find := func(v string) {
		for _, t := range valueToken.FindAllString(v, -1) {
			if _, ok := names[t]; !ok && isNew(t) {
				if strings.HasPrefix(t, "list") {
					names[t] = fmt.Sprintf("list%dr%d", list, len(names))
				} else {
					names[t] = fmt.Sprintf("%dr%d.t", frame, len(names))
				}
				work = append(work, t)
			}
		}
	}
	var findVal func(v xval)
	findVal = func(v xval) {
		find(v.s)
		for _, e := range v.list {
			findVal(e)
		}
		for _, e := range v.free {
			findVal(e)
		}
	}
	for _, v := range res {
		findVal(v)
	}
	keys := make([]string, 0, len(s.mem))
	for k := range s.mem {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	byToken := map[string][]string{}
	for _, k := range keys {
		old := true
		for _, t := range valueToken.FindAllString(k, -1) {
			if isNew(t) {
				old = false
				byToken[t] = append(byToken[t], k)
			}
		}
		if old {
			findVal(s.mem[k])
		}
	}
	links := make([]string, 0, len(s.link))
	for k := range s.link {
		links = append(links, k)
	}
	sort.Strings(links)
	for _, k := range links {
		old := true
		for _, t := range valueToken.FindAllString(k, -1) {
			old = old && !isNew(t)
		}
		if old {
			find(s.link[k])
		}
	}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		for _, k := range byToken[t] {
			findVal(s.mem[k])
		}
		for _, k := range links {
			if strings.Contains(k, t) {
				find(s.link[k])
			}
		}
	}
	rename := func(v string) (string, bool) {
		ok := true
		r := valueToken.ReplaceAllStringFunc(v, func(t string) string {
			if n, found := names[t]; found {
				return n
			}
			if isNew(t) {
				ok = false
			}
			return t
		})
		return r, ok
	}
	var renameVal func(v xval) xval
	renameVal = func(v xval) xval {
		v.s, _ = rename(v.s)
		if len(v.list) > 0 {
			l := make([]xval, len(v.list))
			for i, e := range v.list {
				l[i] = renameVal(e)
			}
			v.list = l
		}
		if len(v.free) > 0 {
			l := make([]xval, len(v.free))
			for i, e := range v.free {
				l[i] = renameVal(e)
			}
			v.free = l
		}
		return v
	}
	for i, v := range res {
		res[i] = renameVal(v)
	}
	mem := make(map[string]xval, len(s.mem))
	for k, v := range s.mem {
		if k, ok := rename(k); ok {
			mem[k] = renameVal(v)
		}
	}
	s.mem = mem
	link := make(map[string]string, len(s.link))
	for k, v := range s.link {
		if k, ok := rename(k); ok {
			link[k], _ = rename(v)
		}
	}
	s.link = link
	conds := make(map[string]bool, len(s.conds))
	for k, v := range s.conds {
		if k, ok := rename(k); ok {
			conds[k] = v
		}
	}
	s.conds = conds
	facts := make(map[string][]typeFact, len(s.types))
	for k, v := range s.types {
		if k, ok := rename(k); ok {
			facts[k] = v
		}
	}
	s.types = facts
	data := make(map[string]string, len(s.data))
	for k, v := range s.data {
		if k, ok := rename(k); ok {
			data[k], _ = rename(v)
		}
	}
	s.data = data
	var l []string
	for _, v := range res {
		l = append(l, v.key())
	}
	return strings.Join(l, ",") + "|" + s.key()
}

type typeTest struct {
	v xval
	t types.Type
}

func (x *absint) run(fn *ssa.Function, args, free []xval, s *astate, done func(f *aframe, s *astate, res []xval, ret *ssa.Return)) {
	if x.limit == 0 {
		x.limit = 200000
	}
	if x.maxDepth == 0 {
		x.maxDepth = 6
	}
	if x.ran == nil {
		x.ran = map[*ssa.Function]bool{}
	}
	x.exec(nil, nil, fn, args, free, s, done)
}

func (x *absint) exec(up *aframe, site ssa.Instruction, fn *ssa.Function, args, free []xval, s *astate, done func(f *aframe, s *astate, res []xval, ret *ssa.Return)) {
	x.frames++
	x.ran[fn] = true
	f := &aframe{id: x.frames, fn: fn, env: map[ssa.Value]xval{}, path: map[*ssa.BasicBlock]bool{}, seen: map[string]bool{}, up: up, site: site}
	if up != nil {
		f.depth = up.depth + 1
	}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = xterm("param " + p.Name())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		}
	}
	x.block(f, fn.Blocks[0], nil, s, done)
}

func (x *absint) val(f *aframe, v ssa.Value) xval {
	if r, ok := f.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return xconst("nil")
		}
		return xconst(v.Value.ExactString())
	case *ssa.Function:
		return xval{k: 'F', s: fnName(v), fn: v}
	case *ssa.Global:
		return xval{k: 'O', s: "global " + v.Name()}
	case *ssa.Builtin:
		return xterm("builtin " + v.Name())
	}
	return xterm(fmt.Sprintf("%d.%s", f.id, v.Name()))
}

func (s *astate) load(addr string) xval {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	a := addr
	for {
		if t, ok := s.mem[a]; ok && t.k == 'T' && a != addr {
			if v, ok := s.mem[t.s+addr[len(a):]]; ok {
				return v
			}
			return xterm(t.s + addr[len(a):]) // a field of a structure returned by a call, for example
		}
		i := strings.LastIndexAny(a, ".[")
		if i < 0 {
			break
		}
		if base, ok := s.link[a[:i]]; ok {
			return s.load0(base + a[i:] + addr[len(a):])
		}
		a = a[:i]
	}
	return xterm("*" + addr)
}

func (s *astate) load0(addr string) xval {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	return xterm("*" + addr)
}

func (s *astate) store(addr string, v xval) {
	for k := range s.mem {
		if strings.HasPrefix(k, addr+".") || strings.HasPrefix(k, addr+"[") {
			delete(s.mem, k)
		}
	}
	delete(s.link, addr)
	if v.k == 'S' {
		for k, e := range s.mem {
			if strings.HasPrefix(k, v.s+".") || strings.HasPrefix(k, v.s+"[") {
				s.mem[addr+k[len(v.s):]] = e
			}
		}
		s.link[addr] = v.s
		if l, ok := s.link[v.s]; ok {
			s.link[addr] = l // what the copied structure had was copied above
		}
		delete(s.mem, addr)
		return
	}
	s.mem[addr] = v
}

func addrOf(v xval) string { return v.s }

func (x *absint) block(f *aframe, b, from *ssa.BasicBlock, s *astate, done func(f *aframe, s *astate, res []xval, ret *ssa.Return)) {
	x.steps++
	if x.steps > x.limit {
		x.over = true
		return
	}
	header := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			header = true
		}
	}
	counted := x.lists && header && x.counted(f, b, from, s)
	if f.path[b] && !counted {
		if x.loop != nil {
			x.from = from
			x.loop(f, s, b)
		}
		return
	}
	fr := *f
	fr.env = make(map[ssa.Value]xval, len(f.env)+8)
	for k, v := range f.env {
		fr.env[k] = v
	}
	fr.path = make(map[*ssa.BasicBlock]bool, len(f.path)+1)
	for k := range f.path {
		if counted && inLoop(k, b) {
			continue
		}
		fr.path[k] = true
	}
	fr.path[b] = !counted
	fr.defers = append([]adefer{}, f.defers...)
	s = s.clone()
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if header && !counted {
			fr.env[phi] = xterm(fmt.Sprintf("%d.%s", f.id, phi.Name()))
			continue
		}
		for i, p := range b.Preds {
			if p == from {
				fr.env[phi] = x.val(f, phi.Edges[i])
			}
		}
	}
	if header && !counted {
		x.havoc(&fr, b, s)
	}
	var key strings.Builder
	fmt.Fprintf(&key, "%d|", b.Index)
	var ek []string
	for v, a := range fr.env {
		if in, ok := v.(ssa.Instruction); ok && !x.live(in, b) {
			continue
		}
		ek = append(ek, v.Name()+"="+a.key())
	}
	sort.Strings(ek)
	key.WriteString(strings.Join(ek, ","))
	fmt.Fprint(&key, len(fr.defers), s.key())
	for h, on := range fr.path {
		if on && h != b && inLoop(b, h) {
			fmt.Fprint(&key, ",", h.Index)
		}
	}
	if f.seen[key.String()] {
		return
	}
	f.seen[key.String()] = true
	x.instrs(&fr, b, 0, s, done)
}

// live: the value may be used in the block or after it.
func (x *absint) live(in ssa.Instruction, b *ssa.BasicBlock) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	for _, r := range refs(v) {
		if r.Block() == b || blockReaches(b, r.Block()) {
			return true
		}
	}
	return false
}

// havoc forgets what the loop may assign.
func (x *absint) havoc(f *aframe, h *ssa.BasicBlock, s *astate) {
	fields := map[string]bool{}
	maps := false
	seen := map[*ssa.Function]bool{}
	var in func(g *ssa.Function, only func(b *ssa.BasicBlock) bool)
	forget := func(addr string) {
		for k := range s.mem {
			if k == addr || strings.HasPrefix(k, addr+".") || strings.HasPrefix(k, addr+"[") {
				delete(s.mem, k)
			}
		}
		delete(s.link, addr)
		s.mem[addr] = xterm(fmt.Sprintf("loop %d.%d %s", f.id, h.Index, addr))
	}
	in = func(g *ssa.Function, only func(b *ssa.BasicBlock) bool) {
		if seen[g] {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			if !only(b) {
				continue
			}
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					switch a := i.Addr.(type) {
					case *ssa.FieldAddr:
						fields[xfield(a)] = true
					default:
						if g == f.fn {
							if v := x.val(f, a); v.k == 'O' {
								forget(v.s)
							}
						} else if fv, ok := a.(*ssa.FreeVar); ok {
							for _, bind := range bindingsOf(fv) {
								if v := x.val(f, bind); v.k == 'O' {
									forget(v.s)
								}
							}
						}
					}
				case *ssa.MapUpdate:
					maps = true
				case ssa.CallInstruction:
					if c := i.Common().StaticCallee(); c != nil && len(c.Blocks) > 0 && (c.Parent() != nil || x.inline(c)) {
						in(c, func(*ssa.BasicBlock) bool { return true })
					} else if c == nil && !i.Common().IsInvoke() {
						if v := x.val(f, i.Common().Value); v.k == 'F' && len(v.fn.Blocks) > 0 {
							in(v.fn, func(*ssa.BasicBlock) bool { return true })
						}
					}
				}
			}
		}
	}
	in(f.fn, func(b *ssa.BasicBlock) bool { return inLoop(b, h) || b == h })
	n := 0
	for k := range s.mem {
		if x.keep != nil && x.keep(k) {
			continue
		}
		if maps && strings.HasSuffix(k, "]") {
			if s.data["\x00len "+k[:strings.LastIndexByte(k, '[')]] != "" {
				continue // an element of a list
			}
			delete(s.mem, k)
			continue
		}
		if i := strings.LastIndexByte(k, '.'); i >= 0 && fields[k[i+1:]] {
			s.mem[k] = xterm(fmt.Sprintf("loop %d.%d %s", f.id, h.Index, k))
			n++
		}
	}
	// fields which were not assigned yet
	for k := range fields {
		s.data["\x00loop "+k] = fmt.Sprintf("%d.%d", f.id, h.Index)
	}
}

func xfield(fa *ssa.FieldAddr) string {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return st.Field(fa.Field).Name()
}

func bindingsOf(fv *ssa.FreeVar) []ssa.Value {
	var res []ssa.Value
	fn := fv.Parent()
	i := -1
	for j, v := range fn.FreeVars {
		if v == fv {
			i = j
		}
	}
	if fn.Parent() == nil || i < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				res = append(res, mc.Bindings[i])
			}
		}
	}
	return res
}

// field loads the field, which may have been assigned by a loop.
func (x *absint) loadAddr(s *astate, addr string) xval {
	v := s.load(addr)
	if v.k == 'T' && v.s == "*"+addr {
		if i := strings.LastIndexByte(addr, '.'); i >= 0 {
			if l, ok := s.data["\x00loop "+addr[i+1:]]; ok {
				return xterm("loop " + l + " " + addr)
			}
		}
	}
	return v
}

func (x *absint) instrs(f *aframe, b *ssa.BasicBlock, i int, s *astate, done func(f *aframe, s *astate, res []xval, ret *ssa.Return)) {
	for ; i < len(b.Instrs); i++ {
		if x.visit != nil {
			x.visit(f, s, b.Instrs[i])
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			o := fmt.Sprintf("%d.%s", f.id, in.Name())
			f.env[in] = xval{k: 'O', s: o}
			for k := range s.mem {
				if k == o || strings.HasPrefix(k, o+".") || strings.HasPrefix(k, o+"[") {
					delete(s.mem, k)
				}
			}
			delete(s.link, o)
			x.zero(s, o, deref(in.Type()), 0)
		case *ssa.FieldAddr:
			f.env[in] = xval{k: 'O', s: addrOf(x.val(f, in.X)) + "." + xfield(in)}
		case *ssa.Field:
			st := x.val(f, in.X)
			t, _ := in.X.Type().Underlying().(*types.Struct)
			if st.k == 'S' && t != nil {
				f.env[in] = x.loadAddr(s, st.s+"."+t.Field(in.Field).Name())
			} else if t != nil {
				f.env[in] = xterm(st.s + "." + t.Field(in.Field).Name())
			}
		case *ssa.IndexAddr:
			f.env[in] = xval{k: 'O', s: addrOf(x.val(f, in.X)) + "[" + x.val(f, in.Index).s + "]"}
		case *ssa.Slice:
			v := x.val(f, in.X)
			if in.Low == nil && in.High == nil {
				if a, ok := deref(in.X.Type()).Underlying().(*types.Array); ok && x.lists && v.k == 'O' {
					s.data["\x00len "+v.s] = strconv.FormatInt(a.Len(), 10)
				}
				f.env[in] = v
				continue
			}
			lo, hi := "", ""
			if in.Low != nil {
				lo = x.val(f, in.Low).s
			}
			if in.High != nil {
				hi = x.val(f, in.High).s
			}
			if l, ok := x.listElems(s, v); ok && x.lists {
				from, to := 0, len(l)
				var e1, e2 error
				if in.Low != nil {
					from, e1 = strconv.Atoi(lo)
				}
				if in.High != nil {
					to, e2 = strconv.Atoi(hi)
				}
				if e1 == nil && e2 == nil && 0 <= from && from <= to && to <= len(l) {
					f.env[in] = x.newList(s, l[from:to])
					continue
				}
			}
			f.env[in] = xterm("slice(" + v.s + "," + lo + "," + hi + ")")
		case *ssa.MakeSlice:
			f.env[in] = xval{k: 'O', s: fmt.Sprintf("%d.%s", f.id, in.Name())}
			if n := x.val(f, in.Len); x.lists && n.k == 'C' {
				l := x.newList(s, nil)
				s.data["\x00len "+l.s] = n.s
				f.env[in] = l
			}
		case *ssa.MakeMap, *ssa.MakeChan:
			f.env[in.(ssa.Value)] = xval{k: 'O', s: fmt.Sprintf("%d.%s", f.id, in.(ssa.Value).Name())}
		case *ssa.Store:
			s.store(addrOf(x.val(f, in.Addr)), x.val(f, in.Val))
		case *ssa.MapUpdate:
			s.mem[addrOf(x.val(f, in.Map))+"["+x.val(f, in.Key).s+"]"] = x.val(f, in.Value)
		case *ssa.Lookup:
			mv := x.val(f, in.X)
			a := addrOf(mv) + "[" + x.val(f, in.Index).s + "]"
			if _, ok := s.mem[a]; !ok && (mv.k == 'C' && mv.s == "nil" || s.data["\x00map "+mv.s] != "") {
				z := zeroOf(in.Type()) // the map is known, and does not have the key
				if in.CommaOk {
					z = xval{k: 'Q', list: []xval{zeroOf(in.Type().(*types.Tuple).At(0).Type()), xconst("false")}}
				}
				f.env[in] = z
				continue
			}
			if in.CommaOk {
				found := xterm("found " + a)
				if _, ok := s.mem[a]; ok {
					found = xconst("true")
				}
				f.env[in] = xval{k: 'Q', list: []xval{s.load(a), found}}
			} else {
				f.env[in] = s.load(a)
			}
		case *ssa.UnOp:
			v := x.val(f, in.X)
			switch in.Op {
			case token.MUL:
				if _, ok := deref(in.X.Type()).Underlying().(*types.Struct); ok {
					if w, ok := s.mem[addrOf(v)]; ok {
						f.env[in] = w
					} else {
						f.env[in] = xval{k: 'S', s: addrOf(v)}
					}
				} else {
					f.env[in] = x.loadAddr(s, addrOf(v))
				}
			case token.NOT:
				if v.k == 'C' {
					f.env[in] = xconst(fmt.Sprint(v.s != "true"))
				} else if strings.HasPrefix(v.s, "!") {
					f.env[in] = xterm(v.s[1:])
				} else {
					f.env[in] = xterm("!" + v.s)
				}
			default:
				f.env[in] = xterm(in.Op.String() + "(" + v.s + ")")
			}
		case *ssa.BinOp:
			f.env[in] = x.binop(in.Op, x.val(f, in.X), x.val(f, in.Y))
		case *ssa.ChangeType:
			f.env[in] = x.val(f, in.X)
		case *ssa.ChangeInterface:
			f.env[in] = x.val(f, in.X)
		case *ssa.MakeInterface:
			v := x.val(f, in.X)
			if v.k == 'C' && v.s == "nil" {
				v = xterm("nil of " + in.X.Type().String()) // is not a nil interface
			}
			f.env[in] = v
			if v.k != 'C' && v.k != 'S' {
				x.assume(s, v, in.X.Type(), true)
			}
		case *ssa.Convert:
			v := x.val(f, in.X)
			if v.k == 'C' && types.Identical(in.X.Type().Underlying(), in.Type().Underlying()) {
				f.env[in] = v
			} else {
				f.env[in] = xterm("conv(" + v.s + ")")
			}
		case *ssa.TypeAssert:
			v := x.val(f, in.X)
			if !in.CommaOk {
				x.assume(s, v, in.AssertedType, true)
				f.env[in] = v
				continue
			}
			var ok xval
			switch x.decides(s, v, in.AssertedType) {
			case 1:
				ok = xconst("true")
			case -1:
				ok = xconst("false")
			default:
				ok = xterm(fmt.Sprintf("is %s %s", v.s, in.AssertedType))
				if x.tests == nil {
					x.tests = map[string]typeTest{}
				}
				x.tests[ok.s] = typeTest{v, in.AssertedType}
			}
			f.env[in] = xval{k: 'Q', list: []xval{v, ok}}
		case *ssa.Extract:
			if t := x.val(f, in.Tuple); t.k == 'Q' && in.Index < len(t.list) {
				f.env[in] = t.list[in.Index]
			} else {
				f.env[in] = xterm(fmt.Sprintf("%s#%d", t.s, in.Index))
			}
		case *ssa.MakeClosure:
			c := xval{k: 'F', s: fmt.Sprintf("%d.%s", f.id, in.Name()), fn: in.Fn.(*ssa.Function)}
			for _, v := range in.Bindings {
				c.free = append(c.free, x.val(f, v))
			}
			f.env[in] = c
		case *ssa.Defer:
			d := adefer{call: in.Common(), fn: x.val(f, in.Common().Value), in: in}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(f, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.RunDefers:
			ds := f.defers
			f.defers = nil
			x.deferred(f, ds, s, func(s *astate) { x.instrs(f, b, i+1, s, done) })
			return
		case *ssa.Call:
			var args []xval
			for _, a := range in.Call.Args {
				args = append(args, x.val(f, a))
			}
			fv := x.val(f, in.Call.Value)
			if x.lists {
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if v, ok := x.listBuiltin(bi.Name(), args, s); ok {
						f.env[in] = v
						continue
					}
				} else if in.Call.IsInvoke() {
					if m := x.method(s, fv, in.Call.Method); m != nil {
						args = append([]xval{fv}, args...)
						fv = xval{k: 'F', s: fnName(m), fn: m}
					}
				}
			}
			if x.call != nil {
				if res, ok := x.call(f, s, in, fv, args); ok {
					if len(res) == 1 {
						f.env[in] = res[0]
					} else if len(res) > 1 {
						f.env[in] = xval{k: 'Q', list: res}
					}
					continue
				}
			}
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
				f.env[in] = x.builtin(bi.Name(), args, f, in)
				continue
			}
			if g := x.followed(f, &in.Call, fv); g != nil && f.depth < x.maxDepth && (!recursive(f, g) || x.knownList(g, args, s) && !(x.forget && nested(f, g) > 5)) {
				env, path := f.env, f.path
				first, list := x.frames+1, x.nlist+1
				returned := map[string]bool{}
				x.exec(f, in, g, args, fv.free, s.clone(), func(_ *aframe, s *astate, res []xval, _ *ssa.Return) {
					if x.forget {
						s, res = s.clone(), append([]xval{}, res...)
						k := s.canonical(res, first, list)
						if returned[k] {
							return
						}
						returned[k] = true
					}
					f2 := *f
					f2.env = make(map[ssa.Value]xval, len(env)+1)
					for k, v := range env {
						f2.env[k] = v
					}
					f2.path = path
					if len(res) == 1 {
						f2.env[in] = res[0]
					} else if len(res) > 1 {
						f2.env[in] = xval{k: 'Q', list: res}
					}
					f2.defers = append([]adefer{}, f.defers...)
					x.instrs(&f2, b, i+1, s.clone(), done)
				})
				return
			}
		case *ssa.If:
			cv := x.val(f, in.Cond)
			if cv.k == 'C' {
				j := 1
				if cv.s == "true" {
					j = 0
				}
				x.block(f, b.Succs[j], b, s, done)
				return
			}
			for j, n := range b.Succs {
				s2 := s.clone()
				if x.learn(s2, cv, j == 0) {
					x.block(f, n, b, s2, done)
				}
			}
			return
		case *ssa.Jump:
			x.block(f, b.Succs[0], b, s, done)
			return
		case *ssa.Return:
			var res []xval
			for _, r := range in.Results {
				res = append(res, x.val(f, r))
			}
			done(f, s, res, in)
			return
		case *ssa.Panic:
			return
		}
	}
}

// knownList: the function is given a list whose elements are known.
func (x *absint) knownList(g *ssa.Function, args []xval, s *astate) bool {
	if !x.lists {
		return false
	}
	for i, p := range g.Params {
		if i >= len(args) {
			break
		}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().Underlying().(*types.Signature); ok {
				continue
			}
			if _, ok := x.listElems(s, args[i]); ok {
				return true
			}
		}
		if i == 0 && g.Signature.Recv() != nil && args[i].k == 'O' && x.ownLists(s, args[i]) {
			return true
		}
		if (types.IsInterface(p.Type()) || x.forget) && args[i].k == 'O' {
			for _, t := range x.typeFacts(s, args[i]) {
				if t.yes && !types.IsInterface(t.t) {
					return true
				}
			}
		}
	}
	return false
}

// ownLists: the object was made by the client with lists whose elements are known.
func (x *absint) ownLists(s *astate, v xval) bool {
	return s.data["\x00known "+v.s] != ""
}

// nested counts the calls of the function which have not returned.
func nested(f *aframe, g *ssa.Function) (n int) {
	for ; f != nil; f = f.up {
		if f.fn == g {
			n++
		}
	}
	return n
}

func recursive(f *aframe, g *ssa.Function) bool {
	for ; f != nil; f = f.up {
		if f.fn == g {
			return true
		}
	}
	return false
}

func (x *absint) followed(f *aframe, c *ssa.CallCommon, fv xval) *ssa.Function {
	if c.IsInvoke() && !x.lists {
		return nil
	}
	if fv.k == 'F' && fv.fn != nil && len(fv.fn.Blocks) > 0 && (fv.fn.Parent() != nil || x.inline != nil && x.inline(fv.fn)) {
		return fv.fn
	}
	return nil
}

func (x *absint) deferred(f *aframe, ds []adefer, s *astate, k func(s *astate)) {
	if len(ds) == 0 {
		k(s)
		return
	}
	d := ds[len(ds)-1]
	if x.call != nil {
		if _, ok := x.call(f, s, d.in.(ssa.CallInstruction), d.fn, d.args); ok {
			x.deferred(f, ds[:len(ds)-1], s, k)
			return
		}
	}
	g := x.followed(f, d.call, d.fn)
	if g == nil || f.depth >= x.maxDepth {
		x.deferred(f, ds[:len(ds)-1], s, k)
		return
	}
	x.exec(f, d.in, g, d.args, d.fn.free, s.clone(), func(_ *aframe, s *astate, _ []xval, _ *ssa.Return) {
		x.deferred(f, ds[:len(ds)-1], s.clone(), k)
	})
}

func (x *absint) zero(s *astate, addr string, t types.Type, depth int) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if depth > 2 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.zero(s, addr+"."+u.Field(i).Name(), u.Field(i).Type(), depth+1)
		}
	case *types.Array:
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			s.mem[addr] = xconst("false")
		case u.Info()&types.IsString != 0:
			s.mem[addr] = xconst(`""`)
		case u.Info()&types.IsNumeric != 0:
			s.mem[addr] = xconst("0")
		}
	default:
		s.mem[addr] = xconst("nil")
	}
}

func (x *absint) builtin(name string, args []xval, f *aframe, in *ssa.Call) xval {
	switch name {
	case "len", "cap":
		if len(args) == 1 {
			if args[0].k == 'C' {
				if args[0].s == "nil" {
					return xconst("0")
				}
				if u, err := strconv.Unquote(args[0].s); err == nil {
					return xconst(strconv.Itoa(len(u)))
				}
			}
			return xterm(name + "(" + args[0].s + ")")
		}
	case "append":
		var l []string
		for _, a := range args {
			l = append(l, a.s)
		}
		return xterm("append(" + strings.Join(l, ",") + ")")
	}
	return xterm(fmt.Sprintf("%d.%s", f.id, in.Name()))
}

// binop normalises comparisons: == and < only, possibly negated.
func (x *absint) binop(op token.Token, a, b xval) xval {
	neg := false
	switch op {
	case token.NEQ:
		op, neg = token.EQL, true
	case token.GEQ:
		op, neg = token.LSS, true
	case token.LEQ:
		op, neg, a, b = token.LSS, true, b, a
	case token.GTR:
		op, a, b = token.LSS, b, a
	}
	res := func(v xval) xval {
		if !neg {
			return v
		}
		if v.k == 'C' {
			return xconst(fmt.Sprint(v.s != "true"))
		}
		if strings.HasPrefix(v.s, "!") {
			return xterm(v.s[1:])
		}
		return xterm("!" + v.s)
	}
	isLen := func(v xval) bool { return v.k == 'T' && strings.HasPrefix(v.s, "len(") }
	switch op {
	case token.EQL:
		if a.k == 'C' && b.k == 'C' {
			return res(xconst(fmt.Sprint(a.s == b.s)))
		}
		if a.k == 'O' && b.k == 'C' || a.k == 'C' && b.k == 'O' { // the address of something
			return res(xconst("false"))
		}
		if a.key() == b.key() {
			return res(xconst("true"))
		}
		if (a.s == "true" || a.s == "false") && a.k == 'C' {
			a, b = b, a
		}
		if b.k == 'C' && (b.s == "true" || b.s == "false") {
			neg = neg != (b.s == "false")
			return res(a)
		}
		if b.s < a.s {
			a, b = b, a
		}
		return res(xterm("(" + a.s + " == " + b.s + ")"))
	case token.LSS:
		if a.k == 'C' && b.k == 'C' {
			m, e1 := strconv.ParseInt(a.s, 10, 64)
			n, e2 := strconv.ParseInt(b.s, 10, 64)
			if e1 == nil && e2 == nil {
				return res(xconst(fmt.Sprint(m < n)))
			}
		}
		// lengths: 0 < len(x) and !(len(x) < 1) are !(len(x) == 0)
		if isLen(b) && a.k == 'C' && a.s == "0" {
			neg = !neg
			return res(x.binop(token.EQL, a, b))
		}
		if isLen(a) && b.k == 'C' && b.s == "1" {
			return res(x.binop(token.EQL, a, xconst("0")))
		}
		return res(xterm("(" + a.s + " < " + b.s + ")"))
	case token.ADD, token.SUB:
		if a.k == 'C' && b.k == 'C' {
			m, e1 := strconv.ParseInt(a.s, 10, 64)
			n, e2 := strconv.ParseInt(b.s, 10, 64)
			if e1 == nil && e2 == nil {
				if op == token.SUB {
					n = -n
				}
				return xconst(fmt.Sprint(m + n))
			}
		}
	}
	return xterm("(" + a.s + " " + op.String() + " " + b.s + ")")
}

// learn records that the condition holds (or not); the result is false if this contradicts what is known.
func (x *absint) learn(s *astate, c xval, val bool) bool {
	k := c.s
	if strings.HasPrefix(k, "!") {
		k, val = k[1:], !val
	}
	if v, ok := s.conds[k]; ok && v != val {
		return false
	}
	if t, ok := x.tests[k]; ok {
		if d := x.decides(s, t.v, t.t); d != 0 && (d == 1) != val {
			return false
		}
		x.assume(s, t.v, t.t, val)
	}
	s.conds[k] = val
	// a slice which is nil is empty
	if val && strings.HasSuffix(k, " == nil)") {
		l := "(0 == len(" + strings.TrimSuffix(strings.TrimPrefix(k, "("), " == nil)") + "))"
		if v, ok := s.conds[l]; ok && !v {
			return false
		}
		s.conds[l] = true
	}
	return true
}

// decides: 1 when the dynamic type of the value is known to be accepted, -1 when it is known not to be.
func (x *absint) decides(s *astate, v xval, t types.Type) int {
	conc := !types.IsInterface(t)
	if v.k == 'C' && v.s == "nil" {
		return -1
	}
	if v.k == 'C' && strings.HasPrefix(v.s, `"`) && conc {
		if types.Identical(t, types.Typ[types.String]) {
			return 1
		}
		if _, ok := t.(*types.Named); !ok {
			return -1
		}
	}
	for _, f := range x.typeFacts(s, v) {
		switch {
		case types.Identical(f.t, t):
			if f.yes {
				return 1
			}
			return -1
		case !f.yes:
		case types.IsInterface(f.t):
			if conc && !types.AssignableTo(t, f.t) {
				return -1
			}
		case conc:
			return -1
		default:
			if types.AssignableTo(f.t, t) {
				return 1
			}
			return -1
		}
	}
	return 0
}

// typeFacts: recorded by conversions, and by the conditions of the path.
func (x *absint) typeFacts(s *astate, v xval) []typeFact {
	l := s.types[v.s]
	return l
}

func (x *absint) assume(s *astate, v xval, t types.Type, yes bool) {
	for _, f := range s.types[v.s] {
		if f.yes == yes && types.Identical(f.t, t) {
			return
		}
	}
	s.types[v.s] = append(s.types[v.s], typeFact{t, yes})
}

// newList is a slice with the given elements.
func (x *absint) newList(s *astate, elems []xval) xval {
	x.nlist++
	l := xval{k: 'O', s: fmt.Sprintf("list%d", x.nlist)}
	s.data["\x00len "+l.s] = strconv.Itoa(len(elems))
	for i, e := range elems {
		s.mem[fmt.Sprintf("%s[%d]", l.s, i)] = e
	}
	return l
}

// listElems: the elements of a slice whose length is known.
func (x *absint) listElems(s *astate, v xval) ([]xval, bool) {
	if v.k == 'C' && v.s == "nil" {
		return nil, true
	}
	n, ok := s.data["\x00len "+v.s]
	if v.k != 'O' || !ok {
		return nil, false
	}
	k, err := strconv.Atoi(n)
	if err != nil {
		return nil, false
	}
	var l []xval
	for i := 0; i < k; i++ {
		l = append(l, s.load(fmt.Sprintf("%s[%d]", v.s, i)))
	}
	return l, true
}

func (x *absint) listBuiltin(name string, args []xval, s *astate) (xval, bool) {
	switch name {
	case "len":
		if l, ok := x.listElems(s, args[0]); ok {
			return xconst(strconv.Itoa(len(l))), true
		}
	case "copy":
		a, ok := x.listElems(s, args[0])
		b, ok2 := x.listElems(s, args[1])
		if ok && ok2 {
			n := 0
			for ; n < len(a) && n < len(b); n++ {
				s.mem[fmt.Sprintf("%s[%d]", args[0].s, n)] = b[n]
			}
			return xconst(strconv.Itoa(n)), true
		}
	case "append":
		a, ok := x.listElems(s, args[0])
		b, ok2 := x.listElems(s, args[1])
		if ok && ok2 {
			return x.newList(s, append(append([]xval{}, a...), b...)), true
		}
	}
	return xval{}, false
}

// method: the method of the known dynamic type of a value.
func (x *absint) method(s *astate, v xval, m *types.Func) *ssa.Function {
	for _, f := range x.typeFacts(s, v) {
		if f.yes && !types.IsInterface(f.t) {
			sel := x.w.Prog.MethodSets.MethodSet(f.t).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				return nil
			}
			return x.w.Prog.MethodValue(sel)
		}
	}
	return nil
}

// counted: the condition of the loop is known when its head is reached from the given block.
func (x *absint) counted(f *aframe, b, from *ssa.BasicBlock, s *astate) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	env := map[ssa.Value]xval{}
	get := func(v ssa.Value) xval {
		if r, ok := env[v]; ok {
			return r
		}
		return x.val(f, v)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			for i, p := range b.Preds {
				if p == from {
					env[in] = x.val(f, in.Edges[i])
				}
			}
		case *ssa.BinOp:
			env[in] = x.binop(in.Op, get(in.X), get(in.Y))
		case *ssa.Call:
			bi, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			v, ok := x.listBuiltin("len", []xval{get(in.Call.Args[0])}, s)
			if !ok {
				return false
			}
			env[in] = v
		case *ssa.If:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
			env[in] = x.loadAddr(s, addrOf(get(in.X)))
		case *ssa.FieldAddr:
			env[in] = xval{k: 'O', s: addrOf(get(in.X)) + "." + xfield(in)}
		default:
			return false
		}
	}
	return get(iff.Cond).k == 'C'
}

// zeroOf: the zero value of a type.
func zeroOf(t types.Type) xval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return xconst(`""`)
		case u.Info()&types.IsBoolean != 0:
			return xconst("false")
		case u.Info()&types.IsNumeric != 0:
			return xconst("0")
		}
	}
	return xconst("nil")
}
