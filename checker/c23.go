package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: the command reports failure of any file and writes each result where asked.

func init() {
	register(&checkDef{id: "C23", title: "The command reports failure of any file and writes each result where asked", run: runC23,
		explanation: "The command is followed from main along all its paths, through its helpers: the options are found from the variables they are bound to, the function which handles the sources from where it is given to the command. Each iteration over the arguments ends with exactly one conversion, of the argument itself, with the settings of the options and the writer which the options ask for (on paths where the tests of the options allow it), the file being made anew, never over the source, and closed after the conversion; each failure (creation, conversion, flush, close) which a path does not exclude is in the error returned or carried to the next iterations and returned at the end; a return which may be without error needs all arguments to be done. Nothing but errors goes from one iteration to the next one. An error of the command makes the process exit with a non-zero status. Options are split at the first `=` only. Every other failure in the functions given to the command is returned as well, except for those of messages and of looking whether a file exists.",
		assumptions: []string{"cobra and pflag give the values as they are on the command line (StringArray: one value per option)"}})
}

type cliCheck struct {
	w     *World
	r     *Report
	res   map[string]string
	where map[string]string
	order []string

	flags map[string]string // name -> function which binds it
	cells map[string]string // address -> name
	runs  []xval
	start *astate

	converts, created, attrs int

	errs   map[string]bool
	filled map[string]bool // maps of attributes filled in the function itself
}

var cliOptions = []struct{ name, short, kind, role string }{
	{"out-file", "o", "String", "destination"},
	{"css", "", "StringArray", "WithCSS"},
	{"attribute", "a", "StringArray", "WithAttributes"},
	{"backend", "b", "String", "WithBackEnd"},
	{"no-header-footer", "s", "Bool", "WithHeaderFooter"},
}

func runC23(w *World, r *Report) {
	w.buildCallGraph()
	c := &cliCheck{w: w, r: r, res: map[string]string{}, where: map[string]string{}, flags: map[string]string{}, cells: map[string]string{}, errs: map[string]bool{}, filled: map[string]bool{}}
	c.process()
	c.options()
	n := 0
	for _, fv := range c.runs {
		n += c.sources(fv)
	}
	c.attributes()
	c.flush()
	r.Floor("functions which handle the sources", n, 1)
	r.Floor("conversions", c.converts, 1)
	r.Floor("files created", c.created, 1)
	r.Floor("attributes of the options", c.attrs, 1)
	r.Floor("errors followed", len(c.errs), 4)
}

func (c *cliCheck) inCmd(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && c.w.inScopeFn(f)
}

func (c *cliCheck) note(rule, construct, pos, bad string) {
	k := rule + "|" + construct
	if old, ok := c.res[k]; !ok {
		c.order = append(c.order, k)
		c.res[k], c.where[k] = bad, pos
	} else if old == "" && bad != "" {
		c.res[k], c.where[k] = bad, pos
	}
}

func (c *cliCheck) flush() {
	sort.Strings(c.order)
	for _, k := range c.order {
		i := strings.IndexByte(k, '|')
		c.r.Check(k[:i], k[i+1:], c.where[k], c.res[k] == "", c.res[k])
	}
}

// extName: package and name of a function, or type and name of a method.
func extName(g *ssa.Function) string {
	if g == nil {
		return ""
	}
	if rcv := g.Signature.Recv(); rcv != nil {
		return typeName(deref(rcv.Type())) + "." + g.Name()
	}
	if g.Pkg != nil {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	if o := g.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + g.Name()
	}
	return g.Name()
}

// elements: the values of a slice made in the function, by index.
func elements(s *astate, v xval) ([]xval, bool) {
	if v.list != nil {
		return v.list, true
	}
	if v.k == 'C' && v.s == "nil" {
		return nil, true
	}
	if v.k != 'O' {
		return nil, false
	}
	m := map[string]xval{}
	for k, e := range s.mem {
		if strings.HasPrefix(k, v.s+"[") && strings.HasSuffix(k, "]") {
			m[k[len(v.s)+1:len(k)-1]] = e
		}
	}
	for k, from := range s.link {
		if strings.HasPrefix(k, v.s+"[") && strings.HasSuffix(k, "]") {
			m[k[len(v.s)+1:len(k)-1]] = xval{k: 'S', s: from}
		}
	}
	var l []xval
	for i := 0; i < len(m); i++ {
		e, ok := m[fmt.Sprint(i)]
		if !ok {
			return nil, false
		}
		l = append(l, e)
	}
	return l, true
}

// callTerm: the result of a call which is not followed.
func callTerm(s *astate, name string, in ssa.CallInstruction, args []xval) []xval {
	var l []string
	sig := in.Common().Signature()
	for i, a := range args {
		if sig.Variadic() && i == len(args)-1 {
			if e, ok := elements(s, a); ok {
				var k []string
				for _, x := range e {
					k = append(k, x.s)
				}
				l = append(l, "["+strings.Join(k, ",")+"]")
				continue
			}
		}
		l = append(l, a.s)
	}
	t := name + "(" + strings.Join(l, ",") + ")"
	n := sig.Results().Len()
	if n == 1 {
		return []xval{xterm(t)}
	}
	var out []xval
	for i := 0; i < n; i++ {
		out = append(out, xterm(fmt.Sprintf("%s#%d", t, i)))
	}
	return out
}

func unquoted(v xval) (string, bool) {
	if v.k == 'C' && len(v.s) >= 2 && v.s[0] == '"' {
		return strings.Trim(v.s, `"`), true
	}
	return "", false
}

// flag: options bound to variables.
func (c *cliCheck) flag(g *ssa.Function, s *astate, args []xval, pos string) ([]xval, bool) {
	if g == nil || g.Signature.Recv() == nil || !strings.HasSuffix(typeName(deref(g.Signature.Recv().Type())), ".FlagSet") {
		return nil, false
	}
	n := g.Name()
	if strings.HasPrefix(n, "Get") && len(args) == 2 {
		if name, ok := unquoted(args[1]); ok {
			return []xval{xterm("flag " + name), xconst("nil")}, true
		}
	}
	kind := n
	at := 1
	ptr := xval{}
	isVar := strings.HasSuffix(n, "Var") || strings.HasSuffix(n, "VarP")
	if isVar {
		kind = strings.TrimSuffix(strings.TrimSuffix(n, "P"), "Var")
		ptr, at = args[1], 2
	} else if strings.HasSuffix(n, "P") {
		kind = strings.TrimSuffix(n, "P")
	}
	if at >= len(args) {
		return nil, false
	}
	name, ok := unquoted(args[at])
	if !ok {
		return nil, false
	}
	short := ""
	if strings.HasSuffix(n, "P") && at+1 < len(args) {
		short, _ = unquoted(args[at+1])
	}
	if !isVar {
		if g.Signature.Results().Len() != 1 {
			return nil, false
		}
		ptr = xval{k: 'O', s: "flagcell " + name}
	}
	if ptr.k != 'O' {
		c.note("option", name, pos, "the variable of the option is not known")
		return nil, false
	}
	if other, ok := c.cells[ptr.s]; ok && other != name {
		c.note("option", name, pos, "the variable is also the one of the option "+other)
	}
	c.cells[ptr.s] = name
	c.flags[name] = kind + "|" + short + "|" + pos
	if isVar {
		return nil, true
	}
	return []xval{ptr}, true
}

func (c *cliCheck) options() {
	for _, o := range cliOptions {
		f, ok := c.flags[o.name]
		if !ok {
			c.note("option", o.name, "", "the option is not bound to a variable")
			continue
		}
		l := strings.SplitN(f, "|", 3)
		bad := ""
		if l[0] != o.kind {
			bad = "the option is bound with " + l[0] + "; its values are only complete with " + o.kind
		} else if l[1] != o.short {
			bad = "the short name of the option is not " + o.short
		}
		c.note("option", o.name, l[2], bad)
	}
}

// process: what main does of the result of the command.
func (c *cliCheck) process() {
	var main *ssa.Function
	for _, f := range c.w.Funcs {
		if c.inCmd(f) && f.Name() == "main" && f.Parent() == nil && f.Signature.Recv() == nil {
			main = f
		}
	}
	if main == nil {
		c.r.Floor("main functions", 0, 1)
		return
	}
	x := &absint{w: c.w, inline: c.inCmd}
	seen := map[*ssa.Function]bool{}
	x.visit = func(f *aframe, s *astate, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !strings.Contains(xfield(fa), "Run") || typeName(deref(fa.X.Type())) != "cobra.Command" {
			return
		}
		if v := x.val(f, st.Val); v.k == 'F' && v.fn != nil && !seen[v.fn] {
			seen[v.fn] = true
			c.runs = append(c.runs, v)
		}
	}
	executed := 0
	x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fv xval, args []xval) ([]xval, bool) {
		g := fv.fn
		if res, ok := c.flag(g, s, args, c.w.pos(in.Pos())); ok {
			return res, true
		}
		n := extName(g)
		switch {
		case strings.HasPrefix(n, "Command.Execute") || strings.HasPrefix(n, "cobra.Command.Execute"):
			executed++
			s.data["executed"] = "1"
			c.start = s.clone()
			l := callTerm(s, "execute", in, nil)
			l[len(l)-1] = xterm("execute")
			return l, true
		case n == "os.Exit":
			if s.data["exit"] == "" {
				s.data["exit"] = args[0].s
			}
			return nil, true
		case n == "cobra.CheckErr":
			if len(args) == 1 && args[0].s == "execute" {
				s.data["checked"] = "1"
			}
			return nil, true
		case strings.Contains(n, "logrus.Fatal") || strings.HasPrefix(n, "log.Fatal"):
			if s.data["exit"] == "" {
				s.data["exit"] = "1"
			}
			return nil, true
		}
		if in.Common().IsInvoke() || g == nil || c.inCmd(g) {
			return nil, false
		}
		if _, ok := in.(*ssa.Call); !ok {
			return nil, false
		}
		return callTerm(s, n, in, args), true
	}
	x.run(main, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		pos := c.w.pos(main.Pos())
		if s.data["executed"] == "" {
			if s.data["exit"] == "" || s.data["exit"] == "0" {
				c.note("exit", "main", pos, "the command is not executed")
			}
			return
		}
		ok, known := s.conds[x.binop(token.EQL, xterm("execute"), xconst("nil")).s]
		exit := s.data["exit"]
		switch {
		case known && ok:
			c.note("exit", "main, success", pos, tern(exit == "" || exit == "0", "", "the status is not zero when the command succeeds"))
		case exit == "" && s.data["checked"] != "":
			c.note("exit", "main, failure", pos, "")
		default:
			// constants only: a number which is not zero
			c.note("exit", "main, failure", pos, tern(exit != "" && exit != "0" && strings.Trim(exit, "0123456789") == "", "", "the process may end with the status zero although the command failed"))
		}
	})
	if x.over {
		c.note("exit", "main", c.w.pos(main.Pos()), "too many paths")
	}
	c.r.Floor("executions of the command", executed, 1)
}

func inIteration(s *astate) bool { return s.data["iter"] != "" }

// sources: the function which handles the arguments.
func (c *cliCheck) sources(fv xval) int {
	if c.start == nil {
		return 0
	}
	name := fnName(topFunc(fv.fn))
	handles := c.convertsFiles(fv.fn)
	if !handles {
		name = fnName(fv.fn)
	}
	s0 := c.start.clone()
	s0.conds, s0.types, s0.data = map[string]bool{}, map[string][]typeFact{}, map[string]string{}
	for a, n := range c.cells {
		s0.mem[a] = xterm("flag " + n)
	}
	x := &absint{w: c.w, inline: func(g *ssa.Function) bool { return c.inCmd(g) && c.relevant(g) }, maxDepth: 8}
	nilErr := func(s *astate, e string) (bool, bool) {
		if e == "nil" {
			return true, true
		}
		v, ok := s.conds[x.binop(token.EQL, xterm(e), xconst("nil")).s]
		return v, ok
	}
	failures := func(s *astate) []string {
		var l []string
		for k, e := range s.data {
			if strings.HasPrefix(k, "err:") {
				if ok, known := nilErr(s, e); !known || !ok {
					l = append(l, e)
				}
			}
		}
		sort.Strings(l)
		return l
	}
	// keeps: the value is an error when one of these is
	keeps := func(s *astate, v xval, e string) bool {
		if mentions(v.s, e) {
			return true
		}
		for _, p := range []string{"errors.New(", "errors.Errorf(", "fmt.Errorf("} {
			if strings.HasPrefix(v.s, p) {
				return true
			}
		}
		if ok, known := nilErr(s, v.s); v.k == 'T' && known && !ok {
			return true
		}
		// all errors in there are looked at: one is known not to be nil
		for k, o := range s.data {
			if strings.HasPrefix(k, "err:") && strings.Contains(v.s, o) {
				if ok, known := nilErr(s, o); known && !ok {
					return true
				}
			}
		}
		return false
	}
	carried := map[string]bool{}
	heads := map[*ssa.BasicBlock]bool{}
	isArgs := func(v xval) bool { return v.s == "args" }
	x.visit = func(f *aframe, s *astate, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.IndexAddr:
			if isArgs(x.val(f, in.X)) {
				if _, ok := in.Index.(*ssa.Const); ok {
					return
				}
				s.data["iter"] = "1"
				s.data["elem"] = "*args[" + x.val(f, in.Index).s + "]"
				if !fullRange(in.Index) {
					c.note("each-source", name, c.w.pos(in.Pos()), "the iteration does not go through all arguments")
				}
				for _, h := range f.fn.Blocks {
					if inLoop(in.Block(), h) {
						heads[h] = true
					}
				}
			}
		case *ssa.MakeMap:
			if inIteration(s) {
				s.data[fmt.Sprintf("made:%d.%s", f.id, in.Name())] = "1"
			}
		case *ssa.MapUpdate:
			m := x.val(f, in.Map)
			if strings.Contains(x.val(f, in.Key).s, "flag attribute") {
				c.filled[m.s] = true
			}
			if inIteration(s) && s.data["made:"+m.s] == "" {
				c.note("isolated", name, c.w.pos(in.Pos()), "a map which is used for all sources is changed while one is handled")
			}
		}
	}
	x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fv xval, args []xval) ([]xval, bool) {
		g := fv.fn
		pos := c.w.pos(in.Pos())
		if bi, ok := in.Common().Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" && len(args) == 2 {
				a, ok1 := elements(s, args[0])
				b, ok2 := elements(s, args[1])
				if ok1 && ok2 {
					v := xterm("append(" + args[0].s + "," + args[1].s + ")")
					v.list = append(append([]xval{}, a...), b...)
					var k []string
					for _, e := range v.list {
						k = append(k, e.s)
					}
					v.s = "append(" + strings.Join(k, ",") + ")"
					return []xval{v}, true
				}
				if ok2 {
					var k []string
					for _, e := range b {
						k = append(k, e.s)
					}
					return []xval{xterm("append(" + args[0].s + ",[" + strings.Join(k, ",") + "])")}, true
				}
			}
			return nil, false
		}
		if in.Common().IsInvoke() {
			switch in.Common().Method.Name() {
			case "Close":
				if _, ok := in.(*ssa.Defer); ok || s.data["deferred"] != "" {
					return nil, false
				}
				return c.closes(s, in, fv, pos, name), true
			}
			return nil, false
		}
		if res, ok := c.flag(g, s, args, pos); ok {
			return res, true
		}
		n := extName(g)
		switch {
		case n == "cobra.Command.OutOrStdout":
			return []xval{xterm("stdout")}, true
		case n == "os.File.Close":
			return c.closes(s, in, args[0], pos, name), true
		case n == "os.Create" || n == "os.OpenFile":
			c.created++
			bad := ""
			if n == "os.OpenFile" && (len(args) < 2 || args[1].k != 'C' || !truncates(args[1].s)) {
				bad = "the file is not created anew"
			}
			c.note("destination", name+" (file)", pos, tern(bad != "", bad, c.destination(s, args[0].s)))
			c.note("source-kept", name, pos, tern(c.notSource(x, s, args[0].s), "", "the file may be the source, whose content is lost before it is read"))
			l := callTerm(s, n, in, args)
			l[0] = xval{k: 'T', s: "file(" + args[0].s + ")"}
			s.data["err:"+l[1].s] = l[1].s
			c.errs[pos] = true
			s.data["file:"+l[0].s] = l[1].s
			return l, true
		case n == "configuration.NewConfiguration":
			v := xterm("config")
			e, ok := elements(s, args[0])
			if ok {
				v.list = e
				var k []string
				for _, a := range e {
					k = append(k, a.s)
				}
				v.s = "config{" + strings.Join(k, ";") + "}"
			}
			return []xval{v}, true
		case strings.HasPrefix(n, "configuration.With") && len(args) == 1:
			return []xval{{k: 'T', s: "setting " + g.Name() + "=" + args[0].key()}}, true
		case n == "libasciidoc.ConvertFile" || n == "libasciidoc.Convert":
			c.converts++
			s.data["converted"] += "1"
			c.conversion(x, s, name, pos, args)
			l := callTerm(s, n, in, args)
			l[len(l)-1] = xterm("conversion of " + s.data["elem"])
			e := l[len(l)-1].s
			s.data["err:"+e] = e
			c.errs[pos] = true
			return l, true
		case strings.HasSuffix(n, ".Flush") || strings.HasSuffix(n, ".Sync"):
			l := callTerm(s, n, in, args)
			s.data["err:"+l[0].s] = l[0].s
			if len(args) > 0 {
				s.data["flushed:"+args[0].s] = s.data["converted"]
			}
			return l, true
		case g == nil || c.inCmd(g) && c.relevant(g):
			return nil, false
		case g.Parent() != nil:
			return nil, false
		}
		if _, ok := in.(*ssa.Call); !ok {
			return nil, false
		}
		l := callTerm(s, n, in, args)
		sig := in.Common().Signature()
		if k := sig.Results().Len(); k > 0 && isErrorType(sig.Results().At(k-1).Type()) {
			switch {
			case strings.HasPrefix(n, "errors.Wrap") || strings.HasPrefix(n, "errors.WithMessage") || n == "errors.WithStack":
				return args[:1], true // nil if and only if the error is
			case n == "errors.New" || n == "errors.Errorf" || n == "fmt.Errorf":
				x.learn(s, x.binop(token.EQL, l[0], xconst("nil")), false)
			case strings.HasPrefix(n, "fmt.") || n == "os.Stat" || n == "os.Lstat" || strings.HasPrefix(n, "errors."):
			default:
				c.errs[c.w.pos(in.Pos())] = true
				e := l[len(l)-1].s
				s.data["err:"+e] = e
			}
		}
		return l, true
	}
	x.loop = func(f *aframe, s *astate, head *ssa.BasicBlock) {
		if !inIteration(s) || !heads[head] {
			return
		}
		pos := ""
		for _, in := range head.Instrs {
			if in.Pos().IsValid() {
				pos = c.w.pos(in.Pos())
				break
			}
		}
		if pos == "" {
			pos = c.w.pos(f.fn.Pos())
		}
		fails := failures(s)
		// the errors which go to the next iterations
		var vals []xval
		lost := ""
		for _, in := range head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			t := phi.Type()
			if sl, ok := t.Underlying().(*types.Slice); ok {
				t = sl.Elem()
			}
			if !isErrorType(t) {
				continue
			}
			p := fmt.Sprintf("%d.%s", f.id, phi.Name())
			for i, pr := range head.Preds {
				if pr != x.from {
					continue
				}
				v := x.val(f, phi.Edges[i])
				vals = append(vals, v)
				if was, known := nilErr(s, p); !(known && was) && !mentions(v.s, p) && !keeps(s, v, p) {
					if r, known := nilErr(s, v.s); !known || r || v.k == 'C' {
						lost = "the failure of a source is forgotten by the next ones"
					}
				}
				carried[p] = true
			}
		}
		c.note("reported", name+" (next source)", pos, lost)
		for _, e := range fails {
			ok := false
			for _, v := range vals {
				if keeps(s, v, e) {
					ok = true
				}
			}
			c.note("reported", name+" (next source)", pos, tern(ok, "", "a source may fail ("+e+") without the command failing"))
		}
		kept := false
		for _, v := range vals {
			if r, known := nilErr(s, v.s); known && !r {
				kept = true
			}
			for _, e := range fails {
				if keeps(s, v, e) {
					kept = true
				}
			}
		}
		conv := s.data["converted"]
		switch {
		case conv == "" && !kept:
			c.note("each-source", name, pos, "a source may be skipped")
		case len(conv) > 1:
			c.note("each-source", name, pos, "a source is converted several times")
		default:
			c.note("each-source", name, pos, "")
		}
		c.closed(x, s, name, pos)
	}
	x.run(fv.fn, []xval{xterm("cmd"), xterm("args")}, fv.free, s0, func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		pos := c.w.pos(ret.Pos())
		if !ret.Pos().IsValid() {
			pos = c.w.pos(f.fn.Pos())
		}
		out := xconst("nil")
		if len(res) > 0 {
			out = res[len(res)-1]
		}
		for _, e := range failures(s) {
			c.note("reported", name, pos, tern(keeps(s, out, e), "", "the command may succeed although "+e+" failed"))
		}
		c.closed(x, s, name, pos)
		if !handles {
			return
		}
		if s.data["converted"] != "" && !inIteration(s) {
			c.note("each-source", name, pos, "what is converted is not one of the arguments")
		}
		done := false
		for k, v := range s.conds {
			if !v && strings.HasSuffix(k, " < len(args))") || v && strings.Contains(k, "0 == len(args)") {
				done = true
			}
		}
		fails := false
		if r, known := nilErr(s, out.s); known && !r || out.k == 'T' && strings.HasPrefix(out.s, "errors.") {
			fails = true
		}
		for k, e := range s.data {
			if r, known := nilErr(s, e); strings.HasPrefix(k, "err:") && strings.Contains(out.s, e) && known && !r {
				fails = true
			}
		}
		if out.k != 'C' && !done && !inIteration(s) {
			// an error which is not about the sources
			if r, known := nilErr(s, out.s); !known || !r {
				fails = true
			}
		}
		if !done && !fails {
			c.note("each-source", name, pos, "the command may end without error before all sources are handled")
		}
		if done && !inIteration(s) {
			for p := range carried {
				if r, known := nilErr(s, p); (!known || !r) && !keeps(s, out, p) && !mentions(out.s, p) {
					if known && !r && fails {
						continue
					}
					if empty, known := s.conds["(0 == len("+p+"))"]; known && empty {
						continue
					}
					c.note("reported", name, pos, "the failures of the sources are not returned at the end")
				}
			}
		}
	})
	if x.over {
		c.note("each-source", name, c.w.pos(fv.fn.Pos()), "too many paths")
	}
	if !handles {
		return 0
	}
	return 1
}

// mentions: the term has the other one in it.
func mentions(t, p string) bool {
	for i := 0; ; {
		j := strings.Index(t[i:], p)
		if j < 0 {
			return false
		}
		k := i + j + len(p)
		if k == len(t) || t[k] < '0' || t[k] > '9' {
			return true
		}
		i = k
	}
}

// fullRange: an index which goes from the first element on, one after another.
func fullRange(v ssa.Value) bool {
	one := func(v ssa.Value, n string) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() == n
	}
	step := func(v ssa.Value) (*ssa.Phi, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !one(b.Y, "1") {
			return nil, false
		}
		p, ok := b.X.(*ssa.Phi)
		return p, ok
	}
	if p, ok := step(v); ok { // range
		for _, e := range p.Edges {
			if e != v && !one(e, "-1") {
				return false
			}
		}
		return true
	}
	if p, ok := v.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			if q, ok := step(e); !(ok && q == p) && !one(e, "0") {
				return false
			}
		}
		return true
	}
	return false
}

func truncates(flags string) bool {
	n := 0
	if _, err := fmt.Sscan(flags, &n); err != nil {
		return false
	}
	const create, trunc, excl = 0x40, 0x200, 0x80
	return n&create != 0 && n&(trunc|excl) != 0
}

// relevant: functions which are followed, all but those which only make the map of the attributes.
func (c *cliCheck) relevant(f *ssa.Function) bool {
	for _, in := range instrs(f) {
		if mu, ok := in.(*ssa.MapUpdate); ok && isAttributeMap(mu.Map.Type()) {
			return c.convertsFiles(f)
		}
	}
	return true
}

func (c *cliCheck) convertsFiles(f *ssa.Function) bool {
	for g := range c.w.reachable(f) {
		if !c.inCmd(g) {
			continue
		}
		for _, in := range instrs(g) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if n := extName(ci.Common().StaticCallee()); n == "libasciidoc.ConvertFile" || n == "libasciidoc.Convert" {
					return true
				}
			}
		}
	}
	return false
}

func (c *cliCheck) closes(s *astate, in ssa.CallInstruction, v xval, pos, name string) []xval {
	if _, ok := s.data["file:"+v.s]; ok {
		s.data["closed:"+v.s] = "1"
		if w := s.data["wrapped:"+v.s]; w != "" && s.data["flushed:"+w] == "" {
			c.note("written", name, pos, "the file is closed before what is kept for it is written")
		}
	}
	e := xterm(fmt.Sprintf("close(%s) at %s", v.s, fmt.Sprint(in.Pos())))
	s.data["err:"+e.s] = e.s
	return []xval{e}
}

func (c *cliCheck) closed(x *absint, s *astate, name, pos string) {
	for k, e := range s.data {
		if !strings.HasPrefix(k, "file:") {
			continue
		}
		if ok, known := s.conds[x.binop(token.EQL, xterm(e), xconst("nil")).s]; known && !ok {
			continue
		}
		c.note("written", name, pos, tern(s.data["closed:"+k[5:]] != "", "", "the file is not closed, whose failure would be reported"))
	}
}

// conversion: the arguments of the conversion of a source.
func (c *cliCheck) conversion(x *absint, s *astate, name, pos string, args []xval) {
	if len(args) != 2 {
		c.note("settings", name, pos, "the conversion is not the one of a file")
		return
	}
	out, conf := args[0], args[1]
	elem := s.data["elem"]
	if elem == "" {
		elem = "?"
	}
	// destination
	w := out.s
	if strings.HasPrefix(w, "bufio.NewWriter") {
		w = strings.TrimSuffix(w[strings.IndexByte(w, '(')+1:], ")")
		if i := strings.LastIndexByte(w, ','); i > 0 && strings.HasPrefix(out.s, "bufio.NewWriterSize") {
			w = w[:i]
		}
		s.data["wrapped:"+w] = out.s
	}
	for k, e := range s.data {
		// a failure of the creation which is not looked at
		if strings.HasPrefix(k, "err:os.") {
			if v, known := s.conds[x.binop(token.EQL, xterm(e), xconst("nil")).s]; !known || !v {
				c.note("destination", name+" (created)", pos, "the file may not have been created")
			}
		}
	}
	switch {
	case w == "stdout" || w == "*global Stdout":
		bad := "the result is written on the standard output although a file is asked for"
		for k, v := range s.conds {
			if v && (k == `("-" == flag out-file)` || k == `("" == `+elem+`)`) {
				bad = ""
			}
		}
		c.note("destination", name+" (standard output)", pos, bad)
	case s.data["file:"+w] != "":
		bad := ""
		if s.data["closed:"+w] != "" {
			bad = "the file is closed before the conversion"
		} else if !strings.Contains(w, elem) && w != "file(flag out-file)" {
			bad = "the file is not the one of this source"
		}
		c.note("destination", name+" (file)", pos, bad)
	default:
		c.note("destination", name, pos, "the result is written neither in the file nor on the standard output: "+out.s)
	}
	// settings
	if conf.list == nil {
		c.note("settings", name, pos, "the configuration is not made of the options")
		return
	}
	got := map[string]string{}
	for _, e := range conf.list {
		if t := strings.TrimPrefix(e.s, "setting "); t != e.s {
			i := strings.IndexByte(t, '=')
			got[t[:i]] = t[i+1:]
		}
	}
	if v, ok := s.mem[conf.s+".Filename"]; ok {
		got["WithFilename"] = v.key()
	}
	c.note("settings", name+" (source)", pos, tern(got["WithFilename"] == "T"+elem, "", "the source which is converted is not the argument"))
	is := func(cond string, val bool) bool { v, ok := s.conds[cond]; return ok && v == val }
	for _, o := range cliOptions[1:] {
		v, ok := got[o.role]
		want := "flag " + o.name
		good := false
		switch o.role {
		case "WithHeaderFooter":
			good = v == "T!"+want || v == "Cfalse" && is(want, true) || v == "Ctrue" && is(want, false) || !ok && is(want, true)
		case "WithAttributes":
			good = strings.Contains(v, want) || strings.HasPrefix(v, "O") && c.filled[v[1:]]
			good = good || !ok && is("(0 == len("+want+"))", true)
		default:
			good = v == "T"+want || !ok && (is("(0 == len("+want+"))", true) || is(`("" == `+want+`)`, true))
		}
		c.note("settings", name+" ("+o.name+")", pos, tern(good, "", "the option is not given to the conversion"))
	}
}

// destination: the path on which the file is created.
func (c *cliCheck) destination(s *astate, p string) string {
	elem := s.data["elem"]
	is := func(k string, val bool) bool { v, ok := s.conds[k]; return ok && v == val }
	if is(`("-" == flag out-file)`, true) {
		return "a file is created although the standard output is asked for"
	}
	if !is(`("-" == flag out-file)`, false) {
		return "a file is created before it is known whether the standard output is asked for"
	}
	if p == "flag out-file" {
		return tern(is(`("" == flag out-file)`, false) || is(`(0 == len(flag out-file))`, false), "", "the name of the file may be empty")
	}
	if !is(`("" == flag out-file)`, true) && !is(`(0 == len(flag out-file))`, true) {
		return "the file is not the one which is asked for"
	}
	if elem == "" {
		return "the file is not named after the source"
	}
	for _, w := range destinations(elem) {
		if w == p {
			return ""
		}
	}
	return "the file is not named after the source, with the extension of HTML files: " + p
}

// destinations: the ways to spell the path of the source with another extension.
func destinations(src string) []string {
	paths := []string{src, "filepath.Abs(" + src + ")#0", "filepath.Clean(" + src + ")", "filepath.Abs(filepath.Clean(" + src + "))#0"}
	var res []string
	for _, p := range paths {
		var exts []string
		for _, q := range paths {
			exts = append(exts, "filepath.Ext("+q+")", "filepath.Ext(filepath.Base("+q+"))", "path.Ext("+q+")")
		}
		stems := func(p string) []string {
			var l []string
			for _, e := range exts {
				l = append(l, "strings.TrimSuffix("+p+","+e+")", "slice("+p+",,(len("+p+") - len("+e+")))", "slice("+p+",0,(len("+p+") - len("+e+")))")
			}
			return l
		}
		html := func(l []string) []string {
			var r []string
			for _, e := range l {
				r = append(r, "("+e+` + ".html")`, `fmt.Sprintf("%s.html",[`+e+"])", `strings.Join([`+e+`,".html"],"")`)
			}
			return r
		}
		res = append(res, html(stems(p))...)
		for _, b := range html(stems("filepath.Base(" + p + ")")) {
			res = append(res, "filepath.Join([filepath.Dir("+p+"),"+b+"])")
		}
	}
	return res
}

// notSource: the file which is created is known not to be the source.
func (c *cliCheck) notSource(x *absint, s *astate, p string) bool {
	elem := s.data["elem"]
	for k, v := range s.conds {
		switch {
		case v && k == `("" == `+elem+`)`:
			return true
		case !v && strings.HasPrefix(k, "os.SameFile(") && strings.Contains(k, "("+p+")") && elem != "" && strings.Contains(k, elem):
			return true
		}
		for _, q := range []string{p, elem} {
			for _, st := range []string{"os.Stat(", "os.Lstat("} {
				e := st + q + ")#1"
				if !v && k == x.binop(token.EQL, xterm(e), xconst("nil")).s {
					return true
				}
				if v && (strings.HasPrefix(k, "os.IsNotExist("+e) || strings.HasPrefix(k, "errors.Is("+e)) {
					return true
				}
			}
		}
	}
	return false
}

// attributes: how the options are split.
func (c *cliCheck) attributes() {
	for _, fn := range c.w.Funcs {
		if !c.inCmd(fn) {
			continue
		}
		updates := false
		for _, in := range instrs(fn) {
			if mu, ok := in.(*ssa.MapUpdate); ok && isAttributeMap(mu.Map.Type()) {
				updates = true
			}
		}
		if !updates {
			continue
		}
		c.attrs++
		c.split(fn)
	}
}

func isAttributeMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && types.IsInterface(m.Elem())
}

func (c *cliCheck) split(fn *ssa.Function) {
	name := fnName(fn)
	x := &absint{w: c.w, inline: c.inCmd}
	elem := ""
	loops := map[*ssa.BasicBlock]bool{}
	isList := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && isText(sl.Elem())
	}
	x.visit = func(f *aframe, s *astate, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.IndexAddr:
			if f.fn == fn && isList(in.X.Type()) && !strings.Contains(x.val(f, in.X).s, "(") && s.data["elem"] == "" {
				if _, ok := in.Index.(*ssa.Const); ok || !together(fn, in.Block()) {
					return
				}
				elem = "*" + addrOf(x.val(f, in.X)) + "[" + x.val(f, in.Index).s + "]"
				s.data["elem"] = elem
				if !fullRange(in.Index) {
					c.note("attributes", name+" (all)", c.w.pos(in.Pos()), "the iteration does not go through all options")
				}
				for _, h := range f.fn.Blocks {
					if inLoop(in.Block(), h) {
						loops[h] = true
					}
				}
			}
		case *ssa.MapUpdate:
			if !isAttributeMap(in.Map.Type()) {
				return
			}
			e := s.data["elem"]
			if e == "" {
				e = "param" // the text is given to the function
				for _, p := range fn.Params {
					if isText(p.Type()) {
						e = "param " + p.Name()
					}
				}
			}
			s.data["updated"] = "1"
			c.note("attributes", name, c.w.pos(in.Pos()), c.entry(s, e, x.val(f, in.Key), x.val(f, in.Value)))
		}
	}
	x.call = func(f *aframe, s *astate, in ssa.CallInstruction, fv xval, args []xval) ([]xval, bool) {
		g := fv.fn
		if g == nil || in.Common().IsInvoke() || c.inCmd(g) || g.Parent() != nil {
			return nil, false
		}
		if _, ok := in.(*ssa.Call); !ok {
			return nil, false
		}
		return callTerm(s, extName(g), in, args), true
	}
	x.loop = func(f *aframe, s *astate, head *ssa.BasicBlock) {
		if s.data["elem"] == "" || !loops[head] || s.data["updated"] != "" {
			return
		}
		if v, ok := s.conds[`("" == `+s.data["elem"]+`)`]; ok && v {
			return
		}
		c.note("attributes", name+" (all)", c.w.pos(fn.Pos()), "an option may be ignored")
	}
	x.run(fn, nil, nil, newAState(), func(f *aframe, s *astate, res []xval, ret *ssa.Return) {
		if s.data["elem"] != "" && s.data["updated"] == "" {
			c.note("attributes", name+" (all)", c.w.pos(ret.Pos()), "an option may be ignored")
		}
		if s.data["elem"] != "" && len(loops) > 0 {
			c.note("attributes", name+" (all)", c.w.pos(ret.Pos()), "the options which follow are ignored")
		}
	})
	if x.over {
		c.note("attributes", name, c.w.pos(fn.Pos()), "too many paths")
	}
}

// together: attributes are set in the loop which has this block.
func together(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, in := range instrs(fn) {
		if mu, ok := in.(*ssa.MapUpdate); ok && isAttributeMap(mu.Map.Type()) {
			for _, h := range fn.Blocks {
				if inLoop(b, h) && inLoop(mu.Block(), h) {
					return true
				}
			}
		}
	}
	return false
}

// entry: the name and the value are the parts of the option before and after its first `=`.
func (c *cliCheck) entry(s *astate, e string, k, v xval) string {
	type form struct {
		key, val string
		has      []string // conditions: there is a `=`
		not      []string // conditions: there is none
	}
	n := "strings.SplitN(" + e + `,"=",2)`
	cut := "strings.Cut(" + e + `,"=")`
	forms := []form{{
		key: "*" + n + "[0]", val: "*" + n + "[1]",
		has: []string{"(1 < len(" + n + "))", "(2 == len(" + n + "))", "!(len(" + n + ") < 2)", "!(1 == len(" + n + "))"},
	}, {
		key: cut + "#0", val: cut + "#1", has: []string{cut + "#2"},
	}}
	for _, ix := range []string{"strings.Index(" + e + `,"=")`, "strings.IndexByte(" + e + ",61)", "strings.IndexRune(" + e + ",61)"} {
		for _, lo := range []string{"", "0"} {
			forms = append(forms, form{
				key: "slice(" + e + "," + lo + "," + ix + ")", val: "slice(" + e + ",(" + ix + " + 1),)",
				has: []string{"!(" + ix + " < 0)", "!(-1 == " + ix + ")", "(-1 < " + ix + ")", "(0 < " + ix + ")"},
			})
		}
	}
	contains := "strings.Contains(" + e + `,"=")`
	known := func(f form, yes bool) bool {
		for _, h := range append(f.has, contains) {
			want := yes
			if strings.HasPrefix(h, "!") {
				h, want = h[1:], !want
			}
			if b, ok := s.conds[h]; ok && b == want {
				return true
			}
		}
		return false
	}
	trim := func(t string) string {
		if strings.HasPrefix(t, "strings.TrimSpace(") {
			return t[len("strings.TrimSpace(") : len(t)-1]
		}
		return t
	}
	key := trim(k.s)
	for _, f := range forms {
		if key == f.key && v.s == f.val {
			if strings.HasPrefix(f.val, "*"+n) && !known(f, true) {
				return "the value may be missing"
			}
			return ""
		}
		if (key == f.key || key == e) && v.k == 'C' && known(f, false) {
			return ""
		}
		if key == e && v.k != 'C' {
			return "the name is the complete option"
		}
	}
	if v.k == 'C' {
		return "the value of the option is lost"
	}
	return "the name and the value are not what comes before and after the first `=`: " + v.s
}
