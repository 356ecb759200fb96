package main

import (
	"fmt"
	"sort"
	"strings"
	"text/template/parse"
)

// Abstract interpretation of templates: every path through the conditions of a
// template yields a sequence of pieces of literal text and holes (the values
// written); the sequence is then read as markup.

type piece struct {
	text string // literal
	hole string // canonical expression of a value written by the template
}

// formula over atoms (conditions of the template)
type formula struct {
	op   string // "atom", "not", "and", "or", "true", "false"
	atom string
	sub  []formula
}

func (f formula) atoms(set map[string]bool) {
	if f.op == "atom" {
		set[f.atom] = true
	}
	for _, s := range f.sub {
		s.atoms(set)
	}
}

func (f formula) eval(env map[string]bool) bool {
	switch f.op {
	case "atom":
		return env[f.atom]
	case "not":
		return !f.sub[0].eval(env)
	case "and":
		for _, s := range f.sub {
			if !s.eval(env) {
				return false
			}
		}
		return true
	case "or":
		for _, s := range f.sub {
			if s.eval(env) {
				return true
			}
		}
		return false
	case "true":
		return true
	}
	return false
}

// canon gives the canonical text of an expression; vars maps the variables of loops and `with` to
// what they stand for.
type canonizer struct {
	vars map[string]string
	dot  string
}

func (c canonizer) node(n parse.Node) string {
	switch n := n.(type) {
	case *parse.DotNode:
		return c.dot
	case *parse.FieldNode:
		return c.dot + "." + strings.Join(n.Ident, ".")
	case *parse.VariableNode:
		v := n.Ident[0]
		if x, ok := c.vars[v]; ok {
			v = x
		}
		if len(n.Ident) > 1 {
			if v == "." {
				v = ""
			}
			v += "." + strings.Join(n.Ident[1:], ".")
		}
		return v
	case *parse.ChainNode:
		return c.node(n.Node) + "." + strings.Join(n.Field, ".")
	case *parse.PipeNode:
		return c.pipe(n)
	case *parse.StringNode:
		return fmt.Sprintf("%q", n.Text)
	}
	return n.String()
}

func (c canonizer) cmd(cmd *parse.CommandNode, final string) string {
	var parts []string
	for _, a := range cmd.Args {
		s := c.node(a)
		if len(cmd.Args) > 1 && strings.Contains(s, " ") && !strings.HasPrefix(s, "\"") {
			s = "(" + s + ")"
		}
		parts = append(parts, strings.TrimPrefix(s, "@"))
	}
	if final != "" {
		if strings.Contains(final, " ") {
			final = "(" + final + ")"
		}
		parts = append(parts, final)
	}
	s := strings.Join(parts, " ")
	// comparison with a constant: constant last
	if len(parts) == 3 && (parts[0] == "eq" || parts[0] == "ne") && isConstText(parts[1]) && !isConstText(parts[2]) {
		s = parts[0] + " " + parts[2] + " " + parts[1]
	}
	return s
}

func isConstText(s string) bool {
	return s != "" && (s[0] == '"' || s[0] >= '0' && s[0] <= '9' || s == "true" || s == "false")
}

func (c canonizer) pipe(p *parse.PipeNode) string {
	s := ""
	for _, cmd := range p.Cmds {
		s = c.cmd(cmd, s)
	}
	return s
}

// cond is the truth of a pipeline as a formula.
func (c canonizer) cond(p *parse.PipeNode) formula {
	if len(p.Cmds) == 1 {
		return c.condCmd(p.Cmds[0])
	}
	return c.atom(c.pipe(p))
}

func (c canonizer) atom(s string) formula {
	// comparisons with the empty text: truth of the text
	if strings.HasPrefix(s, "ne ") && strings.HasSuffix(s, ` ""`) {
		return formula{op: "atom", atom: strings.TrimSuffix(strings.TrimPrefix(s, "ne "), ` ""`)}
	}
	if strings.HasPrefix(s, "eq ") && strings.HasSuffix(s, ` ""`) {
		return formula{op: "not", sub: []formula{{op: "atom", atom: strings.TrimSuffix(strings.TrimPrefix(s, "eq "), ` ""`)}}}
	}
	if strings.HasPrefix(s, "ne ") {
		return formula{op: "not", sub: []formula{{op: "atom", atom: "eq " + s[3:]}}}
	}
	if strings.HasPrefix(s, "len ") && !strings.Contains(s[4:], " ") {
		return formula{op: "atom", atom: s[4:]}
	}
	if strings.HasPrefix(s, "gt (len ") && strings.HasSuffix(s, ") 0") {
		return formula{op: "atom", atom: strings.TrimSuffix(strings.TrimPrefix(s, "gt (len "), ") 0")}
	}
	switch s {
	case "true":
		return formula{op: "true"}
	case "false":
		return formula{op: "false"}
	}
	return formula{op: "atom", atom: s}
}

func (c canonizer) condNode(n parse.Node) formula {
	if p, ok := n.(*parse.PipeNode); ok {
		return c.cond(p)
	}
	return c.atom(c.node(n))
}

func (c canonizer) condCmd(cmd *parse.CommandNode) formula {
	if id, ok := cmd.Args[0].(*parse.IdentifierNode); ok {
		var sub []formula
		switch id.Ident {
		case "and", "or", "not":
			for _, a := range cmd.Args[1:] {
				sub = append(sub, c.condNode(a))
			}
			return formula{op: id.Ident, sub: sub}
		}
	}
	if p, ok := cmd.Args[0].(*parse.PipeNode); ok && len(cmd.Args) == 1 {
		return c.cond(p)
	}
	return c.atom(c.cmd(cmd, ""))
}

// tpath is one path through a template.
type tpath struct {
	env    map[string]bool
	pieces []piece
	loops  map[string]int // number of iterations of the loops which were reached
}

type pathEnum struct {
	max   int
	over  bool
	iters []int
}

type pstateT struct {
	env    map[string]bool
	pieces []piece
	loops  map[string]int
}

func (s pstateT) fork() pstateT {
	e := map[string]bool{}
	for k, v := range s.env {
		e[k] = v
	}
	l := map[string]int{}
	for k, v := range s.loops {
		l[k] = v
	}
	return pstateT{env: e, pieces: append([]piece{}, s.pieces...), loops: l}
}

// enumPaths lists the paths through a template. Conditions on the same expression agree.
func enumPaths(root *parse.ListNode) (paths []tpath, complete bool) {
	return enumPathsFrom(root, nil, nil)
}

// enumPathsFrom lists the paths on which the given conditions and numbers of iterations hold.
func enumPathsFrom(root *parse.ListNode, env map[string]bool, loops map[string]int) (paths []tpath, complete bool) {
	e := &pathEnum{max: 120000, iters: []int{0, 1, 2}}
	c := canonizer{vars: map[string]string{"$": "."}, dot: ""}
	out := e.list(root, c, []pstateT{pstateT{env: env, loops: loops}.fork()})
	for _, s := range out {
		paths = append(paths, tpath{s.env, s.pieces, s.loops})
	}
	return paths, !e.over
}

func (e *pathEnum) split(f formula, in []pstateT) (yes, no []pstateT) {
	set := map[string]bool{}
	f.atoms(set)
	names := sortedKeys(set)
	for _, s := range in {
		var free []string
		for _, n := range names {
			if v, ok := settleConst(n); ok {
				s.env[n] = v
			}
			if _, ok := s.env[n]; !ok {
				free = append(free, n)
			}
		}
		if len(free) > 8 {
			e.over = true
			free = free[:8]
		}
		for k := 0; k < 1<<len(free); k++ {
			x := s.fork()
			for i, n := range free {
				x.env[n] = k&(1<<i) != 0
			}
			if f.eval(x.env) {
				yes = append(yes, x)
			} else {
				no = append(no, x)
			}
		}
	}
	if len(yes)+len(no) > e.max {
		e.over = true
	}
	return
}

func (e *pathEnum) list(l *parse.ListNode, c canonizer, in []pstateT) []pstateT {
	if l == nil {
		return in
	}
	cur := in
	for _, n := range l.Nodes {
		if e.over {
			return cur
		}
		switch n := n.(type) {
		case *parse.TextNode:
			for i := range cur {
				cur[i].pieces = append(cur[i].pieces, piece{text: string(n.Text)})
			}
		case *parse.ActionNode:
			if len(n.Pipe.Decl) > 0 {
				c = c.bind(n.Pipe.Decl[0].Ident[0], c.pipe(n.Pipe))
				continue
			}
			h := c.pipe(n.Pipe)
			if len(n.Pipe.Cmds) == 1 && len(n.Pipe.Cmds[0].Args) == 1 {
				if sn, ok := n.Pipe.Cmds[0].Args[0].(*parse.StringNode); ok {
					for i := range cur {
						cur[i].pieces = append(cur[i].pieces, piece{text: sn.Text})
					}
					continue
				}
			}
			for i := range cur {
				cur[i].pieces = append(cur[i].pieces, piece{hole: h})
			}
		case *parse.IfNode:
			f := c.cond(n.Pipe)
			c2 := c
			for _, d := range n.Pipe.Decl {
				c2 = c2.bind(d.Ident[0], c.pipe(n.Pipe))
			}
			y, no := e.split(f, cur)
			cur = append(e.list(n.List, c2, y), e.list(n.ElseList, c2, no)...)
		case *parse.WithNode:
			ex := c.pipe(n.Pipe)
			c2 := c
			for _, d := range n.Pipe.Decl {
				c2 = c2.bind(d.Ident[0], ex)
			}
			c3 := c2
			c3.dot = ex
			y, no := e.split(c.cond(n.Pipe), cur)
			cur = append(e.list(n.List, c3, y), e.list(n.ElseList, c2, no)...)
		case *parse.RangeNode:
			ex := c.pipe(n.Pipe)
			y, no := e.split(c.atom(ex), cur)
			res := e.list(n.ElseList, c, no)
			for _, k := range e.iters {
				if k == 0 {
					continue
				}
				var st []pstateT
				for _, s := range y {
					if n, ok := s.loops[ex]; ok && n != k {
						continue
					}
					x := s.fork()
					x.loops[ex] = k
					st = append(st, x)
				}
				for i := 0; i < k; i++ {
					c2 := c
					elem := fmt.Sprintf("%s[%d]", ex, i)
					switch len(n.Pipe.Decl) {
					case 1:
						c2 = c2.bind(n.Pipe.Decl[0].Ident[0], elem)
					case 2:
						c2 = c2.bind(n.Pipe.Decl[0].Ident[0], fmt.Sprintf("%d", i)).bind(n.Pipe.Decl[1].Ident[0], elem)
					}
					c2.dot = elem
					st = e.list(n.List, c2, st)
				}
				res = append(res, st...)
			}
			cur = res
		case *parse.CommentNode:
		default:
			e.over = true
		}
		if len(cur) > e.max {
			e.over = true
		}
	}
	return cur
}

func (c canonizer) bind(v, to string) canonizer {
	n := canonizer{vars: map[string]string{}, dot: c.dot}
	for k, x := range c.vars {
		n.vars[k] = x
	}
	n.vars[v] = to
	return n
}

// settle replaces constant comparisons of loop indexes (eq 0 0).
func settleConst(atom string) (bool, bool) {
	p := strings.Fields(atom)
	if len(p) == 3 && p[0] == "eq" && isConstText(p[1]) && isConstText(p[2]) {
		return p[1] == p[2], true
	}
	return false, false
}

// --- markup ---

type mtoken struct {
	kind  string // "start", "end", "text", "doctype", "comment"
	name  string
	attrs [][2]string // name, value; minimised attributes have the value "\x00"
	self  bool
	text  string
	holes []string
	// context of the holes in attributes
	attrHoles []attrHole
}

type attrHole struct{ attr, hole string }

type markupError struct{ msg string }

type lexer struct {
	xml    bool
	tokens []mtoken
	errs   []string
}

const hl, hr = "⟦", "⟧"

// lexMarkup reads pieces as markup. Holes are kept as they are.
func lexMarkup(ps []piece, xml bool) (tokens []mtoken, errs []string, contexts []holeContext) {
	state := "data"
	var cur mtoken
	var text strings.Builder
	var textHoles []string
	var name, aname, aval strings.Builder
	quote := byte(0)
	needSpace := false
	fail := func(f string, a ...interface{}) {
		errs = append(errs, fmt.Sprintf(f, a...))
	}
	flush := func() {
		if text.Len() > 0 {
			tokens = append(tokens, mtoken{kind: "text", text: text.String(), holes: textHoles})
			text.Reset()
			textHoles = nil
		}
	}
	endAttr := func(minimised bool) {
		if aname.Len() == 0 {
			return
		}
		n := aname.String()
		if strings.Trim(strings.ToLower(n), "abcdefghijklmnopqrstuvwxyz0123456789-_:.") != "" {
			fail("the attribute name %q is not valid in <%s>", n, cur.name)
		}
		v := aval.String()
		if minimised {
			v = "\x00"
			if xml {
				fail("the attribute %s of <%s> has no value: this is not allowed in XHTML", n, cur.name)
			}
		}
		for _, a := range cur.attrs {
			if a[0] == n {
				fail("the attribute %s is repeated in <%s>", n, cur.name)
			}
		}
		cur.attrs = append(cur.attrs, [2]string{n, v})
		aname.Reset()
		aval.Reset()
	}
	endTag := func(self bool) {
		cur.self = self
		if cur.kind == "end" && (len(cur.attrs) > 0 || self) {
			fail("the end tag </%s> has attributes", cur.name)
		}
		tokens = append(tokens, cur)
		cur = mtoken{}
		state = "data"
	}
	for _, p := range ps {
		if p.hole != "" {
			h := hl + p.hole + hr
			switch state {
			case "data":
				text.WriteString(h)
				textHoles = append(textHoles, p.hole)
				contexts = append(contexts, holeContext{p.hole, "text", ""})
			case "tagname":
				name.WriteString(h)
				contexts = append(contexts, holeContext{p.hole, "tagname", ""})
			case "value":
				aval.WriteString(h)
				if quote == 0 {
					fail("the value of %s is written outside quotes in the attribute %s of <%s>", p.hole, aname.String(), cur.name)
				}
				contexts = append(contexts, holeContext{p.hole, "attr", aname.String()})
				cur.attrHoles = append(cur.attrHoles, attrHole{aname.String(), p.hole})
			case "comment", "doctype":
			default:
				fail("the value of %s is written inside the tag <%s>, outside any attribute value", p.hole, cur.name)
			}
			continue
		}
		for i := 0; i < len(p.text); i++ {
			ch := p.text[i]
			space := ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'
			switch state {
			case "data":
				if ch == '<' {
					rest := p.text[i+1:]
					switch {
					case strings.HasPrefix(rest, "!--"):
						flush()
						state = "comment"
						i += 3
					case strings.HasPrefix(rest, "!"):
						flush()
						state = "doctype"
						name.Reset()
					case strings.HasPrefix(rest, "/"):
						flush()
						cur = mtoken{kind: "end"}
						name.Reset()
						state = "tagname"
						i++
					case rest != "" && (rest[0] >= 'a' && rest[0] <= 'z' || rest[0] >= 'A' && rest[0] <= 'Z'):
						flush()
						cur = mtoken{kind: "start"}
						name.Reset()
						state = "tagname"
					default:
						fail("a literal < is not the beginning of a tag")
						text.WriteByte(ch)
					}
					continue
				}
				if ch == '&' {
					if e := entityError(p.text[i:], xml); e != "" {
						fail("%s", e)
					}
				}
				if ch == '>' {
					fail("a literal > outside any tag")
				}
				text.WriteByte(ch)
			case "comment":
				if strings.HasPrefix(p.text[i:], "-->") {
					state = "data"
					i += 2
				}
			case "doctype":
				if ch == '>' {
					tokens = append(tokens, mtoken{kind: "doctype", name: name.String()})
					name.Reset()
					state = "data"
					continue
				}
				name.WriteByte(ch)
			case "tagname":
				if space || ch == '>' || ch == '/' {
					cur.name = strings.ToLower(name.String())
					if strings.ToLower(name.String()) != name.String() && xml && !strings.Contains(name.String(), hl) {
						fail("the tag name %s is not in lower case", name.String())
					}
					if !strings.Contains(cur.name, hl) && strings.Trim(cur.name, "abcdefghijklmnopqrstuvwxyz0123456789-:") != "" || cur.name == "" {
						fail("the tag name %q is not valid", name.String())
					}
					needSpace = false
					switch {
					case ch == '>':
						endTag(false)
					case ch == '/':
						state = "slash"
					default:
						state = "before"
					}
					continue
				}
				name.WriteByte(ch)
			case "slash":
				if ch != '>' {
					fail("a / inside the tag <%s>", cur.name)
					state = "before"
					continue
				}
				endTag(true)
			case "before":
				switch {
				case space:
					needSpace = false
				case ch == '>':
					endTag(false)
				case ch == '/':
					state = "slash"
				default:
					if needSpace {
						fail("no space between two attributes of <%s>", cur.name)
					}
					if ch == '"' || ch == '\'' || ch == '<' || ch == '=' {
						fail("a misplaced %q in the tag <%s>", string(ch), cur.name)
						continue
					}
					aname.Reset()
					aval.Reset()
					aname.WriteByte(ch)
					state = "attr"
				}
			case "attr":
				switch {
				case ch == '=':
					state = "equals"
				case space:
					endAttr(true)
					state = "before"
					needSpace = false
				case ch == '>':
					endAttr(true)
					endTag(false)
				case ch == '/':
					endAttr(true)
					state = "slash"
				default:
					aname.WriteByte(ch)
				}
			case "equals":
				if ch == '"' || ch == '\'' {
					quote = ch
				} else {
					quote = 0
					fail("the value of the attribute %s of <%s> is not quoted", aname.String(), cur.name)
					aval.WriteByte(ch)
				}
				state = "value"
			case "value":
				if quote != 0 && ch == quote {
					endAttr(false)
					needSpace = true
					state = "before"
					continue
				}
				if quote == 0 && (space || ch == '>') {
					endAttr(false)
					if ch == '>' {
						endTag(false)
					} else {
						state = "before"
						needSpace = false
					}
					continue
				}
				if ch == '<' {
					fail("a literal < in the attribute %s of <%s>", aname.String(), cur.name)
				}
				if ch == '&' {
					if e := entityError(p.text[i:], xml); e != "" {
						fail("%s", e)
					}
				}
				aval.WriteByte(ch)
			}
		}
	}
	flush()
	if state != "data" {
		fail("the text ends inside a %s", map[string]string{"tagname": "tag", "before": "tag", "attr": "tag", "equals": "tag", "value": "attribute value", "slash": "tag", "comment": "comment", "doctype": "declaration"}[state])
	}
	return
}

type holeContext struct{ hole, kind, attr string }

func entityError(s string, xml bool) string {
	i := strings.IndexByte(s, ';')
	if i < 2 || i > 10 {
		return "a literal & is not the beginning of a character reference"
	}
	n := s[1:i]
	if n[0] == '#' {
		d := strings.TrimLeft(n[1:], "xX0123456789abcdefABCDEF")
		if d != "" || len(n) < 2 {
			return "the character reference &" + n + "; is not valid"
		}
		return ""
	}
	if strings.Trim(n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
		return "a literal & is not the beginning of a character reference"
	}
	if xml && n != "amp" && n != "lt" && n != "gt" && n != "quot" && n != "apos" {
		return "the character reference &" + n + "; is not defined in XHTML documents without DTD"
	}
	return ""
}

var voidElements = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true, "link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}

// nest checks the nesting of tags, starting within the elements of open; it returns what remains open.
func nest(tokens []mtoken, open []string, xml bool) (stack []string, errs []string) {
	stack = append([]string{}, open...)
	for _, t := range tokens {
		switch t.kind {
		case "start":
			switch {
			case voidElements[t.name]:
				if xml && !t.self {
					errs = append(errs, "<"+t.name+"> is not closed: XHTML needs <"+t.name+"/>")
				}
			case t.self:
				if !xml {
					errs = append(errs, "<"+t.name+"/> is not closed by its / in HTML")
				}
			default:
				stack = append(stack, t.name)
			}
		case "end":
			if voidElements[t.name] {
				errs = append(errs, "</"+t.name+"> is the end of an element without content")
				continue
			}
			if len(stack) == 0 {
				errs = append(errs, "</"+t.name+"> has no start tag")
				continue
			}
			if top := stack[len(stack)-1]; top != t.name {
				errs = append(errs, "</"+t.name+"> closes <"+top+">")
				// resynchronise
				for k := len(stack) - 1; k >= 0; k-- {
					if stack[k] == t.name {
						stack = stack[:k]
						break
					}
				}
				continue
			}
			stack = stack[:len(stack)-1]
		}
	}
	return stack, errs
}

func envString(env map[string]bool) string {
	var p []string
	for k, v := range env {
		if v {
			p = append(p, k)
		} else {
			p = append(p, "not "+k)
		}
	}
	sort.Strings(p)
	if len(p) == 0 {
		return "always"
	}
	return "when " + strings.Join(p, ", ")
}
