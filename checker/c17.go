package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id: "C17", title: "who may touch files, processes and the network", run: runC17,
		explanation: "Capability analysis over the resolved program: every call and every function value of the library packages (all packages of the import closure of the root package, generated parser included) is resolved through type information and compared with a table of effectful standard-library and logging functions; read-only opens are enumerated and the path of each one is sliced backwards, across calls, to the configuration's file name, the target of an include directive or the location of an image. No code is run.",
		assumptions: []string{
			"dependencies (chroma, yaml, logrus, spew) have no file or network effect other than the functions listed in the table",
			"the logger writes where the host process configured it; log messages are not output",
		},
	})
}

// effect classifies an external function: "" no effect of interest, "open" a read-only
// access to a path (first argument), otherwise a description of the forbidden effect.
func effect(n string) string {
	has := func(p ...string) bool {
		for _, x := range p {
			if strings.HasPrefix(n, x) {
				return true
			}
		}
		return false
	}
	switch n {
	case "os.Open", "os.ReadFile", "os.Stat", "os.Lstat", "io/ioutil.ReadFile":
		return "open"
	case "os.OpenFile":
		return "openfile"
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout", "os.Getwd", "os.IsPathSeparator", "os.SameFile", "os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Expand", "os.TempDir", "os.Getpid", "os.Hostname", "os.NewSyscallError",
		"io/ioutil.ReadAll", "io/ioutil.NopCloser",
		"(*os.File).Read", "(*os.File).ReadAt", "(*os.File).Close", "(*os.File).Name", "(*os.File).Stat", "(*os.File).Seek", "(*os.PathError).Error", "(*os.PathError).Unwrap", "(os.FileMode).IsDir", "(os.FileMode).IsRegular", "(os.FileMode).Perm", "(os.FileMode).String":
		return ""
	case "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob":
		return "lists directories"
	case "runtime.Goexit":
		return "ends the goroutine of the caller"
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return "writes to the standard output"
	case "fmt.Scan", "fmt.Scanf", "fmt.Scanln":
		return "reads the standard input"
	case "text/template.ParseFiles", "text/template.ParseGlob", "text/template.ParseFS", "html/template.ParseFiles", "html/template.ParseGlob", "html/template.ParseFS",
		"(*text/template.Template).ParseFiles", "(*text/template.Template).ParseGlob", "(*text/template.Template).ParseFS",
		"(*html/template.Template).ParseFiles", "(*html/template.Template).ParseGlob", "(*html/template.Template).ParseFS":
		return "reads template files"
	case "archive/zip.OpenReader", "crypto/tls.LoadX509KeyPair", "time.LoadLocation":
		return "opens a file"
	}
	switch {
	case has("os/exec.", "(*os/exec."):
		return "starts a process"
	case has("net.", "(*net.", "(net.", "net/http.", "(*net/http.", "net/rpc", "net/smtp", "net/textproto", "crypto/tls."):
		if strings.HasPrefix(n, "net/url") {
			return ""
		}
		return "uses the network"
	case has("syscall.", "golang.org/x/sys/", "plugin.", "os/signal.", "os/user.", "(*os.Process)"):
		return "uses the operating system"
	case has("io/fs."):
		return "accesses a file system"
	case has("github.com/pkg/profile"):
		return "writes profiles"
	case has("os.", "(*os.File).", "(*os.Root).", "io/ioutil."):
		return "changes files or the process"
	case has("log.Fatal", "log.Panic", "(*log.Logger).Fatal", "(*log.Logger).Panic"):
		return "ends the process"
	case has("github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus."):
		m := n[strings.LastIndex(n, ".")+1:]
		if strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic") || m == "Exit" {
			return "ends the process"
		}
	case has("github.com/davecgh/go-spew/spew."):
		m := strings.TrimPrefix(n, "github.com/davecgh/go-spew/spew.")
		if m == "Dump" || strings.HasPrefix(m, "Print") {
			return "writes to the standard output"
		}
	}
	return ""
}

func runC17(w *World, r *Report) {
	lib := w.libraryFuncs()
	// what can run during a conversion: everything reachable from the exported functions of the
	// hand-written packages (the generated parser exports helpers nothing uses, which read files)
	var roots []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Parent() == nil && !w.isGenerated(fn) {
			roots = append(roots, fn)
		}
	}
	live := w.reachable(roots...)
	unused := 0
	for i := 0; i < len(lib); i++ {
		if !live[lib[i]] && w.isGenerated(lib[i]) && topFunc(lib[i]).Signature.Recv() == nil {
			unused++
			lib = append(lib[:i:i], lib[i+1:]...)
			i--
		}
	}
	r.Count("unreachable functions of the generated parser left out", unused)
	r.Count("library functions", len(lib))
	nCalls, nExt, nOpen, nValues := 0, 0, 0, 0
	type openSite struct {
		fn   *ssa.Function
		c    ssa.CallInstruction
		name string
		arg  ssa.Value
	}
	var opens []openSite
	for _, fn := range lib {
		for _, in := range instrs(fn) {
			if c, ok := in.(ssa.CallInstruction); ok {
				nCalls++
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
					r.Fail("no-forbidden-effect", fnName(topFunc(fn))+" -> "+b.Name(), w.pos(c.Pos()), "the library writes to the standard error stream of the process")
				}
				o := calleeObj(c.Common())
				if o != nil && o.Pkg() != nil && !w.inScope[o.Pkg()] {
					nExt++
					n := qname(o)
					switch e := effect(n); e {
					case "":
					case "open":
						opens = append(opens, openSite{fn, c, n, c.Common().Args[0]})
					case "openfile":
						flag := c.Common().Args[1]
						if v, ok := constInt(flag); ok && v == 0 { // os.O_RDONLY
							opens = append(opens, openSite{fn, c, n, c.Common().Args[0]})
						} else {
							r.Fail("no-forbidden-effect", fnName(topFunc(fn))+" -> "+n, w.pos(c.Pos()), "the library opens a file with a mode other than read-only")
						}
					default:
						r.Fail("no-forbidden-effect", fnName(topFunc(fn))+" -> "+n, w.pos(c.Pos()), "the library "+e)
					}
				}
			}
			// function values and standard streams
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					if v.Pkg != nil && w.inScope[v.Pkg.Pkg] {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == v {
						continue
					}
					nValues++
					if o, ok := v.Object().(*types.Func); ok {
						if e := effect(qname(o)); e != "" {
							r.Fail("no-forbidden-effect", fnName(topFunc(fn))+" uses "+qname(o), w.pos(in.Pos()), "the library takes a function that "+e+" as a value: its use cannot be bounded")
						}
					}
				case *ssa.Global:
					if v.Pkg != nil && v.Pkg.Pkg.Path() == "os" && (v.Name() == "Stdout" || v.Name() == "Stdin" || v.Name() == "Stderr") {
						r.Fail("no-forbidden-effect", fnName(topFunc(fn))+" uses os."+v.Name(), w.pos(in.Pos()), "the library uses a standard stream of the process")
					}
				}
			}
		}
	}
	r.OK("no-forbidden-effect", fmt.Sprintf("%d call sites, %d external calls, %d function values", nCalls, nExt, nValues), "", "resolved and compared with the effect table")
	r.Count("call sites", nCalls)
	r.Count("external calls", nExt)
	// provenance of opened paths
	for _, o := range opens {
		nOpen++
		s := w.newSlicer()
		s.expand = locationMethods(w)
		s.add(o.arg)
		ok, detail := pathSources(w, s.sources())
		r.Check("opened-path-provenance", fnName(topFunc(o.fn))+" -> "+o.name, w.pos(o.c.Pos()), ok, detail)
	}
	r.Floor("file accesses", nOpen, 3)
	// who may write on the output writer: only Write calls on io.Writer values that come from the caller
	c17Writers(w, r, lib)
	// positive examples
	for n, want := range map[string]bool{"os.Create": true, "os.WriteFile": true, "os.Exit": true, "net/http.Get": true, "os/exec.Command": true, "strings.Join": false, "os.Remove": true, "github.com/sirupsen/logrus.Fatalf": true, "fmt.Fprintf": false} {
		r.SelfTest("effect table: "+n, (effect(n) != "") == want)
	}
}

// locationMethods makes the result of the methods of types.Location depend on the receiver
// only, so that the owner of the location is found (image, include directive, link).
func locationMethods(w *World) func(v ssa.Value) ([]ssa.Value, bool) {
	return func(v ssa.Value) ([]ssa.Value, bool) {
		c, ok := v.(*ssa.Call)
		if ok {
			if f := c.Call.StaticCallee(); f != nil && w.inScopeFn(f) && f.Signature.Recv() != nil {
				if isNamed(f.Signature.Recv().Type(), "types.Location") {
					return c.Call.Args[:1], true
				}
			}
		}
		if n, base, ok := fieldOf(v); ok && strings.HasPrefix(n, "types.Location.") {
			return []ssa.Value{base}, true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if n, base, ok := fieldOf(u.X); ok && strings.HasPrefix(n, "types.Location.") {
				return []ssa.Value{base}, true
			}
		}
		return nil, false
	}
}

func pathSources(w *World, src []source) (bool, string) {
	okRoot := false
	var bad, all []string
	for _, s := range src {
		all = append(all, s.String())
		switch s.kind {
		case "const", "alloc":
			continue
		case "field":
			switch s.name {
			case "configuration.Configuration.Filename", "parser.ParseContext.filename",
				"types.FileInclusion.Location", "types.ImageBlock.Location", "types.InlineImage.Location":
				okRoot = true
				continue
			}
		case "attr":
			if s.name == "imagesdir" || s.name == "iconsdir" {
				continue
			}
		case "param":
			// API configuration
			if strings.HasPrefix(s.name, "libasciidoc.ConvertFile") {
				okRoot = true
				continue
			}
		}
		bad = append(bad, s.String())
	}
	d := "path made of: " + strings.Join(all, ", ")
	if len(bad) > 0 {
		return false, "the path of the opened file comes from " + strings.Join(bad, ", ") + ", which is neither the source file, an include directive nor an image; " + d
	}
	if !okRoot {
		return false, "the path of the opened file does not come from the source file, an include directive or an image; " + d
	}
	return true, d
}

// c17Writers: calls that write through an io.Writer interface: the writer must be a parameter
// chain ending in the API, or a local buffer.
func c17Writers(w *World, r *Report, lib []*ssa.Function) {
	n := 0
	for _, fn := range lib {
		if w.isGenerated(fn) {
			continue
		}
		for _, in := range instrs(fn) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			name := callName(c.Common())
			var wr ssa.Value
			switch {
			case c.Common().IsInvoke() && (name == "(io.Writer).Write" || name == "(io.StringWriter).WriteString"):
				wr = c.Common().Value
			case name == "(*text/template.Template).Execute" || name == "(*text/template.Template).ExecuteTemplate":
				wr = c.Common().Args[1]
			case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "io.Copy":
				wr = c.Common().Args[0]
			default:
				continue
			}
			n++
			s := w.newSlicer()
			s.stop = func(v ssa.Value) (source, bool) {
				// a local buffer, or a writer received by the API
				switch v := v.(type) {
				case *ssa.Alloc:
					switch typeName(deref(v.Type())) {
					case "strings.Builder", "bytes.Buffer":
						return source{kind: "alloc", name: typeName(deref(v.Type()))}, true
					}
				case *ssa.Parameter:
					if fn := v.Parent(); fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && relPkg(fn.Pkg.Pkg) != "cmd/libasciidoc" && fn.Signature.Recv() == nil {
						return source{kind: "param", name: fnName(fn)}, true
					}
				}
				return source{}, false
			}
			s.add(wr)
			var bad []string
			for _, l := range s.sources() {
				switch {
				case l.kind == "const" || l.kind == "alloc" || l.kind == "param":
				default:
					bad = append(bad, l.String())
				}
			}
			d := "written to the writer of the caller or a local buffer"
			if len(bad) > 0 {
				d = "the writer written to comes from " + strings.Join(bad, ", ") + ", which is neither the writer of the caller nor a local buffer"
			}
			r.Check("writer-provenance", fnName(topFunc(fn))+" -> "+name, w.pos(c.Pos()), len(bad) == 0, d)
		}
	}
	r.Floor("writes through a writer", n, 5)
}
