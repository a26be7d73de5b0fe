// Command instr copies the non-test Go sources of a module to a scratch
// directory and puts every source of nondeterminism behind a seam:
//
//   - a yield point before every statement (simrt.Y),
//   - package sync replaced by simsync, package log by simlog,
//   - selected os, ioutil and time functions replaced by simos / simrt,
//   - iteration over maps (range, reflect.Value.MapKeys/MapRange) ordered by the simulator,
//   - go statements turned into simulated tasks,
//   - channel operations (send, receive, range, close, select) decided by the simulator,
//   - package-level variables re-initialised before every simulated run.
//
// It works on text offsets, so everything it does not touch stays as written.
// It knows nothing about the code it instruments beyond the Go language.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const simMod = "github.com/alxarch/njson/verifsim"

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

var (
	flagRepo  = flag.String("repo", "/repo", "module to instrument")
	flagOut   = flag.String("out", "", "output directory")
	flagLevel = flag.Int("level", 2, "2: everything, 1: yields and packages only, 0: package replacement only")
	flagExtra = flag.String("extra", "", "comma separated dependency modules to copy and instrument too")
)

var sites []string

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module,ImportMap,Error", "./...")
	cmd.Dir = *flagRepo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	mainMod := ""
	{
		c := exec.Command("go", "list", "-m")
		c.Dir = *flagRepo
		b, err := c.Output()
		if err != nil {
			die("go list -m: %v", err)
		}
		mainMod = strings.TrimSpace(string(b))
	}
	extra := map[string]bool{}
	for _, e := range strings.Split(*flagExtra, ",") {
		if e != "" {
			extra[e] = true
		}
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && (p.Module.Path == mainMod || extra[p.Module.Path]) {
			q := p
			pkgs = append(pkgs, &q)
		}
	}
	if err := os.MkdirAll(*flagOut, 0o755); err != nil {
		die("%v", err)
	}
	for _, p := range pkgs {
		base := *flagOut
		if p.Module.Path == mainMod {
			base = filepath.Join(base, "main")
		} else {
			base = filepath.Join(base, "dep", filepath.Base(p.Module.Path))
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, p.Module.Path), "/")
		instrument(p, exports, filepath.Join(base, rel), p.Module.Path == mainMod)
	}
	os.WriteFile(filepath.Join(*flagOut, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
}

type fileState struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  []string
}

func (f *fileState) replace(off, end int, text string) {
	f.edits = append(f.edits, edit{off, end, text, len(f.edits)})
}

func (f *fileState) insert(off int, text string) { f.replace(off, off, text) }

func instrument(p *listPkg, exports map[string]string, dst string, isMain bool) {
	fset := token.NewFileSet()
	var files []*fileState
	var asts []*ast.File
	for _, name := range p.GoFiles {
		src, err := os.ReadFile(filepath.Join(p.Dir, name))
		if err != nil {
			die("%v", err)
		}
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), src, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, &fileState{name: name, src: src, ast: a})
		asts = append(asts, a)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), FakeImportC: true}
	pkg, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }

	fullSim := isMain && p.Name != "main" && !strings.HasPrefix(p.ImportPath, modOf(p)+"/internal/") && !strings.HasPrefix(p.ImportPath, modOf(p)+"/cmd/")
	for _, f := range files {
		needRT := false
		used := map[string]bool{} // simulator packages needed
		kept := map[string]bool{} // std packages that may have become unused: path -> blank use
		// imports
		for _, imp := range f.ast.Imports {
			path, _ := strconv.Unquote(imp.Path.Value)
			repl, def := "", ""
			switch path {
			case "sync":
				repl, def = simMod+"/simsync", "sync"
			case "log":
				repl, def = simMod+"/simlog", "log"
			}
			if repl == "" {
				continue
			}
			if imp.Name == nil {
				f.replace(off(imp.Path.Pos()), off(imp.Path.End()), def+" "+strconv.Quote(repl))
			} else {
				f.replace(off(imp.Path.Pos()), off(imp.Path.End()), strconv.Quote(repl))
			}
		}
		// package clause of commands
		if p.Name == "main" {
			f.replace(off(f.ast.Name.Pos()), off(f.ast.Name.End()), "simcmd")
		}
		pkgOf := func(x ast.Expr) string {
			if id, ok := x.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					return pn.Imported().Path()
				}
			}
			return ""
		}
		stmts := func(list []ast.Stmt) {
			if *flagLevel < 1 || !fullSim {
				return
			}
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				id := len(sites)
				ps := fset.Position(s.Pos())
				sites = append(sites, fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, *flagRepo+"/"), ps.Line))
				f.insert(off(s.Pos()), fmt.Sprintf("simrt.Y(%d); ", id))
				needRT = true
			}
		}
		comm := map[ast.Node]bool{} // operations of select cases
		recv2 := map[ast.Node]bool{}
		selects := 0
		selectHeads := map[ast.Stmt]bool{}
		isChan := func(x ast.Expr) bool {
			tv, ok := info.Types[x]
			if !ok || tv.Type == nil {
				return false
			}
			_, ok = tv.Type.Underlying().(*types.Chan)
			return ok
		}
		inBody := func(x ast.Node) bool {
			for _, d := range f.ast.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Body.Pos() <= x.Pos() && x.End() <= fd.Body.End() {
					return true
				}
			}
			return false
		}
		// work in bulk: bytes and elements moved or searched by the language and the library
		bulk := func(x ast.Expr) {
			tv := info.Types[x]
			if tv.Value != nil || tv.Type == nil {
				return
			}
			if c, ok := ast.Unparen(x).(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "make" {
					return
				}
			}
			name := ""
			switch t := tv.Type.Underlying().(type) {
			case *types.Basic:
				if t.Info()&types.IsString == 0 || t.Info()&types.IsUntyped != 0 {
					return
				}
				name = "simrt.BulkText("
			case *types.Slice:
				name = "simrt.Bulk("
			default:
				return
			}
			f.insert(off(x.Pos()), name)
			f.insert(off(x.End()), ")")
			needRT = true
		}
		var pure func(x ast.Expr) bool
		pure = func(x ast.Expr) bool {
			switch x := x.(type) {
			case nil:
				return true
			case *ast.Ident, *ast.BasicLit:
				return true
			case *ast.SelectorExpr:
				return pure(x.X)
			case *ast.ParenExpr:
				return pure(x.X)
			case *ast.BinaryExpr:
				return pure(x.X) && pure(x.Y)
			case *ast.SliceExpr:
				return pure(x.X) && pure(x.Low) && pure(x.High) && pure(x.Max)
			case *ast.IndexExpr:
				return pure(x.X) && pure(x.Index)
			}
			return false
		}
		around := func(n *ast.CallExpr, name string, arg ast.Expr) {
			f.insert(off(n.Pos()), "simrt."+name+"(")
			if arg == nil {
				f.insert(off(n.End()), ")")
			} else {
				f.insert(off(n.End()), ", simrt.Len("+string(f.src[off(arg.Pos()):off(arg.End())])+"))")
			}
			needRT = true
		}
		bulkCall := func(n *ast.CallExpr) {
			if !inBody(n) || info.Types[n].Value != nil {
				return
			}
			switch fun := n.Fun.(type) {
			case *ast.Ident:
				if _, ok := info.Uses[fun].(*types.Builtin); ok {
					switch {
					case fun.Name == "copy":
						around(n, "Moved", nil)
					case fun.Name == "append" && n.Ellipsis.IsValid():
						bulk(n.Args[len(n.Args)-1])
					}
				}
			case *ast.SelectorExpr:
				if path := pkgOf(fun.X); (path == "strings" || path == "bytes") && len(n.Args) > 0 {
					switch name := fun.Sel.Name; name {
					case "Count", "Replace", "ReplaceAll", "Map", "Split", "SplitN", "SplitAfter", "Fields", "FieldsFunc", "ToLower", "ToUpper":
						if len(n.Args) > 1 && name == "Map" {
							bulk(n.Args[1])
						} else {
							bulk(n.Args[0])
						}
					case "Index", "IndexByte", "IndexAny", "IndexRune", "IndexFunc":
						if pure(n.Args[0]) {
							around(n, "Found", n.Args[0])
						}
					case "LastIndex", "LastIndexByte", "LastIndexAny", "LastIndexFunc":
						if pure(n.Args[0]) {
							around(n, "FoundLast", n.Args[0])
						}
					case "Contains", "ContainsAny", "ContainsRune":
						if pure(n.Args[0]) {
							around(n, "Scanned", n.Args[0])
						}
					}
				}
			}
		}
		labeled := map[ast.Stmt]*ast.LabeledStmt{}
		ast.Inspect(f.ast, func(n ast.Node) bool {
			if s, ok := n.(ast.Stmt); ok && selectHeads[s] {
				return false // already rewritten
			}
			if *flagLevel >= 2 && fullSim {
				switch n := n.(type) {
				case *ast.LabeledStmt:
					labeled[n.Stmt] = n
				case *ast.ForStmt:
					if len(n.Body.List) == 0 { // a spinning task
						f.insert(off(n.Body.Lbrace)+1, " simrt.Gosched() ")
						needRT = true
					}
				case *ast.AssignStmt:
					if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
						recv2[ast.Unparen(n.Rhs[0])] = true
					}
				case *ast.ValueSpec:
					if len(n.Names) == 2 && len(n.Values) == 1 {
						recv2[ast.Unparen(n.Values[0])] = true
					}
				case *ast.SelectStmt:
					// select { case v := <-c: ... } ->
					// { simC0 := simrt.Recv(c); switch simrt.Select(..., simC0) { case 0: v := simC0.V; ... } }
					hasDefault := false
					decl, names := "{ ", ""
					selects++
					i := -1
					for _, c := range n.Body.List {
						c := c.(*ast.CommClause)
						if c.Comm != nil {
							i++
						}
						name := fmt.Sprintf("simC%d_%d", selects, i)
						head := ""
						src := func(x ast.Expr) string { return string(f.src[off(x.Pos()):off(x.End())]) }
						recv := func(x ast.Expr) {
							u := ast.Unparen(x).(*ast.UnaryExpr)
							comm[u] = true
							decl += name + " := simrt.RecvCase(" + src(u.X) + "); "
						}
						switch s := c.Comm.(type) {
						case nil:
							hasDefault = true
							continue
						case *ast.SendStmt:
							comm[s] = true
							decl += name + " := simrt.SendCase(" + src(s.Chan) + ")(" + src(s.Value) + "); "
						case *ast.ExprStmt:
							recv(s.X)
						case *ast.AssignStmt:
							recv(s.Rhs[0])
							head = src(s.Lhs[0])
							if len(s.Lhs) == 2 {
								head += ", " + src(s.Lhs[1]) + " " + s.Tok.String() + " " + name + ".V(), " + name + ".OK(); "
							} else {
								head += " " + s.Tok.String() + " " + name + ".V(); "
							}
						}
						names += ", " + name + ".Case"
						f.replace(off(c.Case), off(c.Colon)+1, fmt.Sprintf("case %d: %s", i, head))
						selectHeads[c.Comm] = true
					}
					at := n.Pos()
					if l := labeled[n]; l != nil {
						at = l.Pos()
					}
					f.insert(off(at), decl)
					f.replace(off(n.Select), off(n.Select)+len("select"), fmt.Sprintf("switch simrt.Select(%v%s)", hasDefault, names))
					if !hasDefault {
						f.insert(off(n.Body.Rbrace), "default: panic(\"unreachable\"); ")
					}
					f.insert(off(n.End()), " }")
					needRT = true
				case *ast.SendStmt:
					if !comm[n] {
						f.insert(off(n.Pos()), "simrt.ChanSend(")
						f.replace(off(n.Arrow), off(n.Arrow)+2, ")(")
						f.insert(off(n.End()), ")")
						needRT = true
					}
				case *ast.UnaryExpr:
					if n.Op == token.ARROW && !comm[n] {
						name := "simrt.ChanRecv("
						if recv2[n] {
							name = "simrt.ChanRecv2("
						}
						f.replace(off(n.OpPos), off(n.OpPos)+2, name)
						f.insert(off(n.End()), ")")
						needRT = true
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 1 && id.Name == "close" && isChan(n.Args[0]) {
						if _, ok := info.Uses[id].(*types.Builtin); ok {
							f.replace(off(id.Pos()), off(id.End()), "simrt.ChanClose")
							needRT = true
						}
					}
				case *ast.RangeStmt:
					if isChan(n.X) {
						k := ""
						if n.Key != nil {
							k = string(f.src[off(n.Key.Pos()):off(n.Key.End())])
						}
						f.replace(off(n.For), off(n.X.Pos()), "for simCh := ")
						f.insert(off(n.X.End()), "; ; ")
						switch {
						case k == "" || k == "_":
							f.insert(off(n.Body.Lbrace)+1, " if _, simOK := simrt.ChanRecv2(simCh); !simOK { break }; ")
						case n.Tok == token.ASSIGN:
							f.insert(off(n.Body.Lbrace)+1, fmt.Sprintf(" simV, simOK := simrt.ChanRecv2(simCh); if !simOK { break }; %s = simV; ", k))
						default:
							f.insert(off(n.Body.Lbrace)+1, fmt.Sprintf(" %s, simOK := simrt.ChanRecv2(simCh); if !simOK { break }; ", k))
						}
						needRT = true
					}
				case *ast.SelectorExpr:
					if pkgOf(n.X) == "runtime" && n.Sel.Name == "Gosched" {
						f.replace(off(n.Pos()), off(n.End()), "simrt.Gosched")
						kept[n.X.(*ast.Ident).Name+".NumCPU"] = true
						needRT = true
					}
				}
			}
			switch n := n.(type) {
			case *ast.FuncDecl:
				if p.Name == "main" && n.Recv == nil && n.Name.Name == "main" {
					f.replace(off(n.Name.Pos()), off(n.Name.End()), "SimMain")
				}
			case *ast.BlockStmt:
				// the body of a switch or select is a block of clauses
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.GoStmt:
				if *flagLevel < 1 {
					return true
				}
				needRT = true
				// go f(args) -> simrt.GoCall(f, args)
				call := n.Call
				f.replace(off(n.Go), off(call.Fun.Pos()), "simrt.GoCall(")
				if len(call.Args) == 0 {
					f.replace(off(call.Lparen), off(call.Lparen)+1, "")
				} else {
					f.replace(off(call.Lparen), off(call.Lparen)+1, ", ")
				}
				if call.Ellipsis.IsValid() {
					die("go statement with ... not supported")
				}
			case *ast.SelectorExpr:
				switch pkgOf(n.X) {
				case "os", "io/ioutil":
					if simosNames[n.Sel.Name] {
						path := pkgOf(n.X)
						f.replace(off(n.Pos()), off(n.End()), "simos."+n.Sel.Name)
						used["simos"] = true
						if path == "os" {
							kept[n.X.(*ast.Ident).Name+".Getpid"] = true
						} else {
							kept[n.X.(*ast.Ident).Name+".Discard"] = true
						}
					}
				case "time":
					if n.Sel.Name == "Now" || n.Sel.Name == "Since" || n.Sel.Name == "Sleep" {
						f.replace(off(n.Pos()), off(n.End()), "simrt.Time"+n.Sel.Name)
						needRT = true
						kept[n.X.(*ast.Ident).Name+".UTC"] = true
					}
				case "reflect":
					if n.Sel.Name == "MapIter" && *flagLevel >= 2 {
						f.replace(off(n.Pos()), off(n.End()), "simrt.ReflectMapIter")
						needRT = true
						kept[n.X.(*ast.Ident).Name+".TypeOf"] = true
					}
				}
			case *ast.CallExpr:
				if *flagLevel < 2 {
					return true
				}
				if fullSim {
					bulkCall(n)
				}
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 {
					if s := info.Selections[sel]; s != nil && s.Recv().String() == "reflect.Value" {
						switch sel.Sel.Name {
						case "MapKeys", "MapRange":
							needRT = true
							f.insert(off(n.Pos()), "simrt.Reflect"+sel.Sel.Name+"(")
							f.replace(off(sel.X.End()), off(n.End()), ")")
						}
					}
				}
			case *ast.RangeStmt:
				if *flagLevel < 2 {
					return true
				}
				tv, ok := info.Types[n.X]
				if !ok {
					return true
				}
				if _, ok := tv.Type.Underlying().(*types.Map); !ok {
					return true
				}
				needRT = true
				k, v := "_", "_"
				if n.Key != nil {
					k = string(f.src[off(n.Key.Pos()):off(n.Key.End())])
				}
				if n.Value != nil {
					v = string(f.src[off(n.Value.Pos()):off(n.Value.End())])
				}
				// header
				f.replace(off(n.For), off(n.X.Pos()), "for _, simIt := range simrt.MapIter(")
				f.insert(off(n.X.End()), ")")
				decl := ""
				if n.Tok == token.ASSIGN {
					decl = fmt.Sprintf(" var simOK bool; %s, %s, simOK = simIt.Get(); if !simOK { continue }; ", k, v)
				} else {
					decl = fmt.Sprintf(" %s, %s, simOK := simIt.Get(); if !simOK { continue }; ", k, v)
				}
				f.insert(off(n.Body.Lbrace)+1, decl)
			}
			return true
		})
		if used["simos"] {
			f.insert(off(f.ast.Name.End()), "; import simos \""+simMod+"/simos\"")
		}
		if needRT {
			f.insert(off(f.ast.Name.End()), "; import simrt \""+simMod+"/simrt\"")
			f.tail = append(f.tail, "var _ = simrt.Y")
		}
		keys := []string{}
		for k := range kept {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			f.tail = append(f.tail, "var _ = "+k)
		}
	}
	// re-initialisation of package-level variables
	if isMain {
		register := "RegisterReset"
		if !fullSim {
			register = "RegisterProc"
		}
		byFile := func(pos token.Pos) *fileState {
			name := filepath.Base(fset.Position(pos).Filename)
			for _, f := range files {
				if f.name == name {
					return f
				}
			}
			return nil
		}
		var calls []string
		inited := map[types.Object]bool{}
		for i, in := range info.InitOrder {
			f := byFile(in.Lhs[0].Pos())
			var lhs []string
			for _, v := range in.Lhs {
				inited[v] = true
				lhs = append(lhs, v.Name())
			}
			rhs := f.applyRange(off(in.Rhs.Pos()), off(in.Rhs.End()))
			name := fmt.Sprintf("simReinit%d", i)
			f.tail = append(f.tail, fmt.Sprintf("func %s() { %s = %s }", name, strings.Join(lhs, ", "), rhs))
			calls = append(calls, name+"()")
		}
		var zero []string
		for _, n := range pkg.Scope().Names() {
			if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok && !inited[v] && n != "_" {
				zero = append(zero, "simrt.Zero(&"+n+")")
			}
		}
		pname := p.Name
		if pname == "main" {
			pname = "simcmd"
		}
		src := fmt.Sprintf("package %s\n\nimport \"%s/simrt\"\n\nfunc init() { simrt.%s(%q, func() {\n%s\n%s\n}) }\n",
			pname, simMod, register, p.ImportPath, strings.Join(zero, "\n"), strings.Join(calls, "\n"))
		write(filepath.Join(dst, "zz_simreset.go"), []byte(src))
	}
	for _, f := range files {
		write(filepath.Join(dst, f.name), f.apply())
	}
}

func modOf(p *listPkg) string { return p.Module.Path }

func write(name string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		die("%v", err)
	}
}

func (f *fileState) sortEdits() {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// insertions before replacements at the same offset
		ai, bi := a.end == a.off, b.end == b.off
		if ai != bi {
			return ai
		}
		return a.seq < b.seq
	})
}

// applyRange returns the edited text of src[from:to].
func (f *fileState) applyRange(from, to int) string {
	f.sortEdits()
	var out bytes.Buffer
	pos := from
	for _, e := range f.edits {
		if e.off < from || e.end > to {
			continue
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:to])
	return out.String()
}

func (f *fileState) apply() []byte {
	f.sortEdits()
	var out bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.off < pos {
			die("overlapping edits in %s at %d (%q)", f.name, e.off, e.text)
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:])
	out.WriteString("\n")
	for _, t := range f.tail {
		out.WriteString(t + "\n")
	}
	return out.Bytes()
}

var simosNames = map[string]bool{
	"Create": true, "OpenFile": true, "Open": true, "File": true, "WriteFile": true, "Rename": true, "Remove": true, "RemoveAll": true,
	"CreateTemp": true, "TempFile": true, "Exit": true, "Stdout": true, "Stderr": true, "Truncate": true, "Chmod": true,
	"Link": true, "MkdirTemp": true, "TempDir": true, "Mkdir": true, "MkdirAll": true,
}
