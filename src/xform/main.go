// xform rewrites the Go packages of a module tree (a scratch copy of /repo) so
// that their synchronisation goes through the controlled scheduler zz_verif/vs:
//
//	sync, sync/atomic, maps      -> shim packages with the same API
//	go statements                -> registered with the scheduler
//	channel operations, select   -> emulated
//	range over a map             -> defined order
//	runtime.Gosched, time.Sleep  -> spin hint
//	every statement              -> preceded by a statement point (fine mode)
//	x = f(x), x++, x += y        -> a point between the read and the write (fine
//	                                mode; x shared memory: field, element, captured
//	                                or package variable)
//
// All edits are textual insertions or token replacements at positions taken
// from the typed syntax tree; nothing is reformatted or reordered.
//
//	xform -level 0|1|2 DIR   (1: no statement points and map ranges; 2: only sync, atomic and go)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Export string
	GoFiles                 []string
	CgoFiles                []string
	Module                  *struct{ Main bool }
}

var (
	level  = flag.Int("level", 0, "")
	vsPath string
)

const (
	closer = iota // sorts before openers at the same offset
	opener
	replace
)

type edit struct {
	from, to int
	text     string
	kind     int
	seq      int
}

type file struct {
	src   []byte
	edits []edit
	tf    *token.File
}

func (f *file) off(p token.Pos) int { return f.tf.Offset(p) }
func (f *file) before(p token.Pos, t string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), t, opener, len(f.edits)})
}
func (f *file) after(p token.Pos, t string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), t, closer, len(f.edits)})
}
func (f *file) replace(from, to token.Pos, t string) {
	f.edits = append(f.edits, edit{f.off(from), f.off(to), t, replace, len(f.edits)})
}
func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.kind == closer {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var b bytes.Buffer
	at := 0
	for _, e := range f.edits {
		if e.from < at {
			fatal("overlapping edits at offset %d: %q", e.from, e.text)
		}
		b.Write(f.src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(f.src[at:])
	return b.Bytes()
}

func fatal(s string, a ...any) {
	fmt.Fprintf(os.Stderr, "xform: "+s+"\n", a...)
	os.Exit(3)
}

// outside: code that lets goroutines of other packages run functions of the
// module or send to its channels; then a stuck receiver proves nothing.
var (
	outside = regexp.MustCompile(`\bAfterFunc\(|\bNotify\(|\bSetFinalizer\(|\bAddCleanup\(`)
	escapes bool
)

func main() {
	flag.Parse()
	dir := flag.Arg(0)
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,CgoFiles,Module", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && !strings.Contains(p.ImportPath, "zz_verif") {
			pkgs = append(pkgs, p)
		}
	}
	c2 := exec.Command("go", "list", "-m")
	c2.Dir = dir
	mo, err := c2.Output()
	if err != nil {
		fatal("go list -m: %v", err)
	}
	vsPath = strings.TrimSpace(string(mo)) + "/zz_verif/vs"
	for _, p := range pkgs {
		for _, n := range p.GoFiles {
			src, _ := os.ReadFile(filepath.Join(p.Dir, n))
			escapes = escapes || outside.Match(src)
		}
	}
	for _, p := range pkgs {
		doPkg(p, exports)
	}
}

func doPkg(p listPkg, exports map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var fs []*file
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, a)
		fs = append(fs, &file{src: src, tf: fset.File(a.Pos())})
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fmt.Fprintf(os.Stderr, "xform: types: %v\n", err)
	}
	for i, a := range files {
		doFile(a, fs[i], info)
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), fs[i].apply(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

func under(info *types.Info, e ast.Expr) types.Type {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	return tv.Type.Underlying()
}

func isChan(info *types.Info, e ast.Expr) bool {
	_, ok := under(info, e).(*types.Chan)
	return ok
}

func pkgFunc(info *types.Info, e ast.Expr, pkg, name string) (*ast.SelectorExpr, bool) {
	sel, ok := e.(*ast.SelectorExpr)
	if !ok || sel.Sel.Name != name {
		return nil, false
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return nil, false
	}
	pn, ok := info.Uses[id].(*types.PkgName)
	return sel, ok && pn.Imported().Path() == pkg
}

func doFile(a *ast.File, f *file, info *types.Info) {
	shims := map[string]string{"sync": "vsync", "sync/atomic": "vatomic"}
	if *level == 0 {
		shims["maps"] = "vmaps"
	}
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[path]
		if !ok || (im.Name != nil && im.Name.Name == "_") {
			continue
		}
		name := ""
		if im.Name == nil {
			name = path[strings.LastIndex(path, "/")+1:] + " "
		}
		f.replace(im.Path.Pos(), im.Path.End(), name+strconv.Quote(vsPath+"/"+sh))
	}
	f.after(a.Name.End(), "; import zzvs "+strconv.Quote(vsPath)+"; ")
	tail := "\nvar _ = zzvs.P\n"
	keep := map[string]bool{}

	// nodes whose text is moved into a select header are not edited inside
	skip := map[ast.Node]bool{}
	comm2 := map[ast.Expr]bool{} // receives in a two-value context

	list := func(l []ast.Stmt) {
		for _, st := range l {
			if g, ok := st.(*ast.GoStmt); ok && *level == 0 {
				f.before(g.Pos(), "zzvs.P(); ")
				continue
			}
			if _, ok := st.(*ast.EmptyStmt); ok || *level > 0 {
				continue
			}
			f.before(st.Pos(), "zzvs.P(); ")
		}
	}
	var open []ast.Node // the nodes on the way to the current one
	ast.Inspect(a, func(n ast.Node) bool {
		if n == nil {
			open = open[:len(open)-1]
			return false
		}
		if skip[n] {
			return false
		}
		open = append(open, n)
		if *level == 0 {
			readWrite(f, n, open, info)
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			if !isSwitchBody(x) {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.GoStmt:
			doGo(f, x, info)
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comm2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comm2[u] = true
				}
			}
		case *ast.SendStmt:
			if *level < 2 {
				f.before(x.Pos(), "zzvs.ChS(")
				f.replace(x.Arrow, x.Arrow+2, ")(")
				f.after(x.End(), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && *level < 2 {
				fn := "zzvs.ChR("
				if comm2[x] {
					fn = "zzvs.ChR2("
				}
				f.replace(x.OpPos, x.OpPos+2, fn)
				f.after(x.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && *level < 2 {
				if _, b := info.Uses[id].(*types.Builtin); b {
					switch {
					case id.Name == "close":
						f.replace(id.Pos(), id.End(), "zzvs.ChClose")
					case id.Name == "len" && isChan(info, x.Args[0]):
						f.replace(id.Pos(), id.End(), "zzvs.ChLen")
					}
				}
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && *level < 2 && !escapes && isChan(info, x) && under(info, x).(*types.Chan).Dir() == types.SendRecv {
				if _, b := info.Uses[id].(*types.Builtin); b {
					f.before(x.Pos(), "zzvs.Made(")
					f.after(x.End(), ")")
				}
			}
			if sel, ok := pkgFunc(info, x.Fun, "runtime", "Gosched"); ok {
				keep[sel.X.(*ast.Ident).Name+".Gosched"] = true
				f.replace(sel.Pos(), sel.End(), "zzvs.Yield")
				skip[sel] = true
			} else if sel, ok := pkgFunc(info, x.Fun, "time", "Sleep"); ok {
				keep[sel.X.(*ast.Ident).Name+".Sleep"] = true
				f.replace(sel.Pos(), sel.End(), "zzvs.Sleep")
				skip[sel] = true
			}
		case *ast.RangeStmt:
			switch under(info, x.X).(type) {
			case *types.Map:
				if *level == 0 {
					f.before(x.X.Pos(), "zzvs.Map(")
					f.after(x.X.End(), ")")
				}
			case *types.Chan:
				if *level < 2 {
					f.before(x.X.Pos(), "zzvs.ChRange(")
					f.after(x.X.End(), ")")
				}
			}
		case *ast.SelectStmt:
			if *level < 2 {
				doSelect(f, x, skip)
			}
		}
		return true
	})
	ks := []string{}
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		tail += "var _ = " + k + "\n"
	}
	f.edits = append(f.edits, edit{len(f.src), len(f.src), tail, opener, len(f.edits)})
}

// readWrite separates the read from the write of an update of shared memory.
func readWrite(f *file, n ast.Node, open []ast.Node, info *types.Info) {
	if len(open) > 1 {
		switch open[len(open)-2].(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		default:
			return
		}
	}
	shared := func(e ast.Expr) bool {
		pure := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr, *ast.FuncLit:
				pure = false
			case *ast.UnaryExpr:
				pure = pure && x.Op != token.ARROW
			}
			return pure
		})
		if !pure {
			return false
		}
		switch x := ast.Unparen(e).(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			return true
		case *ast.Ident:
			o, ok := info.Uses[x].(*types.Var)
			if !ok {
				return false
			}
			for i := len(open) - 1; i >= 0; i-- {
				switch fn := open[i].(type) {
				case *ast.FuncLit:
					return o.Pos() < fn.Pos() || o.Pos() > fn.End()
				case *ast.FuncDecl:
					return o.Pos() < fn.Pos() || o.Pos() > fn.End()
				}
			}
		}
		return false
	}
	switch x := n.(type) {
	case *ast.IncDecStmt:
		if shared(x.X) {
			op := " + 1)"
			if x.Tok == token.DEC {
				op = " - 1)"
			}
			f.replace(x.TokPos, x.TokPos+2, " = zzvs.Then("+f.text(x.X)+op)
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !shared(x.Lhs[0]) {
			return
		}
		switch x.Tok {
		case token.ASSIGN:
			l, found := f.text(x.Lhs[0]), false
			ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
				if e, ok := n.(ast.Expr); ok && f.text(e) == l {
					found = true
				}
				return !found
			})
			tv := info.Types[x.Rhs[0]]
			if b, ok := tv.Type.(*types.Basic); !found || tv.Type == nil || ok && b.Info()&types.IsUntyped != 0 {
				return
			}
			f.before(x.Rhs[0].Pos(), "zzvs.Then(")
			f.after(x.Rhs[0].End(), ")")
		case token.DEFINE:
		default:
			op := strings.TrimSuffix(x.Tok.String(), "=")
			f.replace(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "= zzvs.Then("+f.text(x.Lhs[0])+" "+op+" (")
			f.after(x.Rhs[0].End(), "))")
		}
	}
}

// isSwitchBody tells whether the block holds case or comm clauses.
func isSwitchBody(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

func doGo(f *file, g *ast.GoStmt, info *types.Info) {
	fun := ast.Unparen(g.Call.Fun)
	if fl, ok := fun.(*ast.FuncLit); ok {
		f.before(g.Pos(), "zzvs.BeforeGo(); ")
		f.after(fl.Body.Lbrace+1, " defer zzvs.Detach(zzvs.Attach()); ")
		f.after(g.End(), "; zzvs.AfterGo()")
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, b := info.Uses[id].(*types.Builtin); b {
			return
		}
	}
	tv, ok := info.Types[fun]
	if !ok {
		return
	}
	sig, ok := tv.Type.Underlying().(*types.Signature)
	if !ok {
		return
	}
	_ = sig
	f.before(g.Pos(), "zzvs.BeforeGo(); ")
	f.before(g.Call.Fun.Pos(), "zzvs.Wrap(")
	f.after(g.Call.Fun.End(), ")")
	f.after(g.End(), "; zzvs.AfterGo()")
}

func doSelect(f *file, x *ast.SelectStmt, skip map[ast.Node]bool) {
	var cases []string
	def := false
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		skip[cc.Comm] = true
		head := fmt.Sprintf("case %d:", idx)
		idx++
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("zzvs.SS(%s)(%s)", f.text(cm.Chan), f.text(cm.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("zzvs.SR(%s)", f.text(u.X)))
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("zzvs.SR(%s)", f.text(u.X)))
			lhs := make([]string, len(cm.Lhs))
			for i, l := range cm.Lhs {
				lhs[i] = f.text(l)
			}
			fn := "SelV"
			if len(lhs) == 2 {
				fn = "SelV2"
			}
			head += fmt.Sprintf(" %s %s zzvs.%s(%s);", strings.Join(lhs, ", "), cm.Tok, fn, f.text(u.X))
		}
		f.replace(cc.Case, cc.Colon+1, head)
	}
	args := append([]string{fmt.Sprint(def)}, cases...)
	f.replace(x.Select, x.Select+token.Pos(len("select")), "switch zzvs.Select("+strings.Join(args, ", ")+")")
}
