// instr rewrites gotgt's current sources into an instrumented copy and writes a go build overlay for it.
//
//	instr [-maps] REPO OUTDIR
//
// Nothing is matched by name except packages sync and sync/atomic, net.Listen and the go statement, so a
// refactored tree is instrumented just the same.  With -maps every access to a value of map type is
// reported to the shim as well (needs type information; export data come from "go list -export").
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	shimPath = "verifmc/shim"
	modPath  = "github.com/gostor/gotgt"
)

func die(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

type pkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

func main() {
	maps := flag.Bool("maps", false, "instrument map accesses")
	doFiles := flag.Bool("files", false, "instrument file operations")
	doAPI := flag.Bool("api", false, "instrument the management interface's network")
	modDir := flag.String("mod", ".", "directory of the checking module")
	flag.Parse()
	repo, out := flag.Arg(0), flag.Arg(1)
	args := []string{"list", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module"}
	args = append(args, "-export")
	args = append(args, "github.com/gostor/gotgt/pkg/...")
	if *doAPI {
		args = append(args, "github.com/gostor/gotgt/cmd")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *modDir
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		die(fmt.Errorf("go list: %w", err))
	}
	dec := json.NewDecoder(bytes.NewReader(js))
	exports := map[string]string{}
	var pkgs []pkg
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == "github.com/gostor/gotgt" {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	replace := map[string]string{}
	unmodelled := []string{}
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				die(err)
			}
			files = append(files, a)
			names = append(names, path)
		}
		var info *types.Info
		{
			info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
			imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				e := exports[path]
				if e == "" {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(e)
			})
			conf := types.Config{Importer: imp, Error: func(error) {}}
			conf.Check(p.ImportPath, fset, files, info)
		}
		for i, f := range files {
			// comments are dropped (except directives the build needs: none in these files)
			f.Comments = keepDirectives(f)
			in := &instr{fset: fset, info: info, file: f, doMaps: *maps, doFiles: *doFiles, doAPI: *doAPI}
			in.run()
			unmodelled = append(unmodelled, in.unmodelled...)
			if !in.changed {
				continue
			}
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				die(fmt.Errorf("%s: %w", names[i], err))
			}
			rel, _ := filepath.Rel(repo, names[i])
			dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				die(err)
			}
			replace[names[i]] = dst
		}
	}
	o, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), o, 0o644); err != nil {
		die(err)
	}
	sort.Strings(unmodelled)
	os.WriteFile(filepath.Join(out, "unmodelled.txt"), []byte(strings.Join(unmodelled, "\n")), 0o644)
}

func keepDirectives(f *ast.File) []*ast.CommentGroup {
	var r []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.Pos() < f.Package {
			var l []*ast.Comment
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:build") {
					l = append(l, c)
				}
			}
			if l != nil {
				r = append(r, &ast.CommentGroup{List: l})
			}
		}
	}
	return r
}

type instr struct {
	fset       *token.FileSet
	info       *types.Info
	file       *ast.File
	changed    bool
	needShim   bool
	unmodelled []string
	n          int
	done       map[*ast.GoStmt]bool

	doMaps, doFiles bool
	doAPI           bool
	doFields        func()
}

func (in *instr) importName(path string) string {
	for _, s := range in.file.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if p == path {
			if s.Name != nil {
				return s.Name.Name
			}
			return path[strings.LastIndex(path, "/")+1:]
		}
	}
	return ""
}

func shimSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vshim"), Sel: ast.NewIdent(name)}
}

// sockets puts the connections of the management interface into the world.
func (in *instr) sockets() {
	name := in.importName("github.com/docker/go-connections/sockets")
	if name == "" {
		return
	}
	ast.Inspect(in.file, func(n ast.Node) bool {
		x, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if id, ok := x.X.(*ast.Ident); ok && id.Name == name && (x.Sel.Name == "NewTCPSocket" || x.Sel.Name == "ConfigureTransport") {
			id.Name = "vshim"
			in.needShim = true
		}
		return true
	})
	in.file.Decls = append(in.file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
		Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("NewInmemSocket")}}}}})
}

func (in *instr) run() {
	f := in.file
	for _, s := range f.Imports {
		if p, _ := strconv.Unquote(s.Path.Value); p == "sync" {
			name := "sync"
			if s.Name != nil {
				name = s.Name.Name
			}
			s.Name = ast.NewIdent(name)
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shimPath), ValuePos: s.Path.ValuePos}
			in.changed = true
		} else if p == "sync/atomic" {
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shimPath + "/atomic"), ValuePos: s.Path.ValuePos}
			in.changed = true
		}
	}
	// map accesses first: they need the original nodes
	ranges := in.mapRanges()
	if in.doMaps {
		in.fields()
		in.shared()
		in.maps()
		in.doFields()
	}
	in.orderRanges(ranges)
	if in.doFiles {
		in.files()
	}
	netName := in.importName("net")
	usedNet := false
	listen := "Listen"
	if in.doAPI {
		if strings.Contains(in.fset.Position(f.Pos()).Filename, "/apiserver/") {
			listen = "APIListen"
		}
		in.sockets()
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && netName != "" && id.Name == netName {
				if x.Sel.Name == "Listen" {
					id.Name, x.Sel.Name = "vshim", listen
					in.needShim = true
				} else {
					usedNet = true
				}
			}
		case *ast.SendStmt, *ast.SelectStmt:
			in.unmodelled = append(in.unmodelled, in.fset.Position(n.Pos()).String()+": channel")
		}
		return true
	}
	ast.Inspect(f, visit)
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			in.stmts(fd.Body)
		}
		if gd, ok := d.(*ast.GenDecl); ok {
			ast.Inspect(gd, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					in.stmts(fl.Body)
					return false
				}
				return true
			})
		}
	}
	if in.needShim {
		in.changed = true
		spec := &ast.ImportSpec{Name: ast.NewIdent("vshim"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shimPath)}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
		if netName != "" && !usedNet {
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
				Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(netName), Sel: ast.NewIdent("IPv4len")}}}}})
		}
	}
}

// stmts rewrites every go statement below n.
func (in *instr) stmts(n ast.Node) {
	fix := func(list []ast.Stmt) {
		for i, s := range list {
			if g, ok := s.(*ast.GoStmt); ok && !in.done[g] {
				list[i] = in.goStmt(g)
			}
			if l, ok := s.(*ast.LabeledStmt); ok {
				if g, ok := l.Stmt.(*ast.GoStmt); ok && !in.done[g] {
					l.Stmt = in.goStmt(g)
				}
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			fix(x.List)
		case *ast.CaseClause:
			fix(x.Body)
		case *ast.CommClause:
			fix(x.Body)
		}
		return true
	})
}

func (in *instr) goStmt(g *ast.GoStmt) ast.Stmt {
	in.needShim = true
	if in.done == nil {
		in.done = map[*ast.GoStmt]bool{}
	}
	in.done[g] = true
	in.n++
	tok := ast.NewIdent(fmt.Sprintf("__vtok%d", in.n))
	pre := &ast.AssignStmt{Lhs: []ast.Expr{tok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: shimSel("PreGo")}}}
	if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
		def := &ast.DeferStmt{Call: &ast.CallExpr{Fun: shimSel("Exit"), Args: []ast.Expr{&ast.CallExpr{Fun: shimSel("Enter"), Args: []ast.Expr{ast.NewIdent(tok.Name)}}}}}
		fl.Body.List = append([]ast.Stmt{def}, fl.Body.List...)
	} else {
		g.Call.Fun = &ast.CallExpr{Fun: shimSel("Fn"), Args: []ast.Expr{ast.NewIdent(tok.Name), g.Call.Fun}}
	}
	return &ast.BlockStmt{List: []ast.Stmt{pre, g}}
}

func (in *instr) isMap(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// simple tells whether evaluating e a second time has no side effects.
func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// mapRanges lists the loops over maps.
func (in *instr) mapRanges() (l []*ast.RangeStmt) {
	ast.Inspect(in.file, func(n ast.Node) bool {
		if r, ok := n.(*ast.RangeStmt); ok && r.Key != nil && in.isMap(r.X) {
			l = append(l, r)
		}
		return true
	})
	return
}

// orderRanges makes the order in which a map is walked a choice of the harness: range m becomes
// range vshim.Entries(m), skipping entries that were deleted meanwhile.
func (in *instr) orderRanges(l []*ast.RangeStmt) {
	for _, r := range l {
		in.needShim = true
		in.n++
		e := fmt.Sprintf("__vent%d", in.n)
		asg := &ast.AssignStmt{Tok: r.Tok}
		add := func(x ast.Expr, m string) {
			if x == nil {
				return
			}
			if id, ok := x.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			asg.Lhs = append(asg.Lhs, x)
			asg.Rhs = append(asg.Rhs, &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(e), Sel: ast.NewIdent(m)}})
		}
		add(r.Key, "Key")
		add(r.Value, "Val")
		pre := []ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(e), Sel: ast.NewIdent("Live")}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
		if len(asg.Lhs) > 0 {
			pre = append(pre, asg)
		}
		r.Body.List = append(pre, r.Body.List...)
		r.X = &ast.CallExpr{Fun: shimSel("Entries"), Args: []ast.Expr{r.X}}
		r.Key, r.Value, r.Tok = ast.NewIdent("_"), ast.NewIdent(e), token.DEFINE
	}
}

// hasLock tells whether a struct type holds a lock, which makes it a thing that threads share.
func hasLock(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if strings.HasSuffix(t.String(), "/api.SCSILu") {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "net.Conn" {
			return false // the goroutines of a connection take turns
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		switch s := strings.TrimPrefix(st.Field(i).Type().String(), "*"); s {
		case "sync.Mutex", "sync.RWMutex":
			return true
		}
	}
	return false
}

// isShared tells whether an assignment to e may be seen by other threads.
func (in *instr) isShared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := in.info.Uses[x].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.SelectorExpr:
		if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil && hasLock(tv.Type) {
			return true
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				return true
			}
		}
		if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Struct); ok {
				return in.isShared(x.X)
			}
		}
	}
	return false
}

// shared puts a scheduling point between the evaluation and the store of every assignment to a shared
// variable or field.
func (in *instr) shared() {
	pt := func(v, e ast.Expr) ast.Expr {
		in.needShim = true
		p := in.fset.Position(e.Pos())
		return &ast.CallExpr{Fun: shimSel("P"), Args: []ast.Expr{v, &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))}}}
	}
	typed := func(v, lhs ast.Expr) bool { // the value has the type of the target already
		a, b := in.info.Types[v], in.info.Types[lhs]
		return a.Type != nil && b.Type != nil && types.Identical(a.Type, b.Type) && a.Value == nil
	}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !in.isShared(x.Lhs[0]) || !simple(x.Lhs[0]) {
				return true
			}
			if x.Tok == token.ASSIGN {
				if typed(x.Rhs[0], x.Lhs[0]) {
					x.Rhs[0] = pt(x.Rhs[0], x.Lhs[0])
				} else if in.info.Types[x.Rhs[0]].Value != nil {
					l := x.Lhs[0]
					x.Rhs[0] = &ast.CallExpr{Fun: shimSel("PT"), Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: l}, x.Rhs[0]}}
				}
				return true
			}
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}[x.Tok]
			if op != 0 {
				x.Tok = token.ASSIGN
				x.Rhs[0] = pt(&ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}, x.Lhs[0])
			}
		case *ast.BlockStmt:
			for i, s := range x.List {
				if d, ok := s.(*ast.IncDecStmt); ok && in.isShared(d.X) && simple(d.X) {
					op := token.ADD
					if d.Tok == token.DEC {
						op = token.SUB
					}
					x.List[i] = &ast.AssignStmt{Lhs: []ast.Expr{d.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{pt(&ast.BinaryExpr{X: d.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}, d.X)}}
				}
			}
		}
		return true
	})
}

// maps wraps the map operand of every access: m[k] becomes vshim.R(m, pos)[k], writes vshim.W(m, pos)[k],
// delete(vshim.W(m)...), range vshim.R(m) with a report per iteration, len(m) likewise.
func (in *instr) maps() {
	writes := map[ast.Expr]bool{}
	rmw := map[ast.Expr]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					writes[ix] = true
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := x.X.(*ast.IndexExpr); ok {
				rmw[ix] = true
				writes[ix] = true
			}
		}
		return true
	})
	wrap := func(e ast.Expr, w bool) ast.Expr {
		in.needShim = true
		name := "R"
		if w {
			name = "W"
		}
		p := in.fset.Position(e.Pos())
		pos := fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
		return &ast.CallExpr{Fun: shimSel(name), Args: []ast.Expr{e, &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(pos)}}}
	}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IndexExpr:
			if in.isMap(x.X) {
				x.X = wrap(x.X, writes[x])
			}
		case *ast.RangeStmt:
			if in.isMap(x.X) {
				orig := x.X
				x.X = wrap(orig, false)
				if simple(orig) {
					// the iterator reads the map again after every pass through the body
					call := wrap(orig, false)
					x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call}}, x.Body.List...)
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 && in.isMap(x.Args[0]) {
				switch id.Name {
				case "delete", "clear":
					x.Args[0] = wrap(x.Args[0], true)
				case "len":
					x.Args[0] = wrap(x.Args[0], false)
				}
			}
		}
		return true
	})
}

var fileMethods = map[string]bool{"WriteAt": true, "Write": true, "WriteString": true, "ReadAt": true, "Read": true, "Seek": true, "Sync": true, "Truncate": true, "Close": true}
var fileFuncs = map[string]map[string]bool{
	"os":                    {"Rename": true, "Remove": true, "RemoveAll": true, "OpenFile": true, "Create": true, "CreateTemp": true, "WriteFile": true, "MkdirAll": true, "Truncate": true},
	"io/ioutil":             {"WriteFile": true, "TempFile": true},
	"syscall":               {"Fdatasync": true, "Fsync": true},
	"golang.org/x/sys/unix": {"Fdatasync": true, "Fsync": true},
}

// files sends every durability-relevant file operation through the shim: methods of *os.File and functions
// of os, ioutil, syscall and unix, recognised by their types.
func (in *instr) files() {
	used := map[string]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		x, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if s := in.info.Selections[x]; s != nil {
			if fn, ok := s.Obj().(*types.Func); ok && s.Kind() == types.MethodVal && fn.Pkg() != nil && fn.Pkg().Path() == "os" && fileMethods[fn.Name()] && s.Recv().String() == "*os.File" {
				x.X = &ast.CallExpr{Fun: shimSel("F"), Args: []ast.Expr{x.X}}
				in.needShim = true
			}
			return true
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if fileFuncs[path][x.Sel.Name] {
					used[path] = true
					id.Name = "vshim"
					in.needShim = true
				}
			}
		}
		return true
	})
	for path := range used {
		// the import may be left without a use
		keep := map[string]string{"os": "Getpid", "io/ioutil": "Discard", "syscall": "Getpid", "golang.org/x/sys/unix": "Getpid"}[path]
		in.file.Decls = append(in.file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(in.importName(path)), Sel: ast.NewIdent(keep)}}}}})
	}
}
