package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

// tracked tells whether the accesses to e, a variable or field other threads may see, are reported.
func (in *instr) tracked(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil || tv.Value != nil || !tv.Addressable() || !in.isShared(e) && !in.ofModule(e) {
		return false
	}
	if x, ok := e.(*ast.SelectorExpr); ok {
		if s, ok := in.info.Selections[x]; ok {
			if s.Kind() != types.FieldVal {
				return false
			}
		} else if v, ok := in.info.Uses[x.Sel].(*types.Var); !ok || v.IsField() || v.Pkg() == nil || !strings.HasPrefix(v.Pkg().Path(), modPath) {
			return false
		}
	}
	switch t := tv.Type.Underlying().(type) {
	case *types.Struct:
		return mutable(tv.Type)
	case *types.Pointer:
		if n := t.Elem().String(); strings.HasPrefix(n, "sync") {
			return false
		}
	}
	return true
}

// mutable tells whether a type is one of those of the standard library whose methods change the value and are
// not for use by several threads.
func mutable(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "bytes", "strings", "bufio", "container/list", "container/ring", "math/rand", "math/big":
		_, ok = n.Underlying().(*types.Struct)
		return ok && n.Obj().Name() != "Replacer"
	}
	return false
}

// observers are the methods of such types that change nothing.
var observers = map[string]bool{"Len": true, "Bytes": true, "String": true, "Cap": true, "Size": true, "Available": true, "Buffered": true,
	"Cmp": true, "Sign": true, "Int64": true, "Uint64": true, "IsInt64": true, "IsUint64": true, "BitLen": true, "Front": true, "Back": true, "Text": true}

// fields reports every read and write of a shared variable or field, by its address, for the happens-before
// relation; it adds no scheduling points.
func (in *instr) fields() {
	reads := map[ast.Expr]bool{}
	elems := map[*ast.IndexExpr]bool{} // elements of shared slices
	dst := map[ast.Expr]bool{}         // shared slices copied to
	meth := map[*ast.SelectorExpr]string{}
	elem := func(e ast.Expr) bool {
		if !in.tracked(e) {
			return false
		}
		_, ok := in.info.Types[e].Type.Underlying().(*types.Slice)
		return ok
	}
	for _, d := range in.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok && in.tracked(e) {
				reads[e] = true
			}
			switch x := n.(type) {
			case *ast.IndexExpr:
				elems[x] = elem(x.X)
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "copy" && len(x.Args) == 2 {
					if s, ok := x.Args[0].(*ast.SliceExpr); ok {
						dst[s] = elem(s.X)
					} else {
						dst[x.Args[0]] = elem(x.Args[0])
					}
				}
			case *ast.SelectorExpr: // a method of something mutable
				if s, ok := in.info.Selections[x]; ok && s.Kind() == types.MethodVal {
					if tv := in.info.Types[x.X]; tv.Type != nil && mutable(tv.Type) {
						name := "W"
						if observers[x.Sel.Name] {
							name = "R"
						}
						if _, ok := tv.Type.(*types.Pointer); ok {
							meth[x] = name + "P"
						} else if in.tracked(x.X) {
							meth[x] = name + "F"
						}
					}
				}
			}
			return true
		})
	}
	in.doFields = func() {
		if len(reads) == 0 && len(meth) == 0 {
			return
		}
		at := func(e ast.Expr) ast.Expr {
			pos := e.Pos()
			if x, ok := e.(*ast.SelectorExpr); ok {
				pos = x.Sel.Pos()
			}
			p := in.fset.Position(pos)
			return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))}
		}
		through := func(e, pos ast.Expr, name string) ast.Expr {
			in.needShim = true
			return &ast.CallExpr{Fun: shimSel(name), Args: []ast.Expr{e, at(pos)}}
		}
		wrap := func(e ast.Expr, name string) ast.Expr {
			return &ast.ParenExpr{X: &ast.StarExpr{X: through(&ast.UnaryExpr{Op: token.AND, X: e}, e, name)}}
		}
		exprT := reflect.TypeOf((*ast.Expr)(nil)).Elem()
		var walk func(v reflect.Value, lhs bool)
		one := func(v reflect.Value, lhs bool) { // v is settable, of type ast.Expr
			e, _ := v.Interface().(ast.Expr)
			if e == nil {
				return
			}
			if reads[e] {
				if sel, ok := e.(*ast.SelectorExpr); ok {
					c := *sel // the node may stand in two places
					walk(reflect.ValueOf(&c), false)
					e = &c
				}
				name := "RF"
				if lhs {
					name = "WF"
				}
				v.Set(reflect.ValueOf(wrap(e, name)))
				return
			}
			walk(reflect.ValueOf(e), lhs)
		}
		walk = func(v reflect.Value, lhs bool) {
			switch n := v.Interface().(type) {
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if reads[n.X] { // an address: only its base is read
						if sel, ok := n.X.(*ast.SelectorExpr); ok {
							c := *sel
							walk(reflect.ValueOf(&c), false)
							n.X = &c
						}
						return
					}
				}
			case *ast.AssignStmt:
				for i := range n.Rhs {
					one(reflect.ValueOf(&n.Rhs[i]).Elem(), false)
				}
				for i := range n.Lhs {
					one(reflect.ValueOf(&n.Lhs[i]).Elem(), true)
				}
				return
			case *ast.IncDecStmt:
				one(reflect.ValueOf(&n.X).Elem(), true)
				return
			case *ast.IndexExpr:
				at := n.X
				isArray := false
				if tv := in.info.Types[at]; tv.Type != nil {
					_, isArray = tv.Type.Underlying().(*types.Array)
				}
				one(reflect.ValueOf(&n.X).Elem(), lhs && isArray)
				one(reflect.ValueOf(&n.Index).Elem(), false)
				if elems[n] {
					name := "RE"
					if lhs {
						name = "WE"
					}
					n.X = through(n.X, at, name)
				}
				return
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					a := n.Args[0]
					s, sliced := a.(*ast.SliceExpr)
					if dst[a] {
						at := a
						if sliced {
							at = s.X
						}
						for i := range n.Args {
							one(reflect.ValueOf(&n.Args[i]).Elem(), false)
						}
						if sliced {
							s.X = through(s.X, at, "WE")
						} else {
							n.Args[0] = through(n.Args[0], at, "WE")
						}
						return
					}
				}
			case *ast.SelectorExpr:
				if name := meth[n]; name != "" {
					at := n.X
					one(reflect.ValueOf(&n.X).Elem(), name == "WF")
					if name[1] == 'P' {
						n.X = through(n.X, at, name)
					}
					return
				}
			case *ast.ParenExpr:
				one(reflect.ValueOf(&n.X).Elem(), lhs)
				return
			case *ast.Object, *ast.Scope, *ast.Ident, *ast.BasicLit:
				return
			}
			if v.Kind() == reflect.Pointer {
				v = v.Elem()
			}
			if v.Kind() != reflect.Struct {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if !f.CanSet() {
					continue
				}
				var do func(f reflect.Value)
				do = func(f reflect.Value) {
					switch {
					case f.Type() == exprT:
						if !f.IsNil() {
							one(f, false)
						}
					case f.Kind() == reflect.Slice:
						for j := 0; j < f.Len(); j++ {
							do(f.Index(j))
						}
					case f.Kind() == reflect.Interface || f.Kind() == reflect.Pointer:
						if f.IsNil() {
							return
						}
						x := f
						if f.Kind() == reflect.Interface {
							x = f.Elem()
						}
						if _, ok := x.Interface().(ast.Node); ok {
							walk(x, false)
						}
					}
				}
				do(f)
			}
		}
		for _, d := range in.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				walk(reflect.ValueOf(fd.Body), false)
			}
		}
	}
}

// ofModule tells whether e is a field reached by a pointer to a struct of the target.
func (in *instr) ofModule(e ast.Expr) bool {
	x, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	tv, ok := in.info.Types[x.X]
	if !ok || tv.Type == nil {
		return false
	}
	t := tv.Type
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	} else if !in.ofModule(x.X) {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}
