package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// ours are the packages that are rewritten.
var ours = map[string]bool{}

// pkgVar tells the variable of one of our packages that an expression names.
func (r *rewriter) pkgVar(id *ast.Ident) *types.Var {
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || !ours[v.Pkg().Path()] || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	return v
}

func named(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// synced are variables whose operations are steps of their own.
func synced(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := named(t)
	return strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") || n == "error" || types.Identical(t, types.Universe.Lookup("error").Type())
}

// wide are values that are torn or make the process die when they are used
// without synchronisation.
func wide(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Interface:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// headers are the parts of a statement that run before anything in its body does.
func headers(s ast.Stmt) (out []ast.Node) {
	add := func(ns ...ast.Node) { out = append(out, ns...) }
	opt := func(s ast.Stmt) {
		if s != nil {
			add(s)
		}
	}
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return headers(s.Stmt)
	case *ast.BlockStmt, *ast.SelectStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.IfStmt:
		opt(s.Init)
		add(s.Cond)
	case *ast.ForStmt:
		opt(s.Init)
		if s.Cond != nil {
			add(s.Cond)
		}
		opt(s.Post)
	case *ast.RangeStmt:
		add(s.X)
	case *ast.SwitchStmt:
		opt(s.Init)
		if s.Tag != nil {
			add(s.Tag)
		}
	case *ast.TypeSwitchStmt:
		opt(s.Init)
		add(s.Assign)
	default:
		add(s)
	}
	return out
}

type access struct {
	key   ast.Expr // evaluates to what identifies the thing
	write bool
}

// pure expressions can be evaluated once more.
func (r *rewriter) pure(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[e].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[x].(*types.PkgName); ok {
				_, ok := r.info.Uses[e.Sel].(*types.Var)
				return ok
			}
		}
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal || !r.pure(e.X) {
			return false
		}
		_, ptr := r.info.Types[e.X].Type.Underlying().(*types.Pointer)
		x, ok := ast.Unparen(e.X).(*ast.Ident)
		return !sel.Indirect() || (ptr && ok && x != nil) // a nil pointer would panic here as in the statement itself
	}
	return false
}

// touches lists what a statement surely uses, and tells whether it mentions a
// variable of a package at all.
func (r *rewriter) touches(s ast.Stmt) (out []access, mentions bool) {
	root := func(e ast.Expr) ast.Expr { // v of v[i].f[j]
		for {
			switch x := ast.Unparen(e).(type) {
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			default:
				return ast.Unparen(e)
			}
		}
	}
	writes := map[ast.Expr]bool{}
	clean := true // nothing in it may synchronise, or leave something out
	var parts []ast.Node
	for _, h := range headers(s) {
		if h != nil {
			parts = append(parts, h)
		}
	}
	for _, h := range parts {
		ast.Inspect(h, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					writes[root(l)] = true
					if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok && coreIs[*types.Map](r.typ(ix.X)) {
						writes[ast.Unparen(ix.X)] = true
					}
				}
			case *ast.IncDecStmt:
				writes[root(n.X)] = true
			case *ast.BinaryExpr:
				if n.Op == token.LAND || n.Op == token.LOR {
					clean = false
				}
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					clean = false
				}
			case *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
				clean = false
			case *ast.CallExpr:
				if tv, ok := r.info.Types[n.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
					if (r.builtin(n.Fun, "delete") || r.builtin(n.Fun, "clear")) && len(n.Args) > 0 {
						writes[ast.Unparen(n.Args[0])] = true
					}
					return true
				}
				ok := false
				if sel, is := ast.Unparen(n.Fun).(*ast.SelectorExpr); is {
					if f, is := r.info.Uses[sel.Sel].(*types.Func); is && f.Pkg() != nil {
						switch p := f.Pkg().Path(); p {
						case "strings", "strconv", "unicode", "unicode/utf8", "math", "bytes", "github.com/rivo/uniseg", "github.com/mattn/go-runewidth":
							ok = true
						}
					}
				}
				if !ok {
					clean = false
				}
			}
			return true
		})
	}
	for i, h := range parts {
		sure := clean && i == 0
		ast.Inspect(h, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.Ident:
				v := r.pkgVar(n)
				if v == nil || synced(v.Type()) {
					return true
				}
				mentions = true
			case *ast.IndexExpr:
				if sure && coreIs[*types.Map](r.typ(n.X)) && r.pure(n.X) {
					out = append(out, access{n.X, writes[ast.Unparen(n.X)]})
				}
			case *ast.CallExpr:
				if sure && (r.builtin(n.Fun, "delete") || r.builtin(n.Fun, "clear")) && coreIs[*types.Map](r.typ(n.Args[0])) && r.pure(n.Args[0]) {
					out = append(out, access{n.Args[0], true})
				}
			}
			return true
		})
		if !sure {
			continue
		}
		ast.Inspect(h, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.SelectorExpr:
				if v := r.pkgVar(n.Sel); v != nil && wide(v.Type()) && !synced(v.Type()) {
					out = append(out, access{&ast.UnaryExpr{Op: token.AND, X: n}, writes[n] && !coreIs[*types.Map](r.typ(n)) || writes[n] && r.assigned(h, n)})
					return false
				}
			case *ast.Ident:
				if v := r.pkgVar(n); v != nil && wide(v.Type()) && !synced(v.Type()) {
					out = append(out, access{&ast.UnaryExpr{Op: token.AND, X: n}, writes[n] && (!coreIs[*types.Map](r.typ(n)) || r.assigned(h, n))})
				}
			}
			return true
		})
	}
	return out, mentions
}

// assigned tells whether a variable itself is assigned to.
func (r *rewriter) assigned(h ast.Node, v ast.Expr) bool {
	a, ok := h.(*ast.AssignStmt)
	if !ok {
		return false
	}
	for _, l := range a.Lhs {
		if ast.Unparen(l) == v {
			return true
		}
	}
	return false
}

func copyOf(e ast.Expr) ast.Expr {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return ast.NewIdent(e.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: copyOf(e.X), Sel: ast.NewIdent(e.Sel.Name)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: e.Op, X: copyOf(e.X)}
	}
	panic("copyOf")
}

func (r *rewriter) shared(f *ast.File) {
	list := func(in []ast.Stmt) (out []ast.Stmt) {
		for _, s := range in {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				out = append(out, s)
				continue
			}
			// x[k] = f(): the call comes first
			if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
				if call, ok := ast.Unparen(a.Rhs[0]).(*ast.CallExpr); ok {
					if ix, ok := ast.Unparen(a.Lhs[0]).(*ast.IndexExpr); ok && coreIs[*types.Map](r.typ(ix.X)) && r.pure(ix.X) && r.pure(ix.Index) {
						tv := r.info.Types[call.Fun]
						if t := r.typ(call); t != nil && !tv.IsType() && !tv.IsBuiltin() {
							v := r.fresh("t")
							out = append(out, r.step(&ast.ExprStmt{X: call})...)
							out = append(out, define([]ast.Expr{v}, call))
							r.info.Uses[v] = types.NewVar(0, r.pkg, v.Name, t)
							a.Rhs[0] = id(v)
							r.info.Uses[a.Rhs[0].(*ast.Ident)] = r.info.Uses[v]
						}
					}
				}
			}
			out = append(out, r.step(s)...)
			out = append(out, s)
		}
		return out
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = list(n.List)
		case *ast.CaseClause:
			n.Body = list(n.Body)
		case *ast.CommClause:
			n.Body = list(n.Body)
		}
		return true
	})
}

func (r *rewriter) step(s ast.Stmt) (out []ast.Stmt) {
	acc, mentions := r.touches(s)
	seen := map[string]bool{}
	for _, a := range acc {
		k := types.ExprString(a.key) + strconv.FormatBool(a.write)
		if seen[k] {
			continue
		}
		seen[k] = true
		name := "Reads"
		if a.write {
			name = "Writes"
		}
		if u, ok := a.key.(*ast.UnaryExpr); ok && u.Op == token.AND {
			name += "Var"
		} else {
			name += "Map"
		}
		out = append(out, &ast.ExprStmt{X: r.call(name, copyOf(a.key))})
	}
	if mentions {
		out = append(out, &ast.ExprStmt{X: r.call("Shared")})
	} else if len(out) == 0 {
		out = append(out, &ast.ExprStmt{X: r.call("Step")})
	}
	return out
}
