// rewrite makes copies of packages of the code under test in which
//
//   - mode sched: everything that communicates (goroutines, channels, select,
//     locks, time, signals, the terminal) goes through package vs, which runs it
//     under a controlled scheduler;
//   - mode maporder: besides, every walk over a map asks package vs for the order;
//   - mode shared: maporder for all packages, and what touches a variable of a
//     package, or a map, is a step too, as are the statements that follow it.
//
// It works on types, not on names: any code that compiles is rewritten alike.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

type listed struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	DepOnly    bool
	ImportMap  map[string]string
}

// shims maps what the code refers to in other packages to names in package vs.
var shims = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond", "Locker": "Locker",
		"OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues", "Pool": "Pool", "Map": "SyncMap",
	},
	"sync/atomic": {
		"Uint64": "AtomicUint64", "Int64": "AtomicInt64", "Uint32": "AtomicUint32", "Int32": "AtomicInt32", "Bool": "AtomicBool", "Pointer": "AtomicPointer", "Value": "AtomicValue",
		"AddUint64": "AtomicAdd", "AddInt64": "AtomicAdd", "AddUint32": "AtomicAdd", "AddInt32": "AtomicAdd",
		"LoadUint64": "AtomicLoad", "LoadInt64": "AtomicLoad", "LoadUint32": "AtomicLoad", "LoadInt32": "AtomicLoad",
		"StoreUint64": "AtomicStore", "StoreInt64": "AtomicStore", "StoreUint32": "AtomicStore", "StoreInt32": "AtomicStore",
		"SwapUint64": "AtomicSwap", "SwapInt64": "AtomicSwap", "SwapUint32": "AtomicSwap", "SwapInt32": "AtomicSwap",
		"CompareAndSwapUint64": "AtomicCAS", "CompareAndSwapInt64": "AtomicCAS", "CompareAndSwapUint32": "AtomicCAS", "CompareAndSwapInt32": "AtomicCAS",
	},
	"time": {
		"After": "After", "Sleep": "Sleep", "NewTimer": "NewTimer", "Timer": "Timer", "AfterFunc": "AfterFunc",
		"NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "Tick", "Now": "Now", "Since": "Since",
	},
	"context": {
		"AfterFunc": "CtxAfterFunc", "WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline", "WithCancel": "CtxWithCancel", "WithCancelCause": "CtxWithCancelCause",
	},
	"golang.org/x/sync/errgroup": {"Group": "ErrGroup", "WithContext": "ErrGroupWithContext"},
	"os/signal":                  {"Notify": "SignalNotify", "Stop": "SignalStop", "NotifyContext": "SignalNotifyContext", "Reset": "SignalReset", "Ignore": "SignalIgnore"},
	"os": {
		"File": "File", "Stdin": "Stdin", "Stdout": "Stdout", "Stderr": "Stderr", "Open": "Open", "OpenFile": "OpenFile", "Exit": "Exit",
	},
	"fmt":           {"Print": "Print", "Printf": "Printf", "Println": "Println"},
	"runtime":       {"Gosched": "Yield", "Goexit": "Goexit"},
	"runtime/debug": {"PrintStack": "PrintStack"},
	"github.com/muesli/cancelreader": {
		"NewReader": "NewCancelReader",
	},
	"github.com/charmbracelet/x/term": {
		"IsTerminal": "IsTerminal", "MakeRaw": "MakeRaw", "Restore": "Restore", "GetSize": "GetSize", "GetState": "GetState", "SetState": "Restore",
	},
}

const vsPath = "github.com/metafates/bento/internal/zzverif/vs"

var (
	mode = flag.String("mode", "", "sched or maporder")
	repo = flag.String("repo", "/repo", "")
	out  = flag.String("out", "", "")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	var pkgs []string
	switch *mode {
	case "sched":
		pkgs = []string{".", "./internal/ansi"}
	case "maporder":
		pkgs = []string{".", "./internal/casso"}
	case "shared":
		pkgs = []string{".", "./internal/...", "./widget/..."}
	default:
		die("unknown mode %q", *mode)
	}
	cmd := exec.Command("go", append([]string{"list", "-buildvcs=false", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,DepOnly,ImportMap"}, pkgs...)...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var targets []listed
	for dec := json.NewDecoder(bytes.NewReader(raw)); ; {
		var p listed
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			targets = append(targets, p)
		}
	}
	mapFile, err := os.Create(filepath.Join(*out, "map.txt"))
	if err != nil {
		die("%v", err)
	}
	defer mapFile.Close()
	for _, p := range targets {
		ours[p.ImportPath] = true
	}
	for n, p := range targets {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, a)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp}
		pkg, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("%v", err)
		}
		for i, f := range files {
			r := &rewriter{fset: fset, info: info, pkg: pkg}
			r.file(f)
			if !r.changed {
				continue
			}
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				die("%s: %v", p.GoFiles[i], err)
			}
			dst := filepath.Join(*out, fmt.Sprintf("%d_%s", n, p.GoFiles[i]))
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			fmt.Fprintf(mapFile, "%s\t%s\n", filepath.Join(p.Dir, p.GoFiles[i]), dst)
		}
	}
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	changed bool
	n       int
}

func (r *rewriter) fresh(s string) *ast.Ident {
	r.n++
	return ast.NewIdent("zz" + s + strconv.Itoa(r.n))
}

func (r *rewriter) vs(name string) ast.Expr {
	r.changed = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzvs"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok {
		return t.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreIs[T types.Type](t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(T)
	return ok
}

func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) file(f *ast.File) {
	if *mode == "shared" {
		r.shared(f)
	}
	if *mode != "sched" {
		r.mapOrder(f)
	}
	r.sched(f)
	if !r.changed {
		return
	}
	// imports that are no longer referred to go
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	imports := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			sp := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(sp.Path.Value)
			name := ""
			if sp.Name != nil {
				name = sp.Name.Name
			} else {
				for _, im := range r.pkg.Imports() {
					if im.Path() == path {
						name = im.Name()
					}
				}
			}
			if name == "_" || name == "." || used[name] {
				imports.Specs = append(imports.Specs, sp)
			}
		}
	}
	imports.Specs = append(imports.Specs, &ast.ImportSpec{Name: ast.NewIdent("zzvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsPath)}})
	f.Decls = append([]ast.Decl{imports}, decls...)
	f.Comments = nil
}

func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func id(e *ast.Ident) *ast.Ident { return ast.NewIdent(e.Name) }

// label puts a statement made of a prelude and a core, where the label of the
// original statement (if any) has to stay with the core.
func (r *rewriter) replace(c *astutil.Cursor, core ast.Stmt, prelude ...ast.Stmt) {
	if l, ok := c.Parent().(*ast.LabeledStmt); ok {
		// the labelled statement is replaced when the walk gets back to it
		r.pending(l, core, prelude)
		return
	}
	c.Replace(&ast.BlockStmt{List: append(prelude, core)})
}

type pend struct {
	core    ast.Stmt
	prelude []ast.Stmt
}

var pends = map[*ast.LabeledStmt]pend{}

func (r *rewriter) pending(l *ast.LabeledStmt, core ast.Stmt, prelude []ast.Stmt) {
	pends[l] = pend{core, prelude}
}

func (r *rewriter) mapOrder(f *ast.File) {
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		if l, ok := c.Node().(*ast.LabeledStmt); ok {
			if p, ok := pends[l]; ok {
				l.Stmt = p.core
				c.Replace(&ast.BlockStmt{List: append(p.prelude, l)})
			}
			return true
		}
		s, ok := c.Node().(*ast.RangeStmt)
		if !ok || !coreIs[*types.Map](r.typ(s.X)) {
			return true
		}
		m, k, v, has := r.fresh("m"), r.fresh("k"), r.fresh("v"), r.fresh("ok")
		var body []ast.Stmt
		body = append(body,
			define([]ast.Expr{id(v), id(has)}, &ast.IndexExpr{X: id(m), Index: id(k)}),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(has)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
		)
		asg := func(lhs ast.Expr, rhs *ast.Ident) {
			if lhs == nil {
				return
			}
			if x, ok := lhs.(*ast.Ident); ok && x.Name == "_" {
				return
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: s.Tok, Rhs: []ast.Expr{id(rhs)}})
		}
		asg(s.Key, k)
		asg(s.Value, v)
		body = append(body, s.Body)
		core := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: r.call("Keys", id(m)), Body: &ast.BlockStmt{List: body}}
		r.replace(c, core, define([]ast.Expr{m}, s.X))
		return true
	})
}

func (r *rewriter) sched(f *ast.File) {
	// statements whose channel operations belong to a select
	inSelect := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
			inSelect[c.Comm] = true
			ast.Inspect(c.Comm, func(m ast.Node) bool {
				switch m := m.(type) {
				case *ast.UnaryExpr:
					if m.Op == token.ARROW {
						inSelect[m] = true
						return false
					}
				case *ast.AssignStmt:
					return true
				case *ast.SendStmt:
					return false
				case *ast.FuncLit:
					return false
				}
				return true
			})
		}
		return true
	})
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.LabeledStmt:
			if p, ok := pends[n]; ok {
				n.Stmt = p.core
				c.Replace(&ast.BlockStmt{List: append(p.prelude, n)})
			}
		case *ast.SelectorExpr:
			x, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := r.info.Uses[x].(*types.PkgName)
			if !ok {
				return true
			}
			if name := shims[pn.Imported().Path()][n.Sel.Name]; name != "" {
				if f.Name.Name == "ansi" && strings.HasPrefix(pn.Imported().Path(), "fmt") {
					return true
				}
				c.Replace(r.vs(name))
			}
		case *ast.SendStmt:
			if inSelect[n] {
				return true
			}
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("SendTo", n.Chan), Sel: ast.NewIdent("Do")}, Args: []ast.Expr{n.Value}}})
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || inSelect[n] {
				return true
			}
			name := "Recv"
			switch p := c.Parent().(type) {
			case *ast.AssignStmt:
				if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
					name = "Recv2"
				}
			case *ast.ValueSpec:
				if len(p.Names) == 2 && len(p.Values) == 1 {
					name = "Recv2"
				}
			}
			c.Replace(r.call(name, n.X))
		case *ast.CallExpr:
			if r.builtin(n.Fun, "close") {
				n.Fun = r.vs("Close")
			}
		case *ast.RangeStmt:
			if !coreIs[*types.Chan](r.typ(n.X)) {
				return true
			}
			ch, v, ok := r.fresh("c"), r.fresh("v"), r.fresh("ok")
			body := []ast.Stmt{
				define([]ast.Expr{v, ok}, r.call("Recv2", id(ch))),
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
			}
			if n.Key != nil {
				if x, isId := n.Key.(*ast.Ident); !isId || x.Name != "_" {
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{id(v)}})
				}
			}
			body = append(body, n.Body)
			r.replace(c, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}, define([]ast.Expr{ch}, n.X))
		case *ast.GoStmt:
			r.goStmt(c, n)
		case *ast.SelectStmt:
			r.selectStmt(c, n)
		}
		return true
	})
}

func (r *rewriter) goStmt(c *astutil.Cursor, n *ast.GoStmt) {
	call := n.Call
	var prelude []ast.Stmt
	inner := &ast.CallExpr{Ellipsis: call.Ellipsis}
	if call.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	keep := false
	if lit, ok := call.Fun.(*ast.FuncLit); ok {
		inner.Fun = lit
	} else if id0, ok := ast.Unparen(call.Fun).(*ast.Ident); ok {
		if _, isB := r.info.Uses[id0].(*types.Builtin); isB {
			keep = true
		}
		inner.Fun = call.Fun
		if _, isF := r.info.Uses[id0].(*types.Func); !isF && !keep {
			fn := r.fresh("f")
			prelude = append(prelude, define([]ast.Expr{fn}, call.Fun))
			inner.Fun = id(fn)
		}
	} else if tv, ok := r.info.Types[call.Fun]; ok && !tv.IsType() && !tv.IsBuiltin() {
		fn := r.fresh("f")
		prelude = append(prelude, define([]ast.Expr{fn}, call.Fun))
		inner.Fun = id(fn)
	} else {
		// the function was rewritten already (a shim, or close)
		inner.Fun = call.Fun
	}
	for _, a := range call.Args {
		tv, ok := r.info.Types[a]
		if ok && (tv.IsNil() || tv.Value != nil) {
			inner.Args = append(inner.Args, a)
			continue
		}
		v := r.fresh("a")
		prelude = append(prelude, define([]ast.Expr{v}, a))
		inner.Args = append(inner.Args, id(v))
	}
	core := &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
	r.replace(c, core, prelude...)
}

func (r *rewriter) selectStmt(c *astutil.Cursor, n *ast.SelectStmt) {
	var prelude []ast.Stmt
	var cases []ast.Expr
	def := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		h := r.fresh("case")
		var body []ast.Stmt
		recv := func(e ast.Expr) ast.Expr {
			u, ok := ast.Unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				die("%s: a select case that is no receive", r.fset.Position(n.Pos()))
			}
			return u.X
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			prelude = append(prelude, define([]ast.Expr{h}, &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.call("SendTo", cm.Chan), Sel: ast.NewIdent("Case")}, Args: []ast.Expr{cm.Value}}))
		case *ast.ExprStmt:
			prelude = append(prelude, define([]ast.Expr{h}, r.call("RecvFrom", recv(cm.X))))
		case *ast.AssignStmt:
			prelude = append(prelude, define([]ast.Expr{h}, r.call("RecvFrom", recv(cm.Rhs[0]))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(h), Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(h), Sel: ast.NewIdent("OK")})
			}
			body = append(body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		default:
			die("%s: unknown select case %T", r.fset.Position(n.Pos()), cm)
		}
		cases = append(cases, id(h))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(body, cc.Body...)})
		idx++
	}
	// without a default case control never passes the switch: tell the compiler
	if def == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(def)}, cases...)...)
	r.replace(c, sw, prelude...)
}
