// Command instr rewrites the concurrency of Go packages so that it goes
// through package mc. It works on types, not on names: every channel
// operation, go statement, select, use of sync, sync/atomic, timers and
// contexts, and every iteration over a map is replaced wherever it occurs.
//
// usage: instr -dir /repo -modfile F -out DIR -pkgs a,b [-yield c,d]
//
// It writes DIR/<n>.go files and DIR/overlay.json ({"Replace": ...}).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const base = "github.com/sjansen/pgutil/internal/zzverif/"

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	DepOnly    bool
	Error      *struct{ Err string }
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	dir := flag.String("dir", "/repo", "module root")
	modfile := flag.String("modfile", "", "copy of go.mod")
	out := flag.String("out", "", "output directory")
	pkgs := flag.String("pkgs", "", "import paths, comma separated")
	yields := flag.String("yield", "", "import paths whose statements yield")
	hooked := flag.String("hook", "", "DIR:METHOD:TEXT, text to insert at the start of the methods of that name")
	flag.Parse()
	want := strings.Split(*pkgs, ",")
	yield := map[string]bool{}
	for _, y := range strings.Split(*yields, ",") {
		yield[y] = true
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,DepOnly,Error"}
	if *modfile != "" {
		args = append(args, "-modfile", *modfile)
	}
	args = append(args, want...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	targets := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[p.ImportPath] = p.Export
		targets[p.ImportPath] = p
	}
	overlay := map[string]string{}
	n := 0
	for _, w := range want {
		p := targets[w]
		if p == nil {
			die("package %s not found", w)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, full, nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, full)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},

			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp}
		pkg, err := conf.Check(w, fset, files, info)
		if err != nil {
			die("%v", err)
		}
		for i, f := range files {
			r := &rewriter{info: info, pkg: pkg, yield: yield[w], types: map[ast.Expr]types.Type{}, fset: fset}
			src := r.file(f)
			n++
			of := filepath.Join(*out, fmt.Sprintf("%s_%d_%s", pkg.Name(), n, filepath.Base(names[i])))
			if err := os.WriteFile(of, src, 0o644); err != nil {
				die("%v", err)
			}
			overlay[names[i]] = of
		}
	}
	if h := strings.SplitN(*hooked, ":", 3); len(h) == 3 {
		hook(filepath.Join(*dir, h[0]), h[1], h[2], *out, overlay)
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	info  *types.Info
	pkg   *types.Package
	fset  *token.FileSet
	types map[ast.Expr]types.Type
	yield bool
	n     int

	shared map[*types.Var]bool // variables of functions that closures use
	use    map[string]bool
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t, ok := r.types[e]; ok {
		return t
	}
	if t := r.info.TypeOf(e); t != nil {
		return t
	}
	return nil
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", s, r.n))
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) mc(name string) ast.Expr {
	r.use["mc"] = true
	return &ast.SelectorExpr{X: id("zzmc"), Sel: id(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) ch(c ast.Expr) ast.Expr { return call(r.mc("Ch"), c) }

func sel(x ast.Expr, name string) ast.Expr { return &ast.SelectorExpr{X: x, Sel: id(name)} }

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func exprs(xs ...ast.Expr) []ast.Expr { return xs }

func (r *rewriter) file(f *ast.File) []byte {
	r.use = map[string]bool{}
	if r.yield {
		r.captured(f)
	}
	for _, d := range f.Decls {
		r.walk(reflect.ValueOf(d))
	}
	// imports
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				used[x.Name] = true
			}
		}
		return true
	})
	var specs []ast.Spec
	add := func(alias, path string) {
		specs = append(specs, &ast.ImportSpec{Name: id(alias), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	for _, k := range []string{"mc", "sync", "atomic"} {
		if r.use[k] {
			p := map[string]string{"mc": "mc", "sync": "mcsync", "atomic": "mcatomic"}[k]
			add("zz"+k, base+p)
		}
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		} else {
			for _, p := range r.pkg.Imports() {
				if p.Path() == path {
					name = p.Name()
				}
			}
		}
		if name != "_" && name != "." && name != "" && !used[name] {
			im.Name = id("_")
		}
	}
	if len(specs) > 0 {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}}, f.Decls...)
	}
	f.Comments = nil
	f.Doc = nil
	var buf bytes.Buffer
	buf.WriteString("//go:build go1.21\n\n")
	// positions of synthesised nodes are missing; a fresh file set keeps the
	// printer from inventing line breaks inside expressions
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&buf, token.NewFileSet(), f); err != nil {
		die("print: %v", err)
	}
	return buf.Bytes()
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// walk rewrites v's children, depth first, replacing expressions and
// statements in place.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		r.walk(v.Elem())
		if v.CanSet() {
			switch x := v.Interface().(type) {
			case ast.Expr:
				if y := r.expr(x); y != x {
					v.Set(reflect.ValueOf(y))
				}
			case ast.Stmt:
				if y := r.stmt(x); y != x {
					v.Set(reflect.ValueOf(y))
				}
			}
		}
	case reflect.Ptr:
		if v.IsNil() || !v.Type().Implements(nodeT) {
			return
		}
		if _, ok := v.Interface().(*ast.Object); ok {
			return
		}
		r.pre(v.Interface().(ast.Node))
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Interface, reflect.Ptr, reflect.Slice:
				r.walk(f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

// pre runs before a node's children are rewritten.
func (r *rewriter) pre(n ast.Node) {
	switch x := n.(type) {
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			for _, l := range x.Lhs {
				if i, ok := l.(*ast.Ident); ok {
					defined[i] = true
				}
			}
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			r.markRecv2(x.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			r.markRecv2(x.Values[0])
		}
	case *ast.BlockStmt:
		x.List = r.yields(x.List)
	case *ast.CaseClause:
		x.Body = r.yields(x.Body)
	case *ast.CommClause:
		x.Body = r.yields(x.Body)
	}
}

// yields puts a scheduling point before every statement.
func (r *rewriter) yields(list []ast.Stmt) []ast.Stmt {
	if !r.yield {
		return list
	}
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.LabeledStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			out = append(out, &ast.ExprStmt{X: call(r.mc("Yield"))})
		}
		out = append(out, s)
	}
	return out
}

// late puts a scheduling point between the evaluation of a value and the
// store into a variable that other threads may use.
func (r *rewriter) late(lhs, rhs ast.Expr) (ast.Expr, bool) {
	for {
		p, ok := lhs.(*ast.ParenExpr)
		if !ok {
			break
		}
		lhs = p.X
	}
	if s, ok := lhs.(*ast.StarExpr); ok {
		if c, ok := s.X.(*ast.CallExpr); ok && len(c.Args) == 1 {
			if f, ok := c.Fun.(*ast.SelectorExpr); ok && (f.Sel.Name == "Load" || f.Sel.Name == "LoadRef") {
				lhs = c.Args[0].(*ast.UnaryExpr).X
			}
		}
	}
	switch l := lhs.(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
	case *ast.Ident:
		v, ok := r.info.Uses[l].(*types.Var)
		if !ok || v.Parent() != r.pkg.Scope() && !r.shared[v] {
			return nil, false
		}
	default:
		return nil, false
	}
	lt, rt := r.typeOf(lhs), r.typeOf(rhs)
	if lt == nil || rt == nil || !types.Identical(lt, rt) {
		return nil, false
	}
	if tv, ok := r.info.Types[rhs]; ok && (tv.Value != nil || tv.IsNil()) {
		return nil, false
	}
	if u, ok := rhs.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return nil, false
	}
	if _, ok := lt.Underlying().(*types.Chan); ok {
		return nil, false
	}
	if _, ok := lhs.(*ast.IndexExpr); ok || !pure(lhs) {
		return call(r.mc("Late"), rhs), true
	}
	return call(r.mc("Store"), &ast.UnaryExpr{Op: token.AND, X: lhs}, rhs), true
}

// captured finds the variables that are used in another function than the one
// that declares them.
func (r *rewriter) captured(f *ast.File) {
	r.shared = map[*types.Var]bool{}
	home := map[*types.Var]ast.Node{}
	var visit func(n, fn ast.Node)
	visit = func(n, fn ast.Node) {
		ast.Inspect(n, func(c ast.Node) bool {
			switch x := c.(type) {
			case *ast.FuncLit:
				if c != n {
					visit(x, x)
					return false
				}
			case *ast.Ident:
				if v, ok := r.info.Defs[x].(*types.Var); ok && !v.IsField() {
					home[v] = fn
				}
				if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() && home[v] != nil && home[v] != fn {
					r.shared[v] = true
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		visit(d, d)
	}
}

// defined are the names on the left of :=
var defined = map[*ast.Ident]bool{}

// local reports whether e is a variable that closures share.
func (r *rewriter) local(e *ast.Ident) bool {
	v, ok := r.info.Uses[e].(*types.Var)
	if !ok || !r.shared[v] || defined[e] {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Struct, *types.Array, *types.Chan, *types.Signature:
		return false
	}
	return true
}

// load names the access to a variable of e's type.
func (r *rewriter) load(e ast.Expr) ast.Expr {
	switch t := r.typeOf(e); t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return r.mc("LoadRef")
	}
	return r.mc("Load")
}

// field reports whether e is a field of a struct that has an address.
func (r *rewriter) field(e *ast.SelectorExpr) bool {
	s := r.info.Selections[e]
	if s == nil || s.Kind() != types.FieldVal {
		return false
	}
	switch s.Type().Underlying().(type) {
	case *types.Struct, *types.Array, *types.Chan:
		return false
	}
	for {
		t := r.typeOf(e.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		switch x := e.X.(type) {
		case *ast.Ident:
			_, ok := r.info.Uses[x].(*types.Var)
			return ok
		case *ast.SelectorExpr:
			if s := r.info.Selections[x]; s == nil || s.Kind() != types.FieldVal {
				return false
			}
			e = x
		default:
			return false
		}
	}
}

// pure reports whether evaluating e twice is the same as once.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && x.Op != token.ARROW
		}
		return ok
	})
	return ok
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR}

// split makes a read-modify-write two steps.
func (r *rewriter) split(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			return s
		}
		if x.Tok == token.ASSIGN {
			if v, ok := r.late(x.Lhs[0], x.Rhs[0]); ok {
				x.Rhs[0] = v
			}
			return s
		}
		if op, ok := opOf[x.Tok]; ok && pure(x.Lhs[0]) {
			b := r.keep(&ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}, x.Lhs[0])
			if v, ok := r.late(x.Lhs[0], b); ok {
				return &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: exprs(v)}
			}
		}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if pure(x.X) {
			b := r.keep(&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}, x.X)
			if v, ok := r.late(x.X, b); ok {
				return &ast.AssignStmt{Lhs: exprs(x.X), Tok: token.ASSIGN, Rhs: exprs(v)}
			}
		}
	}
	return s
}

var recv2 = map[*ast.UnaryExpr]bool{}

func (r *rewriter) markRecv2(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		recv2[u] = true
	}
}

func (r *rewriter) pkgOf(e ast.Expr) string {
	if x, ok := e.(*ast.Ident); ok {
		if p, ok := r.info.Uses[x].(*types.PkgName); ok {
			return p.Imported().Path()
		}
	}
	return ""
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	x, ok := e.(*ast.Ident)
	if !ok || x.Name != name {
		return false
	}
	_, ok = r.info.Uses[x].(*types.Builtin)
	return ok
}

func (r *rewriter) keep(n, old ast.Expr) ast.Expr {
	if t := r.typeOf(old); t != nil {
		r.types[n] = t
	}
	return n
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		if r.yield && r.local(x) {
			return r.keep(&ast.ParenExpr{X: &ast.StarExpr{X: call(r.load(x), &ast.UnaryExpr{Op: token.AND, X: x})}}, e)
		}
	case *ast.ChanType:
		return r.keep(&ast.StarExpr{X: &ast.IndexExpr{X: r.mc("Chan"), Index: x.Value}}, e)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			m := "Recv"
			if recv2[x] {
				m = "Recv2"
			}
			return r.keep(call(sel(r.ch(x.X), m)), e)
		}
	case *ast.SelectorExpr:
		if r.yield && r.field(x) {
			return r.keep(&ast.ParenExpr{X: &ast.StarExpr{X: call(r.load(x), &ast.UnaryExpr{Op: token.AND, X: x})}}, e)
		}
		switch r.pkgOf(x.X) {
		case "sync":
			r.use["sync"] = true
			return r.keep(&ast.SelectorExpr{X: id("zzsync"), Sel: x.Sel}, e)
		case "sync/atomic":
			r.use["atomic"] = true
			return r.keep(&ast.SelectorExpr{X: id("zzatomic"), Sel: x.Sel}, e)
		case "time":
			switch x.Sel.Name {
			case "Sleep", "After", "NewTimer", "AfterFunc", "NewTicker", "Timer", "Ticker":
				return r.keep(r.mc(x.Sel.Name), e)
			case "Tick":
				return r.keep(r.mc("Tick_"), e)
			}
		case "context":
			switch x.Sel.Name {
			case "WithCancel", "WithTimeout", "WithDeadline":
				return r.keep(r.mc(x.Sel.Name), e)
			}
		case "runtime":
			if x.Sel.Name == "Gosched" {
				return r.keep(r.mc("Yield"), e)
			}
		}
	case *ast.CallExpr:
		if r.isBuiltin(x.Fun, "make") && len(x.Args) > 0 {
			if t := r.typeOf(x.Args[0]); t != nil {
				if c, ok := t.Underlying().(*types.Chan); ok {
					var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
					if len(x.Args) > 1 {
						n = call(id("int"), x.Args[1])
					}
					_ = c
					// the (rewritten) type argument is *zzmc.Chan[T] or a name
					if st, ok := x.Args[0].(*ast.StarExpr); ok {
						if ix, ok := st.X.(*ast.IndexExpr); ok {
							return r.keep(call(&ast.IndexExpr{X: r.mc("NewChan"), Index: ix.Index}, n), e)
						}
					}
					return r.keep(call(r.mc("NewNamed"), &ast.CallExpr{Fun: x.Args[0], Args: exprs(id("nil"))}, n), e)
				}
			}
		}
		if len(x.Args) == 1 && r.isChan(x.Args[0]) {
			for b, m := range map[string]string{"close": "Close", "len": "Len", "cap": "Cap"} {
				if r.isBuiltin(x.Fun, b) {
					return r.keep(call(sel(r.ch(x.Args[0]), m)), e)
				}
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Done" && len(x.Args) == 0 {
			if t := r.typeOf(s.X); t != nil && strings.HasSuffix(t.String(), "context.Context") {
				return r.keep(call(r.mc("CtxDone"), s.X), e)
			}
		}
	}
	return e
}

func (r *rewriter) tick() ast.Stmt { return &ast.ExprStmt{X: call(r.mc("Tick"))} }

func prepend(b *ast.BlockStmt, s ...ast.Stmt) *ast.BlockStmt {
	b.List = append(append([]ast.Stmt{}, s...), b.List...)
	return b
}

func addr(e ast.Expr) ast.Expr {
	if e == nil || isBlank(e) {
		return id("nil")
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func isBlank(e ast.Expr) bool {
	x, ok := e.(*ast.Ident)
	return ok && x.Name == "_"
}

func orBlank(e ast.Expr) ast.Expr {
	if e == nil {
		return id("_")
	}
	return e
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	if r.yield {
		s = r.split(s)
	}
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(sel(r.ch(x.Chan), "Send"), x.Value)}
	case *ast.ForStmt:
		prepend(x.Body, r.tick())
	case *ast.RangeStmt:
		prepend(x.Body, r.tick())
		it := r.tmp("it")
		switch {
		case r.isChan(x.X):
			lhs, k := exprs(it, id("_")), x.Key
			if x.Tok == token.DEFINE {
				lhs[1] = orBlank(k)
			}
			return &ast.ForStmt{
				Init: define(lhs, call(r.mc("RangeChan"), x.X)),
				Cond: call(sel(it, "Next"), addr(k)),
				Body: x.Body,
			}
		case r.isMap(x.X):
			lhs := exprs(it, id("_"), id("_"))
			if x.Tok == token.DEFINE {
				lhs[1], lhs[2] = orBlank(x.Key), orBlank(x.Value)
			}
			return &ast.ForStmt{
				Init: define(lhs, call(r.mc("RangeMap"), x.X)),
				Cond: call(sel(it, "Next"), addr(x.Key), addr(x.Value)),
				Body: x.Body,
			}
		}
	case *ast.DeferStmt:
		if c, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.GoStmt:
		if y := r.expr(x.Call); y != ast.Expr(x.Call) {
			x.Call = y.(*ast.CallExpr)
		}
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		// a select was rewritten into a block: move the label inside
		if b, ok := x.Stmt.(*ast.BlockStmt); ok && selBlocks[b] {
			last := len(b.List) - 1
			b.List[last] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[last]}
			return b
		}
	}
	return s
}

var selBlocks = map[*ast.BlockStmt]bool{}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(r.mc("Go"), fl)}
		}
	}
	var pre []ast.Stmt
	fun := c.Fun
	builtin := false
	if i, ok := fun.(*ast.Ident); ok {
		_, builtin = r.info.Uses[i].(*types.Builtin)
	}
	if !builtin {
		f := r.tmp("f")
		pre = append(pre, define(exprs(f), fun))
		fun = f
	}
	var args []ast.Expr
	for _, a := range c.Args {
		tv, ok := r.info.Types[a]
		if t := r.typeOf(a); t != nil {
			if _, tuple := t.(*types.Tuple); tuple {
				args = append(args, a)
				continue
			}
			if b, isb := t.(*types.Basic); isb && b.Info()&types.IsUntyped != 0 {
				args = append(args, a)
				continue
			}
		}
		if ok && (tv.Value != nil || tv.IsNil()) {
			args = append(args, a)
			continue
		}
		v := r.tmp("a")
		pre = append(pre, define(exprs(v), a))
		args = append(args, v)
	}
	nc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	lit := &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}},
	}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(r.mc("Go"), lit)})}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: call(r.mc("BlockForever"))}
	}
	b := &ast.BlockStmt{}
	selBlocks[b] = true
	s := r.tmp("s")
	sw := &ast.SwitchStmt{Tag: sel(s, "Index"), Body: &ast.BlockStmt{}}
	def := "false"
	var cases []ast.Expr
	n := 0
	hasDef := false
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			def, hasDef = "true", true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		c := r.tmp("c")
		body := cc.Body
		// the communication has been rewritten already; take it apart
		switch y := cc.Comm.(type) {
		case *ast.ExprStmt:
			cx := y.X.(*ast.CallExpr)
			fs := cx.Fun.(*ast.SelectorExpr)
			b.List = append(b.List, define(exprs(c), fs.X))
			if fs.Sel.Name == "Send" {
				cases = append(cases, call(sel(c, "SendCase"), cx.Args[0]))
			} else {
				cases = append(cases, call(sel(c, "RecvCase")))
			}
		case *ast.AssignStmt:
			rx := y.Rhs[0]
			for {
				p, ok := rx.(*ast.ParenExpr)
				if !ok {
					break
				}
				rx = p.X
			}
			cx := rx.(*ast.CallExpr)
			fs := cx.Fun.(*ast.SelectorExpr)
			b.List = append(b.List, define(exprs(c), fs.X))
			cases = append(cases, call(sel(c, "RecvCase")))
			got := "Got"
			if len(y.Lhs) == 2 {
				got = "Got2"
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: exprs(call(sel(c, got), s))}}, body...)
		default:
			die("select: unexpected %T", y)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: exprs(&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}), Body: body})
		n++
	}
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	sw.Init = define(exprs(s), call(r.mc("Select"), append(exprs(id(def)), cases...)...))
	b.List = append(b.List, sw)
	return b
}

// hook lets a package's function name the result of a method: it inserts
// text at the start of the body of every method of that name in dir.
func hook(dir, method, text, out string, overlay map[string]string) {
	found := 0
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(i os.FileInfo) bool { return !strings.HasSuffix(i.Name(), "_test.go") }, parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	for _, p := range pkgs {
		for name, f := range p.Files {
			src, err := os.ReadFile(name)
			if err != nil {
				die("%v", err)
			}
			for i := len(f.Decls) - 1; i >= 0; i-- {
				fd, ok := f.Decls[i].(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Body == nil || fd.Name.Name != method {
					continue
				}
				at := fset.Position(fd.Body.Lbrace).Offset + 1
				src = []byte(string(src[:at]) + " " + text + string(src[at:]))
				found++
			}
			of := filepath.Join(out, "hook_"+filepath.Base(name))
			if err := os.WriteFile(of, src, 0o644); err != nil {
				die("%v", err)
			}
			overlay[name] = of
		}
	}
	if found == 0 {
		die("no method %s in %s", method, dir)
	}
}
