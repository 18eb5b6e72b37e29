// Command instr rewrites the Go sources of the repository under test into
// copies in which every goroutine start, channel operation, select, lock,
// timer, clock read, context, map iteration and connection to lnd goes through
// the simulator's runtime (package simrt), and in which every statement is
// preceded by a yield point. The copies are used through "go build -overlay";
// the repository itself is never touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listedPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	DepOnly    bool
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

const (
	simrtName = "simrt__"
	hookName  = "lndhook__"
)

var (
	repo    = flag.String("repo", "/repo", "repository root")
	out     = flag.String("out", "", "output directory for instrumented copies")
	overlay = flag.String("overlay", "", "overlay JSON file to write")
	inject  = flag.String("inject", "", "directory whose files appear in the repository as verifsim/")
	skip    = flag.String("skip", "itest,testutils,offersrpc,verifsim", "top-level directories not instrumented")
	fast    = flag.String("fast", "", "Go code of faster curve multiplications")
	curve   = flag.String("curve", "", "the curve.go it is to be added to")
	modname string
)

func main() {
	flag.Parse()
	if *out == "" || *overlay == "" {
		die("-out and -overlay are required")
	}
	pkgs := list()
	exports := map[string]string{}
	var targets []*listedPkg
	cands := map[string]*listedPkg{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Main {
			if modname == "" {
				modname = p.Module.Path
			}
			if !skipped(p) {
				targets = append(targets, p)
			}
		} else if concurrent(p.ImportPath) {
			cands[p.ImportPath] = p
		}
	}
	if len(targets) == 0 {
		die("no packages to instrument")
	}
	// Of the dependencies, those that are used from here.
	for i := 0; i < len(targets); i++ {
		for _, path := range targets[i].Imports {
			if c := cands[path]; c != nil && !deps[path] {
				deps[path] = true
				targets = append(targets, c)
			}
		}
	}
	replace := map[string]string{}
	sites := []string{}
	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	sort.Slice(targets, func(i, j int) bool { return targets[i].ImportPath < targets[j].ImportPath })
	for _, p := range targets {
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(full)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, full, src, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, full)
		}
		info := &types.Info{
			Types:     map[ast.Expr]types.TypeAndValue{},
			Defs:      map[*ast.Ident]types.Object{},
			Uses:      map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(err error) {}}
		pkg, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for i, af := range files {
			r := &rewriter{fset: fset, info: info, pkg: pkg, sites: &sites, file: siteFile(p, names[i])}
			r.rewriteFile(af)
			var buf bytes.Buffer
			buf.WriteString("//go:build go1.21\n\n")
			if err := format.Node(&buf, fset, af); err != nil {
				die("print %s: %v", names[i], err)
			}
			at := names[i]
			if deps[p.ImportPath] {
				at = filepath.Join(*repo, depDir, p.ImportPath, filepath.Base(at))
			}
			dst := filepath.Join(*out, rel(at))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			replace[at] = dst
		}
	}
	if *inject != "" {
		err := filepath.Walk(*inject, func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if !fi.IsDir() && strings.HasSuffix(path, ".go") {
				rp, _ := filepath.Rel(*inject, path)
				replace[filepath.Join(*repo, "verifsim", rp)] = path
			}
			return nil
		})
		if err != nil {
			die("%v", err)
		}
	}
	// The site table is compiled into the simulator.
	var sb bytes.Buffer
	sb.WriteString("//go:build go1.21\n\npackage simrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t%q,\n", s)
	}
	sb.WriteString("\t}\n}\n")
	st := filepath.Join(*out, "zz_sites.go")
	if err := os.WriteFile(st, sb.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
	replace[filepath.Join(*repo, "verifsim", "simrt", "zz_sites.go")] = st
	if f := fastCurve(); f != "" {
		replace[*curve] = f
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlay, js, 0o644); err != nil {
		die("%v", err)
	}
}

// fastCurve writes a copy of the elliptic curve library's file in which the
// multiplications are replaced by ones that compute the same faster, and
// remember their results. Without it, or when the library is not the expected
// one, everything works as before, but slower.
func fastCurve() string {
	if *fast == "" || *curve == "" {
		return ""
	}
	add, err1 := os.ReadFile(*fast)
	b, err2 := os.ReadFile(*curve)
	if err1 != nil || err2 != nil {
		return ""
	}
	s := string(b)
	for _, x := range [][2]string{
		{"func ScalarMultNonConst(", "func scalarMultPlain("},
		{"func ScalarBaseMultNonConst(", "func scalarBaseMultPlain("},
		{"func DecompressY(", "func decompressYPlain("},
		{"import (\n", "import (\n\t\"encoding/binary\"\n\t\"math/bits\"\n\t\"sync\"\n"},
		{"\tvar zInv, tempZ FieldVal\n\tzInv.Set(&p.Z)", "\tif p.Z.IsOne() {\n\t\tp.X.Normalize()\n\t\tp.Y.Normalize()\n\t\treturn\n\t}\n\tvar zInv, tempZ FieldVal\n\tzInv.Set(&p.Z)"},
	} {
		if strings.Count(s, x[0]) != 1 {
			return ""
		}
		s = strings.Replace(s, x[0], x[1], 1)
	}
	f := filepath.Join(*out, "zz_curve.go")
	if err := os.WriteFile(f, append([]byte(s), add...), 0o644); err != nil {
		die("%v", err)
	}
	return f
}

func rel(p string) string {
	r, err := filepath.Rel(*repo, p)
	if err != nil {
		return p
	}
	return r
}

// depDir is where the instrumented copies of dependencies are placed; files in
// the module cache can't be overlaid.
const depDir = "verifsim/dep"

var deps = map[string]bool{}

// concurrent tells whether a dependency runs goroutines, waits or tells the
// time on behalf of its user and has to be instrumented too.
func concurrent(path string) bool {
	if strings.HasPrefix(path, "golang.org/x/sync/") {
		return true
	}
	switch strings.TrimPrefix(path, "github.com/lightningnetwork/lnd/") {
	case "queue", "ticker", "clock", "subscribe", "multimutex":
		return true
	}
	return false
}

func siteFile(p *listedPkg, name string) string {
	if deps[p.ImportPath] {
		return p.ImportPath + "/" + filepath.Base(name)
	}
	return rel(name)
}

func skipped(p *listedPkg) bool {
	r := rel(p.Dir)
	top := strings.Split(r, string(filepath.Separator))[0]
	for _, s := range strings.Split(*skip, ",") {
		if top == s {
			return true
		}
	}
	return false
}

func list() []*listedPkg {
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=Dir,ImportPath,Imports,Name,Export,GoFiles,Standard,DepOnly,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var res []*listedPkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listedPkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		res = append(res, p)
	}
	return res
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	sites   *[]string
	file    string
	fn      string
	n       int
	usesRT  bool
	usesLND bool
}

var redirect = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once",
		"Cond": "Cond", "NewCond": "NewCond", "Pool": "Pool", "Locker": "Locker",
		"OnceFunc": "OnceFunc", "Map": "Map"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After",
		"AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick",
		"Timer": "Timer", "Ticker": "Ticker"},
	"context": {"WithCancel": "WithCancel", "WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline",
		"WithCancelCause": "WithCancelCause", "WithTimeoutCause": "WithTimeoutCause",
		"WithDeadlineCause": "WithDeadlineCause", "AfterFunc": "CtxAfterFunc", "Cause": "Cause"},
	"runtime": {"Gosched": "Gosched"},
	"math/rand": {"Int": "RandInt", "Intn": "RandIntn", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63", "Int63n": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Float32": "RandFloat32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Read": "RandRead", "Seed": "RandSeed", "ExpFloat64": "RandExpFloat64", "NormFloat64": "RandNormFloat64"},
}

func (r *rewriter) rt(name string) ast.Expr {
	r.usesRT = true
	return &ast.SelectorExpr{X: ast.NewIdent(simrtName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("sim%s%d__", p, r.n))
}

func (r *rewriter) rewriteFile(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.fn = d.Name.Name
			r.funcType(d.Type)
			r.fieldList(d.Recv)
			if d.Body != nil {
				d.Body.List = r.stmts(d.Body.List)
			}
			r.fn = ""
		case *ast.GenDecl:
			r.genDecl(d)
		}
	}
	// Fix up the imports.
	used := map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	var imports []*ast.ImportSpec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				imports = append(imports, is)
				continue
			}
			var obj types.Object
			if is.Name != nil {
				obj = r.info.Defs[is.Name]
			} else {
				obj = r.info.Implicits[is]
			}
			if obj == nil || used[obj] {
				imports = append(imports, is)
			}
		}
	}
	add := func(name, path string) {
		imports = append(imports, &ast.ImportSpec{Name: ast.NewIdent(name),
			Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	if r.usesRT {
		add(simrtName, modname+"/verifsim/simrt")
	}
	if r.usesLND {
		add(hookName, modname+"/verifsim/lndhook")
	}
	var front []ast.Decl
	for _, is := range imports {
		if path, _ := strconv.Unquote(is.Path.Value); deps[path] {
			is.Path.Value = strconv.Quote(modname + "/" + depDir + "/" + path)
		}
		is.EndPos = token.NoPos
		front = append(front, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{is}})
	}
	f.Decls = append(front, decls...)
	f.Imports = imports
	f.Comments = nil
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	if d.Tok == token.IMPORT {
		return
	}
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			r.valueSpec(s)
		case *ast.TypeSpec:
			s.Type = r.expr(s.Type)
			r.fieldList(s.TypeParams)
		}
	}
}

func (r *rewriter) valueSpec(s *ast.ValueSpec) {
	if s.Type != nil {
		s.Type = r.expr(s.Type)
	}
	if len(s.Names) == 2 && len(s.Values) == 1 {
		if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Values[0] = r.rtCall("Recv2", r.expr(u.X))
			return
		}
	}
	r.exprs(s.Values)
}

func (r *rewriter) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) pkgOf(id *ast.Ident) string {
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if p := r.pkgOf(id); p != "" {
				if m := redirect[p]; m != nil {
					if n, ok := m[e.Sel.Name]; ok {
						return r.rt(n)
					}
				}
				if p == "github.com/lightninglabs/lndclient" && e.Sel.Name == "NewLndServices" {
					r.usesLND = true
					return &ast.SelectorExpr{X: ast.NewIdent(hookName), Sel: ast.NewIdent("NewLndServices")}
				}
				return e
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.rtCall("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.CallExpr:
		if r.isBuiltin(e.Fun, "close") && len(e.Args) == 1 {
			return r.rtCall("Close", r.expr(e.Args[0]))
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		return e
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
		return e
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		r.exprs(e.Elts)
		return e
	case *ast.FuncLit:
		r.funcType(e.Type)
		e.Body.List = r.stmts(e.Body.List)
		return e
	case *ast.ArrayType:
		e.Len, e.Elt = r.expr(e.Len), r.expr(e.Elt)
		return e
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	case *ast.StructType:
		r.fieldList(e.Fields)
		return e
	case *ast.FuncType:
		r.funcType(e)
		return e
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
		return e
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
		return e
	}
	die("%s: unhandled expression %T", r.file, e)
	return nil
}

func (r *rewriter) site(pos token.Pos) ast.Expr {
	id := len(*r.sites)
	p := r.fset.Position(pos)
	*r.sites = append(*r.sites, fmt.Sprintf("%s:%d %s", r.file, p.Line, r.fn))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)}
}

// stmts rewrites a statement list, adding yield points.
func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var res []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt, *ast.BranchStmt:
		default:
			res = append(res, &ast.ExprStmt{X: r.rtCall("Y", r.site(s.Pos()))})
		}
		res = append(res, r.stmt(s)...)
	}
	return res
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s)
	if len(l) != 1 {
		die("%s: statement %T expands in a position that holds one", r.file, s)
	}
	return l[0]
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.EmptyStmt, *ast.BranchStmt, *ast.BadStmt:
		return []ast.Stmt{s}
	case *ast.DeclStmt:
		r.genDecl(s.Decl.(*ast.GenDecl))
		return []ast.Stmt{s}
	case *ast.LabeledStmt:
		inner := r.labelable(s.Stmt, s.Label)
		return inner
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return []ast.Stmt{s}
	case *ast.SendStmt:
		call := &ast.CallExpr{Fun: r.rtCall("Send", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}
		return []ast.Stmt{&ast.ExprStmt{X: call}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return []ast.Stmt{s}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.rtCall("Recv2", r.expr(u.X))
				return []ast.Stmt{s}
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		return []ast.Stmt{s}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		c := r.expr(s.Call)
		s.Call = c.(*ast.CallExpr)
		return []ast.Stmt{s}
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return []ast.Stmt{s}
	case *ast.BlockStmt:
		r.block(s)
		return []ast.Stmt{s}
	case *ast.IfStmt:
		s.Init = r.one(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.one(s.Else)
		return []ast.Stmt{s}
	case *ast.SwitchStmt:
		s.Init = r.one(s.Init)
		s.Tag = r.expr(s.Tag)
		r.clauses(s.Body)
		return []ast.Stmt{s}
	case *ast.TypeSwitchStmt:
		s.Init = r.one(s.Init)
		s.Assign = r.one(s.Assign)
		r.clauses(s.Body)
		return []ast.Stmt{s}
	case *ast.ForStmt:
		s.Init = r.one(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.one(s.Post)
		r.block(s.Body)
		return []ast.Stmt{s}
	case *ast.RangeStmt, *ast.SelectStmt:
		return r.labelable(s, nil)
	}
	die("%s: unhandled statement %T", r.file, s)
	return nil
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

// labelable rewrites a statement that may carry a label, keeping the label on
// the construct that break and continue refer to.
func (r *rewriter) labelable(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	lab := func(x ast.Stmt) ast.Stmt {
		if label == nil {
			return x
		}
		return &ast.LabeledStmt{Label: label, Stmt: x}
	}
	switch s := s.(type) {
	case *ast.SelectStmt:
		return r.selectStmt(s, lab)
	case *ast.RangeStmt:
		tv := r.info.Types[s.X].Type
		if tv != nil {
			switch tv.Underlying().(type) {
			case *types.Chan:
				return []ast.Stmt{lab(r.rangeChan(s))}
			case *types.Map:
				return []ast.Stmt{lab(r.rangeMap(s))}
			}
		}
		s.Key, s.Value = r.expr(s.Key), r.expr(s.Value)
		s.X = r.expr(s.X)
		r.block(s.Body)
		return []ast.Stmt{lab(s)}
	}
	l := r.stmt(s)
	if label == nil {
		return l
	}
	// The label goes on the last statement, which is the construct itself.
	l[len(l)-1] = lab(l[len(l)-1])
	return l
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeChan(s *ast.RangeStmt) ast.Stmt {
	ch, ok := r.tmp("c"), r.tmp("ok")
	x := r.expr(s.X)
	r.block(s.Body)
	if s.Tok == token.DEFINE && !blank(s.Key) {
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ch, s.Key, ok}, Tok: token.DEFINE,
				Rhs: []ast.Expr{r.rtCall("RangeInit", x)}},
			Cond: ok,
			Post: &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.ASSIGN,
				Rhs: []ast.Expr{r.rtCall("Recv2", ch)}},
			Body: s.Body,
		}
	}
	v := r.tmp("v")
	pre := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
	if !blank(s.Key) {
		pre.Lhs[0] = r.expr(s.Key)
	}
	s.Body.List = append([]ast.Stmt{pre}, s.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ch, v, ok}, Tok: token.DEFINE,
			Rhs: []ast.Expr{r.rtCall("RangeInit", x)}},
		Cond: ok,
		Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{r.rtCall("Recv2", ch)}},
		Body: s.Body,
	}
}

func (r *rewriter) rangeMap(s *ast.RangeStmt) ast.Stmt {
	it := r.tmp("it")
	x := r.expr(s.X)
	r.block(s.Body)
	addr := func(e ast.Expr) ast.Expr {
		if blank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	under := func(e ast.Expr) ast.Expr {
		if blank(e) {
			return ast.NewIdent("_")
		}
		return e
	}
	if s.Tok == token.DEFINE {
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{it, under(s.Key), under(s.Value)}, Tok: token.DEFINE,
				Rhs: []ast.Expr{r.rtCall("MapIter", x)}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")},
				Args: []ast.Expr{addr(s.Key), addr(s.Value)}},
			Body: s.Body,
		}
	}
	key, val := s.Key, s.Value
	if !blank(key) {
		key = r.expr(key)
	}
	if !blank(val) {
		val = r.expr(val)
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it, ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.DEFINE,
			Rhs: []ast.Expr{r.rtCall("MapIter", x)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")},
			Args: []ast.Expr{addr(key), addr(val)}},
		Body: s.Body,
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) []ast.Stmt {
	call := s.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.rtCall("Go", r.expr(fl))}}
	}
	var pre []ast.Stmt
	builtin := false
	if id, ok := unparen(call.Fun).(*ast.Ident); ok {
		_, builtin = r.info.Uses[id].(*types.Builtin)
	}
	bind := func(e ast.Expr) ast.Expr {
		tv, known := r.info.Types[e]
		x := r.expr(e)
		if known && (tv.IsNil() || tv.Value != nil || tv.IsType()) {
			return x
		}
		id := r.tmp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{x}})
		return id
	}
	nc := &ast.CallExpr{Ellipsis: call.Ellipsis}
	if builtin {
		// close(c), panic(x) and the like: arguments are bound, the builtin is not.
		for _, a := range call.Args {
			nc.Args = append(nc.Args, bind(a))
		}
		if r.isBuiltin(call.Fun, "close") {
			nc.Fun = r.rt("Close")
		} else {
			nc.Fun = call.Fun
		}
	} else {
		nc.Fun = bind(call.Fun)
		for _, a := range call.Args {
			nc.Args = append(nc.Args, bind(a))
		}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	pre = append(pre, &ast.ExprStmt{X: r.rtCall("Go", lit)})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, lab func(ast.Stmt) ast.Stmt) []ast.Stmt {
	var pre []ast.Stmt
	hasDefault := "false"
	call := r.rtCall("Select")
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{
				List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}},
				Body: r.stmts(cc.Body)})
			continue
		}
		v := r.tmp("s")
		var body []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: r.rtCall("SendCase", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}}}})
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{
				r.rtCall("RecvCase", r.expr(u.X))}})
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{
				r.rtCall("RecvCase", r.expr(u.X))}})
			r.exprs(cm.Lhs)
			as := &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok}
			as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("Val")})
			if len(cm.Lhs) == 2 {
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("Ok")})
			}
			body = append(body, as)
		default:
			die("%s: unhandled select case %T", r.file, cm)
		}
		call.Args = append(call.Args, v)
		body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	call.Args = append([]ast.Expr{ast.NewIdent(hasDefault)}, call.Args...)
	sw.Tag = call
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{
		X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{
			&ast.BasicLit{Kind: token.STRING, Value: `"simrt: impossible select result"`}}}}}})
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(sw))}}
}
