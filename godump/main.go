// godump type-checks packages and dumps their syntax trees as JSON.
//
// It serves requests on a unix socket: one JSON object per line with the
// files of a package; it answers with one line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
)

type L = []interface{}

type dumper struct {
	fset  *token.FileSet
	info  *types.Info
	objs  map[types.Object]int
	otab  []interface{}
	types map[string]int
	ttab  []interface{}
	pkg   *types.Package
}

func (d *dumper) typ(t types.Type) int {
	if t == nil {
		return -1
	}
	key := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if i, ok := d.types[key]; ok {
		return i
	}
	i := len(d.ttab)
	d.types[key] = i
	d.ttab = append(d.ttab, nil)
	var e L
	switch u := t.(type) {
	case *types.Basic:
		e = L{"basic", u.Name()}
	case *types.Alias:
		e = L{"alias", d.typ(types.Unalias(u))}
	case *types.Named:
		p := ""
		if u.Obj().Pkg() != nil {
			p = u.Obj().Pkg().Path()
		}
		if p == "main" || p == d.pkg.Path() {
			e = L{"named", p, u.Obj().Name(), d.typ(u.Underlying())}
		} else if _, ok := u.Underlying().(*types.Struct); ok {
			e = L{"named", p, u.Obj().Name(), -1}
		} else {
			e = L{"named", p, u.Obj().Name(), d.typ(u.Underlying())}
		}
	case *types.Pointer:
		e = L{"pointer", d.typ(u.Elem())}
	case *types.Slice:
		e = L{"slice", d.typ(u.Elem())}
	case *types.Array:
		e = L{"array", u.Len(), d.typ(u.Elem())}
	case *types.Map:
		e = L{"map", d.typ(u.Key()), d.typ(u.Elem())}
	case *types.Struct:
		var fs L
		for k := 0; k < u.NumFields(); k++ {
			fs = append(fs, L{u.Field(k).Name(), d.typ(u.Field(k).Type())})
		}
		e = L{"struct", fs}
	case *types.Interface:
		e = L{"interface", u.NumMethods()}
	case *types.Signature:
		e = L{"func", d.typ(u.Params()), d.typ(u.Results()), u.Variadic()}
	case *types.Tuple:
		var ts L
		for k := 0; k < u.Len(); k++ {
			ts = append(ts, d.typ(u.At(k).Type()))
		}
		e = L{"tuple", ts}
	default:
		e = L{"other", key}
	}
	d.ttab[i] = e
	return i
}

func (d *dumper) obj(o types.Object) int {
	if o == nil {
		return -1
	}
	if i, ok := d.objs[o]; ok {
		return i
	}
	i := len(d.otab)
	d.objs[o] = i
	d.otab = append(d.otab, nil)
	kind := "other"
	switch v := o.(type) {
	case *types.Var:
		kind = "var"
		if v.IsField() {
			kind = "field"
		}
	case *types.Const:
		kind = "const"
	case *types.Func:
		kind = "func"
	case *types.TypeName:
		kind = "type"
	case *types.PkgName:
		kind = "pkg"
	case *types.Nil:
		kind = "nil"
	case *types.Builtin:
		kind = "builtin"
	}
	p := ""
	if o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	global := o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
	if pn, ok := o.(*types.PkgName); ok {
		p = pn.Imported().Path()
	}
	var t = -1
	if kind == "var" || kind == "field" || kind == "const" || kind == "type" || kind == "func" {
		t = d.typ(o.Type())
	}
	d.otab[i] = L{o.Name(), kind, p, global, t}
	return i
}

func constOf(v constant.Value, t types.Type) interface{} {
	if v == nil {
		return nil
	}
	isFloat := false
	if b, ok := t.Underlying().(*types.Basic); ok {
		isFloat = b.Info()&types.IsFloat != 0
	}
	switch v.Kind() {
	case constant.Bool:
		return constant.BoolVal(v)
	case constant.String:
		return L{"s", constant.StringVal(v)}
	case constant.Int, constant.Float:
		if isFloat {
			f, _ := constant.Float64Val(v)
			return L{"f", fmt.Sprintf("%x", f), constant.ToFloat(v).ExactString()}
		}
		w := constant.ToInt(v)
		if w.Kind() == constant.Int {
			return L{"i", w.ExactString()}
		}
		f, _ := constant.Float64Val(v)
		return L{"f", fmt.Sprintf("%x", f), constant.ToFloat(v).ExactString()}
	}
	return L{"?", v.ExactString()}
}

func (d *dumper) exprs(es []ast.Expr) L {
	out := L{}
	for _, e := range es {
		out = append(out, d.expr(e))
	}
	return out
}

func (d *dumper) expr(e ast.Expr) interface{} {
	if e == nil {
		return nil
	}
	t := -1
	isType := false
	var c interface{}
	if tv, ok := d.info.Types[e]; ok {
		t = d.typ(tv.Type)
		isType = tv.IsType()
		if tv.Value != nil {
			c = constOf(tv.Value, tv.Type)
		}
	} else if id, ok := e.(*ast.Ident); ok {
		if o := d.info.ObjectOf(id); o != nil && o.Type() != nil {
			t = d.typ(o.Type())
		}
	}
	if isType {
		return L{"Type", t, nil}
	}
	h := func(tag string, rest ...interface{}) L {
		return append(L{tag, t, c}, rest...)
	}
	switch x := e.(type) {
	case *ast.Ident:
		return h("Ident", x.Name, d.obj(d.info.ObjectOf(x)))
	case *ast.BasicLit:
		return h("Lit", x.Value)
	case *ast.CompositeLit:
		return h("Composite", d.exprs(x.Elts))
	case *ast.FuncLit:
		return h("Func", d.fn(x.Type, x.Body, nil))
	case *ast.ParenExpr:
		return d.expr(x.X)
	case *ast.SelectorExpr:
		if s, ok := d.info.Selections[x]; ok {
			switch s.Kind() {
			case types.FieldVal:
				return h("Field", d.expr(x.X), x.Sel.Name, len(s.Index()))
			case types.MethodVal:
				f := s.Obj().(*types.Func)
				sig := f.Type().(*types.Signature)
				_, ptr := sig.Recv().Type().(*types.Pointer)
				p := ""
				if f.Pkg() != nil {
					p = f.Pkg().Path()
				}
				rt := sig.Recv().Type()
				if q, ok := rt.(*types.Pointer); ok {
					rt = q.Elem()
				}
				name := ""
				if n, ok := rt.(*types.Named); ok {
					name = n.Obj().Name()
				}
				return h("Method", d.expr(x.X), x.Sel.Name, p, name, ptr)
			}
			return h("Unknown", "method expression")
		}
		return h("Qual", d.obj(d.info.ObjectOf(x.Sel)))
	case *ast.IndexExpr:
		return h("Index", d.expr(x.X), d.expr(x.Index))
	case *ast.SliceExpr:
		return h("Slice", d.expr(x.X), d.expr(x.Low), d.expr(x.High), d.expr(x.Max))
	case *ast.TypeAssertExpr:
		return h("Assert", d.expr(x.X), d.expr(x.Type))
	case *ast.CallExpr:
		return h("Call", d.expr(x.Fun), d.exprs(x.Args), x.Ellipsis.IsValid())
	case *ast.StarExpr:
		return h("Star", d.expr(x.X))
	case *ast.UnaryExpr:
		return h("Unary", x.Op.String(), d.expr(x.X))
	case *ast.BinaryExpr:
		return h("Binary", x.Op.String(), d.expr(x.X), d.expr(x.Y))
	case *ast.KeyValueExpr:
		if id, ok := x.Key.(*ast.Ident); ok {
			if v, ok := d.info.ObjectOf(id).(*types.Var); ok && v.IsField() {
				return h("KV", L{"FieldName", -1, nil, id.Name}, d.expr(x.Value))
			}
		}
		return h("KV", d.expr(x.Key), d.expr(x.Value))
	}
	return h("Unknown", fmt.Sprintf("%T", e))
}

func (d *dumper) idents(fl *ast.FieldList) L {
	out := L{}
	if fl == nil {
		return out
	}
	for _, f := range fl.List {
		t := d.typ(d.info.TypeOf(f.Type))
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			t = d.typ(d.info.TypeOf(f.Names[0]))
		}
		if len(f.Names) == 0 {
			out = append(out, L{"", -1, t})
		}
		for _, n := range f.Names {
			out = append(out, L{n.Name, d.obj(d.info.ObjectOf(n)), t})
		}
	}
	return out
}

func (d *dumper) fn(t *ast.FuncType, body *ast.BlockStmt, recv *ast.FieldList) L {
	var b interface{}
	if body != nil {
		b = d.stmts(body.List)
	}
	variadic := false
	if t.Params != nil && len(t.Params.List) > 0 {
		_, variadic = t.Params.List[len(t.Params.List)-1].Type.(*ast.Ellipsis)
	}
	return L{d.idents(recv), d.idents(t.Params), d.idents(t.Results), b, variadic}
}

func (d *dumper) stmts(ss []ast.Stmt) L {
	out := L{}
	for _, s := range ss {
		out = append(out, d.stmt(s))
	}
	return out
}

func (d *dumper) stmt(s ast.Stmt) interface{} {
	if s == nil {
		return nil
	}
	switch x := s.(type) {
	case *ast.ExprStmt:
		return L{"Expr", d.expr(x.X)}
	case *ast.AssignStmt:
		return L{"Assign", x.Tok.String(), d.exprs(x.Lhs), d.exprs(x.Rhs)}
	case *ast.IncDecStmt:
		return L{"IncDec", x.Tok.String(), d.expr(x.X)}
	case *ast.DeclStmt:
		return L{"Decl", d.gen(x.Decl.(*ast.GenDecl))}
	case *ast.ReturnStmt:
		return L{"Return", d.exprs(x.Results)}
	case *ast.BranchStmt:
		l := ""
		if x.Label != nil {
			l = x.Label.Name
		}
		return L{"Branch", x.Tok.String(), l}
	case *ast.BlockStmt:
		return L{"Block", d.stmts(x.List)}
	case *ast.IfStmt:
		return L{"If", d.stmt(x.Init), d.expr(x.Cond), d.stmts(x.Body.List), d.stmt(x.Else)}
	case *ast.ForStmt:
		return L{"For", d.stmt(x.Init), d.expr(x.Cond), d.stmt(x.Post), d.stmts(x.Body.List)}
	case *ast.RangeStmt:
		return L{"Range", x.Tok.String(), d.expr(x.Key), d.expr(x.Value), d.expr(x.X), d.stmts(x.Body.List)}
	case *ast.SwitchStmt:
		var cs L
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cs = append(cs, L{cc.List == nil, d.exprs(cc.List), d.stmts(cc.Body)})
		}
		return L{"Switch", d.stmt(x.Init), d.expr(x.Tag), cs}
	case *ast.TypeSwitchStmt:
		var xx ast.Expr
		name := false
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			xx = a.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			xx = a.Rhs[0].(*ast.TypeAssertExpr).X
			name = true
		}
		var cs L
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			o := -1
			if name {
				if im, ok := d.info.Implicits[cc]; ok {
					o = d.obj(im)
				}
			}
			cs = append(cs, L{cc.List == nil, d.exprs(cc.List), o, d.stmts(cc.Body)})
		}
		return L{"TypeSwitch", d.stmt(x.Init), d.expr(xx), cs}
	case *ast.DeferStmt:
		return L{"Defer", d.expr(x.Call)}
	case *ast.EmptyStmt:
		return L{"Empty"}
	}
	return L{"Unknown", fmt.Sprintf("%T", s)}
}

func (d *dumper) gen(g *ast.GenDecl) L {
	out := L{}
	for _, s := range g.Specs {
		v, ok := s.(*ast.ValueSpec)
		if !ok || g.Tok == token.CONST {
			continue
		}
		var ids L
		for _, n := range v.Names {
			o := d.info.ObjectOf(n)
			ids = append(ids, L{n.Name, d.obj(o), d.typ(o.Type())})
		}
		out = append(out, L{ids, d.exprs(v.Values)})
	}
	return out
}

type request struct {
	Files map[string]string
	Check bool
}

var (
	fset = token.NewFileSet()
	imp  types.Importer
	mu   sync.Mutex
)

type shared struct{}

func (shared) Import(path string) (*types.Package, error) {
	mu.Lock()
	defer mu.Unlock()
	return imp.Import(path)
}

func handle(r *request) interface{} {
	fs := token.NewFileSet()
	var names []string
	for n := range r.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	var errs []string
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fs, n, r.Files[n], 0)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		files = append(files, f)
	}
	if len(errs) > 0 {
		return map[string]interface{}{"errors": errs}
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: shared{}, Error: func(err error) {
		errs = append(errs, err.Error())
	}}
	pkg, _ := conf.Check("gen", fs, files, info)
	if len(errs) > 0 {
		return map[string]interface{}{"errors": errs}
	}
	if r.Check {
		return map[string]interface{}{"name": pkg.Name()}
	}
	d := &dumper{fset: fs, info: info, objs: map[types.Object]int{}, types: map[string]int{}, pkg: pkg}
	var funcs, vars L
	for _, f := range files {
		for _, dd := range f.Decls {
			switch x := dd.(type) {
			case *ast.FuncDecl:
				o := d.info.ObjectOf(x.Name)
				recv := ""
				ptr := false
				if x.Recv != nil {
					s := types.ExprString(x.Recv.List[0].Type)
					ptr = strings.HasPrefix(s, "*")
					recv = strings.TrimPrefix(s, "*")
				}
				funcs = append(funcs, L{x.Name.Name, d.obj(o), recv, ptr, d.fn(x.Type, x.Body, x.Recv)})
			case *ast.GenDecl:
				for _, g := range d.gen(x) {
					vars = append(vars, g)
				}
			}
		}
	}
	var named L
	for _, n := range pkg.Scope().Names() {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
			named = append(named, L{n, d.typ(tn.Type())})
		}
	}
	return map[string]interface{}{"funcs": funcs, "vars": vars, "objs": d.otab, "types": d.ttab, "named": named, "name": pkg.Name()}
}

func serve(c net.Conn) {
	defer c.Close()
	rd := bufio.NewReaderSize(c, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var r request
		if err := json.Unmarshal(line, &r); err != nil {
			return
		}
		out, err := json.Marshal(handle(&r))
		if err != nil {
			out, _ = json.Marshal(map[string]interface{}{"failure": err.Error()})
		}
		out = append(out, '\n')
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func main() {
	imp = importer.ForCompiler(fset, "source", nil)
	l, err := net.Listen("unix", os.Args[1])
	if err != nil {
		panic(err)
	}
	for _, p := range []string{"fmt", "regexp", "strconv", "strings", "time", "math", "testing", "encoding/json"} {
		if _, err := imp.Import(p); err != nil {
			panic(err)
		}
	}
	fmt.Println("ready")
	// the server ends with its parent
	go func() {
		b := make([]byte, 1)
		os.Stdin.Read(b)
		os.Exit(0)
	}()
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go serve(c)
	}
}
