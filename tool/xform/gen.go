package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/printer"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"
)

type gen struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	files   []*ast.File
	root    string
	harness bool
	mem     bool
	scale   bool

	captured  map[*types.Var]bool
	addrTaken map[*types.Var]bool
	assigned  map[*types.Var]bool
	isParam   map[*types.Var]bool

	imports map[string]string // alias -> path, for the current file
	inits   []string
	fnStack []*ast.FuncType
	tmp     int
}

// ---------------------------------------------------------------- analysis

func (g *gen) analyse() {
	g.captured = map[*types.Var]bool{}
	g.addrTaken = map[*types.Var]bool{}
	g.assigned = map[*types.Var]bool{}
	for _, f := range g.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				g.walkFn(fd, fd.Body, fd.Type)
			} else {
				g.walkFn(d, d, nil)
			}
		}
	}
}

func (g *gen) localVar(e ast.Expr) *types.Var {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil
	}
	v, _ := g.obj(id).(*types.Var)
	if v == nil || v.IsField() {
		return nil
	}
	return v
}

func (g *gen) obj(id *ast.Ident) types.Object {
	if o := g.info.Uses[id]; o != nil {
		return o
	}
	return g.info.Defs[id]
}

// baseVar returns the variable whose storage the lvalue e lies in, if any.
func (g *gen) baseVar(e ast.Expr) *types.Var {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return g.localVar(e)
	case *ast.SelectorExpr:
		if s := g.info.Selections[e]; s != nil && s.Kind() == types.FieldVal {
			if s.Indirect() {
				if _, ptr := under(g.typ(e.X)).(*types.Pointer); ptr {
					return nil
				}
				return nil
			}
			return g.baseVar(e.X)
		}
	case *ast.IndexExpr:
		if _, ok := under(g.typ(e.X)).(*types.Array); ok {
			return g.baseVar(e.X)
		}
	}
	return nil
}

func (g *gen) walkFn(scope ast.Node, n ast.Node, ft *ast.FuncType) {
	mark := func(e ast.Expr) {
		if v := g.baseVar(e); v != nil {
			g.assigned[v] = true
		}
	}
	takeAddr := func(e ast.Expr) {
		if v := g.baseVar(e); v != nil {
			g.addrTaken[v] = true
		}
	}
	var lits []ast.Node
	var fts []*ast.FuncType
	if ft != nil {
		fts = append(fts, ft)
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
			fts = append(fts, n.Type)
			ast.Inspect(n.Body, visit)
			fts = fts[:len(fts)-1]
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			if v, ok := g.info.Uses[n].(*types.Var); ok && !v.IsField() && len(lits) > 0 {
				l := lits[len(lits)-1]
				if v.Pos() < l.Pos() || v.Pos() >= l.End() {
					g.captured[v] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				takeAddr(n.X)
			}
		case *ast.SliceExpr:
			if _, ok := under(g.typ(n.X)).(*types.Array); ok {
				takeAddr(n.X)
			}
		case *ast.SelectorExpr:
			if s := g.info.Selections[n]; s != nil && s.Kind() == types.MethodVal && g.implicitAddr(n, s) {
				takeAddr(n.X)
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := l.(*ast.Ident); ok && n.Tok == token.DEFINE && g.info.Defs[id] != nil {
					continue
				}
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			}
		case *ast.ForStmt:
			// per-iteration copies: treat loop variables as reassigned
		case *ast.ValueSpec:
			if len(n.Values) == 0 {
				// zero value; later assignments are marked on their own
			}
		case *ast.ReturnStmt:
			if len(n.Results) > 0 && len(fts) > 0 {
				if r := fts[len(fts)-1].Results; r != nil {
					for _, f := range r.List {
						for _, nm := range f.Names {
							if v, ok := g.info.Defs[nm].(*types.Var); ok {
								g.assigned[v] = true
							}
						}
					}
				}
			}
		}
		return true
	}
	ast.Inspect(n, visit)
}

func (g *gen) implicitAddr(n *ast.SelectorExpr, s *types.Selection) bool {
	f, ok := s.Obj().(*types.Func)
	if !ok {
		return false
	}
	recv := f.Type().(*types.Signature).Recv()
	if recv == nil {
		return false
	}
	if _, ok := recv.Type().(*types.Pointer); !ok {
		return false
	}
	if s.Indirect() {
		return false
	}
	_, isPtr := under(g.typ(n.X)).(*types.Pointer)
	return !isPtr
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		var u types.Type
		iface, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			switch e := iface.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					x := e.Term(j).Type().Underlying()
					if u != nil && !types.Identical(u, x) {
						return t.Underlying()
					}
					u = x
				}
			default:
				x := e.Underlying()
				if _, ok := x.(*types.Interface); ok {
					continue
				}
				u = x
			}
		}
		if u != nil {
			return u
		}
	}
	return t.Underlying()
}

func (g *gen) typ(e ast.Expr) types.Type {
	if tv, ok := g.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := g.obj(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (g *gen) isType(e ast.Expr) bool {
	tv, ok := g.info.Types[e]
	return ok && tv.IsType()
}

// shared reports whether the lvalue e may be accessed by several goroutines.
func (g *gen) shared(e ast.Expr) bool {
	if !g.mem {
		return false
	}
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		v := g.localVar(e)
		if v == nil {
			return false
		}
		if v.Pkg() != g.pkg {
			return false
		}
		if v.Parent() == g.pkg.Scope() {
			return !g.harness || g.assigned[v] || g.addrTaken[v]
		}
		if g.addrTaken[v] {
			return true
		}
		return g.captured[v] && g.assigned[v]
	case *ast.SelectorExpr:
		s := g.info.Selections[e]
		if s == nil {
			// package-qualified variable
			if v, ok := g.info.Uses[e.Sel].(*types.Var); ok && v.Pkg() != nil {
				return strings.HasPrefix(v.Pkg().Path(), "github.com/intel/")
			}
			return false
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return g.shared(e.X)
	case *ast.IndexExpr:
		switch u := core(g.typ(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return g.shared(e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (g *gen) isMapIndex(e ast.Expr) *ast.IndexExpr {
	ix, ok := ast.Unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil
	}
	if _, ok := core(g.typ(ix.X)).(*types.Map); ok {
		return ix
	}
	return nil
}

func isChan(t types.Type) bool {
	_, ok := core(t).(*types.Chan)
	return ok
}

// ---------------------------------------------------------------- emission

func (g *gen) raw(n any) string {
	var b bytes.Buffer
	printer.Fprint(&b, g.fset, n)
	return b.String()
}

func (g *gen) use(path, alias string) string {
	g.imports[alias] = path
	return alias
}

func (g *gen) mc() string { return g.use(*flagRT+"/mc", "zzmc") }

func (g *gen) file(f *ast.File) string {
	g.imports = map[string]string{}
	orig := map[string]string{} // path -> import name as written
	for _, s := range f.Imports {
		path := strings.Trim(s.Path.Value, "\"`")
		name := ""
		if s.Name != nil {
			name = s.Name.Name
		}
		orig[path] = name
		if name == "_" || name == "." {
			g.imports[name+"|"+path] = path
		}
	}
	var body strings.Builder
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		body.WriteString(g.decl(d, true))
		body.WriteString("\n\n")
	}
	var out strings.Builder
	fmt.Fprintf(&out, "package %s\n\n", f.Name.Name)
	if len(g.imports) > 0 {
		out.WriteString("import (\n")
		for _, a := range sortedKeys(g.imports) {
			p := g.imports[a]
			if i := strings.IndexByte(a, '|'); i >= 0 {
				a = a[:i]
			}
			fmt.Fprintf(&out, "\t%s %q\n", a, p)
		}
		out.WriteString(")\n\n")
	}
	out.WriteString(body.String())
	return out.String()
}

func (g *gen) line(n ast.Node) string {
	p := g.fset.Position(n.Pos())
	if !p.IsValid() {
		return "\n"
	}
	rel, err := filepath.Rel(g.root, p.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = p.Filename
	}
	if g.harness {
		return fmt.Sprintf("\n//line /%s:%d\n", rel, p.Line)
	}
	return fmt.Sprintf("\n//line /repo/%s:%d\n", rel, p.Line)
}

func (g *gen) decl(d ast.Decl, top bool) string {
	switch d := d.(type) {
	case *ast.FuncDecl:
		name := d.Name.Name
		if d.Recv == nil && name == "init" && !g.harness {
			name = fmt.Sprintf("zzinit%d", len(g.inits))
			g.inits = append(g.inits, name)
		}
		s := g.line(d) + "func "
		if d.Recv != nil {
			s += "(" + g.fieldList(d.Recv, ", ") + ") "
		}
		s += name
		if d.Type.TypeParams != nil {
			s += "[" + g.fieldList(d.Type.TypeParams, ", ") + "]"
		}
		s += g.sig(d.Type)
		if d.Body != nil {
			g.fnStack = append(g.fnStack, d.Type)
			s += " " + g.block(d.Body)
			g.fnStack = g.fnStack[:len(g.fnStack)-1]
		}
		return s
	case *ast.GenDecl:
		switch d.Tok {
		case token.CONST:
			var s strings.Builder
			s.WriteString(g.line(d) + "const (\n")
			for _, sp := range d.Specs {
				v := sp.(*ast.ValueSpec)
				var names []string
				for _, n := range v.Names {
					names = append(names, n.Name)
				}
				s.WriteString(strings.Join(names, ", "))
				if v.Type != nil {
					s.WriteString(" " + g.typeExpr(v.Type))
				}
				if len(v.Values) > 0 {
					s.WriteString(" = ")
					for i, x := range v.Values {
						if i > 0 {
							s.WriteString(", ")
						}
						s.WriteString(g.constExpr(x, names[i]))
					}
				}
				s.WriteString("\n")
			}
			s.WriteString(")")
			return s.String()
		case token.TYPE:
			var s strings.Builder
			for i, sp := range d.Specs {
				if i > 0 {
					s.WriteString("\n")
				}
				t := sp.(*ast.TypeSpec)
				s.WriteString("type " + t.Name.Name)
				if t.TypeParams != nil {
					s.WriteString("[" + g.fieldList(t.TypeParams, ", ") + "]")
				}
				_, ch := t.Type.(*ast.ChanType)
				if t.Assign.IsValid() || ch {
					s.WriteString(" =")
				}
				s.WriteString(" " + g.typeExpr(t.Type))
			}
			return s.String()
		case token.VAR:
			var s strings.Builder
			for i, sp := range d.Specs {
				if i > 0 {
					s.WriteString("\n")
				}
				v := sp.(*ast.ValueSpec)
				s.WriteString("var ")
				for i, n := range v.Names {
					if i > 0 {
						s.WriteString(", ")
					}
					s.WriteString(n.Name)
				}
				if v.Type != nil {
					s.WriteString(" " + g.typeExpr(v.Type))
				}
				if len(v.Values) > 0 {
					s.WriteString(" = ")
					if len(v.Names) == 2 && len(v.Values) == 1 {
						s.WriteString(g.expr2(v.Values[0]))
					} else {
						s.WriteString(g.exprs(v.Values))
					}
				}
			}
			return s.String()
		}
	}
	return g.raw(d)
}

func (g *gen) fieldList(fl *ast.FieldList, sep string) string {
	if fl == nil {
		return ""
	}
	var parts []string
	for _, f := range fl.List {
		s := ""
		for i, n := range f.Names {
			if i > 0 {
				s += ", "
			}
			s += n.Name
		}
		if s != "" {
			s += " "
		}
		s += g.typeExpr(f.Type)
		if f.Tag != nil {
			s += " " + f.Tag.Value
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, sep)
}

func (g *gen) sig(t *ast.FuncType) string {
	s := "(" + g.fieldList(t.Params, ", ") + ")"
	if t.Results != nil && len(t.Results.List) > 0 {
		s += " (" + g.fieldList(t.Results, ", ") + ")"
	}
	return s
}

func (g *gen) typeExpr(e ast.Expr) string {
	switch e := e.(type) {
	case nil:
		return ""
	case *ast.Ident:
		return g.ident(e)
	case *ast.ParenExpr:
		return "(" + g.typeExpr(e.X) + ")"
	case *ast.SelectorExpr:
		return g.selector(e)
	case *ast.StarExpr:
		return "*" + g.typeExpr(e.X)
	case *ast.ArrayType:
		if e.Len == nil {
			return "[]" + g.typeExpr(e.Elt)
		}
		if _, ok := e.Len.(*ast.Ellipsis); ok {
			return "[...]" + g.typeExpr(e.Elt)
		}
		return "[" + g.expr(e.Len) + "]" + g.typeExpr(e.Elt)
	case *ast.MapType:
		return "map[" + g.typeExpr(e.Key) + "]" + g.typeExpr(e.Value)
	case *ast.ChanType:
		return "*" + g.mc() + ".Chan[" + g.typeExpr(e.Value) + "]"
	case *ast.FuncType:
		return "func" + g.sig(e)
	case *ast.StructType:
		return "struct {\n" + g.fieldList(e.Fields, "\n") + "\n}"
	case *ast.InterfaceType:
		var parts []string
		for _, f := range e.Methods.List {
			if len(f.Names) > 0 {
				for _, n := range f.Names {
					parts = append(parts, n.Name+g.sig(f.Type.(*ast.FuncType)))
				}
			} else {
				parts = append(parts, g.typeExpr(f.Type))
			}
		}
		return "interface {\n" + strings.Join(parts, "\n") + "\n}"
	case *ast.Ellipsis:
		return "..." + g.typeExpr(e.Elt)
	case *ast.IndexExpr:
		return g.typeExpr(e.X) + "[" + g.typeExpr(e.Index) + "]"
	case *ast.IndexListExpr:
		var p []string
		for _, x := range e.Indices {
			p = append(p, g.typeExpr(x))
		}
		return g.typeExpr(e.X) + "[" + strings.Join(p, ", ") + "]"
	case *ast.BinaryExpr:
		return g.typeExpr(e.X) + " | " + g.typeExpr(e.Y)
	case *ast.UnaryExpr:
		return e.Op.String() + g.typeExpr(e.X)
	}
	die("unsupported type expression %T at %v", e, g.fset.Position(e.Pos()))
	return ""
}

func (g *gen) ident(e *ast.Ident) string {
	if pn, ok := g.info.Uses[e].(*types.PkgName); ok {
		// handled by selector; bare use is impossible
		g.use(pn.Imported().Path(), e.Name)
	}
	return e.Name
}

func (g *gen) selector(e *ast.SelectorExpr) string {
	if id, ok := e.X.(*ast.Ident); ok {
		if pn, ok := g.info.Uses[id].(*types.PkgName); ok {
			path := pn.Imported().Path()
			if names := shims[path]; names != nil && names[e.Sel.Name] {
				alias := "zz" + shimDirs[path]
				g.use(*flagRT+"/"+shimDirs[path], alias)
				return alias + "." + e.Sel.Name
			}
			g.use(path, id.Name)
			return id.Name + "." + e.Sel.Name
		}
	}
	if g.isType(e.X) {
		return "(" + g.typeExpr(e.X) + ")." + e.Sel.Name
	}
	return g.lval(e.X) + "." + e.Sel.Name
}

func (g *gen) exprs(es []ast.Expr) string {
	var p []string
	for _, e := range es {
		p = append(p, g.expr(e))
	}
	return strings.Join(p, ", ")
}

// expr2 emits an expression in a context that wants two values.
func (g *gen) expr2(e ast.Expr) string {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return g.operand(u.X) + ".Recv2()"
	}
	return g.expr(e)
}

func (g *gen) constExpr(e ast.Expr, name string) string {
	if g.scale {
		if tv, ok := g.info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
			if v, ok := constant.Int64Val(tv.Value); ok {
				if r := scaled(v, name); r != v {
					return fmt.Sprint(r)
				}
			}
		}
	}
	switch e := e.(type) {
	case *ast.BinaryExpr:
		return g.constExpr(e.X, "") + " " + e.Op.String() + " " + g.constExpr(e.Y, "")
	case *ast.ParenExpr:
		return "(" + g.constExpr(e.X, "") + ")"
	case *ast.UnaryExpr:
		return e.Op.String() + g.constExpr(e.X, "")
	case *ast.SelectorExpr:
		return g.selector(e)
	case *ast.Ident:
		return g.ident(e)
	case *ast.CallExpr:
		if g.isType(e.Fun) {
			return g.convFun(e.Fun) + "(" + g.constExpr(e.Args[0], "") + ")"
		}
		s := g.raw(e)
		g.noteImports(e)
		return s
	}
	g.noteImports(e)
	return g.raw(e)
}

func (g *gen) noteImports(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := g.info.Uses[id].(*types.PkgName); ok {
				g.use(pn.Imported().Path(), id.Name)
			}
		}
		return true
	})
}

func (g *gen) convFun(e ast.Expr) string { return "(" + g.typeExpr(e) + ")" }

func (g *gen) rd(e ast.Expr, s string) string {
	fn := "Rd"
	switch under(g.typ(e)).(type) {
	case *types.Struct, *types.Array:
		fn = "RdS"
	}
	return "(*" + g.mc() + "." + fn + "(" + s + "))"
}

func (g *gen) wrFn(e ast.Expr) string {
	switch under(g.typ(e)).(type) {
	case *types.Struct, *types.Array:
		return g.mc() + ".WrS"
	}
	return g.mc() + ".Wr"
}

// operand emits e so that a selector or call can follow.
func (g *gen) operand(e ast.Expr) string {
	s := g.expr(e)
	switch ast.Unparen(e).(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr:
		return s
	}
	return "(" + s + ")"
}

// lval emits e as a location or as the operand of a selector: no read of e
// itself is recorded when e is addressable and used in place.
func (g *gen) lval(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return "(" + g.lval(e.X) + ")"
	case *ast.Ident:
		if _, ok := under(g.typ(e)).(*types.Pointer); ok {
			return g.expr(e)
		}
		return g.ident(e)
	case *ast.SelectorExpr:
		if g.info.Selections[e] == nil {
			return g.selector(e)
		}
		if _, ok := under(g.typ(e)).(*types.Pointer); ok {
			return g.expr(e)
		}
		return g.lval(e.X) + "." + e.Sel.Name
	case *ast.IndexExpr:
		t := core(g.typ(e.X))
		if _, ok := under(g.typ(e)).(*types.Pointer); ok {
			return g.expr(e)
		}
		switch t.(type) {
		case *types.Slice, *types.Pointer:
			return g.operand(e.X) + "[" + g.expr(e.Index) + "]"
		case *types.Array:
			return g.lval(e.X) + "[" + g.expr(e.Index) + "]"
		}
	case *ast.StarExpr:
		if _, ok := under(g.typ(e)).(*types.Pointer); ok {
			return g.expr(e)
		}
		return "(*" + g.operand(e.X) + ")"
	}
	return g.operand(e)
}

// loc emits the location e itself (for & and assignment), whatever its type.
func (g *gen) loc(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return g.loc(e.X)
	case *ast.Ident:
		return g.ident(e)
	case *ast.SelectorExpr:
		if g.info.Selections[e] == nil {
			return g.selector(e)
		}
		return g.lval(e.X) + "." + e.Sel.Name
	case *ast.IndexExpr:
		switch core(g.typ(e.X)).(type) {
		case *types.Slice, *types.Pointer:
			return g.operand(e.X) + "[" + g.expr(e.Index) + "]"
		case *types.Array:
			return g.loc(e.X) + "[" + g.expr(e.Index) + "]"
		case *types.Map:
			return g.mc() + ".MapWr(" + g.expr(e.X) + ")[" + g.expr(e.Index) + "]"
		}
	case *ast.StarExpr:
		return "(*" + g.operand(e.X) + ")"
	}
	return g.expr(e)
}

func (g *gen) expr(e ast.Expr) string {
	if tv, ok := g.info.Types[e]; ok && tv.Value != nil {
		return g.constExpr(e, "")
	}
	switch e := e.(type) {
	case nil:
		return ""
	case *ast.Ident:
		if g.shared(e) {
			return g.rd(e, "&"+g.ident(e))
		}
		return g.ident(e)
	case *ast.BasicLit:
		return e.Value
	case *ast.ParenExpr:
		if g.isType(e) {
			return g.typeExpr(e)
		}
		return "(" + g.expr(e.X) + ")"
	case *ast.FuncLit:
		g.fnStack = append(g.fnStack, e.Type)
		s := "func" + g.sig(e.Type) + " " + g.block(e.Body)
		g.fnStack = g.fnStack[:len(g.fnStack)-1]
		return s
	case *ast.CompositeLit:
		return g.composite(e)
	case *ast.SelectorExpr:
		s := g.info.Selections[e]
		if s == nil {
			if g.shared(e) {
				return g.rd(e, "&"+g.selector(e))
			}
			return g.selector(e)
		}
		switch s.Kind() {
		case types.FieldVal:
			if g.shared(e) {
				return g.rd(e, "&"+g.loc(e))
			}
			return g.lvalOrExpr(e.X) + "." + e.Sel.Name
		case types.MethodVal:
			if g.implicitAddr(e, s) {
				return g.lval(e.X) + "." + e.Sel.Name
			}
			return g.operand(e.X) + "." + e.Sel.Name
		}
		return "(" + g.typeExpr(e.X) + ")." + e.Sel.Name
	case *ast.IndexExpr:
		if g.isType(e) {
			return g.typeExpr(e)
		}
		if g.isType(e.Index) {
			return g.expr(e.X) + "[" + g.typeExpr(e.Index) + "]"
		}
		if _, ok := core(g.typ(e.X)).(*types.Map); ok {
			if g.mem {
				return g.mc() + ".MapRd(" + g.expr(e.X) + ")[" + g.expr(e.Index) + "]"
			}
			return g.operand(e.X) + "[" + g.expr(e.Index) + "]"
		}
		if g.shared(e) {
			return g.rd(e, "&"+g.loc(e))
		}
		if _, ok := core(g.typ(e.X)).(*types.Array); ok {
			return g.lvalOrExpr(e.X) + "[" + g.expr(e.Index) + "]"
		}
		return g.operand(e.X) + "[" + g.expr(e.Index) + "]"
	case *ast.IndexListExpr:
		var p []string
		for _, x := range e.Indices {
			p = append(p, g.typeExpr(x))
		}
		return g.expr(e.X) + "[" + strings.Join(p, ", ") + "]"
	case *ast.SliceExpr:
		x := ""
		if _, ok := core(g.typ(e.X)).(*types.Array); ok {
			x = g.loc(e.X)
		} else {
			x = g.operand(e.X)
		}
		s := x + "[" + g.expr(e.Low) + ":" + g.expr(e.High)
		if e.Slice3 {
			s += ":" + g.expr(e.Max)
		}
		return s + "]"
	case *ast.TypeAssertExpr:
		if e.Type == nil {
			return g.operand(e.X) + ".(type)"
		}
		return g.operand(e.X) + ".(" + g.typeExpr(e.Type) + ")"
	case *ast.CallExpr:
		return g.call(e)
	case *ast.StarExpr:
		if g.isType(e) {
			return g.typeExpr(e)
		}
		if g.mem {
			return g.rd(e, g.expr(e.X))
		}
		return "(*" + g.operand(e.X) + ")"
	case *ast.UnaryExpr:
		switch e.Op {
		case token.ARROW:
			return g.operand(e.X) + ".Recv()"
		case token.AND:
			if _, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				return "&" + g.expr(e.X)
			}
			return "(&" + g.loc(e.X) + ")"
		}
		return e.Op.String() + "(" + g.expr(e.X) + ")"
	case *ast.BinaryExpr:
		return "(" + g.expr(e.X) + " " + e.Op.String() + " " + g.expr(e.Y) + ")"
	case *ast.KeyValueExpr:
		return g.expr(e.Key) + ": " + g.expr(e.Value)
	case *ast.ArrayType, *ast.MapType, *ast.ChanType, *ast.FuncType, *ast.StructType, *ast.InterfaceType, *ast.Ellipsis:
		return g.typeExpr(e)
	}
	die("unsupported expression %T at %v", e, g.fset.Position(e.Pos()))
	return ""
}

// lvalOrExpr is used for the operand of a field or array selection that is
// not itself shared.
func (g *gen) lvalOrExpr(e ast.Expr) string { return g.operand(e) }

func (g *gen) composite(e *ast.CompositeLit) string {
	s := ""
	if e.Type != nil {
		s = g.typeExpr(e.Type)
	}
	isMapOrArr := true
	t := g.typ(e)
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if _, ok := core(t).(*types.Struct); ok {
		isMapOrArr = false
	}
	var p []string
	for _, x := range e.Elts {
		if kv, ok := x.(*ast.KeyValueExpr); ok {
			k := ""
			if isMapOrArr {
				k = g.expr(kv.Key)
			} else {
				k = kv.Key.(*ast.Ident).Name
			}
			p = append(p, k+": "+g.expr(kv.Value))
		} else {
			p = append(p, g.expr(x))
		}
	}
	return s + "{" + strings.Join(p, ", ") + "}"
}

func (g *gen) builtin(e ast.Expr) string {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := g.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (g *gen) call(e *ast.CallExpr) string {
	if g.isType(e.Fun) {
		return g.convFun(e.Fun) + "(" + g.exprs(e.Args) + ")"
	}
	dots := ""
	if e.Ellipsis.IsValid() {
		dots = "..."
	}
	switch b := g.builtin(e.Fun); b {
	case "":
	case "make":
		t := g.typ(e.Args[0])
		if ch, ok := core(t).(*types.Chan); ok {
			elem := ""
			if ct, ok := e.Args[0].(*ast.ChanType); ok {
				elem = g.typeExpr(ct.Value)
			} else {
				elem = g.typeString(ch.Elem())
			}
			s := g.mc() + ".MakeChan[" + elem + "]("
			if len(e.Args) > 1 {
				s += "int(" + g.expr(e.Args[1]) + ")"
			}
			return s + ")"
		}
		s := "make(" + g.typeExpr(e.Args[0])
		for _, a := range e.Args[1:] {
			s += ", " + g.expr(a)
		}
		return s + ")"
	case "new":
		if g.isType(e.Args[0]) {
			return "new(" + g.typeExpr(e.Args[0]) + ")"
		}
	case "close":
		return g.operand(e.Args[0]) + ".Close()"
	case "len":
		if isChan(g.typ(e.Args[0])) {
			return g.operand(e.Args[0]) + ".Len()"
		}
	case "cap":
		if isChan(g.typ(e.Args[0])) {
			return g.operand(e.Args[0]) + ".Cap()"
		}
	case "recover":
		return g.mc() + ".Recover(recover())"
	case "append":
		if !g.mem || len(e.Args) == 1 {
			break
		}
		if _, ok := core(g.typ(e.Args[0])).(*types.Slice); !ok {
			break
		}
		if dots != "" {
			if _, ok := core(g.typ(e.Args[1])).(*types.Slice); !ok {
				break
			}
			return g.mc() + ".AppendSlice(" + g.exprs(e.Args) + ")"
		}
		return fmt.Sprintf("append(%s.AppendTo(%s, %d), %s)", g.mc(), g.expr(e.Args[0]), len(e.Args)-1, g.exprs(e.Args[1:]))
	case "copy":
		if !g.mem {
			break
		}
		if _, ok := core(g.typ(e.Args[1])).(*types.Slice); ok {
			return g.mc() + ".Copy(" + g.exprs(e.Args) + ")"
		}
	case "delete":
		if g.mem {
			return "delete(" + g.mc() + ".MapWr(" + g.expr(e.Args[0]) + "), " + g.expr(e.Args[1]) + ")"
		}
	case "clear":
		if _, ok := core(g.typ(e.Args[0])).(*types.Map); ok && g.mem {
			return "clear(" + g.mc() + ".MapWr(" + g.expr(e.Args[0]) + "))"
		}
	default:
		if sel, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr); ok {
			return g.selector(sel) + "(" + g.exprs(e.Args) + dots + ")"
		}
	}
	fun := ""
	switch f := ast.Unparen(e.Fun).(type) {
	case *ast.FuncLit:
		fun = "(" + g.expr(f) + ")"
	default:
		fun = g.operand(e.Fun)
	}
	return fun + "(" + g.exprs(e.Args) + dots + ")"
}

// typeString prints a type that has no syntax of its own in the source.
func (g *gen) typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == g.pkg {
			return ""
		}
		return g.use(p.Path(), p.Name())
	})
}

func (g *gen) hasCall(es ...ast.Expr) bool {
	found := false
	for _, e := range es {
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					found = true
				}
			case *ast.CallExpr:
				if g.isType(n.Fun) {
					return true
				}
				switch g.builtin(n.Fun) {
				case "":
					found = true
				case "close", "recover", "panic":
					found = true
				case "len", "cap":
					if isChan(g.typ(n.Args[0])) {
						found = true
					}
				}
			}
			return !found
		})
	}
	return found
}
