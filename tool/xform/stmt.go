package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (g *gen) block(b *ast.BlockStmt) string {
	return "{" + g.stmts(b.List) + "\n}"
}

func (g *gen) stmts(l []ast.Stmt) string {
	var s strings.Builder
	for _, x := range l {
		s.WriteString(g.line(x))
		s.WriteString(g.stmt(x))
	}
	return s.String()
}

func (g *gen) name(prefix string) string {
	g.tmp++
	return fmt.Sprintf("zz%s%d", prefix, g.tmp)
}

func (g *gen) stmt(s ast.Stmt) string {
	switch s := s.(type) {
	case nil:
		return ""
	case *ast.EmptyStmt:
		return ";"
	case *ast.BlockStmt:
		return g.block(s)
	case *ast.ExprStmt:
		return g.expr(s.X)
	case *ast.SendStmt:
		return g.operand(s.Chan) + ".Send(" + g.expr(s.Value) + ")"
	case *ast.IncDecStmt:
		if g.isMapIndex(s.X) != nil {
			if g.mem {
				return g.loc(s.X) + s.Tok.String()
			}
			return g.expr(s.X) + s.Tok.String()
		}
		if g.shared(s.X) {
			return "*" + g.mc() + ".RW(&" + g.loc(s.X) + ")" + s.Tok.String()
		}
		return g.locNS(s.X) + s.Tok.String()
	case *ast.AssignStmt:
		return g.assign(s)
	case *ast.GoStmt:
		return g.goStmt(s)
	case *ast.DeferStmt:
		return "defer " + g.deferCall(s.Call)
	case *ast.ReturnStmt:
		return g.ret(s)
	case *ast.BranchStmt:
		if s.Label != nil {
			return s.Tok.String() + " " + s.Label.Name
		}
		return s.Tok.String()
	case *ast.IfStmt:
		r := "if "
		if s.Init != nil {
			r += g.stmt(s.Init) + "; "
		}
		r += g.expr(s.Cond) + " " + g.block(s.Body)
		if s.Else != nil {
			r += " else " + g.stmt(s.Else)
		}
		return r
	case *ast.SwitchStmt:
		r := "switch "
		if s.Init != nil {
			r += g.stmt(s.Init) + "; "
		}
		if s.Tag != nil {
			r += g.expr(s.Tag)
		}
		r += " {"
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				r += "\ndefault:"
			} else {
				r += "\ncase " + g.exprs(cc.List) + ":"
			}
			r += g.stmts(cc.Body)
		}
		return r + "\n}"
	case *ast.TypeSwitchStmt:
		r := "switch "
		if s.Init != nil {
			r += g.stmt(s.Init) + "; "
		}
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			r += a.Lhs[0].(*ast.Ident).Name + " := " + g.expr(a.Rhs[0])
		case *ast.ExprStmt:
			r += g.expr(a.X)
		}
		r += " {"
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				r += "\ndefault:"
			} else {
				var p []string
				for _, t := range cc.List {
					if tv := g.info.Types[t]; tv.IsNil() {
						p = append(p, "nil")
					} else {
						p = append(p, g.typeExpr(t))
					}
				}
				r += "\ncase " + strings.Join(p, ", ") + ":"
			}
			r += g.stmts(cc.Body)
		}
		return r + "\n}"
	case *ast.SelectStmt:
		return g.selectStmt(s)
	case *ast.ForStmt:
		r := "for "
		if s.Init != nil || s.Post != nil {
			r += g.stmt(s.Init) + "; " + g.expr(s.Cond) + "; " + g.stmt(s.Post)
		} else if s.Cond != nil {
			r += g.expr(s.Cond)
		}
		return r + " " + g.block(s.Body)
	case *ast.RangeStmt:
		return g.rangeStmt(s)
	case *ast.LabeledStmt:
		return s.Label.Name + ":\n" + g.stmt(s.Stmt)
	case *ast.DeclStmt:
		return g.decl(s.Decl, false)
	}
	die("unsupported statement %T at %v", s, g.fset.Position(s.Pos()))
	return ""
}

// locNS emits an assignable location that is not recorded.
func (g *gen) locNS(e ast.Expr) string {
	if g.isMapIndex(e) != nil && !g.mem {
		return g.expr(e)
	}
	return g.loc(e)
}

func (g *gen) assign(s *ast.AssignStmt) string {
	if s.Tok == token.DEFINE {
		var l []string
		for _, x := range s.Lhs {
			l = append(l, x.(*ast.Ident).Name)
		}
		rhs := ""
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			rhs = g.expr2(s.Rhs[0])
		} else {
			rhs = g.exprs(s.Rhs)
		}
		return strings.Join(l, ", ") + " := " + rhs
	}
	if s.Tok != token.ASSIGN {
		l, r := s.Lhs[0], s.Rhs[0]
		op := s.Tok.String()
		if g.isMapIndex(l) == nil && g.shared(l) {
			if g.hasCall(r) {
				p, v := g.name("p"), g.name("v")
				return "{ " + p + ", " + v + " := &" + g.loc(l) + ", " + g.expr(r) + "; *" + g.mc() + ".RW(" + p + ") " + op + " " + v + " }"
			}
			return "*" + g.mc() + ".RW(&" + g.loc(l) + ") " + op + " " + g.expr(r)
		}
		return g.locNS(l) + " " + op + " " + g.expr(r)
	}
	// plain assignment
	anyShared := false
	blanks := false
	maps := false
	for _, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			blanks = true
			continue
		}
		if g.isMapIndex(l) != nil {
			maps = true
			continue
		}
		if g.shared(l) {
			anyShared = true
		}
	}
	rhs := ""
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		rhs = g.expr2(s.Rhs[0])
	} else {
		rhs = g.exprs(s.Rhs)
	}
	calls := g.hasCall(s.Rhs...)
	if anyShared && calls && !blanks && !maps && len(s.Lhs) <= 3 {
		var l []string
		for _, x := range s.Lhs {
			l = append(l, "&"+g.loc(x))
		}
		// ok-forms yield untyped bools only in assignments
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if _, isCall := ast.Unparen(s.Rhs[0]).(*ast.CallExpr); !isCall {
				a, b := g.name("v"), g.name("v")
				p, q := g.name("p"), g.name("p")
				return "{ " + p + ", " + q + " := " + l[0] + ", " + l[1] + "; " + a + ", " + b + " := " + rhs + "; *" + g.wrFn(s.Lhs[0]) + "(" + p + "), *" + g.wrFn(s.Lhs[1]) + "(" + q + ") = " + a + ", " + b + " }"
			}
		}
		return fmt.Sprintf("%s.SetP%d(%s)(%s)", g.mc(), len(l), strings.Join(l, ", "), rhs)
	}
	if maps && calls && len(s.Lhs) == 1 && g.mem {
		ix := g.isMapIndex(s.Lhs[0])
		return g.mc() + ".MapSet(" + g.expr(ix.X) + ")(" + g.expr(ix.Index) + ", " + rhs + ")"
	}
	var l []string
	for _, x := range s.Lhs {
		switch {
		case isBlank(x):
			l = append(l, "_")
		case g.isMapIndex(x) != nil:
			l = append(l, g.locNS(x))
		case g.shared(x):
			l = append(l, "*"+g.wrFn(x)+"(&"+g.loc(x)+")")
		default:
			l = append(l, g.locNS(x))
		}
	}
	return strings.Join(l, ", ") + " = " + rhs
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (g *gen) ret(s *ast.ReturnStmt) string {
	if len(s.Results) == 0 {
		return "return"
	}
	if len(g.fnStack) > 0 && g.mem {
		if r := g.fnStack[len(g.fnStack)-1].Results; r != nil {
			var ptrs []string
			any, ok := false, true
			for _, f := range r.List {
				for _, n := range f.Names {
					if n.Name == "_" {
						ok = false
						continue
					}
					v, _ := g.info.Defs[n].(*types.Var)
					if v == nil {
						ok = false
						continue
					}
					if g.shared(n) {
						any = true
					}
					if sc := g.pkg.Scope().Innermost(s.Pos()); sc != nil {
						if _, o := sc.LookupParent(n.Name, s.Pos()); o != v {
							ok = false
						}
					}
					ptrs = append(ptrs, "&"+n.Name)
				}
			}
			if any && ok && len(ptrs) > 0 && len(ptrs) <= 3 {
				return fmt.Sprintf("%s.SetP%d(%s)(%s)\nreturn", g.mc(), len(ptrs), strings.Join(ptrs, ", "), g.exprs(s.Results))
			}
		}
	}
	return "return " + g.exprs(s.Results)
}

func (g *gen) rangeStmt(s *ast.RangeStmt) string {
	t := core(g.typ(s.X))
	x := ""
	switch t.(type) {
	case *types.Chan:
		x = g.operand(s.X) + ".Iter()"
	case *types.Slice:
		if g.mem && s.Value != nil && !isBlank(s.Value) {
			x = g.mc() + ".RangeSlice(" + g.expr(s.X) + ")"
		}
	case *types.Map:
		x = g.mc() + ".RangeMap(" + g.expr(s.X) + ")"
	case *types.Array:
		if s.Value == nil || isBlank(s.Value) {
			x = g.lval(s.X)
		}
	}
	if x == "" {
		x = g.expr(s.X)
	}
	r := "for "
	if s.Key != nil {
		em := func(e ast.Expr) string {
			if s.Tok == token.DEFINE || isBlank(e) {
				return g.raw(e)
			}
			return g.loc(e)
		}
		r += em(s.Key)
		if s.Value != nil {
			r += ", " + em(s.Value)
		}
		r += " " + s.Tok.String() + " "
	}
	return r + "range " + x + " " + g.block(s.Body)
}

func (g *gen) selectStmt(s *ast.SelectStmt) string {
	if len(s.Body.List) == 0 {
		return "for { " + g.mc() + ".Select(false) }"
	}
	var names, inits []string
	hasDef := false
	type cl struct {
		pre  string
		body []ast.Stmt
		def  bool
	}
	var cls []cl
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			cls = append(cls, cl{def: true, body: cc.Body})
			continue
		}
		n := g.name("c")
		names = append(names, n)
		pre := ""
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, g.operand(m.Chan)+".SendCase("+g.expr(m.Value)+")")
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			inits = append(inits, g.operand(u.X)+".RecvCase()")
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			inits = append(inits, g.operand(u.X)+".RecvCase()")
			var l, r []string
			for i, x := range m.Lhs {
				switch {
				case m.Tok == token.DEFINE || isBlank(x):
					l = append(l, g.raw(x))
				case g.isMapIndex(x) == nil && g.shared(x):
					l = append(l, "*"+g.wrFn(x)+"(&"+g.loc(x)+")")
				default:
					l = append(l, g.locNS(x))
				}
				r = append(r, n+[]string{".Val", ".Ok"}[i])
			}
			tok := m.Tok.String()
			all := true
			for _, x := range m.Lhs {
				if !isBlank(x) {
					all = false
				}
			}
			if all {
				tok = "="
			}
			pre = "\n" + strings.Join(l, ", ") + " " + tok + " " + strings.Join(r, ", ")
			if m.Tok == token.DEFINE {
				for _, x := range m.Lhs {
					if !isBlank(x) {
						pre += "\n_ = " + g.raw(x)
					}
				}
			}
		}
		cls = append(cls, cl{pre: pre, body: cc.Body})
	}
	r := "switch "
	if len(names) > 0 {
		r += strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	r += g.mc() + fmt.Sprintf(".Select(%v", hasDef)
	for _, n := range names {
		r += ", " + n
	}
	r += ") {"
	i := 0
	for k, c := range cls {
		switch {
		case c.def:
			r += "\ndefault:"
		case !hasDef && k == len(cls)-1:
			r += "\ndefault:"
			i++
		default:
			r += fmt.Sprintf("\ncase %d:", i)
			i++
		}
		r += c.pre + g.stmts(c.body)
	}
	return r + "\n}"
}

// bindArgs evaluates call arguments into temporaries.
func (g *gen) bindArgs(c *ast.CallExpr) (bind string, args string) {
	var names, vals, out []string
	for _, a := range c.Args {
		tv := g.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			out = append(out, g.expr(a))
			continue
		}
		if _, ok := ast.Unparen(a).(*ast.FuncLit); ok {
			out = append(out, g.expr(a))
			continue
		}
		n := g.name("a")
		names = append(names, n)
		vals = append(vals, g.expr(a))
		out = append(out, n)
	}
	if len(names) > 0 {
		bind = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ")
	}
	args = strings.Join(out, ", ")
	if c.Ellipsis.IsValid() {
		args += "..."
	}
	return
}

func (g *gen) goStmt(s *ast.GoStmt) string {
	c := s.Call
	if b := g.builtin(c.Fun); b != "" {
		// only builtins with call syntax allowed in statements
		bind, _ := g.bindArgs(c)
		_ = bind
		return g.mc() + ".Go(func() { " + g.call(c) + " })"
	}
	if f, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if f.Type.Results == nil || len(f.Type.Results.List) == 0 {
			return g.mc() + ".Go(" + g.expr(f) + ")"
		}
		return g.mc() + ".Go(func() { (" + g.expr(f) + ")() })"
	}
	if len(c.Args) == 1 {
		if t, ok := g.typ(c.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			return g.mc() + ".Go(func() { " + g.call(c) + " })"
		}
	}
	bind, args := g.bindArgs(c)
	fun := g.name("f")
	pre := ""
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.FuncLit:
		fun = "(" + g.expr(f) + ")"
	case *ast.Ident:
		if _, ok := g.info.Uses[f].(*types.Func); ok {
			fun = g.expr(c.Fun)
		} else {
			pre = fun + " := " + g.expr(c.Fun) + "; "
		}
	default:
		if _, ok := g.calleeFunc(c.Fun); ok {
			fun = g.expr(c.Fun)
		} else {
			pre = fun + " := " + g.expr(c.Fun) + "; "
		}
	}
	if bind != "" {
		bind += "; "
	}
	return "{ " + pre + bind + g.mc() + ".Go(func() { " + fun + "(" + args + ") }) }"
}

// calleeFunc recognises generic or package level functions (no evaluation).
func (g *gen) calleeFunc(e ast.Expr) (*types.Func, bool) {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		f, ok := g.info.Uses[e].(*types.Func)
		return f, ok
	case *ast.SelectorExpr:
		if g.info.Selections[e] == nil {
			f, ok := g.info.Uses[e.Sel].(*types.Func)
			return f, ok
		}
	case *ast.IndexExpr:
		return g.calleeFunc(e.X)
	case *ast.IndexListExpr:
		return g.calleeFunc(e.X)
	}
	return nil, false
}

func (g *gen) deferCall(c *ast.CallExpr) string {
	switch g.builtin(c.Fun) {
	case "recover":
		return "func() { " + g.mc() + ".Recover(nil) }()"
	case "copy", "append", "len", "cap":
		return "func() { " + g.call(c) + " }()"
	}
	if g.isType(c.Fun) {
		return "func() { _ = " + g.call(c) + " }()"
	}
	return g.call(c)
}

// resetFile generates the function that re-initialises package state.
func (g *gen) resetFile() string {
	g.imports = map[string]string{}
	var b strings.Builder
	initialised := map[*types.Var]bool{}
	for _, in := range g.info.InitOrder {
		var l []string
		all := true
		for _, v := range in.Lhs {
			initialised[v] = true
			l = append(l, v.Name())
			if v.Name() != "_" {
				all = false
			}
		}
		if all {
			continue
		}
		rhs := ""
		if len(in.Lhs) == 2 {
			rhs = g.expr2(in.Rhs)
		} else {
			rhs = g.expr(in.Rhs)
		}
		fmt.Fprintf(&b, "\t%s = %s\n", strings.Join(l, ", "), rhs)
	}
	var z strings.Builder
	sc := g.pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && n != "_" && !initialised[v] {
			fmt.Fprintf(&z, "\t%s.Zero(&%s)\n", g.mc(), n)
		}
	}
	for _, n := range g.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	body := z.String() + b.String()
	m := g.mc()
	var out strings.Builder
	fmt.Fprintf(&out, "package %s\n\nimport (\n", g.pkg.Name())
	for _, a := range sortedKeys(g.imports) {
		fmt.Fprintf(&out, "\t%s %q\n", a, g.imports[a])
	}
	fmt.Fprintf(&out, ")\n\nfunc zzreset() {\n%s}\n\nfunc init() { %s.RegisterReset(zzreset) }\n", body, m)
	return out.String()
}

// scaled maps the size thresholds of psort to small values.
func scaled(v int64, name string) int64 {
	cutoff := strings.Contains(strings.ToLower(name), "cutoff")
	switch {
	case v == 1024:
		return 2
	case v >= 0x200 && v < 0x10000 && cutoff:
		return 4
	case v >= 0x1800 && v < 0x10000:
		return 4
	case v >= 0x200 && v < 0x1800:
		return 9
	case v == 10 && cutoff:
		return 2
	}
	return v
}
