package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
)

// strip removes every position that is not meaningful to the printer.
func strip(n ast.Node) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	posT := reflect.TypeOf(token.NoPos)
	keep := map[string]bool{"Ellipsis": true, "Assign": true, "Lparen": true, "Rparen": true}
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if v.Type() == reflect.TypeOf(&ast.Object{}) || v.Type() == reflect.TypeOf(&ast.Scope{}) {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Struct:
			t := v.Type()
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == posT {
					if !f.CanSet() {
						continue
					}
					if f.Int() != 0 && keep[t.Field(i).Name] {
						if t.Name() == "CallExpr" && t.Field(i).Name != "Ellipsis" {
							f.SetInt(0)
						} else {
							f.SetInt(1)
						}
					} else {
						f.SetInt(0)
					}
					continue
				}
				walk(f)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(n))
}

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	out := []ast.Stmt{}
	for _, s := range l {
		out = append(out, r.stmt(s)...)
	}
	return out
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

// simple rewrites a statement where only one simple statement is allowed.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		return r.assignSimple(s)
	case *ast.IncDecStmt:
		return &ast.IncDecStmt{X: r.lhs(s.X, true), Tok: s.Tok}
	}
	l := r.stmt(s)
	if len(l) != 1 {
		die("%v: statement cannot be rewritten in place", r.fset.Position(s.Pos()))
	}
	return l[0]
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// lhs rewrites an assignment target.
func (r *rewriter) lhs(e ast.Expr, alsoRead bool) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.lhs(x.X, alsoRead)
	case *ast.IndexExpr:
		if t := r.info.TypeOf(x.X); t != nil {
			if m, ok := t.Underlying().(*types.Map); ok {
				k := r.expr(x.Index)
				switch m.Key().Underlying().(type) {
				case *types.Pointer, *types.Chan, *types.Interface:
					if tv := r.info.Types[x.Index]; tv.Value == nil && !tv.IsNil() {
						k = call(zz("MK"), k) // gives identity keys an order
					}
				}
				return &ast.IndexExpr{X: call(zz("MW"), r.expr(x.X), r.site(e)), Index: k}
			}
		}
	}
	if isBlank(e) {
		return e
	}
	if r.isShared(e) {
		fn := "W"
		if alsoRead {
			fn = "RW"
		} else if r.multiword(e) {
			fn = "WS"
		}
		return &ast.StarExpr{X: call(zz(fn), amp(r.addr(e)), r.site(e))}
	}
	return r.addr(e)
}

func (r *rewriter) assignSimple(s *ast.AssignStmt) ast.Stmt {
	ns := &ast.AssignStmt{Tok: s.Tok}
	op := s.Tok != token.ASSIGN && s.Tok != token.DEFINE
	for _, l := range s.Lhs {
		if s.Tok == token.DEFINE {
			ns.Lhs = append(ns.Lhs, l)
		} else {
			ns.Lhs = append(ns.Lhs, r.lhs(l, op))
		}
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		ns.Rhs = []ast.Expr{r.commaOk(s.Rhs[0])}
	} else {
		for _, e := range s.Rhs {
			ns.Rhs = append(ns.Rhs, r.expr(e))
		}
	}
	return ns
}

func (r *rewriter) isMapIndex(e ast.Expr) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if x, ok := e.(*ast.IndexExpr); ok {
		if t := r.info.TypeOf(x.X); t != nil {
			_, ok := t.Underlying().(*types.Map)
			return ok
		}
	}
	return false
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// touches reports whether evaluating e includes a scheduling point.
func (r *rewriter) touches(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			ex := n.(ast.Expr)
			if tv, ok := r.info.Types[ex]; ok && tv.IsValue() && (r.isShared(ex) || r.isMapIndex(ex)) {
				found = true
			}
		}
		return !found
	})
	return found
}

func untypedBoolish(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (r *rewriter) assign(s *ast.AssignStmt) []ast.Stmt {
	switch {
	case s.Tok == token.DEFINE:
		out := one(r.assignSimple(s))
		for _, l := range s.Lhs {
			id, ok := l.(*ast.Ident)
			if !ok || id.Name == "_" || r.info.Defs[id] != nil {
				continue
			}
			if r.isShared(id) {
				out = append(out, &ast.ExprStmt{X: call(zz("W"), amp(id), r.site(id))})
			}
		}
		return out
	case s.Tok != token.ASSIGN: // op-assignment
		l := s.Lhs[0]
		if r.isMapIndex(l) || !r.isShared(l) {
			return one(r.assignSimple(s))
		}
		p, v := r.fresh("p"), r.fresh("v")
		site := r.site(s)
		return one(&ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{amp(r.addr(l))}},
			&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{
				X: star(call(zz("R"), p, site)), Op: opOf[s.Tok], Y: &ast.ParenExpr{X: r.expr(s.Rhs[0])}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: call(zz("W"), p, site)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}})
	}
	// plain assignment
	target := false
	for _, l := range s.Lhs {
		if !isBlank(l) && (r.isShared(l) || r.isMapIndex(l)) {
			target = true
		}
	}
	hoist := false
	if target {
		for _, e := range s.Rhs {
			if r.touches(e) {
				hoist = true
			}
		}
	}
	if !hoist {
		return one(r.assignSimple(s))
	}
	// v1, v2 := rhs...; *W(&l1), *W(&l2) = v1, v2
	na := r.assignSimple(s).(*ast.AssignStmt)
	def := &ast.AssignStmt{Tok: token.DEFINE}
	set := &ast.AssignStmt{Tok: token.ASSIGN}
	if len(s.Rhs) == len(s.Lhs) {
		for i, e := range s.Rhs {
			tv := r.info.Types[e]
			if tv.Value != nil || tv.IsNil() || untypedBoolish(tv.Type) {
				set.Rhs = append(set.Rhs, na.Rhs[i]) // constants, nil: nothing to evaluate
				continue
			}
			v := r.fresh("v")
			def.Lhs = append(def.Lhs, v)
			rhs := na.Rhs[i]
			if lt, rt := r.info.TypeOf(s.Lhs[i]), tv.Type; lt != nil && rt != nil {
				if b, ok := rt.(*types.Basic); ok && b.Kind() == types.Bool && !types.Identical(lt, rt) && !types.IsInterface(lt) {
					rhs = call(ast.NewIdent("bool"), rhs)
				}
			}
			def.Rhs = append(def.Rhs, rhs)
			set.Rhs = append(set.Rhs, v)
		}
	} else {
		for range s.Lhs {
			v := r.fresh("v")
			def.Lhs = append(def.Lhs, v)
			set.Rhs = append(set.Rhs, v)
		}
		def.Rhs = na.Rhs
	}
	set.Lhs = na.Lhs
	if len(def.Lhs) == 0 {
		return one(na)
	}
	return one(&ast.BlockStmt{List: []ast.Stmt{def, set}})
}

func (r *rewriter) tick(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: call(zz("Tick"), r.site(n))}
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.IncDecStmt:
		if r.isMapIndex(s.X) || !r.isShared(s.X) {
			return one(&ast.IncDecStmt{X: r.lhs(s.X, true), Tok: s.Tok})
		}
		p, v := r.fresh("p"), r.fresh("v")
		site := r.site(s)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		return one(&ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{amp(r.addr(s.X))}},
			&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: star(call(zz("R"), p, site)), Op: op, Y: intLit(1)}}},
			&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: call(zz("W"), p, site)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}})
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return one(s)
	case *ast.BlockStmt:
		return one(r.block(s))
	case *ast.DeclStmt:
		return one(&ast.DeclStmt{Decl: r.genDecl(s.Decl.(*ast.GenDecl))})
	case *ast.ExprStmt:
		return one(&ast.ExprStmt{X: r.expr(s.X)})
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: method(r.expr(s.Chan), "Send", r.expr(s.Value), r.site(s))})
	case *ast.DeferStmt:
		return one(&ast.DeferStmt{Call: r.callStmt(s.Call)})
	case *ast.GoStmt:
		return one(r.goStmt(s))
	case *ast.ReturnStmt:
		ns := &ast.ReturnStmt{}
		for _, e := range s.Results {
			ns.Results = append(ns.Results, r.expr(e))
		}
		return one(ns)
	case *ast.IfStmt:
		ns := &ast.IfStmt{Init: r.simple(s.Init), Cond: r.expr(s.Cond), Body: r.block(s.Body)}
		if s.Else != nil {
			ns.Else = r.stmt(s.Else)[0]
		}
		return one(ns)
	case *ast.ForStmt:
		ns := &ast.ForStmt{Init: r.simple(s.Init), Post: r.simple(s.Post), Body: r.block(s.Body)}
		if s.Cond != nil {
			ns.Cond = r.expr(s.Cond)
		}
		ns.Body.List = append([]ast.Stmt{r.tick(s)}, ns.Body.List...)
		return one(ns)
	case *ast.RangeStmt:
		return r.rangeStmt(s, nil)
	case *ast.SwitchStmt:
		ns := &ast.SwitchStmt{Init: r.simple(s.Init), Body: &ast.BlockStmt{}}
		if s.Tag != nil {
			ns.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			nc := &ast.CaseClause{Body: r.stmts(cc.Body)}
			for _, e := range cc.List {
				nc.List = append(nc.List, r.expr(e))
			}
			ns.Body.List = append(ns.Body.List, nc)
		}
		return one(ns)
	case *ast.TypeSwitchStmt:
		ns := &ast.TypeSwitchStmt{Init: r.simple(s.Init), Body: &ast.BlockStmt{}}
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ns.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: r.expr(ta.X)}}}
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ns.Assign = &ast.ExprStmt{X: &ast.TypeAssertExpr{X: r.expr(ta.X)}}
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			nc := &ast.CaseClause{Body: r.stmts(cc.Body)}
			for _, e := range cc.List {
				nc.List = append(nc.List, r.typ(e))
			}
			ns.Body.List = append(ns.Body.List, nc)
		}
		return one(ns)
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.RangeStmt:
			return r.rangeStmt(b, s.Label)
		case *ast.SelectStmt:
			return r.selectStmt(b, s.Label)
		}
		l := r.stmt(s.Stmt)
		if len(l) == 0 {
			l = one(&ast.EmptyStmt{})
		}
		return append([]ast.Stmt{&ast.LabeledStmt{Label: s.Label, Stmt: l[0]}}, l[1:]...)
	}
	die("%v: unsupported statement %T", r.fset.Position(s.Pos()), s)
	return nil
}

func labeled(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

// callStmt rewrites the call of a defer statement.
func (r *rewriter) callStmt(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	ce, ok := e.(*ast.CallExpr)
	if !ok {
		die("%v: deferred expression is not a call", r.fset.Position(c.Pos()))
	}
	return ce
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	site := r.site(s)
	if tv, ok := r.info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		// a builtin: arguments evaluated late, which no code relies on
		return &ast.ExprStmt{X: call(zz("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: r.expr(c)})}}, site)}
	}
	def := &ast.AssignStmt{Tok: token.DEFINE}
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	fv := r.fresh("f")
	def.Lhs = append(def.Lhs, fv)
	def.Rhs = append(def.Rhs, r.expr(c.Fun))
	nc.Fun = fv
	if len(c.Args) == 1 {
		if t, ok := r.info.TypeOf(c.Args[0]).(*types.Tuple); ok { // f(g()) with multi-valued g
			st := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Args[0])}}
			for i := 0; i < t.Len(); i++ {
				a := r.fresh("a")
				st.Lhs = append(st.Lhs, a)
				nc.Args = append(nc.Args, a)
			}
			return &ast.BlockStmt{List: []ast.Stmt{def, st, &ast.ExprStmt{X: call(zz("Go"), thunk(nc), site)}}}
		}
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			nc.Args = append(nc.Args, r.expr(a))
			continue
		}
		v := r.fresh("a")
		def.Lhs = append(def.Lhs, v)
		def.Rhs = append(def.Rhs, r.expr(a))
		nc.Args = append(nc.Args, v)
	}
	return &ast.BlockStmt{List: []ast.Stmt{def, &ast.ExprStmt{X: call(zz("Go"), thunk(nc), site)}}}
}

func thunk(c ast.Expr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: c})}}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	t := r.info.TypeOf(s.X)
	body := r.block(s.Body)
	site := r.site(s)
	// targets of a range with "=": assigned at the start of the body
	assignTo := func(key, val ast.Expr) []ast.Stmt {
		var out []ast.Stmt
		if s.Key != nil && !isBlank(s.Key) && key != nil {
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Key, false)}, Tok: token.ASSIGN, Rhs: []ast.Expr{key}})
		}
		if s.Value != nil && !isBlank(s.Value) && val != nil {
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Value, false)}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
		}
		return out
	}
	// loop variables live outside the body: one instance per loop, as before go 1.22
	declare := func(key, val ast.Expr) []ast.Stmt {
		var out []ast.Stmt
		if s.Tok != token.DEFINE {
			return nil
		}
		if s.Key != nil && !isBlank(s.Key) && key != nil {
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{key}})
		}
		if s.Value != nil && !isBlank(s.Value) && val != nil {
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{val}})
		}
		return out
	}
	switch t.Underlying().(type) {
	case *types.Chan:
		c, v, ok := r.fresh("c"), r.fresh("v"), r.fresh("ok")
		pre := []ast.Stmt{
			r.tick(s),
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{method(c, "Recv2", site)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: one(&ast.BranchStmt{Tok: token.BREAK})}},
		}
		switch {
		case s.Key == nil || isBlank(s.Key):
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		default:
			pre = append(pre, assignTo(v, nil)...)
		}
		f := &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, body.List...)}}
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}}
		out = append(out, declare(method(c, "Zero"), nil)...)
		return one(&ast.BlockStmt{List: append(out, labeled(label, f))})
	case *types.Map:
		m, k, v, ok := r.fresh("m"), r.fresh("k"), r.fresh("v"), r.fresh("ok")
		pre := []ast.Stmt{
			r.tick(s),
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: call(zz("MR"), m, site), Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: one(&ast.BranchStmt{Tok: token.CONTINUE})}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		pre = append(pre, assignTo(k, v)...)
		f := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(zz("MKeys"), m, site), Body: &ast.BlockStmt{List: append(pre, body.List...)}}
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}}
		out = append(out, declare(call(zz("MKeyZero"), m), call(zz("MValZero"), m))...)
		return one(&ast.BlockStmt{List: append(out, labeled(label, f))})
	case *types.Slice:
		if s.Value == nil || isBlank(s.Value) {
			break
		}
		xs, k := r.fresh("s"), r.fresh("i")
		f := &ast.RangeStmt{Key: k, Tok: token.DEFINE, X: xs}
		pre := []ast.Stmt{r.tick(s)}
		el := star(call(zz("R"), amp(&ast.IndexExpr{X: xs, Index: k}), site))
		v := r.fresh("v")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{el}})
		pre = append(pre, assignTo(k, v)...)
		f.Body = &ast.BlockStmt{List: append(pre, body.List...)}
		out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{xs}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}}
		out = append(out, declare(intLit(0), call(zz("ElemZero"), xs))...)
		return one(&ast.BlockStmt{List: append(out, labeled(label, f))})
	}
	// integers, strings, arrays, functions, slices without value
	f := &ast.RangeStmt{Key: s.Key, Value: s.Value, Tok: s.Tok, X: r.expr(s.X), Body: body}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			f.Key = r.lhs(s.Key, false)
		}
		if s.Value != nil {
			f.Value = r.lhs(s.Value, false)
		}
	}
	f.Body.List = append([]ast.Stmt{r.tick(s)}, f.Body.List...)
	return one(labeled(label, f))
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	site := r.site(s)
	if len(s.Body.List) == 0 {
		return []ast.Stmt{
			&ast.ExprStmt{X: call(zz("BlockForever"), site)},
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}
	}
	var pre []ast.Stmt
	args := []ast.Expr{site, ast.NewIdent("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	hasDefault := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = true
			args[1] = ast.NewIdent("true")
			nc.List = nil
			nc.Body = r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		cv := r.fresh("c")
		var body []ast.Stmt
		recv := func(e ast.Expr) {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u := e.(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{method(r.expr(u.X), "RecvCase")}})
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cv}, Tok: token.DEFINE, Rhs: []ast.Expr{method(r.expr(cm.Chan), "SendCase", r.expr(cm.Value))}})
		case *ast.ExprStmt:
			recv(cm.X)
		case *ast.AssignStmt:
			recv(cm.Rhs[0])
			as := &ast.AssignStmt{Tok: cm.Tok}
			for _, l := range cm.Lhs {
				if cm.Tok == token.DEFINE {
					as.Lhs = append(as.Lhs, l)
				} else {
					as.Lhs = append(as.Lhs, r.lhs(l, false))
				}
			}
			vals := []ast.Expr{&ast.SelectorExpr{X: cv, Sel: ast.NewIdent("V")}, &ast.SelectorExpr{X: cv, Sel: ast.NewIdent("Ok")}}
			as.Rhs = vals[:len(cm.Lhs)]
			body = append(body, as)
		}
		args = append(args, cv)
		nc.List = []ast.Expr{intLit(idx)}
		idx++
		nc.Body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	if !hasDefault { // keeps terminating statements terminating
		last := sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause)
		last.List = nil
	}
	sw.Tag = call(zz("Select"), args...)
	return one(&ast.BlockStmt{List: append(pre, labeled(label, sw))})
}
