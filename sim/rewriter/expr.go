package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (r *rewriter) fields(f *ast.FieldList) *ast.FieldList {
	if f == nil {
		return nil
	}
	nf := &ast.FieldList{Opening: f.Opening, Closing: f.Closing}
	for _, x := range f.List {
		nf.List = append(nf.List, &ast.Field{Names: x.Names, Type: r.typ(x.Type), Tag: x.Tag})
	}
	return nf
}

func (r *rewriter) funcType(t *ast.FuncType) *ast.FuncType {
	return &ast.FuncType{TypeParams: r.fields(t.TypeParams), Params: r.fields(t.Params), Results: r.fields(t.Results)}
}

// typ rewrites a type expression: channels become simulated channels.
func (r *rewriter) typ(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: zz("Chan"), Index: r.typ(e.Value)}}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.typ(e.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.typ(e.X)}
	case *ast.ArrayType:
		n := &ast.ArrayType{Elt: r.typ(e.Elt)}
		if e.Len != nil {
			n.Len = e.Len
		}
		return n
	case *ast.MapType:
		return &ast.MapType{Key: r.typ(e.Key), Value: r.typ(e.Value)}
	case *ast.FuncType:
		return r.funcType(e)
	case *ast.StructType:
		return &ast.StructType{Fields: r.fields(e.Fields)}
	case *ast.InterfaceType:
		return &ast.InterfaceType{Methods: r.fields(e.Methods)}
	case *ast.Ellipsis:
		return &ast.Ellipsis{Elt: r.typ(e.Elt)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: r.typ(e.X), Index: r.typ(e.Index)}
	case *ast.IndexListExpr:
		n := &ast.IndexListExpr{X: r.typ(e.X)}
		for _, i := range e.Indices {
			n.Indices = append(n.Indices, r.typ(i))
		}
		return n
	case *ast.BinaryExpr: // constraint unions
		return &ast.BinaryExpr{X: r.typ(e.X), Op: e.Op, Y: r.typ(e.Y)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: e.Op, X: r.typ(e.X)}
	}
	return e
}

// multiword reports whether the value at e spans several independently
// addressable words (structs and arrays).
func (r *rewriter) multiword(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// isShared reports whether the location denoted by e may be accessed by several
// goroutines.
func (r *rewriter) isShared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.isShared(e.X)
	case *ast.Ident:
		v, ok := r.obj(e).(*types.Var)
		if !ok || v.Name() == "_" {
			return false
		}
		if isPkgVar(v) {
			return r.mutable[v]
		}
		return r.shared[v]
	case *ast.SelectorExpr:
		if s, ok := r.info.Selections[e]; ok {
			if s.Kind() != types.FieldVal {
				return false
			}
			if !r.addressable(e) {
				return false
			}
			if s.Indirect() {
				return true
			}
			return r.isShared(e.X)
		}
		v, ok := r.info.Uses[e.Sel].(*types.Var)
		return ok && r.inModule(v.Pkg()) && r.mutable[v]
	case *ast.IndexExpr:
		t := r.info.TypeOf(e.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return r.addressable(e.X) && r.isShared(e.X)
		}
	case *ast.StarExpr:
		tv, ok := r.info.Types[e]
		return ok && tv.IsValue()
	}
	return false
}

func (r *rewriter) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

// addr rewrites an lvalue without recording an access to the location itself.
func (r *rewriter) addr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.addr(e.X)}
	case *ast.Ident:
		return ast.NewIdent(e.Name)
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[e]; ok {
			return &ast.SelectorExpr{X: r.base(e.X), Sel: ast.NewIdent(e.Sel.Name)}
		}
		return e
	case *ast.IndexExpr:
		t := r.info.TypeOf(e.X)
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return &ast.IndexExpr{X: r.base(e.X), Index: r.expr(e.Index)}
			}
		}
		return &ast.IndexExpr{X: r.expr(e.X), Index: r.expr(e.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(e.X)}
	}
	return r.expr(e)
}

// base rewrites the operand of a selector or array index: pointers are read,
// addressable values are only addressed.
func (r *rewriter) base(e ast.Expr) ast.Expr {
	t := r.info.TypeOf(e)
	if t != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return r.expr(e)
		}
	}
	if r.addressable(e) {
		return r.addr(e)
	}
	return r.expr(e)
}

// commaOk rewrites the right-hand side of a two-valued assignment.
func (r *rewriter) commaOk(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.commaOk(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return method(r.expr(x.X), "Recv2", r.site(x))
		}
	}
	return r.expr(e)
}

func (r *rewriter) exprs(l []ast.Expr) []ast.Expr {
	var out []ast.Expr
	for _, e := range l {
		out = append(out, r.expr(e))
	}
	return out
}

// expr rewrites an expression used for its value.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && tv.IsType() {
		return r.typ(e)
	}
	switch x := e.(type) {
	case *ast.BadExpr, *ast.BasicLit:
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(x.X)}
	case *ast.FuncLit:
		return &ast.FuncLit{Type: r.funcType(x.Type), Body: r.block(x.Body)}
	case *ast.CompositeLit:
		n := &ast.CompositeLit{Type: r.typ(x.Type)}
		t := r.info.TypeOf(e)
		isStruct := false
		if t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				nk := &ast.KeyValueExpr{Key: kv.Key, Value: r.expr(kv.Value)}
				if !isStruct {
					nk.Key = r.expr(kv.Key)
				}
				n.Elts = append(n.Elts, nk)
				continue
			}
			n.Elts = append(n.Elts, r.expr(el))
		}
		return n
	case *ast.Ident:
		if r.isShared(x) {
			return r.read(x)
		}
		return ast.NewIdent(x.Name)
	case *ast.SelectorExpr:
		s, ok := r.info.Selections[x]
		if !ok { // qualified identifier
			if r.isShared(x) {
				return r.read(x)
			}
			return x
		}
		switch s.Kind() {
		case types.FieldVal:
			if r.isShared(x) {
				return r.read(x)
			}
			return &ast.SelectorExpr{X: r.base(x.X), Sel: x.Sel}
		case types.MethodVal:
			return &ast.SelectorExpr{X: r.recv(x, s), Sel: x.Sel}
		default:
			return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
		}
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[x.X]; ok && !tv.IsType() {
			if tv.Type != nil {
				switch tv.Type.Underlying().(type) {
				case *types.Signature: // explicit instantiation
					return &ast.IndexExpr{X: r.expr(x.X), Index: r.typ(x.Index)}
				case *types.Map:
					return &ast.IndexExpr{X: call(zz("MR"), r.expr(x.X), r.site(x)), Index: r.expr(x.Index)}
				}
			}
		}
		if r.isShared(x) {
			return r.read(x)
		}
		return &ast.IndexExpr{X: r.base(x.X), Index: r.expr(x.Index)}
	case *ast.IndexListExpr:
		return r.typ(x)
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3}
		if t := r.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				n.X = r.addr(x.X)
				return n
			}
		}
		n.X = r.expr(x.X)
		return n
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Type: r.typ(x.Type)}
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.StarExpr:
		return r.read(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			return amp(r.addr(x.X))
		case token.ARROW:
			return method(r.expr(x.X), "Recv", r.site(x))
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: r.expr(x.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: r.expr(x.Key), Value: r.expr(x.Value)}
	}
	return r.typ(e)
}

func (r *rewriter) read(e ast.Expr) ast.Expr {
	fn := "R"
	if r.multiword(e) {
		fn = "RS"
	}
	return star(call(zz(fn), amp(r.addr(e)), r.site(e)))
}

// recv rewrites the receiver operand of a method value or call.
func (r *rewriter) recv(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	sig := s.Obj().Type().(*types.Signature)
	if sig.Recv() != nil {
		if _, p := sig.Recv().Type().(*types.Pointer); p {
			t := r.info.TypeOf(x.X)
			if _, isP := t.Underlying().(*types.Pointer); !isP {
				return r.base(x.X)
			}
		}
	}
	return r.expr(x.X)
}

func (r *rewriter) callExpr(c *ast.CallExpr) ast.Expr {
	if tv, ok := r.info.Types[c.Fun]; ok && tv.IsType() {
		n := &ast.CallExpr{Fun: r.typ(c.Fun), Args: r.exprs(c.Args)}
		switch c.Fun.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.ParenExpr, *ast.ArrayType, *ast.MapType, *ast.IndexExpr:
		default:
			n.Fun = &ast.ParenExpr{X: n.Fun}
		}
		return n
	}
	f := c.Fun
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if id, ok := f.(*ast.Ident); ok {
		if _, isB := r.obj(id).(*types.Builtin); isB {
			return r.builtin(c, id.Name)
		}
	}
	n := &ast.CallExpr{Fun: r.expr(c.Fun), Ellipsis: c.Ellipsis}
	n.Args = r.exprs(c.Args)
	return n
}

func (r *rewriter) builtin(c *ast.CallExpr, name string) ast.Expr {
	under := func(e ast.Expr) types.Type {
		if t := r.info.TypeOf(e); t != nil {
			return t.Underlying()
		}
		return nil
	}
	switch name {
	case "make":
		if ch, ok := under(c.Args[0]).(*types.Chan); ok {
			_ = ch
			ct, ok := c.Args[0].(*ast.ChanType)
			if !ok {
				die("%v: make of a named channel type is not supported", r.fset.Position(c.Pos()))
			}
			var size ast.Expr = intLit(0)
			if len(c.Args) > 1 {
				size = call(ast.NewIdent("int"), r.expr(c.Args[1]))
			}
			return call(&ast.IndexExpr{X: zz("MakeChan"), Index: r.typ(ct.Value)}, size, r.site(c))
		}
		n := &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{r.typ(c.Args[0])}}
		n.Args = append(n.Args, r.exprs(c.Args[1:])...)
		return n
	case "new":
		return &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{r.typ(c.Args[0])}}
	case "close":
		return method(r.expr(c.Args[0]), "Close", r.site(c))
	case "len", "cap":
		switch under(c.Args[0]).(type) {
		case *types.Chan:
			m := "Len"
			if name == "cap" {
				m = "Cap"
			}
			return method(r.expr(c.Args[0]), m, r.site(c))
		case *types.Map:
			return call(c.Fun, call(zz("MR"), r.expr(c.Args[0]), r.site(c)))
		case *types.Array:
			return call(c.Fun, c.Args[0]) // no evaluation of the array itself
		}
	case "delete":
		return call(c.Fun, call(zz("MW"), r.expr(c.Args[0]), r.site(c)), r.expr(c.Args[1]))
	case "clear":
		if _, ok := under(c.Args[0]).(*types.Map); ok {
			return call(c.Fun, call(zz("MW"), r.expr(c.Args[0]), r.site(c)))
		}
	case "append":
		if len(c.Args) < 2 {
			break
		}
		n := &ast.CallExpr{Fun: c.Fun, Ellipsis: c.Ellipsis}
		args := r.exprs(c.Args[1:])
		if c.Ellipsis != token.NoPos {
			if _, ok := under(c.Args[1]).(*types.Slice); ok {
				n.Args = append(n.Args, call(zz("AppSpread"), r.expr(c.Args[0]), r.site(c)), call(zz("SliceR"), args[0], r.site(c)))
				return n
			}
		}
		n.Args = append([]ast.Expr{call(zz("App"), r.expr(c.Args[0]), intLit(len(args)), r.site(c))}, args...)
		return n
	case "copy":
		if _, ok := under(c.Args[1]).(*types.Slice); ok {
			return call(c.Fun, call(zz("SliceW"), r.expr(c.Args[0]), r.site(c)), call(zz("SliceR"), r.expr(c.Args[1]), r.site(c)))
		}
	}
	return &ast.CallExpr{Fun: c.Fun, Args: r.exprs(c.Args), Ellipsis: c.Ellipsis}
}
