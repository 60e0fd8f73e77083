package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
)

type rw struct {
	p       *pkg
	info    *types.Info
	shared  map[types.Object]bool // locals captured by closures (and reassigned) or address-taken
	capmut  map[types.Object]bool
	tmp     int
	fname   string
}

func sel(n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(n)}
}
func call(n string, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: sel(n), Args: a} }
func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.ParenExpr, *ast.BasicLit:
		return e
	}
	return &ast.ParenExpr{X: e}
}
func star(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }
func addrOf(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (w *rw) site(n ast.Node, what string) ast.Expr {
	pos := fset.Position(n.Pos())
	sites = append(sites, fmt.Sprintf("%s %s/%s:%d", what, filepath.Base(filepath.Dir(pos.Filename)), filepath.Base(pos.Filename), pos.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(sites) - 1)}
}

func exprName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return exprName(x.X) + "." + x.Sel.Name
	case *ast.IndexExpr:
		return exprName(x.X) + "[]"
	case *ast.StarExpr:
		return "*" + exprName(x.X)
	case *ast.ParenExpr:
		return exprName(x.X)
	case *ast.CallExpr:
		return exprName(x.Fun) + "()"
	}
	return "?"
}

func (w *rw) typ(e ast.Expr) types.Type {
	if t, ok := w.info.Types[e]; ok {
		return t.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := w.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

func isMap(t types.Type) bool { _, ok := under(t).(*types.Map); return ok }

func refKey(t types.Type) bool {
	m, ok := under(t).(*types.Map)
	if !ok {
		return false
	}
	switch under(m.Key()).(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// ---- files and functions

func (w *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			w.analyse(x)
			if x.Body != nil {
				x.Body = w.funcBody(x.Body)
			}
		case *ast.GenDecl:
			if x.Tok == token.VAR {
				w.analyse(x)
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = w.rv(vs.Values[i])
					}
				}
			}
		}
	}
}

func yStmt() ast.Stmt { return &ast.ExprStmt{X: call("Y")} }

func (w *rw) funcBody(b *ast.BlockStmt) *ast.BlockStmt {
	nb := w.block(b)
	nb.List = append([]ast.Stmt{yStmt()}, nb.List...)
	return nb
}

// analyse finds locals that closures capture and someone reassigns, and locals whose address is taken.
func (w *rw) analyse(root ast.Node) {
	w.shared = map[types.Object]bool{}
	w.capmut = map[types.Object]bool{}
	captured := map[types.Object]bool{}
	mutated := map[types.Object]bool{}
	rootVar := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if isPtr(w.typ(x.X)) {
					return nil
				}
				e = x.X
			case *ast.IndexExpr:
				if _, ok := under(w.typ(x.X)).(*types.Array); !ok {
					return nil
				}
				e = x.X
			case *ast.Ident:
				if v, ok := w.info.Uses[x].(*types.Var); ok {
					return v
				}
				return nil
			default:
				return nil
			}
		}
	}
	var lits []*ast.FuncLit
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if x.Tok == token.DEFINE {
					if id, ok := l.(*ast.Ident); ok && w.info.Defs[id] == nil && w.info.Uses[id] != nil {
						mutated[w.info.Uses[id]] = true
					}
					continue
				}
				if o := rootVar(l); o != nil {
					mutated[o] = true
				}
			}
		case *ast.IncDecStmt:
			if o := rootVar(x.X); o != nil {
				mutated[o] = true
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if l != nil {
						if o := rootVar(l); o != nil {
							mutated[o] = true
						}
					}
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if o := rootVar(x.X); o != nil {
					w.shared[o] = true
					mutated[o] = true
				}
			}
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := w.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != w.p.types.Scope() && v.Pkg() == w.p.types {
					if v.Pos() < l.Pos() || v.Pos() > l.End() {
						captured[v] = true
					}
				}
			}
			return true
		})
	}
	for o := range captured {
		if mutated[o] {
			w.capmut[o] = true
			w.shared[o] = true
		}
	}
}

// ---- statements

func (w *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: w.stmts(b.List)}
}

func (w *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, w.stmt(s))
	}
	return out
}

func (w *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		return w.block(x)
	case *ast.ExprStmt:
		if u, ok := unparen(x.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return &ast.ExprStmt{X: call("Recv", w.rv(u.X))}
		}
		e := w.rv(x.X)
		return &ast.ExprStmt{X: e}
	case *ast.AssignStmt:
		return w.assign(x)
	case *ast.IncDecStmt:
		return &ast.IncDecStmt{X: w.lval(x.X), Tok: x.Tok}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: call("SendTo", w.rv(x.Chan)), Args: []ast.Expr{w.rv(x.Value)}}}
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt:
		return w.deferStmt(x)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = w.rv(x.Results[i])
		}
		return &ast.ReturnStmt{Results: x.Results}
	case *ast.BranchStmt:
		return &ast.BranchStmt{Tok: x.Tok, Label: x.Label}
	case *ast.IfStmt:
		return &ast.IfStmt{Init: w.stmtOrNil(x.Init), Cond: w.rv(x.Cond), Body: w.block(x.Body), Else: w.stmtOrNil(x.Else)}
	case *ast.ForStmt:
		n := &ast.ForStmt{Init: w.stmtOrNil(x.Init), Post: w.stmtOrNil(x.Post), Body: w.block(x.Body)}
		if x.Cond != nil {
			n.Cond = w.rv(x.Cond)
		}
		n.Body.List = append([]ast.Stmt{yStmt()}, n.Body.List...)
		return n
	case *ast.RangeStmt:
		return w.rangeStmt(x)
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Init: w.stmtOrNil(x.Init), Body: &ast.BlockStmt{}}
		if x.Tag != nil {
			n.Tag = w.rv(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			nc := &ast.CaseClause{Body: w.stmts(cc.Body)}
			for _, e := range cc.List {
				nc.List = append(nc.List, w.rv(e))
			}
			n.Body.List = append(n.Body.List, nc)
		}
		return n
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: w.stmtOrNil(x.Init), Body: &ast.BlockStmt{}}
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			n.Assign = &ast.ExprStmt{X: &ast.TypeAssertExpr{X: w.rv(ta.X)}}
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: w.rv(ta.X)}}}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: cc.List, Body: w.stmts(cc.Body)})
		}
		return n
	case *ast.SelectStmt:
		return w.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if s, ok := x.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(s, x.Label)
		}
		return &ast.LabeledStmt{Label: x.Label, Stmt: w.stmt(x.Stmt)}
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) == 1 && len(vs.Names) == 2 {
					vs.Values[0] = w.commaOk(vs.Values[0])
					continue
				}
				for i := range vs.Values {
					vs.Values[i] = w.rv(vs.Values[i])
				}
			}
		}
		return x
	case *ast.EmptyStmt:
		return &ast.EmptyStmt{}
	}
	fatal("unsupported statement %T at %s", s, fset.Position(s.Pos()))
	return nil
}

func (w *rw) stmtOrNil(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return w.stmt(s)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *rw) commaOk(e ast.Expr) ast.Expr {
	switch x := unparen(e).(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call("Recv2", w.rv(x.X))
		}
	case *ast.IndexExpr:
		if isMap(w.typ(x.X)) {
			return w.mapIndex(x, false)
		}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: paren(w.rv(x.X)), Type: x.Type}
	}
	return w.rv(e)
}

func (w *rw) assign(x *ast.AssignStmt) ast.Stmt {
	n := &ast.AssignStmt{Tok: x.Tok}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		r := w.commaOk(x.Rhs[0])
		n.Rhs = []ast.Expr{r}
	} else {
		for _, r := range x.Rhs {
			n.Rhs = append(n.Rhs, w.rv(r))
		}
		if id, ok := x.Lhs[0].(*ast.Ident); ok && x.Tok == token.ADD_ASSIGN && isString(w.typ(id)) {
			n.Rhs[0] = call("StrAdd", w.rv(id), n.Rhs[0])
		}
	}
	for _, l := range x.Lhs {
		if x.Tok == token.DEFINE {
			n.Lhs = append(n.Lhs, l)
		} else {
			n.Lhs = append(n.Lhs, w.lval(l))
		}
	}
	return n
}

func (w *rw) fresh(p string) *ast.Ident {
	w.tmp++
	return ast.NewIdent(fmt.Sprintf("sim_%s%d", p, w.tmp))
}

func (w *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if tv, ok := w.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		e := w.rv(c)
		return &ast.ExprStmt{X: call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}
	}
	blk := &ast.BlockStmt{}
	def := func(p string, e ast.Expr) ast.Expr {
		id := w.fresh(p)
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	var fun ast.Expr
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call("Go", w.rv(fl))}
	} else {
		fun = def("f", w.callee(c))
	}
	nc := &ast.CallExpr{Fun: fun}
	for _, a := range c.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			nc.Args = append(nc.Args, a)
			continue
		}
		nc.Args = append(nc.Args, def("a", w.rv(a)))
	}
	if c.Ellipsis != token.NoPos {
		nc.Ellipsis = 1
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return blk
}

func (w *rw) deferStmt(x *ast.DeferStmt) ast.Stmt {
	e := w.rv(x.Call)
	if c, ok := e.(*ast.CallExpr); ok {
		return &ast.DeferStmt{Call: c}
	}
	return &ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}}}
}

func (w *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := under(w.typ(x.X))
	key, val := x.Key, x.Value
	lv := func(e ast.Expr) ast.Expr {
		if e == nil {
			return nil
		}
		if x.Tok == token.ASSIGN {
			return w.lval(e)
		}
		return e
	}
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	switch tt := t.(type) {
	case *types.Map:
		m := w.fresh("m")
		k := w.fresh("k")
		body := w.block(x.Body)
		var pre []ast.Stmt
		pre = append(pre, yStmt())
		v := w.fresh("v")
		ok := w.fresh("ok")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(m.Name), Index: ast.NewIdent(k.Name)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		bind := func(e ast.Expr, src *ast.Ident) {
			if isBlank(e) {
				return
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{lv(e)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(src.Name)}})
			if x.Tok == token.DEFINE {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(e.(*ast.Ident).Name)}})
			}
		}
		bind(key, k)
		bind(val, v)
		body.List = append(pre, body.List...)
		// for m, ks := M, Keys(M)...: bind the map once through a one-iteration wrapper is not label-safe,
		// so the keys helper returns both.
		pair := w.fresh("p")
		_ = tt
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: pair, Tok: token.DEFINE,
			X: call("Entries", w.rv(x.X), w.site(x.X, "range "+exprName(x.X))), Body: body}
		body.List = append([]ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{m, k}, Tok: token.DEFINE, Rhs: []ast.Expr{
				&ast.SelectorExpr{X: ast.NewIdent(pair.Name), Sel: ast.NewIdent("M")}, &ast.SelectorExpr{X: ast.NewIdent(pair.Name), Sel: ast.NewIdent("K")}}},
		}, body.List...)
		return loop
	case *types.Chan:
		body := w.block(x.Body)
		v, ok := w.fresh("v"), w.fresh("ok")
		ch := w.rv(x.X)
		_ = ch
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Recv2", w.chanTemp(x, ch))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}}}
		if !isBlank(key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{lv(key)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		body.List = append(pre, body.List...)
		return &ast.ForStmt{Body: body}
	}
	n := &ast.RangeStmt{Key: lv(key), Value: lv(val), Tok: x.Tok, X: w.rv(x.X), Body: w.block(x.Body)}
	n.Body.List = append([]ast.Stmt{yStmt()}, n.Body.List...)
	return n
}

// chanTemp: the channel operand of a range must be evaluated once; only simple operands are accepted.
func (w *rw) chanTemp(x *ast.RangeStmt, e ast.Expr) ast.Expr {
	switch unparen(x.X).(type) {
	case *ast.Ident, *ast.SelectorExpr:
		return e
	}
	fatal("range over a computed channel at %s is not supported", fset.Position(x.Pos()))
	return nil
}

func (w *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	blk := &ast.BlockStmt{}
	i, r := w.fresh("i"), w.fresh("r")
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Tag: ast.NewIdent(i.Name), Body: &ast.BlockStmt{}}
	hasDef := "false"
	k := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: w.stmts(cc.Body)})
			continue
		}
		ch := w.fresh("c")
		nc := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}}
		k++
		def := func(e ast.Expr) {
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{w.rv(e)}})
		}
		chid := func() ast.Expr { return ast.NewIdent(ch.Name) }
		var pre []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			def(cm.Chan)
			cases = append(cases, &ast.CallExpr{Fun: call("SendCase", chid()), Args: []ast.Expr{w.rv(cm.Value)}})
		case *ast.ExprStmt:
			def(unparen(cm.X).(*ast.UnaryExpr).X)
			cases = append(cases, call("RecvCase", chid()))
		case *ast.AssignStmt:
			def(unparen(cm.Rhs[0]).(*ast.UnaryExpr).X)
			cases = append(cases, call("RecvCase", chid()))
			fn := "Got"
			if len(cm.Lhs) == 2 {
				fn = "Got2"
			}
			var lhs []ast.Expr
			for _, l := range cm.Lhs {
				if cm.Tok == token.ASSIGN {
					l = w.lval(l)
				}
				lhs = append(lhs, l)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: cm.Tok, Rhs: []ast.Expr{call(fn, chid(), ast.NewIdent(r.Name))}})
		}
		nc.Body = append(pre, w.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{i, r}, Tok: token.DEFINE,
		Rhs: []ast.Expr{call("Select", append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)...)}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(r.Name)}})
	var s ast.Stmt = sw
	if label != nil {
		s = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	blk.List = append(blk.List, s)
	return blk
}

// ---- expressions

func (w *rw) isType(e ast.Expr) bool { return w.info.Types[e].IsType() }

func (w *rw) isConst(e ast.Expr) bool { return w.info.Types[e].Value != nil }

func (w *rw) localVar(e ast.Expr) *types.Var {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return nil
	}
	v, _ := w.info.Uses[id].(*types.Var)
	return v
}

func (w *rw) isGlobal(v *types.Var) bool {
	return v != nil && v.Pkg() != nil && !v.IsField() && v.Parent() == v.Pkg().Scope()
}

// sharedLoc tells whether the location may be reachable by another goroutine.
func (w *rw) sharedLoc(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.sharedLoc(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := w.info.Uses[id].(*types.PkgName); isPkg {
				o := w.info.Uses[x.Sel]
				return o != nil && o.Pkg() != nil && packages[o.Pkg().Path()] != nil && writtenGl[o]
			}
		}
		if isPtr(w.typ(x.X)) {
			return true
		}
		return w.sharedLoc(x.X)
	case *ast.IndexExpr:
		switch under(w.typ(x.X)).(type) {
		case *types.Slice:
			if v := w.localVar(x.X); w.isGlobal(v) && !writtenGl[v] {
				return false
			}
			return true
		case *types.Pointer:
			return true
		}
		return w.sharedLoc(x.X)
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		v, _ := w.info.Uses[x].(*types.Var)
		if v == nil {
			return false
		}
		if w.isGlobal(v) {
			return writtenGl[v]
		}
		return w.shared[v]
	}
	return false
}

func byteElem(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	var el types.Type
	if ok {
		el = s.Elem()
	} else if a, ok := under(t).(*types.Array); ok {
		el = a.Elem()
	} else if p, ok := under(t).(*types.Pointer); ok {
		if a, ok := under(p.Elem()).(*types.Array); ok {
			el = a.Elem()
		}
	}
	b, ok := under(el).(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// rv rewrites an expression whose value is used.
func (w *rw) rv(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if w.isConst(e) || w.isType(e) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		v, _ := w.info.Uses[x].(*types.Var)
		if v == nil || x.Name == "_" {
			return e
		}
		if w.isGlobal(v) && writtenGl[v] || w.capmut[v] {
			return star(call("R", addrOf(ast.NewIdent(x.Name)), w.site(x, x.Name)))
		}
		return e
	case *ast.BasicLit:
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: w.rv(x.X)}
	case *ast.FuncLit:
		return &ast.FuncLit{Type: x.Type, Body: w.funcBody(x.Body)}
	case *ast.CompositeLit:
		return w.composite(x)
	case *ast.SelectorExpr:
		return w.selector(x)
	case *ast.IndexExpr:
		tv := w.info.Types[x.Index]
		if tv.IsType() {
			return e // instantiation
		}
		t := w.typ(x.X)
		if isMap(t) {
			return w.mapIndex(x, false)
		}
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return &ast.IndexExpr{X: paren(w.rv(x.X)), Index: w.rv(x.Index)}
		}
		if w.info.Types[e].Addressable() && !byteElem(t) && w.sharedLoc(x) {
			return star(call("R", addrOf(w.addr(x)), w.site(x, exprName(x))))
		}
		if w.info.Types[e].Addressable() {
			return w.addr(x)
		}
		return &ast.IndexExpr{X: paren(w.rv(x.X)), Index: w.rv(x.Index)}
	case *ast.IndexListExpr:
		return e
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Slice3: x.Slice3, Low: w.rv(x.Low), High: w.rv(x.High), Max: w.rv(x.Max)}
		if x.Low == nil {
			n.Low = nil
		}
		if x.High == nil {
			n.High = nil
		}
		if x.Max == nil {
			n.Max = nil
		}
		if _, ok := under(w.typ(x.X)).(*types.Array); ok {
			n.X = paren(w.addr(x.X))
		} else {
			n.X = paren(w.rv(x.X))
		}
		return n
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: paren(w.rv(x.X)), Type: x.Type}
	case *ast.CallExpr:
		return w.call(x)
	case *ast.StarExpr:
		return star(call("R", w.rv(x.X), w.site(x, exprName(x))))
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call("Recv", w.rv(x.X))
		}
		if x.Op == token.AND {
			if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: token.AND, X: w.composite(cl)}
			}
			return &ast.UnaryExpr{Op: token.AND, X: paren(w.addr(x.X))}
		}
		return &ast.UnaryExpr{Op: x.Op, X: paren(w.rv(x.X))}
	case *ast.BinaryExpr:
		if x.Op == token.ADD && isString(w.typ(x)) {
			return call("StrOf", &ast.BinaryExpr{X: paren(w.rv(x.X)), Op: x.Op, Y: paren(w.rv(x.Y))})
		}
		return &ast.BinaryExpr{X: paren(w.rv(x.X)), Op: x.Op, Y: paren(w.rv(x.Y))}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: x.Key, Value: w.rv(x.Value)}
	}
	return e
}

func (w *rw) composite(x *ast.CompositeLit) ast.Expr {
	t := under(w.typ(x))
	n := &ast.CompositeLit{Type: x.Type}
	if p, ok := t.(*types.Pointer); ok { // elided &T in nested literals
		t = under(p.Elem())
	}
	_, isStruct := t.(*types.Struct)
	for _, el := range x.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			nk := kv.Key
			if !isStruct {
				if kc, ok := kv.Key.(*ast.CompositeLit); ok {
					nk = w.composite(kc)
				} else {
					nk = w.rv(kv.Key)
				}
				if refKey(t) && !w.info.Types[kv.Key].IsNil() {
					nk = call("K", nk)
				}
			}
			n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: nk, Value: w.elt(kv.Value)})
			continue
		}
		n.Elts = append(n.Elts, w.elt(el))
	}
	return n
}

func (w *rw) elt(e ast.Expr) ast.Expr {
	if cl, ok := e.(*ast.CompositeLit); ok {
		return w.composite(cl)
	}
	return w.rv(e)
}

func (w *rw) mapIndex(x *ast.IndexExpr, write bool) ast.Expr {
	if write {
		k := w.rv(x.Index)
		if refKey(w.typ(x.X)) && !w.info.Types[x.Index].IsNil() {
			k = &ast.CallExpr{Fun: sel("K"), Args: []ast.Expr{w.keyConv(x.X, k)}}
		}
		return &ast.IndexExpr{X: call("MW", w.rv(x.X), w.site(x, exprName(x.X)+"[]")), Index: k}
	}
	return &ast.IndexExpr{X: call("MR", w.rv(x.X), w.site(x, exprName(x.X)+"[]")), Index: w.rv(x.Index)}
}

// keyConv: K is generic over the key's static type; ids are by dynamic value, so no conversion is needed.
func (w *rw) keyConv(m, k ast.Expr) ast.Expr { return k }

func (w *rw) selector(x *ast.SelectorExpr) ast.Expr {
	if id, ok := x.X.(*ast.Ident); ok {
		if _, isPkg := w.info.Uses[id].(*types.PkgName); isPkg {
			if w.sharedLoc(x) {
				return star(call("R", addrOf(x), w.site(x, exprName(x))))
			}
			return x
		}
	}
	s := w.info.Selections[x]
	if s == nil {
		return x
	}
	switch s.Kind() {
	case types.FieldVal:
		if w.info.Types[x].Addressable() {
			if w.sharedLoc(x) {
				return star(call("R", addrOf(w.addr(x)), w.site(x, exprName(x))))
			}
			return w.addr(x)
		}
		return &ast.SelectorExpr{X: paren(w.rv(x.X)), Sel: x.Sel}
	case types.MethodVal:
		return w.method(x, s)
	}
	return x
}

var guarded = map[string]map[string]bool{ // std structs treated as one shared location; the set lists read-only methods
	"bytes.Buffer":    {"Len": true, "Bytes": true, "String": true, "Cap": true, "Available": true},
	"bytes.Reader":    {"Len": true, "Size": true},
	"strings.Builder": {"Len": true, "String": true, "Cap": true},
	"strings.Reader":  {"Len": true, "Size": true},
	"container/list.List": {"Len": true, "Front": true, "Back": true},
	"container/ring.Ring": {"Len": true, "Next": true, "Prev": true},
	"bufio.Reader":    {"Buffered": true, "Size": true},
	"bufio.Writer":    {"Buffered": true, "Size": true, "Available": true},
}

func stdName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (w *rw) method(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	t := w.typ(x.X)
	sig, _ := s.Obj().Type().(*types.Signature)
	ptrRecv := sig != nil && sig.Recv() != nil && isPtr(sig.Recv().Type())
	if ro, ok := guarded[stdName(t)]; ok && len(s.Index()) == 1 && ptrRecv {
		fn := "W"
		if ro[x.Sel.Name] {
			fn = "R"
		}
		if isPtr(t) {
			return &ast.SelectorExpr{X: call(fn, w.rv(x.X), w.site(x, exprName(x.X))), Sel: x.Sel}
		}
		if w.info.Types[x.X].Addressable() && w.sharedLoc(x.X) {
			return &ast.SelectorExpr{X: call(fn, addrOf(w.addr(x.X)), w.site(x, exprName(x.X))), Sel: x.Sel}
		}
	}
	if ptrRecv && !isPtr(t) && w.info.Types[x.X].Addressable() {
		return &ast.SelectorExpr{X: paren(w.addr(x.X)), Sel: x.Sel}
	}
	if len(s.Index()) > 1 && !isPtr(t) && w.info.Types[x.X].Addressable() {
		return &ast.SelectorExpr{X: paren(w.addr(x.X)), Sel: x.Sel}
	}
	return &ast.SelectorExpr{X: paren(w.rv(x.X)), Sel: x.Sel}
}

func (w *rw) callee(c *ast.CallExpr) ast.Expr {
	f := c.Fun
	switch x := unparen(f).(type) {
	case *ast.SelectorExpr:
		return w.selector(x)
	case *ast.IndexExpr, *ast.IndexListExpr:
		if _, ok := w.info.Types[f].Type.(*types.Signature); ok {
			if ie, ok := x.(*ast.IndexExpr); ok && !w.info.Types[ie.Index].IsType() {
				return paren(w.rv(f))
			}
			return f
		}
	}
	return paren(w.rv(f))
}

func (w *rw) call(c *ast.CallExpr) ast.Expr {
	tv := w.info.Types[c.Fun]
	if tv.IsType() { // conversion
		n := &ast.CallExpr{Fun: paren(c.Fun), Args: []ast.Expr{w.rv(c.Args[0])}}
		if from, to := w.typ(c.Args[0]), w.typ(c); isString(from) && byteSlice(to) {
			return call("BytesOf", n)
		} else if byteSlice(from) && isString(to) {
			return call("StrOf", n)
		}
		return n
	}
	if tv.IsBuiltin() {
		name := ""
		switch x := unparen(c.Fun).(type) {
		case *ast.Ident:
			name = x.Name
		case *ast.SelectorExpr:
			return c // unsafe.*
		}
		var args []ast.Expr
		switch name {
		case "make":
			args = append(args, c.Args[0])
			t := w.typ(c.Args[0])
			sl, isSlice := under(t).(*types.Slice)
			for _, a := range c.Args[1:] {
				na := w.rv(a)
				if isSlice && !w.isConst(a) {
					na = call("Alloc", na, call2("Sizeof", typeExpr(w, c.Args[0], sl)))
				}
				args = append(args, na)
			}
			return &ast.CallExpr{Fun: c.Fun, Args: args}
		case "new":
			return c
		case "close":
			return call("Close", w.rv(c.Args[0]))
		case "recover":
			return call("Recover", c)
		case "delete":
			return &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{call("MW", w.rv(c.Args[0]), w.site(c, "delete "+exprName(c.Args[0]))), w.rv(c.Args[1])}}
		case "len", "cap", "clear":
			t := w.typ(c.Args[0])
			if isMap(t) {
				fn := "MR"
				if name == "clear" {
					fn = "MW"
				}
				return &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{call(fn, w.rv(c.Args[0]), w.site(c, exprName(c.Args[0])))}}
			}
			if _, ok := under(t).(*types.Chan); ok && name == "len" {
				return call("ChanLen", w.rv(c.Args[0]))
			}
		}
		for _, a := range c.Args {
			args = append(args, w.rv(a))
		}
		n := &ast.CallExpr{Fun: c.Fun, Args: args}
		if c.Ellipsis != token.NoPos {
			n.Ellipsis = 1
		}
		return n
	}
	n := &ast.CallExpr{Fun: w.callee(c)}
	for _, a := range c.Args {
		n.Args = append(n.Args, w.rv(a))
	}
	if c.Ellipsis != token.NoPos {
		n.Ellipsis = 1
	}
	if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && isString(w.typ(c)) {
		if f, ok := w.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil {
			switch f.Pkg().Path() {
			case "fmt", "strings", "bytes", "strconv":
				return call("StrOf", n) // what it costs to make the string
			}
		}
	}
	return n
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func byteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && byteElem(s)
}

// typeExpr gives an expression from which the element size can be computed.
func typeExpr(w *rw, te ast.Expr, sl *types.Slice) ast.Expr {
	return te
}

func call2(fn string, te ast.Expr) ast.Expr {
	return &ast.CallExpr{Fun: &ast.IndexExpr{X: sel("ElemSize"), Index: te}}
}

// addr rewrites an addressable expression without marking an access to it.
func (w *rw) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: w.addr(x.X)}
	case *ast.Ident:
		return ast.NewIdent(x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := w.info.Uses[id].(*types.PkgName); isPkg {
				return x
			}
		}
		if isPtr(w.typ(x.X)) || !w.info.Types[x.X].Addressable() {
			return &ast.SelectorExpr{X: paren(w.rv(x.X)), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: w.addr(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		if _, ok := under(w.typ(x.X)).(*types.Array); ok {
			return &ast.IndexExpr{X: w.addr(x.X), Index: w.rv(x.Index)}
		}
		return &ast.IndexExpr{X: paren(w.rv(x.X)), Index: w.rv(x.Index)}
	case *ast.StarExpr:
		return &ast.ParenExpr{X: &ast.StarExpr{X: paren(w.rv(x.X))}}
	case *ast.CompositeLit:
		return w.composite(x)
	}
	return w.rv(e)
}

// lval rewrites an assignment target.
func (w *rw) lval(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: w.lval(x.X)}
	case *ast.Ident:
		if x.Name == "_" {
			return x
		}
		v, _ := w.info.Uses[x].(*types.Var)
		if v != nil && (w.isGlobal(v) && writtenGl[v] || w.capmut[v]) {
			return star(call("W", addrOf(ast.NewIdent(x.Name)), w.site(x, x.Name)))
		}
		return ast.NewIdent(x.Name)
	case *ast.SelectorExpr:
		if w.sharedLoc(x) {
			return star(call("W", addrOf(w.addr(x)), w.site(x, exprName(x))))
		}
		return w.addr(x)
	case *ast.IndexExpr:
		t := w.typ(x.X)
		if isMap(t) {
			return w.mapIndex(x, true)
		}
		if !byteElem(t) && w.sharedLoc(x) {
			return star(call("W", addrOf(w.addr(x)), w.site(x, exprName(x))))
		}
		return w.addr(x)
	case *ast.StarExpr:
		return star(call("W", w.rv(x.X), w.site(x, exprName(x))))
	}
	return e
}
