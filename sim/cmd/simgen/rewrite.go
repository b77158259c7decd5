package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

var sizes = types.SizesFor("gc", "amd64")

func (g *pkgGen) typeOf(e ast.Expr) types.Type { return g.info.TypeOf(e) }

// wantElem tells whether accesses to values of this type are recorded.
func (g *pkgGen) wantVal(t types.Type) bool {
	if t == nil || isShimType(t) {
		return false
	}
	return true
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// sharedVar: a global of a translated package or a mutated captured local.
func (g *pkgGen) sharedVar(x *ast.Ident) bool {
	o, ok := g.info.Uses[x].(*types.Var)
	if !ok || o.IsField() {
		return false
	}
	if o.Pkg() == g.tpkg && o.Parent() == g.tpkg.Scope() {
		return true
	}
	return g.captured[o]
}

// shared tells whether the addressable expression e can be reached by several
// goroutines.
func (g *pkgGen) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return g.shared(x.X)
	case *ast.Ident:
		if g.sharedVar(x) {
			return true
		}
		if o := g.info.Uses[x]; o != nil && g.taken[o] {
			return true
		}
		return false
	case *ast.StarExpr:
		return !isByte(g.typeOf(x))
	case *ast.SelectorExpr:
		if s := g.info.Selections[x]; s != nil {
			if s.Kind() != types.FieldVal {
				return false
			}
			if isPtr(g.typeOf(x.X)) || s.Indirect() {
				return true
			}
			return g.shared(x.X)
		}
		if o, ok := g.info.Uses[x.Sel].(*types.Var); ok && o.Pkg() != nil && g.instr[o.Pkg().Path()] {
			return true
		}
		return false
	case *ast.IndexExpr:
		// bytes only at constant positions: loops over buffers are left alone
		fixed := g.info.Types[x.Index].Value != nil
		switch t := under(g.typeOf(x.X)).(type) {
		case *types.Slice:
			return fixed || !isByte(t.Elem())
		case *types.Array:
			return (fixed || !isByte(t.Elem())) && g.shared(x.X)
		case *types.Pointer:
			if a, ok := under(t.Elem()).(*types.Array); ok {
				return fixed || !isByte(a.Elem())
			}
		}
	}
	return false
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

// bytesArg records the use of the bytes of an argument.
func (g *pkgGen) bytesArg(e ast.Expr, write bool) ast.Expr {
	f := "BytesRd"
	if write {
		f = "BytesWr"
	}
	return call(rtf(f), g.rx(e), g.site(e.Pos()))
}

// foreign tells whether the callee is a function that is not translated, and
// whether it fills the buffers it is given.
func (g *pkgGen) foreign(fun ast.Expr) (known, fills bool) {
	var o types.Object
	switch x := fun.(type) {
	case *ast.SelectorExpr:
		if s := g.info.Selections[x]; s != nil {
			o = s.Obj()
			if types.IsInterface(s.Recv()) {
				// may be translated code: what it does is seen there
				return false, false
			}
		} else {
			o = g.info.Uses[x.Sel]
		}
	}
	f, ok := o.(*types.Func)
	if !ok || f.Pkg() == nil || g.instr[f.Pkg().Path()] {
		return false, false
	}
	switch n := f.Name(); {
	case n == "NewReader" || n == "NewBuffer" || n == "NewScanner":
		return false, false
	case strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "PutUint") || n == "Encode" || n == "Decode":
		fills = true
	}
	return true, fills
}

// addressable (syntactically, by the language rules)
func (g *pkgGen) addressable(e ast.Expr) bool {
	tv, ok := g.info.Types[e]
	if ok {
		return tv.Addressable()
	}
	if x, ok := e.(*ast.Ident); ok {
		_, v := g.info.Uses[x].(*types.Var)
		return v
	}
	return false
}

// lv is e as an addressable operand: what leads to it is read, it is not.
func (g *pkgGen) lv(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: g.lv(x.X)}
	case *ast.Ident:
		return x
	case *ast.StarExpr:
		return &ast.StarExpr{X: g.rx(x.X)}
	case *ast.SelectorExpr:
		if g.info.Selections[x] == nil {
			return x
		}
		if isPtr(g.typeOf(x.X)) {
			return &ast.SelectorExpr{X: g.rx(x.X), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: g.lv(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		switch under(g.typeOf(x.X)).(type) {
		case *types.Array:
			return &ast.IndexExpr{X: g.lv(x.X), Index: g.rx(x.Index)}
		case *types.Slice, *types.Pointer:
			return &ast.IndexExpr{X: g.rx(x.X), Index: g.rx(x.Index)}
		}
	}
	return g.rx(e)
}

func (g *pkgGen) rxs(l []ast.Expr) []ast.Expr {
	var o []ast.Expr
	for _, e := range l {
		o = append(o, g.rx(e))
	}
	return o
}

func (g *pkgGen) read(e ast.Expr) ast.Expr {
	return star(call(rtf("Rd"), addr(g.lv(e)), g.site(e.Pos())))
}

// rx rewrites an expression used for its value.
func (g *pkgGen) rx(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := g.info.Types[e]; ok {
		if tv.Value != nil {
			// constants stay, but conversions may name replaced types
			return e
		}
		if tv.IsType() {
			return g.typ(e)
		}
		if tv.IsBuiltin() {
			return e
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		if g.sharedVar(x) && g.wantVal(g.typeOf(x)) {
			return star(call(rtf("Rd"), addr(x), g.site(x.Pos())))
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: g.rx(x.X)}
	case *ast.FuncLit:
		g.funcType(x.Type)
		return &ast.FuncLit{Type: x.Type, Body: g.block(x.Body)}
	case *ast.CompositeLit:
		n := &ast.CompositeLit{Type: x.Type}
		if x.Type != nil {
			n.Type = g.typ(x.Type)
		}
		t := under(g.typeOf(x))
		if p, ok := t.(*types.Pointer); ok {
			t = under(p.Elem())
		}
		_, isStruct := t.(*types.Struct)
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = g.rx(k)
				}
				n.Elts = append(n.Elts, &ast.KeyValueExpr{Key: k, Value: g.rx(kv.Value)})
			} else {
				n.Elts = append(n.Elts, g.rx(el))
			}
		}
		return n
	case *ast.StarExpr:
		if g.wantVal(g.typeOf(x)) && g.shared(x) {
			return star(call(rtf("Rd"), g.rx(x.X), g.site(x.Pos())))
		}
		return &ast.StarExpr{X: g.rx(x.X)}
	case *ast.SelectorExpr:
		return g.rxSelector(x)
	case *ast.IndexExpr:
		t := g.typeOf(x.X)
		if tv, ok := g.info.Types[x.X]; ok && tv.IsType() {
			return x
		}
		if _, ok := under(t).(*types.Signature); ok {
			return x // instantiation
		}
		if _, ok := under(t).(*types.Map); ok {
			return &ast.IndexExpr{X: call(rtf("MapRd"), g.rx(x.X), g.site(x.Pos())), Index: g.rx(x.Index)}
		}
		if g.wantVal(g.typeOf(x)) && g.addressable(x) && g.shared(x) {
			return g.read(x)
		}
		if g.addressable(x) {
			return g.lv(x)
		}
		return &ast.IndexExpr{X: g.rx(x.X), Index: g.rx(x.Index)}
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		n := &ast.SliceExpr{Low: g.rx(x.Low), High: g.rx(x.High), Max: g.rx(x.Max), Slice3: x.Slice3}
		if _, ok := under(g.typeOf(x.X)).(*types.Array); ok {
			n.X = g.lv(x.X)
		} else {
			n.X = g.rx(x.X)
		}
		if _, ok := n.X.(*ast.StarExpr); ok {
			n.X = &ast.ParenExpr{X: n.X}
		}
		return n
	case *ast.TypeAssertExpr:
		n := &ast.TypeAssertExpr{X: g.rx(x.X), Type: x.Type}
		if x.Type != nil {
			n.Type = g.typ(x.Type)
		}
		return n
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				return &ast.UnaryExpr{Op: token.AND, X: g.rx(x.X)}
			}
			return &ast.UnaryExpr{Op: token.AND, X: g.lv(x.X)}
		case token.ARROW:
			return call(rtf("Recv"), g.rx(x.X), g.site(x.Pos()))
		}
		return &ast.UnaryExpr{Op: x.Op, X: g.rx(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: g.rx(x.X), Op: x.Op, Y: g.rx(x.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: g.rx(x.Key), Value: g.rx(x.Value)}
	case *ast.CallExpr:
		return g.rxCall(x)
	}
	return e
}

func (g *pkgGen) rxSelector(x *ast.SelectorExpr) ast.Expr {
	s := g.info.Selections[x]
	if s == nil {
		if r := g.pkgSel(x); r != nil {
			return r
		}
		q := g.qualified(x)
		if f, ok := sitedLast[q]; ok {
			// used as a value
			switch f {
			case "Sleep", "Gosched":
				return rtf(f + "Fn")
			}
			return x
		}
		if f, ok := sitedFirst[q]; ok {
			return rtf(f + "Fn")
		}
		if o, ok := g.info.Uses[x.Sel].(*types.Var); ok && o.Pkg() != nil && g.instr[o.Pkg().Path()] && g.wantVal(o.Type()) {
			return star(call(rtf("Rd"), addr(x), g.site(x.Pos())))
		}
		return x
	}
	switch s.Kind() {
	case types.MethodExpr:
		return x
	case types.MethodVal:
		return &ast.SelectorExpr{X: g.recv(x, s), Sel: x.Sel}
	}
	// field
	if g.wantVal(g.typeOf(x)) && g.addressable(x) && g.shared(x) {
		return g.read(x)
	}
	if g.addressable(x) {
		return g.lv(x)
	}
	return &ast.SelectorExpr{X: g.rx(x.X), Sel: x.Sel}
}

// recv rewrites the receiver operand of a method.
func (g *pkgGen) recv(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	t := g.typeOf(x.X)
	ptrRecv := false
	if f, ok := s.Obj().(*types.Func); ok {
		sig := f.Type().(*types.Signature)
		if sig.Recv() != nil && isPtr(sig.Recv().Type()) {
			ptrRecv = true
			if objType(sig.Recv().Type().(*types.Pointer).Elem()) {
				if r := g.object(x, s); r != nil {
					return r
				}
			}
		}
	}
	if isPtr(t) {
		return g.rx(x.X)
	}
	if types.IsInterface(t) && objType(t) {
		return call(rtf("ObjOf"), g.rx(x.X), g.site(x.Pos()))
	}
	if ptrRecv && g.addressable(x.X) {
		return g.lv(x.X)
	}
	return g.rx(x.X)
}

// object: the receiver is a stateful standard library object; name it
// explicitly (through embedded fields) and record an access to it.
func (g *pkgGen) object(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	t := s.Recv()
	idx := s.Index()
	var path []string
	for _, i := range idx[:len(idx)-1] {
		u := under(t)
		if p, ok := u.(*types.Pointer); ok {
			u = under(p.Elem())
		}
		st, ok := u.(*types.Struct)
		if !ok {
			return nil
		}
		f := st.Field(i)
		if !f.Exported() && f.Pkg() != g.tpkg {
			return nil
		}
		path = append(path, f.Name())
		t = f.Type()
	}
	var base ast.Expr
	if isPtr(g.typeOf(x.X)) || !g.addressable(x.X) {
		base = g.rx(x.X)
	} else if len(path) == 0 && isPtr(t) {
		base = g.rx(x.X)
	} else {
		base = g.lv(x.X)
	}
	for _, n := range path {
		base = sel(base, n)
	}
	if !isPtr(t) {
		if !g.addressable(x.X) && len(path) == 0 {
			return nil
		}
		base = addr(base)
	}
	return call(rtf("Obj"), base, g.site(x.Pos()))
}

func (g *pkgGen) rxCall(x *ast.CallExpr) ast.Expr {
	n := &ast.CallExpr{Ellipsis: x.Ellipsis}
	fun := ast.Unparen(x.Fun)
	if tv, ok := g.info.Types[x.Fun]; ok && tv.IsType() {
		n.Fun = g.typ(x.Fun)
		if b, ok := under(tv.Type).(*types.Basic); ok && b.Kind() == types.String && len(x.Args) == 1 && isBytes(g.typeOf(x.Args[0])) {
			n.Args = []ast.Expr{g.bytesArg(x.Args[0], false)}
			return n
		}
		n.Args = g.rxs(x.Args)
		return n
	}
	if tv, ok := g.info.Types[x.Fun]; ok && tv.IsBuiltin() {
		name := ""
		if i, ok := fun.(*ast.Ident); ok {
			name = i.Name
		}
		switch name {
		case "close":
			return call(rtf("CloseCh"), g.rx(x.Args[0]), g.site(x.Pos()))
		case "delete":
			n.Fun = x.Fun
			n.Args = []ast.Expr{call(rtf("MapWr"), g.rx(x.Args[0]), g.site(x.Pos())), g.rx(x.Args[1])}
			return n
		case "clear":
			if _, ok := under(g.typeOf(x.Args[0])).(*types.Map); ok {
				n.Fun = x.Fun
				n.Args = []ast.Expr{call(rtf("MapWr"), g.rx(x.Args[0]), g.site(x.Pos()))}
				return n
			}
		case "len":
			if _, ok := under(g.typeOf(x.Args[0])).(*types.Map); ok {
				n.Fun = x.Fun
				n.Args = []ast.Expr{call(rtf("MapRd"), g.rx(x.Args[0]), g.site(x.Pos()))}
				return n
			}
		case "print", "println":
			return call(rtf("Discard"), g.rxs(x.Args)...)
		}
		n.Fun = x.Fun
		switch {
		case name == "copy" && isBytes(g.typeOf(x.Args[0])):
			n.Args = []ast.Expr{g.bytesArg(x.Args[0], true), g.rx(x.Args[1])}
			if isBytes(g.typeOf(x.Args[1])) {
				n.Args[1] = g.bytesArg(x.Args[1], false)
			}
			return n
		case name == "append" && x.Ellipsis.IsValid() && len(x.Args) == 2 && isBytes(g.typeOf(x.Args[0])) && isBytes(g.typeOf(x.Args[1])):
			n.Args = []ast.Expr{g.rx(x.Args[0]), g.bytesArg(x.Args[1], false)}
			return n
		}
		n.Args = g.rxs(x.Args)
		return n
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		q := g.qualified(s)
		if f, ok := sitedLast[q]; ok {
			return &ast.CallExpr{Fun: rtf(f), Args: append(g.rxs(x.Args), g.site(x.Pos()))}
		}
		if f, ok := sitedFirst[q]; ok {
			return &ast.CallExpr{Fun: rtf(f), Args: append([]ast.Expr{g.site(x.Pos())}, g.rxs(x.Args)...), Ellipsis: x.Ellipsis}
		}
	}
	n.Fun = g.rx(x.Fun)
	if _, ok := n.Fun.(*ast.FuncLit); ok {
		n.Fun = &ast.ParenExpr{X: n.Fun}
	}
	n.Args = g.rxs(x.Args)
	if known, fills := g.foreign(fun); known {
		for i, a := range x.Args {
			if isBytes(g.typeOf(a)) && !(x.Ellipsis.IsValid() && i == len(x.Args)-1) && g.info.Types[a].Value == nil && !g.info.Types[a].IsNil() {
				n.Args[i] = g.bytesArg(a, fills)
			} else if p, ok := g.typeOf(a).(*types.Pointer); ok && objType(p.Elem()) {
				n.Args[i] = call(rtf("Obj"), n.Args[i], g.site(a.Pos()))
			}
		}
	}
	return n
}

// ---- statements ----

func (g *pkgGen) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: g.list(b.List)}
}

func (g *pkgGen) list(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		o = append(o, g.stmt(s, nil)...)
	}
	return o
}

func one(l []ast.Stmt) ast.Stmt {
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (g *pkgGen) tickBody(b *ast.BlockStmt, pre ...ast.Stmt) *ast.BlockStmt {
	l := append([]ast.Stmt{&ast.ExprStmt{X: call(rtf("Tick"), g.site(b.Pos()))}}, pre...)
	return &ast.BlockStmt{List: append(l, g.list(b.List)...)}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// pure: evaluating e twice is harmless
func pure(e ast.Expr) bool { return !hasCall(e) }

func (g *pkgGen) instrLHS(e ast.Expr) bool {
	e = ast.Unparen(e)
	if i, ok := e.(*ast.Ident); ok {
		if i.Name == "_" {
			return false
		}
		return g.sharedVar(i) && g.wantVal(g.typeOf(e))
	}
	return g.wantVal(g.typeOf(e)) && g.shared(e)
}

func (g *pkgGen) isMapIndex(e ast.Expr) bool {
	x, ok := ast.Unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, m := under(g.typeOf(x.X)).(*types.Map)
	return m
}

// target is the left side of an assignment in place.
func (g *pkgGen) target(e ast.Expr) ast.Expr {
	if i, ok := e.(*ast.Ident); ok && i.Name == "_" {
		return e
	}
	if g.isMapIndex(e) {
		x := ast.Unparen(e).(*ast.IndexExpr)
		return &ast.IndexExpr{X: call(rtf("MapWr"), g.rx(x.X), g.site(x.Pos())), Index: g.rx(x.Index)}
	}
	if g.instrLHS(e) {
		return star(call(rtf("Wr"), addr(g.lv(e)), g.site(e.Pos())))
	}
	return g.lv(e)
}

func (g *pkgGen) setTo(e ast.Expr, v ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: call(sel(call(rtf("SetTo"), addr(g.lv(e)), g.site(e.Pos())), "Do"), v)}
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

// commaOk rewrites the right side of a two-valued form.
func (g *pkgGen) commaOk(e ast.Expr) ast.Expr {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return call(rtf("Recv2"), g.rx(u.X), g.site(u.Pos()))
	}
	if p, ok := e.(*ast.ParenExpr); ok {
		return g.commaOk(p.X)
	}
	return g.rx(e)
}

func (g *pkgGen) assign(x *ast.AssignStmt, simple bool) []ast.Stmt {
	if x.Tok == token.DEFINE {
		n := &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			n.Rhs = []ast.Expr{g.commaOk(x.Rhs[0])}
		} else {
			n.Rhs = g.rxs(x.Rhs)
		}
		return []ast.Stmt{n}
	}
	if op, ok := opOf[x.Tok]; ok {
		l := x.Lhs[0]
		if g.instrLHS(l) && !g.isMapIndex(l) && pure(l) {
			v := &ast.BinaryExpr{X: g.read(l), Op: op, Y: &ast.ParenExpr{X: g.rx(x.Rhs[0])}}
			return []ast.Stmt{g.setTo(l, v)}
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{g.target(l)}, Tok: x.Tok, Rhs: g.rxs(x.Rhs)}}
	}
	// plain assignment
	if len(x.Lhs) == 1 {
		l, r := x.Lhs[0], x.Rhs[0]
		if g.isMapIndex(l) && hasCall(r) && !simple {
			if tv := g.info.Types[r]; tv.Type != nil && !isUntyped(tv.Type) {
				m := ast.Unparen(l).(*ast.IndexExpr)
				t := g.fresh("v")
				var out []ast.Stmt
				var key ast.Expr
				if hasCall(m.Index) {
					k := g.fresh("k")
					out = append(out, define(g.rx(m.Index), k))
					key = id(k)
				} else {
					key = g.rx(m.Index)
				}
				out = append(out, define(g.rx(r), t))
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.IndexExpr{X: call(rtf("MapWr"), g.rx(m.X), g.site(l.Pos())), Index: key}}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}})
				return []ast.Stmt{&ast.BlockStmt{List: out}}
			}
		}
		if g.instrLHS(l) && !g.isMapIndex(l) {
			return []ast.Stmt{g.setTo(l, g.rx(r))}
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{g.target(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{g.rx(r)}}}
	}
	any := false
	for _, l := range x.Lhs {
		if g.instrLHS(l) || g.isMapIndex(l) {
			any = true
		}
	}
	if any && !simple && len(x.Rhs) == 1 {
		// tuple: call, receive, map read or type assertion
		var names []string
		var after []ast.Stmt
		for _, l := range x.Lhs {
			if i, ok := l.(*ast.Ident); ok && i.Name == "_" {
				names = append(names, "_")
				continue
			}
			n := g.fresh("v")
			names = append(names, n)
			if g.instrLHS(l) && !g.isMapIndex(l) {
				after = append(after, g.setTo(l, id(n)))
			} else {
				after = append(after, &ast.AssignStmt{Lhs: []ast.Expr{g.target(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}})
			}
		}
		r := x.Rhs[0]
		if len(x.Lhs) == 2 {
			r = g.commaOk(r)
		} else {
			r = g.rx(r)
		}
		return []ast.Stmt{&ast.BlockStmt{List: append([]ast.Stmt{define(r, names...)}, after...)}}
	}
	n := &ast.AssignStmt{Tok: token.ASSIGN}
	for _, l := range x.Lhs {
		n.Lhs = append(n.Lhs, g.target(l))
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		n.Rhs = []ast.Expr{g.commaOk(x.Rhs[0])}
	} else {
		n.Rhs = g.rxs(x.Rhs)
	}
	return []ast.Stmt{n}
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (g *pkgGen) simpleStmt(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	if a, ok := s.(*ast.AssignStmt); ok {
		return one(g.assign(a, true))
	}
	return one(g.stmt(s, nil))
}

// hoist tells whether an init statement has to move in front of its statement.
func (g *pkgGen) hoist(s ast.Stmt) bool {
	a, ok := s.(*ast.AssignStmt)
	if !ok || a.Tok == token.DEFINE {
		return false
	}
	for _, l := range a.Lhs {
		if g.instrLHS(l) || g.isMapIndex(l) {
			return true
		}
	}
	return false
}

func (g *pkgGen) valueSpec(v *ast.ValueSpec) *ast.ValueSpec {
	v.Doc, v.Comment = nil, nil
	if v.Type != nil {
		v.Type = g.typ(v.Type)
	}
	if len(v.Names) == 2 && len(v.Values) == 1 {
		v.Values = []ast.Expr{g.commaOk(v.Values[0])}
	} else {
		v.Values = g.rxs(v.Values)
	}
	return v
}

// stmt rewrites a statement; label is the label in front of it, if any, which
// has to be attached to the loop, switch or select itself.
func (g *pkgGen) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	lab := func(t ast.Stmt) ast.Stmt {
		if label == nil {
			return t
		}
		return &ast.LabeledStmt{Label: label, Stmt: t}
	}
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return g.stmt(x.Stmt, x.Label)
	case *ast.ExprStmt:
		r := g.rx(x.X)
		if p, ok := r.(*ast.ParenExpr); ok {
			r = p.X
		}
		return []ast.Stmt{lab(&ast.ExprStmt{X: r})}
	case *ast.SendStmt:
		return []ast.Stmt{lab(&ast.ExprStmt{X: call(sel(call(rtf("SendTo"), g.rx(x.Chan), g.site(x.Pos())), "Do"), g.rx(x.Value))})}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		if g.instrLHS(x.X) && !g.isMapIndex(x.X) && pure(x.X) {
			return []ast.Stmt{lab(g.setTo(x.X, &ast.BinaryExpr{X: g.read(x.X), Op: op, Y: intLit(1)}))}
		}
		return []ast.Stmt{lab(&ast.IncDecStmt{X: g.target(x.X), Tok: x.Tok})}
	case *ast.AssignStmt:
		l := g.assign(x, false)
		if label != nil {
			return []ast.Stmt{lab(one(l))}
		}
		return l
	case *ast.GoStmt:
		return []ast.Stmt{lab(g.goStmt(x))}
	case *ast.DeferStmt:
		c := g.rx(x.Call)
		if cc, ok := c.(*ast.CallExpr); ok {
			return []ast.Stmt{lab(&ast.DeferStmt{Call: cc})}
		}
		return []ast.Stmt{lab(&ast.DeferStmt{Call: x.Call})}
	case *ast.ReturnStmt:
		return []ast.Stmt{lab(&ast.ReturnStmt{Results: g.rxs(x.Results)})}
	case *ast.BranchStmt:
		return []ast.Stmt{lab(x)}
	case *ast.BlockStmt:
		return []ast.Stmt{lab(g.block(x))}
	case *ast.IfStmt:
		n := &ast.IfStmt{}
		var pre []ast.Stmt
		if x.Init != nil {
			if g.hoist(x.Init) {
				pre = g.stmt(x.Init, nil)
			} else {
				n.Init = g.simpleStmt(x.Init)
			}
		}
		n.Cond = g.rx(x.Cond)
		n.Body = g.block(x.Body)
		if x.Else != nil {
			n.Else = one(g.stmt(x.Else, nil))
			switch n.Else.(type) {
			case *ast.IfStmt, *ast.BlockStmt:
			default:
				n.Else = &ast.BlockStmt{List: []ast.Stmt{n.Else}}
			}
		}
		if pre != nil {
			return []ast.Stmt{lab(&ast.BlockStmt{List: append(pre, n)})}
		}
		return []ast.Stmt{lab(n)}
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Tag: g.rx(x.Tag), Body: &ast.BlockStmt{}}
		var pre []ast.Stmt
		if x.Init != nil {
			if g.hoist(x.Init) {
				pre = g.stmt(x.Init, nil)
			} else {
				n.Init = g.simpleStmt(x.Init)
			}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			nc := &ast.CaseClause{Body: g.list(cc.Body)}
			if cc.List != nil {
				nc.List = g.rxs(cc.List)
			}
			n.Body.List = append(n.Body.List, nc)
		}
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(n))}}
		}
		return []ast.Stmt{lab(n)}
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: g.simpleStmt(x.Init), Body: &ast.BlockStmt{}}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: g.rxs(a.Rhs)}
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: g.rx(a.X)}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			nc := &ast.CaseClause{Body: g.list(cc.Body)}
			for _, t := range cc.List {
				nc.List = append(nc.List, g.typ(t))
			}
			n.Body.List = append(n.Body.List, nc)
		}
		return []ast.Stmt{lab(n)}
	case *ast.ForStmt:
		n := &ast.ForStmt{Init: g.simpleStmt(x.Init), Cond: g.rx(x.Cond), Post: g.simpleStmt(x.Post), Body: g.tickBody(x.Body)}
		var pre []ast.Stmt
		if b, ok := n.Init.(*ast.BlockStmt); ok {
			pre = []ast.Stmt{b}
			n.Init = nil
		}
		if pre != nil {
			return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(n))}}
		}
		return []ast.Stmt{lab(n)}
	case *ast.RangeStmt:
		return g.rangeStmt(x, lab)
	case *ast.SelectStmt:
		return []ast.Stmt{g.selectStmt(x, lab)}
	case *ast.DeclStmt:
		if d, ok := x.Decl.(*ast.GenDecl); ok {
			d.Doc = nil
			switch d.Tok {
			case token.VAR:
				for i := range d.Specs {
					d.Specs[i] = g.valueSpec(d.Specs[i].(*ast.ValueSpec))
				}
			case token.TYPE:
				for _, s := range d.Specs {
					ts := s.(*ast.TypeSpec)
					ts.Doc, ts.Comment = nil, nil
					ts.Type = g.typ(ts.Type)
				}
			}
		}
		return []ast.Stmt{lab(x)}
	case *ast.EmptyStmt:
		return []ast.Stmt{lab(x)}
	}
	return []ast.Stmt{lab(s)}
}

func (g *pkgGen) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	site := g.site(x.Pos())
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(rtf("Go"), site, g.rx(fl))}
	}
	var pre []ast.Stmt
	r, ok := g.rx(c).(*ast.CallExpr)
	if !ok {
		return x
	}
	isFn := func(e ast.Expr) bool {
		switch f := ast.Unparen(e).(type) {
		case *ast.Ident:
			_, isf := g.info.Uses[f].(*types.Func)
			if _, b := g.info.Uses[f].(*types.Builtin); b {
				return true
			}
			return isf
		case *ast.SelectorExpr:
			if g.info.Selections[f] == nil {
				_, isf := g.info.Uses[f.Sel].(*types.Func)
				return isf
			}
		}
		return false
	}
	_, same := r.Fun.(*ast.SelectorExpr)
	if !isFn(c.Fun) && len(r.Args) == len(c.Args) && (same || true) {
		t := g.fresh("f")
		pre = append(pre, define(r.Fun, t))
		r.Fun = id(t)
	}
	if len(r.Args) == len(c.Args) {
		for i, a := range c.Args {
			tv := g.info.Types[a]
			if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.Type == nil || isUntyped(tv.Type) {
				continue
			}
			if _, tup := tv.Type.(*types.Tuple); tup {
				continue
			}
			t := g.fresh("a")
			pre = append(pre, define(r.Args[i], t))
			r.Args[i] = id(t)
		}
	}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r}}}}
	pre = append(pre, &ast.ExprStmt{X: call(rtf("Go"), site, fn)})
	return &ast.BlockStmt{List: pre}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (g *pkgGen) rangeStmt(x *ast.RangeStmt, lab func(ast.Stmt) ast.Stmt) []ast.Stmt {
	t := g.typeOf(x.X)
	switch under(t).(type) {
	case *types.Map:
		m, k, v, ok := g.fresh("m"), g.fresh("k"), g.fresh("v"), g.fresh("ok")
		out := []ast.Stmt{define(g.rx(x.X), m)}
		var names []ast.Expr
		var vals []ast.Expr
		if !blank(x.Key) {
			names = append(names, x.Key)
			vals = append(vals, id(k))
		}
		useV := !blank(x.Value)
		if useV {
			names = append(names, x.Value)
			vals = append(vals, id(v))
		}
		var pre []ast.Stmt
		vn := v
		if !useV {
			vn = "_"
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(vn), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: call(rtf("MapRd"), id(m), g.site(x.Pos())), Index: id(k)}}})
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if len(names) > 0 {
			if x.Tok == token.DEFINE {
				if g.oldLoop {
					z := call(rtf("MapZero"), id(m))
					zn := []ast.Expr{id("_"), id("_")}
					if !blank(x.Key) {
						zn[0] = x.Key
					}
					if useV {
						zn[1] = x.Value
					}
					out = append(out, &ast.AssignStmt{Lhs: zn, Tok: token.DEFINE, Rhs: []ast.Expr{z}})
					pre = append(pre, &ast.AssignStmt{Lhs: names, Tok: token.ASSIGN, Rhs: vals})
				} else {
					pre = append(pre, &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals})
				}
			} else {
				var ts []ast.Expr
				for _, n := range names {
					ts = append(ts, g.target(n))
				}
				pre = append(pre, &ast.AssignStmt{Lhs: ts, Tok: token.ASSIGN, Rhs: vals})
			}
		}
		n := &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: call(rtf("MapKeys"), call(rtf("MapRd"), id(m), g.site(x.Pos())), g.site(x.Pos())), Body: g.tickBody(x.Body, pre...)}
		out = append(out, lab(n))
		return []ast.Stmt{&ast.BlockStmt{List: out}}
	case *types.Chan:
		c, v, ok := g.fresh("c"), g.fresh("v"), g.fresh("ok")
		out := []ast.Stmt{define(g.rx(x.X), c)}
		vn := v
		if blank(x.Key) {
			vn = "_"
		}
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(vn), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rtf("Recv2"), id(c), g.site(x.Pos()))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
		if !blank(x.Key) {
			if x.Tok == token.DEFINE {
				if g.oldLoop {
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rtf("ChanZero"), id(c))}})
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
				} else {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{id(v)}})
				}
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{g.target(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			}
		}
		// a loop without condition and without break would make following
		// code unreachable only in the type checker's eyes; keep a condition
		n := &ast.ForStmt{Cond: call(rtf("True")), Body: g.tickBody(x.Body, pre...)}
		out = append(out, lab(n))
		return []ast.Stmt{&ast.BlockStmt{List: out}}
	}
	n := &ast.RangeStmt{Key: x.Key, Value: x.Value, Tok: x.Tok, X: g.rx(x.X), Body: g.tickBody(x.Body)}
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			n.Key = g.lvOrSelf(x.Key)
		}
		if x.Value != nil {
			n.Value = g.lvOrSelf(x.Value)
		}
	}
	if _, ok := under(t).(*types.Array); ok && g.addressable(x.X) {
		n.X = g.lv(x.X)
	}
	return []ast.Stmt{lab(n)}
}

func (g *pkgGen) lvOrSelf(e ast.Expr) ast.Expr {
	if blank(e) {
		return e
	}
	return g.target(e)
}

func (g *pkgGen) selectStmt(x *ast.SelectStmt, lab func(ast.Stmt) ast.Stmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return lab(&ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(rtf("Forever"), g.site(x.Pos()))}, &ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	var pre []ast.Stmt
	iN, vN, okN := g.fresh("i"), g.fresh("v"), g.fresh("ok")
	sw := &ast.SwitchStmt{Tag: id(iN), Body: &ast.BlockStmt{}}
	args := []ast.Expr{g.site(x.Pos()), id("false")}
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		switch s := cc.Comm.(type) {
		case nil:
			args[1] = id("true")
			nc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: intLit(1)}}
			nc.Body = g.list(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		case *ast.SendStmt:
			cs := g.fresh("c")
			pre = append(pre, define(call(sel(call(rtf("SendCase"), g.rx(s.Chan)), "V"), g.rx(s.Value)), cs))
			args = append(args, id(cs))
			nc.Body = g.list(cc.Body)
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			args = append(args, call(rtf("RecvCase"), g.rx(u.X)))
			nc.Body = g.list(cc.Body)
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			ch := g.fresh("c")
			pre = append(pre, define(g.rx(u.X), ch))
			args = append(args, call(rtf("RecvCase"), id(ch)))
			val := call(rtf("RecvVal"), id(ch), id(vN))
			vals := []ast.Expr{val}
			if len(s.Lhs) == 2 {
				vals = append(vals, id(okN))
			}
			if s.Tok == token.DEFINE {
				all := true
				for _, l := range s.Lhs {
					if !blank(l) {
						all = false
					}
				}
				if !all {
					nc.Body = append(nc.Body, &ast.AssignStmt{Lhs: s.Lhs, Tok: token.DEFINE, Rhs: vals})
				}
			} else {
				for i, l := range s.Lhs {
					if blank(l) {
						continue
					}
					if g.instrLHS(l) && !g.isMapIndex(l) {
						nc.Body = append(nc.Body, g.setTo(l, vals[i]))
					} else {
						nc.Body = append(nc.Body, &ast.AssignStmt{Lhs: []ast.Expr{g.target(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vals[i]}})
					}
				}
			}
			nc.Body = append(nc.Body, g.list(cc.Body)...)
		}
		nc.List = []ast.Expr{intLit(idx)}
		idx++
		sw.Body.List = append(sw.Body.List, nc)
	}
	sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil // the last one as default: keeps termination analysis
	pre = append(pre, define(call(rtf("Select"), args...), iN, vN, okN))
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vN), id(okN)}})
	pre = append(pre, lab(sw))
	return &ast.BlockStmt{List: pre}
}
