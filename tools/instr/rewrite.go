package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
)

type instr struct {
	fset  *token.FileSet
	info  *types.Info
	level int
	file  *ast.File
	pkg   *types.Package
	sizes types.Sizes
	n     int
}

const simPath = modPath + "/zzsim"

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func simSel(n string) ast.Expr { return &ast.SelectorExpr{X: id("zzsim"), Sel: id(n)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func intLit(i int64) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(i, 10)}
}

func (r *instr) tmp() *ast.Ident {
	r.n++
	return id("zz" + strconv.Itoa(r.n))
}

func (r *instr) rewriteFile(used map[string]bool) {
	for p, on := range shimmed {
		if on {
			used[p] = true
		}
	}
	// imports
	for _, d := range r.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			if p == "C" {
				continue
			}
			if shimmed[p] {
				is.Path.Value = strconv.Quote(simPath + "/shim/" + p)
				is.EndPos = 0
			}
			specs = append(specs, s)
		}
		gd.Specs = specs
	}
	var decls []ast.Decl
	for _, d := range r.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && len(gd.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("zzsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}}}}
	r.file.Decls = append([]ast.Decl{imp}, decls...)

	for _, d := range r.file.Decls[1:] {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.body(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				r.exprsIn(d)
			}
		}
	}
	r.file.Decls = append(r.file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
		&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{simSel("Y")}}}})
	r.file.Comments = nil
	r.file.Doc = nil
}

func yStmt() ast.Stmt { return &ast.ExprStmt{X: call(simSel("Y"))} }

func (r *instr) body(b *ast.BlockStmt) {
	b.List = r.stmts(b.List)
	if r.level == lvlLoop {
		b.List = append([]ast.Stmt{yStmt()}, b.List...)
	}
}

func (r *instr) loopBody(b *ast.BlockStmt, pre ...ast.Stmt) {
	b.List = append(append([]ast.Stmt{}, pre...), r.stmts(b.List)...)
	if r.level == lvlLoop || (r.level == lvlFull && len(b.List) == 0) {
		b.List = append([]ast.Stmt{yStmt()}, b.List...)
	}
}

func (r *instr) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if r.level == lvlFull {
			out = append(out, yStmt())
		}
		out = append(out, r.windows(s)...)
		out = append(out, r.stmt(s)...)
	}
	return out
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

func (r *instr) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *instr) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *instr) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *instr) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		s.List = r.stmts(s.List)
	case *ast.IfStmt:
		if s.Init != nil {
			r.exprsIn(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		s.Body.List = r.stmts(s.Body.List)
		if s.Else != nil {
			if eb, ok := s.Else.(*ast.BlockStmt); ok {
				eb.List = r.stmts(eb.List)
			} else {
				// else-if: its windows cannot be placed before it; wrap it
				w := r.windows(s.Else)
				in := r.stmt(s.Else)
				if len(w) > 0 {
					s.Else = &ast.BlockStmt{List: append(w, in...)}
				} else {
					s.Else = in[0]
				}
			}
		}
	case *ast.ForStmt:
		if s.Init != nil {
			r.exprsIn(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			r.exprsIn(s.Post)
		}
		r.loopBody(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s, nil)
	case *ast.SwitchStmt:
		if s.Init != nil {
			r.exprsIn(s.Init)
		}
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			r.exprsIn(s.Init)
		}
		r.exprsIn(s.Assign)
		r.clauses(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(in, s.Label)
		case *ast.RangeStmt:
			return r.rangeStmt(in, s.Label)
		}
		res := r.stmt(s.Stmt)
		s.Stmt = res[len(res)-1]
		if len(res) > 1 {
			return append(res[:len(res)-1], s)
		}
		return one(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.SendStmt:
		r.exprsIn(s)
		return one(&ast.ExprStmt{X: call(call(simSel("SendTo"), s.Chan), s.Value)})
	default:
		r.exprsIn(s)
	}
	return one(s)
}

func (r *instr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *instr) rangeStmt(s *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	lab := func(st ast.Stmt) ast.Stmt {
		if label == nil {
			return st
		}
		return &ast.LabeledStmt{Label: label, Stmt: st}
	}
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch {
	case r.isMap(s.X):
		m := r.tmp()
		x := r.expr(s.X)
		keys := r.tmp()
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			&ast.ExprStmt{X: call(simSel("MapRangeStart"), m)},
			&ast.AssignStmt{Lhs: []ast.Expr{keys}, Tok: token.DEFINE, Rhs: []ast.Expr{call(simSel("MapKeys"), m)}},
		}
		k := r.tmp()
		var bodyPre []ast.Stmt
		bodyPre = append(bodyPre, &ast.ExprStmt{X: call(simSel("MapRangeStart"), m)})
		v, ok := r.tmp(), r.tmp()
		bodyPre = append(bodyPre,
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		)
		if !isBlank(s.Key) {
			bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{k}})
			if s.Tok == token.DEFINE {
				bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(s.Key.(*ast.Ident).Name)}})
			}
		}
		if !isBlank(s.Value) {
			bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{v}})
			if s.Tok == token.DEFINE {
				bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(s.Value.(*ast.Ident).Name)}})
			}
		}
		r.loopBody(s.Body, bodyPre...)
		loop := &ast.RangeStmt{Key: id("_"), Value: k, Tok: token.DEFINE, X: keys, Body: s.Body}
		return one(&ast.BlockStmt{List: append(pre, lab(loop))})
	case r.isChan(s.X):
		ch := r.tmp()
		v, ok := r.tmp(), r.tmp()
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}}
		bodyPre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(simSel("Recv2"), ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		if !isBlank(s.Key) {
			bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
			if s.Tok == token.DEFINE {
				bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(s.Key.(*ast.Ident).Name)}})
			}
		}
		r.loopBody(s.Body, bodyPre...)
		return one(&ast.BlockStmt{List: append(pre, lab(&ast.ForStmt{Body: s.Body}))})
	}
	s.X = r.expr(s.X)
	r.loopBody(s.Body)
	return one(lab(s))
}

func (r *instr) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return one(&ast.ExprStmt{X: call(id("panic"), call(simSel("BlockForever")))})
	}
	sel := r.tmp()
	hasDefault := "false"
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDefault = "true"
		}
	}
	out := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{call(simSel("NewSel"), id(hasDefault))}}}
	sw := &ast.SwitchStmt{Tag: call(&ast.SelectorExpr{X: sel, Sel: id("Wait")}), Body: &ast.BlockStmt{}}
	idx := int64(0)
	for ci, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var pre []ast.Stmt
		var num ast.Expr = intLit(idx)
		switch cm := cc.Comm.(type) {
		case nil:
			num = intLit(-1)
		case *ast.SendStmt:
			r.exprsIn(cm)
			out = append(out, &ast.ExprStmt{X: call(call(simSel("SelSend"), sel, cm.Chan), cm.Value)})
			idx++
		case *ast.ExprStmt:
			ue := unparen(cm.X).(*ast.UnaryExpr)
			out = append(out, &ast.ExprStmt{X: call(simSel("SelRecv"), sel, r.expr(ue.X))})
			idx++
		case *ast.AssignStmt:
			ue := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			rc := r.tmp()
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{rc}, Tok: token.DEFINE, Rhs: []ast.Expr{call(simSel("SelRecv"), sel, r.expr(ue.X))}},
				&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{rc}})
			for i := range cm.Lhs {
				cm.Lhs[i] = r.expr(cm.Lhs[i])
			}
			rhs := []ast.Expr{&ast.SelectorExpr{X: rc, Sel: id("Val")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: rc, Sel: id("Ok")})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
			if cm.Tok == token.DEFINE {
				for _, l := range cm.Lhs {
					if li := l.(*ast.Ident); li.Name != "_" {
						pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(li.Name)}})
					}
				}
			}
			idx++
		}
		body := append(pre, r.stmts(cc.Body)...)
		cl := &ast.CaseClause{List: []ast.Expr{num}, Body: body}
		if ci == len(s.Body.List)-1 {
			cl.List = nil // default: keeps the statement terminating
		}
		sw.Body.List = append(sw.Body.List, cl)
	}
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return one(&ast.BlockStmt{List: append(out, st)})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *instr) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	isBuiltin := false
	if i, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[i].(*types.Builtin); ok {
			isBuiltin = true
		}
	}
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.body(fl.Body)
		return one(&ast.ExprStmt{X: call(simSel("Go"), fl)})
	}
	var pre []ast.Stmt
	def := func(e ast.Expr) ast.Expr {
		t := r.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return t
	}
	if !isBuiltin {
		c.Fun = def(r.expr(c.Fun))
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		na := r.expr(a)
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			c.Args[i] = na
			continue
		}
		if _, isTuple := tv.Type.(*types.Tuple); isTuple {
			c.Args[i] = na // go f(g()): evaluated late; nothing in this code base does it
			continue
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			c.Args[i] = na
			continue
		}
		c.Args[i] = def(na)
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	pre = append(pre, &ast.ExprStmt{X: call(simSel("Go"), fl)})
	return one(&ast.BlockStmt{List: pre})
}

// allocArgs are functions that allocate as much as an argument says.
var allocArgs = map[string][]int{
	"reflect.MakeSlice":       {1, 2},
	"reflect.MakeMapWithSize": {1},
	"(*bytes.Buffer).Grow":    {0},
	"(*strings.Builder).Grow": {0},
	"slices.Grow":             {1},
	"bytes.Repeat":            {1},
	"strings.Repeat":          {1},
	"bufio.NewReaderSize":     {1},
	"bufio.NewWriterSize":     {1},
	"(reflect.Value).Grow":    {0},
	"(reflect.Value).SetLen":  nil,
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

// expr rewrites one expression (post-order).
func (r *instr) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.FuncLit:
		r.body(x.Body)
		return x
	case *ast.UnaryExpr:
		x.X = r.expr(x.X)
		if x.Op == token.ARROW {
			return call(simSel("Recv"), x.X)
		}
		return x
	case *ast.CallExpr:
		if se, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
			if fn, ok := r.info.Uses[se.Sel].(*types.Func); ok {
				if args := allocArgs[fn.FullName()]; args != nil {
					r.exprsIn(x)
					for _, k := range args {
						if k < len(x.Args) {
							if tv, ok := r.info.Types[x.Args[k]]; ok && tv.Value != nil {
								continue
							}
							if fn.FullName() == "reflect.MakeSlice" {
								x.Args[k] = call(simSel("AllocOf"), x.Args[0], x.Args[k])
							} else {
								x.Args[k] = call(simSel("Alloc"), x.Args[k], intLit(1))
							}
						}
					}
					return x
				}
			}
		}
		if i, ok := unparen(x.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[i].(*types.Builtin); ok && b.Name() == "make" && len(x.Args) >= 2 {
				r.exprsIn(x)
				t := r.typeOf(x.Args[0])
				if t != nil {
					sz := int64(0)
					switch st := t.Underlying().(type) {
					case *types.Slice:
						sz = r.sizes.Sizeof(st.Elem())
					case *types.Map:
						sz = r.sizes.Sizeof(st.Elem()) + r.sizes.Sizeof(st.Key())
					case *types.Chan:
						sz = r.sizes.Sizeof(st.Elem())
					}
					if sz > 0 {
						for k := 1; k < len(x.Args); k++ {
							if tv, ok := r.info.Types[x.Args[k]]; ok && tv.Value != nil {
								continue
							}
							x.Args[k] = call(simSel("Alloc"), x.Args[k], intLit(sz))
						}
					}
				}
				return x
			}
		}
	}
	r.exprsIn(e)
	return e
}

// exprsIn rewrites every expression below node.
func (r *instr) exprsIn(n ast.Node) {
	switch x := n.(type) {
	case nil:
		return
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if ue, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && ue.Op == token.ARROW {
				x.Rhs[0] = call(simSel("Recv2"), r.expr(ue.X))
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				return
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if ue, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && ue.Op == token.ARROW {
				x.Values[0] = call(simSel("Recv2"), r.expr(ue.X))
				return
			}
		}
	}
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	r.fields(v.Elem())
}

func (r *instr) fields(v reflect.Value) {
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		ft := f.Type()
		switch {
		case ft == reflect.TypeOf((*ast.Object)(nil)), ft == reflect.TypeOf((*ast.Scope)(nil)):
			continue
		case ft == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case ft.Kind() == reflect.Slice && ft.Elem() == exprType:
			for k := 0; k < f.Len(); k++ {
				if !f.Index(k).IsNil() {
					f.Index(k).Set(reflect.ValueOf(r.expr(f.Index(k).Interface().(ast.Expr))))
				}
			}
		case ft.Kind() == reflect.Slice:
			for k := 0; k < f.Len(); k++ {
				if nd, ok := f.Index(k).Interface().(ast.Node); ok && nd != nil {
					r.exprsIn(nd)
				}
			}
		default:
			if f.CanInterface() {
				if nd, ok := f.Interface().(ast.Node); ok && nd != nil && !(f.Kind() == reflect.Ptr && f.IsNil()) {
					if e, ok := nd.(ast.Expr); ok {
						ne := r.expr(e)
						if reflect.TypeOf(ne).AssignableTo(ft) {
							f.Set(reflect.ValueOf(ne))
						}
					} else {
						r.exprsIn(nd)
					}
				}
			}
		}
	}
}

// windows returns map-access windows for the head of statement s.
func (r *instr) windows(s ast.Stmt) []ast.Stmt {
	if r.level == lvlNone {
		return nil
	}
	var heads []ast.Node
	switch s := s.(type) {
	case *ast.IfStmt:
		if s.Init != nil {
			heads = append(heads, s.Init)
		}
		heads = append(heads, s.Cond)
	case *ast.ForStmt:
		if s.Init != nil {
			heads = append(heads, s.Init)
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			heads = append(heads, s.Init)
		}
		if s.Tag != nil {
			heads = append(heads, s.Tag)
		}
	case *ast.AssignStmt, *ast.ExprStmt, *ast.ReturnStmt, *ast.IncDecStmt, *ast.DeclStmt:
		heads = append(heads, s)
	default:
		return nil
	}
	type acc struct {
		m     ast.Expr
		write bool
	}
	var accs []acc
	writes := map[ast.Expr]bool{}
	calls := false
	for _, h := range heads {
		ast.Inspect(h, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					writes[unparen(l)] = true
				}
			case *ast.IncDecStmt:
				writes[unparen(n.X)] = true
			case *ast.CallExpr:
				tv := r.info.Types[n.Fun]
				if tv.IsBuiltin() {
					if i, ok := unparen(n.Fun).(*ast.Ident); ok && i.Name == "delete" && len(n.Args) > 0 {
						accs = append(accs, acc{n.Args[0], true})
					}
				} else if !tv.IsType() {
					calls = true
				}
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					calls = true
				}
			case *ast.IndexExpr:
				if r.isMap(n.X) {
					accs = append(accs, acc{n.X, writes[n]})
				}
			}
			return true
		})
	}
	if calls || len(accs) == 0 {
		return nil
	}
	var out []ast.Stmt
	for _, a := range accs {
		root, ok := pureRoot(a.m)
		if !ok {
			continue
		}
		if o := r.info.Uses[root]; o != nil && o.Pos() >= s.Pos() && o.Pos() < s.End() {
			continue
		}
		fn := &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.InterfaceType{Methods: &ast.FieldList{}}}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{clonePure(a.m)}}}},
		}
		w := "false"
		if a.write {
			w = "true"
		}
		out = append(out, &ast.ExprStmt{X: call(simSel("MapWin"), fn, id(w))})
	}
	return out
}

func pureRoot(e ast.Expr) (*ast.Ident, bool) {
	switch x := e.(type) {
	case *ast.Ident:
		return x, true
	case *ast.SelectorExpr:
		return pureRoot(x.X)
	case *ast.StarExpr:
		return pureRoot(x.X)
	case *ast.ParenExpr:
		return pureRoot(x.X)
	}
	return nil, false
}

func clonePure(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return id(x.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clonePure(x.X), Sel: id(x.Sel.Name)}
	case *ast.StarExpr:
		return &ast.ParenExpr{X: &ast.StarExpr{X: clonePure(x.X)}}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clonePure(x.X)}
	}
	return e
}
