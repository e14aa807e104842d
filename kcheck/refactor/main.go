// Command refactor rewrites a copy of the repository without changing what it
// does, to see that the analyser stays quiet. Development only.
//
//	refactor -dir COPY -t TRANSFORM [-func REGEXP]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	info  *types.Info
	pkg   *types.Package
	fresh int
	count int
	limit = flag.Int("every", 1, "apply only to every n-th place")
	off   = flag.Int("off", 0, "offset for -every")
	seen  int
)

func take() bool {
	seen++
	if *limit > 1 && seen%*limit != *off {
		return false
	}
	count++
	return true
}

func name(p string) *ast.Ident { fresh++; return ast.NewIdent(fmt.Sprintf("%sX%d", p, fresh)) }

func main() {
	dir := flag.String("dir", "", "")
	tr := flag.String("t", "", "")
	fn := flag.String("func", "", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var l []string
		for k := range transforms {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	var re *regexp.Regexp
	if *fn != "" {
		re = regexp.MustCompile(*fn)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps, Dir: *dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, p := range ps {
		info, pkg = p.TypesInfo, p.Types
		for i, f := range p.Syntax {
			var keep []*ast.CommentGroup
			for _, g := range f.Comments {
				var cs []*ast.Comment
				for _, c := range g.List {
					if strings.HasPrefix(c.Text, "//go:") || strings.HasPrefix(c.Text, "// +build") {
						cs = append(cs, c)
					}
				}
				if cs != nil {
					keep = append(keep, &ast.CommentGroup{List: cs})
				}
			}
			f.Comments = keep
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					n.Doc = nil
				case *ast.GenDecl:
					if n.Doc != nil && !strings.Contains(n.Doc.List[len(n.Doc.List)-1].Text, "//go:") {
						n.Doc = nil
					}
				case *ast.Field:
					n.Doc, n.Comment = nil, nil
				case *ast.ValueSpec:
					n.Comment = nil
					if n.Doc != nil && !strings.Contains(n.Doc.List[len(n.Doc.List)-1].Text, "//go:") {
						n.Doc = nil
					}
				case *ast.TypeSpec:
					n.Doc, n.Comment = nil, nil
				case *ast.ImportSpec:
					n.Doc, n.Comment = nil, nil
				}
				return true
			})
			before := count
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				if re != nil && !re.MatchString(fd.Name.Name) {
					continue
				}
				transforms[*tr](f, fd)
			}
			if count == before {
				continue
			}
			var buf bytes.Buffer
			if err := format.Node(&buf, p.Fset, f); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			if err := os.WriteFile(p.CompiledGoFiles[i], buf.Bytes(), 0o644); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
		}
	}
	fmt.Println(count, "changes")
}

var transforms = map[string]func(*ast.File, *ast.FuncDecl){
	"range2for": range2for, "for2range": for2range, "condvar": condvar, "invert": invert,
	"rettmp": rettmp, "ifinit": ifinit, "helper": helper, "closure": closure, "elseret": elseret, "restelse": restelse,
	"demorgan": demorgan, "swapcmp": swapcmp, "splitand": splitand, "conttoif": conttoif, "selfalias": selfalias,
	"incr": incr, "switchif": switchif, "argtmp": argtmp, "deferfn": deferfn, "namedret": namedret, "lenzero": lenzero, "exprfn": exprfn, "helperret": helperret,
	"loopcond": loopcond, "vardecl": vardecl, "double": double,
}

func typeOf(e ast.Expr) types.Type { return info.TypeOf(e) }

// pure: no calls, no receive, no index.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, is := n.Fun.(*ast.Ident); is && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			ok = false
		case *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return true
	})
	return ok
}

// stable: e's value and length are not changed in body: e is built of
// identifiers and selectors, none of which is assigned there.
func stable(e ast.Expr, body ast.Node) bool {
	if !pure(e) {
		return false
	}
	txt := types.ExprString(e)
	ok := true
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				t := types.ExprString(l)
				if t == txt || strings.HasPrefix(txt, t+".") || strings.HasPrefix(txt, "*"+t) || strings.HasPrefix(txt, "(*"+t) {
					ok = false
				}
			}
		}
		return true
	})
	return ok
}

func assigned(o types.Object, body ast.Node) bool {
	r := false
	use := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok && (info.Uses[id] == o || info.Defs[id] == o) {
			r = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				use(l)
			}
		case *ast.IncDecStmt:
			use(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					use(n.Key)
				}
				if n.Value != nil {
					use(n.Value)
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				root := n.X
				for {
					switch x := ast.Unparen(root).(type) {
					case *ast.SelectorExpr:
						if isPtr(typeOf(x.X)) {
							return true
						}
						root = x.X
						continue
					case *ast.IndexExpr:
						if _, arr := typeOf(x.X).Underlying().(*types.Array); !arr {
							return true
						}
						root = x.X
						continue
					}
					break
				}
				use(root)
			}
		case *ast.CallExpr: // method with pointer receiver on a variable
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if _, ptr := sel.Obj().Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr && !isPtr(sel.Recv()) {
						root := s.X
						for {
							if x, ok := ast.Unparen(root).(*ast.SelectorExpr); ok && !isPtr(typeOf(x.X)) {
								root = x.X
								continue
							}
							break
						}
						use(root)
					}
				}
			}
		}
		return true
	})
	// an element or field of a struct variable
	ast.Inspect(body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				root := l
				for {
					if x, ok := ast.Unparen(root).(*ast.SelectorExpr); ok && !isPtr(typeOf(x.X)) {
						root = x.X
						continue
					}
					break
				}
				use(root)
			}
		}
		return true
	})
	return r
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func call(f string, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: ast.NewIdent(f), Args: a}
}
func define(l ast.Expr, r ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}
func intLit(s string) *ast.BasicLit { return &ast.BasicLit{Kind: token.INT, Value: s} }

func deref(e ast.Expr) ast.Expr {
	if _, ok := e.(*ast.StarExpr); ok {
		return &ast.ParenExpr{X: e}
	}
	return e
}

func range2for(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		r, ok := c.Node().(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE {
			return true
		}
		if _, is := typeOf(r.X).Underlying().(*types.Slice); !is || !stable(r.X, r.Body) {
			return true
		}
		if hasLit(r.Body) || !take() {
			return true
		}
		var i ast.Expr
		if isBlank(r.Key) {
			i = name("i")
		} else {
			if assigned(info.Defs[r.Key.(*ast.Ident)], r.Body) {
				return true
			}
			i = r.Key
		}
		if !isBlank(r.Value) {
			r.Body.List = append([]ast.Stmt{define(r.Value, &ast.IndexExpr{X: deref(r.X), Index: i})}, r.Body.List...)
		}
		c.Replace(&ast.ForStmt{Init: define(i, intLit("0")), Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: call("len", r.X)},
			Post: &ast.IncDecStmt{X: i, Tok: token.INC}, Body: r.Body})
		return true
	})
}

func hasLit(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			r = true
		}
		return true
	})
	return r
}

func for2range(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		r, ok := c.Node().(*ast.ForStmt)
		if !ok || r.Init == nil || r.Cond == nil || r.Post == nil {
			return true
		}
		in, ok := r.Init.(*ast.AssignStmt)
		if !ok || in.Tok != token.DEFINE || len(in.Lhs) != 1 {
			return true
		}
		if l, ok := in.Rhs[0].(*ast.BasicLit); !ok || l.Value != "0" {
			return true
		}
		b, ok := r.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LSS {
			return true
		}
		o := info.Defs[in.Lhs[0].(*ast.Ident)]
		id, ok := b.X.(*ast.Ident)
		if !ok || info.Uses[id] != o {
			return true
		}
		cl, ok := b.Y.(*ast.CallExpr)
		if !ok || len(cl.Args) != 1 || types.ExprString(cl.Fun) != "len" || !stable(cl.Args[0], r.Body) {
			return true
		}
		if _, is := typeOf(cl.Args[0]).Underlying().(*types.Slice); !is {
			return true
		}
		p, ok := r.Post.(*ast.IncDecStmt)
		if !ok || p.Tok != token.INC || assigned(o, r.Body) || !take() {
			return true
		}
		c.Replace(&ast.RangeStmt{Key: in.Lhs[0], Tok: token.DEFINE, X: cl.Args[0], Body: r.Body})
		return true
	})
}

// inList: the statement can be replaced by several.
func inList(c *astutil.Cursor) bool { return c.Index() >= 0 }

func condvar(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil || !inList(c) || !take() {
			return true
		}
		v := name("cond")
		c.InsertBefore(define(v, s.Cond))
		s.Cond = v
		return true
	})
}

func paren(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: e} }
func not(e ast.Expr) ast.Expr   { return &ast.UnaryExpr{Op: token.NOT, X: paren(e)} }

func invert(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || !take() {
			return true
		}
		if s.Else == nil {
			s.Else = s.Body
			s.Body = &ast.BlockStmt{}
			s.Cond = not(s.Cond)
			return true
		}
		if b, ok := s.Else.(*ast.BlockStmt); ok {
			s.Body, s.Else = b, s.Body
		} else {
			s.Body, s.Else = &ast.BlockStmt{List: []ast.Stmt{s.Else}}, s.Body
		}
		s.Cond = not(s.Cond)
		return true
	})
}

func rettmp(f *ast.File, fd *ast.FuncDecl) {
	var sigs []*types.Signature
	sigs = append(sigs, info.Defs[fd.Name].Type().(*types.Signature))
	astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
		if l, ok := c.Node().(*ast.FuncLit); ok {
			sigs = append(sigs, typeOf(l).(*types.Signature))
		}
		return true
	}, func(c *astutil.Cursor) bool {
		if _, ok := c.Node().(*ast.FuncLit); ok {
			sigs = sigs[:len(sigs)-1]
		}
		r, ok := c.Node().(*ast.ReturnStmt)
		if !ok || len(r.Results) == 0 || !inList(c) || !take() {
			return true
		}
		sig := sigs[len(sigs)-1]
		if len(r.Results) == 1 && sig.Results().Len() > 1 {
			var l []ast.Expr
			for i := 0; i < sig.Results().Len(); i++ {
				l = append(l, name("res"))
			}
			c.InsertBefore(&ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r.Results})
			r.Results = l
			return true
		}
		var l []ast.Expr
		for i, e := range r.Results {
			v := name("res")
			c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
				Names: []*ast.Ident{v}, Type: typeExpr(f, sig.Results().At(i).Type()), Values: []ast.Expr{e}}}}})
			l = append(l, v)
		}
		r.Results = l
		return true
	})
}

func typeExpr(f *ast.File, t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		for _, im := range f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		panic("no import of " + p.Path())
	})
	return ast.NewIdent(s)
}

func nameable(f *ast.File, t types.Type) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	typeExpr(f, t)
	return !strings.Contains(types.TypeString(t, nil), "struct{") && t != types.Typ[types.UntypedNil]
}

func ifinit(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init == nil || !take() {
			return true
		}
		in := s.Init
		s.Init = nil
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
		return true
	})
}

// leaves: the statement can leave by return, goto, or a break or continue of a
// loop outside it.
func leaves(n ast.Node) bool {
	r := false
	var walk func(n ast.Node, brk, cont bool)
	walk = func(n ast.Node, brk, cont bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				r = true
			case *ast.BranchStmt:
				if m.Label != nil || m.Tok == token.GOTO || m.Tok == token.FALLTHROUGH || m.Tok == token.BREAK && !brk || m.Tok == token.CONTINUE && !cont {
					r = true
				}
			case *ast.ForStmt:
				walk(m, true, true)
				return false
			case *ast.RangeStmt:
				walk(m, true, true)
				return false
			case *ast.SwitchStmt:
				walk(m, true, cont)
				return false
			case *ast.TypeSwitchStmt:
				walk(m, true, cont)
				return false
			case *ast.SelectStmt:
				walk(m, true, cont)
				return false
			}
			return true
		})
	}
	brk, cont := false, false
	switch n.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		brk, cont = true, true
	case *ast.SwitchStmt, *ast.TypeSwitchStmt:
		brk = true
	}
	walk(n, brk, cont)
	return r
}

// freeVars lists the local variables of the function used in n and declared
// outside it.
func freeVars(n ast.Node) (l []*types.Var) {
	have := map[*types.Var]bool{}
	ast.Inspect(n, func(m ast.Node) bool {
		id, ok := m.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := info.Uses[id].(*types.Var)
		if !ok || v.IsField() || have[v] || v.Pkg() != pkg || v.Parent() == pkg.Scope() || v.Parent() == nil {
			return true
		}
		if n.Pos() <= v.Pos() && v.Pos() < n.End() {
			return true
		}
		have[v] = true
		l = append(l, v)
		return true
	})
	return l
}

func usesFresh(n ast.Node) bool { // refers to something a former rewriting made
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok && regexp.MustCompile(`X\d+$`).MatchString(id.Name) {
			r = true
		}
		return true
	})
	return r
}

// helper moves a compound statement to a function of its own.
func helper(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
		switch c.Node().(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.IfStmt, *ast.SwitchStmt:
		default:
			return true
		}
		if !inList(c) {
			return true
		}
		if _, lab := c.Parent().(*ast.LabeledStmt); lab {
			return true
		}
		s := c.Node().(ast.Stmt)
		if leaves(s) || usesFresh(s) {
			return true
		}
		vars := freeVars(s)
		for _, v := range vars {
			if !nameable(f, v.Type()) {
				return true
			}
		}
		if !take() {
			return true
		}
		h := name("helper")
		var ps []*ast.Field
		var as []ast.Expr
		for _, v := range vars {
			t := typeExpr(f, v.Type())
			if assigned(v, s) {
				t = &ast.StarExpr{X: t}
				as = append(as, &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(v.Name())})
				replaceVar(s, v)
			} else {
				as = append(as, ast.NewIdent(v.Name()))
			}
			ps = append(ps, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: t})
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: h, Type: &ast.FuncType{Params: &ast.FieldList{List: ps}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}})
		c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: h, Args: as}})
		return false
	}, nil)
}

func replaceVar(n ast.Node, v *types.Var) {
	astutil.Apply(n, nil, func(c *astutil.Cursor) bool {
		if id, ok := c.Node().(*ast.Ident); ok && info.Uses[id] == v {
			if _, sel := c.Parent().(*ast.SelectorExpr); sel && c.Name() == "Sel" {
				return true
			}
			c.Replace(&ast.ParenExpr{X: &ast.StarExpr{X: id}})
		}
		return true
	})
}

// helperret moves the last statements of a block that ends in a return to a
// function of its own that returns what they return.
func helperret(f *ast.File, fd *ast.FuncDecl) {
	sig := info.Defs[fd.Name].Type().(*types.Signature)
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 || sig.Results().Len() == 0 {
		return
	}
	bad := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.LabeledStmt, *ast.DeferStmt:
			bad = true
		}
		return true
	})
	if bad || len(fd.Body.List) < 3 {
		return
	}
	k := len(fd.Body.List) / 2
	tail := &ast.BlockStmt{List: fd.Body.List[k:], Lbrace: fd.Body.List[k].Pos(), Rbrace: fd.Body.Rbrace}
	vars := freeVars(tail)
	for _, v := range vars {
		if !nameable(f, v.Type()) {
			return
		}
	}
	if !take() {
		return
	}
	h := name("rest")
	var ps []*ast.Field
	var as []ast.Expr
	for _, v := range vars {
		as = append(as, ast.NewIdent(v.Name()))
		ps = append(ps, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: typeExpr(f, v.Type())})
	}
	f.Decls = append(f.Decls, &ast.FuncDecl{Name: h, Type: &ast.FuncType{Params: &ast.FieldList{List: ps}, Results: fd.Type.Results}, Body: tail})
	fd.Body.List = append(append([]ast.Stmt{}, fd.Body.List[:k]...), &ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: h, Args: as}}})
}

func closure(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		switch c.Node().(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.IfStmt, *ast.SwitchStmt:
		default:
			return true
		}
		if !inList(c) {
			return true
		}
		s := c.Node().(ast.Stmt)
		if leaves(s) || !take() {
			return true
		}
		c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}}})
		return true
	})
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

func declares(l []ast.Stmt) bool {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.DeclStmt:
			return true
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				return true
			}
		}
	}
	return false
}

// elseret: if c {...return} else {B} -> if c {...return}; B
func elseret(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else == nil || s.Init != nil || !inList(c) || !terminates(s.Body) || !take() {
			return true
		}
		e := s.Else
		s.Else = nil
		c.InsertAfter(e)
		return true
	})
}

// restelse: if c {...return}; rest -> if c {...return} else {rest}
func restelse(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok {
			return true
		}
		for i, s := range b.List {
			s, ok := s.(*ast.IfStmt)
			if !ok || s.Else != nil || !terminates(s.Body) || i+1 >= len(b.List) {
				continue
			}
			if _, ret := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ret {
				continue
			}
			if _, ret := b.List[len(b.List)-1].(*ast.ReturnStmt); !ret {
				continue
			}
			if s.Init != nil && declares([]ast.Stmt{s.Init}) {
				continue
			}
			if !take() {
				continue
			}
			s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, b.List[i+1:]...)}
			b.List = b.List[:i+1]
			break
		}
		return true
	})
}

func demorgan(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND && b.Op != token.LOR || !take() {
			return true
		}
		op := token.LOR
		if b.Op == token.LOR {
			op = token.LAND
		}
		c.Replace(not(&ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)}))
		return true
	})
}

func swapcmp(f *ast.File, fd *ast.FuncDecl) {
	m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || m[b.Op] == 0 || !pure(b.X) || !pure(b.Y) || !take() {
			return true
		}
		b.X, b.Y, b.Op = b.Y, b.X, m[b.Op]
		return true
	})
}

func splitand(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else != nil {
			return true
		}
		b, ok := s.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND || !take() {
			return true
		}
		s.Cond = b.X
		s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
		return true
	})
}

// conttoif: if c {continue}; rest -> if !c {rest}
func conttoif(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		var b *ast.BlockStmt
		switch l := c.Node().(type) {
		case *ast.ForStmt:
			b = l.Body
		case *ast.RangeStmt:
			b = l.Body
		default:
			return true
		}
		for i, s := range b.List {
			s, ok := s.(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil || len(s.Body.List) != 1 || i+1 >= len(b.List) {
				continue
			}
			br, ok := s.Body.List[0].(*ast.BranchStmt)
			if !ok || br.Tok != token.CONTINUE || br.Label != nil || !take() {
				continue
			}
			s.Cond = not(s.Cond)
			s.Body = &ast.BlockStmt{List: append([]ast.Stmt{}, b.List[i+1:]...)}
			b.List = b.List[:i+1]
			break
		}
		return true
	})
}

func selfalias(f *ast.File, fd *ast.FuncDecl) {
	if fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 || !take() {
		return
	}
	id := fd.Recv.List[0].Names[0]
	if id.Name == "_" {
		return
	}
	o := info.Defs[id]
	if assigned(o, fd.Body) {
		return
	}
	self := name("self")
	used := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if x, ok := n.(*ast.Ident); ok && info.Uses[x] == o {
			x.Name = self.Name
			used = true
		}
		return true
	})
	if used {
		fd.Body.List = append([]ast.Stmt{define(self, ast.NewIdent(id.Name))}, fd.Body.List...)
	}
}

func incr(f *ast.File, fd *ast.FuncDecl) {
	ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		switch s := c.Node().(type) {
		case *ast.IncDecStmt:
			if !take() {
				return true
			}
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: op, Y: intLit("1")}}})
		case *ast.AssignStmt:
			if op, ok := ops[s.Tok]; ok && take() {
				s.Tok = token.ASSIGN
				s.Rhs[0] = &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: paren(s.Rhs[0])}
			}
		}
		return true
	})
}

func switchif(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SwitchStmt)
		if !ok || s.Init != nil || !inList(c) {
			return true
		}
		bad := false
		ast.Inspect(s, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH) {
				bad = true
			}
			return true
		})
		if bad || !take() {
			return true
		}
		var first, last *ast.IfStmt
		var def *ast.BlockStmt
		tag := s.Tag
		if tag != nil {
			v := name("tag")
			c.InsertBefore(define(v, tag))
			tag = v
		}
		for _, cc := range s.Body.List {
			cc := cc.(*ast.CaseClause)
			if cc.List == nil {
				def = &ast.BlockStmt{List: cc.Body}
				continue
			}
			var cond ast.Expr
			for _, e := range cc.List {
				x := e
				if tag != nil {
					x = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
				}
				if cond == nil {
					cond = x
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: x}
				}
			}
			is := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
			if first == nil {
				first = is
			} else {
				last.Else = is
			}
			last = is
		}
		if first == nil {
			return true
		}
		if def != nil {
			last.Else = def
		}
		c.Replace(first)
		return true
	})
}

// argtmp: f(g(x)) as the only argument evaluated -> t := g(x); f(t)
func argtmp(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		var e *ast.Expr
		switch s := c.Node().(type) {
		case *ast.ExprStmt:
			e = &s.X
		case *ast.AssignStmt:
			if len(s.Rhs) != 1 {
				return true
			}
			for _, l := range s.Lhs {
				if !pure(l) {
					return true
				}
			}
			e = &s.Rhs[0]
		case *ast.ReturnStmt:
			if len(s.Results) != 1 {
				return true
			}
			e = &s.Results[0]
		default:
			return true
		}
		if !inList(c) {
			return true
		}
		cl, ok := (*e).(*ast.CallExpr)
		if !ok || !pure(cl.Fun) {
			return true
		}
		if tv := info.Types[cl.Fun]; tv.IsBuiltin() || tv.IsType() {
			return true
		}
		for i, a := range cl.Args {
			t := typeOf(a)
			if _, tuple := t.(*types.Tuple); tuple {
				return true
			}
			if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				continue
			}
			if info.Types[a].Value != nil || info.Types[a].IsNil() {
				continue
			}
			if cl.Ellipsis.IsValid() && i == len(cl.Args)-1 {
				continue
			}
			if _, isId := a.(*ast.Ident); isId {
				continue
			}
			if !take() {
				continue
			}
			v := name("arg")
			c.InsertBefore(define(v, a))
			cl.Args[i] = v
		}
		return true
	})
}

// deferfn: defer f() -> defer func() { f() }() when f has no arguments
func deferfn(f *ast.File, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		d, ok := n.(*ast.DeferStmt)
		if !ok || len(d.Call.Args) > 0 {
			return true
		}
		if _, lit := d.Call.Fun.(*ast.FuncLit); lit || !take() {
			return true
		}
		d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}
		return true
	})
}

func namedret(f *ast.File, fd *ast.FuncDecl) {
	if fd.Type.Results == nil || !take() {
		return
	}
	for _, r := range fd.Type.Results.List {
		if len(r.Names) > 0 {
			return
		}
		r.Names = []*ast.Ident{name("out")}
	}
}

// lenzero: len(x) == 0 -> len(x) < 1, and back
func lenzero(f *ast.File, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		cl, ok := b.X.(*ast.CallExpr)
		if !ok || types.ExprString(cl.Fun) != "len" {
			return true
		}
		l, ok := b.Y.(*ast.BasicLit)
		if !ok {
			return true
		}
		switch {
		case b.Op == token.EQL && l.Value == "0" && take():
			b.Op, b.Y = token.LSS, intLit("1")
		case b.Op == token.LSS && l.Value == "1" && take():
			b.Op, b.Y = token.EQL, intLit("0")
		case b.Op == token.GTR && l.Value == "0" && take():
			b.Op, b.Y = token.NEQ, intLit("0")
		case b.Op == token.NEQ && l.Value == "0" && take():
			b.Op, b.Y = token.GEQ, intLit("1")
		}
		return true
	})
}

// exprfn moves a condition to a function of its own.
func exprfn(f *ast.File, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.IfStmt)
		if !ok || usesFresh(s.Cond) {
			return true
		}
		if id, ok := s.Cond.(*ast.Ident); ok && id != nil {
			return true
		}
		vars := freeVars(s.Cond)
		for _, v := range vars {
			if !nameable(f, v.Type()) || assigned(v, s.Cond) {
				return true
			}
		}
		if len(vars) == 0 || !take() {
			return true
		}
		h := name("test")
		var ps []*ast.Field
		var as []ast.Expr
		for _, v := range vars {
			as = append(as, ast.NewIdent(v.Name()))
			ps = append(ps, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: typeExpr(f, v.Type())})
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: h, Type: &ast.FuncType{Params: &ast.FieldList{List: ps}, Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{s.Cond}}}}})
		s.Cond = &ast.CallExpr{Fun: h, Args: as}
		return true
	})
}

// loopcond: for cond {B} -> for { if !cond {break}; B }
func loopcond(f *ast.File, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.ForStmt)
		if !ok || s.Cond == nil || !take() {
			return true
		}
		s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
		s.Cond = nil
		return true
	})
}

// vardecl: x := e -> var x T; x = e
func vardecl(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || !inList(c) {
			return true
		}
		for _, l := range s.Lhs {
			if o := info.Defs[l.(*ast.Ident)]; o != nil && !nameable(f, o.Type()) {
				return true
			}
		}
		if !take() {
			return true
		}
		for _, l := range s.Lhs {
			if o := info.Defs[l.(*ast.Ident)]; o != nil && o.Name() != "_" {
				c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(l.(*ast.Ident).Name)}, Type: typeExpr(f, o.Type())}}}})
			}
		}
		s.Tok = token.ASSIGN
		return true
	})
}

// double: a no-op block around every statement list's first half.
func double(f *ast.File, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.ExprStmt)
		if !ok || !inList(c) || !take() {
			return true
		}
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{s}})
		return true
	})
}
