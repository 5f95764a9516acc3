package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// chanEdits replaces channels by the scheduler's.
type chanEdits struct {
	edits       []edit
	unsupported func(what string, p token.Pos)
	src         []byte
	off         func(token.Pos) int
	info        *types.Info
	done        map[ast.Node]bool // handled with their parents
	used        bool
}

// usesChans says whether some file of the package has channels.
func usesChans(dir string) bool {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, p := range files {
		b, _ := os.ReadFile(p)
		if !strings.HasSuffix(p, "_test.go") && regexp.MustCompile(`\bchan\b|<-`).Match(b) {
			return true
		}
	}
	return false
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported")
}

// typesOf checks the package of f as far as that goes without its imports.
// The other files are those for linux and amd64.
func typesOf(fset *token.FileSet, path string, f *ast.File) *types.Info {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	files := []*ast.File{f}
	paths, _ := filepath.Glob(filepath.Join(filepath.Dir(path), "*.go"))
	for _, p := range paths {
		if p == path || strings.HasSuffix(p, "_test.go") {
			continue
		}
		if g, err := parser.ParseFile(fset, p, nil, 0); err == nil && g.Name.Name == f.Name.Name {
			files = append(files, g)
		}
	}
	conf := types.Config{Importer: noImports{}, Error: func(error) {}, FakeImportC: true}
	conf.Check(f.Name.Name, fset, files, info)
	return info
}

func (c *chanEdits) text(n ast.Node) string { return string(c.src[c.off(n.Pos()):c.off(n.End())]) }

func (c *chanEdits) put(at, end int, s string) {
	c.edits = append(c.edits, edit{at, end, s})
	c.used = true
}

// simple: evaluating it again has no effect and nothing in it is replaced.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.IndexExpr:
		return simple(x.X) && simple(x.Index)
	case *ast.ParenExpr:
		return simple(x.X)
	}
	return false
}

// noEdits: nothing in it is replaced.
func noEdits(n ast.Node) (ok bool) {
	ok = true
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.ChanType:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && x.Op != token.ARROW
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); is && (id.Name == "make" || id.Name == "close") {
				ok = false
			}
		}
		return ok
	})
	return
}

func (c *chanEdits) isChan(e ast.Expr) (yes, known bool) {
	t := c.info.Types[e].Type
	if t == nil || t == types.Typ[types.Invalid] {
		return false, false
	}
	_, yes = t.Underlying().(*types.Chan)
	return yes, true
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (c *chanEdits) recv(u *ast.UnaryExpr, how string) {
	c.done[u] = true
	if !simple(u.X) {
		if _, ok := u.X.(*ast.CallExpr); !ok {
			c.unsupported("channel", u.Pos())
		}
	}
	c.put(c.off(u.Pos()), c.off(u.X.Pos()), "")
	c.put(c.off(u.End()), c.off(u.End()), how)
}

func (c *chanEdits) visit(n ast.Node) {
	if n == nil || c.done[n] {
		return
	}
	switch x := n.(type) {
	case *ast.TypeSpec:
		if _, ok := x.Type.(*ast.ChanType); ok {
			c.unsupported("named channel type", x.Pos())
		}
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		if !ok || len(x.Args) == 0 {
			return
		}
		switch id.Name {
		case "make":
			ct, ok := x.Args[0].(*ast.ChanType)
			if !ok {
				return
			}
			c.done[ct] = true
			c.put(c.off(x.Pos()), c.off(ct.Value.Pos()), "vsched.MakeChan[")
			end := c.off(ct.Value.End())
			if len(x.Args) > 1 {
				c.put(end, c.off(x.Args[1].Pos()), "](")
			} else {
				c.put(end, end, "](")
			}
		case "close":
			c.put(c.off(id.Pos()), c.off(id.End()), "vsched.Close")
		case "len", "cap":
			yes, known := c.isChan(x.Args[0])
			if yes {
				c.put(c.off(id.Pos()), c.off(id.End()), map[string]string{"len": "vsched.Len", "cap": "vsched.Cap"}[id.Name])
			} else if !known && c.info.Uses[id] == nil {
				c.unsupported(id.Name+" of a channel", x.Pos())
			}
		}
	case *ast.ChanType:
		at := c.off(x.Pos())
		c.put(at, c.off(x.Value.Pos()), "*vsched.Chan[")
		end := c.off(x.Value.End())
		c.put(end, end, "]")
	case *ast.SendStmt:
		c.put(c.off(x.Chan.End()), c.off(x.Value.Pos()), ".Send(")
		end := c.off(x.End())
		c.put(end, end, ")")
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := arrow(x.Rhs[0]); u != nil {
				c.recv(u, ".Recv2()")
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := arrow(x.Values[0]); u != nil {
				c.recv(u, ".Recv2()")
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			c.recv(x, ".Recv()")
		}
	case *ast.RangeStmt:
		yes, known := c.isChan(x.X)
		if !known && x.Value == nil {
			switch t := x.X.(type) {
			case *ast.CallExpr, *ast.SelectorExpr: // may come from another package
				c.unsupported("range", t.Pos())
			}
		}
		if !yes {
			return
		}
		if !simple(x.X) || x.Key != nil && x.Tok != token.DEFINE {
			c.unsupported("range over a channel", x.Pos())
			return
		}
		v := "_"
		if x.Key != nil {
			v = c.text(x.Key)
		}
		ch := c.text(x.X)
		c.put(c.off(x.Pos()), c.off(x.Body.Lbrace), fmt.Sprintf("for %s, vok := %s.Recv2(); vok; %s, vok = %s.Recv2() ", v, ch, v, ch))
	case *ast.SelectStmt:
		c.selectStmt(x)
	}
}

func (c *chanEdits) selectStmt(x *ast.SelectStmt) {
	var cases []string
	byDefault := false
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		at, end := c.off(cc.Case), c.off(cc.Colon)+1
		k := len(cases)
		var u *ast.UnaryExpr
		got := ""
		switch s := cc.Comm.(type) {
		case nil:
			byDefault = true
			continue
		case *ast.SendStmt:
			c.done[s] = true
			if !simple(s.Chan) || !noEdits(s.Value) {
				c.unsupported("select", s.Pos())
			}
			cases = append(cases, fmt.Sprintf("vsched.SendCase(%s, %s)", c.text(s.Chan), c.text(s.Value)))
			c.put(at, end, fmt.Sprintf("case %d:", k))
			continue
		case *ast.ExprStmt:
			u = arrow(s.X)
		case *ast.AssignStmt:
			c.done[s] = true
			u = arrow(s.Rhs[0])
			var left []string
			for _, l := range s.Lhs {
				left = append(left, c.text(l))
			}
			f := "Got"
			if len(left) == 2 {
				f = "Got2"
			}
			got = fmt.Sprintf(" %s %s vsched.%s(%s, vsel);", strings.Join(left, ", "), s.Tok, f, c.text(u.X))
		}
		c.done[u] = true
		if !simple(u.X) {
			c.unsupported("select", u.Pos())
		}
		cases = append(cases, fmt.Sprintf("vsched.RecvCase(%s)", c.text(u.X)))
		c.put(at, end, fmt.Sprintf("case %d:%s", k, got))
	}
	at := c.off(x.Select)
	c.put(at, at+len("select"), fmt.Sprintf("switch vsel := vsched.Select(%s); vsel.I", strings.Join(append([]string{fmt.Sprint(byDefault)}, cases...), ", ")))
	if !byDefault {
		end := c.off(x.Body.Rbrace)
		c.put(end, end, "; default: panic(\"no case\") ")
	}
}
