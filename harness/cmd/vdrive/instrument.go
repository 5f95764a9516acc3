package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// instrumentation of a scratch copy of the library by text edits at the
// positions of its syntax tree; lines keep their numbers.

type edit struct {
	at, end int
	text    string
}

type instrOpts struct {
	makes bool // make([]byte), make([]uint32) -> galloc
	sched bool // scheduling points, sync -> cooperative stand-in
	gc    bool // points for garbage collections and stack moves
	state bool // register package-level variables
}

type instrInfo struct {
	makes, points, vars int
	chans               bool
	unsupported         []string // constructs the cooperative scheduler cannot handle
	rewritten           []string
}

// libraryDirs are the directories with library packages.
func libraryDirs(root string) (dirs []string) {
	filepath.Walk(filepath.Join(root, "pkg"), func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() && i.Name() != "main" && i.Name() != "testdata" {
			dirs = append(dirs, p)
		}
		return nil
	})
	return
}

func (d *driver) instrument(root string, o instrOpts) (info instrInfo, err error) {
	for _, dir := range libraryDirs(root) {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(files)
		for _, p := range files {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			if err := instrumentFile(root, p, o, &info); err != nil {
				return info, err
			}
		}
	}
	if info.chans { // generic types need a later language
		mod := filepath.Join(root, "go.mod")
		b, err := os.ReadFile(mod)
		if err != nil {
			return info, err
		}
		return info, os.WriteFile(mod, regexp.MustCompile(`(?m)^go 1\.1[0-9]$`).ReplaceAll(b, []byte("go 1.21")), 0o644)
	}
	return info, nil
}

// waits: functions of package time that depend on the passing of time.
var waits = map[string]bool{"Sleep": true, "After": true, "AfterFunc": true, "NewTimer": true, "NewTicker": true, "Tick": true}

func elemKind(e ast.Expr) string {
	if at, ok := e.(*ast.ArrayType); ok && at.Len == nil {
		if id, ok := at.Elt.(*ast.Ident); ok {
			switch id.Name {
			case "byte", "uint8":
				return "Bytes"
			case "uint32":
				return "Words"
			}
		}
	}
	return ""
}

func instrumentFile(root, path string, o instrOpts, info *instrInfo) error {
	src, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return err
	}
	if f.Name.Name == "main" {
		return nil
	}
	for _, im := range f.Imports {
		if strings.Contains(im.Path.Value, "mmcloughlin/avo") {
			return nil // generator helper, not library code
		}
	}
	rel, _ := filepath.Rel(root, path)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	imports := map[string]string{}
	unsupported := func(what string, p token.Pos) {
		info.unsupported = append(info.unsupported, fmt.Sprintf("%s at %s:%d", what, rel, fset.Position(p).Line))
	}
	pointCall := "vsched.Point(); "
	if o.gc {
		pointCall = "vgc.Point(); "
	}
	point := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.LabeledStmt:
				_ = x
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), pointCall})
			info.points++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && o.makes && id.Name == "make" && id.Obj == nil && len(x.Args) >= 2 && !x.Ellipsis.IsValid() {
				if k := elemKind(x.Args[0]); k != "" {
					if len(x.Args) == 3 {
						k += "Cap"
						edits = append(edits, edit{off(x.Args[1].End()), off(x.Args[2].Pos()), "), int("})
					}
					edits = append(edits, edit{off(x.Pos()), off(x.Args[1].Pos()), "vgalloc." + k + "(int("})
					last := x.Args[len(x.Args)-1]
					edits = append(edits, edit{off(last.End()), off(last.End()), ")"})
					imports["vgalloc"] = "verif.local/harness/rt/galloc"
					info.makes++
				}
			}
		}
		if !o.sched && !o.gc {
			return true
		}
		switch x := n.(type) {
		case *ast.ForStmt:
			if len(x.Body.List) == 0 { // an empty loop waits for another thread
				edits = append(edits, edit{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, pointCall})
				info.points++
			}
		case *ast.BlockStmt:
			point(x.List)
		case *ast.CaseClause:
			point(x.Body)
		case *ast.CommClause:
			point(x.Body)
		}
		if !o.sched {
			return true
		}
		switch x := n.(type) {
		case *ast.GoStmt:
			if x.Call.Ellipsis.IsValid() {
				unsupported("go statement", x.Pos())
				break
			}
			edits = append(edits, edit{off(x.Pos()), off(x.Call.Fun.Pos()), "vsched.Spawn("})
			comma := ""
			if len(x.Call.Args) > 0 {
				comma = ", "
			}
			edits = append(edits, edit{off(x.Call.Fun.End()), off(x.Call.Lparen) + 1, comma})
			imports["vsched"] = "verif.local/harness/rt/sched"
		}
		return true
	})
	if o.sched && usesChans(filepath.Dir(path)) {
		c := &chanEdits{unsupported: unsupported, src: src, off: off, info: typesOf(fset, path, f), done: map[ast.Node]bool{}}
		ast.Inspect(f, func(n ast.Node) bool { c.visit(n); return true })
		edits = append(edits, c.edits...)
		if c.used {
			imports["vsched"] = "verif.local/harness/rt/sched"
			info.chans = true
		}
	}
	// ast.Inspect visits switch bodies as BlockStmts of CaseClauses: no point
	// may come before a case
	if o.sched || o.gc {
		drop := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CaseClause:
				drop[off(x.Pos())] = true
			case *ast.CommClause:
				drop[off(x.Pos())] = true
			}
			return true
		})
		kept := edits[:0]
		for _, e := range edits {
			if e.text == pointCall {
				if drop[e.at] {
					info.points--
					continue
				}
				if o.gc {
					imports["vgc"] = "verif.local/harness/rt/gcpoint"
				} else {
					imports["vsched"] = "verif.local/harness/rt/sched"
				}
			}
			kept = append(kept, e)
		}
		edits = kept
	}
	if o.sched {
		for _, im := range f.Imports {
			to := ""
			switch im.Path.Value {
			case `"sync"`:
				to = `"verif.local/harness/rt/vsync"`
				if im.Name == nil {
					to = "sync " + to
				}
			case `"time"`: // reading the clock is harmless, waiting is not
				name := "time"
				if im.Name != nil {
					name = im.Name.Name
				}
				ast.Inspect(f, func(n ast.Node) bool {
					if x, ok := n.(*ast.SelectorExpr); ok {
						if id, ok := x.X.(*ast.Ident); ok && id.Name == name && waits[x.Sel.Name] {
							unsupported("time."+x.Sel.Name, x.Pos())
						}
					}
					return true
				})
			case `"runtime"`: // finalizers run on a thread that is not controlled
				name := "runtime"
				if im.Name != nil {
					name = im.Name.Name
				}
				ast.Inspect(f, func(n ast.Node) bool {
					if x, ok := n.(*ast.SelectorExpr); ok {
						if id, ok := x.X.(*ast.Ident); ok && id.Name == name && (x.Sel.Name == "SetFinalizer" || x.Sel.Name == "AddCleanup") {
							unsupported("runtime."+x.Sel.Name, x.Pos())
						}
					}
					return true
				})
			case `"context"`:
				unsupported("import of "+im.Path.Value, im.Pos())
			case `"sync/atomic"`:
				to = `"verif.local/harness/rt/vatomic"`
				if im.Name == nil {
					to = "atomic " + to
				}
			}
			if to != "" {
				edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), to})
			}
		}
	}
	tail := ""
	if o.state {
		pkg := strings.TrimPrefix(filepath.ToSlash(filepath.Dir(rel)), "pkg/")
		var regs []string
		for _, dcl := range f.Decls {
			g, ok := dcl.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						regs = append(regs, fmt.Sprintf("vstate.Register(%q, &%s)", pkg+"."+id.Name, id.Name))
						info.vars++
					}
				}
			}
		}
		if len(regs) > 0 {
			imports["vstate"] = "verif.local/harness/rt/state"
			tail = "\nfunc init() { " + strings.Join(regs, "; ") + " }\n"
		}
	}
	if len(edits) == 0 && tail == "" {
		return nil
	}
	var names []string
	for k := range imports {
		names = append(names, k)
	}
	sort.Strings(names)
	imp := ""
	for _, k := range names {
		imp += fmt.Sprintf("; import %s %q", k, imports[k])
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), imp})
	sort.SliceStable(edits, func(a, b int) bool {
		x, y := edits[a], edits[b]
		return x.at < y.at || x.at == y.at && x.end == x.at && y.end > y.at // insertions first
	})
	var out strings.Builder
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			return fmt.Errorf("overlapping edits in %s", rel)
		}
		out.Write(src[pos:e.at])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	out.WriteString(tail)
	info.rewritten = append(info.rewritten, rel)
	return os.WriteFile(path, []byte(out.String()), 0o644)
}

func init() {
	runners["C09"] = func(d *driver) {
		dir := d.copyTree("tree")
		info, err := d.instrument(dir, instrOpts{makes: true})
		var bin string
		if err == nil {
			bin, err = d.tryBuild("explore", d.modfile("guarded", dir), "./cmd/explore", nil)
		}
		if err != nil { // judge the plain build: inputs are still guarded
			bin = d.build("explore-plain", d.modfile("plain", d.repo), "./cmd/explore", nil)
			d.addCap("the library's allocations could not be placed: " + clip(err.Error(), 500))
		}
		d.note("%d make calls in %s served from guarded memory", info.makes, strings.Join(info.rewritten, " "))
		d.explore(job{bin: bin, desc: "guarded buffers"})
	}
}
