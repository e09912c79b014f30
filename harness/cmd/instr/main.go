// Command instr writes copies of a package's sources in which every
// synchronisation operation goes through the controlled scheduler, and an
// overlay file for go build.
//
//	instr OUTDIR REPO pkgdir[:stmt|:func] ...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	out, repo := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	for _, a := range os.Args[3:] {
		dir, mode, _ := strings.Cut(a, ":")
		if err := pkg(out, filepath.Join(repo, dir), dir, mode, overlay); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

type noImport struct{ std types.Importer }

func (n noImport) Import(path string) (*types.Package, error) {
	if first, _, _ := strings.Cut(path, "/"); strings.Contains(first, ".") {
		return nil, fmt.Errorf("not needed")
	}
	return n.std.Import(path)
}

type inst struct {
	fset *token.FileSet
	src  []byte
	base int
	info *types.Info
	name string
	mode string
	used bool
	// clock mode: name of package time in the file
	timeName string
	// statements that stand in a list of statements
	listed   map[ast.Stmt]bool
	captured map[*types.Var]bool
	err      error
	tmp      int
}

func pkg(out, dir, rel, mode string, overlay map[string]string) error {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(dir, n)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files, names, srcs[p] = append(files, f), append(names, p), b
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: noImport{importer.ForCompiler(fset, "source", nil)}, Error: func(error) {}}
	conf.Check(rel, fset, files, info)
	captured := capturedVars(files, info)
	for i, f := range files {
		in := &inst{captured: captured, fset: fset, src: srcs[names[i]], info: info, listed: map[ast.Stmt]bool{}, name: filepath.Base(names[i]), mode: mode}
		in.base = int(f.FileStart)
		text := in.file(f)
		if in.err != nil {
			return fmt.Errorf("%s: %v", names[i], in.err)
		}
		o := filepath.Join(out, strings.ReplaceAll(rel, "/", "_")+"_"+filepath.Base(names[i]))
		if err := os.WriteFile(o, []byte(text), 0o644); err != nil {
			return err
		}
		overlay[names[i]] = o
	}
	return nil
}

func (in *inst) raw(from, to token.Pos) string {
	return string(in.src[int(from)-in.base : int(to)-in.base])
}

func (in *inst) where(n ast.Node) string {
	p := in.fset.Position(n.Pos())
	return fmt.Sprintf("%q", fmt.Sprintf("%s:%d", in.name, p.Line))
}

func (in *inst) file(f *ast.File) string {
	body := in.render(f, f.FileStart, f.FileEnd)
	// the instrumentation uses generics whatever the module's language version
	head := ""
	if !strings.Contains(body[:min(len(body), int(f.Package)-in.base)], "//go:build") {
		head = "//go:build go1.23\n\n"
	}
	if in.mode == "clock" {
		body += "\nvar _ = vclock.Now\n"
		if in.timeName != "" {
			body += "\nvar _ " + in.timeName + ".Time\n"
		}
	} else if in.used {
		body = body + "\nvar _ = vsched.Point\n"
	}
	return head + body
}

type site struct {
	from, to token.Pos
	text     string
}

// render returns the text from..to of node with everything below rewritten.
func (in *inst) render(n ast.Node, from, to token.Pos) string {
	var sites []site
	add := func(from, to token.Pos, text string) { sites = append(sites, site{from, to, text}) }
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || in.err != nil {
			return false
		}
		if c != n {
			if t, ok := in.replace(c); ok {
				add(c.Pos(), c.End(), t)
				return false
			}
		}
		switch c := c.(type) {
		case *ast.File:
			in.used = true
			pkg := "vsched"
			if in.mode == "clock" {
				pkg = "vclock"
			}
			add(c.Name.End(), c.Name.End(), "; import \"strip.verif/"+pkg+"\"")
		case *ast.ImportSpec:
			if in.mode == "clock" {
				if c.Path.Value == `"time"` {
					in.timeName = "time"
					if c.Name != nil {
						in.timeName = c.Name.Name
					}
				}
				return false
			}
			switch c.Path.Value {
			case `"sync"`, `"sync/atomic"`:
				name := map[string]string{`"sync"`: "sync", `"sync/atomic"`: "atomic"}[c.Path.Value]
				if c.Name != nil {
					name = c.Name.Name
				}
				add(c.Pos(), c.End(), name+` "strip.verif/v`+map[string]string{`"sync"`: "sync", `"sync/atomic"`: "atomic"}[c.Path.Value]+`"`)
				return false
			}
		case *ast.FuncDecl:
			if c.Body != nil && in.mode == "func" {
				add(c.Body.Lbrace+1, c.Body.Lbrace+1, " vsched.Fine("+in.where(c)+"); ")
			}
		case *ast.ForStmt:
			// so that waiting in a loop lets others run
			if in.mode == "stmt" {
				add(c.Body.Lbrace+1, c.Body.Lbrace+1, " vsched.Point("+in.where(c)+"); ")
			} else if c.Post == nil && in.mode != "clock" {
				add(c.Body.Lbrace+1, c.Body.Lbrace+1, " vsched.Fine("+in.where(c)+"); ")
			}
		case *ast.BlockStmt:
			if in.mode == "stmt" {
				in.points(c.List, add)
			}
		case *ast.CaseClause:
			if in.mode == "stmt" {
				in.points(c.Body, add)
			}
		}
		return true
	})
	sort.SliceStable(sites, func(i, j int) bool {
		if sites[i].from != sites[j].from {
			return sites[i].from < sites[j].from
		}
		return sites[i].to < sites[j].to // insertions first
	})
	var b strings.Builder
	pos := from
	for _, s := range sites {
		if s.from < pos {
			in.err = fmt.Errorf("overlapping edits")
			return ""
		}
		b.WriteString(in.raw(pos, s.from))
		b.WriteString(s.text)
		pos = s.to
	}
	b.WriteString(in.raw(pos, to))
	return b.String()
}

func (in *inst) points(list []ast.Stmt, add func(token.Pos, token.Pos, string)) {
	for _, s := range list {
		in.listed[s] = true
		switch s.(type) {
		case *ast.LabeledStmt, *ast.EmptyStmt:
			continue
		case *ast.CaseClause, *ast.CommClause: // bodies of switch and select
			continue
		case *ast.SendStmt: // a point by itself
			continue
		}
		if in.syncCall(s) || !in.shared(s) {
			continue
		}
		add(s.Pos(), s.Pos(), "vsched.Point("+in.where(s)+"); ")
	}
}

// a statement that is nothing but an operation of package sync, or a
// return of nothing
func (in *inst) syncCall(s ast.Stmt) bool {
	if r, ok := s.(*ast.ReturnStmt); ok {
		return len(r.Results) == 0
	}
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok || len(c.Args) > 1 {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := in.info.Uses[sel.Sel]
	return ok && id.Pkg() != nil && id.Pkg().Path() == "sync"
}

// shared tells whether the statement itself, without the statements in it,
// touches memory that other threads may see: fields, elements, package
// variables, variables captured by function literals.
func (in *inst) shared(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.RangeStmt:
			found = true
		case *ast.Ident:
			o := in.info.Uses[n]
			if o == nil {
				o = in.info.Defs[n]
			}
			if o == nil {
				break
			}
			if v, ok := o.(*types.Var); ok {
				if v.IsField() || v.Pkg() != nil && v.Parent() == v.Pkg().Scope() || in.captured[v] {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func capturedVars(files []*ast.File, info *types.Info) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			l, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(l, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < l.Pos() || v.Pos() >= l.End()) {
						out[v] = true
					}
				}
				return true
			})
			return true
		})
	}
	return out
}

func (in *inst) text(n ast.Node) string {
	if n == nil {
		return ""
	}
	if t, ok := in.replace(n); ok {
		return t
	}
	return in.render(n, n.Pos(), n.End())
}

func (in *inst) isChan(e ast.Expr) bool {
	t := in.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isRecv(e ast.Expr) (ast.Expr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (in *inst) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

// replace rewrites nodes that change as a whole.
func (in *inst) replace(n ast.Node) (string, bool) {
	if in.mode == "clock" {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if p, ok := in.info.Uses[id].(*types.PkgName); ok && p.Imported().Path() == "time" {
					switch s.Sel.Name {
					case "Now", "Since", "Until", "AfterFunc":
						return "vclock." + s.Sel.Name, true
					}
				}
			}
		}
		return "", false
	}
	switch n := n.(type) {
	case *ast.GoStmt:
		return in.goStmt(n), true
	case *ast.SendStmt:
		return "vsched.Send(" + in.text(n.Chan) + ")(" + in.text(n.Value) + ")", true
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return "vsched.Recv(" + in.text(n.X) + ")", true
		}
	case *ast.IncDecStmt:
		// reading and writing shared memory are two steps
		if _, ok := n.X.(*ast.SelectorExpr); ok && in.listed[n] {
			v := in.id()
			l := in.text(n.X)
			return fmt.Sprintf("{ %s := %s; vsched.Point(%s); %s = %s %s 1 }", v, l, in.where(n), l, v, n.Tok.String()[:1]), true
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 1 && in.listed[n] {
			if _, ok := n.Lhs[0].(*ast.SelectorExpr); ok && n.Tok >= token.ADD_ASSIGN && n.Tok <= token.AND_NOT_ASSIGN {
				v := in.id()
				l := in.text(n.Lhs[0])
				return fmt.Sprintf("{ %s := %s; vsched.Point(%s); %s = %s %s (%s) }", v, l, in.where(n), l, v, strings.TrimSuffix(n.Tok.String(), "="), in.text(n.Rhs[0])), true
			}
		}
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if c, ok := isRecv(n.Rhs[0]); ok {
				return in.text(n.Lhs[0]) + ", " + in.text(n.Lhs[1]) + " " + n.Tok.String() + " vsched.Recv2(" + in.text(c) + ")", true
			}
		}
	case *ast.CallExpr:
		if len(n.Args) == 1 {
			if in.builtin(n.Fun, "close") {
				return "vsched.Close(" + in.text(n.Args[0]) + ")", true
			}
			if in.builtin(n.Fun, "len") && in.isChan(n.Args[0]) {
				return "vsched.Len(" + in.text(n.Args[0]) + ")", true
			}
		}
	case *ast.RangeStmt:
		if in.isChan(n.X) {
			head := "for "
			if n.Key != nil {
				head += in.text(n.Key) + " " + n.Tok.String() + " "
			}
			return head + "range vsched.Range(" + in.text(n.X) + ") " + in.text(n.Body), true
		}
	case *ast.SelectStmt:
		return in.selectStmt(n), true
	case *ast.LabeledStmt:
		if _, ok := n.Stmt.(*ast.SelectStmt); ok {
			in.err = fmt.Errorf("labelled select is not supported")
			return "", true
		}
	case *ast.SelectorExpr:
		id, ok := n.X.(*ast.Ident)
		if !ok {
			return "", false
		}
		p, ok := in.info.Uses[id].(*types.PkgName)
		if !ok {
			return "", false
		}
		switch p.Imported().Path() + "." + n.Sel.Name {
		case "runtime.Gosched":
			return "func() func() { _ = runtime.Gosched; return vsched.Gosched }()", true
		case "time.Sleep":
			return "func() func(time.Duration) { return vsched.Sleep }()", true
		case "time.After":
			return "func() func(time.Duration) <-chan time.Time { return vsched.After }()", true
		}
	}
	return "", false
}

func (in *inst) id() string { in.tmp++; return fmt.Sprintf("_v%d", in.tmp) }

func (in *inst) goStmt(n *ast.GoStmt) string {
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		return "vsched.Go(" + in.text(fl) + ")"
	}
	pre := ""
	arg := func(e ast.Expr) string {
		if tv, ok := in.info.Types[e]; ok && (tv.Value != nil || tv.IsNil()) {
			return in.text(e)
		}
		v := in.id()
		pre += v + " := " + in.text(e) + "; "
		return v
	}
	fun := ""
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := in.info.Uses[id].(*types.Builtin); ok {
			fun = id.Name
			if id.Name == "close" {
				fun = "vsched.Close"
			}
		}
	}
	if fun == "" {
		fun = arg(c.Fun)
	}
	var args []string
	for i, a := range c.Args {
		t := arg(a)
		if i == len(c.Args)-1 && c.Ellipsis.IsValid() {
			t += "..."
		}
		args = append(args, t)
	}
	return "{ " + pre + "vsched.Go(func() { " + fun + "(" + strings.Join(args, ", ") + ") }) }"
}

func (in *inst) selectStmt(n *ast.SelectStmt) string {
	pre := ""
	var cases []string
	body := ""
	hasDefault := "false"
	i, v, ok := in.id(), in.id(), in.id()
	k := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		stmts := ""
		for _, st := range cc.Body {
			stmts += "\n" + in.pointText(st) + in.text(st)
		}
		if cc.Comm == nil {
			hasDefault = "true"
			body += "\ncase -1:" + stmts
			continue
		}
		assign := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			ch, val := in.id(), in.id()
			pre += ch + " := vsched.CSend(" + in.text(c.Chan) + ")(" + in.text(c.Value) + "); "
			_ = val
			cases = append(cases, ch)
		case *ast.ExprStmt:
			x, _ := isRecv(c.X)
			ch := in.id()
			pre += ch + " := " + in.text(x) + "; "
			cases = append(cases, "vsched.CRecv("+ch+")")
		case *ast.AssignStmt:
			x, _ := isRecv(c.Rhs[0])
			ch := in.id()
			pre += ch + " := " + in.text(x) + "; "
			cases = append(cases, "vsched.CRecv("+ch+")")
			assign = in.text(c.Lhs[0])
			rhs := "vsched.As(" + ch + ", " + v + ")"
			if len(c.Lhs) == 2 {
				assign += ", " + in.text(c.Lhs[1])
				rhs += ", " + ok
			}
			assign += " " + c.Tok.String() + " " + rhs + "; "
		}
		body += fmt.Sprintf("\ncase %d: %s", k, assign) + stmts
		k++
	}
	args := strings.Join(append([]string{hasDefault}, cases...), ", ")
	return "{ " + pre + "\nswitch " + i + ", " + v + ", " + ok + " := vsched.Select(" + args + "); func() int { _, _ = " + v + ", " + ok + "; return " + i + " }() {" + body + "\n} }"
}

func (in *inst) pointText(s ast.Stmt) string {
	if in.mode != "stmt" {
		return ""
	}
	if _, ok := s.(*ast.LabeledStmt); ok {
		return ""
	}
	return "vsched.Point(" + in.where(s) + "); "
}
