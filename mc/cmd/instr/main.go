// instr copies /repo's packages to a scratch directory with every synchronisation operation, clock reading
// and map iteration replaced by its counterpart in vmc/mc, so that the copy runs under the controlled scheduler.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/go-ego/riot"

type edit struct {
	pos, end int
	text     string
	kind     int // 0 closing insertion, 1 opening insertion, 2 replacement
	seq      int
	size     int // opening: larger nodes first
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	base  int
	edits []edit
	used  map[string]string // import name -> expression that keeps it used
	mc    bool
}

type pkg struct {
	dir   string
	path  string
	files []*file
	types *types.Package
	info  *types.Info
	busy  bool
}

var (
	fset = token.NewFileSet()
	pkgs = map[string]*pkg{}
)

func main() {
	src, dst := os.Args[1], os.Args[2]
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			n := fi.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || n == "examples" || n == "docs" || n == "testdata" || rel == "data" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		dir := filepath.Dir(rel)
		path := module
		if dir != "." {
			path += "/" + filepath.ToSlash(dir)
		}
		k := pkgs[path]
		if k == nil {
			k = &pkg{dir: dir, path: path}
			pkgs[path] = k
		}
		k.files = append(k.files, &file{path: rel, src: b, ast: a, base: fset.File(a.Pos()).Base(), used: map[string]string{}})
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if err := goMod(src, dst); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		check(pkgs[p])
	}
	for _, p := range paths {
		for _, f := range pkgs[p].files {
			f.rewrite(pkgs[p].info)
			out := filepath.Join(dst, f.path)
			if err := os.MkdirAll(filepath.Dir(out), 0755); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			if err := os.WriteFile(out, f.apply(), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
	}
}

// goMod copies go.mod; generic helpers need go 1.18, and below 1.22 the loop variable semantics stay the same.
func goMod(src, dst string) error {
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return err
	}
	lines := strings.Split(string(b), "\n")
	seen := false
	for i, l := range lines {
		w := strings.Fields(l)
		if len(w) == 2 && w[0] == "go" {
			seen = true
			v := strings.Split(w[1], ".")
			minor := 0
			if len(v) > 1 {
				minor, _ = strconv.Atoi(v[1])
			}
			if v[0] == "1" && minor < 21 {
				lines[i] = "go 1.21"
			}
		}
	}
	if !seen {
		lines = append(lines, "go 1.21")
	}
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dst, "go.mod"), []byte(strings.Join(lines, "\n")), 0644)
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if k, ok := pkgs[path]; ok {
		check(k)
		if k.types != nil {
			return k.types, nil
		}
	}
	name := path[strings.LastIndex(path, "/")+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	return p, nil
}

func check(k *pkg) {
	if k.types != nil || k.busy {
		return
	}
	k.busy = true
	k.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	var fs []*ast.File
	name := ""
	for _, f := range k.files {
		if name == "" {
			name = f.ast.Name.Name
		}
		if f.ast.Name.Name == name {
			fs = append(fs, f.ast)
		}
	}
	conf := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
	k.types, _ = conf.Check(k.path, fset, fs, k.info)
}

func (f *file) off(p token.Pos) int { return int(p) - f.base }

func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func (f *file) open(p token.Pos, s string, size int) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), s, 1, len(f.edits), size})
}
func (f *file) clos(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), s, 0, len(f.edits), 0})
}
func (f *file) repl(p, e token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(e), s, 2, len(f.edits), 0})
}

func size(n ast.Node) int { return int(n.End() - n.Pos()) }

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.kind == 1 && a.size != b.size {
			return a.size > b.size
		}
		return a.seq < b.seq
	})
	var out []byte
	at := 0
	for _, e := range f.edits {
		out = append(out, f.src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, f.src[at:]...)
	var names []string
	for n := range f.used {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, "\nvar _ = "+n+"."+f.used[n]+"\n"...)
	}
	return out
}

// imported package paths by local name
func (f *file) imports() map[string]string {
	m := map[string]string{}
	for _, s := range f.ast.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if s.Name != nil {
			n = s.Name.Name
		}
		m[n] = p
	}
	return m
}

func pure(x ast.Expr) bool {
	switch v := x.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(v.X)
	case *ast.IndexExpr:
		return pure(v.X) && pure(v.Index)
	case *ast.ParenExpr:
		return pure(v.X)
	case *ast.StarExpr:
		return pure(v.X)
	}
	return false
}

func addressable(x ast.Expr) bool {
	switch v := x.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return addressable(v.X)
	case *ast.ParenExpr:
		return addressable(v.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

// timeChan reports the channel of a timer or ticker (the standard library is not type-checked).
func timeChan(x ast.Expr) bool {
	switch v := unparen(x).(type) {
	case *ast.SelectorExpr:
		return v.Sel.Name == "C"
	case *ast.CallExpr:
		s, ok := v.Fun.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		p, ok := s.X.(*ast.Ident)
		return ok && p.Name == "time" && (s.Sel.Name == "Tick" || s.Sel.Name == "After")
	}
	return false
}

func blank(x ast.Expr) bool {
	if x == nil {
		return true
	}
	i, ok := x.(*ast.Ident)
	return ok && i.Name == "_"
}

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

func arrow(x ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(x).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

var moved = map[string]map[string]string{
	"time": {"After": "After", "Sleep": "Sleep", "Now": "Now", "Since": "Since", "Until": "Until", "NewTimer": "NewTimer",
		"NewTicker": "NewTicker", "Tick": "Tick", "AfterFunc": "AfterFunc", "Timer": "Timer", "Ticker": "Ticker"},
	"runtime": {"Gosched": "Gosched"},
	"log":     {"Fatal": "LogFatal", "Fatalln": "LogFatal", "Fatalf": "LogFatalf"},
	"os":      {"Exit": "Exit"},
	"context": {"WithCancel": "WithCancel", "WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline"},
}
var keep = map[string]string{"time": "Second", "runtime": "GOOS", "log": "Println", "os": "Args", "context": "Background"}

func (f *file) rewrite(info *types.Info) {
	imps := f.imports()
	for _, s := range f.ast.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		name := ""
		switch p {
		case "sync":
			name = "vmc/mcsync"
			if s.Name == nil {
				f.repl(s.Path.Pos(), s.Path.End(), `sync "`+name+`"`)
			} else {
				f.repl(s.Path.Pos(), s.Path.End(), `"`+name+`"`)
			}
		case "sync/atomic":
			name = "vmc/mcatomic"
			if s.Name == nil {
				f.repl(s.Path.Pos(), s.Path.End(), `atomic "`+name+`"`)
			} else {
				f.repl(s.Path.Pos(), s.Path.End(), `"`+name+`"`)
			}
		}
	}
	n := 0
	fresh := func(s string) string { n++; return fmt.Sprintf("mc%s%d", s, n) }
	two := map[*ast.UnaryExpr]bool{}
	inSel := map[ast.Node]bool{}
	mc := func(s string) string { f.mc = true; return "vmcMC." + s }
	typeOf := func(x ast.Expr) types.Type {
		if info == nil {
			return nil
		}
		t := info.Types[x].Type
		if t == nil {
			if id, ok := x.(*ast.Ident); ok && info.Uses[id] != nil {
				t = info.Uses[id].Type()
			}
		}
		if t == nil {
			return nil
		}
		return t.Underlying()
	}
	ast.Inspect(f.ast, func(nd ast.Node) bool {
		if nd != nil && inSel[nd] {
			return false
		}
		switch v := nd.(type) {
		case *ast.SelectStmt:
			f.selectStmt(v, fresh, mc, inSel)
		case *ast.AssignStmt:
			if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
				if u := arrow(v.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(v.Names) == 2 && len(v.Values) == 1 {
				if u := arrow(v.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if v.Op == token.ARROW && !inSel[v] {
				fn := "Recv("
				if two[v] {
					fn = "Recv2("
				}
				f.repl(v.Pos(), v.Pos()+2, mc(fn))
				f.clos(v.End(), ")")
			}
		case *ast.SendStmt:
			if !inSel[v] {
				f.open(v.Pos(), mc("Sender("), size(v))
				f.repl(v.Chan.End(), v.Value.Pos(), ")(")
				f.clos(v.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "close" && len(v.Args) == 1 {
				ok := true
				if info != nil && info.Uses[id] != nil {
					_, ok = info.Uses[id].(*types.Builtin)
				}
				if ok {
					f.repl(id.Pos(), id.End(), mc("Close"))
				}
			}
		case *ast.SelectorExpr:
			id, ok := v.X.(*ast.Ident)
			if !ok {
				return true
			}
			path, ok := imps[id.Name]
			if !ok || moved[path] == nil || moved[path][v.Sel.Name] == "" {
				return true
			}
			if info != nil && info.Uses[id] != nil {
				if _, ok := info.Uses[id].(*types.PkgName); !ok {
					return true
				}
			}
			f.repl(v.Pos(), v.End(), mc(moved[path][v.Sel.Name]))
			f.used[id.Name] = keep[path]
		case *ast.GoStmt:
			c := v.Call
			fl, isLit := unparen(c.Fun).(*ast.FuncLit)
			builtin := false
			generic := false
			if id, ok := c.Fun.(*ast.Ident); ok && info != nil {
				_, builtin = info.Uses[id].(*types.Builtin)
			}
			if s, ok := typeOf(c.Fun).(*types.Signature); ok && s.TypeParams().Len() > 0 {
				generic = true
			}
			switch {
			case len(c.Args) == 0 && isLit && fl.Type.Results == nil:
				f.repl(v.Pos(), c.Pos(), mc("Go("))
				f.repl(c.Lparen, c.End(), ")")
			case builtin || generic || c.Ellipsis.IsValid():
				f.repl(v.Pos(), c.Pos(), mc("Go(func() { "))
				f.clos(v.End(), " })")
			default:
				f.repl(v.Pos(), c.Pos(), mc("GoCall("))
				sep := ", "
				if len(c.Args) == 0 {
					sep = ""
				}
				f.repl(c.Lparen, c.Lparen+1, sep)
			}
		case *ast.RangeStmt:
			t := typeOf(v.X)
			if _, basic := t.(*types.Basic); (t == nil || basic) && v.Value == nil && timeChan(v.X) {
				t = types.NewChan(types.RecvOnly, types.Typ[types.Int])
			}
			switch t.(type) {
			case *types.Chan:
				c := fresh("C")
				switch {
				case blank(v.Key):
					f.repl(v.Pos(), v.X.Pos(), "for "+c+" := ")
					f.clos(v.X.End(), "; "+mc("RecvTo(")+c+", nil); ")
				case v.Tok == token.DEFINE && pure(v.X):
					f.repl(v.Pos(), v.X.Pos(), "for "+f.text(v.Key)+", "+c+" := "+mc("ZeroC(")+f.text(v.X)+"), ")
					f.clos(v.X.End(), "; "+mc("RecvTo(")+c+", &"+f.text(v.Key)+"); ")
				case v.Tok == token.DEFINE:
					f.repl(v.Pos(), v.X.Pos(), "for "+c+" := "+mc("NewRange("))
					f.clos(v.X.End(), "); "+c+".Next(); ")
					f.clos(v.Body.Lbrace+1, f.text(v.Key)+" := "+c+".V;")
				case addressable(v.Key):
					f.repl(v.Pos(), v.X.Pos(), "for "+c+" := ")
					f.clos(v.X.End(), "; "+mc("RecvTo(")+c+", &"+f.text(v.Key)+"); ")
				}
			case *types.Map:
				if blank(v.Key) && blank(v.Value) {
					return true
				}
				m := fresh("M")
				ref := func(x ast.Expr) string {
					if blank(x) {
						return "nil"
					}
					return "&" + f.text(x)
				}
				next := "; " + m + ".Next(" + ref(v.Key) + ", " + ref(v.Value) + "); "
				switch {
				case v.Tok == token.DEFINE && pure(v.X):
					l, r := "", ""
					x := f.text(v.X)
					if !blank(v.Key) {
						l += f.text(v.Key) + ", "
						r += mc("ZeroK(") + x + "), "
					}
					if !blank(v.Value) {
						l += f.text(v.Value) + ", "
						r += mc("ZeroV(") + x + "), "
					}
					f.repl(v.Pos(), v.X.Pos(), "for "+l+m+" := "+r+mc("NewMapIter("))
					f.clos(v.X.End(), ")"+next)
				case v.Tok == token.DEFINE:
					f.repl(v.Pos(), v.X.Pos(), "for "+m+" := "+mc("NewMapIter("))
					f.clos(v.X.End(), "); "+m+".More(); ")
					l, r := "", ""
					if !blank(v.Key) {
						l, r = f.text(v.Key), m+".K"
					}
					if !blank(v.Value) {
						if l != "" {
							l, r = l+", ", r+", "
						}
						l, r = l+f.text(v.Value), r+m+".V"
					}
					f.clos(v.Body.Lbrace+1, l+" := "+r+";")
				case (blank(v.Key) || addressable(v.Key)) && (blank(v.Value) || addressable(v.Value)):
					f.repl(v.Pos(), v.X.Pos(), "for "+m+" := "+mc("NewMapIter("))
					f.clos(v.X.End(), ")"+next)
				}
			}
		}
		return true
	})
	if f.mc {
		f.clos(f.ast.Name.End(), "; import vmcMC \"vmc/mc\"")
	}
}

func (f *file) selectStmt(v *ast.SelectStmt, fresh func(string) string, mc func(string) string, inSel map[ast.Node]bool) {
	cl := v.Body.List
	if len(cl) == 0 {
		f.repl(v.Pos(), v.End(), "for { "+mc("Select(false)")+" }")
		return
	}
	hasDef := false
	for _, s := range cl {
		if s.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	var names, inits []string
	// the channel and value expressions move into the header; nested receives in them are rewritten there by text
	idx := 0
	for i, s := range cl {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			continue
		}
		name := fresh("S")
		names = append(names, name)
		label := fmt.Sprintf("case %d:", idx)
		if !hasDef && i == len(cl)-1 {
			label = "default:"
		}
		idx++
		pre := ""
		switch x := c.Comm.(type) {
		case *ast.SendStmt:
			inSel[x] = true
			inits = append(inits, mc("NewSend(")+f.sub(x.Chan, mc)+")("+f.sub(x.Value, mc)+")")
		case *ast.ExprStmt:
			u := arrow(x.X)
			inSel[u] = true
			inits = append(inits, mc("NewRecv(")+f.sub(u.X, mc)+")")
		case *ast.AssignStmt:
			u := arrow(x.Rhs[0])
			inSel[u] = true
			inits = append(inits, mc("NewRecv(")+f.sub(u.X, mc)+")")
			l, r := f.text(x.Lhs[0]), name+".V"
			if len(x.Lhs) == 2 {
				l += ", " + f.text(x.Lhs[1])
				r += ", " + name + ".OK"
			}
			pre = " " + l + " " + x.Tok.String() + " " + r + ";"
		}
		// drop inner edits: the whole clause header is replaced
		ast.Inspect(c.Comm, func(n ast.Node) bool {
			if n != nil {
				inSel[n] = true
			}
			return true
		})
		f.repl(c.Pos(), c.Colon+1, label+pre)
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	head := "switch " + strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; " + mc("Select(") + def + ", " + strings.Join(names, ", ") + ") "
	if len(names) == 0 {
		head = "switch " + mc("Select(true)") + " "
	}
	f.repl(v.Pos(), v.Body.Lbrace, head)
}

// sub renders an expression inside a select header: clocks, and receives at its root, are replaced textually.
func (f *file) sub(x ast.Expr, mc func(string) string) string {
	g := &file{src: f.src, base: f.base, used: f.used}
	imps := f.imports()
	ast.Inspect(x, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := v.X.(*ast.Ident); ok {
				if p := imps[id.Name]; moved[p] != nil && moved[p][v.Sel.Name] != "" {
					g.repl(v.Pos(), v.End(), mc(moved[p][v.Sel.Name]))
					f.used[id.Name] = keep[p]
				}
			}
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				g.repl(v.Pos(), v.Pos()+2, mc("Recv("))
				g.clos(v.End(), ")")
			}
		}
		return true
	})
	sort.SliceStable(g.edits, func(i, j int) bool {
		a, b := g.edits[i], g.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.kind < b.kind
	})
	var out []byte
	at := f.off(x.Pos())
	for _, e := range g.edits {
		out = append(out, f.src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	return string(append(out, f.src[at:f.off(x.End())]...))
}
