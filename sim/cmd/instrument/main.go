// instrument copies the non-test sources of /repo to a scratch directory and rewrites
// the copy so that it runs under the simulator. See DESIGN.md section 1.
//
//	instrument <repo> <outdir>
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/rveen/ogdl"

var shims = map[string]string{
	"os":          "verif.local/sim/shim/os",
	"net":         "verif.local/sim/shim/net",
	"time":        "verif.local/sim/shim/time",
	"context":     "verif.local/sim/shim/context",
	"sync":        "verif.local/sim/shim/sync",
	"sync/atomic": "verif.local/sim/shim/atomic",
	"log":         "verif.local/sim/shim/log",
	"io/ioutil":   "verif.local/sim/shim/ioutil",
	"fmt":         "verif.local/sim/shim/fmt",
	"flag":        "verif.local/sim/shim/flag",
	"math/rand":   "verif.local/sim/shim/rand",
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instrument:"}, a...)...)
	os.Exit(2)
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type file struct {
	path  string
	src   []byte
	af    *ast.File
	edits []edit
	used  map[string]bool
}

func (f *file) ins(off int, s string) { f.edits = append(f.edits, edit{off, off, s, len(f.edits)}) }

// late inserts after everything else that is inserted at the same place.
func (f *file) late(off int, s string) { f.edits = append(f.edits, edit{off, off, s, 1 << 30}) }
func (f *file) rep(off, end int, s string) {
	f.edits = append(f.edits, edit{off, end, s, len(f.edits)})
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	repo, _ = filepath.Abs(repo)
	// find packages
	dirs := map[string]bool{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	exp := exports(repo)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exp[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		bp, err := build.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			fatal(err)
		}
		rel, _ := filepath.Rel(repo, d)
		ipath := module
		if rel != "." {
			ipath += "/" + filepath.ToSlash(rel)
		}
		var files []*file
		var afs []*ast.File
		for _, n := range bp.GoFiles {
			p := filepath.Join(d, n)
			src, err := os.ReadFile(p)
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, p, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			files = append(files, &file{path: filepath.Join(out, rel, n), src: src, af: af, used: map[string]bool{}})
			afs = append(afs, af)
		}
		if len(files) == 0 {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(err error) {}}
		if _, err := conf.Check(ipath, fset, afs, info); err != nil {
			fatal("type check of", ipath, ":", err)
		}
		isMain := bp.Name == "main"
		for _, f := range files {
			in := &inst{f: f, fset: fset, info: info, tf: fset.File(f.af.Pos()), done: map[*ast.UnaryExpr]bool{}, isMain: isMain, pkg: filepath.Base(d)}
			in.file()
			if err := os.MkdirAll(filepath.Dir(f.path), 0755); err != nil {
				fatal(err)
			}
			if err := os.WriteFile(f.path, f.apply(), 0644); err != nil {
				fatal(err)
			}
		}
		// copy other source files that a go:embed may need
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		fatal(err)
	}
	var b bytes.Buffer
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(l, "go ") {
			l = "go 1.21"
		}
		if strings.HasPrefix(l, "toolchain ") {
			continue
		}
		b.WriteString(l + "\n")
	}
	os.WriteFile(filepath.Join(out, "go.mod"), b.Bytes(), 0644)
}

// exports asks the go command for the export data of all dependencies.
func exports(repo string) map[string]string {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export", "./...")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		fatal("go list:", err, eb.String())
	}
	m := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p struct{ ImportPath, Export string }
		if dec.Decode(&p) != nil {
			break
		}
		m[p.ImportPath] = p.Export
	}
	return m
}

func (f *file) apply() []byte {
	es := f.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		// insertions before replacements at the same offset
		ri, rj := es[i].end > es[i].off, es[j].end > es[j].off
		if ri != rj {
			return !ri
		}
		return es[i].seq < es[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.off < pos {
			fatal("overlapping edits in", f.path, e.off, pos, e.text)
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:])
	return b.Bytes()
}

type inst struct {
	f      *file
	fset   *token.FileSet
	info   *types.Info
	tf     *token.File
	isMain bool
	pkg    string
	n      int
	done   map[*ast.UnaryExpr]bool
}

func (in *inst) off(p token.Pos) int { return in.tf.Offset(p) }
func (in *inst) text(n ast.Node) string {
	return string(in.f.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *inst) file() {
	f := in.f
	if in.isMain {
		f.rep(in.off(f.af.Name.Pos()), in.off(f.af.Name.End()), "prog")
	}
	// imports
	for _, im := range f.af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if s, ok := shims[p]; ok {
			name := ""
			if im.Name == nil {
				name = p[strings.LastIndex(p, "/")+1:] + " "
			}
			f.rep(in.off(im.Path.Pos()), in.off(im.Path.End()), name+strconv.Quote(s))
		}
	}
	// the runtime import goes right after the package clause, on the same line
	f.ins(in.off(f.af.Name.End()), "; import __rt \"verif.local/sim/rt\"")
	f.ins(len(f.src), "\nvar _ = __rt.Y\n")
	for _, d := range f.af.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && in.isMain && fd.Recv == nil && fd.Name.Name == "main" {
			f.rep(in.off(fd.Name.Pos()), in.off(fd.Name.End()), "Main")
		}
		in.walk(d)
	}
}

func (in *inst) typ(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := in.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (in *inst) isChan(e ast.Expr) bool {
	t := in.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *inst) isMap(e ast.Expr) bool {
	t := in.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *inst) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		in.f.ins(in.off(s.Pos()), "__rt.Y();")
	}
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	if len(b.List) == 0 {
		in.f.ins(in.off(b.Lbrace)+1, "__rt.Y();")
	}
	in.stmts(b.List)
}

// walk emits the edits for the node and its children.
func (in *inst) walk(n ast.Node) {
	if n == nil {
		return
	}
	f := in.f
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncDecl:
			in.block(x.Body)
		case *ast.FuncLit:
			in.block(x.Body)
		case *ast.IfStmt:
			in.block(x.Body)
			if e, ok := x.Else.(*ast.BlockStmt); ok {
				in.block(e)
			}
		case *ast.ForStmt:
			in.block(x.Body)
		case *ast.BlockStmt:
			// plain nested blocks; those of other statements are handled by their owner
			return true
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.LabeledStmt:
			return true
		case *ast.RangeStmt:
			in.rangeStmt(x)
		case *ast.SelectStmt:
			in.selectStmt(x)
			return false
		case *ast.GoStmt:
			in.goStmt(x)
			return false
		case *ast.ChanType:
			if skipped[x] {
				return true
			}
			f.rep(in.off(x.Pos()), in.off(x.Value.Pos()), "*__rt.Chan[")
			f.ins(in.off(x.Value.End()), "]")
		case *ast.SendStmt:
			f.ins(in.off(x.Chan.Pos()), "(")
			f.rep(in.off(x.Chan.End()), in.off(x.Value.Pos()), ").Send(")
			f.ins(in.off(x.Value.End()), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					in.recv(u, "Recv2")
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					in.recv(u, "Recv2")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !in.done[x] {
				in.recv(x, "Recv")
			}
		case *ast.CallExpr:
			in.call(x)
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// recv turns <-c into (c).Recv().
func (in *inst) recv(u *ast.UnaryExpr, m string) {
	in.done[u] = true
	in.f.rep(in.off(u.Pos()), in.off(u.X.Pos()), "(")
	in.f.ins(in.off(u.X.End()), ")."+m+"()")
}

func (in *inst) call(x *ast.CallExpr) {
	f := in.f
	switch {
	case in.builtin(x.Fun, "make") && len(x.Args) > 0 && in.isChan(x.Args[0]):
		t, ok := x.Args[0].(*ast.ChanType)
		if !ok {
			// named channel type: give up loudly
			fatal("make of a named channel type is not supported")
		}
		f.rep(in.off(x.Fun.Pos()), in.off(t.Value.Pos()), "__rt.MakeChan[")
		// The ChanType edit itself would overlap: mark it as handled.
		in.skipChan(t)
		end := in.off(t.Value.End())
		if len(x.Args) > 1 {
			f.rep(end, in.off(x.Args[1].Pos()), "](int(")
			f.ins(in.off(x.Args[1].End()), ")")
		} else {
			f.rep(end, in.off(x.Rparen), "](")
		}
	case in.builtin(x.Fun, "close"):
		f.rep(in.off(x.Fun.Pos()), in.off(x.Lparen), "")
		f.ins(in.off(x.Rparen)+1, ".Close()")
	case (in.builtin(x.Fun, "len") || in.builtin(x.Fun, "cap")) && len(x.Args) == 1 && in.isChan(x.Args[0]):
		m := ".Len()"
		if in.builtin(x.Fun, "cap") {
			m = ".Cap()"
		}
		f.rep(in.off(x.Fun.Pos()), in.off(x.Lparen), "")
		f.ins(in.off(x.Rparen)+1, m)
	case in.builtin(x.Fun, "println"):
		f.rep(in.off(x.Fun.Pos()), in.off(x.Fun.End()), "__rt.Println")
	case in.builtin(x.Fun, "print"):
		f.rep(in.off(x.Fun.Pos()), in.off(x.Fun.End()), "__rt.Print")
	}
}

func (in *inst) skipChan(t *ast.ChanType) { skipped[t] = true }

var skipped = map[*ast.ChanType]bool{}

func (in *inst) rangeStmt(x *ast.RangeStmt) {
	f := in.f
	in.n++
	id := fmt.Sprintf("__e%d", in.n)
	lb := in.off(x.Body.Lbrace)
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return in.text(e)
	}
	switch {
	case in.isMap(x.X):
		k, v := name(x.Key), name(x.Value)
		// The loop variables are those of the whole loop, as before Go 1.22. The body
		// gets a block of its own.
		head, next := " "+id+", _, _ := ", ""
		if x.Tok == token.DEFINE {
			head = " " + id + ", " + k + ", " + v + " := "
		}
		if x.Key != nil && (k != "_" || v != "_") {
			next = k + ", " + v + " = " + id + ".K(), " + id + ".V();"
		}
		f.rep(in.off(x.For)+3, in.off(x.X.Pos()), head+"__rt.MapLoop(")
		f.ins(in.off(x.X.End()), ");;")
		f.ins(lb+1, "if !"+id+".Next() { break };"+next+"{")
		f.late(in.off(x.Body.Rbrace), "}")
		in.stmts(x.Body.List)
	case in.isChan(x.X):
		k := name(x.Key)
		head, next := " "+id+"c, _ := ", ""
		if x.Tok == token.DEFINE {
			head = " " + id + "c, " + k + " := "
		}
		if k != "_" {
			next = k + " = " + id + ";"
		}
		f.rep(in.off(x.For)+3, in.off(x.X.Pos()), head+"__rt.ChanLoop(")
		f.ins(in.off(x.X.End()), ");;")
		f.ins(lb+1, id+", "+id+"ok := "+id+"c.Recv2(); if !"+id+"ok { break }; _ = "+id+";"+next+"{")
		f.late(in.off(x.Body.Rbrace), "}")
		in.stmts(x.Body.List)
	default:
		in.block(x.Body)
	}
}

func (in *inst) goStmt(x *ast.GoStmt) {
	f := in.f
	c := x.Call
	in.n++
	// go func(...) {...}(args) and go f(args): evaluate function and arguments now.
	if len(c.Args) == 0 {
		f.rep(in.off(x.Go), in.off(c.Fun.Pos()), "__rt.Go(")
		in.walk(c.Fun)
		f.rep(in.off(c.Lparen), in.off(c.Rparen)+1, ")")
		return
	}
	var tmp []string
	for i := range c.Args {
		tmp = append(tmp, fmt.Sprintf("__g%d_%d", in.n, i))
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	fn := fmt.Sprintf("__g%d_f", in.n)
	f.rep(in.off(x.Go), in.off(c.Fun.Pos()), "{ "+fn+" := ")
	in.walk(c.Fun)
	f.rep(in.off(c.Lparen), in.off(c.Args[0].Pos()), "; "+strings.Join(tmp, ", ")+" := ")
	for i, a := range c.Args {
		in.walk(a)
		if tv, ok := in.info.Types[a]; ok && (tv.IsNil() || tv.Value != nil) {
			// untyped constants and nil take the parameter type
			sig, _ := in.typ(c.Fun).Underlying().(*types.Signature)
			if sig != nil {
				j := i
				if j >= sig.Params().Len() {
					j = sig.Params().Len() - 1
				}
				pt := sig.Params().At(j).Type()
				if sl, ok := pt.(*types.Slice); ok && sig.Variadic() && j == sig.Params().Len()-1 && ell == "" {
					pt = sl.Elem()
				}
				ts := types.TypeString(pt, func(p *types.Package) string {
					if p.Path() == module && in.f.af.Name.Name == "ogdl" {
						return ""
					}
					return p.Name()
				})
				f.ins(in.off(a.Pos()), "("+ts+")(")
				f.ins(in.off(a.End()), ")")
			}
		}
	}
	f.rep(in.off(c.Args[len(c.Args)-1].End()), in.off(c.Rparen)+1, "; __rt.Go(func() { "+fn+"("+strings.Join(tmp, ", ")+ell+") }) }")
}

func (in *inst) selectStmt(x *ast.SelectStmt) {
	f := in.f
	def := "false"
	var chans, cases []string
	for _, cl := range x.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			def = "true"
			continue
		}
		in.n++
		id := fmt.Sprintf("__s%d", in.n)
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			chans = append(chans, id+" := "+in.sub(s.Chan)+";")
			cases = append(cases, id+".SendCase("+in.sub(s.Value)+")")
		default:
			u := recvExpr(c.Comm)
			if u == nil {
				fatal("unsupported select case")
			}
			chans = append(chans, id+" := "+in.sub(u.X)+";")
			cases = append(cases, id+".RecvCase()")
		}
		chans[len(chans)-1] += "_ = " + id + ";"
	}
	// { c1 := ..; switch __rt.Select(def, cases...) { case 0: ... } }
	f.rep(in.off(x.Select), in.off(x.Body.Lbrace), "{"+strings.Join(chans, "")+"switch __rt.Select("+def+", "+strings.Join(cases, ", ")+") ")
	i := 0
	for _, cl := range x.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			in.stmts(c.Body)
			for _, s := range c.Body {
				in.walk(s)
			}
			continue
		}
		id := strings.SplitN(chans[i], " ", 2)[0]
		pre := ""
		if a, ok := c.Comm.(*ast.AssignStmt); ok {
			m := ".Val()"
			if len(a.Lhs) == 2 {
				m = ".Val2()"
			}
			var l []string
			for _, e := range a.Lhs {
				l = append(l, in.text(e))
			}
			pre = strings.Join(l, ", ") + " " + a.Tok.String() + " " + id + m + ";"
		}
		f.rep(in.off(c.Case), in.off(c.Colon)+1, fmt.Sprintf("case %d: %s{", i, pre))
		f.late(in.off(c.End()), "}")
		in.stmts(c.Body)
		for _, s := range c.Body {
			in.walk(s)
		}
		i++
	}
	if def == "false" {
		// so that the statement is a terminating one if the select was
		sep := ";"
		if len(x.Body.List) == 0 {
			sep = ""
		}
		f.late(in.off(x.Body.Rbrace), sep+"default: panic(\"select\")")
	}
	f.ins(in.off(x.Body.Rbrace)+1, "}")
}

// sub renders an expression with its own edits applied.
func (in *inst) sub(e ast.Expr) string {
	g := &file{src: in.f.src, path: in.f.path}
	save := in.f
	in.f = g
	in.walk(e)
	in.f = save
	lo, hi := in.off(e.Pos()), in.off(e.End())
	b := &file{src: in.f.src[lo:hi], path: in.f.path}
	for _, ed := range g.edits {
		b.edits = append(b.edits, edit{ed.off - lo, ed.end - lo, ed.text, ed.seq})
	}
	return string(b.apply())
}

func recvExpr(s ast.Stmt) *ast.UnaryExpr {
	var e ast.Expr
	switch s := s.(type) {
	case *ast.ExprStmt:
		e = s.X
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 {
			e = s.Rhs[0]
		}
	}
	u, _ := unparen(e).(*ast.UnaryExpr)
	return u
}
