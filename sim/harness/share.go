package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"

	"verif.local/sim/rt"
)

// V is a node of a typed graph.
type V struct {
	T string `json:"t,omitempty"` // "" string, b []byte, i int64, j int, f float64, t bool, z nil, n other number, F function, R remote function, O object
	S Str    `json:"s,omitempty"`
	I int64  `json:"i,omitempty"`
	K []*V   `json:"k,omitempty"`
}

// Obj is an immutable Go object that templates can call methods of.
type Obj struct {
	N  string
	in *scope
}

// A scope is where an object belongs: the part of a run, and possibly the task, that
// made it. Nothing else was ever given the object, so nothing else may call it.
type scope struct {
	w    *rt.World
	task *rt.Task // nil: any task
	dead bool
}

// use is called by all methods.
func (o *Obj) use() {
	if o.in == nil {
		return
	}
	w := rt.W
	if w != o.in.w || o.in.dead || o.in.task != nil && o.in.task != w.Cur() {
		w.Fail("foreign-object", "a method was called on object %q, which belongs to other work than the caller's", o.N)
	}
}

func (o *Obj) String() string                 { return "&{" + o.N + "}" } // as fmt shows it, without the scope
func (o *Obj) Name() string                   { o.use(); return o.N }
func (o *Obj) Join(a, b string) string        { o.use(); return a + "+" + o.N + "+" + b }
func (o *Obj) Sum(a, b int64) int64           { o.use(); return a + b }
func (o *Obj) Half(a float64) float64         { o.use(); return a / 2 }
func (o *Obj) Kids(g *ogdl.Graph) int64       { o.use(); return int64(g.Len()) }
func (o *Obj) Echo(g *ogdl.Graph) *ogdl.Graph { o.use(); return g }
func (o *Obj) Flag(b bool) bool               { o.use(); return !b }
func (o *Obj) All(xs []string) string         { o.use(); return strings.Join(xs, "|") }
func (o *Obj) Nth(i int) int64                { o.use(); return int64(i) + 1 }
func (o *Obj) Nothing()                       { o.use() }
func (o *Obj) Pair(a, b string) *ogdl.Graph {
	o.use()
	g := ogdl.New("pair")
	g.Add(a).Add(b)
	return g
}

// own makes a graph's objects belong to a scope.
func own(g *ogdl.Graph, in *scope) {
	if g == nil {
		return
	}
	if o, ok := g.This.(*Obj); ok {
		o.in = in
	}
	for _, k := range g.Out {
		own(k, in)
	}
}

func fnUp(s string) string      { return strings.ToUpper(s) }
func fnSum(a, b int64) int64    { return a + b }
func fnHalf(f float64) float64  { return f / 2 }
func fnNot(b bool) bool         { return !b }
func fnList(xs []string) string { return strings.Join(xs, "/") }
func fnMk(s string) *ogdl.Graph { g := ogdl.New("mk"); g.Add(s).Add(s + "!"); return g }
func fnRemote(g *ogdl.Graph) (*ogdl.Graph, error) {
	r := ogdl.New("answer")
	r.Add(g.GetAt(0).ThisString()).Add(int64(g.GetAt(0).Len()))
	return r, nil
}
func fnEchoR(g *ogdl.Graph) (*ogdl.Graph, error) { return g, nil }

func (v *V) value() interface{} {
	switch v.T {
	case "b":
		return []byte(v.S)
	case "i":
		return v.I
	case "j":
		return int(v.I)
	case "f":
		return float64(v.I) / 4
	case "t":
		return v.I%2 != 0
	case "z":
		return nil
	case "n":
		n := v.I
		return []interface{}{float32(n) / 4, int8(n), int16(n), int32(n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n)}[uint64(n)%9]
	case "F":
		return []interface{}{fnUp, fnSum, fnMk, fnHalf, fnNot, fnList}[uint64(v.I)%6]
	case "R":
		return []interface{}{fnRemote, fnEchoR}[int(v.I)%2]
	case "O":
		return &Obj{N: string(v.S)}
	}
	return string(v.S)
}

// build makes a fresh graph.
func (v *V) build() *ogdl.Graph {
	if v == nil {
		return nil
	}
	g := &ogdl.Graph{This: v.value()}
	for _, k := range v.K {
		if k != nil {
			g.Out = append(g.Out, k.build())
		}
	}
	return g
}

// fmtG renders a graph with its types.
func fmtG(g *ogdl.Graph, b *strings.Builder, depth int) {
	if g == nil {
		b.WriteString("nil")
		return
	}
	if depth > 60 || b.Len() > 1<<16 {
		b.WriteString("...")
		return
	}
	fmtV(g.This, b, depth)
	if len(g.Out) > 0 {
		b.WriteByte('(')
		for i, k := range g.Out {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmtG(k, b, depth+1)
		}
		b.WriteByte(')')
	}
}

func fmtV(x interface{}, b *strings.Builder, depth int) {
	switch x := x.(type) {
	case nil:
		b.WriteString("-")
	case string:
		fmt.Fprintf(b, "%q", x)
	case []byte:
		fmt.Fprintf(b, "b%q", x)
	case int64:
		fmt.Fprintf(b, "%d", x)
	case float64:
		if math.IsNaN(x) {
			b.WriteString("NaN")
		} else {
			fmt.Fprintf(b, "f%v", x)
		}
	case *ogdl.Graph:
		b.WriteString("*")
		fmtG(x, b, depth+1)
	case *Obj:
		b.WriteString("obj:" + x.N)
	case func(string) string, func(int64, int64) int64, func(string) *ogdl.Graph, func(*ogdl.Graph) (*ogdl.Graph, error):
		fmt.Fprintf(b, "%T", x)
	case error:
		s := x.Error()
		fmt.Fprintf(b, "error:%q", s)
	default:
		fmt.Fprintf(b, "%T:%v", x, x)
	}
}

func out(xs ...interface{}) string {
	var b strings.Builder
	for i, x := range xs {
		if i > 0 {
			b.WriteByte(';')
		}
		fmtV(x, &b, 0)
	}
	return b.String()
}

// freshOf, in a process made for it, is the number of the program to run alone.
var freshOf = -1

// freshOut is what that program gave.
var freshOut []string

// inFresh tells what program i of a plan gives when a new process runs it and nothing else,
// so that nothing that other calls may have left behind in this process takes part.
func inFresh(w *rt.World, id string, p Plan, i int) []string {
	f, err := os.CreateTemp("", "vfresh")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	ex, _ := os.Executable()
	c := exec.Command(ex, "fresh", "-prop", id, "-run", fmt.Sprint(i), "-verif", *fVerif, "-in", f.Name())
	c.Env = os.Environ()
	if err := os.WriteFile(f.Name(), planJSON(p), 0600); err != nil {
		panic(err)
	}
	if c.Stdout, err = os.OpenFile(f.Name(), os.O_APPEND|os.O_WRONLY, 0); err != nil {
		panic(err)
	}
	defer c.Stdout.(*os.File).Close()
	if err := c.Run(); err != nil {
		return nil // the process died: decided elsewhere
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	var r []Str
	if j := strings.LastIndexByte(string(b), '\n'); j < 0 || json.Unmarshal(b[j:], &r) != nil {
		return nil
	}
	w.Count("fresh processes")
	res := []string{}
	for _, s := range r {
		res = append(res, string(s))
	}
	return res
}

func checkFresh(w *rt.World, id string, p Plan, n int, alone [][]string) {
	if n < 1 || n > len(alone) || freshOf >= 0 {
		return
	}
	f := inFresh(w, id, p, n-1)
	if f == nil {
		return
	}
	for k, s := range alone[n-1] {
		if k >= len(f) || f[k] != s {
			t := "nothing"
			if k < len(f) {
				t = f[k]
			}
			w.Fail("history", "program %d, step %d gives %s; in a process that has done nothing else it gives %s", n-1, k, short(s), short(t))
		}
	}
}

// fresh is the process's main.
func fresh() {
	freshOf = *fRun
	b, err := os.ReadFile(*fIn)
	if err != nil {
		die(err)
	}
	p := prop()
	plan := p.New()
	if err := json.Unmarshal(b, plan); err != nil {
		die(err)
	}
	r := execute(p, plan, 1, rt.Tape{}, false)
	if r.Viol != nil {
		os.Exit(3)
	}
	o := []Str{}
	for _, s := range freshOut {
		o = append(o, Str(s))
	}
	j, _ := json.Marshal(o)
	os.Stdout.Write(append([]byte("\n"), j...))
}

// pickFresh decides which program of a plan is also run in a process of its own, if any.
func pickFresh(r *rt.Rand, n int) int {
	if r.Intn(freshEvery) != 0 {
		return 0
	}
	return 1 + r.Intn(n)
}

const freshEvery = 8

// guard renders what a call gives, panics included (whether calls panic is not what
// these checks decide; that they do so alone and together is).
func guard(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic: " + fmt.Sprint(r)
		}
	}()
	return f()
}

var shNames = []string{"a", "b", "c", "d", "list", "x", "n", "k1", "_"}

func shName(r *rt.Rand) string {
	if r.Intn(12) == 0 {
		return []string{"a b", "é", "q'q", "5", "Name", "!a"}[r.Intn(6)]
	}
	return shNames[r.Intn(len(shNames))]
}

func genLeaf(r *rt.Rand) *V {
	switch r.Intn(15) {
	case 6:
		return &V{T: "n", I: int64(r.Intn(200))}
	case 0:
		return &V{T: "i", I: int64(r.Intn(50))}
	case 1:
		return &V{T: "f", I: int64(r.Intn(200))}
	case 2:
		return &V{T: "t", I: int64(r.Intn(2))}
	case 3:
		return &V{T: "b", S: Str([]string{"bytes", "7", "true", "", "\x00\x01\x02"}[r.Intn(5)])}
	case 4:
		return &V{T: "j", I: int64(r.Intn(50))}
	case 5:
		if r.Intn(4) == 0 {
			return &V{T: "z"}
		}
		return &V{S: "line one\nline two"}
	}
	return &V{S: Str([]string{"0", "1", "2", "3.5", "-4", "true", "false", "text", "two words", "it's", "say \"hi\"", "", "a", "b", "tab\there", "ünï", "(x,y)", "1234567", "00120", "-98765.5", "a longer text of many words", "\"quoted\"", "\"", "'", "cr\r\nlf", "x\ry", "\\", "back\\slash", "#no", "1e3", "TRUE", "`"}[r.Intn(32)])}
}

func genV(r *rt.Rand, depth, wide int) *V {
	if depth <= 0 || r.Intn(5) == 0 {
		return genLeaf(r)
	}
	v := &V{S: Str(shName(r))}
	if r.Intn(10) == 0 {
		v = genLeaf(r)
	}
	n := 1 + r.Intn(wide)
	if r.Intn(3) > 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		v.K = append(v.K, genV(r, depth-1, wide))
	}
	return v
}

// genCtx is a graph to be used as context.
func genCtx(r *rt.Rand) *V {
	v := &V{S: "_"}
	if r.Intn(4) == 0 {
		v = genLeaf(r)
		v.T, v.I = "", 0
	}
	for n := 2 + r.Intn(7); n > 0; n-- {
		k := genV(r, 3, 4)
		if len(k.K) == 0 {
			k = &V{S: Str(shName(r)), K: []*V{k}}
		}
		v.K = append(v.K, k)
	}
	if r.Intn(2) == 0 {
		l := &V{S: "list"}
		for n := r.Intn(5); n > 0; n-- {
			l.K = append(l.K, genV(r, 1+r.Intn(2), 3))
		}
		v.K = append(v.K, l)
	}
	if r.Intn(2) == 0 {
		v.K = append(v.K, &V{S: "up", K: []*V{{T: "F"}}}, &V{S: "sum", K: []*V{{T: "F", I: 1}}}, &V{S: "mk", K: []*V{{T: "F", I: 2}}},
			&V{S: "half", K: []*V{{T: "F", I: 3}}}, &V{S: "not", K: []*V{{T: "F", I: 4}}}, &V{S: "all", K: []*V{{T: "F", I: 5}}},
			&V{S: "rem", K: []*V{{T: "R"}}}, &V{S: "echo", K: []*V{{T: "R", I: 1}}}, &V{S: "obj", K: []*V{{T: "O", S: Str([]string{"o", "p", "thing", "é"}[r.Intn(4)])}}})
	}
	for i := len(v.K) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		v.K[i], v.K[j] = v.K[j], v.K[i]
	}
	return v
}

// ---- expression and template text ----

type tgen struct {
	r      *rt.Rand
	assign bool // assignments and loops
	n      int
	vars   []string
}

func (t *tgen) pick(a ...string) string { return a[t.r.Intn(len(a))] }

func (t *tgen) path(depth int) string {
	r := t.r
	if r.Intn(9) == 0 {
		return t.call(depth)
	}
	s := t.pick(shNames[:8]...)
	if len(t.vars) > 0 && r.Intn(3) == 0 {
		s = t.vars[r.Intn(len(t.vars))]
	}
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(12) {
		case 0, 1:
			s += "[" + t.pick("0", "1", "2", "0", "n", "a.b", "1+1") + "]"
		case 2:
			s += "{" + t.pick("", "0", "1") + "}"
		case 3:
			s += "." + t.pick("_len", "_this", "_string", "_thisString", "_json")
			return s
		case 4:
			if depth > 0 {
				s += ".(" + t.expr(depth-1) + ")"
			}
		case 5:
			s += ".'" + t.pick("a b", "x", "5") + "'"
		case 6:
			s += "." + t.pick("0", "1", "2", "5")
		default:
			s += "." + t.pick(shNames[:8]...)
		}
	}
	return s
}

func (t *tgen) call(depth int) string {
	e := func() string {
		if depth <= 0 {
			return t.pick("'s'", "1", "a", "a.b")
		}
		return t.expr(depth - 1)
	}
	switch t.r.Intn(14) {
	case 8:
		return "obj.Flag(" + t.pick("true", "'false'", "a", "1>2", e()) + ")"
	case 9:
		return "obj." + t.pick("Nth", "Half", "All", "Nothing", "Name", "None") + "(" + t.pick("1", "2.5", "'3.5'", "list", "a", e()) + ")"
	case 10:
		return "half(" + t.pick("2.5", "1", "a") + ")"
	case 11:
		return t.pick("not(true)", "not(1==1)", "all(list)", "not(a)")
	case 0:
		return "up(" + e() + ")"
	case 1:
		return "sum(" + t.pick("1", "n", "list[0]") + "," + e() + ")"
	case 2:
		return "mk('" + t.pick("p", "q") + "')"
	case 3:
		return "rem." + t.pick("f", "g") + "(" + e() + ")"
	case 4:
		return "obj.Join(" + e() + ", " + e() + ")"
	case 5:
		return "obj.Sum(" + e() + "," + e() + ")"
	case 6:
		return "obj." + t.pick("Kids", "Echo") + "(" + t.pick("list", "a", "b.c", "[1]", "'s'") + ")"
	case 7:
		return "obj.Pair('u','v')" + t.pick("", ".u")
	}
	return "echo.h(" + t.pick("a", "'k'", "[1]", "list") + ")" + t.pick("", ".h", ".h[0]")
}

func (t *tgen) atom(depth int) string {
	switch t.r.Intn(9) {
	case 0, 1:
		return t.pick("0", "1", "2", "7", "-3", "2.5", "10")
	case 2:
		return t.pick("'s'", "\"two words\"", "'5'", "'true'", "''")
	case 3:
		return t.pick("true", "false")
	case 4:
		if depth > 0 {
			return "(" + t.expr(depth-1) + ")"
		}
	case 5:
		if t.r.Intn(3) == 0 {
			return t.pick("[1]", "{2}", "[a]", "[1].b", "{'z'}")
		}
	}
	return t.path(depth)
}

func (t *tgen) expr(depth int) string {
	s := t.atom(depth)
	if t.r.Intn(10) == 0 {
		return "!" + t.pick("true", "false", t.path(0))
	}
	for n := t.r.Intn(3); n > 0; n-- {
		s += t.pick(" ", "") + t.pick("+", "-", "*", "/", "%", "==", "!=", "<", ">", ">=", "<=", "&&", "||", "+", "==") + t.pick(" ", "") + t.atom(depth)
	}
	return s
}

func (t *tgen) assignment() string {
	r := t.r
	op := t.pick("=", "=", "=", "+=", "-=", "*=", "/=", "%=")
	if r.Intn(2) == 0 || len(t.vars) == 0 {
		// A new variable may take any value.
		t.n++
		v := fmt.Sprintf("v%d", t.n)
		e := t.expr(1)
		if r.Intn(3) == 0 {
			e = t.pick("[1]", "{2}", "['p']", "[1+2]", "list", "a", "mk('s')", "echo.h([1])", "(1+2)", "[a.b]")
		}
		t.vars = append(t.vars, v)
		return "$(" + v + t.pick(" = ", "=") + e + ")"
	}
	// Below existing ones only scalars are put, so that no cycles arise.
	s := t.vars[r.Intn(len(t.vars))]
	if r.Intn(3) == 0 {
		s = t.pick(shNames[:8]...)
	}
	for n := r.Intn(3); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			s += "[" + t.pick("0", "1", "2") + "]"
			n = 1
		case 1:
			s += "." + t.pick("1", "2", "3", "h", "_")
		default:
			s += "." + t.pick(shNames[:8]...)
		}
	}
	return "$(" + s + op + t.pick("1", "'w'", "2.5", "1+2", "'a'+'b'", "true", "n+1", "up('w')", "[3]", "_none") + ")"
}

func (t *tgen) tmpl(depth, n int, loop bool) string {
	var b strings.Builder
	for ; n > 0; n-- {
		switch k := t.r.Intn(10); {
		case k < 2:
			b.WriteString(t.pick("text ", "<p>x</p>", "line\n", " and ", "é", "5 $\\ "))
		case k < 4:
			if t.r.Intn(3) == 0 {
				b.WriteString("${" + t.path(1) + "}")
			} else {
				b.WriteString("$" + t.path(1) + " ")
			}
		case k == 4 && depth > 0:
			b.WriteString("$if(" + t.expr(2) + ")" + t.tmpl(depth-1, 1+t.r.Intn(3), loop))
			if t.r.Intn(3) == 0 {
				b.WriteString("$elseif(" + t.expr(1) + ")" + t.tmpl(depth-1, 1+t.r.Intn(2), loop))
			}
			if t.r.Intn(2) == 0 {
				b.WriteString("$else" + t.pick(" ", "\n") + t.tmpl(depth-1, 1+t.r.Intn(2), loop))
			}
			b.WriteString("$end" + t.pick(" ", "\n"))
		case k == 5 && t.assign && depth > 0:
			v := t.pick("it", "e", "x")
			over := t.pick("list", "list", "a", "b.c", "a{}", "list[0]", "mk('s')", "echo.h([1])", "x", "[1]", "rem.f(1,2)")
			b.WriteString("$for(" + v + "," + over + ")")
			save := t.vars
			t.vars = append(append([]string(nil), t.vars...), v)
			b.WriteString(t.pick("$"+v+" ", "$"+v+".a ", "-") + t.tmpl(depth-1, 1+t.r.Intn(3), true))
			t.vars = save
			b.WriteString("$end" + t.pick(" ", "\n"))
		case k == 6 && loop:
			b.WriteString(t.pick("$break ", "$if("+t.expr(1)+")$break $end "))
		case k == 7 && t.assign:
			b.WriteString(t.assignment())
		case k == 8 && !t.assign:
			b.WriteString("$(" + t.expr(1) + ")")
		default:
			b.WriteString("$" + t.path(1) + t.pick(" ", "\n", ","))
		}
	}
	return b.String()
}

// ---- C18: shared graphs ----

// ROp is a read operation.
type ROp struct {
	Op  string `json:"op"`
	G   int    `json:"g,omitempty"`
	H   int    `json:"h,omitempty"`
	Sub []int  `json:"sub,omitempty"`
	A   Str    `json:"a,omitempty"`
}

type sharePlan struct {
	Common
	Fresh  int      `json:"fresh,omitempty"` // number (from 1) of the program that a fresh process runs as well
	Graphs []*V     `json:"graphs"`
	Tasks  [][]*ROp `json:"tasks"`
	Late   bool     `json:"late,omitempty"` // the runs alone come afterwards
	Parse  bool     `json:"parse,omitempty"`
	Noise  *Noise   `json:"noise,omitempty"` // goes on in the middle of the first program
}

var readOps = []string{"text", "show", "html", "json", "binary", "len", "type", "equals", "node", "getat", "get", "gets", "getn", "find", "typed", "typed0", "typed2",
	"strings", "clone", "copy", "addnodes", "check", "eval", "evalpath", "process", "walk", "json", "process", "eval", "get"}

func sub(g *ogdl.Graph, path []int) *ogdl.Graph {
	for _, i := range path {
		if g == nil || len(g.Out) == 0 {
			return g
		}
		if n := g.Out[i%len(g.Out)]; n != nil {
			g = n
		}
	}
	return g
}

// scratch changes everything in a graph that is the caller's own.
func scratch(g *ogdl.Graph, depth int) {
	if g == nil || depth > 50 {
		return
	}
	for _, n := range g.Out {
		scratch(n, depth+1)
	}
	g.This = "scratched"
	g.Add("new").Add("node")
	g.Delete("a")
	g.Sort("x")
}

func (o *ROp) do(gs []*ogdl.Graph) string {
	g := sub(gs[o.G%len(gs)], o.Sub)
	h := gs[o.H%len(gs)]
	a := string(o.A)
	switch o.Op {
	case "text":
		return out(g.Text())
	case "show":
		return out(g.Show())
	case "html":
		return out(g.Html(a))
	case "json":
		r := g.JSON()
		defer hold(rt.W, "JSON", r)
		return out(r)
	case "binary":
		r := g.Binary()
		defer hold(rt.W, "Binary", r)
		return out(r)
	case "len":
		return out(g.Len())
	case "type":
		return out(g.ThisType(), g.ThisValue().Kind().String(), g.Value().Kind().String())
	case "equals":
		return out(g.Equals(h), h.Equals(g), g.Equals(g))
	case "node":
		return out(g.Node(a))
	case "getat":
		return out(g.GetAt(len(a)), g.GetAt(0), g.GetAt(-1))
	case "get":
		return out(g.Get(a))
	case "gets":
		s, e := g.GetString(a)
		b, f := g.GetBytes(a)
		return out(s, e, b, f)
	case "getn":
		i, e1 := g.GetInt64(a)
		f, e2 := g.GetFloat64(a)
		b, e3 := g.GetBool(a)
		return out(i, e1, f, e2, b, e3)
	case "find":
		r, e := g.Find(a)
		s := out(r, e)
		if r != nil {
			r.Add("mine")
			r.This = "mine"
		}
		return s
	case "typed":
		return out(g.Int64(3), g.Float64(1.5), g.Bool(true), g.String("d"), g.Bytes(), g.Number(), g.Scalar(), g.Interface())
	case "typed0":
		return out(g.Int64(), g.Float64(), g.Bool(), g.String(), g.Get(a).Int64(), g.Get(a).String(), g.Get(a).Float64(2))
	case "typed2":
		i, b1 := g.ThisInt64()
		f, b2 := g.ThisFloat64()
		return out(i, b1, f, b2, g.ThisString("d"), g.ThisBytes(), g.ThisNumber(), g.ThisScalar())
	case "strings":
		return out(fmt.Sprint(g.Strings()), g.StringTxt(), g.Len() > 0 && g.StringCSV() != "")
	case "clone":
		c := g.Clone()
		s := out(c)
		scratch(c, 0)
		return s
	case "copy":
		c := ogdl.New("copy")
		c.Copy(g)
		s := out(c)
		scratch(c, 0)
		return s
	case "addnodes":
		// The list of nodes is the caller's, the nodes are not
		c := ogdl.New("own")
		c.AddNodes(g)
		if len(a) > 1 {
			c.AddNodes(h)
		}
		c.Add("mine")
		s := out(c)
		c.DeleteAt(0)
		if c.Len() > 1 {
			c.Sort("a")
			c.Out[0] = ogdl.New("first")
		}
		return s
	case "check":
		ok, why := h.Check(g)
		ok2, why2 := g.Check(g)
		return out(ok, why, ok2, why2)
	case "eval":
		v, err := g.Eval(ogdl.NewExpression(a))
		return out(v, err)
	case "evalpath":
		v, err := g.Eval(ogdl.NewPath(a))
		return out(v, err)
	case "process":
		r := ogdl.NewTemplate(a).Process(g)
		defer hold(rt.W, "Process", r)
		return out(r)
	case "walk":
		var b strings.Builder
		var f func(g *ogdl.Graph, d int)
		f = func(g *ogdl.Graph, d int) {
			if d > 20 {
				return
			}
			b.WriteString(g.ThisString() + " ")
			for i := 0; i < g.Len(); i++ {
				f(g.GetAt(i), d+1)
			}
		}
		f(g, 0)
		return b.String()
	}
	return ""
}

func schemaOf(r *rt.Rand, v *V) *V {
	c := &V{S: v.S}
	if len(v.K) == 0 || r.Intn(8) == 0 {
		c.S = Str([]string{"!int", "!float", "!bool", "!string", "!binary", "!string"}[r.Intn(6)])
	}
	for _, k := range v.K {
		c.K = append(c.K, schemaOf(r, k))
	}
	return c
}

func genC18(r *rt.Rand, run int) Plan {
	p := &sharePlan{Late: r.Intn(2) == 0, Parse: r.Intn(4) == 0}
	p.MeanGap = []int{1, 2, 5, 20, 100}[r.Intn(5)]
	for n := 1 + r.Intn(2); n > 0; n-- {
		p.Graphs = append(p.Graphs, genCtx(r))
	}
	if r.Intn(2) == 0 {
		p.Graphs = append(p.Graphs, schemaOf(r, p.Graphs[0]))
	}
	t := &tgen{r: r}
	for n := 2 + r.Intn(3); n > 0; n-- {
		var ops []*ROp
		for k := 1 + r.Intn(8); k > 0; k-- {
			o := &ROp{Op: readOps[r.Intn(len(readOps))], G: r.Intn(len(p.Graphs)), H: r.Intn(len(p.Graphs))}
			for d := r.Intn(3) * r.Intn(2); d > 0; d-- {
				o.Sub = append(o.Sub, r.Intn(6))
			}
			switch o.Op {
			case "get", "gets", "getn", "evalpath", "typed0":
				o.A = Str(t.path(1))
				if r.Intn(15) == 0 {
					o.A = ""
				}
			case "eval":
				o.A = Str(t.expr(2))
			case "process":
				o.A = Str(t.tmpl(2, 1+r.Intn(5), false))
			case "find":
				o.A = Str([]string{"a|b", "^.$", ".*", "[0-9]+", "l"}[r.Intn(5)])
			default:
				o.A = Str(shName(r))
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.Intn(3) == 0 {
		// everybody does the same
		for i := range p.Tasks {
			p.Tasks[i] = p.Tasks[0]
		}
	}
	p.Fresh = pickFresh(r, len(p.Tasks))
	if r.Intn(noisy) == 0 {
		p.Noise = genNoise(r)
		p.MeanGap = 1000
		if len(p.Tasks[0]) < 6 {
			p.Tasks[0] = append(p.Tasks[0], p.Tasks[0]...)
		}
	}
	return p
}

func (p *sharePlan) make() []*ogdl.Graph {
	var gs []*ogdl.Graph
	for _, v := range p.Graphs {
		if v == nil {
			continue
		}
		g := v.build()
		if p.Parse {
			g = ogdl.FromBinary(g.Binary())
			if g == nil {
				g = v.build()
			}
		}
		gs = append(gs, g)
	}
	if len(gs) == 0 {
		gs = append(gs, ogdl.New("_"))
	}
	return gs
}

func (p *sharePlan) Run(w *rt.World, e *Env) {
	alone := make([][]string, len(p.Tasks))
	solo := func() {
		for i, ops := range p.Tasks {
			gs := p.make()
			for _, o := range ops {
				if o == nil {
					continue
				}
				alone[i] = append(alone[i], guard(func() string { return o.do(gs) }))
			}
		}
	}
	if freshOf >= 0 {
		for i := range p.Tasks {
			if i != freshOf {
				p.Tasks[i] = nil
			}
		}
		solo()
		freshOut = alone[freshOf]
		return
	}
	if !p.Late {
		solo()
	}
	gs := p.make()
	pristine := p.make()
	got := make([][]string, len(p.Tasks))
	node := w.NewNode("process")
	var ts []*rt.Task
	for i, ops := range p.Tasks {
		i, ops := i, ops
		ts = append(ts, w.Spawn(node, "reader", func() {
			for k, o := range ops {
				if i == 0 && k == len(ops)/2 && p.Noise != nil {
					e.Hit("noise")
					p.Noise.make(w)
				}
				if o == nil {
					continue
				}
				e.Ops++
				w.Count("op." + o.Op)
				got[i] = append(got[i], guard(func() string { return o.do(gs) }))
			}
		}))
	}
	for _, t := range ts {
		w.Join(t, 0)
	}
	for i := range gs {
		if d := sameGraph(gs[i], pristine[i]); d != "" {
			w.Fail("modified", "graph %d is not what it was before it was read: %s", i, d)
		}
		if a, b := out(gs[i]), out(pristine[i]); a != b {
			w.Fail("modified", "graph %d was %s and after having been read is %s", i, short(b), short(a))
		}
	}
	if p.Late {
		solo()
	}
	for i, ops := range p.Tasks {
		k := 0
		for _, o := range ops {
			if o == nil {
				continue
			}
			if got[i][k] != alone[i][k] {
				w.Fail("result:"+o.Op, "task %d: %s(%s) on graph %d gives %s; alone it gives %s", i, o.Op, show(string(o.A)), o.G, short(got[i][k]), short(alone[i][k]))
			}
			k++
		}
	}
	checkFresh(w, "C18", p, p.Fresh, alone)
}

// ---- C19: shared templates, paths and expressions ----

// Shared is a compiled object.
type Shared struct {
	Kind string `json:"kind"` // t, p, e
	Text Str    `json:"text"`
}

func (s *Shared) compile() *ogdl.Graph {
	switch s.Kind {
	case "p":
		return ogdl.NewPath(string(s.Text))
	case "e":
		return ogdl.NewExpression(string(s.Text))
	case "b":
		own := []byte(s.Text)
		defer scribble(own)
		return ogdl.NewTemplateFromBytes(own)
	}
	return ogdl.NewTemplate(string(s.Text))
}

func (s *Shared) use(c, ctx *ogdl.Graph) string {
	switch s.Kind {
	case "p", "e":
		v, err := ctx.Eval(c)
		return out(v, err)
	}
	r := c.Process(ctx)
	defer hold(rt.W, "Process", r)
	return out(r)
}

type tmplTask struct {
	Ctx  *V    `json:"ctx"`
	Uses []int `json:"uses"`
}

type tmplPlan struct {
	Common
	Fresh int         `json:"fresh,omitempty"` // number (from 1) of the program that a fresh process runs as well
	Objs  []*Shared   `json:"objs"`
	Tasks []*tmplTask `json:"tasks"`
	Late  bool        `json:"late,omitempty"`
	Noise *Noise      `json:"noise,omitempty"` // goes on between the uses of the first task
}

func genC19(r *rt.Rand, run int) Plan {
	p := &tmplPlan{Late: r.Intn(2) == 0}
	p.MeanGap = []int{1, 2, 5, 20, 100}[r.Intn(5)]
	for n := 1 + r.Intn(3); n > 0; n-- {
		t := &tgen{r: r, assign: true}
		s := &Shared{}
		switch r.Intn(6) {
		case 0:
			s.Kind, s.Text = "p", Str(t.path(2))
		case 1:
			s.Kind, s.Text = "e", Str(t.expr(3))
			if r.Intn(3) == 0 {
				a := t.assignment()
				s.Text = Str(a[2 : len(a)-1])
			}
		case 2:
			s.Kind, s.Text = "b", Str(t.tmpl(3, 2+r.Intn(8), false))
		default:
			s.Kind, s.Text = "t", Str(t.tmpl(3, 2+r.Intn(8), false))
		}
		p.Objs = append(p.Objs, s)
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		t := &tmplTask{Ctx: genCtx(r)}
		for k := 1 + r.Intn(4); k > 0; k-- {
			t.Uses = append(t.Uses, r.Intn(len(p.Objs)))
		}
		p.Tasks = append(p.Tasks, t)
	}
	p.Fresh = pickFresh(r, len(p.Tasks))
	if r.Intn(noisy) == 0 {
		p.Noise = genNoise(r)
		p.MeanGap = 1000
		p.Tasks[0].Uses = append(p.Tasks[0].Uses, p.Tasks[0].Uses...)
	}
	return p
}

func (p *tmplPlan) Run(w *rt.World, e *Env) {
	if len(p.Objs) == 0 {
		return
	}
	alone := make([][]string, len(p.Tasks))
	run := func(t *tmplTask, comp func(i int) *ogdl.Graph, to *[]string, noise *Noise) {
		ctx := t.Ctx.build()
		if ctx == nil {
			ctx = ogdl.New("_")
		}
		in := &scope{w: w, task: w.Cur()}
		own(ctx, in)
		for i, u := range t.Uses {
			if i == len(t.Uses)/2 {
				noise.make(w)
			}
			u %= len(p.Objs)
			*to = append(*to, guard(func() string { return p.Objs[u].use(comp(u), ctx) }))
			*to = append(*to, "context "+out(ctx))
		}
		in.dead = true
	}
	solo := func() {
		for i, t := range p.Tasks {
			if t != nil {
				run(t, func(i int) *ogdl.Graph { return p.Objs[i].compile() }, &alone[i], nil)
			}
		}
	}
	if freshOf >= 0 && p.Tasks[freshOf] != nil {
		run(p.Tasks[freshOf], func(i int) *ogdl.Graph { return p.Objs[i].compile() }, &freshOut, nil)
		return
	}
	if !p.Late {
		solo()
	}
	var shared []*ogdl.Graph
	var before []string
	for _, o := range p.Objs {
		c := o.compile()
		shared = append(shared, c)
		before = append(before, out(c))
	}
	got := make([][]string, len(p.Tasks))
	node := w.NewNode("process")
	var ts []*rt.Task
	for i, t := range p.Tasks {
		i, t := i, t
		if t == nil {
			continue
		}
		ts = append(ts, w.Spawn(node, "user", func() {
			var noise *Noise
			if i == 0 && p.Noise != nil {
				noise = p.Noise
				e.Hit("noise")
			}
			run(t, func(i int) *ogdl.Graph {
				e.Ops++
				w.Count("op." + p.Objs[i].Kind)
				return shared[i]
			}, &got[i], noise)
		}))
	}
	for _, t := range ts {
		w.Join(t, 0)
	}
	for i, c := range shared {
		if a := out(c); a != before[i] {
			w.Fail("modified:"+p.Objs[i].Kind, "object %d (%s) was %s and after having been used is %s", i, show(string(p.Objs[i].Text)), short(before[i]), short(a))
		}
	}
	if p.Late {
		solo()
	}
	for i, t := range p.Tasks {
		if t == nil {
			continue
		}
		for k := range alone[i] {
			if got[i][k] != alone[i][k] {
				u := p.Objs[t.Uses[k/2]%len(p.Objs)]
				w.Fail("result:"+u.Kind, "task %d, use %d of %s gives %s; with a fresh copy alone %s", i, k/2, show(string(u.Text)), short(got[i][k]), short(alone[i][k]))
			}
		}
	}
	checkFresh(w, "C19", p, p.Fresh, alone)
}

// noisy is the mean number of runs between two with noise.
const noisy = 250

// Noise is what a long-lived process does besides: thousands of small operations on
// objects of its own, no two of them alike.
type Noise struct {
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Salt string `json:"salt"`
}

func genNoise(r *rt.Rand) *Noise {
	n := &Noise{N: []int{70, 300, 1100, 2500, 5000}[r.Intn(5)], Salt: fmt.Sprintf("%x", r.Uint64()&0xffff)}
	for k := 1 + r.Intn(2); k > 0; k-- {
		n.Kind += string("tpemjbxsgPl"[r.Intn(11)])
	}
	return n
}

func (n *Noise) make(w *rt.World) {
	if n == nil || n.Kind == "" {
		return
	}
	type kept struct {
		g    *ogdl.Graph
		s    string
		what string
	}
	var ks []kept
	ctx := ogdl.New("_")
	ctx.Add("a").Add("1")
	for i := 0; i < n.N; i++ {
		name := fmt.Sprintf("%sn%d", n.Salt, i)
		if n.Salt == "" || n.Salt[0] < 'a' {
			name = "n" + name
		}
		k := n.Kind[i%len(n.Kind)]
		var g *ogdl.Graph
		switch k {
		case 't':
			g = ogdl.FromString(name + "\n  " + name + "v " + name + "w\n")
		case 'p':
			g = ogdl.NewPath("a." + name + "[0]")
		case 'e':
			g = ogdl.NewExpression("a+'" + name + "'")
		case 'm':
			g = ogdl.NewTemplate("$a " + name + " $(a.b)")
		case 'j':
			g, _ = ogdl.FromJSON([]byte(`{"` + name + `":["` + name + `",1]}`))
		case 'b':
			g = ogdl.FromBinary([]byte("\x01G\x00\x01" + name + "\x00\x02" + name + "v\x00\x00"))
		case 'x':
			g = gxml.FromXML([]byte("<" + name + " k='" + name + "'>t" + name + "</" + name + ">"))
		case 's':
			g = ogdl.New(name)
			g.Set("b.c", name+"v")
			g.Get("b.c").Clear()
		case 'P':
			p := ogdl.NewStringParser(name)
			p.Ogdl()
			p.Handler().SetLevel(0)
			for _, x := range []string{"v", " and a few words", "", "-and-more-of-it"} {
				p.Emit(name + x)
			}
			g = p.Graph()
		case 'l':
			l := ogdl.NewLexer(strings.NewReader("'" + name + "' x" + name))
			q, _, _ := l.Quoted(0)
			l.Space()
			x, _ := l.String()
			g = ogdl.New(q)
			g.Add(x)
		case 'g':
			v, _ := ctx.Eval(ogdl.NewExpression("a+" + fmt.Sprint(i)))
			g = ogdl.New("_")
			g.Add(v)
		}
		if i%97 == 5 || i == 0 {
			ks = append(ks, kept{g, out(g), string(k) + " " + name})
		}
	}
	w.Stats.Add("noise_operations", int64(n.N))
	for _, k := range ks {
		if s := out(k.g); s != k.s {
			w.Fail("noise", "the object made by %s was %s and is %s after %d more such operations on other objects", k.what, short(k.s), short(s), n.N)
		}
	}
}

// ---- C20: independent objects ----

// POp is a step of a program.
type POp struct {
	Op string `json:"op"`
	D  int    `json:"d"`
	S  int    `json:"s,omitempty"`
	A  Str    `json:"a,omitempty"`
	B  Str    `json:"b,omitempty"`
}

type indepPlan struct {
	Common
	Fresh int      `json:"fresh,omitempty"` // number (from 1) of the program that a fresh process runs as well
	Orig  *V       `json:"orig"`
	Tasks [][]*POp `json:"tasks"`
	Late  bool     `json:"late,omitempty"`
	Piece int      `json:"piece,omitempty"` // readers deliver this many bytes at a time
	Noise *Noise   `json:"noise,omitempty"` // goes on in the middle of the first program
}

type machine struct {
	reg [4]*ogdl.Graph
	lx  *ogdl.Lexer  // a lexer in use
	ps  *ogdl.Parser // a parser in use
	bin *bufio.Reader
	in  *scope // of objects made
	w   *rt.World
	p   *indepPlan
}

var progOps = []string{"text", "types", "bytes", "reader", "binary", "json", "xml", "xmls", "path", "expr", "tmpl", "rebin", "retext", "rejson",
	"set", "add", "addn", "delete", "deleteat", "merge", "copy", "clone", "sort", "sorti", "sorts", "subst", "nodeset", "create", "clear", "newnode",
	"eval", "process", "show", "html", "outjson", "get", "typed", "find", "parser", "check", "set", "process", "eval", "clone", "getgraph", "lexer",
	"obj", "obj", "lopen", "lread", "lread", "lread", "popen", "pread", "bopen", "bread"}

func (m *machine) do(o *POp) string {
	d, s := o.D&3, o.S&3
	g, h := m.reg[d], m.reg[s]
	a, b := string(o.A), string(o.B)
	var mine []byte // input given as bytes
	switch o.Op {
	case "bytes", "binary", "json", "xml", "xmls":
		mine = []byte(a)
		defer scribble(mine)
	}
	keep := func(n *ogdl.Graph) string { m.reg[d] = n; return out(n) }
	switch o.Op {
	case "text":
		return keep(ogdl.FromString(a))
	case "types":
		return keep(ogdl.FromStringTypes(a))
	case "bytes":
		return keep(ogdl.FromBytes(mine))
	case "reader":
		return keep(ogdl.FromReader(newFeeder(m.w, Feed{Fixed: m.p.Piece, Fail: -1}, a)))
	case "binary":
		return keep(ogdl.FromBinary(mine))
	case "rebin":
		r := h.Binary()
		defer hold(m.w, "Binary", r)
		return keep(ogdl.FromBinary(r))
	case "retext":
		return keep(ogdl.FromString(h.Text()))
	case "rejson":
		n, err := ogdl.FromJSON(h.JSON())
		return keep(n) + out(err)
	case "json":
		n, err := ogdl.FromJSON(mine)
		return keep(n) + out(err)
	case "xml":
		return keep(gxml.FromXML(mine))
	case "xmls":
		n := gxml.FromXML(mine)
		gxml.Simplify(n)
		return keep(n)
	case "path":
		return keep(ogdl.NewPath(a))
	case "expr":
		return keep(ogdl.NewExpression(a))
	case "tmpl":
		return keep(ogdl.NewTemplate(a))
	case "set":
		return out(g.Set(a, b), g)
	case "add":
		return out(g.Add(a), g.Add(h.Clone()))
	case "addn":
		return out(g.AddNodes(h.Clone()))
	case "delete":
		g.Delete(a)
		return out(g)
	case "deleteat":
		g.DeleteAt(len(a))
		return out(g)
	case "merge":
		g.Merge(h.Clone())
		return out(g)
	case "copy":
		n := ogdl.New("_")
		n.Copy(h)
		return keep(n)
	case "clone":
		return keep(h.Clone())
	case "sort":
		if g.Len() > 1000 {
			return "" // reads the path again for each comparison
		}
		g.Sort(a)
		return out(g)
	case "sorti":
		if g.Len() > 1000 {
			return "" // reads the path again for each comparison
		}
		g.SortAsInt(a)
		return out(g)
	case "sorts":
		if g.Len() > 1000 {
			return "" // reads the path again for each comparison
		}
		g.SortAsString(a)
		return out(g)
	case "subst":
		g.Substitute(a, b)
		return out(g)
	case "nodeset":
		return out(g.NodeSet(a, b), g)
	case "create":
		return out(g.Create(a), g)
	case "obj":
		n := g.NodeOrNew("obj")
		n.Out = nil
		n.Add(&Obj{b, m.in})
		return out(g)
	case "clear":
		g.Get(a).Clear()
		return out(g)
	case "newnode":
		return out(g.NodeOrNew(a), g)
	case "eval":
		v, err := g.Eval(ogdl.NewExpression(a))
		return out(v, err, g)
	case "process":
		r := ogdl.NewTemplate(a).Process(g)
		defer hold(m.w, "Process", r)
		return out(r, g)
	case "show":
		return out(g.Text(), g.Show())
	case "html":
		return out(g.Html(a))
	case "outjson":
		r := g.JSON()
		defer hold(m.w, "JSON", r)
		return out(r, g)
	case "get":
		x, err := g.GetString(a)
		return out(g.Get(a), x, err)
	case "getgraph":
		if n := h.Get(a); n != nil {
			return keep(n.Clone())
		}
		return "none"
	case "typed":
		n := g.Get(a)
		return out(n.Int64(1), n.Float64(2), n.Bool(true), n.String("x"), n.Bytes(), n.Number(), n.Scalar(), fmt.Sprint(n.Strings()))
	case "find":
		n, err := g.Find(a)
		return out(n, err)
	case "check":
		ok, why := g.Check(h)
		return out(ok, why)
	case "parser":
		p := ogdl.NewStringParser(a)
		p.Ogdl()
		if len(b) != 1 {
			p.Handler().SetLevel(0)
		}
		p.Emit(b)
		p.Inc()
		p.Emit(b)
		p.Dec()
		n := p.Graph()
		return keep(n) + out(p.Handler().Tree())
	case "lexer":
		l := ogdl.NewLexer(strings.NewReader(a))
		s1, ok1 := l.String()
		n, u := l.Space()
		s2, ok2, err := l.Quoted(0)
		s3, ok3 := l.Token8()
		s4, ok4 := l.Number()
		s5, ok5 := l.Block(0)
		return out(s1, ok1, n, u, s2, ok2, err, s3, ok3, s4, ok4, s5, ok5)
	case "lopen":
		m.lx = ogdl.NewLexer(newFeeder(m.w, Feed{Fixed: m.p.Piece, Fail: -1}, a))
	case "lread":
		if m.lx == nil {
			return "none"
		}
		var r strings.Builder
		back := 0
		for _, c := range b {
			switch c {
			case 'b', 'B':
				for n := 0; n < 1 || c == 'B' && n < 200; n++ {
					x, err := m.lx.Byte()
					fmt.Fprint(&r, x, err, " ")
					back++
				}
			case 'u', 'V':
				for n := 0; back > 0 && (n < 1 || c == 'V' && n < 150); n++ {
					m.lx.UnreadByte()
					back--
				}
			case 'r':
				x, err := m.lx.Rune()
				fmt.Fprint(&r, x, err, " ")
			case 'U':
				m.lx.UnreadRune()
			case 'p':
				fmt.Fprint(&r, m.lx.PeekByte(), " ")
			case 'P':
				x, err := m.lx.PeekRune()
				fmt.Fprint(&r, x, err, " ")
			case 's':
				x, ok := m.lx.String()
				fmt.Fprint(&r, x, ok, " ")
			case 't':
				x, ok := m.lx.Token8()
				fmt.Fprint(&r, x, ok, " ")
			case 'w':
				n, ok := m.lx.Space()
				fmt.Fprint(&r, n, ok, " ")
			case 'q':
				x, ok, err := m.lx.Quoted(0)
				fmt.Fprint(&r, x, ok, err, " ")
			case 'k':
				x, ok := m.lx.Break(), m.lx.End()
				fmt.Fprint(&r, x, ok, " ")
			case 'x':
				x, ok := m.lx.Scalar(0)
				fmt.Fprint(&r, x, ok, " ")
			case 'y':
				x, ok := m.lx.ScalarType(0)
				fmt.Fprint(&r, x, ok, " ")
			case 'n':
				x, ok := m.lx.Number()
				fmt.Fprint(&r, x, ok, " ")
			case 'i':
				x, ok := m.lx.Integer()
				fmt.Fprint(&r, x, ok, " ")
			case 'o':
				x, ok := m.lx.Operator()
				fmt.Fprint(&r, x, ok, " ")
			case 'T':
				x, ok := m.lx.TemplateText()
				fmt.Fprint(&r, x, ok, " ")
			case 'S':
				x, ok := m.lx.StringStop([]byte(",.)"))
				fmt.Fprint(&r, x, ok, " ")
			case 'W':
				fmt.Fprint(&r, m.lx.WhiteSpace(), m.lx.Comment(), " ")
			case 'K':
				x, ok := m.lx.Block(0)
				fmt.Fprint(&r, x, ok, " ")
			}
		}
		return r.String()
	case "popen":
		m.ps = ogdl.NewParser(newFeeder(m.w, Feed{Fixed: m.p.Piece, Fail: -1}, a))
	case "pread":
		if m.ps == nil {
			return "none"
		}
		switch len(b) % 4 {
		case 0:
			ok := m.ps.Path()
			return out(ok)
		case 1:
			m.ps.Space()
			ok := m.ps.Expression()
			return out(ok)
		case 2:
			m.ps.Ogdl()
		}
		return keep(m.ps.Graph().Clone()) + out(m.ps.Error())
	case "bopen":
		m.bin = bufio.NewReaderSize(newFeeder(m.w, Feed{Fixed: m.p.Piece, Fail: -1}, a), 64)
	case "bread":
		if m.bin == nil {
			return "none"
		}
		return keep(ogdl.FromBinaryBufioReader(m.bin))
	}
	return ""
}

func (m *machine) run(ops []*POp, to *[]string, count func(o *POp), noise *Noise) {
	for i, o := range ops {
		if i == len(ops)/2 {
			noise.make(m.w)
		}
		if o == nil {
			continue
		}
		count(o)
		if m.reg[o.D&3] == nil {
			m.reg[o.D&3] = ogdl.New("_")
		}
		*to = append(*to, guard(func() string { return m.do(o) }))
	}
	for _, g := range m.reg {
		*to = append(*to, out(g))
	}
}

func genProg(r *rt.Rand, n int) []*POp {
	var ops []*POp
	for ; n > 0; n-- {
		t := &tgen{r: r, assign: true}
		if r.Intn(12) == 0 {
			// a short stream, read up to its end, and read again
			o := &POp{Op: "lopen", A: Str(t.pick("abc def", "x", "é日本 x", "'quoted' 12.5\n", "a\n  b\n")), B: "v"}
			ops = append(ops, o)
			for k := 1 + r.Intn(3); k > 0; k-- {
				ops = append(ops, &POp{Op: "lread", B: Str(t.pick("Bu", "BV", "bbbbb", "rrrrU", "tws", "x") + t.pick("bbu", "Vb", "r", "P", "p", "VbbB"))})
			}
			continue
		}
		o := &POp{Op: progOps[r.Intn(len(progOps))], D: r.Intn(4), S: r.Intn(4), A: Str(shName(r)), B: Str(t.pick("v", "7", "two words", "", "true"))}
		switch o.Op {
		case "obj":
			o.B = Str(t.pick("one", "two", "three", "four"))
		case "lread":
			var c []byte
			for n := 1 + r.Intn(12); n > 0; n-- {
				c = append(c, "bbBBuVrrUpPstwqkxyniosTSWKW"[r.Intn(27)])
			}
			o.B = Str(c)
		case "pread":
			o.B = Str([]string{"4444", "1", "12", "123"}[r.Intn(4)])
		case "bopen":
			for n := 1 + r.Intn(3); n > 0; n-- {
				v := genCtx(r)
				clean(v)
				o.A += Str(v.build().Binary())
			}
		case "text", "types", "bytes", "reader", "parser", "lexer", "lopen", "popen":
			if r.Intn(2) == 0 {
				s, _ := genDoc(r, r.Intn(400)).render(false)
				o.A = Str(s)
			} else {
				v := genCtx(r)
				for _, k := range v.K {
					clean(k)
				}
				o.A = Str(v.build().Text())
			}
		case "binary":
			v := genCtx(r)
			clean(v)
			o.A = Str(v.build().Binary())
		case "json":
			o.A = Str(genJ(r, r.Intn(200)).text())
		case "xml", "xmls":
			o.A = Str(genX(r, r.Intn(200)).text())
		case "path", "get", "typed", "getgraph", "sort", "sorti", "sorts", "clear":
			o.A = Str(t.path(1))
		case "set":
			s := t.pick(shNames[:8]...)
			for n := r.Intn(3); n > 0; n-- {
				s += t.pick(".", ".") + t.pick(shNames[:8]...)
			}
			if r.Intn(4) == 0 {
				s += "[" + t.pick("0", "1", "3") + "]"
			}
			o.A = Str(s)
		case "expr", "eval":
			o.A = Str(t.expr(3))
			if r.Intn(4) == 0 {
				a := t.assignment()
				o.A = Str(a[2 : len(a)-1])
			}
		case "tmpl", "process":
			o.A = Str(t.tmpl(2, 1+r.Intn(5), false))
		case "find":
			o.A = Str([]string{"a|b", "^.$", ".*", "[0-9]+", "l"}[r.Intn(5)])
		}
		if len(o.A) > 3000 {
			o.A = o.A[:3000] // many operations may follow, each on all of it
		}
		ops = append(ops, o)
	}
	return ops
}

// clean replaces what has no text form.
func clean(v *V) {
	switch v.T {
	case "F", "R", "O", "z":
		v.T, v.S = "", "w"
	}
	for _, k := range v.K {
		clean(k)
	}
}

func genC20(r *rt.Rand, run int) Plan {
	p := &indepPlan{Orig: genCtx(r), Late: r.Intn(2) == 0, Piece: r.Intn(30)}
	p.MeanGap = []int{1, 2, 5, 20, 100}[r.Intn(5)]
	same := r.Intn(3) == 0
	for n := 2 + r.Intn(3); n > 0; n-- {
		if same && len(p.Tasks) > 0 {
			p.Tasks = append(p.Tasks, p.Tasks[0])
			continue
		}
		p.Tasks = append(p.Tasks, genProg(r, 1+r.Intn(8)))
	}
	p.Fresh = pickFresh(r, len(p.Tasks))
	if r.Intn(noisy) == 0 {
		p.Noise = genNoise(r)
		p.MeanGap = 1000
		// made, changed, and made again
		for n := 1 + r.Intn(3); n > 0; n-- {
			t := &tgen{r: r}
			o := genProg(r, 1)[0]
			mk := &POp{Op: t.pick("path", "path", "text", "expr", "tmpl", "json", "xml", "binary", "bytes", "eval", "process"), A: o.A, D: 1}
			switch mk.Op {
			case "path":
				mk.A = Str(t.path(1))
			case "expr", "eval":
				mk.A = Str(t.expr(2))
			case "tmpl", "process":
				mk.A = Str(t.tmpl(2, 1+r.Intn(3), false))
			case "json":
				mk.A = Str(genJ(r, r.Intn(200)).text())
			case "xml":
				mk.A = Str(genX(r, r.Intn(200)).text())
			case "binary":
				v := genCtx(r)
				clean(v)
				mk.A = Str(v.build().Binary())
			}
			edit := &POp{Op: t.pick("add", "deleteat", "clear", "set"), D: 1, A: Str(t.pick("a", "", "b"))}
			again := *mk
			again.D = 2
			edit2 := *edit
			edit2.D = 2
			p.Tasks[0] = append(append([]*POp{mk, edit}, p.Tasks[0]...), &again, &edit2, mk)
		}
	}
	return p
}

// start gives task i its own objects: the original, or a clone or copy of it.
func (p *indepPlan) start(w *rt.World, base *ogdl.Graph, i int) *machine {
	m := &machine{w: w, p: p}
	switch {
	case i == 0:
		m.reg[0] = base
	case i%2 == 1:
		m.reg[0] = base.Clone()
	default:
		m.reg[0] = ogdl.New(base.This)
		m.reg[0].Copy(base)
	}
	m.reg[1] = base.Clone()
	return m
}

func (p *indepPlan) Run(w *rt.World, e *Env) {
	base := func() *ogdl.Graph {
		if p.Orig == nil {
			return ogdl.New("_")
		}
		return p.Orig.build()
	}
	alone := make([][]string, len(p.Tasks))
	solo := func() {
		for i, ops := range p.Tasks {
			in := &scope{w: w}
			g := base()
			own(g, in)
			m := p.start(w, g, i)
			m.in = in
			m.run(ops, &alone[i], func(o *POp) {}, nil)
			in.dead = true
		}
	}
	if freshOf >= 0 {
		for i := range p.Tasks {
			if i != freshOf {
				p.Tasks[i] = nil
			}
		}
		solo()
		freshOut = alone[freshOf]
		return
	}
	if !p.Late {
		solo()
	}
	orig := base()
	in := &scope{w: w}
	own(orig, in)
	var ms []*machine
	for i := range p.Tasks {
		ms = append(ms, p.start(w, orig, i))
	}
	got := make([][]string, len(p.Tasks))
	node := w.NewNode("process")
	var ts []*rt.Task
	for i, ops := range p.Tasks {
		i, ops := i, ops
		ts = append(ts, w.Spawn(node, "program", func() {
			ms[i].in = &scope{w: w, task: w.Cur()}
			var noise *Noise
			if i == 0 && p.Noise != nil {
				noise = p.Noise
				e.Hit("noise")
			}
			ms[i].run(ops, &got[i], func(o *POp) { e.Ops++; w.Count("op." + o.Op) }, noise)
		}))
	}
	for _, t := range ts {
		w.Join(t, 0)
	}
	in.dead = true
	if p.Late {
		solo()
	}
	for i, ops := range p.Tasks {
		for k := range alone[i] {
			if got[i][k] == alone[i][k] {
				continue
			}
			what, j := "registers at the end", 0
			for _, o := range ops {
				if o == nil {
					continue
				}
				if j == k {
					what = o.Op
				}
				j++
			}
			w.Fail("result:"+strings.Fields(what)[0], "program %d, step %d (%s) gives %s; alone it gives %s", i, k, what, short(got[i][k]), short(alone[i][k]))
		}
	}
	checkFresh(w, "C20", p, p.Fresh, alone)
}

func init() {
	real := []string{"graph.go, gettypes.go, encoding.go, binary.go, html.go, eval.go, flow.go, expression.go, function.go, template.go, schema.go, sort.go, event.go, parser.go, block.go, lexer.go"}
	stub := []string{"goroutine scheduling (every statement of the code under test is a possible preemption point)", "package sync and sync/atomic, with their happens-before edges told to the race detector"}
	rule := " The race detector watches every access of the instrumented code; the scheduler's own synchronisation is hidden from it, so that only edges made by the code under test count. In one run of eight, one of the programs also runs in a new process, which must give the same results as this one with its history. Objects that templates call methods of know whose they are, and report any other caller."
	register(&Prop{ID: "C18", Race: true, Quick: 50000, Thor: 300000, New: func() Plan { return &sharePlan{} }, Gen: genC18, Real: real, Stub: stub,
		Rule: "One run gives up to 3 shared graphs to 2-4 tasks that each do up to 8 read operations on them and their sub-graphs, preempted between statements; every result must be the one the same operations give alone on a graph of one's own, and the graphs must end as they began." + rule,
		Note: []string{"an operation that panics alone must panic in the same way when others run (whether it should is C25/C32)"}})
	register(&Prop{ID: "C19", Race: true, Quick: 60000, Thor: 400000, New: func() Plan { return &tmplPlan{} }, Gen: genC19, Real: real, Stub: stub,
		Rule: "One run shares up to 3 compiled templates, paths and expressions between up to 3 tasks, which use them up to 4 times each on a context of their own; outputs and contexts after every use must be those obtained alone with a freshly compiled copy per use, and the compiled objects must end as they began." + rule,
		Note: []string{"contexts are trees; assignments that would make them cyclic are not generated"}})
	register(&Prop{ID: "C20", Race: true, Quick: 50000, Thor: 300000, New: func() Plan { return &indepPlan{} }, Gen: genC20, Real: append(append([]string{}, real...), "io/gxml/xml.go"), Stub: stub,
		Rule: "One run lets 2-4 tasks execute programs of up to 8 library calls (parsers of all formats, editing, sorting, merging, cloning, evaluation, templates, all outputs) on their own objects, the first on a graph and the others on clones and copies of it; every result must be the one the program gives alone." + rule})
}
