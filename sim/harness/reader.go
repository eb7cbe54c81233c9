package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/rveen/ogdl"

	"verif.local/sim/rt"
)

var readReal = []string{"lexer.go", "parser.go", "block.go", "flow.go (path grammar)", "expression.go", "template.go (template grammar)", "event.go"}
var readStub = []string{"the io.Reader given to the parser: delivers pieces, empty reads, ends and failures as the simulator decides"}

// D is a node of an OGDL text document.
type D struct {
	T  Str  `json:"t"`
	L  int  `json:"l,omitempty"`
	S  int  `json:"s,omitempty"`  // 0 plain, 1 "", 2 '', 3 ``, 4 block
	C  int  `json:"c,omitempty"`  // length of a comment line in front, 0 = none
	EC int  `json:"ec,omitempty"` // length of a comment at the end of the line
	J  bool `json:"j,omitempty"`  // the first child is on the same line
	Sp int  `json:"sp,omitempty"` // additional spaces after the scalar
	Ch int  `json:"ch,omitempty"` // this many further nodes in a chain above this one
	W  int  `json:"w,omitempty"`  // this many leaves follow the node
	K  []*D `json:"k,omitempty"`
}

// expand gives the nodes with their chains and the leaves that follow them.
func expand(ns []*D) []*D {
	var r []*D
	for _, n := range ns {
		c := *n
		c.K = expand(n.K)
		p := &c
		in := c.inlinable()
		k := n.Ch
		if !in {
			k = min(k, 200)
		}
		for i := k; i > 0; i-- {
			p = &D{T: Str(fmt.Sprintf("c%d", i)), J: in, K: []*D{p}}
		}
		r = append(r, p)
		for i := 0; i < n.W; i++ {
			r = append(r, &D{T: Str(fmt.Sprintf("w%d", i))})
		}
	}
	return r
}

// Doc is an OGDL text.
type Doc struct {
	Step int  `json:"step"`
	Tab  bool `json:"tab,omitempty"`
	CR   bool `json:"cr,omitempty"`
	NoNL bool `json:"nonl,omitempty"`
	K    []*D `json:"k"`
}

func (n *D) text() string {
	if n.L <= len(n.T) {
		return string(n.T)
	}
	p := []byte(pad(n.L - len(n.T)))
	if n.S > 0 {
		for i := 7; i < len(p); i += 9 {
			p[i] = ' '
		}
	}
	if n.S > 0 && n.S != 3 && len(p) > 80 {
		for i := 60; i < len(p)-1; i += 70 {
			p[i] = '\n'
			p[i+1] = 'n'
		}
	}
	if len(p) > 0 && (p[len(p)-1] == '\n' || p[len(p)-1] == ' ') {
		p[len(p)-1] = 'z'
	}
	return string(n.T) + string(p)
}

// clean makes a content legal for its style; minimisation may have changed it.
func (n *D) clean(ind int) (string, int) {
	s := n.text()
	st := n.S
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == 0 || c == '\r' || (c < 32 && c != '\n' && c != '\t'):
			c = '_'
		case c == '\\' || c == '$':
			c = '_'
		case st == 3 && c == '`':
			c = '_'
		case st == 0 && c <= 32:
			c = '_'
		case c == '\t' || (c == '\n' && st == 3):
			c = ' '
		}
		b.WriteByte(c)
	}
	s = b.String()
	if st == 0 {
		if s == "" {
			s = "e"
		}
		if strings.IndexByte("\"'`#,", s[0]) >= 0 {
			s = "p" + s
		}
		return s, 0
	}
	if st == 4 || strings.IndexByte(s, '\n') >= 0 {
		ls := strings.Split(s, "\n")
		for i := range ls {
			if st == 4 || i > 0 {
				ls[i] = strings.TrimLeft(ls[i], " \t")
			}
			if ls[i] == "" || (st == 4 && strings.TrimSpace(ls[i]) == "") {
				ls[i] = "x"
			}
		}
		s = strings.Join(ls, "\n")
	}
	return s, st
}

type docOut struct {
	b     strings.Builder
	d     *Doc
	types bool
	nl    string
}

func (o *docOut) indent(lev int) string {
	if o.d.Tab {
		return strings.Repeat("\t", lev)
	}
	return strings.Repeat(" ", lev*max(1, o.d.Step))
}

// render gives the text and the graph it denotes.
func (d *Doc) render(types bool) (string, *ogdl.Graph) {
	o := &docOut{d: d, types: types, nl: "\n"}
	if d.CR {
		o.nl = "\r\n"
	}
	g := ogdl.New("_")
	for _, n := range expand(d.K) {
		o.node(n, g, 0)
	}
	s := o.b.String()
	if d.NoNL {
		s = strings.TrimSuffix(s, o.nl)
	}
	return s, g
}

func (n *D) inlinable() bool {
	for n.J && len(n.K) == 1 {
		n = n.K[0]
	}
	return len(n.K) == 0
}

func (o *docOut) scalar(n *D, g *ogdl.Graph, lev int) *ogdl.Graph {
	s, st := n.clean(lev)
	if st == 4 {
		// only called where a block is possible
		o.b.WriteString("\\" + o.nl)
		for _, l := range strings.Split(s, "\n") {
			o.b.WriteString(o.indent(1) + l + o.nl)
		}
		return g.Add(s)
	}
	switch st {
	case 0:
		o.b.WriteString(s)
		if o.types {
			return g.Add(typed(s))
		}
	case 3:
		o.b.WriteString("`" + s + "`")
	default:
		q := "\""
		if st == 2 {
			q = "'"
		}
		e := strings.ReplaceAll(s, q, "\\"+q)
		e = strings.ReplaceAll(e, "\n", "\n"+o.indent(lev))
		o.b.WriteString(q + e + q)
	}
	return g.Add(s)
}

// typed gives the value of an unquoted scalar by the documented rule.
func typed(s string) interface{} {
	var i int64
	var f float64
	digits := true
	dots := 0
	for k, c := range s {
		if c == '.' {
			dots++
		} else if c == '-' && k == 0 && len(s) > 1 {
		} else if c < '0' || c > '9' {
			digits = false
		}
	}
	if digits && dots == 0 && len(s) < 18 {
		fmt.Sscan(s, &i)
		return i
	}
	if digits && dots == 1 && len(s) > 2 && len(s) < 18 {
		fmt.Sscan(s, &f)
		return f
	}
	if s == "true" {
		return true
	}
	if s == "false" {
		return false
	}
	return s
}

func (o *docOut) node(n *D, g *ogdl.Graph, lev int) {
	if n.C > 0 {
		o.b.WriteString(o.indent(lev) + "# " + pad(n.C) + o.nl)
	}
	o.b.WriteString(o.indent(lev))
	if n.S == 4 && lev == 0 && len(n.K) == 0 {
		o.scalar(n, g, lev)
		return
	}
	save := n.S
	if n.S == 4 {
		n.S = 1
	}
	c := o.scalar(n, g, lev)
	n.S = save
	kids := n.K
	if n.J && len(kids) > 0 && kids[0].inlinable() {
		p, cc := kids[0], c
		for p != nil {
			o.b.WriteString(" " + strings.Repeat(" ", n.Sp%5))
			s := p.S
			if p.S == 4 {
				if len(p.K) == 0 && lev == 0 && len(kids) == 1 {
					o.scalar(p, cc, 0)
					return
				}
				p.S = 2
			}
			cc = o.scalar(p, cc, lev)
			p.S = s
			if len(p.K) > 0 {
				p = p.K[0]
			} else {
				p = nil
			}
		}
		kids = kids[1:]
	}
	if n.EC > 0 {
		o.b.WriteString(" # " + pad(n.EC))
	}
	o.b.WriteString(o.nl)
	for _, k := range kids {
		o.node(k, c, lev+1)
	}
}

var docBits = []string{"é", "日本", "ß", "\"", "'", "#", "(", ")", ",", "{", "[", "=", "\xff", "\U0001F600", "`", ";", ":"}

// hugeLen is a length beyond those of common buffers and limits.
func hugeLen(r *rt.Rand) int {
	return []int{65530, 65536, 70000, 131072, 200000, 1 << 20, 1100000}[r.Intn(7)] + r.Intn(10)
}

func genDoc(r *rt.Rand, target int) *Doc {
	d := &Doc{Step: 1 + r.Intn(4), Tab: r.Intn(5) == 0, CR: r.Intn(5) == 0, NoNL: r.Intn(3) == 0}
	root := &D{}
	last := []*D{root}
	size := 0
	i := 0
	huge := target > 500 && r.Intn(200) == 0
	for size < target || (i == 0 && target > 0) {
		n := &D{T: Str(fmt.Sprintf("t%d.", i))}
		i++
		if r.Intn(3) == 0 {
			n.T += Str(docBits[r.Intn(len(docBits))])
		}
		if r.Intn(8) == 0 {
			n.T = Str([]string{"1", "-25", "3.75", "true", "false", "1234567890123", "0.5", "t", "é"}[r.Intn(9)])
		}
		if r.Intn(3) == 0 {
			n.S = 1 + r.Intn(4)
			switch r.Intn(5) {
			case 0:
				n.T += " b\nc d"
			case 1:
				n.T += " \"q'"
			case 2:
				n.T = ""
			}
		}
		if r.Intn(10) == 0 {
			n.L = 1 + r.Intn(60)
			if r.Intn(4) == 0 {
				n.L = []int{500, 2040, 2048, 2049, 4090, 4096, 4100, 5000}[r.Intn(8)] + r.Intn(3)
			}
			n.L = min(n.L, target+20)
		}
		if huge && i == 3 {
			n.L = hugeLen(r)
		}
		if r.Intn(10) == 0 {
			n.C = 1 + r.Intn(70)
			if r.Intn(8) == 0 {
				n.C = min(target, 2000+r.Intn(3000))
			}
		}
		if r.Intn(10) == 0 {
			n.EC = 1 + r.Intn(40)
		}
		n.J = r.Intn(3) == 0
		n.Sp = r.Intn(5)
		lev := r.Intn(len(last))
		if r.Intn(3) == 0 {
			lev = 0
		}
		if lev > 40 {
			lev = 40
		}
		last[lev].K = append(last[lev].K, n)
		last = append(last[:lev+1], n)
		size += len(n.text()) + n.C + n.EC + lev*d.Step + 3
	}
	if all := last[1:]; target > 0 && r.Intn(60) == 0 && len(all) > 0 {
		n := all[r.Intn(len(all))]
		if r.Intn(2) == 0 {
			n.Ch = []int{60, 99, 100, 127, 128, 130, 250, 255, 256, 257, 520, 1030, 3000}[r.Intn(13)]
		} else {
			n.W = []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 5000}[r.Intn(15)]
			if r.Intn(8) == 0 {
				n.W = []int{10001, 65534, 65535, 65536, 65537, 70000}[r.Intn(6)]
			}
		}
	}
	d.K = root.K
	return d
}

// ---- paths, expressions, templates ----

// E is an element: of a path, an expression or a template.
type E struct {
	K string `json:"k"`
	T Str    `json:"t,omitempty"`
	L int    `json:"l,omitempty"`
	E []*E   `json:"e,omitempty"`
}

func isTok(c rune) bool { return c == '_' || ogdl.IsLetter(c) || ogdl.IsDigit(c) }

func (e *E) tok() string {
	s := string(e.T)
	if e.L > len(s) {
		s += pad(e.L - len(s))
	}
	var b strings.Builder
	for _, c := range s {
		if c == utf8.RuneError || !isTok(c) {
			c = '_'
		}
		b.WriteRune(c)
	}
	s = b.String()
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		s = "k" + s
	}
	return s
}

func (e *E) raw(no string) string {
	s := string(e.T)
	if e.L > len(s) {
		s += pad(e.L - len(s))
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == 0 || c == '\\' || strings.IndexByte(no, c) >= 0 || (c < 32 && c != '\n' && c != '\t') {
			c = '_'
		}
		b.WriteByte(c)
	}
	return b.String()
}

func (e *E) num() string {
	s := ""
	for _, c := range string(e.T) {
		if c >= '0' && c <= '9' {
			s += string(c)
		}
	}
	for len(s) < e.L {
		s += "7"
	}
	if s == "" {
		s = "0"
	}
	return s
}

// path writes path elements and adds what they denote.
func path(es []*E, b *strings.Builder, g *ogdl.Graph) {
	for i, e := range es {
		k := e.K
		if i == 0 && k != "tok" && k != "q" {
			k = "tok"
		}
		if k == "q" && i == 0 && len(es) == 1 {
			k = "tok"
		}
		switch k {
		case "i":
			b.WriteString("[" + e.num() + "]")
			g.Add(ogdl.TypeIndex).Add(e.num())
		case "s":
			b.WriteString("{" + e.num() + "}")
			g.Add(ogdl.TypeSelector).Add(e.num())
		case "se":
			b.WriteString("{}")
			g.Add(ogdl.TypeSelector)
		case "q":
			if i > 0 {
				b.WriteByte('.')
			}
			s := e.raw("\"\n")
			b.WriteString("\"" + s + "\"")
			g.Add(s)
		default:
			if i > 0 {
				b.WriteByte('.')
			}
			b.WriteString(e.tok())
			g.Add(e.tok())
		}
	}
}

var ops = []string{"+", "-", "*", "/", "%", "==", "!=", ">=", "<=", ">", "<", "&&", "||"}

func expr(es []*E, b *strings.Builder, g *ogdl.Graph) {
	n := 0
	for _, e := range es {
		if n > 0 {
			sp := strings.Repeat(" ", 1+e.L%3)
			op := ops[(len(e.T)+n)%len(ops)]
			b.WriteString(sp + op + sp)
			g.Add(op)
		}
		n++
		switch e.K {
		case "num":
			b.WriteString(e.num())
			g.Add(e.num())
		case "str":
			s := e.raw("'\n")
			b.WriteString("'" + s + "'")
			g.Add(ogdl.TypeString).Add(s)
		case "grp":
			if len(e.E) == 0 {
				b.WriteString("1")
				g.Add("1")
				break
			}
			b.WriteString("(")
			expr(e.E, b, g.Add(ogdl.TypeGroup))
			b.WriteString(")")
		default:
			p := e.E
			if len(p) == 0 {
				p = []*E{{K: "tok", T: e.T, L: e.L}}
			}
			if p[0].K == "q" {
				p[0].K = "tok"
			}
			path(p, b, g.Add(ogdl.TypePath))
		}
	}
}

func template(es []*E, b *strings.Builder, g *ogdl.Graph) {
	text := "" // text not yet added
	flush := func() {
		if text != "" {
			g.Add(text)
			text = ""
		}
	}
	for _, e := range es {
		switch e.K {
		case "var", "brace":
			if len(e.E) == 0 {
				continue
			}
			flush()
			p := g.Add(ogdl.TypePath)
			if e.K == "brace" {
				b.WriteString("${")
				path(e.E, b, p)
				b.WriteString("}")
			} else {
				b.WriteString("$")
				path(e.E, b, p)
				// what follows must not continue the path
				b.WriteString("|")
				text = "|"
			}
		case "expr":
			if len(e.E) == 0 {
				continue
			}
			flush()
			b.WriteString("$(")
			expr(e.E, b, g.Add(ogdl.TypeExpression))
			b.WriteString(")")
		case "esc":
			flush()
			b.WriteString("$\\")
			g.Add("$")
		default:
			s := e.raw("$")
			b.WriteString(s)
			text += s
		}
	}
	flush()
}

func genTok(r *rt.Rand, i int, target int) *E {
	e := &E{K: "tok", T: Str(fmt.Sprintf("v%d", i))}
	switch r.Intn(5) {
	case 0:
		e.T += Str([]string{"é", "日本", "ßß", "_x", "ж", "\U0001D7D8"}[r.Intn(6)])
	case 1:
		e.T = Str([]string{"é", "日", "a", "_", "ß"}[r.Intn(5)])
	}
	if r.Intn(12) == 0 {
		e.L = min(target, []int{30, 300, 2046, 2048, 4090, 4095, 4097}[r.Intn(7)])
	}
	return e
}

func genPath(r *rt.Rand, target int) []*E {
	var es []*E
	size := 0
	for i := 0; i == 0 || size < target; i++ {
		e := genTok(r, i, target)
		switch r.Intn(8) {
		case 0:
			e = &E{K: "i", T: Str(fmt.Sprint(r.Intn(200)))}
		case 1:
			e = &E{K: "s", T: Str(fmt.Sprint(r.Intn(20)))}
		case 2:
			e = &E{K: "se"}
		case 3:
			e = &E{K: "q", T: Str([]string{"a b", "é.x", "", "日 ', $"}[r.Intn(4)])}
		}
		size += len(e.T) + e.L + 2
		es = append(es, e)
	}
	return es
}

func genExpr(r *rt.Rand, target, depth int) []*E {
	var es []*E
	size := 0
	for i := 0; i == 0 || size < target; i++ {
		e := &E{K: "p", L: r.Intn(3)}
		switch r.Intn(6) {
		case 0:
			e = &E{K: "num", T: Str(fmt.Sprint(r.Intn(100000)))}
		case 1:
			e = &E{K: "str", T: Str([]string{"a", "b c", "é日", "", "\"x"}[r.Intn(5)])}
		case 2:
			if depth > 0 {
				e = &E{K: "grp", E: genExpr(r, r.Intn(min(target, 60)+1), depth-1)}
				size += 20
			}
		case 3:
			e.E = genPath(r, r.Intn(12))
			if e.E[0].K != "tok" {
				e.E = e.E[:0]
			}
		}
		if e.K == "p" && len(e.E) == 0 {
			t := genTok(r, i, target)
			e.T, e.L = t.T, t.L
		}
		size += len(e.T) + e.L + 5 + 6*len(e.E)
		es = append(es, e)
	}
	return es
}

func genTemplate(r *rt.Rand, target int) []*E {
	var es []*E
	size := 0
	for i := 0; i == 0 || size < target; i++ {
		e := &E{K: "text", T: Str([]string{"x ", "line\n", "<b> é", "日本\n\n", "a.b(c)[1]", "\t\r"}[r.Intn(6)])}
		switch r.Intn(7) {
		case 0, 1:
			e = &E{K: "var", E: genPath(r, r.Intn(12))}
		case 2:
			e = &E{K: "brace", E: genPath(r, r.Intn(12))}
		case 3:
			e = &E{K: "expr", E: genExpr(r, r.Intn(16), 1)}
		case 4:
			if r.Intn(3) == 0 {
				e = &E{K: "esc"}
			}
		case 5:
			e.L = min(target, []int{20, 100, 700, 2040, 2048, 4090, 4096}[r.Intn(7)]+r.Intn(4))
		}
		size += len(e.T) + e.L + 1 + 6*len(e.E)
		es = append(es, e)
	}
	if target > 500 && r.Intn(200) == 0 {
		es = append(es, &E{K: "text", T: Str([]string{"x ", "line\n", "é"}[r.Intn(3)]), L: hugeLen(r)})
	}
	return es
}

// ---- the plan ----

type readPlan struct {
	Common
	Kind string `json:"kind"` // ogdl types reader path expr tpl lexer toks
	Doc  *Doc   `json:"doc,omitempty"`
	Es   []*E   `json:"es,omitempty"`
	Feed Feed   `json:"feed"`
	Ops  []int  `json:"ops,omitempty"`
	Pre  int    `json:"pre,omitempty"` // length of a comment in front of a document
	Cut  int    `json:"cut"`           // failure position, in thousandths of the text; -1 none
	Near bool   `json:"near,omitempty"`
	// Shift bytes are read from the stream before parsing starts
	Shift int `json:"shift,omitempty"`

	// Wild texts are edited afterwards; what they denote is then left to the parser, given the whole.
	Wild []wild `json:"wild,omitempty"`
	// So it is with a Rich text: a template, expression or path of every construct.
	Rich Str `json:"rich,omitempty"`
	Rep  int `json:"rep,omitempty"` // times

	Also []*readPlan `json:"also,omitempty"` // read at the same time
}

// wild is an edit of the text.
type wild struct {
	At  int `json:"at"` // in thousandths
	Del int `json:"del,omitempty"`
	Ins Str `json:"ins"`
}

// magics are beginnings that some reader might treat in a special way.
var magics = []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "#!/usr/bin/ogdl\n", "#?\n", "#? ( charset utf8 )\n", "\x01G\x00", "---\n", "{", "<?xml?>\n", "\x1f\x8b\x08", "\r\n", "\n", " ", "\t", "  \n", "\x00", "%", "# ogdl\r\n"}

var wildBits = []string{"\"", "'", "`", "(", ")", "{", "}", "[", "]", ",", "\\", "\\\n", "\n", "\r", "\r\n", "\t", " ", "    ", "#", "# ", "$", "$\\", "$if(", "$for(", "$end", "$else", ".", "..", "=", "==", "!", "\x00", "\x01", "\x1f", "\x7f", "\xc3", "\xe6\x97", "\xff", "é", "日", "\U0001F600", "\u2028", "\u0301", "\\n", "0x1", "1e9", "-", "--"}

func genWild(r *rt.Rand) []wild {
	var ws []wild
	if r.Intn(2) == 0 {
		ws = append(ws, wild{Ins: Str(magics[r.Intn(len(magics))])})
		if r.Intn(2) == 0 {
			return ws
		}
	}
	for n := 1 + r.Intn(6); n > 0; n-- {
		x := wild{At: r.Intn(1001), Ins: Str(wildBits[r.Intn(len(wildBits))])}
		if r.Intn(3) == 0 {
			x.Del = 1 + r.Intn(8)
		}
		if r.Intn(5) == 0 {
			x.Ins += Str(wildBits[r.Intn(len(wildBits))])
		}
		ws = append(ws, x)
	}
	return ws
}

func (x wild) apply(s string) string {
	at := len(s) * x.At / 1000
	return s[:at] + string(x.Ins) + s[min(len(s), at+x.Del):]
}

func genRead(r *rt.Rand) *readPlan {
	p := &readPlan{Feed: genFeed(r), Cut: -1}
	target := r.Intn(200)
	switch r.Intn(6) {
	case 0, 1:
		target = 1500 + r.Intn(3200)
	case 2:
		target = 4000 + r.Intn(12000)
	case 3:
		target = r.Intn(20)
	}
	p.Kind = []string{"ogdl", "ogdl", "types", "reader", "path", "expr", "tpl", "tpl", "lexer", "lexer", "toks", "toks"}[r.Intn(12)]
	switch p.Kind {
	case "path":
		p.Es = genPath(r, target)
	case "expr":
		p.Es = genExpr(r, target, 2)
	case "tpl":
		p.Es = genTemplate(r, target)
	case "lexer":
		p.Es = []*E{{K: "text", T: "aé日\U0001F600z\xff\xe6\x97", L: 0}}
		for n := r.Intn(4); n > 0; n-- {
			p.Es = append(p.Es, &E{K: "text", T: Str([]string{"é", "日本語", "x", "\U0001F600\U0001F600", "\xe6\x97", "\xf0\x9f"}[r.Intn(6)]), L: r.Intn(target + 1)})
		}
		for n := 20 + r.Intn(target+60); n > 0; n-- {
			p.Ops = append(p.Ops, r.Intn(60))
		}
	case "toks":
		if r.Intn(3) == 0 {
			p.Es = genTemplate(r, target)
		} else {
			p.Doc = genDoc(r, target)
		}
		for n := 10 + r.Intn(target/4+30); n > 0; n-- {
			p.Ops = append(p.Ops, r.Intn(1000))
		}
	default:
		p.Doc = genDoc(r, target)
		if r.Intn(3) == 0 {
			p.Pre = 1 + r.Intn(5000)
		}
	}
	if r.Intn(3) == 0 {
		p.rich(r, target)
	}
	if p.Kind == "toks" && r.Intn(2) == 0 || p.Kind != "lexer" && r.Intn(4) == 0 {
		p.Wild = genWild(r)
	}
	if r.Intn(2) == 0 {
		p.Shift = []int{1, 2, 3, 5, 100, 1000, 2040 + r.Intn(16), 4080 + r.Intn(32), r.Intn(4500), 6140 + r.Intn(10)}[r.Intn(10)]
	}
	return p
}

// rich makes the text one that uses everything.
func (p *readPlan) rich(r *rt.Rand, target int) {
	t := &tgen{r: r, assign: true}
	s := ""
	switch p.Kind {
	case "path":
		s = t.path(3)
	case "expr":
		s = t.expr(4)
	case "tpl":
		s = t.tmpl(3, 1+r.Intn(8), false)
		p.Rep = target / (len(s) + 1)
	default:
		return
	}
	if r.Intn(2) == 0 {
		s = strings.NewReplacer("a", "é", "b", "日", "x", "ж", "c", "\U0001F600").Replace(s)
	}
	p.Rich, p.Es = Str(s), nil
}

// input gives the text and the graph it denotes.
func (p *readPlan) input() (string, *ogdl.Graph) {
	var b strings.Builder
	g := ogdl.New("_")
	switch kind := p.Kind; {
	case p.Rich != "":
		return strings.Repeat(string(p.Rich), 1+p.Rep), nil
	case kind == "path":
		path(p.Es, &b, g)
	case kind == "expr":
		expr(p.Es, &b, g)
	case kind == "tpl" || kind == "toks" && p.Es != nil:
		template(p.Es, &b, g)
	case kind == "lexer":
		for _, e := range p.Es {
			s := string(e.T)
			b.WriteString(s)
			if e.L > 0 && s != "" {
				b.WriteString(strings.Repeat(s, e.L/len(s)))
			}
		}
	default:
		if p.Doc == nil {
			p.Doc = &Doc{}
		}
		s, g2 := p.Doc.render(p.Kind == "types")
		if p.Pre > 0 {
			s = "# " + pad(p.Pre) + "\n" + s
		}
		return s, g2
	}
	return b.String(), g
}

// parseFrom applies the entry point of the plan to a reader.
func (p *readPlan) parseFrom(r io.Reader) (*ogdl.Graph, *ogdl.Parser) {
	if p.Kind == "reader" {
		return ogdl.FromReader(r), nil
	}
	ps := ogdl.NewParser(r)
	return p.parseWith(ps), ps
}

func (p *readPlan) parseWith(ps *ogdl.Parser) *ogdl.Graph {
	switch p.Kind {
	case "toks":
		return p.tokens(ps)
	case "types":
		ps.OgdlTypes()
	case "path":
		ps.Path()
	case "expr":
		ps.Expression()
	case "tpl":
		ps.Template()
	default:
		ps.Ogdl()
	}
	return ps.Graph()
}

// tokens applies a series of productions, and gives what they return.
func (p *readPlan) tokens(ps *ogdl.Parser) *ogdl.Graph {
	g := ogdl.New("_")
	note := func(xs ...interface{}) { g.Add(fmt.Sprint(xs...)) }
	for _, op := range p.Ops {
		k := op / 40
		switch op % 40 {
		case 0, 1, 2:
			note(ps.String())
		case 3:
			note(ps.StringStop([]byte([]string{",", "()", "a", ".]", "\"'"}[k%5])))
		case 4, 5:
			note(ps.Break())
		case 6:
			note(ps.End())
		case 7, 8:
			note(ps.WhiteSpace())
		case 9, 10, 11:
			note(ps.Space())
		case 12:
			note(ps.SpaceMax(1 + k%4))
		case 13, 14:
			note(ps.Quoted(k % 4))
		case 15, 16:
			note(ps.Token8())
		case 17:
			note(ps.Integer())
		case 18:
			note(ps.Number())
		case 19, 20:
			note(ps.Operator())
		case 21, 22:
			note(ps.TemplateText())
		case 23:
			note(ps.Comment())
		case 24, 25:
			note(ps.Block(k % 3))
		case 26:
			note(ps.Scalar(k % 3))
		case 27, 28:
			note(ps.ScalarType(k % 3))
		case 29:
			note(ps.PeekByte())
		case 30:
			note(ps.PeekRune())
		case 31, 32, 33:
			n := 0
			for ; n < k; n++ {
				c, err := ps.Byte()
				note(c, err)
				if err != nil {
					break
				}
			}
			for n = n * (op % 3) / 2; n > 0; n-- {
				ps.UnreadByte()
			}
		case 34:
			c, err := ps.Rune()
			note(c, err)
			if err == nil && k%2 == 0 {
				ps.UnreadRune()
			}
		case 35:
			note(ps.Variable())
		case 36:
			note(ps.Text())
		case 37:
			note(ps.Path())
		case 38:
			note(ps.ArgList())
		case 39:
			note(ps.Expression())
		}
	}
	g.Add("tree").AddNodes(ps.Graph())
	return g
}

func genC06(r *rt.Rand, run int) Plan {
	p := genRead(r)
	p.together(r, genRead)
	return p
}

// together adds other readings, at times.
func (p *readPlan) together(r *rt.Rand, gen func(r *rt.Rand) *readPlan) {
	if r.Intn(4) > 0 {
		return
	}
	p.MeanGap = []int{3, 10, 50, 300, 2000}[r.Intn(5)]
	for n := 1 + r.Intn(3); n > 0; n-- {
		p.Also = append(p.Also, gen(r))
	}
}

// besides runs others in tasks of their own while f runs.
func besides[P any](w *rt.World, e *Env, also []P, one func(p P), f func()) {
	var ts []*rt.Task
	if len(also) > 0 {
		e.Hit("several at the same time")
		node := w.NewNode("process")
		for _, p := range also {
			p := p
			ts = append(ts, w.Spawn(node, "reading", func() { one(p) }))
		}
	}
	f()
	for _, t := range ts {
		w.Join(t, 0)
	}
}

func (p *readPlan) Run(w *rt.World, e *Env) {
	besides(w, e, p.Also, func(q *readPlan) {
		if q != nil {
			q.run(w, e)
		}
	}, func() { p.run(w, e) })
}

func (p *readPlan) run(w *rt.World, e *Env) {
	s, want := p.input()
	for _, x := range p.Wild {
		s = x.apply(s)
	}
	w.Room(len(s))
	if len(s) > 2048 {
		e.Hit("longer than half the buffer")
	}
	if len(s) > 4096 {
		e.Hit("longer than the buffer")
	}
	e.Hit("kind " + p.Kind)
	if p.Cut >= 0 {
		p.runFail(w, e, s)
		return
	}
	e.Ops++
	if p.Kind == "lexer" {
		p.runLexer(w, e, s)
		return
	}
	if len(p.Wild) > 0 || p.Rich != "" || p.Kind == "toks" {
		p.runWild(w, e, s)
		return
	}
	g, ps := p.parseFrom(wrapped(w, p.Feed, s))
	if d := sameGraph(g, want); d != "" {
		w.Fail(p.Kind+"-content", "%s of %d bytes read in pieces: %s", p.Kind, len(s), d)
	}
	if ps != nil {
		if err := ps.Error(); err != nil && err != io.EOF {
			w.Fail("spurious-error", "%s of %d bytes: Error() gives %v although the reader did not fail", p.Kind, len(s), err)
		}
	}
	// given as a string
	var g2 *ogdl.Graph
	switch p.Kind {
	case "ogdl":
		g2 = ogdl.FromString(s)
		own := []byte(s)
		fromBytes := ogdl.FromBytes(own)
		scribble(own)
		if d := sameGraph(fromBytes, want); d != "" {
			w.Fail(p.Kind+"-string", "FromBytes of %d bytes: %s", len(s), d)
		}
	case "types":
		g2 = ogdl.FromStringTypes(s)
	case "path":
		g2 = ogdl.NewPath(s)
		want.This = ogdl.TypePath
	default:
		return
	}
	if d := sameGraph(g2, want); d != "" {
		w.Fail(p.Kind+"-string", "%s of %d bytes given as a string: %s", p.Kind, len(s), d)
	}
}

// runWild reads an edited text, which may be malformed: the graph is the one of the whole text
// given in one piece, and as a string.
func (p *readPlan) runWild(w *rt.World, e *Env, s string) {
	e.Hit("edited text")
	if p.Rich != "" {
		e.Hit("rich text")
	}
	var want *ogdl.Graph
	res := guard(func() string {
		w.Limit(5000000+2000*int64(len(s)), func() { want, _ = p.parseFrom(whole(s)) })
		return ""
	})
	if res == "panic: "+rt.TooLong {
		w.Fail("endless", "%s of %d bytes, given in one piece: the parser does not end\n%s", p.Kind, len(s), short(s))
	}
	same := func(what string, f func() *ogdl.Graph) {
		var g *ogdl.Graph
		if r := guard(func() string { g = f(); return "" }); r != res {
			w.Fail(p.Kind+"-wild", "%s of %d bytes %s: %q, given in one piece: %q", p.Kind, len(s), what, r, res)
		}
		if d := sameGraph(g, want); d != "" {
			w.Fail(p.Kind+"-wild", "%s of %d bytes %s, against given in one piece: %s\n%s", p.Kind, len(s), what, d, short(s))
		}
	}
	same("read in pieces", func() *ogdl.Graph { g, _ := p.parseFrom(wrapped(w, p.Feed, s)); return g })
	if p.Shift > 0 && p.Kind != "reader" {
		// What was read before does not matter.
		e.Hit("parsed from the middle of a stream")
		same(fmt.Sprintf("read in pieces after %d other bytes", p.Shift), func() *ogdl.Graph {
			ps := ogdl.NewParser(wrapped(w, p.Feed, strings.Repeat("~", p.Shift)+s))
			for i := 0; i < p.Shift; i++ {
				ps.Byte()
			}
			return p.parseWith(ps)
		})
	}
	switch p.Kind {
	case "ogdl", "reader":
		same("given as a string", func() *ogdl.Graph { return ogdl.FromString(s) })
		same("given as bytes", func() *ogdl.Graph {
			own := []byte(s)
			defer scribble(own)
			return ogdl.FromBytes(own)
		})
	case "types":
		same("given as a string", func() *ogdl.Graph { return ogdl.FromStringTypes(s) })
	}
}

// runLexer reads and un-reads bytes and characters.
func (p *readPlan) runLexer(w *rt.World, e *Env, s string) {
	l := ogdl.NewLexer(wrapped(w, p.Feed, s))
	pos, hi := 0, 0
	var undo []int // 0 = byte, n = rune of n bytes
	const keep = 1000
	n := len(s)
	getByte := func(i int) {
		c, err := l.Byte()
		if pos >= n {
			if err == nil {
				w.Fail("lexer-end", "op %d: Byte() at the end (%d bytes) gives %q and no error", i, n, c)
			}
			if pos == n {
				pos++
				undo = append(undo, 0)
			}
			return
		}
		if err != nil || c != s[pos] {
			w.Fail("lexer-byte", "op %d: Byte() at %d of %d gives %q (error %v), the stream has %q", i, pos, n, c, err, s[pos])
		}
		pos++
		undo = append(undo, 0)
	}
	getRune := func(i int) {
		if pos > n {
			return
		}
		c, err := l.Rune()
		if pos >= n {
			if err == nil && c != 0 {
				w.Fail("lexer-end", "op %d: Rune() at the end (%d bytes) gives %q and no error", i, n, c)
			}
			pos++
			undo = append(undo, 1)
			return
		}
		wc, size := utf8.DecodeRuneInString(s[pos:])
		if err != nil || c != wc {
			w.Fail("lexer-rune", "op %d: Rune() at %d of %d gives %q (error %v), the stream has %q", i, pos, n, c, err, wc)
		}
		pos += size
		undo = append(undo, size)
	}
	for i, op := range p.Ops {
		w.Pause()
		if pos > hi {
			hi = pos
		}
		e.Ops++
		switch {
		case op < 14:
			for k := 0; k <= op; k++ {
				getByte(i)
			}
		case op < 28:
			for k := 0; k <= op-14; k++ {
				getRune(i)
			}
		case op < 40:
			for k := 0; k < (op-27)*3 && len(undo) > 0; k++ {
				u := undo[len(undo)-1]
				sz := max(u, 1)
				if pos-sz < hi-keep {
					break
				}
				undo = undo[:len(undo)-1]
				if u == 0 {
					l.UnreadByte()
				} else {
					l.UnreadRune()
				}
				pos -= sz
			}
		case op < 46:
			if pos > n {
				continue
			}
			c := l.PeekByte()
			var wc byte
			if pos < n {
				wc = s[pos]
			}
			if c != wc {
				w.Fail("lexer-byte", "op %d: PeekByte() at %d of %d gives %q, the stream has %q", i, pos, n, c, wc)
			}
		case op < 52:
			if pos >= n {
				continue
			}
			c, err := l.PeekRune()
			wc, _ := utf8.DecodeRuneInString(s[pos:])
			if c != wc || err != nil {
				w.Fail("lexer-rune", "op %d: PeekRune() at %d of %d gives %q (%v), the stream has %q", i, pos, n, c, err, wc)
			}
		case op < 56: // a long stretch
			for k := 0; k < 700; k++ {
				getByte(i)
			}
		default:
			for k := 0; k < 300; k++ {
				getRune(i)
			}
		}
	}
}

// ---- C07 ----

func genC07(r *rt.Rand, run int) Plan {
	p := genReadFail(r)
	p.together(r, genReadFail)
	return p
}

func genReadFail(r *rt.Rand) *readPlan {
	p := genRead(r)
	for p.Kind == "lexer" {
		p = genRead(r)
	}
	p.Cut = r.Intn(1001)
	p.Near = r.Intn(3) == 0
	p.Feed.Err = r.Intn(len(errKinds))
	p.Feed.With = r.Intn(2) == 0
	p.Feed.Once = r.Intn(2) == 0
	p.Feed.Forever = r.Intn(5) == 0
	return p
}

func (p *readPlan) runFail(w *rt.World, e *Env, s string) {
	at := len(s) * p.Cut / 1000
	if p.Near {
		// near a boundary of the lexer's buffer
		b := []int{2048, 4096, 6144, 8192}[p.Cut%4] + p.Cut%7 - 3
		if b < len(s) {
			at = b
		}
	}
	p.Feed.Fail = at
	if p.Feed.Once {
		s += s // what a reader that goes on would deliver
	}
	f := newFeeder(w, p.Feed, s)
	r0 := f.reads
	e.Ops++
	g, ps := p.parseFrom(f)
	given := at
	if !f.failed {
		// The parser stopped before it came to the failure: it must have had a reason, which
		// reading only the bytes it took shows as well.
		e.Hit("parser stopped before the failure")
		given = f.pos
	}
	var want *ogdl.Graph
	w.Limit(5000000+2000*int64(given), func() { want, _ = p.parseFrom(whole(s[:given])) })
	if d := sameGraph(g, want); d != "" {
		w.Fail(p.Kind+"-prefix", "%s: the reader failed (%v, persistent %v, with data %v, stalled %v) after %d bytes; against the graph of these bytes: %s", p.Kind, f.err(), !p.Feed.Once, p.Feed.With, p.Feed.Forever, given, d)
	}
	if f.after > 1000 {
		w.Fail("reads-after-failure", "%s: %d reads after the reader failed", p.Kind, f.after)
	}
	_ = r0
	if ps != nil && f.failed {
		err := ps.Error()
		if p.Feed.Forever {
			// what comes with the last bytes is no sign yet that nothing follows
			if f.stalls > 0 && (err == nil || err == io.EOF) {
				w.Fail("error-lost", "%s: the reader made no progress any more after %d bytes, Error() gives %v", p.Kind, given, err)
			}
		} else if !errors.Is(err, f.err()) {
			w.Fail("error-lost", "%s: the reader failed with %v after %d bytes, Error() gives %v", p.Kind, f.err(), given, err)
		}
	}
}

func init() {
	register(&Prop{ID: "C06", Quick: 90000, Thor: 900000, New: func() Plan { return &readPlan{} }, Gen: genC06, Real: readReal, Stub: readStub,
		Rule: "One run is one text (OGDL document, path, expression, template or byte sequence with a series of lexer operations) made from a known graph, delivered by a reader in pieces, with empty reads, and with the end alone or with data; the result must be the known graph. Some texts are edited afterwards (any bytes, also malformed); then the result must be the one of the text given whole. In some runs further tasks read other texts at the same time.",
		Note: []string{"documents keep to constructs whose meaning does not depend on grammar details: one style of indentation, no blank lines, blocks only at the top level", "un-reading goes back at most 1000 bytes"}})
	register(&Prop{ID: "C07", Quick: 120000, Thor: 1200000, New: func() Plan { return &readPlan{} }, Gen: genC07, Real: readReal, Stub: readStub,
		Rule: "One run is one text delivered by a reader that fails, or stops delivering, at one byte position (alone or with data, once or for good); the result must be the graph of exactly the bytes delivered, Error() must tell, and the parser must end. In some runs further tasks read other texts at the same time.",
		Note: []string{"the graph of the delivered bytes is obtained by parsing them delivered at once, which C06 checks against known graphs"}})
}
