package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/rveen/ogdl"

	"verif.local/sim/rt"
)

// N is a node of a tree in a plan.
type N struct {
	T Str  `json:"t"`           // content
	L int  `json:"l,omitempty"` // content is extended to this length
	E Str  `json:"e,omitempty"` // the end of the content
	B bool `json:"b,omitempty"` // content is a byte slice
	Y int  `json:"y,omitempty"` // content is a number or a boolean: 1 int, 2 int64, 3 float64, 4 bool
	D int  `json:"d,omitempty"` // this many further nodes in a chain between this one and its children
	W int  `json:"w,omitempty"` // this many leaves follow the node
	K []*N `json:"k,omitempty"`
}

// spread gives the list of nodes with the leaves that follow them.
func spread(ns []*N) []*N {
	n := 0
	for _, x := range ns {
		n += x.W
	}
	if n == 0 {
		return ns
	}
	r := make([]*N, 0, len(ns)+n)
	for _, x := range ns {
		r = append(r, x)
		for i := 0; i < x.W; i++ {
			r = append(r, &N{T: Str("w" + strconvI(i))})
		}
	}
	return r
}

// content of the node.
func (n *N) content() string {
	if n.Y > 0 && n.Y <= 4 {
		return fmt.Sprint(n.value())
	}
	if n.L <= len(n.T) {
		return string(n.T) + string(n.E)
	}
	return string(n.T) + pad(n.L-len(n.T)) + string(n.E)
}

// value that the node is given.
func (n *N) value() interface{} {
	switch n.Y {
	case 1:
		return n.L
	case 2:
		return int64(n.L)
	case 3:
		return float64(n.L) / 4
	case 4:
		return n.L%2 == 0
	}
	if n.B {
		return []byte(n.content())
	}
	return n.content()
}

const alpha = "abcdefghijklmnopqrstuvwxyz0123456789"

func pad(n int) string {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 7
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = alpha[(x>>20)%uint32(len(alpha))]
	}
	return string(b)
}

// M is a tree as the model sees it: bytes, and whether they must come back as a string.
type M struct {
	s   string
	str bool
	k   []*M
}

// plainText tells whether a content can be a text node of binary OGDL.
func plainText(s string) bool {
	return s != "" && s[0] != 1 && strings.IndexByte(s, 0) < 0
}

// model gives the normal form of the children of a list of nodes: empty nodes are transparent.
func model(ns []*N) []*M {
	var r []*M
	for _, n := range spread(ns) {
		s := n.content()
		kids := model(n.K)
		for i := 0; i < n.D; i++ {
			kids = []*M{{s: "d", str: true, k: kids}}
		}
		if s == "" {
			r = append(r, kids...)
			continue
		}
		r = append(r, &M{s: s, str: (!n.B || n.Y > 0) && plainText(s), k: kids})
	}
	return r
}

// graph builds the graph through the public interface.
func graph(ns []*N) *ogdl.Graph {
	g := ogdl.New("_")
	addAll(g, ns)
	return g
}

func addAll(g *ogdl.Graph, ns []*N) {
	for _, n := range spread(ns) {
		c := g.Add(n.value())
		for i := 0; i < n.D; i++ {
			c = c.Add("d")
		}
		addAll(c, n.K)
	}
}

// asBytes gives the content of a node.
func asBytes(x interface{}) (string, bool) {
	switch v := x.(type) {
	case nil:
		return "", false
	case string:
		return v, true
	case []byte:
		return string(v), false
	}
	return fmt.Sprint(x), false
}

// diff compares a graph with a model; it returns "" when they are equal.
func diff(g *ogdl.Graph, ms []*M) string {
	if g == nil {
		return "there is no graph"
	}
	return diffKids(g, ms, "")
}

func diffKids(g *ogdl.Graph, ms []*M, path string) string {
	// iterative along single chains to keep the stack small
	for {
		if len(g.Out) != len(ms) {
			return fmt.Sprintf("at %q: %d nodes instead of %d (%s instead of %s)", short(path), len(g.Out), len(ms), kidsG(g), kidsM(ms))
		}
		for i, m := range ms {
			c := g.Out[i]
			if c == nil {
				return fmt.Sprintf("at %q: nil node %d", short(path), i)
			}
			s, str := asBytes(c.This)
			if s != m.s {
				return fmt.Sprintf("at %q: node %d is %s instead of %s", short(path), i, show(s), show(m.s))
			}
			if m.str && !str {
				return fmt.Sprintf("at %q: node %d is a %T instead of a string", short(path), i, c.This)
			}
			if len(ms) > 1 {
				if d := diffKids(c, m.k, path+"/"+m.s); d != "" {
					return d
				}
			}
		}
		if len(ms) != 1 {
			return ""
		}
		if len(path) < 200 {
			path += "/" + ms[0].s
		}
		g, ms = g.Out[0], ms[0].k
	}
}

func short(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func show(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes, hash %x)", s[:40], len(s), rt.Hash(0, s)&0xffffff)
	}
	return fmt.Sprintf("%q", s)
}

func kidsG(g *ogdl.Graph) string {
	var b strings.Builder
	for i, c := range g.Out {
		if i == 4 {
			b.WriteString(" ...")
			break
		}
		if c == nil {
			b.WriteString(" nil")
			continue
		}
		s, _ := asBytes(c.This)
		b.WriteString(" " + show(s))
	}
	return "[" + b.String() + " ]"
}

func kidsM(ms []*M) string {
	var b strings.Builder
	for i, m := range ms {
		if i == 4 {
			b.WriteString(" ...")
			break
		}
		b.WriteString(" " + show(m.s))
	}
	return "[" + b.String() + " ]"
}

// sameGraph compares two graphs strictly (types and structure).
func sameGraph(a, b *ogdl.Graph) string { return sameG(a, b, "", 0) }

func sameG(a, b *ogdl.Graph, path string, depth int) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("at %q: nil graph on one side", short(path))
	}
	if depth > 5000 {
		return ""
	}
	sa, sb := fmt.Sprintf("%T %v", a.This, thisStr(a.This)), fmt.Sprintf("%T %v", b.This, thisStr(b.This))
	if sa != sb {
		return fmt.Sprintf("at %q: %s instead of %s", short(path), show(sa), show(sb))
	}
	if len(a.Out) != len(b.Out) {
		return fmt.Sprintf("at %q: %d nodes instead of %d (%s instead of %s)", short(path), len(a.Out), len(b.Out), kidsG(a), kidsG(b))
	}
	for i := range a.Out {
		if d := sameG(a.Out[i], b.Out[i], path+"/"+sa, depth+1); d != "" {
			return d
		}
	}
	return ""
}

func thisStr(x interface{}) interface{} {
	switch v := x.(type) {
	case []byte:
		return string(v)
	case *ogdl.Graph:
		if v == nil {
			return "nil"
		}
		return v.Text()
	}
	return x
}

// ---- generators ----

type treeOpt struct {
	max    int // nodes
	bin    bool
	nul    bool // contents with NUL or a leading 0x01
	empty  bool
	typed  bool
	big    int  // largest content
	deep   int  // longest chain
	wide   bool // one node is followed by many leaves
	huge   bool // one content of 2 MB, or one chain of more than 16383 nodes: integers of 3 and 4 bytes
	prefix string
}

var counter int

// genTree makes a list of nodes. Contents carry a number, so that they are distinguishable.
func genTree(r *rt.Rand, o treeOpt, id string) []*N {
	n := r.Intn(o.max + 1)
	if r.Intn(3) == 0 {
		n = r.Intn(4)
	}
	root := &N{}
	all := []*N{root}
	for i := 0; i < n; i++ {
		p := all[len(all)-1-r.Intn(min(len(all), 4))]
		if r.Intn(4) == 0 {
			p = all[r.Intn(len(all))]
		}
		c := &N{T: Str(fmt.Sprintf("%s%s", id, strconvI(i)))}
		switch r.Intn(10) {
		case 0:
			c.T += Str([]string{" b", "\n", "\"", "é", "日", "\xff\x80", ",", "#", "\\", "'"}[r.Intn(10)])
		case 1:
			c.T = Str([]string{"G", "a", "\x02", "é", "true", "1", "_", "\x7f", "G\x02"}[r.Intn(9)])
		}
		if o.empty && r.Intn(12) == 0 {
			c.T = ""
		}
		if o.bin && r.Intn(5) == 0 {
			c.B = true
		}
		if o.nul && r.Intn(6) == 0 {
			c.B = r.Intn(3) > 0
			c.T = Str([]string{"\x00", "\x01", "\x00\x00\x00", "\x01G\x00", "a\x00b", "\x01G\x00\x01a\x00\x00", "\x01\x01a\x00", "x\x00\x00"}[r.Intn(8)])
		}
		if o.big > 0 && r.Intn(12) == 0 && c.T != "" {
			sizes := []int{126, 127, 128, 129, 255, 256, 2047, 2048, 4095, 4096, 4097, 8192, 9999, 10000, 10001, 16383, 16384, 20000, 65535, 65536, 70000, 131072}
			l := sizes[r.Intn(len(sizes))]
			if r.Intn(3) == 0 {
				l = r.Intn(o.big)
			}
			c.L = min(l, o.big)
			if r.Intn(3) == 0 && (o.bin || o.nul) {
				// its nature shows late
				c.E = Str([]string{"\x00", "\x00b", "\x01", "\xff", "\xe6\x97", "é", "\n", "\x00\x00\x00"}[r.Intn(8)])
				if c.B = true; o.nul {
					c.B = r.Intn(2) == 0
				} else if c.E[0] == 0 {
					c.E = "\x01"
				}
			}
		} else if o.typed && r.Intn(10) == 0 && len(all) > 1 {
			c.Y, c.L, c.B = 1+r.Intn(4), r.Intn(100000)-5000, false
		}
		if o.deep > 0 && r.Intn(40) == 0 {
			d := []int{125, 126, 127, 128, 300}[r.Intn(5)]
			c.D = min(d, o.deep)
		}
		p.K = append(p.K, c)
		all = append(all, c)
	}
	if o.wide && len(all) > 1 {
		c := all[1+r.Intn(len(all)-1)]
		c.W = []int{63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 5000, 10001}[r.Intn(22)]
	}
	if o.huge && len(all) > 1 {
		c := all[1+r.Intn(len(all)-1)]
		c.Y = 0
		if r.Intn(3) == 0 {
			c.W = []int{32767, 32768, 65534, 65535, 65536, 65537, 70000}[r.Intn(7)]
		} else if r.Intn(2) == 0 {
			c.T, c.L = "h", []int{2097150, 2097151, 2097152, 2097153, 2100000, 16383, 16384, 16385}[r.Intn(8)]
			if r.Intn(8) == 0 {
				c.L = 0x1020304
			}
			c.B, c.E = o.bin, ""
			if o.nul {
				c.T = "\x00"
			}
		} else {
			c.D = []int{16380, 16381, 16382, 16383, 16384, 16385, 20000}[r.Intn(7)]
		}
	}
	return root.K
}

func strconvI(i int) string { return fmt.Sprint(i) }

// ---- reference binary codec ----

// refVarInt encodes in the shortest form, or in a longer one when form says so.
func refVarInt(i, form int) []byte {
	need := 1
	switch {
	case i >= 0x200000:
		need = 4
	case i >= 0x4000:
		need = 3
	case i >= 0x80:
		need = 2
	}
	if form < need {
		form = need
	}
	switch form {
	case 1:
		return []byte{byte(i)}
	case 2:
		return []byte{byte(i>>8) | 0x80, byte(i)}
	case 3:
		return []byte{byte(i>>16) | 0xc0, byte(i >> 8), byte(i)}
	}
	return []byte{byte(i>>24) | 0xe0, byte(i >> 16), byte(i >> 8), byte(i)}
}

// refOpt tells how the reference encoder writes.
type refOpt struct {
	chunk int // size of the chunks of binary nodes, 0 = one chunk
	form  int // length of varints, 0/1 = shortest
}

func refEncode(ms []*M, o refOpt) []byte {
	b := bytes.NewBuffer([]byte{1, 'G', 0})
	type item struct {
		m   *M
		lev int
	}
	var st []item
	for i := len(ms) - 1; i >= 0; i-- {
		st = append(st, item{ms[i], 1})
	}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		b.Write(refVarInt(it.lev, o.form))
		if it.m.str || (o.chunk == 0 && plainText(it.m.s)) {
			b.WriteString(it.m.s)
		} else {
			b.WriteByte(1)
			s := it.m.s
			for s != "" {
				k := len(s)
				if o.chunk > 0 && k > o.chunk {
					k = o.chunk
				}
				b.Write(refVarInt(k, o.form))
				b.WriteString(s[:k])
				s = s[k:]
			}
		}
		b.WriteByte(0)
		for i := len(it.m.k) - 1; i >= 0; i-- {
			st = append(st, item{it.m.k[i], it.lev + 1})
		}
	}
	b.WriteByte(0)
	return b.Bytes()
}

// refDecode reads one object; n is its length, 0 if there is no whole valid object.
func refDecode(b []byte) (ms []*M, n int) {
	if len(b) < 4 || b[0] != 1 || b[1] != 'G' || b[2] != 0 {
		return nil, 0
	}
	p := 3
	varint := func() (int, bool) {
		if p >= len(b) {
			return 0, false
		}
		c := int(b[p])
		k, v := 0, c
		switch {
		case c < 0x80:
		case c < 0xc0:
			k, v = 1, c&0x3f
		case c < 0xe0:
			k, v = 2, c&0x1f
		case c < 0xf0:
			k, v = 3, c&0xf
		default:
			return 0, false
		}
		p++
		if p+k > len(b) {
			return 0, false
		}
		for i := 0; i < k; i++ {
			v = v<<8 | int(b[p])
			p++
		}
		return v, true
	}
	root := &M{}
	stack := []*M{root}
	for {
		lev, ok := varint()
		if !ok {
			return nil, 0
		}
		if lev == 0 {
			return root.k, p
		}
		if lev > len(stack) {
			return nil, 0
		}
		m := &M{}
		if p >= len(b) {
			return nil, 0
		}
		if b[p] == 1 {
			p++
			for {
				k, ok := varint()
				if !ok || p+k > len(b) {
					return nil, 0
				}
				if k == 0 {
					break
				}
				m.s += string(b[p : p+k])
				p += k
			}
		} else {
			e := bytes.IndexByte(b[p:], 0)
			if e < 0 {
				return nil, 0
			}
			m.s = string(b[p : p+e])
			m.str = true
			p += e + 1
		}
		stack = stack[:lev]
		par := stack[lev-1]
		par.k = append(par.k, m)
		stack = append(stack, m)
	}
}
