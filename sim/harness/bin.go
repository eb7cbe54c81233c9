package main

import (
	"bufio"
	"fmt"
	"io"

	"github.com/rveen/ogdl"

	"verif.local/sim/rt"
)

var binReal = []string{"binary.go", "event.go", "graph.go (New, Add)", "gettypes.go (_bytes)", "bufio (standard library)"}
var binStub = []string{"the io.Reader given to the decoder: delivers pieces, empty reads, ends and failures as the simulator decides"}

// bobj is an object of a binary stream.
type bobj struct {
	K     []*N `json:"k"`
	Own   bool `json:"own,omitempty"`   // encoded by Binary(), else by the reference encoder
	Chunk int  `json:"chunk,omitempty"` // as in refOpt
	Form  int  `json:"form,omitempty"`
	Gap   int  `json:"gap,omitempty"` // this many other bytes follow
}

// exact is the tree of nodes as it is, with empty nodes.
func exact(ns []*N) []*M {
	var r []*M
	for _, n := range spread(ns) {
		s := n.content()
		kids := exact(n.K)
		for i := 0; i < n.D; i++ {
			kids = []*M{{s: "d", str: true, k: kids}}
		}
		r = append(r, &M{s: s, str: !n.B && (s == "" || plainText(s)), k: kids})
	}
	return r
}

func (o *bobj) encode() ([]byte, []*M) {
	if o.Own {
		return append([]byte(nil), graph(o.K).Binary()...), model(o.K)
	}
	m := exact(o.K)
	return refEncode(m, refOpt{o.Chunk, o.Form}), m
}

// kinds checks that nodes encoded as binary nodes come back as bytes.
func kinds(g *ogdl.Graph, ms []*M, chunk int) string {
	for i, m := range ms {
		c := g.Out[i]
		if _, isB := c.This.([]byte); !isB && !m.str && (chunk > 0 || !plainText(m.s)) {
			return fmt.Sprintf("the binary node %s comes back as a %T", show(m.s), c.This)
		}
		if d := kinds(c, m.k, chunk); d != "" {
			return d
		}
	}
	return ""
}

type binPlan struct {
	Common
	Kind string  `json:"kind"` // bufio reader bytes
	Size int     `json:"size"` // of the bufio.Reader
	Objs []*bobj `json:"objs"`
	Feed Feed    `json:"feed"`
	Cut  int     `json:"cut"` // C09: in thousandths of the stream; -1 none
	Tail int     `json:"tail,omitempty"`
	Big  int     `json:"big,omitempty"` // C09: the last object ends in a binary node said to have this many bytes
	EOF  bool    `json:"trunc,omitempty"`

	Also []*binPlan `json:"also,omitempty"` // decoded at the same time
	one  bool
}

func (p *binPlan) Run(w *rt.World, e *Env) {
	p.one = len(p.Also) == 0
	besides(w, e, p.Also, func(q *binPlan) {
		if q != nil {
			q.run(w, e)
		}
	}, func() { p.run(w, e) })
}

func (p *binPlan) together(r *rt.Rand, gen func(r *rt.Rand) *binPlan) {
	if r.Intn(4) > 0 {
		return
	}
	p.MeanGap = []int{3, 10, 50, 300}[r.Intn(4)]
	for n := 1 + r.Intn(3); n > 0; n-- {
		if q := gen(r); q.size() < 1<<20 {
			p.Also = append(p.Also, q)
		}
	}
}

func genBin(r *rt.Rand, max int) *binPlan {
	p := &binPlan{Feed: genFeed(r), Cut: -1}
	p.Kind = []string{"bufio", "bufio", "bufio", "reader", "bytes"}[r.Intn(5)]
	p.Size = []int{16, 17, 64, 100, 1000, 4096, 4096, 65536}[r.Intn(8)]
	n := r.Intn(max + 1)
	for i := 0; i < n; i++ {
		o := logTree(r)
		o.empty = r.Intn(3) == 0
		o.huge = r.Intn(3000) == 0 && p.size() < 1<<20
		b := &bobj{K: genTree(r, o, fmt.Sprintf("o%d.", i)), Own: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			b.Chunk = []int{1, 2, 3, 127, 128, 1000, 16384}[r.Intn(7)]
			b.Form = r.Intn(5)
		}
		if r.Intn(4) == 0 {
			b.Gap = r.Intn(30)
		}
		p.Objs = append(p.Objs, b)
	}
	return p
}

func (p *binPlan) size() int {
	l := 0
	for _, o := range p.Objs {
		l += longest(o.K)
	}
	return l
}

func longest(ns []*N) int {
	l := 0
	for _, n := range ns {
		l = max(l, n.L, n.D*100, n.W*30, longest(n.K))
	}
	return l
}

func gapBytes(n int) string {
	b := []byte(pad(n))
	for i := 0; i < len(b); i += 3 {
		b[i] = []byte{0, 1, 'G', 0xff}[i%4]
	}
	return string(b)
}

func (p *binPlan) run(w *rt.World, e *Env) {
	var all []byte
	type ob struct {
		m    []*M
		o    *bobj
		from int
		to   int
	}
	var obs []ob
	for _, o := range p.Objs {
		w.Room(longest(o.K))
	}
	for _, o := range p.Objs {
		if p.Kind != "bufio" && len(obs) == 1 {
			break
		}
		b, m := o.encode()
		obs = append(obs, ob{m, o, len(all), len(all) + len(b)})
		all = append(all, b...)
		if p.Kind == "bufio" {
			all = append(all, gapBytes(o.Gap)...)
		}
		e.Hit("objects")
	}
	if p.Kind != "bufio" && len(obs) == 0 {
		return
	}
	if p.Cut >= 0 && len(obs) > 0 {
		last := &obs[len(obs)-1]
		if p.Big > 0 {
			all = append(all[:last.to-1], 1, 1)
			all = append(all, refVarInt(p.Big, 4)...)
			all = append(all, "some bytes"...)
			last.to = 1 << 30
			e.Hit("claims a large node")
		}
		at := len(all) * p.Cut / 1000
		if p.Big > 0 && p.Tail > 0 {
			at = len(all)
		} else if p.Tail > 0 {
			at = max(0, min(last.to, len(all))-p.Tail)
		}
		p.Feed.Fail = at
		if p.EOF {
			all = all[:at]
			p.Feed.Fail = -1
		}
		lim := uint64(3<<20) + 1500*uint64(len(all))
		a0 := AllocBytes()
		defer func() {
			if a := AllocBytes() - a0; p.one && a > lim {
				w.Fail("memory", "decoding a stream of %d bytes allocated %d bytes", len(all), a)
			}
		}()
		for i := range obs {
			if obs[i].to > at {
				obs[i].m = nil
			}
		}
	}
	f := newFeeder(w, p.Feed, string(all))
	var rd io.Reader = f
	if p.Feed.Fail < 0 {
		rd = wrapped(w, p.Feed, string(all))
	}
	cut := p.Cut >= 0
	check := func(i int, g *ogdl.Graph) bool {
		e.Ops++
		o := obs[i]
		if cut && o.to > p.limit(all) {
			if g != nil {
				w.Fail("object-from-incomplete-stream", "%s: the stream ends or fails after %d bytes, in object %d (bytes %d to %d), and gives a graph %s", p.Kind, p.limit(all), i, o.from, o.to, kidsG(g))
			}
			return false
		}
		if d := diff(g, o.m); d != "" {
			w.Fail("content", "%s: object %d of %d: %s", p.Kind, i, len(obs), d)
		}
		ch := o.o.Chunk
		if !o.o.Own {
			if d := kinds(g, o.m, ch); d != "" {
				w.Fail("kind", "%s: object %d of %d: %s", p.Kind, i, len(obs), d)
			}
		}
		return true
	}
	switch p.Kind {
	case "bytes":
		if p.Cut >= 0 {
			all = all[:p.limit(all)]
		}
		own := append([]byte(nil), all...)
		g := ogdl.FromBinary(own)
		scribble(own)
		check(0, g)
	case "reader":
		check(0, ogdl.FromBinaryReader(rd))
	default:
		r := bufio.NewReaderSize(rd, p.Size)
		for i := range obs {
			if !check(i, ogdl.FromBinaryBufioReader(r)) {
				return
			}
			if n := obs[i].o.Gap; n > 0 {
				if cut && obs[i].to+n > p.limit(all) {
					return
				}
				var b []byte
				var err error
				for len(b) < n && err == nil {
					var c byte
					if c, err = r.ReadByte(); err == nil {
						b = append(b, c)
					}
				}
				if string(b) != gapBytes(n) || err != nil {
					w.Fail("consumed", "after object %d the reader should be at the %d bytes that follow it, but gives %s (%v)", i, n, show(string(b)), err)
				}
			}
		}
		for k := 0; k < 2; k++ {
			if g := ogdl.FromBinaryBufioReader(r); g != nil {
				w.Fail("end", "the stream of %d objects is used up, and gives another graph %s", len(obs), kidsG(g))
			}
		}
	}
	if f.after > 1000 {
		w.Fail("reads-after-failure", "%d reads after the reader failed", f.after)
	}
}

// limit is the number of bytes that can be had.
func (p *binPlan) limit(all []byte) int {
	if p.Feed.Fail >= 0 {
		return p.Feed.Fail
	}
	return len(all)
}

func genC08(r *rt.Rand, run int) Plan {
	p := genBin(r, 6)
	p.together(r, func(r *rt.Rand) *binPlan { return genBin(r, 3) })
	return p
}

func genC09(r *rt.Rand, run int) Plan {
	p := genBinCut(r)
	p.together(r, genBinCut)
	return p
}

func genBinCut(r *rt.Rand) *binPlan {
	p := genBin(r, 4)
	for len(p.Objs) == 0 {
		p = genBin(r, 4)
	}
	p.Cut = r.Intn(1001)
	if r.Intn(3) == 0 {
		p.Tail = 1 + r.Intn(8)
	}
	if r.Intn(6) == 0 {
		p.Big = []int{200, 20000, 1 << 20, 1<<28 - 1}[r.Intn(4)]
	}
	p.EOF = r.Intn(2) == 0
	p.Feed.Err = r.Intn(len(errKinds))
	p.Feed.With = r.Intn(2) == 0
	p.Feed.Once = r.Intn(2) == 0
	p.Feed.Forever = r.Intn(5) == 0
	return p
}

func init() {
	register(&Prop{ID: "C08", Quick: 180000, Thor: 1800000, New: func() Plan { return &binPlan{} }, Gen: genC08, Real: binReal, Stub: binStub,
		Rule: "One run is one stream of up to 6 binary objects, encoded by Binary or by a reference encoder that also uses chunked binary nodes, longer integers and empty nodes, some followed by foreign bytes, delivered in pieces; each decoded object must be the encoded tree, and the foreign bytes must be next in the reader. In some runs further tasks read other streams at the same time.",
		Note: []string{"a chain of more than one object is only read through FromBinaryBufioReader, which is the only entry point that can"}})
	register(&Prop{ID: "C09", Quick: 180000, Thor: 1800000, New: func() Plan { return &binPlan{} }, Gen: genC09, Real: binReal, Stub: binStub,
		Rule: "One run is one stream of up to 4 binary objects that ends, fails or stalls at one byte position (some claim a node of up to 256 MB there); objects before it must be decoded, the one that is not complete must give nil, with memory in proportion to the bytes delivered. In some runs further tasks read other streams at the same time.",
		Note: []string{"after a reader failed once, nothing more is decoded from it"}})
}
