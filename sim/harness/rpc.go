package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"

	"verif.local/sim/rt"
	ssync "verif.local/sim/shim/sync"
	xtime "verif.local/sim/shim/time"
	"verif.local/sim/simfs"
	"verif.local/sim/simnet"
)

var rpcReal = []string{"ogdlrf/server.go", "ogdlrf/client.go", "ogdlrf/function.go", "binary.go", "event.go", "graph.go (New, Add, Binary)", "bufio, bytes, encoding/binary (standard library)"}
var rpcStub = []string{"net: simnet (ordered byte streams; segmentation, delay, back pressure, resets, partitions, refused and hanging dials, accept errors, half-open peers)", "clock and deadlines: simulated time", "processes and hosts: groups of simulated tasks that crash together", "log.Println: swallowed", "the handlers: written by the harness"}

const msec = int64(1000000)

// rpcPlan is one deployment: a server, clients, misbehaving peers and faults.
type rpcPlan struct {
	Common
	farLog           // C22
	Prop    string   `json:"prop"`
	Proto   int      `json:"proto"`
	ST      int      `json:"st"`  // timeout of the server, seconds
	Lat     int      `json:"lat"` // microseconds
	Jit     int      `json:"jit"`
	SegP    float64  `json:"seg"`
	Small   bool     `json:"small"`
	ReadP   float64  `json:"read"`
	DelayP  float64  `json:"delayp"`
	DelayMs int      `json:"delayms"`
	Slow    bool     `json:"slow,omitempty"` // delays come close to the timeouts
	ResetP  float64  `json:"resetp"`
	RefuseP float64  `json:"refusep"`
	AcceptP float64  `json:"acceptp"`
	AcceptN int      `json:"acceptn"`
	Window  int      `json:"window"`
	Clients []rcl    `json:"clients"`
	Raw     []rraw   `json:"raw"`
	Faults  []rfault `json:"faults"`
	// C22
	ShortRd float64 `json:"short,omitempty"`
	ChunkWr float64 `json:"chunk,omitempty"`
	PWrite  float64 `json:"pwrite,omitempty"`
	PSync   float64 `json:"psync,omitempty"`
}

type rcl struct {
	T   int   `json:"t"` // timeout, seconds
	Ops []rop `json:"ops"`
}

type rop struct {
	Op   string `json:"op"` // call, again (the same request as an earlier one), idle, dial, close
	Path string `json:"path,omitempty"`
	Fit  int    `json:"fit,omitempty"`  // the request has this many bytes
	FitA int    `json:"fita,omitempty"` // the answer has this many bytes
	Ms   int    `json:"ms,omitempty"`   // idle time, or time the handler takes
	In   []*N   `json:"in,omitempty"`
	Ans  []*N   `json:"ans,omitempty"`
	Nil  int    `json:"nil,omitempty"` // handler answers nil (1) or an empty graph (2)
	I    int    `json:"i,omitempty"`
}

// rraw is a misbehaving peer.
type rraw struct {
	At    int     `json:"at"` // ms
	Steps []rstep `json:"steps"`
}

type rstep struct {
	Op   string `json:"op"` // open, bytes, msg, wait, read, close, abort, half, vanish
	B    Str    `json:"b,omitempty"`
	Ms   int    `json:"ms,omitempty"`
	N    int    `json:"n,omitempty"`
	Cut  int    `json:"cut,omitempty"` // msg: number of bytes sent, per mille of the message (0 = all)
	Pad  int    `json:"pad,omitempty"`
	Trim int    `json:"trim,omitempty"` // msg: the object ends this many bytes too soon, and LEN says so
	Bad  int    `json:"bad,omitempty"`  // msg: corrupt the byte at this per mille, XOR N
	Msg  *rop   `json:"msg,omitempty"`
}

type rfault struct {
	Kind   string `json:"kind"` // part, reset, crash
	Bytes  int    `json:"bytes"`
	Ms     int    `json:"ms"`
	Client int    `json:"client"`
	Dur    int    `json:"dur"` // ms
	Hard   bool   `json:"hard,omitempty"`
	Ops    int    `json:"ops,omitempty"` // C22: power cut at an I/O operation
	Frac   int    `json:"frac,omitempty"`
}

// ---- generation ----

var (
	oddPaths = []string{"é", "a b", "#", "x\ny", "日本", "Bb", "d.e", long + "1"}
	noPaths  = []string{"nope", "A", "a ", " b", "a\n", "ab", "aa", "a.b", "É", "e\u0301", "d", "e", "bb", "x y", "x", "notFound", "error", "_", "a#", "'a'", "a,b", long, long + "2", long + "11"}
	long     = strings.Repeat("long", 70)
)

// routed tells whether there is a route of that name.
func routed(path string) bool {
	for _, s := range append([]string{"a", "b", "c"}, oddPaths...) {
		if s == path {
			return true
		}
	}
	return false
}

func genCall(r *rt.Rand, prop string, id string, sizes []int) rop {
	o := rop{Op: "call", Path: []string{"a", "b", "c"}[r.Intn(3)]}
	switch r.Intn(14) {
	case 0:
		o.Path = noPaths[r.Intn(len(noPaths))]
	case 1:
		o.Path = oddPaths[r.Intn(len(oddPaths))]
	}
	t := treeOpt{max: 1 + r.Intn(8), bin: r.Intn(3) == 0, nul: r.Intn(5) == 0, typed: r.Intn(4) == 0, wide: r.Intn(80) == 0}
	o.In = genTree(r, t, "p")
	t.max = 1 + r.Intn(8)
	o.Ans = genTree(r, t, "q")
	if len(sizes) > 0 {
		if r.Intn(3) == 0 {
			o.In = append(o.In, &N{T: "B", L: sizes[r.Intn(len(sizes))]})
		}
		if r.Intn(3) == 0 {
			o.Ans = append(o.Ans, &N{T: "B", L: sizes[r.Intn(len(sizes))]})
		}
	}
	if (len(sizes) > 0 || prop == "C14") && r.Intn(20) == 0 {
		fit := func() int {
			return []int{100, 256, 512, 1000, 1024, 1460, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072}[r.Intn(15)] + []int{0, 0, 0, 1, -1, -4, -5}[r.Intn(7)]
		}
		o.Fit = fit()
		if r.Intn(2) == 0 {
			o.FitA = fit()
		}
	}
	return o
}

// fitted gives a tree whose binary form has n bytes, if it is not longer already.
func fitted(t []*N, n int) []*N {
	if d := n - len(refEncode(model(t), refOpt{})) - 2; n > 0 && d > 0 && len(t) > 0 {
		t[0].K = append(append([]*N{}, t[0].K...), &N{T: "f", L: d})
	}
	return t
}

// request is the tree of a request.
func (o *rop) request(id string) []*N { return fitted(reqTree(o.Path, id, o.In), o.Fit) }

func opBytes(o rop) int {
	n := 40 + o.Fit + o.FitA
	var f func(ns []*N)
	f = func(ns []*N) {
		for _, x := range ns {
			n += 3 + max(len(x.T), x.L) + 3*x.D + 8*x.W
			f(x.K)
		}
	}
	f(o.In)
	f(o.Ans)
	return n
}

var allSizes = []int{200, 4000, 4095, 4096, 4097, 9990, 10000, 10001, 16384, 65536, 70000, 150000}

func (p *rpcPlan) bytes() int {
	n := 0
	for _, c := range p.Clients {
		for _, o := range c.Ops {
			n += opBytes(o)
		}
	}
	return n
}

func genRPC(prop string) func(r *rt.Rand, run int) Plan {
	return func(r *rt.Rand, run int) Plan {
		p := &rpcPlan{Prop: prop, Proto: 1 + r.Intn(2), ST: 1 + r.Intn(8)}
		p.MeanGap = []int{0, 0, 30, 300}[r.Intn(4)]
		p.Lat = []int{10, 100, 1000, 20000}[r.Intn(4)]
		p.Jit = []int{0, 100, 5000}[r.Intn(3)]
		p.SegP = []float64{0, 0.3, 0.9, 1}[r.Intn(4)]
		p.ReadP = []float64{0, 0.3, 0.9}[r.Intn(3)]
		p.Window = []int{65536, 65536, 4096, 1000}[r.Intn(4)]
		sizes := allSizes[:1+r.Intn(len(allSizes))]
		if r.Intn(3) == 0 {
			sizes = nil
		}
		nc := 1 + r.Intn(4)
		for c := 0; c < nc; c++ {
			cl := rcl{T: 1 + r.Intn(6)}
			for n := 1 + r.Intn(6); n > 0; n-- {
				id := fmt.Sprintf("c%d.%d", c, len(cl.Ops))
				switch k := r.Intn(20); {
				case k < 4:
					cl.Ops = append(cl.Ops, rop{Op: "idle", Ms: p.genIdle(r)})
				case k == 4:
					cl.Ops = append(cl.Ops, rop{Op: "close"})
				case k == 5 && prop != "C14" && prop != "C16":
					cl.Ops = append(cl.Ops, rop{Op: "dial"})
				}
				o := genCall(r, prop, id, sizes)
				o.Ms = []int{0, 0, 1, 30, 200}[r.Intn(5)]
				cl.Ops = append(cl.Ops, o)
				if prop != "C22" && r.Intn(8) == 0 {
					cl.Ops = append(cl.Ops, rop{Op: "again", I: r.Intn(1000)})
				}
			}
			p.Clients = append(p.Clients, cl)
		}
		if huge := map[string]int{"C12": 500, "C13": 500, "C14": 300, "C16": 500}[prop]; huge > 0 && r.Intn(huge) == 0 {
			// beyond any common limit
			o := rop{Op: "call", Path: "a"}
			b := []*N{{T: "B", L: []int{1<<20 + 5, 1100000, 2100000, 4200000}[r.Intn(4)]}}
			if prop == "C14" && r.Intn(8) == 0 {
				b[0].L = 16800000
			}
			if r.Intn(4) == 0 {
				b[0].L, b[0].W = 0, 65530+r.Intn(10)
			}
			if r.Intn(2) == 0 {
				o.In = b
			} else {
				o.Ans = b
			}
			c := &p.Clients[r.Intn(nc)]
			c.Ops = append([]rop{o}, c.Ops...)
		}
		switch prop {
		case "C14", "C16":
			p.calm(r)
		case "C22":
			p.logMix(r)
			p.farLog = genFar(r)
		default:
			p.rough(r)
		}
		if prop == "C13" || prop == "C16" || prop == "C17" {
			for n := 1 + r.Intn(4); n > 0; n-- {
				p.Raw = append(p.Raw, p.genRaw(r, len(p.Raw)))
			}
		}
		if prop == "C16" {
			if r.Intn(3) == 0 {
				p.AcceptP, p.AcceptN = 0.3, 1+r.Intn(6)
				if r.Intn(3) == 0 {
					p.AcceptP, p.AcceptN = 0.7, 40
				}
			}
			// slow handlers of other connections
			if r.Intn(2) == 0 {
				st := []rstep{{Op: "open"}, {Op: "msg", Msg: &rop{Path: "a", Ms: 60000}}, {Op: "wait", Ms: 3000}, {Op: []string{"close", "abort", "read"}[r.Intn(3)]}}
				p.Raw = append(p.Raw, rraw{At: r.Intn(300), Steps: st})
			}
		}
		if r.Intn(80) == 0 {
			switch prop {
			case "C13", "C16", "C17":
				if prop == "C17" && r.Intn(4) == 0 {
					p.manyCalls(r, false)
				} else {
					p.crowd(r)
				}
			case "C14":
				if r.Intn(3) == 0 {
					p.manyCalls(r, false)
				} else {
					p.manyClients(r)
				}
			case "C12", "C15":
				if prop == "C12" && r.Intn(4) == 0 {
					p.manyClients(r)
				} else {
					p.manyCalls(r, true)
				}
			}
		}
		if p.SegP > 0 && p.bytes() < 6000 {
			p.Small = r.Intn(2) == 0
		}
		if p.bytes() > 100000 {
			p.SegP = math.Min(p.SegP, 0.3)
			p.ReadP = math.Min(p.ReadP, 0.3)
			p.Window = 65536
		}
		p.tame()
		return p
	}
}

// many is a number of peers, sometimes beyond common limits.
func many(r *rt.Rand) int {
	if r.Intn(15) == 0 {
		return 1040 + r.Intn(60)
	}
	return []int{12, 30, 70, 150, 260, 520}[r.Intn(6)]
}

// crowd makes many peers that misbehave in the same way, at once or one after the other.
func (p *rpcPlan) crowd(r *rt.Rand) {
	var t rraw
	for i := 0; i < 20; i++ {
		t = p.genRaw(r, 0)
		n := 0
		for _, s := range t.Steps {
			n += len(s.B)
			if s.Msg != nil {
				n += opBytes(*s.Msg)
			}
		}
		if n < 1000 {
			break
		}
	}
	n := many(r)
	gap := []int{0, 0, 1, 40}[r.Intn(4)]
	for i := 0; i < n; i++ {
		c := rraw{At: t.At + i*gap}
		c.Steps = append(c.Steps, t.Steps...)
		p.Raw = append(p.Raw, c)
	}
	// some clients come in the middle of it, some after it
	for i := range p.Clients {
		c := &p.Clients[i]
		var o rop
		for _, o = range c.Ops {
			if o.Op == "call" {
				break
			}
		}
		idle := rop{Op: "idle", Ms: t.At + r.Intn(n*gap+p.ST*500)}
		if r.Intn(2) == 0 {
			idle.Ms = t.At + n*gap + r.Intn(p.ST*3000)
		}
		c.Ops = append(append([]rop{idle}, c.Ops...), o)
	}
}

// manyClients are connected at the same time.
func (p *rpcPlan) manyClients(r *rt.Rand) {
	n := many(r)
	p.Clients = nil
	for i := 0; i < n; i++ {
		c := rcl{T: 1 + r.Intn(6)}
		for j := 0; j < 2; j++ {
			o := genCall(r, p.Prop, "", nil)
			if r.Intn(4) == 0 {
				o.Ms = r.Intn(800)
			}
			c.Ops = append(c.Ops, o, rop{Op: "idle", Ms: p.ST*1000/2 + r.Intn(1000)})
		}
		p.Clients = append(p.Clients, c)
	}
}

// manyCalls are made by one client, perhaps most of them while the server is away.
func (p *rpcPlan) manyCalls(r *rt.Rand, away bool) {
	c := &p.Clients[r.Intn(len(p.Clients))]
	at := 0
	n, often := 20+r.Intn(80), 3
	if r.Intn(4) == 0 {
		n = 257 + r.Intn(10)
	}
	if r.Intn(2) == 0 {
		often = 50
	}
	for ; n > 0; n-- {
		o := genCall(r, p.Prop, "", nil)
		o.Ms = []int{0, 0, 0, 5, 100}[r.Intn(5)]
		c.Ops = append(c.Ops, o)
		if r.Intn(often) == 0 {
			ms := r.Intn(2000)
			at += ms
			c.Ops = append(c.Ops, rop{Op: "idle", Ms: ms})
		}
	}
	if away && r.Intn(4) > 0 {
		f := rfault{Kind: []string{"part", "crash"}[r.Intn(2)], Client: r.Intn(4), Hard: r.Intn(2) == 0}
		f.Ms = r.Intn(at/2 + 500)
		f.Dur = 5000 + r.Intn(at+10000)
		p.Faults = []rfault{f}
	}
}

func (p *rpcPlan) genIdle(r *rt.Rand) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(500)
	case 1:
		return p.ST*1000 + r.Intn(2000)
	default:
		return max(0, p.ST*1000-r.Intn(60)+10)
	}
}

// tame makes delays and handlers of the calm mixes fit below the timeouts.
func (p *rpcPlan) tame() {
	if p.Prop != "C14" && p.Prop != "C16" {
		return
	}
	for i := range p.Clients {
		c := &p.Clients[i]
		budget := min(c.T, p.ST) * 1000
		if p.Proto == 1 {
			budget = min(10, p.ST) * 1000
		}
		for j := range c.Ops {
			o := &c.Ops[j]
			if o.Op == "again" {
				if _, o = p.earlier(o.I); o == nil {
					continue
				}
			}
			if o.Op != "call" {
				continue
			}
			rounds := opBytes(*o)/p.Window + 2
			if p.Slow {
				p.DelayMs = min(p.DelayMs, budget*7/10/rounds)
				o.Ms = min(o.Ms, budget/20)
			} else {
				p.DelayMs = min(p.DelayMs, budget/8/rounds)
			}
			p.Jit = min(p.Jit, budget*1000/16/rounds)
			p.Lat = min(p.Lat, budget*1000/16/rounds)
			lim := c.T * 1000
			if p.Proto == 1 {
				lim = 10000
			}
			o.Ms = min(o.Ms, lim/2)
		}
	}
}

// earlier gives the request that is repeated, and its name.
func (p *rpcPlan) earlier(i int) (string, *rop) {
	c := i % len(p.Clients)
	for j := range p.Clients[c].Ops {
		j = (j + i/8) % len(p.Clients[c].Ops)
		if o := &p.Clients[c].Ops[j]; o.Op == "call" {
			return fmt.Sprintf("c%d.%d", c, j), o
		}
	}
	return "", nil
}

// calm: no faults, only segmentation and delay below the timeouts.
func (p *rpcPlan) calm(r *rt.Rand) {
	p.DelayP = []float64{0, 0.1, 0.5}[r.Intn(3)]
	p.DelayMs = r.Intn(2000)
	if r.Intn(3) == 0 {
		p.Slow = true
		p.DelayP = []float64{0.2, 0.7, 1}[r.Intn(3)]
		p.DelayMs = 10000
	}
	for i := range p.Clients {
		for j := range p.Clients[i].Ops {
			if o := &p.Clients[i].Ops[j]; o.Op == "call" && r.Intn(5) == 0 {
				o.Ms = r.Intn(6000)
			}
		}
	}
}

// rough: everything a network and a server can do.
func (p *rpcPlan) rough(r *rt.Rand) {
	if r.Intn(3) == 0 {
		p.DelayP = []float64{0.05, 0.3}[r.Intn(2)]
		p.DelayMs = []int{500, 3000, 20000}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		p.ResetP = []float64{0.01, 0.05, 0.2}[r.Intn(3)]
	}
	if r.Intn(6) == 0 {
		p.RefuseP = 0.2
	}
	if r.Intn(6) == 0 {
		p.AcceptP, p.AcceptN = 0.2, 5
	}
	for i := range p.Clients {
		c := &p.Clients[i]
		if r.Intn(3) == 0 {
			c.T = 1
		}
		for j := range c.Ops {
			if o := &c.Ops[j]; o.Op == "call" {
				switch r.Intn(8) {
				case 0, 1:
					// around or beyond the timeout
					o.Ms = c.T*1000 - 300 + r.Intn(900)
					if p.Proto == 1 {
						o.Ms = 9700 + r.Intn(900)
					}
				case 2:
					o.Ms = r.Intn(40000)
				case 3:
					if r.Intn(4) == 0 {
						o.Nil = 1 + r.Intn(2)
					}
				}
			}
		}
	}
	total := p.bytes()
	for n := r.Intn(4); n > 0; n-- {
		p.Faults = append(p.Faults, p.genFault(r, total))
	}
}

func (p *rpcPlan) genFault(r *rt.Rand, total int) rfault {
	f := rfault{Kind: []string{"part", "reset", "crash"}[r.Intn(3)], Client: r.Intn(4), Hard: r.Intn(2) == 0}
	switch r.Intn(3) {
	case 0:
		f.Ms = r.Intn(10000)
	case 1:
		f.Bytes = 1 + r.Intn(total+1)
	default:
		f.Bytes = 1 + r.Intn(300)
	}
	f.Dur = []int{1, 100, 1500, 8000, 30000}[r.Intn(5)]
	f.Dur += r.Intn(f.Dur)
	return f
}

// logMix is for appends through the server.
func (p *rpcPlan) logMix(r *rt.Rand) {
	p.rough(r)
	p.ShortRd = []float64{0, 0, 0.5}[r.Intn(3)]
	p.ChunkWr = []float64{0, 0, 0.5}[r.Intn(3)]
	if r.Intn(5) == 0 {
		p.PWrite, p.PSync = 0.05, 0.05
	}
	for i := range p.Clients {
		c := &p.Clients[i]
		for j := range c.Ops {
			o := &c.Ops[j]
			if o.Op != "call" {
				continue
			}
			o.Path, o.Nil, o.Ans, o.I = "append", 0, nil, r.Intn(100)
			if r.Intn(3) == 0 {
				o.Path = "read"
				o.In = nil
			}
		}
	}
	for n := r.Intn(3); n > 0; n-- {
		p.Faults = append(p.Faults, rfault{Kind: "power", Ops: 1 + r.Intn(14), Frac: r.Intn(1001), Dur: 1 + r.Intn(3000)})
	}
}

func randBytes(r *rt.Rand, n int) Str {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return Str(b)
}

// genRaw makes a misbehaving peer. For C13 nothing it sends may reach a handler, except
// whole messages that count as sent.
func (p *rpcPlan) genRaw(r *rt.Rand, k int) rraw {
	w := rraw{At: r.Intn(1500)}
	s := []rstep{{Op: "open"}}
	call := func() *rop {
		o := genCall(r, p.Prop, "", []int{300, 5000, 70000}[:1+r.Intn(3)])
		o.Ms = []int{0, 0, 100, 3000}[r.Intn(4)]
		return &o
	}
	whole := func() rstep { return rstep{Op: "msg", Msg: call()} }
	pause := func() {
		if r.Intn(2) == 0 {
			s = append(s, rstep{Op: "wait", Ms: []int{1, 50, 900, p.ST*1000 - 5, p.ST*1000 + 5, p.ST * 2500}[r.Intn(6)]})
		}
	}
	if r.Intn(3) == 0 {
		for n := 1 + r.Intn(2); n > 0; n-- {
			s = append(s, whole())
			if r.Intn(4) > 0 {
				s = append(s, rstep{Op: "read", Ms: 5000})
			}
		}
	}
	kind := r.Intn(10)
	switch kind {
	case 0, 1: // a message cut off
		pause()
		if p.Prop == "C13" && p.Proto == 2 && r.Intn(2) == 0 {
			st := rstep{Op: "msg", Msg: call(), Pad: 1 + r.Intn(40)}
			if r.Intn(2) == 0 {
				st.Trim, st.Pad = 1+r.Intn(3), 0
				if r.Intn(3) == 0 {
					st.Trim = 1 + r.Intn(200)
				}
			}
			s = append(s, st)
		} else {
			s = append(s, rstep{Op: "msg", Msg: call(), Cut: 1 + r.Intn(999)})
		}
		pause()
	case 2: // garbage in front of a message
		g := p.garbage(r)
		s = append(s, rstep{Op: "bytes", B: g})
		pause()
		s = append(s, rstep{Op: "msg", Msg: call()})
		pause()
	case 3: // idle
		pause()
	case 4: // lengths
		if p.Proto == 2 || p.Prop != "C13" {
			b := make([]byte, 4)
			l := []uint32{0, 1, 2, 3, 4, 100, 0xffff, 0x10000000, 0x10000000, 0x1fffffff, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(13)]
			binary.BigEndian.PutUint32(b, l)
			s = append(s, rstep{Op: "bytes", B: Str(b)})
			pause()
			n := r.Intn(200)
			x := randBytes(r, n)
			if n > 0 && x[0] == 1 {
				x = "\x02" + x[1:]
			}
			s = append(s, rstep{Op: "bytes", B: x})
			pause()
		}
	case 5: // does not read its answers
		for n := 1 + r.Intn(5); n > 0; n-- {
			st := whole()
			st.Msg.Ans = append(st.Msg.Ans, &N{T: "B", L: 70000 + r.Intn(100000)})
			s = append(s, st)
		}
		s = append(s, rstep{Op: "wait", Ms: p.ST*1500 + r.Intn(2000)})
	case 6: // drip
		for n := 3 + r.Intn(6); n > 0; n-- {
			b := "\x00"
			if p.Proto == 1 {
				b = "a"
				if len(s) == 1 {
					b = "\x01G\x00\x01a"
				}
			}
			s = append(s, rstep{Op: "bytes", B: Str(b)}, rstep{Op: "wait", Ms: 100 + r.Intn(p.ST*800)})
			if p.Proto == 2 {
				break
			}
		}
	case 7: // corrupt or random
		if p.Prop == "C13" {
			s = append(s, rstep{Op: "msg", Msg: call(), Cut: 1 + r.Intn(20)})
		} else if r.Intn(2) == 0 {
			s = append(s, rstep{Op: "msg", Msg: call(), Bad: 1 + r.Intn(999), N: 1 + r.Intn(255)})
			pause()
		} else {
			s = append(s, rstep{Op: "bytes", B: randBytes(r, r.Intn(3000))})
			if r.Intn(2) == 0 {
				s = append(s, rstep{Op: "bytes", B: "\x01G\x00\x01" + randBytes(r, r.Intn(300))})
			}
		}
	case 8: // pipelined
		for n := 2 + r.Intn(3); n > 0; n-- {
			s = append(s, whole())
		}
		pause()
	case 9: // a small message that announces a large node, or a deep one
		b := []byte{1, 'G', 0, 1, 'a', 0}
		big := refVarInt([]int{1 << 20, 1 << 24, 1<<28 - 1, 1<<28 - 1}[r.Intn(4)], 4)
		if p.Prop == "C13" || r.Intn(3) > 0 {
			b = append(append(b, byte(1+r.Intn(2)), 1), big...)
			b = append(b, randBytes(r, r.Intn(40))...)
		} else {
			b = append(append(b, big...), "deep\x00\x00"...)
		}
		if p.Proto == 2 {
			h := make([]byte, 4)
			binary.BigEndian.PutUint32(h, uint32(len(b)))
			b = append(h, b...)
		}
		s = append(s, rstep{Op: "bytes", B: Str(b)})
		pause()
	}
	end := []string{"close", "close", "abort", "read", "vanish", "half"}[r.Intn(6)]
	if p.Prop == "C13" && r.Intn(2) == 0 {
		end = "close"
	}
	s = append(s, rstep{Op: end, Ms: 100000})
	w.Steps = s
	return w
}

// garbage cannot be the start of a message.
func (p *rpcPlan) garbage(r *rt.Rand) Str {
	if p.Proto == 1 {
		x := randBytes(r, 1+r.Intn(30))
		if x[0] == 1 {
			x = "\x02" + x[1:]
		}
		return x
	}
	if r.Intn(2) == 0 {
		// a length that does not fit what follows
		n := 1 + r.Intn(60)
		b := []byte{0, 0, byte(r.Intn(2)), byte(n)}
		return Str(b) + "\x00" + randBytes(r, r.Intn(n+3))
	}
	x := randBytes(r, 1+r.Intn(30))
	return Str([]byte{byte(1 + r.Intn(255))}) + x
}

// ---- execution ----

type sentReq struct {
	id    string
	path  string
	m     []*M
	op    *rop
	calls int
	execs int
	ans   []answer
}

// answer is what a handler answered to a request.
type answer struct {
	m  []*M
	at int64    // when the handler was called
	to *rt.Node // for whom; nil if not known
}

type rpcRun struct {
	p     *rpcPlan
	w     *rt.World
	e     *Env
	n     *simnet.Net
	fs    *simfs.FS
	srv   *rt.Node
	up    bool
	sent  map[string]*sentReq
	nonce int
	fq    rt.WaitQ
	power bool
	done  bool
	cls   []*rclient
	acked map[int64]*sentReq // C22: position -> request
	order []int64
	slack int64
	spans map[int64]int64 // start and end of the objects whose append returned
}

type rclient struct {
	i    int
	node *rt.Node
	c    *ogdlrf.Client
	last int64
}

// chk reports a violation if it belongs to the property being checked.
func (x *rpcRun) chk(prop, class, format string, a ...interface{}) {
	if x.p.Prop == prop {
		x.w.Fail(class, format, a...)
	}
	x.w.Count("other." + prop + "." + class)
}

func reqTree(path, id string, in []*N) []*N {
	return []*N{{T: Str(path), K: append([]*N{{T: Str(id)}}, in...)}}
}

func (x *rpcRun) register(id string, o *rop) *sentReq {
	s := x.sent[id]
	if s == nil {
		s = &sentReq{id: id, path: o.Path, op: o, m: model(o.request(id))}
		x.sent[id] = s
	} else {
		x.e.Hit("request made again")
	}
	s.calls++
	return s
}

func (x *rpcRun) handler(path string) ogdlrf.Function {
	return func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		x.e.Ops++
		sc, _ := c.(*simnet.Conn)
		if sc != nil {
			t0 := max(sc.AcceptAt, sc.LastWrite, sc.HandledAt)
			if x.w.Now()-t0 > int64(x.p.ST)*1e9+x.slack {
				x.chk("C17", "late-request", "c%d: the server waited %.3f s for a message (timeout %d s)", sc.ID, float64(x.w.Now()-t0)/1e9, x.p.ST)
			}
			sc.Handling = true
			defer func() { sc.Handling = false; sc.HandledAt = x.w.Now() }()
		}
		s := x.check(path, g)
		x.w.Note("handler %s %v", path, s != nil)
		if s == nil {
			return ogdl.New("_")
		}
		s.execs++
		a := answer{at: x.w.Now()}
		if sc != nil && sc.Peer != nil {
			a.to = sc.Peer.Node
		}
		if s.op.Ms > 0 {
			x.w.Sleep(int64(s.op.Ms) * msec)
		}
		switch s.op.Nil {
		case 1:
			return nil
		case 2:
			return ogdl.New("_")
		}
		x.nonce++
		ans := append([]*N{{T: Str(s.id)}, {T: Str(fmt.Sprintf("n%d", x.nonce))}}, s.op.Ans...)
		tree := fitted([]*N{{T: "ans", K: ans}}, s.op.FitA)
		a.m = model(tree)
		s.ans = append(s.ans, a)
		return graph(tree)
	}
}

// check decides whether the graph given to a handler is a request that was sent.
func (x *rpcRun) check(path string, g *ogdl.Graph) *sentReq {
	if g == nil {
		x.chk("C13", "handler-nil", "the handler of %q was called without a request", path)
		return nil
	}
	id := ""
	if len(g.Out) > 0 && g.Out[0] != nil && len(g.Out[0].Out) > 0 {
		id, _ = asBytes(g.Out[0].Out[0].This)
	}
	s := x.sent[id]
	if s == nil {
		x.chk("C13", "handler-foreign", "the handler of %q was called with %s, which nobody sent", path, kidsG(g))
		return nil
	}
	if s.path != path {
		x.chk("C13", "handler-path", "the handler of %q was called with a request for %q", path, s.path)
	}
	if d := diff(g, s.m); d != "" {
		x.chk("C13", "handler-mangled", "the handler of %q was called with a request that differs from the one sent: %s", path, d)
	}
	return s
}

func (x *rpcRun) boot() {
	w := x.w
	srv := &ogdlrf.Server{Host: "srv:1", Timeout: x.p.ST, Protocol: x.p.Proto}
	x.up = true
	w.Spawn(x.srv, "server", func() {
		if x.p.Prop == "C22" {
			x.logRoutes(srv)
		} else {
			for _, s := range append([]string{"a", "b", "c"}, oddPaths...) {
				srv.AddRoute(s, x.handler(s))
			}
		}
		err := srv.Serve()
		x.chk("C16", "serve-ended", "Serve returned: %v", err)
		x.chk("C15", "serve-ended", "Serve returned: %v", err)
	})
}

func (x *rpcRun) crash(hard bool, dur int64) {
	w := x.w
	w.Note("server crash hard=%v", hard)
	x.up = false
	w.Crash(x.srv)
	x.n.CrashNode(x.srv, hard)
	if hard && x.fs != nil {
		x.fs.PowerLoss()
	}
	x.e.Hit("server_crash")
	w.Sleep(dur)
	x.n.Boot(x.srv)
	x.boot()
}

func (p *rpcPlan) Run(w *rt.World, e *Env) {
	x := &rpcRun{p: p, w: w, e: e, n: simnet.Of(w), sent: map[string]*sentReq{}, acked: map[int64]*sentReq{}, spans: map[int64]int64{}}
	n := x.n
	n.MinLat, n.Jitter = int64(max(p.Lat, 1))*1000, int64(p.Jit)*1000
	n.SegP, n.SmallSeg, n.ReadP = p.SegP, p.Small, p.ReadP
	n.DelayP, n.DelayMax = p.DelayP, int64(p.DelayMs)*msec
	n.ResetP, n.RefuseP, n.AcceptErrP, n.AcceptErrMax = p.ResetP, p.RefuseP, p.AcceptP, p.AcceptN
	n.Window = max(p.Window, 100)
	x.slack = 500*msec + 2*n.DelayMax + 4*(n.MinLat+n.Jitter)
	a0 := AllocBytes()
	if p.Prop == "C22" {
		x.fs = simfs.Of(w)
		x.fs.ShortRd, x.fs.ChunkWr, x.fs.PWrite, x.fs.PSync = p.ShortRd, p.ChunkWr, p.PWrite, p.PSync
		x.fs.Put(logFile, nil)
		p.begin(w)
		x.fs.OnCrash = func() { x.power = true; w.WakeAll(&x.fq) }
	}
	w.MaxStops = 600000 + 2*int64(p.bytes())
	if k := p.bytes(); k > 1<<20 {
		w.MaxSteps *= int64(2 + k>>19)
		e.Hit("message of more than a megabyte")
	}
	p.ST = max(p.ST, 1)
	for i := range p.Clients {
		p.Clients[i].T = max(p.Clients[i].T, 1)
	}
	x.srv = w.NewNode("srv")
	x.boot()
	w.Sleep(msec)
	var ts []*rt.Task
	for i := range p.Clients {
		i := i
		c := &rclient{i: i, node: w.NewNode(fmt.Sprintf("cl%d", i))}
		x.cls = append(x.cls, c)
		ts = append(ts, w.Spawn(c.node, c.node.Name, func() { x.client(c) }))
	}
	n.OnEvent = func(kind string, c *simnet.Conn) {
		if kind == "dial" {
			for _, cl := range x.cls {
				if cl.node == c.Node {
					x.oneConn(cl, "right after a dial")
				}
			}
		}
	}
	var raws []*rt.Task
	for i := range p.Raw {
		i := i
		node := w.NewNode(fmt.Sprintf("raw%d", i))
		raws = append(raws, w.Spawn(node, node.Name, func() { x.raw(i, node) }))
	}
	fnode := w.NewNode("faults")
	var fts []*rt.Task
	n.OnSend = func() { w.WakeAll(&x.fq) }
	if len(p.Faults) > 0 {
		fts = append(fts, w.Spawn(fnode, "faults", x.faults))
	}
	for _, t := range ts {
		w.Join(t, 0)
	}
	x.done = true
	w.WakeAll(&x.fq)
	for _, t := range fts {
		w.Join(t, 0)
	}
	// the faults stop
	n.Quiet = true
	n.OnSend = nil
	if p.Prop == "C22" {
		// the answers read back below must not be late
		n.Window, n.MinLat, n.Jitter = 1<<20, 100000, 0
	}
	if x.fs != nil {
		x.fs.PWrite, x.fs.PSync, x.fs.CrashAt = 0, 0, -1
	}
	for _, c := range x.cls {
		n.Heal("srv", c.node.Name)
	}
	if p.Prop == "C15" || p.Prop == "C12" {
		w.Sleep(msec)
		x.recovery()
	}
	if p.Prop == "C22" {
		x.finalLog()
	}
	if p.Prop == "C17" {
		for _, t := range raws {
			w.Join(t, 0)
		}
		x.closing()
	}
	if p.Prop == "C14" || p.Prop == "C16" {
		// late executions of repeated requests
		w.Sleep(int64(p.ST)*1e9 + 20000*msec)
		for _, c := range x.cls {
			for j := range p.Clients[c.i].Ops {
				s := x.sent[fmt.Sprintf("c%d.%d", c.i, j)]
				if s == nil || !routed(s.path) {
					continue
				}
				if s.execs != s.calls {
					x.chk("C14", "executions", "request %s was made %d times and executed %d times", s.id, s.calls, s.execs)
					x.chk("C16", "executions", "request %s of a well-behaved client was made %d times and executed %d times", s.id, s.calls, s.execs)
				}
			}
		}
	}
	if p.Prop == "C15" {
		w.Sleep(60000 * msec)
		var ids []string
		for id := range x.sent {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			if s := x.sent[id]; s.execs > 3*s.calls {
				x.chk("C15", "executions", "request %s was made %d times and executed %d times", id, s.calls, s.execs)
			}
		}
	}
	if p.Prop == "C16" {
		a1 := AllocBytes()
		lim := uint64(48<<20) + 1000*uint64(n.Sent)
		if a1-a0 > lim {
			x.chk("C16", "memory", "%d bytes were allocated while %d bytes were sent in all", a1-a0, n.Sent)
		}
	}
}

func (x *rpcRun) oneConn(c *rclient, when string) {
	if o := x.n.Open(c.node, "client"); len(o) > 1 {
		x.chk("C17", "two-connections", "client %d has %d open connections %s", c.i, len(o), when)
	}
}

func (x *rpcRun) client(c *rclient) {
	w := x.w
	pc := x.p.Clients[c.i]
	c.c = &ogdlrf.Client{Host: "srv:1", Timeout: pc.T, Protocol: x.p.Proto}
	for j := range pc.Ops {
		o := pc.Ops[j]
		x.e.Ops++
		switch o.Op {
		case "idle":
			w.Sleep(int64(o.Ms) * msec)
		case "close":
			c.c.Close()
			if k := len(x.n.Open(c.node, "client")); k > 0 {
				x.chk("C17", "open-after-close", "client %d has %d open connections after Close", c.i, k)
			}
		case "dial":
			err := c.c.Dial()
			k := len(x.n.Open(c.node, "client"))
			if err != nil && k > 0 {
				x.chk("C17", "open-after-failed-dial", "client %d has %d open connections after a failed Dial", c.i, k)
			}
			x.oneConn(c, "after Dial")
			if err != nil {
				// what a failed Dial leaves must be usable by Call
				w.Count("dial_failed")
			}
		case "call":
			if o.Path == "read" && x.p.Prop == "C22" {
				x.readBack(c, o)
				continue
			}
			x.call(c, x.register(fmt.Sprintf("c%d.%d", c.i, j), &o), x.p.Prop == "C14" || x.p.Prop == "C16")
		case "again":
			if id, o := x.p.earlier(o.I); o != nil {
				x.call(c, x.register(id, o), x.p.Prop == "C14" || x.p.Prop == "C16")
			}
		}
	}
	if x.p.Prop == "C17" {
		c.c.Close()
		if k := len(x.n.Open(c.node, "client")); k > 0 {
			x.chk("C17", "open-after-close", "client %d has %d open connections after Close", c.i, k)
		}
	}
}

// call makes a remote call and judges its outcome.
func (x *rpcRun) call(c *rclient, s *sentReq, must bool) *ogdl.Graph {
	w := x.w
	t0, d0 := w.Now(), x.n.DialTime[c.node]
	w.Note("call %s", s.id)
	g, err := c.c.Call(graph(s.op.request(s.id)))
	el := w.Now() - t0 - (x.n.DialTime[c.node] - d0)
	w.Note("call %s: err %v", s.id, err)
	T := x.p.Clients[c.i].T
	if x.p.Proto == 1 {
		T = 10
	}
	if el > int64(4*T+1)*1e9 {
		x.chk("C15", "duration", "call %s took %.3f s after its dials; the timeout is %d s", s.id, float64(el)/1e9, T)
	}
	x.oneConn(c, "after a call")
	if err != nil {
		x.e.Hit("call_failed")
		if must {
			x.chk("C14", "call-failed", "call %s failed although every message was in time: %v (executed %d times)", s.id, err, s.execs)
			x.chk("C16", "call-failed", "call %s of a well-behaved client failed: %v (executed %d times)", s.id, err, s.execs)
		}
		return nil
	}
	x.e.Hit("call_ok")
	if x.p.Prop == "C22" && g != nil {
		x.ackAppend(c, s, g)
		return g
	}
	if s.execs > 1 {
		x.e.Hit("call_ok_after_retry")
	}
	d := ""
	if g == nil {
		d = "there is no graph"
	} else if !routed(s.path) {
		d = diff(g, []*M{{s: "error", str: true, k: []*M{{s: "notFound", str: true}}}})
	} else {
		d = "there is no answer to it yet"
		if len(s.ans) > 0 {
			d = ""
			for _, a := range s.ans {
				if d = diff(g, a.m); d == "" {
					if a.at < t0 {
						d = "it is the answer to an earlier request with the same content"
					} else if a.to != nil && a.to != c.node {
						d = "it is the answer to a request of another client with the same content"
					}
					break
				}
			}
		}
	}
	if d != "" && g != nil && x.p.Prop != "C22" {
		class := "answer-wrong"
		for id, t := range x.sent {
			for _, a := range t.ans {
				if id != s.id && diff(g, a.m) == "" {
					class = "answer-of-another"
					d = "it is the answer to another request"
				}
			}
		}
		for _, pr := range []string{"C12", "C14", "C16"} {
			if pr == "C12" || must {
				x.chk(pr, class, "call %s returned successfully, but %s: %s", s.id, d, kidsG(g))
			}
		}
	} else if d != "" && x.p.Prop != "C22" {
		x.chk("C12", "answer-missing", "call %s returned neither an error nor an answer", s.id)
	}
	return g
}

func (x *rpcRun) faults() {
	w, p := x.w, x.p
	if p.Prop == "C22" {
		x.arm()
	}
	pend := append([]rfault(nil), p.Faults...)
	for !x.done {
		if x.power {
			x.power = false
			w.Count("fault.crash.power")
			x.crash(true, 100*msec)
			x.arm()
			continue
		}
		next := int64(-1)
		fired := false
		for i := 0; i < len(pend); i++ {
			f := pend[i]
			if f.Kind == "power" {
				continue
			}
			at := int64(f.Ms) * msec
			if (f.Bytes > 0 && x.n.Sent >= int64(f.Bytes)) || (f.Bytes == 0 && w.Now() >= at) {
				pend = append(pend[:i], pend[i+1:]...)
				x.fault(f)
				fired = true
				break
			}
			if f.Bytes == 0 && (next < 0 || at < next) {
				next = at
			}
		}
		if fired {
			continue
		}
		if next < 0 {
			next = 0
		}
		w.Wait(&x.fq, next)
	}
}

// arm plans the next power cut.
func (x *rpcRun) arm() {
	x.fs.CrashAt = -1
	k := 0
	for _, f := range x.p.Faults {
		if f.Kind == "power" {
			if k == int(x.w.Stats.Get("power_armed")) {
				x.fs.CrashAt = x.fs.Ops + f.Ops
				x.fs.CrashFrac = f.Frac
				x.w.Stats.Add("power_armed", 1)
				return
			}
			k++
		}
	}
}

func (x *rpcRun) fault(f rfault) {
	w := x.w
	dur := int64(f.Dur) * msec
	switch f.Kind {
	case "part":
		c := x.cls[f.Client%len(x.cls)]
		x.n.Partition("srv", c.node.Name, w.Now()+dur)
		if f.Hard {
			w.Sleep(dur)
		}
	case "reset":
		x.n.ResetAll(x.srv)
	case "crash":
		x.crash(f.Hard, dur)
	}
}

// recovery: the first call of every client after the faults.
func (x *rpcRun) recovery() {
	w := x.w
	var ts []*rt.Task
	for _, c := range x.cls {
		c := c
		ts = append(ts, w.Spawn(c.node, c.node.Name, func() {
			for k := 0; k < 2; k++ {
				o := &rop{Op: "call", Path: "a", In: []*N{{T: "again"}}}
				s := x.register(fmt.Sprintf("r%d.%d", c.i, k), o)
				x.n.Quiet = true
				if x.call(c, s, false) == nil && x.p.Prop == "C15" {
					x.chk("C15", "recovery", "the call of client %d after the faults stopped does not succeed", c.i)
				}
			}
		}))
	}
	for _, t := range ts {
		w.Join(t, 0)
	}
}

func (x *rpcRun) frame(b []byte) []byte {
	if x.p.Proto == 1 {
		return b
	}
	h := make([]byte, 4)
	binary.BigEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

// raw runs a misbehaving peer.
func (x *rpcRun) raw(i int, node *rt.Node) {
	w := x.w
	w.Sleep(int64(x.p.Raw[i].At) * msec)
	var c *simnet.Conn
	defer func() {
		if c != nil && x.p.Prop != "C17" {
			w.Note("raw %d ends", i)
		}
	}()
	dirty := false
	for j, s := range x.p.Raw[i].Steps {
		if s.Op != "open" && c == nil {
			return
		}
		switch s.Op {
		case "open":
			c, _ = x.n.Dial("srv:1", 0)
			if c != nil {
				w.Count("raw_connections")
			}
		case "bytes":
			c.SetDeadline(simTime(w.Now() + 30*1e9))
			c.Write([]byte(s.B))
			dirty = dirty || len(s.B) > 0
		case "msg":
			id := fmt.Sprintf("raw%d.%d", i, j)
			// no change of one byte makes it the name of a request of another
			if s.Msg == nil {
				continue
			}
			m := model(s.Msg.request(id))
			b := x.frame(refEncode(m, refOpt{}))
			if s.Cut > 0 {
				b = b[:min(len(b)-1, 1+len(b)*s.Cut/1000)]
				dirty = true
			}
			if s.Trim > 0 && x.p.Proto == 2 {
				// The announced length is right, the object ends too soon
				b = b[:max(5, len(b)-s.Trim)]
				binary.BigEndian.PutUint32(b, uint32(len(b)-4))
				x.e.Hit("object_cut_within_frame")
				dirty = true
			}
			if s.Pad > 0 {
				// The message is announced longer than the object in it, and cut after the object
				binary.BigEndian.PutUint32(b, uint32(len(b)-4+s.Pad))
				b = append(b, make([]byte, s.Pad/2)...)
				dirty = true
			}
			if s.Bad > 0 {
				b[min(len(b)-1, len(b)*s.Bad/1000)] ^= byte(s.N)
				dirty = true
			}
			if !dirty {
				// a whole message, and nothing else before it
				x.register(id, s.Msg)
			}
			c.SetDeadline(simTime(w.Now() + 30*1e9))
			c.Write(b)
		case "wait":
			w.Sleep(int64(s.Ms) * msec)
		case "read":
			c.SetReadDeadline(simTime(w.Now() + int64(s.Ms)*msec))
			buf := make([]byte, 5000)
			for {
				k, err := c.Read(buf)
				if k == 0 || err != nil {
					break
				}
				if s.Ms < 100000 {
					break
				}
			}
			if s.Ms >= 100000 {
				c.Close()
			}
		case "close":
			c.Close()
		case "abort":
			c.Abort()
		case "half":
			c.CloseWrite()
			w.Sleep(int64(x.p.ST) * 3e9)
			c.Close()
		case "vanish":
			x.n.CrashNode(node, true)
			x.e.Hit("peer_vanished")
			return
		}
	}
}

// closing checks that the server has let go of every connection.
func (x *rpcRun) closing() {
	w, n := x.w, x.n
	st := int64(x.p.ST) * 1e9
	part := int64(0)
	for _, f := range x.p.Faults {
		if f.Kind == "part" {
			part += int64(f.Dur) * msec
		}
	}
	w.Sleep(st + 65e9 + x.slack + part)
	for _, c := range n.Conns() {
		if c.Side() != "server" || c.AcceptAt == 0 || c.ByCrash {
			continue
		}
		if c.Handling {
			continue
		}
		last := max(c.AcceptAt, c.LastWrite, c.HandledAt)
		if !c.Closed() {
			x.chk("C17", "server-leak", "c%d: the server still has the connection open, %.3f s after its last activity (timeout %d s; peer closed: %v)", c.ID, float64(w.Now()-last)/1e9, x.p.ST, c.Peer.Closed())
			continue
		}
		if c.ClosedAt > last+st+x.slack {
			x.chk("C17", "server-late", "c%d: the server closed the connection %.3f s after its last activity (timeout %d s)", c.ID, float64(c.ClosedAt-last)/1e9, x.p.ST)
		}
		if c.EofAt > 0 && c.Peer.Closed() && c.Peer.ClosedAt <= c.EofAt && c.ClosedAt > max(last, c.EofAt)+x.slack+part {
			x.chk("C17", "server-late-eof", "c%d: the server closed the connection %.3f s after the peer had closed it and no handler was at work", c.ID, float64(c.ClosedAt-max(last, c.EofAt))/1e9)
		}
	}
}

// ---- C22 ----

func (x *rpcRun) logRoutes(srv *ogdlrf.Server) {
	w := x.w
	mu := &ssync.Mutex{}
	l := openLog(w, "server start")
	srv.AddRoute("append", func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		x.e.Ops++
		a := ogdl.New("_")
		id := ""
		if len(g.Out) > 0 && g.Out[0] != nil && len(g.Out[0].Out) > 0 {
			id, _ = asBytes(g.Out[0].Out[0].This)
		}
		mu.Lock()
		pos := l.Add(g)
		if pos >= 0 {
			x.spans[pos] = x.fs.Size(logFile)
		}
		mu.Unlock()
		w.Note("appended %s at %d", id, pos)
		if pos < 0 {
			a.Add("error").Add("append")
			return a
		}
		a.Add("pos").Add(strconv.FormatInt(pos, 10))
		a.Add("id").Add(id)
		return a
	})
	srv.AddRoute("read", func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		x.e.Ops++
		a := ogdl.New("_")
		pos := int64(-1)
		if len(g.Out) > 0 && len(g.Out[0].Out) > 1 {
			pos, _ = strconv.ParseInt(g.Out[0].Out[1].ThisString(), 10, 64)
		}
		mu.Lock()
		r, _, err := l.Get(pos)
		mu.Unlock()
		if r == nil || err != nil {
			a.Add("error").Add("missing")
			return a
		}
		o := a.Add("obj")
		o.Out = r.Out
		return a
	})
}

func (x *rpcRun) ackAppend(c *rclient, s *sentReq, g *ogdl.Graph) {
	if len(g.Out) == 1 && g.Out[0].ThisString() == "error" {
		return
	}
	if len(g.Out) != 2 || g.Out[0].ThisString() != "pos" || len(g.Out[0].Out) != 1 || len(g.Out[1].Out) != 1 || g.Out[1].Out[0].ThisString() != s.id {
		x.chk("C22", "ack-wrong", "append %s was answered with %s", s.id, kidsG(g))
		return
	}
	pos, err := strconv.ParseInt(g.Out[0].Out[0].ThisString(), 10, 64)
	if err != nil || pos < 0 {
		x.chk("C22", "ack-wrong", "append %s was answered with %s", s.id, kidsG(g))
		return
	}
	if o := x.acked[pos]; o != nil && o != s {
		x.chk("C22", "same-position", "appends %s and %s were both acknowledged at %d", o.id, s.id, pos)
	}
	if x.acked[pos] == nil {
		x.order = append(x.order, pos)
	}
	x.acked[pos] = s
	x.e.Hit("append_acked")
}

func (x *rpcRun) readBack(c *rclient, o rop) {
	if len(x.order) == 0 {
		return
	}
	x.remoteRead(c, x.order[o.I%len(x.order)], false)
}

func (x *rpcRun) remoteRead(c *rclient, pos int64, must bool) {
	s := x.acked[pos]
	q := ogdl.New("_")
	r := q.Add("read")
	r.Add("rd")
	r.Add(strconv.FormatInt(pos, 10))
	g, err := c.c.Call(q)
	if err != nil {
		if must {
			x.chk("C22", "read-failed", "the remote read of position %d fails after the faults stopped: %v", pos, err)
		}
		return
	}
	x.e.Hit("remote_read")
	if d := diff(g, []*M{{s: "obj", str: true, k: s.m}}); d != "" {
		x.chk("C22", "remote-read", "the acknowledged append %s is not returned by a remote read of position %d: %s", s.id, pos, d)
	}
}

// finalLog looks at the log from outside and through the server.
func (x *rpcRun) finalLog() {
	w := x.w
	if x.power {
		// the cut was requested while the last client ended
		x.power = false
		x.crash(true, 10*msec)
	}
	w.Crash(x.srv)
	x.n.CrashNode(x.srv, x.p.Clients[0].T%2 == 0)
	if x.p.Clients[0].T%2 == 0 {
		x.fs.PowerLoss()
	}
	w.Sleep(10 * msec)
	l := openLog(w, "after the run")
	for _, pos := range x.order {
		s := x.acked[pos]
		g, _, err := l.Get(pos)
		if err != nil || g == nil {
			x.chk("C22", "lost", "append %s was acknowledged at %d, where there is nothing after the restart (error %v)", s.id, pos, err)
			continue
		}
		if d := diff(g, s.m); d != "" {
			x.chk("C22", "damaged", "append %s was acknowledged at %d, where there is something else after the restart: %s", s.id, pos, d)
		}
	}
	// Between the objects whose append returned there may be others that were under
	// way at a crash, whole or torn.
	var starts []int64
	for p := range x.spans {
		starts = append(starts, p)
	}
	sort.Slice(starts, func(i, j int) bool { return starts[i] < starts[j] })
	size := x.fs.Size(logFile)
	pos := x.p.Far * int64(len(filling))
	for pos < size {
		for len(starts) > 0 && starts[0] < pos {
			starts = starts[1:]
		}
		known := len(starts) > 0 && starts[0] == pos
		gap := size
		if len(starts) > 0 {
			gap = starts[0]
		}
		g, next, err := l.Get(pos)
		var s *sentReq
		d := "there is nothing"
		if g != nil && err == nil {
			id := ""
			if len(g.Out) > 0 && len(g.Out[0].Out) > 0 {
				id, _ = asBytes(g.Out[0].Out[0].This)
			}
			d = "there is an object nobody sent: " + kidsG(g)
			if s = x.sent[id]; s != nil {
				d = diff(g, s.m)
			}
		}
		if known {
			if d != "" {
				x.chk("C22", "walk", "an append had returned position %d; after the restart, %s", pos, d)
				return
			}
			if next != x.spans[pos] {
				x.chk("C22", "walk-next", "after the object at %d, which ends at %d, the walk goes on at %d", pos, x.spans[pos], next)
				return
			}
			pos = next
			continue
		}
		if d == "" && next > pos && next <= gap {
			x.e.Hit("unacknowledged_whole")
			pos = next
			continue
		}
		x.e.Hit("torn_append")
		if g != nil && err == nil {
			x.e.Knownf("torn-tail-splice", "after a crash tore an append, reading at the position of its remains gives an object made of them and of objects appended later")
		}
		pos = gap
	}
	l.Close()
	x.n.Boot(x.srv)
	x.boot()
	w.Sleep(msec)
	for i, pos := range x.order {
		x.remoteRead(x.cls[i%len(x.cls)], pos, true)
	}
}

func simTime(ns int64) time.Time { return xtime.Base.Add(time.Duration(ns)) }

func init() {
	rule := "One run is one deployment: a server, one to four clients making sequences of calls (requests and answers of one node to 150 kB, idle times around the server's timeout), "
	reg := func(id, rest string, quick, thor int, notes ...string) {
		register(&Prop{ID: id, Quick: quick, Thor: thor, New: func() Plan { return &rpcPlan{} }, Gen: genRPC(id), Real: rpcReal, Stub: rpcStub, Rule: rule + rest, Note: notes})
	}
	reg("C12", "with short timeouts, slow handlers, delays beyond the timeouts, resets, partitions, refused dials, server crashes and restarts.", 80000, 800000)
	reg("C13", "with the faults of C12 and raw peers that send messages cut at any byte, garbage in front of messages, and pipelined messages.", 80000, 800000)
	reg("C14", "without faults: only segmentation down to single bytes, short reads, back pressure, and delays below the timeouts.", 60000, 600000)
	reg("C15", "with the faults of C12; at the end the faults stop and every client calls again.", 80000, 800000)
	reg("C16", "as in C14, next to raw peers sending garbage, wrong lengths, truncated and corrupt messages, dripping bytes, not reading answers, aborting and vanishing, with accept errors and slow handlers.", 60000, 600000)
	reg("C17", "with the faults of C12 and raw peers that idle, stall, half-close, close, abort and vanish; every connection is followed to its end.", 80000, 800000)
	reg("C22", "appending to a log through the server and reading back, with the faults of C12, power cuts inside I/O operations and failing writes, over several incarnations of the server.", 80000, 800000)
}
