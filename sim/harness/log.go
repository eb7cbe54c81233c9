package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/rveen/ogdl"

	"verif.local/sim/rt"
	"verif.local/sim/simfs"
)

var logReal = []string{"log.go", "binary.go", "event.go", "graph.go (New, Add)", "gettypes.go (_bytes)", "bufio, bytes (standard library)"}
var logStub = []string{"os.File and the file system: simfs (page cache contents vs durable contents, write/sync/seek errors, short writes and reads, power cuts)", "processes: tasks of the simulated scheduler"}

const logFile = "/data/log.bin"

// entry is an object the model says is in the log.
type entry struct {
	pos   int64
	bytes []byte
	m     []*M
	acked bool
}

func (e *entry) end() int64 { return e.pos + int64(len(e.bytes)) }

// farLog is the part of a plan for logs that are large already: in front of what a run appends are Far bytes of
// objects that are not kept in memory. The last FarN of them take part.
type farLog struct {
	Far  int64 `json:"far,omitempty"`
	FarN int   `json:"farn,omitempty"`
}

var filling = refEncode([]*M{{s: "an old object"}}, refOpt{})

func genFar(r *rt.Rand) (f farLog) {
	if r.Intn(40) == 0 {
		b := []int64{1 << 31, 1 << 32, 1 << 33, 5e9, 1 << 40, 1 << 53}[r.Intn(6)]
		f.Far = b/int64(len(filling)) - int64([]int{0, 1, 3, 30, 300}[r.Intn(5)])
		f.FarN = r.Intn(4)
	}
	return f
}

// begin makes the file of the log durable and gives the old objects that take part.
func (f farLog) begin(w *rt.World) (es []*entry, start int64) {
	fs := simfs.Of(w)
	n := int64(len(filling))
	if f.Far <= 0 {
		return nil, 0
	}
	w.Count("large_log")
	fs.PutFar(logFile, f.Far*n, filling)
	k := min(int64(f.FarN), f.Far)
	for ; k > 0; k-- {
		es = append(es, &entry{pos: (f.Far - k) * n, bytes: filling, m: []*M{{s: "an old object"}}, acked: true})
	}
	start = f.Far * n
	if len(es) > 0 {
		start = es[0].pos
	}
	w.Ext["log.start"] = start
	return es, start
}

// wantBytes gives the bytes an appended graph must be stored as, judged by the reference decoder.
func wantBytes(w *rt.World, ns []*N) ([]byte, []*M) {
	m := model(ns)
	b := graph(ns).Binary()
	return append([]byte(nil), b...), m
}

// checkBinary verifies that bytes are one object equal to the model.
func checkBinary(b []byte, m []*M) string {
	d, n := refDecode(b)
	if n == 0 {
		return "is not a well-formed binary object"
	}
	if n != len(b) {
		return fmt.Sprintf("has %d bytes after the object", len(b)-n)
	}
	return diffModels(d, m)
}

func diffModels(a, b []*M) string {
	type pr struct{ a, b []*M }
	st := []pr{{a, b}}
	for len(st) > 0 {
		p := st[len(st)-1]
		st = st[:len(st)-1]
		if len(p.a) != len(p.b) {
			return fmt.Sprintf("has %d nodes instead of %d (%s instead of %s)", len(p.a), len(p.b), kidsM(p.a), kidsM(p.b))
		}
		for i := range p.a {
			if p.a[i].s != p.b[i].s {
				return fmt.Sprintf("has %s instead of %s", show(p.a[i].s), show(p.b[i].s))
			}
			st = append(st, pr{p.a[i].k, p.b[i].k})
		}
	}
	return ""
}

// readAt checks both ways of reading an entry.
func readAt(w *rt.World, l *ogdl.Log, e *entry, bin bool, what string) {
	if bin {
		b, next, err := l.GetBinary(e.pos)
		if err != nil || b == nil {
			w.Fail("getbinary-missing", "%s: GetBinary(%d) gives %d bytes and error %v; the object appended there has %d bytes", what, e.pos, len(b), err, len(e.bytes))
		}
		if !bytes.Equal(b, e.bytes) {
			w.Fail("getbinary-content", "%s: GetBinary(%d) gives %d bytes %s, appended were %d bytes %s", what, e.pos, len(b), show(string(b)), len(e.bytes), show(string(e.bytes)))
		}
		if next != e.end() {
			w.Fail("getbinary-next", "%s: GetBinary(%d) gives next position %d instead of %d", what, e.pos, next, e.end())
		}
		hold(w, "GetBinary", b)
		return
	}
	g, next, err := l.Get(e.pos)
	if err != nil || g == nil {
		w.Fail("get-missing", "%s: Get(%d) gives graph %v and error %v", what, e.pos, g != nil, err)
	}
	if d := diff(g, e.m); d != "" {
		w.Fail("get-content", "%s: Get(%d): %s", what, e.pos, d)
	}
	if next != e.end() {
		w.Fail("get-next", "%s: Get(%d) gives next position %d instead of %d", what, e.pos, next, e.end())
	}
	spoil(g)
}

// walk goes from position 0 to the end of the log and compares with the entries; the
// object after the last one must be reported as missing.
func walk(w *rt.World, l *ogdl.Log, es []*entry, bin bool, what string) {
	pos, _ := w.Ext["log.start"].(int64)
	for i, e := range es {
		if pos != e.pos {
			w.Fail("walk-position", "%s: object %d was appended at %d but the walk is at %d", what, i, e.pos, pos)
		}
		readAt(w, l, e, bin, fmt.Sprintf("%s, walk object %d", what, i))
		pos = e.end()
	}
	atEnd(w, l, pos, bin, what)
}

func atEnd(w *rt.World, l *ogdl.Log, pos int64, bin bool, what string) {
	if bin {
		b, next, err := l.GetBinary(pos)
		if err != nil && err != io.EOF {
			w.Fail("end-error", "%s: GetBinary(%d) at the end of the log gives error %v", what, pos, err)
		}
		if len(b) != 0 {
			w.Fail("end-binary", "%s: GetBinary(%d) at the end of the log gives %d bytes", what, pos, len(b))
		}
		if next > pos {
			w.Fail("end-binary", "%s: GetBinary(%d) at the end of the log gives next position %d", what, pos, next)
		}
		return
	}
	g, next, err := l.Get(pos)
	if err != nil && err != io.EOF {
		w.Fail("end-error", "%s: Get(%d) at the end of the log gives error %v", what, pos, err)
	}
	if g != nil {
		w.Fail("end-graph", "%s: Get(%d) at the end of the log gives a graph %s", what, pos, kidsG(g))
	}
	if next > pos {
		w.Fail("end-graph", "%s: Get(%d) at the end of the log gives next position %d", what, pos, next)
	}
}

// obj is an object of a plan.
type obj struct {
	K []*N `json:"k"`
	// Chunk and Form are for objects appended in binary form by the reference encoder.
	Chunk int `json:"chunk,omitempty"`
	Form  int `json:"form,omitempty"`
}

// same makes one object in eight equal to the one before it.
func same(r *rt.Rand, last *obj, ob obj) obj {
	if last.K != nil && r.Intn(8) == 0 {
		return *last
	}
	*last = ob
	return ob
}

func genObj(r *rt.Rand, o treeOpt, id string) obj {
	ob := obj{K: genTree(r, o, id)}
	if r.Intn(3) == 0 {
		ob.Chunk = []int{0, 1, 3, 127, 128, 1000, 16384}[r.Intn(7)]
		ob.Form = r.Intn(5)
	}
	return ob
}

func logTree(r *rt.Rand) treeOpt {
	o := treeOpt{max: 2 + r.Intn(14), bin: r.Intn(2) == 0, nul: r.Intn(4) == 0, empty: r.Intn(3) == 0, typed: r.Intn(4) == 0, wide: r.Intn(60) == 0}
	if r.Intn(3) == 0 {
		o.big = []int{300, 5000, 20000, 70000}[r.Intn(4)]
	}
	if r.Intn(6) == 0 {
		o.deep = 300
	}
	return o
}

// add appends an object through the interface under test.
func (o obj) add(w *rt.World, l *ogdl.Log, bin bool) (*entry, int64) {
	m := model(o.K)
	w.Room(4 * longest(o.K)) // it is read many times
	if bin {
		b := refEncode(m, refOpt{o.Chunk, o.Form})
		given := append([]byte(nil), b...)
		pos := l.AddBinary(given)
		if !bytes.Equal(given, b) {
			w.Fail("argument-changed", "AddBinary changed the object it was given")
		}
		scribble(given)
		return &entry{pos: pos, bytes: b, m: m}, pos
	}
	g := graph(o.K)
	own := g.Binary()
	b := append([]byte(nil), own...)
	scribble(own)
	pos := l.Add(g)
	spoil(g)
	return &entry{pos: pos, bytes: b, m: m}, pos
}

func openLog(w *rt.World, what string) *ogdl.Log {
	l, err := ogdl.OpenLog(logFile)
	if err != nil {
		w.Fail("open", "%s: OpenLog: %v", what, err)
	}
	return l
}

// ---- C01 ----

type lop struct {
	Op  string `json:"op"`
	H   int    `json:"h,omitempty"`
	I   int    `json:"i,omitempty"`
	Bin bool   `json:"bin,omitempty"`
	Obj *obj   `json:"obj,omitempty"`
}

type logPlan struct {
	Common
	farLog
	ShortRd float64 `json:"short"`
	ChunkWr float64 `json:"chunk"`
	Ops     []lop   `json:"ops"`
	Readers int     `json:"readers"`
	Mem     bool    `json:"mem,omitempty"` // the same appends go to a log in memory too
	Huge    bool    `json:"huge,omitempty"`
}

func genC01(r *rt.Rand, run int) Plan {
	p := &logPlan{farLog: genFar(r)}
	p.MeanGap = []int{0, 0, 20, 200}[r.Intn(4)]
	p.ShortRd = []float64{0, 0.2, 0.7, 1}[r.Intn(4)]
	p.ChunkWr = []float64{0, 0, 0.5}[r.Intn(3)]
	p.Readers = r.Intn(3)
	n := 2 + r.Intn(18)
	var last obj
	o := logTree(r)
	p.Mem = r.Intn(3) == 0
	for i := 0; i < n; i++ {
		op := lop{H: r.Intn(3), I: r.Intn(1000), Bin: r.Intn(2) == 0}
		switch k := r.Intn(20); {
		case k < 9:
			op.Op = "add"
			o.huge = r.Intn(5000) == 0
			if o.huge {
				p.Huge, p.Readers, p.MeanGap = true, 0, 0
			}
			ob := same(r, &last, genObj(r, o, fmt.Sprintf("o%d.", i)))
			op.Obj = &ob
			if r.Intn(3) > 0 {
				op.Bin = false
			}
		case k < 13:
			op.Op = "get"
		case k < 15:
			op.Op = "walk"
		case k < 17:
			op.Op = "reopen"
		case k < 18:
			op.Op = "sync"
		case k < 19:
			op.Op = "addnil"
		default:
			op.Op = "setsync"
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func (p *logPlan) Run(w *rt.World, e *Env) {
	if p.Huge {
		w.MaxSteps *= 20
	}
	fs := simfs.Of(w)
	fs.ShortRd, fs.ChunkWr = p.ShortRd, p.ChunkWr
	es, _ := p.begin(w)
	hs := make([]*ogdl.Log, 3)
	var mem ogdl.Log // the log in memory
	var all []byte   // what it must contain
	h := func(i int) *ogdl.Log {
		i %= len(hs)
		if hs[i] == nil {
			hs[i] = openLog(w, "open")
		}
		return hs[i]
	}
	over := false
	var ts []*rt.Task
	for k := 0; k < p.Readers; k++ {
		k := k
		ts = append(ts, w.Spawn(w.Local(), "reader", func() {
			var l *ogdl.Log
			for i := 0; !over && i < 60; i++ {
				if len(es) > 0 {
					if l == nil {
						l = openLog(w, "reader open")
					}
					en := es[w.Uniform("reader.pick", len(es))]
					readAt(w, l, en, (i+k)%2 == 0, "concurrent reader")
					e.Ops++
				}
				w.Sleep(1000000)
			}
			if l != nil {
				l.Close()
			}
		}))
	}
	for i, op := range p.Ops {
		what := fmt.Sprintf("op %d (%s handle %d)", i, op.Op, op.H)
		e.Ops++
		switch op.Op {
		case "add":
			l := h(op.H)
			size := fs.Size(logFile)
			en, pos := op.Obj.add(w, l, op.Bin)
			if !op.Bin {
				if d := checkBinary(en.bytes, en.m); d != "" {
					w.Fail("binary-form", "%s: Binary() of the appended graph %s", what, d)
				}
			}
			if pos < 0 {
				w.Fail("add-refused", "%s: returned %d although nothing failed", what, pos)
			}
			if pos != size {
				w.Fail("add-position", "%s: returned %d, the log had %d bytes", what, pos, size)
			}
			es = append(es, en)
			readAt(w, l, en, op.I%2 == 0, what)
			if p.Mem {
				inMem(w, &mem, &all, op, en, what)
			}
		case "addnil":
			if pos := h(op.H).Add(nil); pos >= 0 {
				w.Fail("add-nil", "%s: Add(nil) returned position %d although no object was appended", what, pos)
			}
			if p.Mem {
				if pos := mem.Add(nil); pos >= 0 {
					w.Fail("add-nil", "%s: Add(nil) on a log in memory returned position %d although no object was appended", what, pos)
				}
			}
		case "get":
			if len(es) > 0 {
				readAt(w, h(op.H), es[op.I%len(es)], op.Bin, what)
			}
		case "walk":
			walk(w, h(op.H), es, op.Bin, what)
		case "reopen":
			if hs[op.H] != nil {
				hs[op.H].Close()
				hs[op.H] = nil
			}
		case "sync":
			h(op.H).Sync()
		case "setsync":
			h(op.H).SetSync(op.Bin)
		}
		if w.MeanGap > 0 {
			w.Sleep(500000)
		}
	}
	over = true
	for _, t := range ts {
		w.Join(t, 0)
	}
	walk(w, h(0), es, false, "final walk")
	walk(w, h(1), es, true, "final binary walk")
	if got := fs.Size(logFile); len(es) > 0 && got != es[len(es)-1].end() {
		w.Fail("size", "the log has %d bytes, the appended objects end at %d", got, es[len(es)-1].end())
	}
}

// inMem appends the object to the log in memory as well.
func inMem(w *rt.World, l *ogdl.Log, all *[]byte, op lop, en *entry, what string) {
	m, pos := op.Obj.add(w, l, op.Bin)
	if pos != int64(len(*all)) {
		w.Fail("memory-position", "%s: the log in memory had %d bytes, the append returned %d", what, len(*all), pos)
	}
	if !bytes.Equal(m.bytes, en.bytes) {
		w.Fail("memory-form", "%s: the binary form of the object is %d bytes %s, a moment ago %d bytes %s", what, len(m.bytes), show(string(m.bytes)), len(en.bytes), show(string(en.bytes)))
	}
	*all = append(*all, m.bytes...)
	if b := l.Bytes(); !bytes.Equal(b, *all) {
		w.Fail("memory-content", "%s: Bytes() of the log in memory is %d bytes %s instead of %d bytes %s", what, len(b), show(string(b)), len(*all), show(string(*all)))
	}
}

// ---- C02 ----

type crashPlan struct {
	Common
	farLog
	ShortRd float64  `json:"short"`
	ChunkWr float64  `json:"chunk"`
	Epochs  []cEpoch `json:"epochs"`
}

type cEpoch struct {
	CrashAt int   `json:"crash_at"` // -1: no crash, clean close
	Frac    int   `json:"frac"`
	Ops     []lop `json:"ops"`
}

func genC02(r *rt.Rand, run int) Plan {
	p := &crashPlan{farLog: genFar(r)}
	p.MeanGap = []int{0, 0, 50}[r.Intn(3)]
	p.ShortRd = []float64{0, 0, 0.5}[r.Intn(3)]
	p.ChunkWr = []float64{0, 0, 0.5}[r.Intn(3)]
	var last obj
	o := logTree(r)
	id := 0
	for k := 1 + r.Intn(4); k > 0; k-- {
		ep := cEpoch{CrashAt: r.Intn(16), Frac: r.Intn(1001)}
		if r.Intn(8) == 0 {
			ep.CrashAt = -1
		}
		if r.Intn(4) == 0 {
			ep.Frac = 1000 * r.Intn(2)
		}
		sync := true
		for n := 1 + r.Intn(9); n > 0; n-- {
			op := lop{I: r.Intn(1000), Bin: r.Intn(3) == 0}
			switch c := r.Intn(12); {
			case c < 8:
				op.Op = "add"
				id++
				ob := same(r, &last, genObj(r, o, fmt.Sprintf("o%d.", id)))
				op.Obj = &ob
			case c < 9:
				op.Op = "setsync"
				sync = !sync
				op.Bin = sync
			case c < 10:
				op.Op = "sync"
			case c < 11:
				op.Op = "get"
			default:
				op.Op = "reopen"
			}
			ep.Ops = append(ep.Ops, op)
		}
		p.Epochs = append(p.Epochs, ep)
	}
	return p
}

func (p *crashPlan) Run(w *rt.World, e *Env) {
	fs := simfs.Of(w)
	fs.ShortRd, fs.ChunkWr = p.ShortRd, p.ChunkWr
	// The directory entry of the log is durable (creating it is the job of the deployment).
	fs.Put(logFile, nil)
	es, start := p.begin(w)            // objects whose append returned, in order
	far := p.Far * int64(len(filling)) // not kept in memory
	torn := int64(-1)                  // first position where whole objects end and remains of a lost append follow
	for k, ep := range p.Epochs {
		node := w.NewNode("proc")
		var dead rt.WaitQ
		cut := false
		fs.OnCrash = func() { cut = true; w.WakeAll(&dead) }
		fs.CrashAt = -1
		if ep.CrashAt >= 0 {
			fs.CrashAt = fs.Ops + ep.CrashAt
			fs.CrashFrac = ep.Frac
		}
		var pending *entry // append in progress
		_ = pending
		fin := false
		w.Spawn(node, "proc", func() {
			l := openLog(w, "open")
			sync := true
			for i, op := range ep.Ops {
				what := fmt.Sprintf("epoch %d op %d (%s)", k, i, op.Op)
				e.Ops++
				switch op.Op {
				case "add":
					en, pos := op.Obj.add(w, l, op.Bin)
					if pos < 0 {
						w.Fail("add-refused", "%s: returned %d although nothing failed", what, pos)
					}
					es = append(es, en)
					if sync {
						// syncing the file makes earlier appends durable as well
						for _, x := range es {
							x.acked = true
						}
					}
				case "setsync":
					l.SetSync(op.Bin)
					sync = op.Bin
				case "sync":
					l.Sync()
					for _, x := range es {
						x.acked = true
					}
				case "get":
					if len(es) > 0 {
						readAt(w, l, es[op.I%len(es)], op.Bin, what)
					}
				case "reopen":
					l.Close()
					l = openLog(w, what)
					sync = true
				}
			}
			l.Close()
			fin = true
			w.WakeAll(&dead)
		})
		for !fin && !cut {
			w.Wait(&dead, 0)
		}
		w.Crash(node)
		if cut {
			e.Hit("power cut during I/O")
		} else if ep.CrashAt >= 0 {
			e.Hit("power cut after the last operation")
		}
		if cut || ep.CrashAt >= 0 {
			fs.PowerLoss()
			// what was acknowledged stays; of the rest, only what is there whole stays known
			data := fs.Get(logFile)
			var keep []*entry
			for _, x := range es {
				whole := x.pos < far || x.end()-far <= int64(len(data)) && bytes.Equal(data[x.pos-far:x.end()-far], x.bytes)
				if x.acked && !whole {
					w.Fail("lost", "epoch %d: an object of %d bytes appended at %d and acknowledged as durable is no longer there after the crash (the file has %d bytes)", k, len(x.bytes), x.pos, fs.Size(logFile))
				}
				if x.acked {
					keep = append(keep, x)
				} else {
					e.Hit("unacknowledged append before crash")
				}
			}
			es = keep
			end := far
			if len(es) > 0 {
				end = es[len(es)-1].end()
			}
			// Objects that were never acknowledged may have survived whole: a walk goes through them.
			var extra []*entry
			for torn < 0 && end-far < int64(len(data)) {
				m, n := refDecode(data[end-far:])
				if n == 0 {
					torn = end
					e.Hit("torn tail")
					break
				}
				x := &entry{pos: end, bytes: append([]byte(nil), data[end-far:end-far+int64(n)]...), m: m, acked: true}
				extra = append(extra, x)
				end += int64(n)
			}
			es = append(es, extra...)
			if len(extra) > 0 {
				e.Hit("unacknowledged append survived")
			}
		}
		fs.OnCrash = nil
		fs.CrashAt = -1
		// check from another process
		l := openLog(w, "recovery")
		what := fmt.Sprintf("after epoch %d", k)
		for i, x := range es {
			readAt(w, l, x, i%2 == 0, what)
		}
		p.walkKnown(w, e, l, es, torn, start, what)
		l.Close()
	}
}

// walkKnown walks the log. Where remains of a torn append lie in front of later objects the walk
// cannot find these: that is a recorded finding, everything else is not.
func (p *crashPlan) walkKnown(w *rt.World, e *Env, l *ogdl.Log, es []*entry, torn, start int64, what string) {
	if torn < 0 {
		// at the end
		walk(w, l, es, false, what)
		walk(w, l, es, true, what)
		return
	}
	var front []*entry
	for _, x := range es {
		if x.pos < torn {
			front = append(front, x)
		}
	}
	pos := start
	for i, x := range front {
		if x.pos != pos {
			w.Fail("walk-position", "%s: object %d is at %d but the walk is at %d", what, i, x.pos, pos)
		}
		readAt(w, l, x, i%2 == 1, what+", walk")
		pos = x.end()
	}
	if len(front) == len(es) {
		return
	}
	// objects follow the torn tail: does the walk reach the next one?
	g, next, _ := l.Get(pos)
	if g == nil || next != es[len(front)].pos {
		e.Knownf("torn-tail-walk", "after a crash tore an append, the walk from 0 stops at the remains and does not reach objects appended later (each is found at its position)")
	}
}

// ---- C03 ----

type failPlan struct {
	Common
	farLog
	PWrite float64 `json:"pwrite"`
	PSync  float64 `json:"psync"`
	PSeek  float64 `json:"pseek"`
	Cap    int64   `json:"cap"` // -1 = unlimited; the disk gets more room after each failure
	Room   int64   `json:"room"`
	Ops    []lop   `json:"ops"`
}

func genC03(r *rt.Rand, run int) Plan {
	p := &failPlan{Cap: -1, farLog: genFar(r)}
	p.MeanGap = 0
	switch r.Intn(5) {
	case 0:
		p.PWrite = 0.3
	case 1:
		p.PSync = 0.3
	case 2:
		p.PSeek = 0.2
	case 3:
		p.Cap = int64(r.Intn(2000))
		p.Room = int64(r.Intn(1500))
	default:
		p.PWrite, p.PSync, p.PSeek = 0.15, 0.15, 0.05
	}
	var last obj
	o := logTree(r)
	for i := 3 + r.Intn(14); i > 0; i-- {
		op := lop{I: r.Intn(1000), Bin: r.Intn(3) == 0}
		switch c := r.Intn(12); {
		case c < 8:
			op.Op = "add"
			ob := same(r, &last, genObj(r, o, fmt.Sprintf("o%d.", i)))
			op.Obj = &ob
		case c < 9:
			op.Op = "setsync"
		case c < 10:
			op.Op = "get"
		case c < 11:
			op.Op = "walk"
		default:
			op.Op = "reopen"
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func (p *failPlan) Run(w *rt.World, e *Env) {
	fs := simfs.Of(w)
	fs.Put(logFile, nil)
	es, _ := p.begin(w)
	far := p.Far * int64(len(filling)) // not kept in memory
	l := openLog(w, "open")
	capNow := p.Cap
	failed := 0
	for i, op := range p.Ops {
		what := fmt.Sprintf("op %d (%s)", i, op.Op)
		e.Ops++
		switch op.Op {
		case "add":
			fs.PWrite, fs.PSync, fs.PSeek, fs.Cap = p.PWrite, p.PSync, p.PSeek, capNow
			before := faultCount(w)
			fs.SyncFailed = false
			en, pos := op.Obj.add(w, l, op.Bin)
			hit := faultCount(w) - before
			fs.PWrite, fs.PSync, fs.PSeek, fs.Cap = 0, 0, 0, -1
			if hit == 0 {
				if pos < 0 {
					w.Fail("add-refused", "%s: returned %d although nothing failed", what, pos)
				}
			} else if pos >= 0 {
				// The append may have overcome the fault; then it must really be there.
				data := fs.Get(logFile)
				if en.pos < far || en.end()-far > int64(len(data)) || !bytes.Equal(data[en.pos-far:en.end()-far], en.bytes) {
					w.Fail("unreported", "%s: a write, sync or seek failed but position %d was returned; the object (%d bytes) is not there, the file has %d bytes", what, pos, len(en.bytes), len(data))
				}
				if fs.SyncFailed {
					w.Fail("unreported", "%s: the sync failed but position %d was returned", what, pos)
				}
			}
			if pos >= 0 {
				es = append(es, en)
				if failed > 0 {
					e.Hit("append after a failed append")
				}
			} else {
				failed++
				e.Hit("failed append")
				capNow += p.Room
			}
		case "setsync":
			l.SetSync(op.Bin)
		case "get":
			if len(es) > 0 {
				readAt(w, l, es[op.I%len(es)], op.Bin, what)
			}
		case "walk":
			walk(w, l, es, op.Bin, what)
		case "reopen":
			l.Close()
			l = openLog(w, what)
		}
	}
	for i, x := range es {
		readAt(w, l, x, i%2 == 0, "at the end")
	}
	walk(w, l, es, false, "final walk")
	l2 := openLog(w, "second handle")
	walk(w, l2, es, true, "final binary walk")
}

func faultCount(w *rt.World) int64 {
	var n int64
	for k, v := range w.Stats.Map() {
		if len(k) > 11 && k[:11] == "fault.disk." {
			n += v
		}
	}
	return n
}

// ---- C04 ----

type cutPlan struct {
	Common
	farLog
	ShortRd float64 `json:"short"`
	Objs    []obj   `json:"objs"`
	Cut     int     `json:"cut"`  // bytes removed from the end, modulo the size of the last objects
	Back    int     `json:"back"` // the cut lies in this object counted from the end
	Frac    int     `json:"frac"`
	Tail    Str     `json:"tail"`
	Bin     bool    `json:"bin"`
}

func genC04(r *rt.Rand, run int) Plan {
	p := &cutPlan{farLog: genFar(r), Back: r.Intn(3), Frac: r.Intn(1001), Bin: r.Intn(2) == 0}
	p.ShortRd = []float64{0, 0.3, 1}[r.Intn(3)]
	var last obj
	o := logTree(r)
	o.nul = r.Intn(2) == 0
	for i := 1 + r.Intn(5); i > 0; i-- {
		p.Objs = append(p.Objs, same(r, &last, genObj(r, o, fmt.Sprintf("o%d.", i))))
	}
	p.Cut = -1
	switch r.Intn(3) {
	case 0:
		p.Cut = r.Intn(12) // near the end of the object
	case 1:
		p.Cut = -2 - r.Intn(12) // near its start
	}
	return p
}

func (p *cutPlan) Run(w *rt.World, e *Env) {
	fs := simfs.Of(w)
	fs.Put(logFile, nil)
	old, start := p.begin(w)
	far := p.Far * int64(len(filling)) // not kept in memory
	l := openLog(w, "open")
	var es []*entry
	for _, o := range p.Objs {
		en, pos := o.add(w, l, p.Bin)
		if pos < 0 {
			w.Fail("add-refused", "append returned %d although nothing failed", pos)
		}
		es = append(es, en)
	}
	l.Close()
	if len(es) == 0 {
		return
	}
	fs.ShortRd = p.ShortRd
	x := es[len(es)-1-p.Back%len(es)]
	n := len(x.bytes)
	var at int
	switch {
	case p.Cut >= 0:
		at = n - 1 - p.Cut%n
	case p.Cut == -1:
		at = n * p.Frac / 1001
	default:
		at = (-2 - p.Cut) % n
	}
	cut := x.pos + int64(at)
	w.Note("cut at %d of object %d..%d", cut, x.pos, x.end())
	w.Count("fault.file.cut")
	fs.Cut(logFile, int(cut-far))
	l = openLog(w, "reopen")
	whole := old
	for _, y := range es {
		if y.end() <= cut {
			whole = append(whole, y)
		}
	}
	for i, y := range whole {
		readAt(w, l, y, i%2 == 0, "whole object before the cut")
	}
	for _, pos := range []int64{x.pos, cut, cut + 1, cut + 5000, cut + 1<<20} {
		if pos > x.pos && pos < cut {
			continue
		}
		e.Ops++
		a0 := AllocBytes()
		g, next, err := l.Get(pos)
		if g != nil {
			w.Fail("partial", "Get(%d) returns a graph %s (next %d, error %v) although the log ends at %d in the middle of the object at %d..%d", pos, kidsG(g), next, err, cut, x.pos, x.end())
		}
		b, next, err := l.GetBinary(pos)
		if len(b) != 0 {
			w.Fail("partial-binary", "GetBinary(%d) returns %d bytes (next %d, error %v) although the log ends at %d in the middle of the object at %d..%d", pos, len(b), next, err, cut, x.pos, x.end())
		}
		if a := AllocBytes() - a0; a > 64<<20 {
			w.Fail("memory", "reading at %d of a log of %d bytes allocated %d MB", pos, cut, a>>20)
		}
	}
	for _, y := range es {
		if y.pos > cut {
			e.Ops++
			if g, _, _ := l.Get(y.pos); g != nil {
				w.Fail("partial", "Get(%d) beyond the end (%d) returns a graph", y.pos, cut)
			}
		}
	}
	// a walk that follows the returned positions
	for _, bin := range []bool{false, true} {
		pos, k := start, 0
		for {
			var next int64
			var ok bool
			if bin {
				b, nx, err := l.GetBinary(pos)
				next, ok = nx, err == nil && len(b) > 0
			} else {
				g, nx, err := l.Get(pos)
				next, ok = nx, err == nil && g != nil
			}
			if !ok || next <= pos {
				break
			}
			pos = next
			k++
		}
		if k != len(whole) {
			w.Fail("walk-count", "a walk (binary %v) finds %d objects, %d are whole", bin, k, len(whole))
		}
	}
}

// ---- C05 ----

type followPlan struct {
	Common
	farLog
	ShortRd   float64 `json:"short"`
	ChunkWr   float64 `json:"chunk"`
	Objs      []obj   `json:"objs"`
	Bins      []bool  `json:"bins"`
	Followers int     `json:"followers"`
	Sync      bool    `json:"sync"`
	StallP    float64 `json:"stall"`
}

func genC05(r *rt.Rand, run int) Plan {
	p := &followPlan{farLog: genFar(r), Followers: 1 + r.Intn(3), Sync: r.Intn(2) == 0}
	p.MeanGap = []int{3, 20, 100, 1000}[r.Intn(4)]
	p.ShortRd = []float64{0, 0.3, 1}[r.Intn(3)]
	p.ChunkWr = []float64{0.5, 1, 1}[r.Intn(3)]
	p.StallP = []float64{0, 0.02}[r.Intn(2)]
	var last obj
	o := logTree(r)
	if o.max > 8 {
		o.max = 8
	}
	o.deep = 0
	if o.big > 5000 {
		o.big = 20000
	}
	for i := 1 + r.Intn(7); i > 0; i-- {
		p.Objs = append(p.Objs, same(r, &last, genObj(r, o, fmt.Sprintf("o%d.", i))))
		p.Bins = append(p.Bins, r.Intn(3) == 0)
	}
	return p
}

func (p *followPlan) Run(w *rt.World, e *Env) {
	fs := simfs.Of(w)
	fs.Put(logFile, nil)
	fs.ShortRd, fs.ChunkWr = p.ShortRd, p.ChunkWr
	w.Local().StallP, w.Local().StallMax = p.StallP, 50e6
	var want []*entry // what is being appended, in order; positions follow from the sizes
	var done int      // appends completed
	p.begin(w)
	pos := fs.Size(logFile)
	start := pos
	for i, o := range p.Objs {
		m := model(o.K)
		var b []byte
		if i < len(p.Bins) && p.Bins[i] {
			b = refEncode(m, refOpt{o.Chunk, o.Form})
		} else {
			b = graph(o.K).Binary()
		}
		want = append(want, &entry{pos: pos, bytes: append([]byte(nil), b...), m: m})
		pos += int64(len(b))
	}
	wr := w.Spawn(w.Local(), "writer", func() {
		l := openLog(w, "writer")
		l.SetSync(p.Sync)
		for i, o := range p.Objs {
			en, at := o.add(w, l, i < len(p.Bins) && p.Bins[i])
			if at != want[i].pos || !bytes.Equal(en.bytes, want[i].bytes) {
				w.Fail("add-position", "append %d returned %d instead of %d", i, at, want[i].pos)
			}
			done++
			w.Sleep(int64(w.Uniform("writer.pause", 2000000)))
		}
		l.Close()
	})
	var ts []*rt.Task
	for k := 0; k < p.Followers; k++ {
		k := k
		ts = append(ts, w.Spawn(w.Local(), "follower", func() {
			l := openLog(w, "follower")
			at, n, late := start, 0, 0
			for n < len(want) {
				if late > 40 {
					w.Fail("follower-stuck", "follower %d does not obtain object %d at %d although its append completed long ago", k, n, at)
				}
				doneB := done
				bin := (n+k)%2 == 1
				x := want[n]
				e.Ops++
				var got bool
				var next int64
				var err error
				if bin {
					var b []byte
					b, next, err = l.GetBinary(at)
					got = len(b) > 0
					if got && !bytes.Equal(b, x.bytes) {
						w.Fail("follower-content", "follower %d: GetBinary(%d) gives %d bytes (error %v), object %d has %d; %d appends were complete", k, at, len(b), err, n, len(x.bytes), doneB)
					}
				} else {
					var g *ogdl.Graph
					g, next, err = l.Get(at)
					got = g != nil
					if got {
						if d := diff(g, x.m); d != "" {
							w.Fail("follower-content", "follower %d: Get(%d), object %d (error %v): %s", k, at, n, err, d)
						}
					}
				}
				if got {
					if done < n {
						w.Fail("follower-future", "follower %d obtained object %d before its append began", k, n)
					}
					if next != x.end() {
						w.Fail("follower-next", "follower %d: object %d at %d ends at %d, the next position given is %d", k, n, at, x.end(), next)
					}
					at = next
					n++
					late = 0
					continue
				}
				if next > at {
					w.Fail("follower-skip", "follower %d: nothing at %d, but next position %d is given (error %v)", k, at, next, err)
				}
				if doneB > n {
					late++
				}
				if fs.Size(logFile) > at {
					e.Hit("follower met an incomplete object")
				}
				w.Sleep(int64(20000 + w.Uniform("follower.pause", 800000)))
			}
			l.Close()
		}))
	}
	w.Join(wr, 0)
	for _, t := range ts {
		w.Join(t, 0)
	}
}

// ---- C33 ----

type rdFaultPlan struct {
	Common
	farLog
	ShortRd float64 `json:"short"`
	PRead   float64 `json:"pread"`
	PSeek   float64 `json:"pseek"`
	Ops     []lop   `json:"ops"`
}

func genC33(r *rt.Rand, run int) Plan {
	p := &rdFaultPlan{farLog: genFar(r)}
	p.ShortRd = []float64{0, 0.3, 1}[r.Intn(3)]
	switch r.Intn(5) {
	case 0:
		p.PSeek = 0.3
	case 1:
		p.PRead, p.PSeek = 0.1, 0.05
	default:
		p.PRead = []float64{0.02, 0.1, 0.3, 0.6}[r.Intn(4)]
	}
	var last obj
	o := logTree(r)
	id := 0
	for i := 3 + r.Intn(16); i > 0; i-- {
		op := lop{H: r.Intn(2), I: r.Intn(1000), Bin: r.Intn(2) == 0}
		switch c := r.Intn(14); {
		case c < 4:
			op.Op = "add"
			id++
			ob := same(r, &last, genObj(r, o, fmt.Sprintf("o%d.", id)))
			op.Obj = &ob
			op.Bin = r.Intn(3) == 0
		case c < 8:
			op.Op = "get"
		case c < 10:
			op.Op = "end"
		case c < 12:
			op.Op = "walk"
		case c < 13:
			op.Op = "check"
		default:
			op.Op = "reopen"
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func (p *rdFaultPlan) Run(w *rt.World, e *Env) {
	fs := simfs.Of(w)
	fs.ShortRd = p.ShortRd
	fs.Put(logFile, nil)
	es, _ := p.begin(w)
	end := fs.Size(logFile)
	hs := []*ogdl.Log{openLog(w, "open"), openLog(w, "open")}
	// read makes one read under faults; it tells whether the read gave a result.
	read := func(l *ogdl.Log, x *entry, bin bool, what string) bool {
		pos := end
		if x != nil {
			pos = x.pos
		}
		fs.PRead, fs.PSeek = p.PRead, p.PSeek
		before := faultCount(w)
		var (
			b    []byte
			g    *ogdl.Graph
			next int64
			err  error
		)
		if bin {
			what += " GetBinary"
			b, next, err = l.GetBinary(pos)
		} else {
			what += " Get"
			g, next, err = l.Get(pos)
		}
		hit := faultCount(w) - before
		fs.PRead, fs.PSeek = 0, 0
		got := b != nil || g != nil
		if err != nil && err != io.EOF {
			if hit == 0 {
				w.Fail("refused", "%s(%d): error %v although nothing failed", what, pos, err)
			}
			if got || next > pos {
				w.Fail("error-and-object", "%s(%d): error %v together with an object (%v) or next position %d", what, pos, err, got, next)
			}
			e.Hit("read error")
			return false
		}
		if x == nil {
			if got || next > pos {
				w.Fail("end", "%s(%d) at the end of the log gives an object (%v) or next position %d", what, pos, got, next)
			}
			return true
		}
		if !got {
			w.Fail("error-as-end", "%s(%d): reports the end of the log (error %v), where an object of %d bytes is stored; %d reads or seeks failed", what, pos, err, len(x.bytes), hit)
		}
		if hit > 0 {
			e.Hit("read survived a fault")
		}
		if bin && !bytes.Equal(b, x.bytes) {
			w.Fail("content", "%s(%d): %d bytes %s, stored are %d bytes %s; %d reads or seeks failed", what, pos, len(b), show(string(b)), len(x.bytes), show(string(x.bytes)), hit)
		}
		if !bin {
			if d := diff(g, x.m); d != "" {
				w.Fail("content", "%s(%d): %s; %d reads or seeks failed", what, pos, d, hit)
			}
		}
		if next != x.end() {
			w.Fail("next", "%s(%d): next position %d instead of %d; %d reads or seeks failed", what, pos, next, x.end(), hit)
		}
		return true
	}
	for i, op := range p.Ops {
		what := fmt.Sprintf("op %d (%s handle %d)", i, op.Op, op.H)
		l := hs[op.H%2]
		e.Ops++
		switch op.Op {
		case "add":
			en, pos := op.Obj.add(w, l, op.Bin)
			if pos != end {
				w.Fail("add", "%s: returned %d although nothing failed and the log had %d bytes", what, pos, end)
			}
			es = append(es, en)
			end = en.end()
		case "get":
			if len(es) > 0 {
				read(l, es[op.I%len(es)], op.Bin, what)
			}
		case "end":
			read(l, nil, op.Bin, what)
		case "walk":
			for k, x := range append(append([]*entry(nil), es...), nil) {
				for try := 0; try < 20; try++ {
					if read(l, x, op.Bin, fmt.Sprintf("%s object %d try %d", what, k, try)) {
						break
					}
				}
			}
		case "check":
			walk(w, l, es, op.Bin, what)
		case "reopen":
			l.Close()
			if len(es) > 0 && op.I%2 == 0 {
				pos := es[op.I%len(es)].pos
				if b, _, err := l.GetBinary(pos); err == nil || b != nil {
					w.Fail("closed", "%s: GetBinary(%d) through a closed handle gives %d bytes and error %v", what, pos, len(b), err)
				}
				if g, _, err := l.Get(pos); err == nil || g != nil {
					w.Fail("closed", "%s: Get(%d) through a closed handle gives a graph (%v) and error %v", what, pos, g != nil, err)
				}
			}
			// Opening may read, too
			fs.PRead, fs.PSeek = p.PRead, p.PSeek
			l, err := ogdl.OpenLog(logFile)
			fs.PRead, fs.PSeek = 0, 0
			if err != nil {
				l = openLog(w, what)
			}
			hs[op.H%2] = l
		}
	}
	walk(w, hs[0], es, false, "final walk")
	walk(w, hs[1], es, true, "final binary walk")
}

func init() {
	register(&Prop{ID: "C01", Quick: 160000, Thor: 1600000, New: func() Plan { return &logPlan{} }, Gen: genC01, Real: logReal, Stub: logStub,
		Rule: "One run is one history of appends (graphs and binary objects), reads, walks, syncs, closes and reopens over three handles of one log file, with concurrent readers, short reads and writes that become visible piece by piece; a model holds position and content of every append; in a third of the runs the same appends also go to a log in memory.",
		Note: []string{"one writer at a time; appends through different handles are sequential", "equality ignores whether a content that cannot be written as text comes back as string or bytes"}})
	register(&Prop{ID: "C02", Quick: 160000, Thor: 1600000, New: func() Plan { return &crashPlan{} }, Gen: genC02, Real: logReal, Stub: logStub,
		Rule: "One run is up to four process lifetimes on one disk; each may end by a power cut at a chosen point inside or between I/O operations, after which unsynced data is kept, lost, truncated, torn or dropped in 512-byte pieces.",
		Note: []string{"the log file itself exists durably", "fsync makes all earlier writes to the file durable"}})
	register(&Prop{ID: "C03", Quick: 240000, Thor: 2400000, New: func() Plan { return &failPlan{} }, Gen: genC03, Real: logReal, Stub: logStub,
		Rule: "One run is a history of appends and reads in which writes fail or are short (ENOSPC, EIO, a full disk that later has room), syncs and seeks fail.",
		Note: []string{"truncation does not fail", "explicit Sync does not fail (it returns nothing)"}})
	register(&Prop{ID: "C33", Quick: 240000, Thor: 2400000, New: func() Plan { return &rdFaultPlan{} }, Gen: genC33, Real: logReal, Stub: logStub,
		Rule: "One run is a history of appends, single reads and retrying walks through two handles of one log, in which reads and seeks fail (EIO) with a chosen probability while an object is being read.",
		Note: []string{"faults only during reads; appends and opening do not fail here (C03 covers them)"}})
	register(&Prop{ID: "C04", Quick: 320000, Thor: 3200000, New: func() Plan { return &cutPlan{} }, Gen: genC04, Real: logReal, Stub: logStub,
		Rule: "One run writes a log, cuts it at one byte position inside an object and reads at every object start, at the cut, after it and by walking, under short reads.",
		Note: []string{"reads inside an object are not covered"}})
	register(&Prop{ID: "C05", Quick: 240000, Thor: 2400000, New: func() Plan { return &followPlan{} }, Gen: genC05, Real: logReal, Stub: logStub,
		Rule: "One run is one interleaving of an appender whose writes become visible in pieces and one to three followers with their own handles, preempted between statements.",
		Note: []string{"a follower polls; 40 polls after an append completed must be enough"}})
}
