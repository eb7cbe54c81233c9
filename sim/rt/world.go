package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// Node is a simulated process (a set of tasks that crash together).
type Node struct {
	Name string
	Down bool
	Gen  int
	// StallP is the probability that a preempted task of this node is stalled.
	StallP   float64
	StallMax int64 // ns
	w        *World
}

type tstate int

const (
	runnable tstate = iota
	blocked
	done
)

// Task is a simulated thread.
type Task struct {
	ID     int
	Name   string
	Node   *Node
	wake   chan struct{}
	st     tstate
	dying  bool
	q      *WaitQ
	dl     *event
	timed  bool
	joinq  WaitQ
	Err    string // panic text
	sync   byte   // address used for race annotations
	soft   int64  // statements left before TooLong, or 0
	atom   int
	Local  interface{}
	recv   interface{} // last received from a channel
	recvOK bool
}

// WaitQ is a queue of blocked tasks.
type WaitQ struct{ ts []*Task }

type event struct {
	at   int64
	seq  int64
	fn   func()
	t    *Task
	dead bool
	idx  int
}

type eheap []*event

func (h eheap) Len() int { return len(h) }
func (h eheap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eheap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *eheap) Push(x interface{}) { e := x.(*event); e.idx = len(*h); *h = append(*h, e) }
func (h *eheap) Pop() interface{} {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	return e
}

// Violation is what a run found.
type Violation struct {
	Class string // stable name of what is violated; minimisation keeps it
	Msg   string
}

// World is one simulated execution.
type World struct {
	Seed     uint64
	SlowP    float64 // probability that an I/O operation takes up to SlowMax
	SlowMax  int64   // ns
	MeanGap  int     // mean number of statements between preemptions, 0 = none
	MaxSteps int64   // hang budget: statements
	MaxStops int64   // hang budget: times a task went through the scheduler or an I/O boundary
	Stats    Counter
	Draws    int64

	replay     []*stream
	replaying  bool
	streams    []*stream
	now        int64
	seq        int64
	ev         eheap
	run        []*Task
	cur        *Task
	tasks      []*Task
	ctl        chan struct{}
	killack    chan struct{}
	steps      int64
	stops      int64
	grant      int32
	rot        bool // grant expired only for fairness
	hash       uint64
	over       bool
	viol       *Violation
	sync       byte
	Trace      []string
	TraceOn    bool
	Switches   int64
	DeadMsg    string
	MapShuffle bool // permute map iteration
	ExitOK     bool // the code under test is a program: it may end the process
	// Ext holds state of shims (file system, network, ...).
	Ext map[string]interface{}
	// OnStop is called before tasks are killed at the end.
	local *Node
}

// W is the current world, or nil.
var W *World

const chunk = 20000

// NewWorld prepares a world. replay nil = seeded.
func NewWorld(seed uint64, replay Tape) *World {
	w := &World{Seed: seed, replay: load(replay), replaying: replay != nil,
		ctl: make(chan struct{}), killack: make(chan struct{}), MaxSteps: 100000000, MaxStops: 1000000, Ext: map[string]interface{}{}, hash: 1469598103934665603}
	w.local = &Node{Name: "local", w: w}
	return w
}

func (w *World) mix(v uint64) { w.hash = (w.hash ^ v) * 0x100000001b3; w.hash ^= w.hash >> 29 }

// Note adds to the execution hash (and the trace, when on).
func (w *World) Note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	w.mix(Hash(uint64(w.now), s))
	if w.TraceOn && len(w.Trace) < 20000 {
		n := "-"
		if w.cur != nil {
			n = w.cur.Name
		}
		w.Trace = append(w.Trace, fmt.Sprintf("%12.6fs %-10s %s", float64(w.now)/1e9, n, s))
	}
}

// HashValue identifies the execution.
func (w *World) HashValue() uint64 { return w.hash }
func (w *World) Steps() int64      { return w.steps }
func (w *World) Stops() int64      { return w.stops }

// Room makes the hang budgets fit an input of n bytes.
func (w *World) Room(n int) {
	w.MaxSteps += int64(n) * 500
	w.MaxStops += int64(n) * 20
	if n > 1<<20 && w.MeanGap > 0 {
		w.MeanGap = max(w.MeanGap, 5000)
	}
}
func (w *World) Count(k string)   { w.Stats.Add(k, 1) }
func (w *World) Viol() *Violation { return w.viol }
func (w *World) Now() int64       { return w.now }
func (w *World) Cur() *Task       { return w.cur }
func (w *World) Local() *Node     { return w.local }

// NewNode makes a simulated process group.
func (w *World) NewNode(name string) *Node { return &Node{Name: name, w: w} }

// Fail records a violation and ends the world. When called by a task it does not return.
func (w *World) Fail(class, format string, a ...interface{}) {
	if w.viol == nil {
		w.viol = &Violation{class, fmt.Sprintf(format, a...)}
		if w.TraceOn {
			w.Note("VIOLATION %s", class)
		}
	}
	w.finish()
	if w.cur != nil && !w.cur.dying {
		w.toController()
	}
}

// Abandon ends the world without a verdict.
func (w *World) Abandon(why string) {
	w.Count("abandoned")
	w.Note("abandoned: %s", why)
	w.finish()
	if w.cur != nil && !w.cur.dying {
		w.toController()
	}
}

// Exited is called when the code under test ends the process.
func (w *World) Exited(code int) {
	cls, st := panicSite(debug.Stack())
	w.Fail("exit:"+cls, "the process is ended by the code under test (status %d) in task %s\n%s", code, w.cur.Name, st)
}

func (w *World) finish() { w.over = true }

// toController parks the current task for good; the controller kills it.
func (w *World) toController() {
	t := w.cur
	t.st = blocked
	raceRelease(&w.sync)
	w.ctl <- struct{}{}
	<-t.wake
	runtime.Goexit()
}

// Dying tells whether the current task is being killed.
func Dying() bool { return W == nil || W.cur == nil || W.cur.dying }

// Go starts a task in the node of the current task. Tasks started at package
// initialisation start again in every world.
func Go(f func()) {
	n := W.local
	if W.cur != nil {
		n = W.cur.Node
	}
	t := W.Spawn(n, "go", f)
	if W == initW {
		initTasks = append(initTasks, initTask{f, t})
	}
}

type initTask struct {
	f func()
	t *Task
}

var initTasks []initTask

// initW is the world in which packages are initialised; the main goroutine is its only task at first.
var initW *World

func init() {
	w := NewWorld(1, Tape{})
	w.MaxSteps, w.MaxStops = 1<<60, 1<<60
	t := &Task{Name: "init", Node: w.local, wake: make(chan struct{}), st: runnable}
	w.tasks = append(w.tasks, t)
	w.cur = t
	W, initW = w, w
	w.newGrant()
}

// EndInit ends the initialisation of packages.
func EndInit() {
	if W != nil && W == initW {
		W = nil
		budget = 1 << 30
	}
}

// Key is the current world, or nil during the initialisation of packages.
func Key() *World {
	if W == initW {
		return nil
	}
	return W
}

// Spawn starts a task.
func (w *World) Spawn(n *Node, name string, f func()) *Task {
	t := &Task{ID: len(w.tasks), Name: fmt.Sprintf("%s#%d", name, len(w.tasks)), Node: n, wake: make(chan struct{})}
	w.tasks = append(w.tasks, t)
	if w.cur != nil && w.cur.dying {
		t.st = done
		return t
	}
	t.st = runnable
	w.run = append(w.run, t)
	raceRelease(&t.sync) // the go statement happens before the task
	go w.body(t, f)
	return t
}

func (w *World) body(t *Task, f func()) {
	raceTaskStart()
	raceAcquire(&t.sync)
	<-t.wake
	defer func() {
		if r := recover(); r != nil {
			if !t.dying {
				t.Err = fmt.Sprint(r)
				cls, st := panicSite(debug.Stack())
				if w.viol == nil {
					w.viol = &Violation{"panic:" + cls, fmt.Sprintf("panic in task %s: %v\n%s", t.Name, r, st)}
				}
				w.over = true
			}
		}
		t.st = done
		raceRelease(&t.sync)
		raceRelease(&w.sync)
		if t.dying {
			w.killack <- struct{}{}
			return
		}
		w.WakeAll(&t.joinq)
		w.next(t, true)
	}()
	if t.dying {
		runtime.Goexit()
	}
	f()
}

// panicSite extracts the innermost frames of the code under test.
func panicSite(st []byte) (string, string) {
	lines := strings.Split(string(st), "\n")
	cls := ""
	var keep []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "github.com/rveen/ogdl") {
			fn := l
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			if cls == "" {
				cls = fn[strings.LastIndex(fn, "/")+1:]
			}
			if len(keep) < 12 {
				f := strings.TrimSpace(lines[i+1])
				if k := strings.Index(f, " +0x"); k > 0 {
					f = f[:k]
				}
				if k := strings.LastIndex(f, "/ogdl/"); k > 0 {
					f = f[k+6:]
				}
				keep = append(keep, "  "+fn+" "+f)
			}
		}
	}
	if cls == "" {
		cls = "harness"
		keep = append(keep, string(st))
	}
	return cls, strings.Join(keep, "\n")
}

// next picks the next task to run. The caller is parked (or exits).
func (w *World) next(t *Task, exiting bool) {
	for {
		if w.over {
			if exiting {
				w.ctl <- struct{}{}
				return
			}
			w.toController()
		}
		if len(w.run) > 0 {
			break
		}
		// advance the clock
		if w.ev.Len() == 0 {
			if w.viol == nil {
				w.viol = &Violation{"stuck", "nothing can run and no event is pending: " + w.dump() + w.DeadMsg}
			}
			w.over = true
			continue
		}
		e := heap.Pop(&w.ev).(*event)
		if e.dead {
			continue
		}
		if e.at > w.now {
			w.now = e.at
		}
		e.dead = true
		e.fn()
	}
	i := 0
	if len(w.run) > 1 && w.MeanGap > 0 {
		i = w.Uniform("pick", len(w.run))
	}
	n := w.run[i]
	w.run = without(w.run, i)
	if n != t {
		w.Switches++
		w.mix(uint64(n.ID) + 77)
	}
	w.cur = n
	w.newGrant()
	if n == t && !exiting {
		return
	}
	n.wake <- struct{}{}
	if exiting {
		return
	}
	<-t.wake
	if t.dying {
		runtime.Goexit()
	}
}

func (w *World) newGrant() {
	g := 0
	if w.MeanGap > 0 {
		g = w.Choose("gap", chunk-1, func(r *Rand) int {
			// geometric-like: mostly around the mean, sometimes tiny, sometimes none
			switch r.Intn(8) {
			case 0:
				return 0
			case 1:
				return 1 + r.Intn(4)
			}
			return 1 + r.Intn(2*w.MeanGap)
		})
	}
	w.rot = g == 0
	if g == 0 {
		g = chunk
	}
	w.grant = int32(g)
	budget = w.grant
}

// TooLong is the panic value of a task that exceeds its own limit.
const TooLong = "simulator: statement limit"

// Limit makes the current task panic with TooLong when it executes more than n statements in f.
func (w *World) Limit(n int64, f func()) {
	t := w.cur
	t.soft = n
	defer func() { t.soft = 0 }()
	f()
}

// slow is called when the statement budget of the task is used up.
func slow() {
	w := W
	if w == nil || w.cur == nil {
		budget = 1 << 30
		return
	}
	t := w.cur
	w.steps += int64(w.grant)
	if w.steps > w.MaxSteps && !t.dying {
		if w.viol == nil {
			cls, st := panicSite(debug.Stack())
			w.viol = &Violation{"hang:" + cls, fmt.Sprintf("task %s ran for %d statements without finishing\n%s", t.Name, w.steps, st)}
		}
		w.over = true
		if w.steps > 3*w.MaxSteps {
			panic("simulator: task does not end")
		}
		w.toController()
		return
	}
	if t.soft > 0 && !t.dying {
		if t.soft -= int64(w.grant); t.soft <= 0 {
			t.soft = 0
			w.newGrant()
			panic(TooLong)
		}
	}
	if t.dying || t.atom > 0 {
		w.grant = chunk
		budget = chunk
		return
	}
	w.now += 1000
	// stall: the thread is not scheduled for a while (slow node, GC pause, clock jump)
	if n := t.Node; n != nil && n.StallP > 0 && !w.rot {
		if v := w.Choose("stall", 1000, func(r *Rand) int {
			if r.P(n.StallP) {
				return 1 + r.Intn(1000)
			}
			return 0
		}); v > 0 && n.StallMax > 0 {
			w.Count("fault.stall")
			w.Note("stall %d", v)
			w.Sleep(n.StallMax * int64(v) / 1000)
			return
		}
	}
	if len(w.run) == 0 {
		// Due events (arrivals, timers) must also be seen by a spinning task.
		w.due()
		if len(w.run) == 0 {
			w.newGrant()
			return
		}
	}
	w.due()
	w.run = append(w.run, t)
	w.next(t, false)
}

func (w *World) due() {
	for w.ev.Len() > 0 && w.ev[0].at <= w.now {
		e := heap.Pop(&w.ev).(*event)
		if !e.dead {
			e.dead = true
			e.fn()
		}
	}
}

// account books the statements used so far before blocking.
func (w *World) account() {
	if w.stops++; w.stops > w.MaxStops && w.cur != nil && !w.cur.dying && !w.over {
		if w.viol == nil {
			cls, st := panicSite(debug.Stack())
			w.viol = &Violation{"spin:" + cls, fmt.Sprintf("the tasks went %d times through the scheduler or an I/O boundary without finishing; the current one is %s\n%s", w.stops, w.cur.Name, st)}
		}
		w.over = true
		w.toController()
	}
	if budget > 0 {
		w.steps += int64(w.grant - budget)
	} else {
		w.steps += int64(w.grant)
	}
	w.grant = 0
	budget = 0
}

// Pause gives other tasks a chance at an I/O boundary.
func (w *World) Pause() {
	t := w.cur
	if t == nil || t.dying || t.atom > 0 {
		return
	}
	if w.SlowP > 0 {
		// the device or the peer takes its time
		if v := w.Choose("slow", 1000, func(r *Rand) int {
			if r.P(w.SlowP) {
				return 1 + r.Intn(1000)
			}
			return 0
		}); v > 0 && w.SlowMax > 0 {
			w.Count("fault.slow_io")
			w.Note("slow %d", v)
			w.Sleep(w.SlowMax * int64(v) / 1000)
			return
		}
	}
	w.account()
	w.due()
	if len(w.run) == 0 {
		w.newGrant()
		return
	}
	if w.MeanGap > 0 {
		if w.Choose("io", 1, func(r *Rand) int {
			if r.Intn(3) == 0 {
				return 1
			}
			return 0
		}) == 0 {
			w.newGrant()
			return
		}
	}
	w.run = append(w.run, t)
	w.next(t, false)
}

// Yield lets every runnable task go first.
func (w *World) Yield() {
	t := w.cur
	if t == nil || t.dying {
		return
	}
	w.account()
	w.due()
	w.run = append(w.run, t)
	w.next(t, false)
}

// At schedules fn (which must not block).
func (w *World) At(at int64, fn func()) *event {
	if at < w.now {
		at = w.now
	}
	w.seq++
	e := &event{at: at, seq: w.seq, fn: fn}
	heap.Push(&w.ev, e)
	return e
}

// Cancel removes an event; it tells if it was still pending.
func (w *World) Cancel(e *event) bool {
	if e == nil || e.dead {
		return false
	}
	e.dead = true
	return true
}

// Event is a handle for Cancel.
type Event = *event

// Wait blocks the current task on q until woken or until the deadline (0 = none).
// It reports whether the deadline passed.
func (w *World) Wait(q *WaitQ, deadline int64) bool {
	t := w.cur
	if t.dying {
		runtime.Goexit()
	}
	if t.atom > 0 {
		panic("simulator: blocking call inside Atomic")
	}
	w.account()
	t.st = blocked
	t.q = q
	t.timed = false
	q.ts = append(q.ts, t)
	if deadline > 0 {
		t.dl = w.At(deadline, func() {
			t.timed = true
			q.remove(t)
			w.ready(t)
		})
	}
	w.next(t, false)
	return t.timed
}

func (q *WaitQ) remove(t *Task) {
	for i, x := range q.ts {
		if x == t {
			q.ts = without(q.ts, i)
			return
		}
	}
}

// without removes an element; no copy of pointers by the runtime, which the race
// detector would see.
func without(ts []*Task, i int) []*Task {
	for ; i+1 < len(ts); i++ {
		ts[i] = ts[i+1]
	}
	return ts[:len(ts)-1]
}

func (w *World) ready(t *Task) {
	if t.st != blocked {
		return
	}
	if t.dl != nil {
		t.dl.dead = true
		t.dl = nil
	}
	t.q = nil
	t.st = runnable
	w.run = append(w.run, t)
}

// WakeAll makes all waiting tasks runnable.
func (w *World) WakeAll(q *WaitQ) {
	ts := q.ts
	q.ts = nil
	for _, t := range ts {
		w.ready(t)
	}
}

// WakeOne wakes the first waiting task.
func (w *World) WakeOne(q *WaitQ) {
	if len(q.ts) > 0 {
		t := q.ts[0]
		q.ts = q.ts[1:]
		w.ready(t)
	}
}

// Waiting tells if anyone waits.
func (q *WaitQ) Waiting() bool { return len(q.ts) > 0 }

// Sleep blocks for d nanoseconds.
func (w *World) Sleep(d int64) {
	if w.cur.dying {
		return
	}
	if d <= 0 {
		w.Yield()
		return
	}
	var q WaitQ
	w.Wait(&q, w.now+d)
}

// Join waits for a task to end; false if the deadline passed.
func (w *World) Join(t *Task, deadline int64) bool {
	for t.st != done {
		if w.Wait(&t.joinq, deadline) {
			return false
		}
	}
	raceAcquire(&t.sync)
	return true
}

// Done tells if the task ended.
func (t *Task) Done() bool { return t.st == done }

// Kill ends a task at the point where it is. It must not be the current one.
func (w *World) Kill(t *Task) {
	if t.st == done || t == w.cur {
		return
	}
	if t.st == runnable {
		for i, x := range w.run {
			if x == t {
				w.run = without(w.run, i)
				break
			}
		}
	}
	if t.q != nil {
		t.q.remove(t)
		t.q = nil
	}
	if t.dl != nil {
		t.dl.dead = true
		t.dl = nil
	}
	prev, pb, pg := w.cur, budget, w.grant
	t.dying = true
	w.cur = t
	budget = chunk
	w.grant = chunk
	t.wake <- struct{}{}
	<-w.killack
	w.cur, budget, w.grant = prev, pb, pg
	w.WakeAll(&t.joinq)
}

// Crash kills all tasks of a node (not the current one).
func (w *World) Crash(n *Node) {
	n.Gen++
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.Node == n {
			w.Kill(t)
		}
	}
}

// Atomic runs f without preemption.
func Atomic(f func()) {
	w := W
	if w == nil || w.cur == nil {
		f()
		return
	}
	t := w.cur
	t.atom++
	defer func() { t.atom-- }()
	f()
}

func (w *World) dump() string {
	var b strings.Builder
	for _, t := range w.tasks {
		if t.st == blocked {
			fmt.Fprintf(&b, "[%s blocked]", t.Name)
		}
	}
	return b.String()
}

// Run executes the world: main is the first task; when it returns, the run ends.
func (w *World) Run(main func()) *Violation {
	EndInit()
	W = w
	defer func() { W = nil; budget = 1 << 30 }()
	raceAcquire(&globalSync)
	t := w.Spawn(w.local, "main", func() {
		main()
		w.over = true
	})
	w.run = w.run[:0]
	w.cur = nil
	for _, x := range initTasks {
		if x.t.st != done {
			w.Spawn(w.local, "init", x.f)
		}
	}
	w.cur = t
	w.newGrant()
	t.wake <- struct{}{}
	<-w.ctl
	w.over = true
	w.account()
	// kill what is left
	for i := 0; i < len(w.tasks); i++ {
		x := w.tasks[i]
		if x.st != done {
			w.cur = nil
			w.Kill(x)
		}
	}
	w.cur = nil
	raceAcquire(&w.sync)
	raceRelease(&globalSync)
	return w.viol
}

var globalSync byte

// PrintHook receives the output of the println and print builtins.
var PrintHook func(s string)

func Println(a ...interface{}) {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprint(x)
	}
	Print(s + "\n")
}

func Print(a ...interface{}) {
	s := ""
	for _, x := range a {
		s += fmt.Sprint(x)
	}
	if PrintHook != nil {
		PrintHook(s)
	}
}
