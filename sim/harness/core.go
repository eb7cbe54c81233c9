// Package main is the harness: it generates plans, runs them in simulated worlds,
// checks the oracles, minimises and replays what violates them, and writes evidence.
package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"time"

	"verif.local/sim/rt"
)

// Prop is one property's check.
type Prop struct {
	ID    string
	Race  bool // needs the race detector build
	Quick int  // number of runs
	Thor  int
	New   func() Plan
	Gen   func(r *rt.Rand, run int) Plan
	Rule  string
	Real  []string
	Stub  []string
	Note  []string // assumptions
}

// Plan is what a run does; everything else is drawn from the world's streams.
type Plan interface {
	Base() *Common
	Run(w *rt.World, e *Env)
}

// Common is part of every plan.
type Common struct {
	MeanGap int  `json:"gap"`
	Maps    bool `json:"maps,omitempty"`

	Slow    float64 `json:"slow,omitempty"`    // probability that an I/O operation, or a task, takes its time
	SlowMax int64   `json:"slowmax,omitempty"` // up to this many ms
}

// genSlow makes some runs slow: pieces of a stream that are hours apart, tasks that are not scheduled for long.
func (c *Common) genSlow(r *rt.Rand) {
	if r.Intn(6) == 0 {
		c.Slow = []float64{0.01, 0.1, 0.5}[r.Intn(3)]
		c.SlowMax = []int64{2, 100, 3000, 30000, 600000, 7200000}[r.Intn(6)]
	}
}

func (c *Common) Base() *Common { return c }

// Env is the context of one run.
type Env struct {
	W     *rt.World
	Known map[string]string // known findings met: id -> text
	Ops   int               // operations performed
	Probe map[string]int64
}

// Knownf records that a known finding was met in this run.
func (e *Env) Knownf(id, format string, a ...interface{}) {
	if !knownListed[id] {
		e.W.Fail("known:"+id, format, a...)
		return
	}
	if e.Known[id] == "" {
		e.Known[id] = fmt.Sprintf(format, a...)
	}
}

// Hit counts a rare condition.
func (e *Env) Hit(k string) { e.Probe[k]++ }

var knownListed = map[string]bool{}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Result of one run.
type Result struct {
	Viol   *rt.Violation
	Hash   uint64
	Sched  uint64
	Stats  map[string]int64
	Probe  map[string]int64
	Known  map[string]string
	Steps  int64
	Stops  int64
	Sim    int64
	Sw     int64
	Ops    int
	Tape   rt.Tape
	Trace  []string
	Allocs uint64
}

func runSeed(prop string, seed uint64, run int) uint64 {
	return rt.Hash(rt.Hash(seed*0x9e3779b97f4a7c15+uint64(run), prop), "run")
}

func genPlan(p *Prop, seed uint64, run int) Plan {
	r := rt.NewRand(rt.Hash(runSeed(p.ID, seed, run), "plan"))
	// in a world of its own, where the code under test may use tasks and channels
	var pl Plan
	w := rt.NewWorld(1, rt.Tape{})
	if v := w.Run(func() {
		pl = p.Gen(r, run)
		if _, rpc := pl.(*rpcPlan); !rpc {
			pl.Base().genSlow(r) // rpc plans have delays of their own, which count
		}
	}); v != nil {
		genFail = fmt.Sprintf("run %d: %s: %s", run, v.Class, v.Msg)
		return nil
	}
	return pl
}

// genFail tells why a plan could not be made.
var genFail string

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// AllocBytes is the number of bytes ever allocated by the process.
func AllocBytes() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// execute runs a plan in a fresh world.
func execute(p *Prop, plan Plan, wseed uint64, tape rt.Tape, trace bool) *Result {
	w := rt.NewWorld(wseed, tape)
	b := plan.Base()
	w.MeanGap = b.MeanGap
	w.MapShuffle = b.Maps
	if b.Slow > 0 {
		w.SlowP, w.SlowMax = b.Slow, b.SlowMax*1e6
		w.Local().StallP, w.Local().StallMax = b.Slow, b.SlowMax*1e6
	}
	w.TraceOn = trace
	e := &Env{W: w, Known: map[string]string{}, Probe: map[string]int64{}}
	races := rt.RaceErrors()
	a0 := AllocBytes()
	v := w.Run(func() { plan.Run(w, e); checkHeld(w) })
	a1 := AllocBytes()
	if a1-a0 > 256<<20 {
		debug.FreeOSMemory()
	}
	if p.Race && rt.RaceErrors() > races {
		if rv := raceReport(); rv != nil && v == nil {
			v = rv
		}
	}
	return &Result{Viol: v, Hash: w.HashValue(), Stats: w.Stats.Map(), Probe: e.Probe, Known: e.Known, Steps: w.Steps(), Stops: w.Stops(), Sim: w.Now(),
		Sw: w.Switches, Ops: e.Ops, Tape: w.Tape(), Trace: w.Trace, Allocs: a1 - a0}
}

func planJSON(p Plan) []byte {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}

// fix gives a plan the form it has after a JSON round trip (what replay will use).
func fix(p *Prop, pl Plan) Plan {
	if pl == nil {
		return nil
	}
	n := p.New()
	if err := json.Unmarshal(planJSON(pl), n); err != nil {
		panic(err)
	}
	return n
}

// Replay is the replay file.
type Replay struct {
	Property string          `json:"property"`
	Class    string          `json:"class"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"verif_seed"`
	Run      int             `json:"run"`
	World    uint64          `json:"world_seed"`
	Warmup   []int           `json:"warmup_runs,omitempty"`
	Plan     json.RawMessage `json:"plan"`
	Tape     rt.Tape         `json:"decisions"`
	Minimal  bool            `json:"minimised"`
	Steps    int64           `json:"statements"`
	Trace    []string        `json:"trace,omitempty"`
}

// ---- minimisation ----

type minimiser struct {
	p     *Prop
	class string
	wseed uint64
	until time.Time
	runs  int
	test  func(Plan) bool // in place of execution here
}

func (m *minimiser) try(plan Plan, tape rt.Tape) (*Result, bool) {
	m.runs++
	if m.test != nil {
		return nil, m.test(plan)
	}
	r := execute(m.p, plan, m.wseed, tape, false)
	return r, r.Viol != nil && r.Viol.Class == m.class
}

func (m *minimiser) late() bool { return time.Now().After(m.until) }

func (m *minimiser) decode(v interface{}) Plan {
	b, _ := json.Marshal(v)
	n := m.p.New()
	if json.Unmarshal(b, n) != nil {
		return nil
	}
	return n
}

// run shrinks plan and tape while the violation class persists.
func (m *minimiser) run(plan Plan, tape rt.Tape) (Plan, rt.Tape) {
	for round := 0; round < 4 && !m.late(); round++ {
		n0 := len(planJSON(plan)) + tape.Count()*8
		tape = m.shrinkTape(plan, tape)
		plan, tape = m.shrinkPlan(plan, tape)
		if len(planJSON(plan))+tape.Count()*8 == n0 {
			break
		}
	}
	return plan, m.shrinkTape(plan, tape)
}

func (m *minimiser) shrinkTape(plan Plan, tape rt.Tape) rt.Tape {
	es := tape.List()
	if r, ok := m.try(plan, rt.Tape{}); ok {
		return r.Tape
	}
	// whole labels first
	labels := map[string]bool{}
	for _, e := range es {
		labels[e.Label] = true
	}
	var ls []string
	for l := range labels {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		var c []rt.TapeEntry
		for _, e := range es {
			if e.Label != l {
				c = append(c, e)
			}
		}
		if _, ok := m.try(plan, rt.FromList(c)); ok {
			es = c
		}
		if m.late() {
			return rt.FromList(es)
		}
	}
	for size := (len(es) + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i < len(es) && !m.late(); {
			j := min(i+size, len(es))
			c := append(append([]rt.TapeEntry(nil), es[:i]...), es[j:]...)
			if _, ok := m.try(plan, rt.FromList(c)); ok {
				es = c
			} else {
				i = j
			}
		}
		if m.late() {
			break
		}
	}
	return rt.FromList(es)
}

func (m *minimiser) shrinkPlan(plan Plan, tape rt.Tape) (Plan, rt.Tape) {
	var v interface{}
	json.Unmarshal(planJSON(plan), &v)
	accept := func() bool {
		if m.late() {
			return false
		}
		pl := m.decode(v)
		if pl == nil {
			return false
		}
		_, ok := m.try(pl, tape)
		if ok {
			plan = pl
		}
		return ok
	}
	var visit func(get func() interface{}, set func(interface{}))
	visit = func(get func() interface{}, set func(interface{})) {
		if m.late() {
			return
		}
		switch x := get().(type) {
		case []interface{}:
			for size := len(x); size >= 1; size /= 2 {
				for i := 0; i < len(x); {
					j := min(i+size, len(x))
					c := append(append([]interface{}(nil), x[:i]...), x[j:]...)
					set(c)
					if accept() {
						x = c
					} else {
						set(x)
						i = j
					}
					if m.late() {
						set(x)
						return
					}
				}
			}
			set(x)
			for i := range x {
				i := i
				visit(func() interface{} { return x[i] }, func(n interface{}) { x[i] = n })
			}
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				visit(func() interface{} { return x[k] }, func(n interface{}) { x[k] = n })
			}
		case float64:
			old := x
			for _, c := range []float64{0, 1, float64(int64(old / 10)), float64(int64(old / 2)), old - 1} {
				if c >= old || c < 0 || (old < 1 && c != 0) {
					continue
				}
				set(c)
				if accept() {
					old = c
					break
				}
				set(old)
			}
		case string:
			for _, c := range []string{"", "a"} {
				if len(c) < len(x) {
					set(c)
					if accept() {
						x = c
						break
					}
					set(x)
				}
			}
			rs := []rune(x)
			for size := (len(rs) + 1) / 2; size >= 1; size /= 2 {
				for i := 0; i < len(rs) && !m.late(); {
					j := min(i+size, len(rs))
					c := append(append([]rune(nil), rs[:i]...), rs[j:]...)
					set(string(c))
					if accept() {
						rs = c
					} else {
						i = j
					}
				}
			}
			set(string(rs))
		case bool:
			if x {
				set(false)
				if !accept() {
					set(true)
				}
			}
		}
	}
	visit(func() interface{} { return v }, func(n interface{}) { v = n })
	return plan, tape
}

// Str is a byte string that survives JSON: byte b is written as rune b.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	r := make([]rune, 0, len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, rune(s[i]))
	}
	return json.Marshal(string(r))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	var sb strings.Builder
	for _, r := range t {
		sb.WriteByte(byte(r))
	}
	*s = Str(sb.String())
	return nil
}
