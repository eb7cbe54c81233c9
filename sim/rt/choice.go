// Package rt is the deterministic simulation runtime: scheduler, clock, choice
// streams, simulated channels. Exactly one world runs per process at a time,
// and exactly one task of it runs at any moment.
package rt

import (
	"math/bits"
	"sort"
	"strconv"
)

// Rand is a small splitmix64 generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n). n<=1 gives 0.
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.Uint64(), uint64(n))
	return int(hi)
}

func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.Float() < p }

// Hash mixes a string into a seed.
func Hash(seed uint64, s string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	r := Rand{h}
	return r.Uint64()
}

// stream is one labelled source of decisions.
type stream struct {
	label  string
	rng    Rand
	n      int
	rec    []decision // recorded non-zero decisions
	replay []decision // by index, when replaying
	next   int
}

// The runtime uses no maps in what tasks execute: the race detector sees map
// operations even of code that is not instrumented.
type decision struct{ i, v int }

// Tape is the sparse record of all decisions that were not the default.
type Tape map[string]map[string]int

func (w *World) stream(label string) *stream {
	for _, s := range w.streams {
		if s.label == label {
			return s
		}
	}
	s := &stream{label: label, rng: Rand{Hash(w.Seed, label)}}
	for _, r := range w.replay {
		if r.label == label {
			s.replay = r.replay
		}
	}
	w.streams = append(w.streams, s)
	return s
}

// load prepares a tape for replay.
func load(t Tape) []*stream {
	var ss []*stream
	for l, m := range t {
		s := &stream{label: l}
		for k, v := range m {
			i, _ := strconv.Atoi(k)
			s.replay = append(s.replay, decision{i, v})
		}
		sort.Slice(s.replay, func(i, j int) bool { return s.replay[i].i < s.replay[j].i })
		ss = append(ss, s)
	}
	return ss
}

// Choose draws a decision from the stream. In a seeded run, f computes it from
// the generator; in a replay it comes from the tape, or is 0. max bounds it (inclusive).
func (w *World) Choose(label string, max int, f func(r *Rand) int) int {
	if max <= 0 {
		return 0
	}
	s := w.stream(label)
	i := s.n
	s.n++
	v := 0
	if w.replaying {
		for s.next < len(s.replay) && s.replay[s.next].i < i {
			s.next++
		}
		if s.next < len(s.replay) && s.replay[s.next].i == i {
			v = s.replay[s.next].v
		}
	} else {
		v = f(&s.rng)
	}
	if v < 0 {
		v = 0
	}
	if v > max {
		v = max
	}
	if v != 0 {
		s.rec = append(s.rec, decision{i, v})
		w.mix(uint64(i)<<32 ^ uint64(v) ^ Hash(1, label))
	}
	w.Draws++
	return v
}

// Chance draws a boolean that is true with probability p.
func (w *World) Chance(label string, p float64) bool {
	if p <= 0 {
		return false
	}
	return w.Choose(label, 1, func(r *Rand) int {
		if r.P(p) {
			return 1
		}
		return 0
	}) == 1
}

// Uniform draws from 0..n-1.
func (w *World) Uniform(label string, n int) int {
	return w.Choose(label, n-1, func(r *Rand) int { return r.Intn(n) })
}

// Tape returns the decisions taken so far that were not the default.
func (w *World) Tape() Tape {
	t := Tape{}
	for _, s := range w.streams {
		if len(s.rec) == 0 {
			continue
		}
		m := map[string]int{}
		for _, d := range s.rec {
			m[strconv.Itoa(d.i)] = d.v
		}
		t[s.label] = m
	}
	return t
}

// Count returns the number of entries.
func (t Tape) Count() int {
	n := 0
	for _, m := range t {
		n += len(m)
	}
	return n
}

// TapeEntry addresses one decision.
type TapeEntry struct {
	Label string
	Idx   int
	Val   int
}

// List gives the entries in a fixed order.
func (t Tape) List() []TapeEntry {
	var es []TapeEntry
	for l, m := range t {
		for k, v := range m {
			i, _ := strconv.Atoi(k)
			es = append(es, TapeEntry{l, i, v})
		}
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].Label != es[j].Label {
			return es[i].Label < es[j].Label
		}
		return es[i].Idx < es[j].Idx
	})
	return es
}

// FromList rebuilds a tape.
func FromList(es []TapeEntry) Tape {
	t := Tape{}
	for _, e := range es {
		if e.Val == 0 {
			continue
		}
		m := t[e.Label]
		if m == nil {
			m = map[string]int{}
			t[e.Label] = m
		}
		m[strconv.Itoa(e.Idx)] = e.Val
	}
	return t
}

// Counter counts events by name.
type Counter struct {
	ks []string
	ns []int64
}

func (c *Counter) at(k string) *int64 {
	for i := range c.ks {
		if c.ks[i] == k {
			return &c.ns[i]
		}
	}
	c.ks = append(c.ks, k)
	c.ns = append(c.ns, 0)
	return &c.ns[len(c.ns)-1]
}

func (c *Counter) Add(k string, n int64) { *c.at(k) += n }
func (c *Counter) Get(k string) int64    { return *c.at(k) }

// Map returns the counts that are not 0.
func (c *Counter) Map() map[string]int64 {
	m := map[string]int64{}
	for i, k := range c.ks {
		if c.ns[i] != 0 {
			m[k] = c.ns[i]
		}
	}
	return m
}
