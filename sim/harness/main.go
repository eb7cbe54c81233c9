package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/text/unicode/norm"

	"verif.local/sim/rt"
)

var (
	fProp  = flag.String("prop", "", "property")
	fTier  = flag.String("tier", "quick", "")
	fSeed  = flag.Uint64("seed", 1, "")
	fVerif = flag.String("verif", "", "verif directory")
	fK     = flag.Int("k", 0, "worker index")
	fN     = flag.Int("n", 1, "workers")
	fRuns  = flag.Int("runs", 0, "runs")
	fCap   = flag.Int("cap", 0, "seconds")
	fFrom  = flag.Int("from", 0, "first run")
	fRun   = flag.Int("run", -1, "one run")
	fIn    = flag.String("in", "", "")
	fOut   = flag.String("out", "", "")
	fWarm  = flag.String("warm", "", "")
	fMin   = flag.Int("mincap", 45, "seconds for minimisation")
	fHash  = flag.Bool("hash", false, "print the hash of every run")
)

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"check error:"}, a...)...)
	os.Exit(2)
}

func main() {
	rt.EndInit()
	if len(os.Args) < 2 {
		die("no mode")
	}
	mode := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	loadKnown()
	if mode != "check" {
		norm.NFC.String(norm.NFD.String("e\u0301 \u00e9")) // builds a table on first use
		rt.InitProcess()
		debug.SetGCPercent(200)
		debug.SetMaxStack(256 << 20)
		if !rt.RaceBuild && mode != "minimize" {
			// an allocation that a worker cannot have ends it, and is looked into (fatalRun)
			syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: 3800 << 20, Max: 3800 << 20})
			debug.SetMemoryLimit(1 << 30)
		}
	}
	switch mode {
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id, props[id].Race)
		}
	case "check":
		check()
	case "worker":
		worker()
	case "one":
		one()
	case "fresh":
		fresh()
	case "inner":
		os.Exit(replay(*fIn, false))
	case "replay":
		os.Exit(replay(*fIn, true))
	case "minimize":
		minimize()
	default:
		die("mode?")
	}
}

func prop() *Prop {
	p := props[*fProp]
	if p == nil {
		die("unknown property", *fProp)
	}
	return p
}

// loadKnown reads the known findings: lines "known: property=<id> id=<finding id> ...".
func loadKnown() {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "id=") {
				knownListed[f[3:]] = true
			}
		}
	}
}

// ---- worker ----

// Report is what a worker tells the parent.
type Report struct {
	Runs       int
	LastRun    int
	Steps      int64
	Sim        int64
	Switches   int64
	Ops        int64
	Stats      map[string]int64
	Probe      map[string]int64
	Known      map[string]string
	Nontrivial int
	Hashes     []uint64
	Traces     []uint64
	Samples    []string
	MaxAlloc   uint64
	MaxSteps   int64
	MaxStops   int64
	Draws      int64
	FaultRuns  int
}

func worker() {
	p := prop()
	start := time.Now()
	rep := Report{Stats: map[string]int64{}, Probe: map[string]int64{}, Known: map[string]string{}, LastRun: -1}
	seen := map[uint64]bool{}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	var mine []int
	for run := *fK; run < *fRuns; run += *fN {
		if run < *fFrom {
			continue
		}
		if *fCap > 0 && time.Since(start) > time.Duration(*fCap)*time.Second {
			break
		}
		fmt.Fprintf(out, "{\"start\":%d}\n", run)
		out.Flush()
		plan := fix(p, genPlan(p, *fSeed, run))
		if plan == nil {
			rep.Probe["plans that could not be made"]++
			if rep.Runs == 0 && rep.Probe["plans that could not be made"] > 200 {
				die("no plan can be made:", genFail)
			}
			continue
		}
		ws := runSeed(p.ID, *fSeed, run)
		r := execute(p, plan, ws, nil, false)
		if *fHash {
			fmt.Printf("H %d %016x %d\n", run, r.Hash, r.Steps)
		}
		rep.Runs++
		rep.LastRun = run
		rep.Steps += r.Steps
		rep.Sim += r.Sim
		rep.Switches += r.Sw
		rep.Ops += int64(r.Ops)
		rep.Draws += int64(r.Tape.Count())
		faults := false
		for k, v := range r.Stats {
			rep.Stats[k] += v
			if strings.HasPrefix(k, "fault.") && v > 0 {
				faults = true
			}
		}
		for k, v := range r.Probe {
			rep.Probe[k] += v
		}
		for k, v := range r.Known {
			rep.Known[k] = v
		}
		if faults {
			rep.FaultRuns++
		}
		if faults || r.Sw > 2 {
			h := rt.Hash(r.Hash, string(planJSON(plan)))
			if !seen[h] {
				seen[h] = true
				rep.Nontrivial++
				rep.Hashes = append(rep.Hashes, h)
				rep.Traces = append(rep.Traces, r.Hash)
			}
		}
		if r.Allocs > rep.MaxAlloc {
			rep.MaxAlloc = r.Allocs
		}
		if r.Steps > rep.MaxSteps {
			rep.MaxSteps = r.Steps
		}
		if r.Stops > rep.MaxStops {
			rep.MaxStops = r.Stops
		}
		if len(rep.Samples) < 2 && (faults || r.Sw > 2) {
			pj := string(planJSON(plan))
			if len(pj) > 1500 {
				pj = pj[:1500] + "..."
			}
			rep.Samples = append(rep.Samples, fmt.Sprintf("run %d (world seed %d, %d decisions, hash %016x): %s", run, ws, r.Tape.Count(), r.Hash, pj))
		}
		if r.Viol != nil {
			rp := Replay{Property: p.ID, Class: r.Viol.Class, Message: r.Viol.Msg, Seed: *fSeed, Run: run, World: ws, Warmup: mine, Plan: planJSON(plan), Tape: r.Tape, Steps: r.Steps}
			enc.Encode(map[string]interface{}{"viol": rp})
			break
		}
		mine = append(mine, run)
	}
	enc.Encode(map[string]interface{}{"report": rep})
	out.Flush()
}

func tail(a []int, n int) []int {
	if len(a) > n {
		return a[len(a)-n:]
	}
	return a
}

func one() {
	p := prop()
	plan := fix(p, genPlan(p, *fSeed, *fRun))
	if plan == nil {
		die("no plan:", genFail)
	}
	fmt.Printf("plan %s\n", planJSON(plan))
	r := execute(p, plan, runSeed(p.ID, *fSeed, *fRun), nil, true)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	fmt.Printf("hash %016x steps %d sim %.3fs switches %d alloc %d decisions %d\nstats %v\nprobe %v\nknown %v\n", r.Hash, r.Steps, float64(r.Sim)/1e9, r.Sw, r.Allocs, r.Tape.Count(), r.Stats, r.Probe, r.Known)
	if r.Viol != nil {
		fmt.Printf("VIOLATION %s\n%s\n", r.Viol.Class, r.Viol.Msg)
		os.Exit(1)
	}
}

// replay runs a replay file: 1 = the violation occurs, 0 = it does not, 3 = another one.
func replay(path string, show bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die(err)
	}
	p := props[rp.Property]
	if p == nil {
		die("unknown property", rp.Property)
	}
	if rp.Class == "fatal" && show {
		kind, text := inner(os.TempDir(), path)
		fmt.Println(head(text, 6000))
		if kind == "" || !strings.Contains(rp.Message, kind) {
			fmt.Println("replay: no violation")
			return 0
		}
		fmt.Printf("replay: the process dies: %s\nVIOLATION property=%s replay=%s\n", kind, rp.Property, path)
		return 1
	}
	warm(p, rp)
	plan := p.New()
	if err := json.Unmarshal(rp.Plan, plan); err != nil {
		die(err)
	}
	tape := rp.Tape
	if tape == nil && rp.Class != "fatal" {
		tape = rt.Tape{}
	}
	r := execute(p, plan, rp.World, tape, true)
	if show {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if r.Viol == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("replay: class %s\n%s\n", r.Viol.Class, r.Viol.Msg)
	if r.Viol.Class != rp.Class {
		return 3
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

func warm(p *Prop, rp Replay) {
	for _, k := range rp.Warmup {
		pl := fix(p, genPlan(p, rp.Seed, k))
		if pl == nil {
			continue
		}
		execute(p, pl, runSeed(p.ID, rp.Seed, k), nil, false)
	}
}

func minimize() {
	b, err := os.ReadFile(*fIn)
	if err != nil {
		die(err)
	}
	var rp Replay
	json.Unmarshal(b, &rp)
	p := props[rp.Property]
	plan := p.New()
	json.Unmarshal(rp.Plan, plan)
	m := &minimiser{p: p, class: rp.Class, wseed: rp.World, until: time.Now().Add(time.Duration(*fCap) * time.Second)}
	warm(p, rp)
	if _, ok := m.try(plan, rp.Tape); !ok {
		fmt.Println("not reproducible")
		os.Exit(4)
	}
	save := func(plan Plan, tape rt.Tape, final bool) {
		r := execute(p, plan, rp.World, tape, true)
		if r.Viol == nil || r.Viol.Class != rp.Class {
			return
		}
		rp.Plan, rp.Tape, rp.Message, rp.Steps, rp.Minimal = planJSON(plan), tape, r.Viol.Msg, r.Steps, true
		rp.Trace = r.Trace
		if len(rp.Trace) > 300 {
			rp.Trace = append(append([]string{}, rp.Trace[:100]...), append([]string{"..."}, rp.Trace[len(rp.Trace)-200:]...)...)
		}
		o, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(*fOut, o, 0644)
	}
	plan, rp.Tape = m.run(plan, rp.Tape)
	save(plan, rp.Tape, true)
}

// ---- parent ----

type wmsg struct {
	Start  *int
	Viol   *Replay
	Report *Report
}

func check() {
	p := prop()
	t0 := time.Now()
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	runs, capS := p.Quick, 150
	if *fTier == "thorough" {
		runs, capS = p.Thor, 600
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fCap > 0 {
		capS = *fCap
	}
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(tmp)
	var mu sync.Mutex
	var viols []*Replay
	reports := make([]*Report, nw)
	last := make([]int, nw)
	exits := make([]string, nw)
	var cmds []*exec.Cmd
	stopped := false
	var wg sync.WaitGroup
	stop := func() {
		mu.Lock()
		defer mu.Unlock()
		stopped = true
		for _, c := range cmds {
			c.Process.Kill()
		}
	}
	// start starts worker k at a run
	start := func(k, from int) (*exec.Cmd, io.Reader) {
		c := self(tmp, k, "worker", "-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-verif", *fVerif, "-k", strconv.Itoa(k), "-n", strconv.Itoa(nw), "-from", strconv.Itoa(from),
			"-runs", strconv.Itoa(runs), "-cap", strconv.Itoa(max(1, capS-int(time.Since(t0).Seconds()))))
		so, _ := c.StdoutPipe()
		ef, _ := os.Create(filepath.Join(tmp, fmt.Sprintf("err%d", k)))
		c.Stderr = ef
		mu.Lock()
		defer mu.Unlock()
		if stopped {
			return nil, nil
		}
		if err := c.Start(); err != nil {
			die(err)
		}
		cmds = append(cmds, c)
		return c, so
	}
	for k := 0; k < nw; k++ {
		k := k
		last[k] = -1
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := 0
			for try := 0; ; try++ {
				c, so := start(k, from)
				if c == nil {
					return
				}
				rd := bufio.NewReaderSize(so, 1<<20)
				for {
					l, err := rd.ReadBytes('\n')
					if len(l) > 0 {
						var m wmsg
						if json.Unmarshal(l, &m) == nil {
							mu.Lock()
							if m.Start != nil {
								last[k] = *m.Start
							}
							if m.Viol != nil {
								viols = append(viols, m.Viol)
							}
							if m.Report != nil {
								reports[k] = m.Report
							}
							mu.Unlock()
						}
					}
					if err != nil {
						break
					}
				}
				err := c.Wait()
				mu.Lock()
				if err != nil {
					exits[k] = err.Error()
				}
				if len(viols) > 0 && !stopped {
					stopped = true
					go func() { time.Sleep(1500 * time.Millisecond); stop() }()
				}
				again := reports[k] == nil && !stopped && try < 6 && last[k] >= 0
				mu.Unlock()
				if !again {
					return
				}
				// It died. Is it the code under test, which does so again, or was there no memory left?
				eb, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("err%d", k)))
				if v := fatalRun(p, tmp, last[k], string(eb)); v != nil {
					mu.Lock()
					viols = append(viols, v)
					mu.Unlock()
					go stop()
					return
				}
				if try > 0 && last[k] == from {
					return // the same run again
				}
				from = last[k]
			}
		}()
	}
	donec := make(chan bool)
	go func() { wg.Wait(); close(donec) }()
	select {
	case <-donec:
	case <-time.After(time.Duration(capS+120) * time.Second):
		stop()
		<-donec
		if len(viols) == 0 {
			writeEvidence(p, reports, t0, 0, nw)
			die("workers did not finish in time; last runs", last)
		}
	}
	// a worker that died without a report
	for k := 0; k < nw && len(viols) == 0; k++ {
		if reports[k] == nil {
			eb, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("err%d", k)))
			os.Stderr.Write(tailBytes(eb, 4000))
			die("worker", k, "ended:", exits[k], "at run", last[k])
		}
	}
	nv := 0
	if len(viols) > 0 {
		nv = 1
	}
	writeEvidence(p, reports, t0, nv, nw)
	known := map[string]string{}
	for _, r := range reports {
		if r != nil {
			for k, v := range r.Known {
				known[k] = v
			}
		}
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s id=%s %s\n", p.ID, k, oneLine(known[k]))
	}
	if len(viols) == 0 {
		tot := 0
		for _, r := range reports {
			tot += r.Runs
		}
		fmt.Printf("%s: held on %d runs (%.1fs)\n", p.ID, tot, time.Since(t0).Seconds())
		return
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Run < viols[j].Run })
	dir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	for i, v := range viols {
		if i >= 4 {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, v.Seed, v.Run))
		if confirm(p, v, tmp, path) {
			fmt.Printf("violation class: %s\n%s\n", v.Class, head(v.Message, 3000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			os.RemoveAll(tmp)
			os.Exit(1)
		}
	}
	v := viols[0]
	fmt.Fprintf(os.Stderr, "unconfirmed: run %d class %s: %s\n", v.Run, v.Class, head(v.Message, 2000))
	die("a violation was seen but did not replay")
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", " / ") }

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tailBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func self(tmp string, k int, args ...string) *exec.Cmd {
	ex, _ := os.Executable()
	c := exec.Command(ex, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", fmt.Sprintf("VSIM_RACELOG=%s", filepath.Join(tmp, fmt.Sprintf("race%d", k))),
		fmt.Sprintf("GORACE=log_path=%s halt_on_error=0 exitcode=0 history_size=4 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0", filepath.Join(tmp, fmt.Sprintf("race%d", k))))
	return c
}

func writeReplay(path string, v *Replay) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0644)
}

var started = time.Now()

// confirm minimises the violation and checks that the result replays in a fresh process.
func confirm(p *Prop, v *Replay, tmp, path string) bool {
	if v.Class == "fatal" {
		minFatal(p, v, tmp, time.Now().Add(time.Duration(*fMin)*time.Second))
		writeReplay(path, v)
		return true
	}
	full := v.Warmup
	for _, n := range []int{0, 1, 8, 400, len(full)} {
		if n > len(full) {
			continue
		}
		if n > 400 && time.Since(started) > 400*time.Second {
			// the whole history of a worker takes its time
			break
		}
		v.Warmup = tail(full, n)
		raw := filepath.Join(tmp, "raw.json")
		writeReplay(raw, v)
		if !replays(tmp, raw) {
			if n >= len(full) {
				break
			}
			continue
		}
		writeReplay(path, v)
		mn := filepath.Join(tmp, "min.json")
		os.Remove(mn)
		c := self(tmp, 98, "minimize", "-verif", *fVerif, "-in", raw, "-out", mn, "-cap", strconv.Itoa(*fMin))
		done := make(chan error, 1)
		c.Stdout, c.Stderr = io.Discard, io.Discard
		if c.Start() == nil {
			go func() { done <- c.Wait() }()
			select {
			case <-done:
			case <-time.After(90 * time.Second):
				c.Process.Kill()
			}
		}
		if b, err := os.ReadFile(mn); err == nil && replays(tmp, mn) {
			os.WriteFile(path, b, 0644)
			var m Replay
			if json.Unmarshal(b, &m) == nil {
				v.Message = m.Message
			}
		}
		return true
	}
	return false
}

func replays(tmp, path string) bool {
	for i := 0; i < 2; i++ {
		c := self(tmp, 99, "replay", "-verif", *fVerif, "-in", path)
		done := make(chan error, 1)
		c.Stdout, c.Stderr = io.Discard, io.Discard
		if c.Start() != nil {
			return false
		}
		go func() { done <- c.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(170 * time.Second):
			c.Process.Kill()
			return false
		}
		if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() != 1 {
			return false
		}
	}
	return true
}

// fatalRun decides whether the death of a worker is the fault of the code under test:
// the run is repeated alone and must die in the same way twice.
func fatalRun(p *Prop, tmp string, run int, stderr string) *Replay {
	if run < 0 {
		return nil
	}
	kind := fatalKind(stderr)
	if kind == "" {
		return nil
	}
	for i := 0; i < 2; i++ {
		c := self(tmp, 97, "one", "-prop", p.ID, "-seed", fmt.Sprint(*fSeed), "-verif", *fVerif, "-run", strconv.Itoa(run))
		var sb strings.Builder
		c.Stdout = io.Discard
		c.Stderr = &sb
		if c.Run() == nil || fatalKind(sb.String()) != kind {
			return nil
		}
	}
	return &Replay{Property: p.ID, Class: "fatal", Message: "the process dies: " + kind + "\n" + head(stderr, 3000), Seed: *fSeed, Run: run, World: runSeed(p.ID, *fSeed, run), Plan: planJSON(genPlan(p, *fSeed, run))}
}

// inner runs a replay file in a process of its own and tells how that dies.
func inner(tmp, path string) (kind, text string) {
	c := self(tmp, 96, "inner", "-verif", *fVerif, "-in", path)
	var sb strings.Builder
	c.Stdout, c.Stderr = io.Discard, &sb
	done := make(chan error, 1)
	if c.Start() != nil {
		return "", ""
	}
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Process.Kill()
		<-done
		return "", ""
	}
	return fatalKind(sb.String()), sb.String()
}

// minFatal makes the plan smaller while the process dies in the same way. The decisions
// are the seed's in every try: the process does not live to tell them.
func minFatal(p *Prop, v *Replay, tmp string, until time.Time) {
	f := filepath.Join(tmp, "fatal.json")
	kind := ""
	m := &minimiser{p: p, class: "fatal", until: until}
	m.test = func(plan Plan) bool {
		t := *v
		t.Plan = planJSON(plan)
		writeReplay(f, &t)
		k, _ := inner(tmp, f)
		return k != "" && k == kind
	}
	plan := p.New()
	if json.Unmarshal(v.Plan, plan) != nil {
		return
	}
	writeReplay(f, v)
	if kind, _ = inner(tmp, f); kind == "" {
		return
	}
	plan, _ = m.shrinkPlan(plan, nil)
	if m.test(plan) {
		v.Plan, v.Minimal = planJSON(plan), true
	}
}

func fatalKind(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") && strings.Contains(s, "github.com/rveen/ogdl") {
			if strings.Contains(l, "stack overflow") || strings.Contains(l, "concurrent map") {
				return l
			}
			if strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
				return l
			}
		}
	}
	return ""
}

func writeEvidence(p *Prop, reports []*Report, t0 time.Time, nviol, nw int) {
	tot := Report{Stats: map[string]int64{}, Probe: map[string]int64{}, Known: map[string]string{}}
	seen := map[uint64]bool{}
	traces := map[uint64]bool{}
	for _, r := range reports {
		if r == nil {
			continue
		}
		for _, h := range r.Traces {
			traces[h] = true
		}
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.Sim += r.Sim
		tot.Switches += r.Switches
		tot.Ops += r.Ops
		tot.Draws += r.Draws
		tot.FaultRuns += r.FaultRuns
		for k, v := range r.Stats {
			tot.Stats[k] += v
		}
		for k, v := range r.Probe {
			tot.Probe[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] = v
		}
		for _, h := range r.Hashes {
			seen[h] = true
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		if r.MaxAlloc > tot.MaxAlloc {
			tot.MaxAlloc = r.MaxAlloc
		}
		if r.MaxSteps > tot.MaxSteps {
			tot.MaxSteps = r.MaxSteps
		}
		if r.MaxStops > tot.MaxStops {
			tot.MaxStops = r.MaxStops
		}
	}
	wall := time.Since(t0).Seconds()
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range tot.Stats {
		if strings.HasPrefix(k, "fault.") {
			faults[k[6:]] = v
		} else {
			other[k] = v
		}
	}
	cov := map[string]interface{}{
		"evaluations":                 tot.Runs,
		"distinct_nontrivial":         len(seen),
		"rule":                        p.Rule + " A run counts as non-trivial when at least one fault, partial delivery or preemption really happened in it; runs are distinct when the hash over plan and executed schedule/fault/I-O event trace differs.",
		"samples":                     tot.Samples,
		"runs_per_hour_one_seed_each": int64(float64(tot.Runs) / wall * 3600),
		"simulated_seconds":           float64(tot.Sim) / 1e9,
		"faults_injected":             faults,
		"runs_with_faults":            tot.FaultRuns,
		"events":                      other,
		"probes":                      tot.Probe,
		"context_switches":            tot.Switches,
		"statements_executed":         tot.Steps,
		"longest_run_statements":      tot.MaxSteps,
		"longest_run_stops":           tot.MaxStops,
		"nondefault_decisions":        tot.Draws,
		"operations":                  tot.Ops,
		"distinct_interleavings": map[string]interface{}{
			"count": len(traces), "measure": "distinct 64-bit hashes over the executed trace alone (scheduling decisions, fault decisions and simulated I/O events with their simulated times), whatever the plan"},
		"real_components":  p.Real,
		"stub_components":  p.Stub,
		"worker_processes": nw,
	}
	if len(tot.Known) > 0 {
		cov["known_findings"] = tot.Known
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov,
		"assumptions": p.Note, "wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		die(err)
	}
}
