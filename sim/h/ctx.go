package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"vsim/simrt"
)

// Violation is a failed check of a run.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Index  int    `json:"index"` // position of the run in its chunk
	Plan   *Plan  `json:"plan"`
}

// Result is what a worker reports about its chunk.
type Result struct {
	Runs       int               `json:"runs"`
	Violation  *Violation        `json:"violation,omitempty"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	SyncOps    uint64            `json:"sync_ops"`
	SimNanos   int64             `json:"sim_nanos"`
	Hashes     []uint64          `json:"hashes"`
	Nontrivial []uint64          `json:"nontrivial"`
	Counts     map[string]uint64 `json:"counts"`
	Faults     map[string]uint64 `json:"faults"`
	Samples    []string          `json:"samples,omitempty"`
	Races      int               `json:"races"`
	WallNs     int64             `json:"wall_ns"`
}

// Ctx is the context of one run.
type Ctx struct {
	Plan    *Plan
	Scratch string
	W       *Worker
	Sim     simrt.Result
	ran     bool
	fail    *Violation
	nontriv bool
	mix     uint64
	Bufs    []AddrRange
	saved   *simrt.Sched // of the main part, once others follow
}

// AddrRange is a buffer of interest for race reports.
type AddrRange struct{ Lo, Hi uintptr }

// Worker runs a chunk of runs in one process.
type Worker struct {
	Scratch string
	Out     string
	Res     Result
	cur     *Ctx
	index   int
	start   time.Time
	raceLog string
	racePos int64
	raceN   int
}

// Fail records that the run violated the property.
func (c *Ctx) Fail(class, format string, a ...any) {
	if c.fail == nil {
		c.fail = &Violation{Class: class, Detail: fmt.Sprintf(format, a...)}
	}
}

// FailNow ends the run with a violation; for use where the run cannot go on.
func (c *Ctx) FailNow(class, format string, a ...any) {
	c.Fail(class, format, a...)
	c.W.finish(c)
}

func (c *Ctx) Failed() bool { return c.fail != nil }

// Count adds to a counter of the evidence.
func (c *Ctx) Count(k string, n int) { c.W.Res.Counts[k] += uint64(n) }

// FaultFired counts an injected fault that took effect.
func (c *Ctx) FaultFired(k string, n int) {
	if n > 0 {
		c.W.Res.Faults[k] += uint64(n)
		c.nontriv = true
	}
}

// Run executes the tasks under the plan's schedule.
func (c *Ctx) Run(fns []func()) {
	c.RunAt(fns, 1_600_000_000_000_000_000)
}

// Aside runs tasks that are not part of the drawn schedule, before or after
// the main part of a run.
func (c *Ctx) Aside(fns []func()) {
	if c.ran && c.saved == nil {
		s := simrt.Recorded()
		c.saved = &s
	}
	sim, p := c.Sim, c.Plan.Sched
	c.Plan.Sched = simrt.Sched{Seed: 1, Mean: 1000, SyncP: 10, Cap: 1_000_000_000}
	ran := c.ran
	c.Run(fns)
	c.ran, c.Plan.Sched = ran, p
	c.mix = Derive(c.mix, c.Sim.Hash)
	c.Sim = sim
}

func (c *Ctx) RunAt(fns []func(), clock int64) {
	p := c.Plan
	wrapped := make([]func(), len(fns))
	for i := range fns {
		f := fns[i]
		wrapped[i] = func() {
			debug.SetPanicOnFault(true)
			f()
		}
	}
	switch p.Prop {
	case "C15", "C16", "C18", "C26", "C28":
		// what a process leaves behind ends with it
	default:
		simrt.Carry, simrt.Drift = true, p.Prop != "C14" && p.Env%2 == 0
	}
	c.Sim = simrt.Run(p.Sched, p.Env, clock, wrapped, func(class, detail string) {
		c.Fail(class, "%s", detail)
		c.W.finish(c)
	})
	c.ran = true
	c.W.Res.Steps += c.Sim.Steps
	c.W.Res.Switches += c.Sim.Switches
	c.W.Res.SyncOps += c.Sim.SyncOps
	if d := c.Sim.SimNanos - clock; d > 0 {
		c.W.Res.SimNanos += d
	} else {
		c.W.Res.SimNanos -= d
	}
	if len(fns) > 1 && c.Sim.Switches >= uint64(len(fns)) {
		c.nontriv = true
	}
	if os.Getenv("VERIF_TRACE") != "" {
		s := simrt.Recorded()
		fmt.Fprintf(os.Stderr, "run %d steps %d switches %d sync %d vol %d forced %d hash %x\n", p.Run, c.Sim.Steps, c.Sim.Switches, c.Sim.SyncOps, len(s.Vol), len(s.Forced), c.Sim.Hash)
	}
}

// Mix adds an observation to the run's identity.
func (c *Ctx) Mix(x uint64) { c.mix = Derive(c.mix, x) }

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// GenPlan derives the plan of a run.
func GenPlan(prop string, seed, run uint64) *Plan {
	r := NewRng(Derive(seed, hashStr(prop), run))
	p := &Plan{Prop: prop, Run: run, P: map[string]int{}}
	Scenarios[prop].Gen(r, p)
	if p.Env == 0 {
		p.Env = r.U64()
	}
	return p
}

func NewWorker(scratch, out string) *Worker {
	w := &Worker{Scratch: scratch, Out: out, start: time.Now()}
	w.Res.Counts = map[string]uint64{}
	w.Res.Faults = map[string]uint64{}
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			w.raceLog = strings.TrimPrefix(f, "log_path=") + "." + fmt.Sprint(os.Getpid())
		}
	}
	return w
}

// Exec executes one plan; it does not return if the run violates the property.
func (w *Worker) Exec(p *Plan) {
	c := &Ctx{Plan: p, W: w, Scratch: filepath.Join(w.Scratch, "run")}
	w.cur = c
	simrt.Outside = func(class, detail string) { c.FailNow(class, "%s", detail) }
	sc := Scenarios[p.Prop]
	func() {
		defer func() {
			if r := recover(); r != nil {
				b := make([]byte, 16384)
				b = b[:runtime.Stack(b, false)]
				c.Fail("panic", "%v\n%s", r, b)
			}
		}()
		debug.SetPanicOnFault(true)
		sc.Exec(c, p)
	}()
	w.races(c, sc)
	if c.fail != nil {
		w.finish(c)
	}
	w.Res.Runs++
	id := Derive(c.Sim.Hash, p.Run, c.mix)
	w.Res.Hashes = append(w.Res.Hashes, id)
	if c.nontriv {
		w.Res.Nontrivial = append(w.Res.Nontrivial, id)
		if len(w.Res.Samples) < 2 && p.Run%7 == 3 {
			w.Res.Samples = append(w.Res.Samples, sample(c))
		}
	}
	w.index++
}

func sample(c *Ctx) string {
	p := c.Plan
	var ops []string
	for i, t := range p.Tasks {
		ks := map[string]int{}
		for _, o := range t {
			ks[o.K]++
		}
		var l []string
		for k, n := range ks {
			l = append(l, fmt.Sprintf("%s*%d", k, n))
		}
		sort.Strings(l)
		ops = append(ops, fmt.Sprintf("t%d[%s]", i, strings.Join(l, " ")))
	}
	q := ""
	if len(p.Texts) > 0 {
		q = string(p.Texts[0])
		if len(q) > 80 {
			q = q[:80] + "..."
		}
	}
	return fmt.Sprintf("run %d %s: %s steps=%d switches=%d query=%q", p.Run, p.Kind, strings.Join(ops, " "), c.Sim.Steps, c.Sim.Switches, q)
}

// races looks for new reports of the race detector.
func (w *Worker) races(c *Ctx, sc *Scenario) {
	n := raceErrors()
	if n == w.raceN || w.raceLog == "" {
		return
	}
	w.raceN = n
	b, err := os.ReadFile(w.raceLog)
	if err != nil || int64(len(b)) <= w.racePos {
		return
	}
	text := string(b[w.racePos:])
	w.racePos = int64(len(b))
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		w.Res.Races++
		if c.fail == nil && sc.Race != nil && sc.Race(c, rep) {
			c.Fail("race", "%s", rep)
		}
	}
}

// finish writes the result and ends the process.
func (w *Worker) finish(c *Ctx) {
	if c != nil && c.fail != nil {
		v := *c.fail
		v.Index = w.index
		pl := *c.Plan
		pl.Sched = simrt.Recorded()
		if c.saved != nil {
			pl.Sched = *c.saved
		}
		v.Plan = &pl
		if len(v.Detail) > 12000 {
			v.Detail = v.Detail[:12000] + "..."
		}
		w.Res.Violation = &v
	}
	atFinish()
	w.Res.WallNs = int64(time.Since(w.start))
	b, err := json.Marshal(&w.Res)
	if err == nil {
		err = os.WriteFile(w.Out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(4)
	}
	os.Exit(0)
}

func raceAny(c *Ctx, rep string) bool { return true }
