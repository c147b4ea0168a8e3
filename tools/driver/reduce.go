package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// A repro is a way to show a violation in a fresh process.
type repro struct {
	history []uint64
	plan    *planT
	class   string
	detail  string
}

type reducer struct {
	cfg      *config
	best     *repro
	deadline time.Time
	tries    int
}

func (d *reducer) late() bool { return time.Now().After(d.deadline) }

// attempt executes a plan in a fresh process; it returns the repro with the
// schedule that was recorded if the violation is of the wanted class.
func (d *reducer) attempt(history []uint64, p *planT, class string) *repro {
	o := d.cfg.exec(&jobT{Prop: d.cfg.prop, Seed: d.cfg.seed, History: history, Plan: p}, nil)
	if o.class != class || o.class == "error" {
		return nil
	}
	r := &repro{history: history, plan: p.clone(), class: o.class, detail: o.detail}
	if o.res != nil && o.res.Violation != nil {
		if o.res.Violation.Index != len(history) {
			return nil // failed earlier, in the history
		}
		r.plan = o.res.Violation.Plan
	}
	return r
}

// batch tries alternatives in parallel and returns the first (in order) that
// shows the violation.
func (d *reducer) batch(alts []*repro) *repro {
	res := make([]*repro, len(alts))
	sem := make(chan struct{}, d.cfg.workers)
	var wg sync.WaitGroup
	for i := range alts {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res[i] = d.attempt(alts[i].history, alts[i].plan, d.best.class)
		}()
	}
	wg.Wait()
	d.tries += len(alts)
	for _, r := range res {
		if r != nil {
			return r
		}
	}
	return nil
}

// with returns the candidate under its own schedule and under drawn ones.
func (d *reducer) with(history []uint64, p *planT, random int) []*repro {
	alts := []*repro{{history: history, plan: p}}
	for i := 0; i < random; i++ {
		q := p.clone()
		q.Sched = schedT{Seed: mix(d.cfg.seed, 991, uint64(d.tries), uint64(i)), Cap: p.Sched.Cap, Mean: []uint64{0, 3, 30, 300, 2000}[i%5], SyncP: []uint64{50, 20, 10, 30, 80}[i%5]}
		alts = append(alts, &repro{history: history, plan: q})
	}
	return alts
}

func (d *reducer) accept(r *repro) bool {
	if r == nil {
		return false
	}
	d.best = r
	return true
}

// try tests a smaller plan.
func (d *reducer) try(history []uint64, p *planT) bool {
	if d.late() {
		return false
	}
	return d.accept(d.batch(d.with(history, p, 11)))
}

// reduce reproduces a failure and makes it small.
func (cfg *config) reduce(f found) (*replayT, error) {
	limit := 100 * time.Second
	if cfg.tier == "thorough" {
		limit = 200 * time.Second
	}
	d := &reducer{cfg: cfg, deadline: time.Now().Add(limit)}
	class := f.out.class
	var prefix []uint64
	for r := f.chunkFrom; r < f.out.run; r++ {
		prefix = append(prefix, r)
	}
	plan := (*planT)(nil)
	if f.out.res != nil && f.out.res.Violation != nil {
		plan = f.out.res.Violation.Plan
	} else {
		// the process ended: the plan as generated, with its drawn schedule
		o := cfg.exec(&jobT{Prop: cfg.prop, Seed: cfg.seed, From: f.out.run, Count: 1, GenOnly: true}, nil)
		plan = &planT{}
		if err := json.Unmarshal([]byte(o.stdout), plan); err != nil {
			return nil, fmt.Errorf("cannot regenerate run %d: %v %s", f.out.run, err, o.detail)
		}
	}
	orig := fmt.Sprintf("run %d of seed %d: %d tasks, %d operations, %d switches; %d earlier runs in the process", f.out.run, cfg.seed, len(plan.Tasks), plan.ops(), len(plan.Sched.Vol), len(prefix))
	r := d.attempt(nil, plan, class)
	if r == nil && len(prefix) > 0 {
		r = d.attempt(prefix, plan, class)
	}
	if r == nil {
		// a race may be reported together with something else
		return nil, fmt.Errorf("run %d (%s) could not be reproduced:\n%s", f.out.run, class, f.out.detail)
	}
	d.best = r
	d.shrink()
	best := d.best
	// the file must fail the same way in fresh processes
	for i := 0; i < 2; i++ {
		x := d.attempt(best.history, best.plan, class)
		if x == nil {
			x = d.attempt(r.history, r.plan, class)
			if x == nil {
				return nil, fmt.Errorf("run %d (%s) does not replay:\n%s", f.out.run, class, f.out.detail)
			}
			best = r
		}
		best.detail = x.detail
	}
	return &replayT{Property: cfg.prop, Class: class, Detail: best.detail, Seed: cfg.seed, History: best.history, Plan: best.plan, Original: orig,
		Note: "plan.tasks are the simulated callers with their operations, plan.faults and the operations' arguments the injected faults, plan.sched.vol the task switches (step, next task), plan.sched.forced the choices where a task had to wait; history are earlier runs of the seed executed first in the same process"}, nil
}

func (d *reducer) shrink() {
	// history
	if len(d.best.history) > 0 {
		if !d.try(nil, d.best.plan) {
			d.shrinkHistory()
		}
	}
	if d.best.class == "hang" {
		return
	}
	for pass := 0; pass < 3 && !d.late(); pass++ {
		before := d.size()
		d.dropTasks()
		d.dropOps()
		d.dropFaults()
		if d.size() == before {
			break
		}
	}
	d.sparse()
	d.dropSwitches()
	d.dropForced()
}

func (d *reducer) size() int {
	return len(d.best.plan.Tasks)*1000 + d.best.plan.ops()*10 + len(d.best.plan.Faults)
}

func (d *reducer) shrinkHistory() {
	for n := (len(d.best.history) + 1) / 2; n >= 1 && !d.late(); {
		any := false
		for at := 0; at < len(d.best.history) && !d.late(); {
			end := at + n
			if end > len(d.best.history) {
				end = len(d.best.history)
			}
			h := append(append([]uint64(nil), d.best.history[:at]...), d.best.history[end:]...)
			if d.accept(d.batch([]*repro{{history: h, plan: d.best.plan}})) {
				any = true
			} else {
				at = end
			}
		}
		if n == 1 && !any {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
}

func (d *reducer) dropTasks() {
	for i := len(d.best.plan.Tasks) - 1; i >= 0 && len(d.best.plan.Tasks) > 1; i-- {
		if i >= len(d.best.plan.Tasks) {
			continue
		}
		p := d.best.plan.clone()
		p.Tasks = append(append([][]json.RawMessage{}, p.Tasks[:i]...), p.Tasks[i+1:]...)
		if d.late() {
			return
		}
		if !d.try(d.best.history, p) {
			// keep the task (its index may matter) without operations
			if len(d.best.plan.Tasks[i]) > 0 {
				p := d.best.plan.clone()
				p.Tasks[i] = []json.RawMessage{}
				d.try(d.best.history, p)
			}
		}
	}
}

func (d *reducer) dropOps() {
	for ti := 0; ti < len(d.best.plan.Tasks); ti++ {
		for n := (len(d.best.plan.Tasks[ti]) + 1) / 2; n >= 1; n /= 2 {
			for at := 0; at < len(d.best.plan.Tasks[ti]); {
				if d.late() {
					return
				}
				ops := d.best.plan.Tasks[ti]
				end := at + n
				if end > len(ops) {
					end = len(ops)
				}
				p := d.best.plan.clone()
				p.Tasks[ti] = append(append([]json.RawMessage{}, ops[:at]...), ops[end:]...)
				if !d.try(d.best.history, p) {
					at = end
				}
			}
		}
	}
}

func (d *reducer) dropFaults() {
	for i := len(d.best.plan.Faults) - 1; i >= 0 && !d.late(); i-- {
		p := d.best.plan.clone()
		p.Faults = append(append([]json.RawMessage{}, p.Faults[:i]...), p.Faults[i+1:]...)
		d.try(d.best.history, p)
	}
}

// sparse looks for a schedule with few switches that shows the violation.
func (d *reducer) sparse() {
	if len(d.best.plan.Sched.Vol) <= 3 || len(d.best.plan.Tasks) < 2 {
		return
	}
	for _, mean := range []uint64{0, 1 << 40, 100000, 10000, 1000} {
		if d.late() {
			return
		}
		var alts []*repro
		for i := 0; i < 24; i++ {
			q := d.best.plan.clone()
			q.Sched = schedT{Seed: mix(d.cfg.seed, 1777, mean, uint64(i)), Cap: q.Sched.Cap, Mean: mean}
			if i%2 == 1 {
				q.Sched.SyncP = []uint64{3, 10, 30}[i/2%3]
			}
			alts = append(alts, &repro{history: d.best.history, plan: q})
		}
		r := d.batch(alts)
		if r != nil && len(r.plan.Sched.Vol) < len(d.best.plan.Sched.Vol) {
			d.accept(r)
			return
		}
	}
}

// dropSwitches removes task switches from the recorded schedule.
func (d *reducer) dropSwitches() {
	if !d.best.plan.Sched.Replay {
		return
	}
	// a switch removed early shifts nothing: steps are counted over all tasks,
	// so later switches happen elsewhere; the violation has to survive that
	for n := (len(d.best.plan.Sched.Vol) + 1) / 2; n >= 1; n /= 2 {
		for at := 0; at < len(d.best.plan.Sched.Vol); {
			if d.late() {
				return
			}
			vol := d.best.plan.Sched.Vol
			var alts []*repro
			var ats []int
			for k := 0; k < d.cfg.workers && at+k*n < len(vol); k++ {
				a := at + k*n
				e := a + n
				if e > len(vol) {
					e = len(vol)
				}
				p := d.best.plan.clone()
				p.Sched.Vol = append(append([]switchT(nil), vol[:a]...), vol[e:]...)
				alts = append(alts, &repro{history: d.best.history, plan: p})
				ats = append(ats, a)
			}
			r := d.batch(alts)
			if r == nil {
				at = ats[len(ats)-1] + n
				continue
			}
			d.accept(r)
		}
	}
}

func (d *reducer) dropForced() {
	if !d.best.plan.Sched.Replay || len(d.best.plan.Sched.Forced) == 0 || d.late() {
		return
	}
	for n := len(d.best.plan.Sched.Forced); n >= 1; n /= 2 {
		p := d.best.plan.clone()
		k := len(p.Sched.Forced) - n
		if k < 0 {
			continue
		}
		p.Sched.Forced = p.Sched.Forced[:k]
		d.accept(d.batch([]*repro{{history: d.best.history, plan: p}}))
	}
}

type knownT struct{ prop, text string }

type knownList []knownT

// loadKnown reads the known findings: "known: property=<id> class=<class> <text
// that the violation's description contains>". Lines that start with "fixed:"
// record repaired defects and suppress nothing.
func loadKnown(cfg *config) knownList {
	b, err := os.ReadFile(filepath.Join(cfg.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var l knownList
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		if !strings.HasPrefix(s, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(s, "known: property="), " ", 2)
		if len(f) == 2 {
			l = append(l, knownT{f[0], f[1]})
		}
	}
	return l
}

func (l knownList) match(prop, class, detail string) string {
	for _, k := range l {
		if k.prop != prop {
			continue
		}
		f := strings.SplitN(k.text, " ", 2)
		if len(f) == 2 && f[0] == "class="+class && strings.Contains(detail, f[1]) {
			return f[1]
		}
	}
	return ""
}
