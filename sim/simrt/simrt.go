// Package simrt is the runtime of the deterministic simulator.
//
// Tasks are real goroutines of which exactly one runs at a time. The choice of
// who runs next is made here, at scheduling points (Y) that the instrumentor
// put before every statement of the code under test, and at blocking
// operations. The hand-over uses a plain variable and runtime.Gosched in
// functions the race detector does not see, so it creates no happens-before
// edge: with -race, two accesses that only the scheduler ordered are reported.
// Workers run with GOMAXPROCS=1.
package simrt

import (
	"os"
	"runtime"
	"sync"
	"time"
)

const (
	maxTasks = 512
	fair     = 200000 // no task runs longer than this without offering its turn

	spinLimit = 400000 // calls of Gosched in a run, after which tasks are taken to wait for the stalled one

	tick = -100 // in place of a task to switch to: time passes

	burstLen     = 600   // switches in a row at the drawn density
	manySwitches = 10000 // after this many, a run goes on with few switches
)

// Switch is one voluntary task switch: at step Step, continue with task To.
type Switch struct {
	Step uint64 `json:"s"`
	To   int32  `json:"t"`
}

// Sched describes how a run is scheduled: drawn from Seed, or replayed.
type Sched struct {
	Seed   uint64   `json:"seed"`
	Mean   uint64   `json:"mean"`             // mean number of steps between switches (0: never by step)
	SyncP  uint64   `json:"syncp"`            // additional switch chance in percent at synchronisation operations
	Stall  int      `json:"stall,omitempty"`  // 1+index of a task that is stalled ...
	StallA uint64   `json:"stalla,omitempty"` // ... from this step on, while others can run
	Hold   bool     `json:"hold,omitempty"`   // the stall does not end when others spin
	Replay bool     `json:"replay,omitempty"`
	Vol    []Switch `json:"vol,omitempty"`
	Forced []int32  `json:"forced,omitempty"`
	Cap    uint64   `json:"cap"` // step budget
}

type taskState struct {
	live   bool
	daemon bool
	child  bool  // started by the code under test
	wake   int64 // simulated time at which a sleeping task may go on (0: not sleeping)
	still  int   // inside this many calls that keep the turn
	steps  uint64
	g      *gor
}

var (
	active     bool
	turn       int32
	runID      uint32
	step       uint64
	nextSwitch uint64
	sched      Sched
	rng        uint64
	envRng     uint64
	tasks      [maxTasks]taskState
	nTasks     int32
	live       int32 // live non-daemon tasks
	volIdx     int
	forcedIdx  int
	volOut     []Switch
	volN       int
	forcedOut  []int32
	forcedN    int
	hash       uint64
	lastBlock  uint64
	idle       int32
	yields     int
	clock      int64 // simulated nanoseconds
	switches   uint64
	syncOps    uint64
	seq        uint64
	burst      int    // number of switches when the burst began
	quiet      uint64 // no switches at synchronisation operations before this step
	lastSw     uint64 // step of the last switch
	stepBase   uint64 // step at which the running task took over
	origLive   int32  // live tasks of the scenario itself
	graceStep  uint64 // step at which the last of them was done
	graceTicks int    // times the clock was moved since
	wg         *sync.WaitGroup
	probes     [64]uint64
	abort      func(class, detail string)
)

func init() {
	volOut = make([]Switch, 1<<20)
	forcedOut = make([]int32, 1<<18)
}

//go:norace
func next(s *uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := *s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Y is a scheduling point.
//
//go:norace
func Y() {
	if !active {
		return
	}
	step++
	if step < nextSwitch {
		return
	}
	slow()
}

// YS is a scheduling point at a synchronisation operation.
//
//go:norace
func YS() {
	if !active {
		return
	}
	step++
	syncOps++
	if !sched.Replay && sched.SyncP > 0 && step >= quiet && next(&rng)%100 < sched.SyncP && (volN < manySwitches || next(&rng)%32 == 0) {
		voluntary()
		return
	}
	if step < nextSwitch {
		return
	}
	slow()
}

// V is a scheduling point between the evaluation of x and its use.
//
//go:norace
func V[T any](x T) T {
	Y()
	return x
}

//go:norace
func slow() {
	if origLive == 0 && step-graceStep > graceSteps {
		if g := tasks[turn].g; leave() {
			wait(g)
			return
		}
	}
	if step > sched.Cap {
		active = false
		abort("no-progress", "step budget exhausted")
	}
	if sched.Replay {
		for volIdx < len(sched.Vol) && sched.Vol[volIdx].Step < step {
			volIdx++
		}
		to := int32(-1)
		for volIdx < len(sched.Vol) && sched.Vol[volIdx].Step == step {
			if to = sched.Vol[volIdx].To; to == tick {
				pass()
			}
			volIdx++
		}
		if to < 0 && step-lastSw >= fair {
			to = other()
		}
		setNext()
		if to >= 0 && to < nTasks && to != turn && tasks[turn].still == 0 && runnable(to) {
			switchTo(to)
		}
		return
	}
	voluntary()
}

// other returns the next task that could go on, a stalled one included.
//
//go:norace
func other() int32 {
	for d := int32(1); d < nTasks; d++ {
		i := (turn + d) % nTasks
		if tasks[i].live && !(tasks[i].wake != 0 && tasks[i].wake > clock) {
			return i
		}
	}
	return -1
}

// Still calls f without giving up the turn, unless f blocks: for calls made by
// code that is not instrumented and holds a lock the scheduler does not see.
func Still(f func()) {
	if !isActive() {
		f()
		return
	}
	still(1)
	defer still(-1)
	f()
}

//go:norace
func still(d int) { tasks[turn].still += d }

// Gosched is a scheduling point at which the turn is always offered.
//
//go:norace
func Gosched() {
	if !active {
		if outTurn != nil {
			outside()
			return
		}
		stepBack()
		runtime.Gosched()
		return
	}
	step++
	if origLive == 0 && step-graceStep > graceSteps {
		slow()
		return
	}
	if yields++; yields > spinLimit && sched.Hold || yields > 50*spinLimit {
		active = false
		abort("no-progress", "tasks give up their turn again and again and none goes on")
	}
	if !sched.Replay {
		voluntary()
	} else if step >= nextSwitch {
		slow()
	}
}

//go:norace
func voluntary() {
	setNext()
	if tasks[turn].still > 0 {
		return
	}
	if Drift && sleepers && next(&rng)%16 == 0 && volN < len(volOut) {
		volOut[volN] = Switch{step, tick}
		volN++
		pass()
	}
	n := int32(0)
	for i := int32(0); i < nTasks; i++ {
		if i != turn && runnable(i) {
			n++
		}
	}
	if n == 0 {
		if step-lastSw < fair {
			return
		}
		// nobody is stalled or spins for ever
		i := other()
		if i < 0 {
			return
		}
		if volN < len(volOut) {
			volOut[volN] = Switch{step, i}
			volN++
		}
		switchTo(i)
		return
	}
	k := int32(next(&rng) % uint64(n))
	for i := int32(0); i < nTasks; i++ {
		if i != turn && runnable(i) {
			if k == 0 {
				if volN < len(volOut) {
					volOut[volN] = Switch{step, i}
					volN++
				}
				switchTo(i)
				return
			}
			k--
		}
	}
}

//go:norace
func setNext() {
	if sched.Replay {
		nextSwitch = sched.Cap + 1
		if step+fair < nextSwitch {
			nextSwitch = step + fair
		}
		for volIdx < len(sched.Vol) && sched.Vol[volIdx].Step <= step {
			volIdx++
		}
		if volIdx < len(sched.Vol) && sched.Vol[volIdx].Step < nextSwitch {
			nextSwitch = sched.Vol[volIdx].Step
		}
		return
	}
	switch mean := sched.Mean; {
	case mean == 0:
		nextSwitch = step + fair
	case volN >= manySwitches:
		nextSwitch = step + 1 + next(&rng)%(20*(mean+1000))
	case volN-burst >= burstLen:
		// dense switching comes in bursts, so that it reaches all of a run
		burst = volN
		nextSwitch = step + 1 + next(&rng)%60000
		quiet = nextSwitch
	default:
		nextSwitch = step + 1 + next(&rng)%(2*mean)
	}
	if nextSwitch > sched.Cap {
		nextSwitch = sched.Cap + 1
	}
}

//go:norace
func runnable(i int32) bool {
	t := &tasks[i]
	if !t.live {
		return false
	}
	if t.wake != 0 && t.wake > clock {
		return false
	}
	if sched.Stall == int(i)+1 && step >= sched.StallA && !sched.Replay && yields <= spinLimit {
		// a stalled task runs only if nobody else can
		for j := int32(0); j < nTasks; j++ {
			if j != i && tasks[j].live && !(tasks[j].wake != 0 && tasks[j].wake > clock) {
				return false
			}
		}
	}
	return true
}

//go:norace
func switchTo(to int32) {
	g := tasks[turn].g
	switches++
	lastSw = step
	hash = (hash ^ (step*0x100000001b3 + uint64(to) + 1)) * 0x9E3779B97F4A7C15
	account()
	turn = to
	wait(g)
}

//go:norace
func account() {
	tasks[turn].steps += step - stepBase
	stepBase = step
}

// Outside is called when a call that is made while no run is in progress, and
// so has nobody to wait for, does not return. It must not return.
var Outside = func(class, detail string) { panic(class + ": " + detail) }

var idleOut int

//go:norace
func outside() {
	if g := outTurn; g != nil {
		outTurn = nil
		wait(g)
		return
	}
	stepBack()
	runtime.Gosched()
	if idleOut++; idleOut > 1000 {
		time.Sleep(time.Millisecond)
	}
	if idleOut > 4000 {
		Outside("deadlock", "a call made while nothing else was running does not return")
	}
}

// Went tells that a call outside a run has got what it waited for.
//
//go:norace
func Went() { idleOut = 0; went++ }

// Block is called by a task that cannot go on now; the operation is retried
// when the task is scheduled again.
//
//go:norace
func Block() {
	if !active {
		outside()
		return
	}
	idleOut = 0
	me := tasks[turn].g
	if step == lastBlock {
		idle++
	} else {
		idle = 0
		lastBlock = step
	}
	if idle > 2*nTasks+4 {
		if !advanceClock() {
			if leave() {
				wait(me)
				return
			}
			active = false
			abort("deadlock", "no task can go on")
		}
		idle = 0
	}
	to := pickForced(idle > 0)
	if to < 0 {
		if !advanceClock() {
			if tasks[turn].live && tasks[turn].wake == 0 {
				return // only this one is left: retry until idle says deadlock
			}
			if leave() {
				wait(me)
				return
			}
			active = false
			abort("deadlock", "no task can go on")
		}
		return
	}
	switchTo(to)
}

// leave ends the run if all calls have returned and only goroutines that they
// left behind are waiting.
//
//go:norace
func leave() bool {
	n := 0
	for i := int32(0); i < nTasks; i++ {
		if tasks[i].live && !tasks[i].daemon {
			if !tasks[i].child {
				return false
			}
			n++
		}
	}
	active = false
	account()
	turn = -2
	for ; n > 0; n-- {
		wg.Done()
	}
	return true
}

// Drift makes time pass while tasks run, and jump between two looks at it.
var Drift bool

var (
	driftRng uint64
	sleepers bool // somebody has slept in this run
)

// pass moves the clock to the next moment somebody waits for.
//
//go:norace
func pass() {
	min := int64(0)
	for i := int32(0); i < nTasks; i++ {
		if tasks[i].live && tasks[i].wake > clock && (min == 0 || tasks[i].wake < min) {
			min = tasks[i].wake
		}
	}
	if min > 0 {
		clock = min
	}
}

var jumps = [...]time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 1000 * time.Hour}

//go:norace
func drift() {
	if z := next(&driftRng); z%16 == 0 {
		clock += int64(jumps[(z>>8)%uint64(len(jumps))])
	} else {
		clock += int64((z >> 8) % 50000)
	}
}

//go:norace
func advanceClock() bool {
	if origLive == 0 {
		if graceTicks++; graceTicks > 100 {
			return false
		}
	}
	min := int64(0)
	for i := int32(0); i < nTasks; i++ {
		if tasks[i].live && tasks[i].wake > clock && (min == 0 || tasks[i].wake < min) {
			min = tasks[i].wake
		}
	}
	if min == 0 {
		return false
	}
	clock = min
	return true
}

// pickForced chooses the task to go on with when the current one cannot.
//
//go:norace
func pickForced(roundRobin bool) int32 {
	to := int32(-1)
	if sched.Replay {
		if forcedIdx < len(sched.Forced) {
			t := sched.Forced[forcedIdx]
			forcedIdx++
			if t >= 0 && t < nTasks && t != turn && runnable(t) {
				return t
			}
		}
	} else if !roundRobin {
		n := int32(0)
		for i := int32(0); i < nTasks; i++ {
			if i != turn && runnable(i) {
				n++
			}
		}
		if n > 0 {
			k := int32(next(&rng) % uint64(n))
			for i := int32(0); i < nTasks; i++ {
				if i != turn && runnable(i) {
					if k == 0 {
						to = i
						break
					}
					k--
				}
			}
		}
	}
	if to < 0 && idle <= nTasks {
		for d := int32(1); d < nTasks; d++ {
			i := (turn + d) % nTasks
			if runnable(i) {
				to = i
				break
			}
		}
	}
	if to < 0 {
		// a stall ends when nobody else can go on
		for d := int32(1); d < nTasks; d++ {
			i := (turn + d) % nTasks
			if tasks[i].live && !(tasks[i].wake != 0 && tasks[i].wake > clock) {
				to = i
				break
			}
		}
	}
	if to >= 0 && !sched.Replay && forcedN < len(forcedOut) {
		forcedOut[forcedN] = to
		forcedN++
	}
	return to
}

//go:norace
func finish() {
	account()
	t := turn
	tasks[t].live = false
	if !tasks[t].daemon {
		live--
	}
	if !tasks[t].child {
		if origLive--; origLive == 0 {
			graceStep, graceTicks = step, 0
		}
	}
	if live == 0 {
		active = false
		return
	}
	for {
		to := pickForced(false)
		if to >= 0 {
			hash = (hash ^ (step*31 + uint64(to) + 7)) * 0x9E3779B97F4A7C15
			turn = to
			return
		}
		if !advanceClock() {
			if leave() {
				return
			}
			active = false
			abort("deadlock", "no task can go on")
			return
		}
	}
}

//go:norace
func newTask(daemon bool, g *gor) int32 {
	for i := int32(0); i < nTasks; i++ {
		if !tasks[i].live && i >= 64 { // identities of finished short-lived tasks are reused late
			tasks[i] = taskState{live: true, daemon: daemon, child: true, g: g}
			if !daemon {
				live++
			}
			return i
		}
	}
	if nTasks == maxTasks {
		active = false
		abort("no-progress", "too many goroutines")
	}
	i := nTasks
	nTasks++
	tasks[i] = taskState{live: true, daemon: daemon, child: true, g: g}
	if !daemon {
		live++
	}
	return i
}

// Go starts a goroutine of the code under test as a task.
func Go(f func()) { goTask(f, false) }

// GoDaemon starts a task that does not keep the run going.
func GoDaemon(f func()) *Gor { return goTask(f, true) }

func goTask(f func(), daemon bool) *gor {
	g := &gor{daemon: daemon, lib: fromLib()}
	if isActive() {
		i := newTask(daemon, g)
		w := curWG()
		g.bind(i, w)
		if !daemon {
			w.Add(1)
		}
	} else {
		g.park(0)
	}
	go func() {
		wait(g)
		defer func() {
			if r := recover(); r != nil {
				doAbort("panic", panicText(r))
			}
		}()
		f()
		g.finished()
	}()
	YS()
	return g
}

//go:norace
func curWG() *sync.WaitGroup { return wg }

//go:norace
func curRun() uint32 { return runID }

//go:norace
func isActive() bool { return active }

// Active reports whether a simulation is running.
func Active() bool { return isActive() }

//go:norace
func doAbort(class, detail string) {
	if !active {
		Outside(class, detail)
	}
	active = false
	abort(class, detail)
}

// ExitTask ends the calling task without running its deferred calls, like
// os.Exit does for a process.
func ExitTask() {
	if !isActive() {
		os.Exit(70)
	}
	w := curWG()
	daemon := curDaemon()
	finish()
	if !daemon {
		w.Done()
	}
	select {}
}

//go:norace
func curDaemon() bool { return tasks[turn].daemon }

// Park makes the calling task wait for ever without counting as unfinished.
func Park() {
	if !isActive() {
		parkOut()
		select {}
	}
	w := curWG()
	daemon := curDaemon()
	finish()
	if !daemon {
		w.Done()
	}
	select {}
}

// Result is what the scheduler recorded about a run.
type Result struct {
	Steps, Switches, SyncOps, Hash uint64
	SimNanos                       int64
	TaskSteps                      []uint64
}

// Run executes the tasks under the given schedule and returns when all are
// done. onAbort is called (on some task's goroutine) when the run cannot go on;
// it must not return.
func Run(s Sched, envSeed uint64, startClock int64, fns []func(), onAbort func(class, detail string)) Result {
	w := &sync.WaitGroup{}
	begin(s, envSeed, startClock, len(fns), onAbort, w)
	for i := range fns {
		g := origTask(int32(i))
		f := fns[i]
		w.Add(1)
		go func() {
			ok := false
			defer func() {
				if !ok {
					if r := recover(); r != nil {
						doAbort("panic", panicText(r))
					}
				}
				w.Done()
			}()
			wait(g)
			f()
			ok = true
			finish()
		}()
	}
	start()
	w.Wait()
	return end()
}

func panicText(r any) string {
	var buf [16384]byte
	n := runtime.Stack(buf[:], false)
	s := ""
	if e, ok := r.(error); ok {
		s = e.Error()
	} else if t, ok := r.(string); ok {
		s = t
	} else {
		s = "panic"
	}
	return s + "\n" + string(buf[:n])
}

//go:norace
func begin(s Sched, envSeed uint64, startClock int64, n int, onAbort func(class, detail string), w *sync.WaitGroup) {
	runID++
	turn = -1
	sched = s
	if sched.Cap == 0 {
		sched.Cap = 1 << 40
	}
	rng = s.Seed
	envRng = envSeed
	driftRng = envSeed ^ 0xd81f7
	sleepers = false
	step, switches, syncOps, hash, seq, stepBase = 0, 0, 0, 0xcbf29ce484222325, 0, 0
	lastSw, burst, quiet = 0, 0, 0
	volIdx, forcedIdx, volN, forcedN = 0, 0, 0, 0
	lastBlock, idle, yields = ^uint64(0), 0, 0
	clock = startClock
	abort = onAbort
	wg = w
	for i := range tasks {
		tasks[i] = taskState{}
	}
	nTasks = int32(n)
	live = int32(n)
	origLive = live
	for i := 0; i < n; i++ {
		tasks[i].live = true
		tasks[i].g = &gor{id: int32(i), run: runID, w: w}
	}
	adopt(w)
}

//go:norace
func start() {
	active = true
	setNext()
	first := int32(0)
	if sched.Replay {
		if len(sched.Forced) > 0 {
			first = sched.Forced[0]
			forcedIdx = 1
		}
		if first < 0 || first >= nTasks {
			first = 0
		}
	} else {
		first = int32(next(&rng) % uint64(nTasks))
		forcedOut[forcedN] = first
		forcedN++
	}
	turn = first
}

//go:norace
func end() Result {
	active = false
	turn = -2
	r := Result{Steps: step, Switches: switches, SyncOps: syncOps, Hash: hash, SimNanos: clock}
	for i := int32(0); i < nTasks; i++ {
		r.TaskSteps = append(r.TaskSteps, tasks[i].steps)
	}
	parkAll()
	return r
}

// Recorded returns the schedule of the current (or last) run for replay.
//
//go:norace
func Recorded() Sched {
	s := sched
	if s.Replay {
		return s
	}
	s.Replay = true
	s.Vol = append([]Switch(nil), volOut[:volN]...)
	s.Forced = append([]int32(nil), forcedOut[:forcedN]...)
	return s
}

// Epoch changes when a run begins and when it ends.
//
//go:norace
func Epoch() uint32 {
	e := runID << 1
	if active {
		e++
	}
	return e
}

// Stamp returns the next event sequence number.
//
//go:norace
func Stamp() uint64 {
	seq++
	return seq
}

// Step returns the current step.
//
//go:norace
func Step() uint64 { return step }

// OwnSteps returns the steps the calling task has taken itself.
//
//go:norace
func OwnSteps() uint64 { return tasks[turn].steps + step - stepBase }

// Task returns the identity of the running task.
//
//go:norace
func Task() int { return int(turn) }

// Mix adds an observation to the run's event hash.
//
//go:norace
func Mix(x uint64) { hash = (hash ^ x) * 0x9E3779B97F4A7C15 }

// Env draws from the run's environment stream (pool behaviour, map order, ...).
//
//go:norace
func Env() uint64 { return next(&envRng) }

// Probe counts that something worth reaching happened.
//
//go:norace
func Probe(i int) { probes[i&63]++ }

//go:norace
func Probes() [64]uint64 { return probes }

// Now returns the simulated time.
//
//go:norace
func Now() time.Time {
	if !active {
		return time.Now()
	}
	if Drift {
		drift()
	}
	return time.Unix(0, clock).In(time.Local)
}

// Clock and SetClock give the harness control of the simulated time.
//
//go:norace
func Clock() int64 { return clock }

//go:norace
func SetClock(ns int64) { clock = ns }

// Sleep makes the task wait for simulated time to pass.
//
//go:norace
func Sleep(d time.Duration) {
	if !active && outTurn == nil {
		return
	}
	if d <= 0 {
		Y()
		return
	}
	if active {
		tasks[turn].wake = clock + int64(d)
		sleepers = true
	} else {
		g := outTurn
		g.left = int64(d)
		outTurn = nil
		wait(g)
	}
	for active && tasks[turn].wake > clock {
		g := tasks[turn].g
		lastBlock = ^uint64(0)
		to := pickForced(false)
		if to < 0 {
			if !advanceClock() {
				if leave() {
					wait(g)
					continue
				}
				break
			}
			continue
		}
		switchTo(to)
	}
	if active {
		tasks[turn].wake = 0
	}
}

// BlockForever is select{}.
func BlockForever() {
	if isActive() && curDaemon() {
		Park()
	}
	for {
		Block()
	}
}

var touched int

// Touch stands for the state of a library that must not be used by two
// goroutines at a time: uses that nothing orders are a race on it.
func Touch() {
	if isActive() {
		touched++
	}
}
