package simrt

import (
	"runtime"
	"strings"
	"sync"
)

// Goroutines that outlive the run (or the call) that started them. Between runs
// they are parked, and go on one at a time while a call outside a run waits;
// the next run takes them in as tasks.

const (
	graceSteps = 3000000 // what goroutines left behind may do when all else is done
	keepOld    = 8
	keepNew    = 16
)

// gor is a goroutine and the task it is at present.
type gor struct {
	id     int32
	run    uint32
	w      *sync.WaitGroup
	daemon bool
	lib    bool // started by a package that is no program
	parked bool
	dead   bool
	gone   bool  // to end, where it waits
	left   int64 // what is left of its sleep
}

// Gor identifies a goroutine.
type Gor = gor

// Carry is whether all goroutines go on in the next run, and not only those of
// packages that are no programs.
var Carry bool

func fromLib() bool {
	var pc [8]uintptr
	fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc[:])])
	for {
		f, more := fs.Next()
		if !strings.HasPrefix(f.Function, "vsim/") {
			return !strings.Contains(f.Function, "/cmd/") && !strings.Contains(f.Function, "/wasm/") && !strings.Contains(f.Function, "/zzsim/")
		}
		if !more {
			return false
		}
	}
}

var (
	backs   [maxTasks]*gor
	nBacks  int
	backAt  int
	outTurn *gor // the parked goroutine that has the turn outside a run
	went    uint64
)

//go:norace
func wait(g *gor) {
	for {
		if g.gone {
			runtime.Goexit()
		} else if g.parked {
			if outTurn == g {
				return
			}
		} else if g.dead || g.run != runID {
			select {} // a leftover of an earlier run
		} else if turn == g.id {
			return
		}
		runtime.Gosched()
	}
}

//go:norace
func origTask(i int32) *gor { return tasks[i].g }

//go:norace
func (g *gor) bind(i int32, w *sync.WaitGroup) {
	g.id, g.run, g.w, g.parked = i, runID, w, false
}

//go:norace
func (g *gor) park(left int64) {
	g.left = left
	g.parked = true
	if nBacks == maxTasks {
		Outside("no-progress", "too many goroutines")
	}
	backs[nBacks] = g
	nBacks++
}

//go:norace
func (g *gor) drop() {
	n := 0
	for i := 0; i < nBacks; i++ {
		if backs[i] != g {
			backs[n] = backs[i]
			n++
		}
	}
	nBacks = n
	g.dead = true
}

// finished is called by a goroutine whose function has returned.
//
//go:norace
func (g *gor) finished() {
	if !active {
		went++
		g.drop()
		outTurn = nil
		return
	}
	w := g.w
	finish()
	if !g.daemon {
		w.Done()
	}
}

// Forget ends a goroutine that has done nothing but wait for its turn or for
// time to pass.
//
//go:norace
func Forget(g *Gor) {
	if g == nil || g.dead {
		return
	}
	if g.parked {
		g.drop()
	} else if active && g.run == runID && tasks[g.id].g == g {
		tasks[g.id].live = false
		g.dead = true
	}
	g.gone = true
}

//go:norace
func parkOut() {
	if g := outTurn; g != nil {
		g.drop()
		outTurn = nil
	}
}

// adopt makes the parked goroutines tasks of the run that begins.
//
//go:norace
func adopt(w *sync.WaitGroup) {
	for k := 0; k < nBacks; k++ {
		g := backs[k]
		i := newTask(g.daemon, g)
		g.bind(i, w)
		if g.left > 0 {
			tasks[i].wake = clock + g.left
			sleepers = true
			g.left = 0
		}
		if !g.daemon {
			w.Add(1)
		}
	}
	nBacks = 0
}

// parkAll is called at the end of a run.
//
//go:norace
func parkAll() {
	for i := int32(0); i < nTasks; i++ {
		t := &tasks[i]
		if !t.live || !t.child {
			continue
		}
		if !Carry && !t.g.lib {
			t.g.dead = true
			continue
		}
		left := int64(0)
		if t.wake > clock {
			left = t.wake - clock
		}
		t.live = false
		t.g.park(left)
	}
	if n := nBacks; n > keepOld+keepNew {
		for i := keepOld; i < n-keepNew; i++ {
			backs[i].dead, backs[i].parked = true, false
		}
		for i := 0; i < keepNew; i++ {
			backs[keepOld+i] = backs[n-keepNew+i]
		}
		nBacks = keepOld + keepNew
	}
	purge()
}

// stepBack lets one parked goroutine go on until it cannot.
//
//go:norace
func stepBack() bool {
	n := nBacks
	if n == 0 {
		return false
	}
	for k := 0; k < n; k++ {
		backAt++
		if g := backs[backAt%n]; g.left == 0 {
			give(g)
			if idleOut <= 2*n+4 {
				return true
			}
			break
		}
	}
	// nobody gets on: time passes
	var g *gor
	for i := 0; i < nBacks; i++ {
		b := backs[i]
		if b.left > 0 && (g == nil || b.left < g.left) {
			g = b
		}
	}
	if g == nil {
		return true
	}
	for i := 0; i < nBacks; i++ {
		b := backs[i]
		if b != g && b.left > g.left {
			b.left -= g.left
		} else if b != g && b.left > 0 {
			b.left = 1
		}
	}
	g.left = 0
	give(g)
	return true
}

//go:norace
func give(g *gor) {
	outTurn = g
	for outTurn == g {
		runtime.Gosched()
	}
}

// Settle lets the parked goroutines do what they can.
//
//go:norace
func Settle() {
	for k := 0; k < 1000; k++ {
		was, n := went, nBacks
		all := backs
		for i := 0; i < n; i++ {
			if g := all[i]; !g.dead && g.left == 0 {
				give(g)
			}
		}
		if went == was && n == nBacks {
			return
		}
	}
}

// Main reports whether the caller is outside a run and no parked goroutine.
//
//go:norace
func Main() bool { return !active && outTurn == nil }
