// Command driver decides a property by deterministic simulation: it builds the
// worker from the tree, has it execute seeded runs in parallel, and reduces and
// records what fails.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type config struct {
	repo, verif, instr string
	work, bin          string
	prop, tier         string
	seed               uint64
	workers            int
	started            time.Time
	info               *buildInfo
	buildWall          time.Duration
}

func mix(xs ...uint64) uint64 {
	h := uint64(0x243F6A8885A308D3)
	for _, x := range xs {
		h ^= x
		h += 0x9E3779B97F4A7C15
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h = (h ^ (h >> 27)) * 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

func envInt(k string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return def
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver setup | check <property> | replay <file> | selftest <property>")
		os.Exit(2)
	}
	cfg := &config{repo: os.Getenv("VERIF_REPO"), verif: os.Getenv("VERIF_DIR"), instr: os.Getenv("VERIF_INSTR"), started: time.Now()}
	if cfg.repo == "" {
		cfg.repo = "/repo"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	cfg.seed = uint64(seed)
	cfg.tier = os.Getenv("VERIF_TIER")
	if cfg.tier != "thorough" {
		cfg.tier = "quick"
	}
	cfg.workers = envInt("VERIF_WORKERS", runtime.NumCPU())
	cfg.work, err = os.MkdirTemp("", "aqlsim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var once sync.Once
	clean := func() { once.Do(func() { os.RemoveAll(cfg.work) }) }
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-sig
		clean()
		os.Exit(2)
	}()
	code := 2
	func() {
		defer clean()
		switch os.Args[1] {
		case "setup":
			code = cfg.setup()
		case "check":
			cfg.prop = os.Args[2]
			code = cfg.check()
		case "replay":
			code = cfg.replay(os.Args[2])
		case "selftest":
			cfg.prop = os.Args[2]
			code = cfg.selftest()
		case "build":
			cfg.prop = os.Args[2]
			if err := cfg.build(); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return
			}
			b, err := os.ReadFile(cfg.bin)
			if err == nil {
				err = os.WriteFile(os.Args[3], b, 0o755)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return
			}
			code = 0
		}
	}()
	os.Exit(code)
}

func (cfg *config) build() error {
	t := time.Now()
	info, err := build(cfg, cfg.work, kindOf(cfg.prop))
	if err != nil {
		return err
	}
	cfg.info, cfg.bin, cfg.buildWall = info, info.Bin, time.Since(t)
	return nil
}

// setup builds every worker once, which fills the build cache.
func (cfg *config) setup() int {
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w := filepath.Join(cfg.work, "b-"+k)
		os.MkdirAll(w, 0o755)
		if _, err := build(cfg, w, k); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Println("built", k)
		os.RemoveAll(w)
	}
	return 0
}

// chunkSize gives the number of runs that share a worker process. Small chunks
// start cold often, large ones accumulate history.
func chunkSize(prop string, seed, c uint64) uint64 {
	if prop == "C15" {
		return 1 // every run is a process of its own
	}
	switch mix(seed, 77, c) % 8 {
	case 0:
		return 1
	case 1:
		return 3
	case 2, 3:
		return 10
	case 4:
		return 100
	}
	return 40
}

type total struct {
	resultT
	hashes, nontriv map[uint64]bool
	chunks          int
}

func newTotal() *total {
	t := &total{hashes: map[uint64]bool{}, nontriv: map[uint64]bool{}}
	t.Counts, t.Faults = map[string]uint64{}, map[string]uint64{}
	return t
}

func (t *total) add(r *resultT) {
	t.chunks++
	t.Runs += r.Runs
	t.Steps += r.Steps
	t.Switches += r.Switches
	t.SyncOps += r.SyncOps
	t.SimNanos += r.SimNanos
	t.Races += r.Races
	for _, h := range r.Hashes {
		t.hashes[h] = true
	}
	for _, h := range r.Nontrivial {
		t.nontriv[h] = true
	}
	for k, n := range r.Counts {
		t.Counts[k] += n
	}
	for k, n := range r.Faults {
		t.Faults[k] += n
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, r.Samples...)
	}
}

type found struct {
	chunkFrom, count uint64
	out              outcome
}

func (cfg *config) budget() time.Duration {
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			return d
		}
	}
	if cfg.tier == "thorough" {
		return 600 * time.Second
	}
	return 60 * time.Second
}

type explorer struct {
	cfg                *config
	left               time.Duration
	nextRun, nextChunk uint64
}

// explore executes runs until the time is used up; it hands every failure to
// onFound, which decides whether to go on.
func (ex *explorer) explore(tot *total, onFound func(found) bool) error {
	cfg := ex.cfg
	deadline := time.Now().Add(ex.left)
	maxRuns := uint64(envInt("VERIF_RUNS", 0))
	var mu sync.Mutex
	var ferr error
	stop := make(chan struct{})
	stopped := false
	halt := func() {
		if !stopped {
			stopped = true
			close(stop)
		}
	}
	var wg sync.WaitGroup
	errs := 0
	for i := 0; i < cfg.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stopped || time.Now().After(deadline) || (maxRuns > 0 && ex.nextRun >= maxRuns) {
					mu.Unlock()
					return
				}
				n := chunkSize(cfg.prop, cfg.seed, ex.nextChunk)
				from := ex.nextRun
				ex.nextRun += n
				ex.nextChunk++
				mu.Unlock()
				o := cfg.exec(&jobT{Prop: cfg.prop, Seed: cfg.seed, From: from, Count: n, Until: deadline.UnixNano()}, stop)
				mu.Lock()
				switch {
				case o.class == "stopped":
				case o.class == "error":
					errs++
					if errs >= 3 || o.res == nil {
						ferr = fmt.Errorf("worker: %s", o.detail)
						halt()
					}
				case o.class != "":
					if o.res != nil {
						tot.add(o.res)
					}
					if !stopped {
						// the rest of the exploration waits
						if !onFound(found{from, n, o}) {
							halt()
						}
					}
				default:
					tot.add(o.res)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return ferr
}

func (cfg *config) check() int {
	if err := cfg.build(); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	for _, w := range cfg.info.Warnings {
		fmt.Fprintln(os.Stderr, "note:", w)
	}
	tot := newTotal()
	known := loadKnown(cfg)
	reported := map[string]bool{}
	violations, code := 0, 0
	var exploreWall time.Duration
	ex := &explorer{cfg: cfg, left: cfg.budget()}
	for ex.left > 0 {
		var f *found
		t0 := time.Now()
		err := ex.explore(tot, func(x found) bool {
			if k := known.match(cfg.prop, x.out.class, x.out.detail); k != "" {
				if !reported[k] {
					reported[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.prop, k)
				}
				return true
			}
			f = &x
			return false
		})
		exploreWall += time.Since(t0)
		ex.left -= time.Since(t0)
		if err != nil && f == nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		if f == nil {
			break
		}
		fmt.Printf("found: run %d: %s: %s\n", f.out.run, f.out.class, firstLines(f.out.detail, 12))
		rp, err := cfg.reduce(*f)
		if err != nil {
			// go on: something that does reproduce may turn up
			fmt.Fprintln(os.Stderr, "error:", err)
			code = 3
			continue
		}
		path, err := cfg.writeReplay(rp)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			code = 3
			continue
		}
		violations++
		code = 1
		fmt.Printf("class: %s\n%s\n", rp.Class, firstLines(rp.Detail, 40))
		fmt.Printf("reduced to %d tasks, %d operations, %d switches, %d earlier runs\n", len(rp.Plan.Tasks), rp.Plan.ops(), len(rp.Plan.Sched.Vol), len(rp.History))
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.prop, path)
		break
	}
	if err := cfg.evidence(tot, exploreWall, violations); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		if code == 0 {
			code = 2
		}
	}
	if code == 0 {
		fmt.Printf("ok %s: %d runs, %d distinct, %d steps, %.0f s\n", cfg.prop, tot.Runs, len(tot.nontriv), tot.Steps, time.Since(cfg.started).Seconds())
		if tot.Runs == 0 {
			fmt.Fprintln(os.Stderr, "error: nothing was run")
			return 2
		}
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func (cfg *config) writeReplay(rp *replayT) (string, error) {
	dir := filepath.Join(cfg.verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	body, err := json.Marshal(rp)
	if err != nil {
		return "", err
	}
	h := uint64(14695981039346656037)
	for _, c := range body {
		h = (h ^ uint64(c)) * 1099511628211
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", cfg.prop, uint32(h^(h>>32))))
	rp.Command = "bash " + filepath.Join(cfg.verif, "run.sh") + " replay " + path
	body, err = json.MarshalIndent(rp, "", " ")
	if err != nil {
		return "", err
	}
	return path, os.WriteFile(path, append(body, '\n'), 0o644)
}

// replay executes a replay file on the current tree.
func (cfg *config) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	var rp replayT
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	cfg.prop = rp.Property
	if err := cfg.build(); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	o := cfg.exec(&jobT{Prop: rp.Property, Seed: rp.Seed, History: rp.History, Plan: rp.Plan}, nil)
	switch o.class {
	case "":
		fmt.Println("the run holds the property")
		return 0
	case "error":
		fmt.Fprintln(os.Stderr, "error:", o.detail)
		return 2
	}
	fmt.Printf("class: %s\n%s\n", o.class, o.detail)
	if o.class != rp.Class {
		fmt.Printf("(the file records class %s)\n", rp.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

// selftest executes the same runs in differently arranged processes and
// compares their event hashes.
func (cfg *config) selftest() int {
	if err := cfg.build(); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	n := uint64(envInt("VERIF_RUNS", 400))
	type variant struct{ chunk, workers int }
	ref := map[uint64]uint64{}
	bad := 0
	for vi, v := range []variant{{40, cfg.workers}, {40, 3}, {7, cfg.workers}, {1, cfg.workers}} {
		lim := n
		if v.chunk == 1 {
			lim = n / 4
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		next := uint64(0)
		for w := 0; w < v.workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					from := next
					next += uint64(v.chunk)
					mu.Unlock()
					if from >= lim {
						return
					}
					o := cfg.exec(&jobT{Prop: cfg.prop, Seed: cfg.seed, From: from, Count: uint64(v.chunk)}, nil)
					mu.Lock()
					if o.res == nil || o.class != "" {
						fmt.Println("run failed:", o.class, firstLines(o.detail, 5))
						bad++
					} else {
						for i, h := range o.res.Hashes {
							r := from + uint64(i)
							if vi == 0 {
								ref[r] = h
							} else if h0, ok := ref[r]; ok && h0 != h {
								bad++
								fmt.Printf("run %d differs in variant %v\n", r, v)
							}
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	fmt.Printf("selftest %s seed %d: %d runs, %d differences\n", cfg.prop, cfg.seed, len(ref), bad)
	if bad > 0 {
		return 1
	}
	return 0
}
