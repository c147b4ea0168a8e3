package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

func (cfg *config) evidence(t *total, wall time.Duration, violations int) error {
	hours := wall.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("%d runs, none sampled", t.Runs))
	}
	faults := 0
	for _, n := range t.Faults {
		faults += int(n)
	}
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": len(t.nontriv),
		"rule":                "a run is a plan (callers, operations, queries, documents, injected faults) and a schedule, all drawn from VERIF_SEED and the run's number; non-trivial: at least as many task switches as tasks, or an injected fault took effect; distinct by the hash of the sequence of (step, next task) choices and observed events together with the plan",
		"samples":             samples,
		"runs_per_hour":       int(float64(t.Runs) / hours),
		"seeds":               []uint64{cfg.seed},
		"distinct_executions": len(t.hashes),
		"worker_processes":    t.chunks,
		"steps":               t.Steps,
		"task_switches":       t.Switches,
		"sync_operations":     t.SyncOps,
		"simulated_seconds":   float64(t.SimNanos) / 1e9,
		"faults_fired":        t.Faults,
		"faults_fired_total":  faults,
		"counters":            t.Counts,
		"race_reports":        t.Races,
		"build_s":             cfg.buildWall.Seconds(),
		"explore_s":           wall.Seconds(),
		"instrumented_files":  len(cfg.info.Instrumented),
		"plain_files":         cfg.info.Plain,
		"real":                real[kindOf(cfg.prop)],
		"stub":                stub[kindOf(cfg.prop)],
	}
	ev := map[string]any{
		"property":    cfg.prop,
		"tier":        cfg.tier,
		"seed":        cfg.seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": []string{"third-party modules other than go.uber.org/atomic run uninstrumented: task switches do not happen inside them", "memory is sequentially consistent in a run; unordered conflicting accesses are found by the race detector instead"},
		"wall_s":      time.Since(cfg.started).Seconds(),
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(cfg.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, cfg.prop+".json"), append(b, '\n'), 0o644)
}

var real = map[string][]string{
	"wcore":  {"all packages of the tree (instrumented)", "jsonparser, dateparse, x/text, regexp, encoding/json, text/template, html/template", "Go memory allocator and race detector"},
	"wcli":   {"cmd/aqltest or wasm/aqlparse main, and all packages of the tree (instrumented)", "encoding/json, regexp, jsonparser, dateparse, x/text"},
	"wsrv":   {"the server's main and handlers (instrumented)", "net/http request parsing, ServeMux, FileServer, ServeContent", "files in a scratch directory"},
	"wgraph": {"aqlgraph, cmd/aqlgraph and the parser (instrumented)", "go-graphviz with the C graphviz library", "files in a scratch directory"},
}

var stub = map[string][]string{
	"wcore":  {"goroutine scheduling, sync, sync/atomic, channels, timers, clock, map iteration order in the tree", "readers, writers and visitors given to the code", "host time zone (C17)"},
	"wcli":   {"process arguments, standard output, exit", "files (real data, injected failures)", "JavaScript host (C18)"},
	"wsrv":   {"listening socket and connections", "files (real data, injected failures)", "goroutine scheduling, sync, clock"},
	"wgraph": {"files (real data, injected failures)", "goroutine scheduling"},
}
