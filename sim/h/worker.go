package h

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

// Job tells a worker what to run: history (regenerated from the seed) first,
// then either a range of runs or an explicit plan.
type Job struct {
	Prop    string   `json:"prop"`
	Seed    uint64   `json:"seed"`
	History []uint64 `json:"history,omitempty"`
	From    uint64   `json:"from,omitempty"`
	Count   uint64   `json:"count,omitempty"`
	Plan    *Plan    `json:"plan,omitempty"`
	Until   int64    `json:"until,omitempty"` // do not begin runs after this time (unix ns)
	GenOnly bool     `json:"genonly,omitempty"`
}

// A worker started with this variable set does one operation, read from its
// standard input, and writes the result to its standard output.
const aloneEnv = "VERIF_ALONE"

var alone func(in []byte) string

// inFreshProcess hands the job to the alone function of a new process.
func inFreshProcess(in []byte) (string, error) {
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), aloneEnv+"=1")
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	return string(out), err
}

// Main is the main function of every worker binary.
func Main() {
	if os.Getenv(aloneEnv) != "" && alone != nil {
		in, _ := io.ReadAll(os.Stdin)
		os.Stdout.WriteString(alone(in))
		return
	}
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	job := fl.String("job", "", "file with the job")
	out := fl.String("out", "", "where to write the result")
	scratch := fl.String("scratch", "", "scratch directory")
	marker := fl.String("marker", "", "file that names the run in progress")
	fl.Parse(os.Args[1:])
	b, err := os.ReadFile(*job)
	if err != nil {
		fatal(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		fatal(err)
	}
	if Scenarios[j.Prop] == nil {
		fatal(fmt.Errorf("no scenario for %s", j.Prop))
	}
	if gc := os.Getenv("VERIF_GC"); gc != "" {
		n, _ := strconv.Atoi(gc)
		debug.SetGCPercent(n)
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		pf, _ := os.Create(f)
		pprof.StartCPUProfile(pf)
		atFinish = pprof.StopCPUProfile
	}
	w := NewWorker(*scratch, *out)
	os.MkdirAll(*scratch, 0o755)
	var mf *os.File
	if *marker != "" {
		mf, err = os.OpenFile(*marker, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		if err != nil {
			fatal(err)
		}
	}
	mark := func(run uint64) {
		if mf != nil {
			mf.WriteAt([]byte(fmt.Sprintf("%20d\n", run)), 0)
		}
	}
	for _, r := range j.History {
		mark(r)
		w.Exec(GenPlan(j.Prop, j.Seed, r))
	}
	if j.Plan != nil {
		mark(j.Plan.Run)
		w.Exec(j.Plan)
	}
	for r := j.From; r < j.From+j.Count; r++ {
		if j.Until > 0 && r > j.From && time.Now().UnixNano() > j.Until {
			break
		}
		mark(r)
		p := GenPlan(j.Prop, j.Seed, r)
		if j.GenOnly {
			x, _ := json.Marshal(p)
			fmt.Println(string(x))
			continue
		}
		w.Exec(p)
	}
	w.finish(nil)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "worker:", strings.TrimSpace(err.Error()))
	os.Exit(4)
}

var atFinish = func() {}
