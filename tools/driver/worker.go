package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type outcome struct {
	res    *resultT
	class  string // "" none; violation class, "crash", "hang"; "error" for a failure of the machinery
	detail string
	run    uint64 // run in progress (crash, hang)
	stdout string
}

var procN int64

const stuckAfter = 120 * time.Second

// exec runs a job in a fresh worker process.
func (cfg *config) exec(j *jobT, stop <-chan struct{}) outcome {
	id := atomic.AddInt64(&procN, 1)
	dir := filepath.Join(cfg.work, "p"+strconv.FormatInt(id, 10))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	jb, err := json.Marshal(j)
	if err != nil {
		return outcome{class: "error", detail: err.Error()}
	}
	jf, of, mf := filepath.Join(dir, "job"), filepath.Join(dir, "out"), filepath.Join(dir, "marker")
	if err := os.WriteFile(jf, jb, 0o644); err != nil {
		return outcome{class: "error", detail: err.Error()}
	}
	scratch := filepath.Join(dir, "s")
	os.MkdirAll(scratch, 0o755)
	cmd := exec.Command(cfg.bin, "-job", jf, "-out", of, "-scratch", scratch, "-marker", mf)
	cmd.Dir = scratch
	cmd.Env = goEnv("GOMAXPROCS=1", "GODEBUG=randautoseed=0", "GOTRACEBACK=all", "GORACE=log_path="+filepath.Join(dir, "race")+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limited{b: &errb, max: 1 << 16}
	if err := cmd.Start(); err != nil {
		return outcome{class: "error", detail: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	marker := func() string {
		b, _ := os.ReadFile(mf)
		return strings.TrimSpace(string(b))
	}
	last, lastAt := "", time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var werr error
	hung := false
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-stop:
			kill()
			<-done
			return outcome{class: "stopped"}
		case <-tick.C:
			if m := marker(); m != last {
				last, lastAt = m, time.Now()
			} else if time.Since(lastAt) > stuckAfter {
				hung = true
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				kill()
				werr = <-done
				break loop
			}
		}
	}
	cur, _ := strconv.ParseUint(marker(), 10, 64)
	if hung {
		return outcome{class: "hang", detail: "no progress\n" + errb.String(), run: cur}
	}
	if b, err := os.ReadFile(of); err == nil && werr == nil {
		var r resultT
		if err := json.Unmarshal(b, &r); err != nil {
			return outcome{class: "error", detail: "result: " + err.Error()}
		}
		o := outcome{res: &r, stdout: out.String()}
		if r.Violation != nil {
			o.class, o.detail, o.run = r.Violation.Class, r.Violation.Detail, r.Violation.Plan.Run
		}
		return o
	}
	det := fmt.Sprintf("%v\n%s", werr, errb.String())
	if ee, ok := werr.(*exec.ExitError); ok {
		ws, _ := ee.Sys().(syscall.WaitStatus)
		if (ws.Exited() && ws.ExitStatus() == 4) || (ws.Signaled() && ws.Signal() == syscall.SIGKILL) || strings.Contains(errb.String(), "out of memory") || strings.Contains(errb.String(), "cannot allocate memory") {
			return outcome{class: "error", detail: det, run: cur}
		}
		return outcome{class: "crash", detail: det, run: cur}
	}
	return outcome{class: "error", detail: det, run: cur}
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if n := l.max - l.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		l.b.Write(p[:n])
	}
	return len(p), nil
}
