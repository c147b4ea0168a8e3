package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// kind is a worker binary: which scenarios it has and how it is built.
type kind struct {
	tag  string
	race bool
	pkgs string // packages of the tree that need type information
}

var kinds = map[string]kind{
	"wcore":  {"wcore", true, "./jsonmatcher/... ./parser/... ./sampler/... ./internal/..."},
	"wcli":   {"wcli", true, "./cmd/aqltest/... ./parser/... ./internal/..."},
	"wsrv":   {"wsrv", true, "./wasm/aqlparse/server/..."},
	"wgraph": {"wgraph", true, "./aqlgraph/... ./cmd/aqlgraph/..."},
}

var propKind = map[string]string{"C14": "wgraph", "C26": "wgraph", "C15": "wcli", "C18": "wcli", "C28": "wcli", "C16": "wsrv"}

func kindOf(prop string) string {
	if k, ok := propKind[prop]; ok {
		return k
	}
	return "wcore"
}

type buildInfo struct {
	Bin          string
	Instrumented []string `json:"instrumented"`
	Plain        []string `json:"plain"`
	Warnings     []string `json:"warnings"`
}

func goEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOMAXPROCS", "GODEBUG", "GORACE", "GOGC", "GOMEMLIMIT", "TZ", "GOOS", "GOARCH", "CGO_ENABLED", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "TZ=UTC")
	return append(env, extra...)
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = env
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

func copyTree(src, dst string, skip func(rel string) bool) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if skip != nil && skip(rel) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

var errFile = regexp.MustCompile(`(?m)^(?:\./)?([A-Za-z0-9_./-]+\.go):\d+`)

// build makes the worker from the tree as it is now.
func build(cfg *config, work, kn string) (*buildInfo, error) {
	k := kinds[kn]
	info := &buildInfo{}
	repo := filepath.Join(work, "repo")
	plain := map[string]bool{}
	for attempt := 0; attempt < 5; attempt++ {
		os.RemoveAll(repo)
		rep := filepath.Join(work, "instr.json")
		var pl []string
		for f := range plain {
			pl = append(pl, f)
		}
		sort.Strings(pl)
		out, err := run(cfg.repo, goEnv(), cfg.instr, "-src", cfg.repo, "-dst", repo, "-report", rep, "-jsmain", "wasm/aqlparse", "-pkgs", k.pkgs, "-plain", strings.Join(pl, ","))
		if err != nil {
			return nil, fmt.Errorf("instr: %v\n%s", err, out)
		}
		b, err := os.ReadFile(rep)
		if err != nil {
			return nil, err
		}
		*info = buildInfo{}
		if err := json.Unmarshal(b, info); err != nil {
			return nil, err
		}
		if attempt == 0 {
			if err := copyTree(filepath.Join(cfg.verif, "sim"), filepath.Join(work, "vsim"), func(rel string) bool { return rel == "h" || rel == "w" }); err != nil {
				return nil, err
			}
			dir, err := run(cfg.repo, goEnv(), "go", "list", "-m", "-f", "{{.Dir}}", "go.uber.org/atomic")
			dir = strings.TrimSpace(dir)
			if err == nil && dir != "" {
				out, err := run(cfg.repo, goEnv(), cfg.instr, "-src", dir, "-dst", filepath.Join(work, "atomic"), "-typed=false", "-report", filepath.Join(work, "atomic.json"))
				if err != nil {
					return nil, fmt.Errorf("instr atomic: %v\n%s", err, out)
				}
			}
		}
		if err := copyTree(filepath.Join(cfg.verif, "sim", "h"), filepath.Join(repo, "zzsim", "h"), nil); err != nil {
			return nil, err
		}
		if err := copyTree(filepath.Join(cfg.verif, "sim", "w"), filepath.Join(repo, "zzsim", "w"), nil); err != nil {
			return nil, err
		}
		mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
		if err != nil {
			return nil, err
		}
		m := string(mod) + "\nrequire vsim v0.0.0\n\nreplace vsim => ../vsim\n"
		if _, err := os.Stat(filepath.Join(work, "atomic")); err == nil {
			m += "\nreplace go.uber.org/atomic => ../atomic\n"
			am, _ := os.ReadFile(filepath.Join(work, "atomic", "go.mod"))
			if !strings.Contains(string(am), "vsim") {
				os.WriteFile(filepath.Join(work, "atomic", "go.mod"), []byte(string(am)+"\nrequire vsim v0.0.0\n"), 0o644)
			}
		}
		if err := os.WriteFile(filepath.Join(repo, "go.mod"), []byte(m), 0o644); err != nil {
			return nil, err
		}
		info.Bin = filepath.Join(work, kn)
		args := []string{"build", "-trimpath", "-tags", k.tag, "-o", info.Bin}
		if k.race {
			args = append(args, "-race")
			ov, err := overlay(work)
			if err != nil {
				return nil, err
			}
			if ov != "" {
				args = append(args, "-overlay", ov)
			}
		}
		args = append(args, "./zzsim/w")
		out, err = run(repo, goEnv(), "go", args...)
		if err == nil {
			return info, nil
		}
		// Leave the offending files as they are and try again.
		added := false
		for _, m := range errFile.FindAllStringSubmatch(out, -1) {
			f := m[1]
			if strings.HasPrefix(f, "zzsim/") || strings.Contains(f, "..") || plain[f] {
				continue
			}
			if _, err := os.Stat(filepath.Join(cfg.repo, f)); err == nil {
				plain[f] = true
				added = true
			}
		}
		if !added {
			return nil, fmt.Errorf("build: %v\n%s", err, out)
		}
		fmt.Fprintf(os.Stderr, "note: building again without scheduling points in some files:\n%s", out)
	}
	return nil, fmt.Errorf("build: too many attempts")
}

// overlay makes sync.Pool under the race detector drop everything that is put
// into it, instead of a random part.
func overlay(work string) (string, error) {
	root, err := run(work, goEnv(), "go", "env", "GOROOT")
	if err != nil {
		return "", err
	}
	src := filepath.Join(strings.TrimSpace(root), "src", "sync", "pool.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return "", err
	}
	re := regexp.MustCompile(`if runtime_randn\(4\) == 0 \{\s*// Randomly drop x on floor\.\s*return\s*\}`)
	if !re.Match(b) {
		fmt.Fprintln(os.Stderr, "note: sync.Pool not adapted")
		return "", nil
	}
	p := filepath.Join(work, "pool.go")
	b = re.ReplaceAll(b, []byte("if x != nil {\n\t\t\treturn\n\t\t}"))
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return "", err
	}
	o, _ := json.Marshal(map[string]any{"Replace": map[string]string{src: p}})
	ov := filepath.Join(work, "overlay.json")
	return ov, os.WriteFile(ov, o, 0o644)
}
