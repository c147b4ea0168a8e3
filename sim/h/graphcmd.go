//go:build wgraph

package h

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"vsim/simflag"
	"vsim/simos"

	command "github.com/flowchartsman/aql/cmd/aqlgraph"
)

func init() {
	Scenarios["C26"] = &Scenario{Gen: genGraphCmd, Exec: execGraphCmd}
}

// The names the output file can be given; the first is the default.
var graphNames = []string{"", "out.svg", "out.dot", "OUT.SVG", "x.y.Dot", "with space.svg", "d/in.svg", "out.png", "noext", "out.svg.txt", "out.", ".svg", "missing/out.svg", "full.svg", "dir.dot", "été.svg"}

func genGraphCmd(r *Rng, p *Plan) {
	p.Kind = "graphcmd"
	s := genQuery(r, r.PickI(1, 1, 2, 3, 6), 3).Text(r)
	switch {
	case r.P(25):
		s = string(genBadText(r, s))
	case r.P(10):
		s += r.Pick(` OR a:"<b>&amp;</b>"`, ` OR été:"大懒虫 & >"`, ` OR a:("<TABLE>","</TABLE>")`)
	}
	if strings.Count(s, "(") > 3 {
		s = genQuery(r, 2, 1).Text(r)
	}
	s = strings.ReplaceAll(strings.ToValidUTF8(s, "?"), "\x00", "")
	p.Texts = []Bytes{Bytes(s)}
	p.P["name"] = r.N(len(graphNames))
	if r.P(55) {
		p.P["name"] = r.N(7)
	}
	p.P["args"] = 2
	if r.P(8) {
		p.P["args"] = r.PickI(0, 1, 1, 3)
	}
	p.P["others"] = r.N(16)
	p.P["old"] = r.PickI(0, 0, 1, 2, 3)
	if r.P(15) {
		p.P["limit"] = 1 + r.N(r.PickI(1, 100, 2000, 6000))
	}
	if r.P(50) {
		base := filepath.Base(graphNames[p.P["name"]])
		if graphNames[p.P["name"]] == "" || p.P["args"] == 1 {
			base = "query_graph.svg"
		}
		f := &simos.Fault{Base: base, Op: r.Pick("open", "write", "write", "write", "close"), Cnt: r.PickI(0, 1, 1, 2)}
		switch f.Op {
		case "open":
			f.Kind = r.Pick("EACCES", "EMFILE", "EIO", "ENOSPC", "ENOENT")
		default:
			f.Kind = r.Pick("ENOSPC", "ENOSPC", "EIO", "EDQUOT")
			f.At = int64(r.N(r.PickI(1, 2, 500, 3000, 12000)))
		}
		p.Faults = append(p.Faults, f)
	}
	p.Tasks = [][]Op{{{K: "main"}}}
	p.Sched = genSched(r, 1)
}

func execGraphCmd(c *Ctx, p *Plan) {
	dir := c.Scratch
	os.RemoveAll(dir)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll(filepath.Join(dir, "d"), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "dir.dot"), 0o755))
	must(os.Symlink("/dev/full", filepath.Join(dir, "full.svg")))
	defer os.RemoveAll(dir)
	was, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer os.Chdir(was)
	simos.Set(nil)
	text := string(p.Texts[0])
	ref := renderAlone(dir, text)
	os.Remove(filepath.Join(dir, "alone.out"))
	if ref.bad != "" {
		c.Fail("alone", "query %q: %s", text, ref.bad)
		return
	}
	name := graphNames[p.P["name"]%len(graphNames)]
	args := []string{"aqlgraph", text, name, "more"}[:1+p.P["args"]%4]
	if name == "" && len(args) > 2 {
		args = args[:2]
	}
	target := "query_graph.svg"
	if len(args) > 2 {
		target = name
	}
	why := ""     // why it has to fail
	touch := true // whether it may touch the file all the same
	want := ref.out[0]
	switch strings.ToLower(filepath.Ext(target)) {
	case ".svg":
	case ".dot":
		want = ref.out[1]
	default:
		why, touch = "unknown format", false
	}
	if len(args) < 2 {
		why, touch = "no query", false
	} else if ref.err != nil {
		why, touch = "query does not parse", false
	}
	switch {
	case strings.HasPrefix(name, "missing/") && target == name:
		why = "directory missing"
	case name == "full.svg" && target == name:
		why = "device full"
	case name == "dir.dot" && target == name:
		why = "target is a directory"
	}
	regular := why != "device full" && why != "directory missing" && target != "dir.dot" && target != "full.svg" && !strings.HasPrefix(target, "missing/")
	old := ""
	if regular && p.P["old"] > 0 {
		old = strings.Repeat("old\n", 4+2000*(p.P["old"]-1))
		if p.P["old"] == 2 && want != "" {
			old = strings.Repeat("o", len(want))
		}
		must(os.WriteFile(target, []byte(old), 0o644))
	}
	// files that are not the target's business
	others := map[string]string{}
	for i, n := range []string{"query_graph.svg", "out.svg", "out.dot", "d/other.svg"} {
		if n != target && p.P["others"]>>i&1 == 1 {
			others[n] = "keep " + n
			must(os.WriteFile(n, []byte(others[n]), 0o644))
		}
	}
	limit := p.P["limit"]
	if limit > 0 && limit < len(want) && why == "" {
		why = fmt.Sprintf("file size limited to %d", limit)
	}
	w := &simos.World{Root: dir, Args: args}
	for _, f := range p.Faults {
		g := *f
		w.AddFault(&g)
	}
	log.SetOutput(io.Discard)
	simflag.Reset()
	simos.Set(w)
	panicked := ""
	if limit > 0 {
		limitSize(uint64(limit))
	}
	c.Run([]func(){func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprint(r)
			}
		}()
		command.SimMain()
	}})
	if limit > 0 {
		limitSize(^uint64(0))
	}
	simos.Set(nil)
	code := 0
	if ex, n := w.Exit(); ex {
		code = n
	}
	if panicked != "" {
		code = 2
	}
	c.Mix(uint64(code))
	fired := 0
	for i, f := range w.Faults() {
		fired += f.Fired()
		c.FaultFired("graph:"+p.Faults[i].Op+":"+p.Faults[i].Kind, f.Fired())
	}
	desc := fmt.Sprintf("arguments %q, faults %s", args[1:], faultList(w.Faults()))
	if s := w.Escaped(); s != "" {
		c.Fail("wrote", "%s: tried to write %s", desc, s)
		return
	}
	var got []byte
	var rerr error
	if regular { // /dev/full can be read without end
		got, rerr = os.ReadFile(target)
	}
	var left string
	filepath.WalkDir(".", func(path string, e os.DirEntry, err error) error {
		if err != nil || path == target || e.IsDir() || path == "full.svg" {
			return nil
		}
		b, rerr := os.ReadFile(path)
		if o, ok := others[path]; rerr != nil || ok && string(b) != o {
			left = path + " was changed"
		} else if !ok && code == 0 {
			left = path + " was left"
		}
		delete(others, path)
		return nil
	})
	for n := range others {
		left = n + " was removed"
	}
	if left != "" {
		c.Fail("others", "%s: exit status %d, and the file %s", desc, code, left)
		return
	}
	if why != "" {
		c.FaultFired("command:"+strings.Fields(why)[0], 1)
		if code == 0 {
			c.Fail("status", "%s: exit status 0 although %s", desc, why)
			return
		}
		if !touch && regular && (string(got) != old || old == "" && rerr == nil) {
			c.Fail("touched", "%s: the file was changed although %s", desc, why)
		}
		return
	}
	if code != 0 {
		if fired == 0 {
			c.Fail("status", "%s: exit status %d (panic %q), want success", desc, code, panicked)
		}
		return
	}
	c.Count("outputs", 1)
	if rerr != nil || string(got) != want {
		c.Fail("graph", "%s: exit status 0, but %s has %d bytes instead of %d (%v, %d faults fired): %s", desc, target, len(got), len(want), rerr, fired, firstDiff(string(got), want))
	}
}

func faultList(fs []*simos.Fault) string {
	var parts []string
	for _, f := range fs {
		parts = append(parts, fmt.Sprintf("%s of %s: %s at byte %d", f.Op, f.Base, f.Kind, f.At))
	}
	return "[" + strings.Join(parts, ", ") + "]"
}
