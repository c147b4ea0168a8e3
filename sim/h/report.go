//go:build wcli

package h

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"vsim/simflag"
	"vsim/simos"

	aqltest "github.com/flowchartsman/aql/cmd/aqltest"
	"github.com/flowchartsman/aql/jsonmatcher"
)

func init() {
	Scenarios["C28"] = &Scenario{Gen: genReport, Exec: execReport}
}

func genReport(r *Rng, p *Plan) {
	p.Kind = "report"
	q := genQuery(r, r.PickI(1, 1, 2, 3, 5, 8, 16), 3)
	p.Queries, p.Texts = []*Q{q}, []Bytes{Bytes(strings.ReplaceAll(q.Text(r), "\x00", ""))}
	if r.P(15) {
		p.Docs = []Bytes{genBigDoc(r, r.PickI(600, 5000, 70000))}
	} else {
		p.Docs = []Bytes{genDoc(r)}
	}
	if r.P(30) {
		p.P["qfile"] = 1
	}
	for i, n := 0, r.PickI(0, 1, 1, 1, 2); i < n; i++ {
		f := &simos.Fault{Base: "stdout", Op: "write", Kind: r.Pick("ENOSPC", "EIO", "EDQUOT"), Cnt: r.PickI(0, 0, 1, 1, 2)}
		f.At = int64(r.N(r.PickI(1, 2, 6, 8, 100, 400, 2000)))
		p.Faults = append(p.Faults, f)
	}
	p.Tasks = [][]Op{{{K: "main"}}}
	p.Sched = genSched(r, 1)
}

func execReport(c *Ctx, p *Plan) {
	dir := c.Scratch
	os.RemoveAll(dir)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	text, doc := string(p.Texts[0]), []byte(p.Docs[0])
	qarg, dname := text, filepath.Join(dir, "doc.json")
	if p.P["qfile"] == 1 || strings.HasSuffix(text, ".aql") {
		qarg = filepath.Join(dir, "q.aql")
		must(os.WriteFile(qarg, []byte(text), 0o644))
	}
	must(os.WriteFile(dname, doc, 0o644))
	w := &simos.World{Root: dir, Args: []string{"aqltest", qarg, dname}}
	for _, f := range p.Faults {
		g := *f
		w.AddFault(&g)
	}
	log.SetOutput(io.Discard)
	simflag.Reset()
	simos.Set(w)
	panicked := ""
	c.Run([]func(){func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprint(r)
			}
		}()
		aqltest.SimMain()
	}})
	simos.Set(nil)
	code := 0
	if ex, n := w.Exit(); ex {
		code = n
	}
	if panicked != "" {
		code = 2
	}
	out := w.Output()
	c.Mix(uint64(code))
	c.Mix(hashStr(out))
	fired := 0
	for _, f := range w.Faults() {
		fired += f.Fired()
		c.FaultFired("output:"+f.Kind, f.Fired())
	}
	desc := fmt.Sprintf("query %q document %s faults %s", text, clip(doc), faultText(w.Faults()))
	m, err := jsonmatcher.NewMatcher(text)
	if err != nil {
		c.Fail("rejected", "valid query %q was rejected: %v", text, err)
		return
	}
	verdict, err := m.Match(append([]byte(nil), doc...))
	if err != nil {
		c.Fail("refused", "%s: valid document was rejected: %v", desc, err)
		return
	}
	if t := p.Queries[0].Eval(ParseDoc(doc)); t != Unk {
		verdict = t == True
	}
	if code != 0 {
		if fired == 0 {
			c.Fail("status", "%s: exit status %d (panic %q), want success", desc, code, panicked)
		}
		if first, _, _ := strings.Cut(out, "\n"); first == fmt.Sprint(!verdict) {
			c.Fail("opposite", "%s: exit status %d, but the verdict %s was printed", desc, code, first)
		}
		return
	}
	c.Count("reports", 1)
	first, rest, _ := strings.Cut(out, "\n")
	if first != fmt.Sprint(verdict) {
		c.Fail("lost", "%s: exit status 0, but the first line printed is %q, want %v", desc, clip([]byte(first)), verdict)
		return
	}
	raw, err := json.Marshal(m.Stats())
	must(err)
	var got, want any
	must(json.Unmarshal(raw, &want))
	if err := json.Unmarshal([]byte(rest), &got); err != nil || !reflect.DeepEqual(got, want) {
		c.Fail("report", "%s: exit status 0, but the statistics printed are %s, want %s (%v)", desc, clip([]byte(rest)), clip(raw), err)
	}
}
