//go:build wcli

package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"vsim/simflag"
	"vsim/simos"

	aqltest "github.com/flowchartsman/aql/cmd/aqltest"
	"github.com/flowchartsman/aql/jsonmatcher"
)

func init() {
	Scenarios["C15"] = &Scenario{Gen: genCLI, Exec: execCLI}
}

var readKinds = []string{"EIO", "EIO", "EACCES", "ESTALE", "ENOSPC", "EISDIR"}

func genCLI(r *Rng, p *Plan) {
	p.Kind = "cli"
	p.P["args"] = 2
	if r.P(4) {
		p.P["args"] = r.PickI(0, 1, 3, 4)
	}
	var text string
	if r.P(75) {
		q := genQuery(r, r.PickI(1, 2, 3, 5, 8), 3)
		text = q.Text(r)
		p.Queries = append(p.Queries, q)
	} else {
		text = string(genBadText(r, genQuery(r, r.PickI(1, 2, 4), 3).Text(r)))
	}
	if r.P(45) {
		p.P["qfile"] = r.PickI(1, 1, 1, 1, 1, 1, 1, 1, 2, 3)
	} else {
		text = strings.ReplaceAll(text, "\x00", "")
	}
	p.Texts = append(p.Texts, Bytes(text))
	var doc []byte
	switch {
	case r.P(10):
		doc = genOddDoc(r)
	case r.P(12):
		doc = genBigDoc(r, r.PickI(600, 2000, 5000, 20000, 70000))
	default:
		doc = genDoc(r)
	}
	if r.P(30) {
		at := r.N(1001)
		if r.P(35) {
			at = r.PickI(0, 999, 1000, 990)
		}
		doc = damage(damageKinds[r.N(len(damageKinds))], doc, at, r.N(64))
		p.P["damaged"] = 1
	}
	p.Docs = append(p.Docs, doc)
	if r.P(6) {
		p.P["doc"] = r.PickI(1, 2)
	}
	if r.P(12) {
		p.P["names"] = r.N(4)
	}
	fault := func(base string, n int) {
		f := &simos.Fault{Base: base, Op: "read", Kind: r.Pick(readKinds...)}
		switch r.N(8) {
		case 0:
			f.Op, f.Kind = "open", r.Pick("EIO", "EACCES", "ENOENT", "EMFILE")
		case 1, 2:
			f.Kind = "chop"
		case 3:
			f.At = int64(n)
		case 4:
			f.At = int64(min(n, r.PickI(0, 1, 511, 512, 513, 4096, 32768)))
		default:
			f.At = int64(r.N(n + 1))
		}
		p.Faults = append(p.Faults, f)
	}
	if p.P["qfile"] == 1 && r.P(45) {
		fault("q.aql", len(text))
	}
	if r.P(45) {
		fault("doc.json", len(doc))
	}
	p.Tasks = [][]Op{{{K: "main"}}}
	p.Sched = genSched(r, 1)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func execCLI(c *Ctx, p *Plan) {
	dir := c.Scratch
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	text, doc := string(p.Texts[0]), []byte(p.Docs[0])
	qname, dname := filepath.Join(dir, "q.aql"), filepath.Join(dir, "doc.json")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	why := "" // why no verdict can be given
	args := []string{"aqltest"}
	qarg := text
	switch p.P["qfile"] {
	case 1:
		must(os.WriteFile(qname, []byte(text), 0o644))
		qarg = qname
	case 2:
		qarg = qname
		why = "query file missing"
	case 3:
		must(os.Mkdir(qname, 0o755))
		qarg = qname
		why = "query file is a directory"
	default:
		if strings.HasSuffix(text, ".aql") {
			why = "query file missing"
		}
	}
	switch p.P["doc"] {
	case 0:
		must(os.WriteFile(dname, doc, 0o644))
	case 1:
		why = "document missing"
	case 2:
		must(os.Mkdir(dname, 0o755))
		why = "document is a directory"
	}
	for _, a := range []string{qarg, dname, dname, "x"}[:p.P["args"]] {
		args = append(args, a)
	}
	if p.P["args"] != 2 {
		why = "wrong number of arguments"
	}
	w := &simos.World{Root: dir, Args: args}
	for _, f := range p.Faults {
		g := *f
		w.AddFault(&g)
	}
	log.SetOutput(io.Discard)
	simflag.Reset()
	simos.Set(w)
	panicked := ""
	c.Run([]func(){func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprint(r)
			}
		}()
		aqltest.SimMain()
	}})
	simos.Set(nil)
	code := 0
	if ex, n := w.Exit(); ex {
		code = n
	}
	if panicked != "" {
		code = 2
	}
	fired := 0
	for i, f := range w.Faults() {
		n := f.Fired()
		if n == 0 {
			continue
		}
		c.FaultFired("file:"+p.Faults[i].Op+":"+p.Faults[i].Kind, n)
		if f.Kind != "chop" {
			fired += n
			why = fmt.Sprintf("%s of %s failed with %s at byte %d", f.Op, f.Base, f.Kind, f.At)
		}
	}
	var m *jsonmatcher.Matcher
	if why == "" {
		var err error
		if m, err = jsonmatcher.NewMatcher(text); err != nil {
			why = "query does not parse: " + err.Error()
			if len(p.Queries) > 0 {
				c.Fail("rejected", "valid query %q was rejected: %v", text, err)
				return
			}
			c.FaultFired("query:rejected", 1)
		}
	}
	if why == "" && !json.Valid(doc) {
		why = "document is damaged"
		c.FaultFired("document:damaged", 1)
	}
	if p.P["args"] != 2 || p.P["doc"] != 0 || p.P["qfile"] > 1 {
		c.FaultFired("file:absent", 1)
	}
	out := w.Output()
	var verdicts []string
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if l == "true" || l == "false" {
			verdicts = append(verdicts, l)
		}
	}
	c.Mix(uint64(code))
	c.Mix(hashStr(out))
	desc := fmt.Sprintf("query %q document %s faults %s", text, clip(doc), faultText(w.Faults()))
	if s := w.Escaped(); s != "" {
		c.Fail("wrote", "%s: tried to write %s", desc, s)
	}
	if p.P["doc"] == 0 {
		if b, err := os.ReadFile(dname); err != nil || !bytes.Equal(b, doc) {
			c.Fail("modified", "%s: the document file was changed", desc)
		}
	}
	if why != "" {
		c.Count("expected_failures", 1)
		if len(verdicts) > 0 {
			c.Fail("verdict", "%s: printed verdict %v (exit %d) although %s", desc, verdicts, code, why)
		} else if code == 0 {
			c.Fail("status", "%s: exit status 0 although %s", desc, why)
		}
		return
	}
	c.Count("expected_verdicts", 1)
	if code != 0 {
		c.Fail("status", "%s: exit status %d (panic %q), want success", desc, code, panicked)
		return
	}
	want, err := m.Match(append([]byte(nil), doc...))
	if err != nil {
		c.Fail("refused", "%s: valid document was rejected: %v", desc, err)
		return
	}
	if len(p.Queries) > 0 && p.P["damaged"] == 0 {
		if t := p.Queries[0].Eval(ParseDoc(doc)); t != Unk {
			c.Count("model_decided", 1)
			want = t == True
		}
	}
	if len(verdicts) != 1 || verdicts[0] != fmt.Sprint(want) {
		c.Fail("verdict", "%s: printed %v, want %v", desc, verdicts, want)
	}
}

func faultText(fs []*simos.Fault) string {
	b, _ := json.Marshal(fs)
	return string(b)
}
