//go:build wgraph

package h

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"

	"vsim/simos"
	"vsim/simrt"

	"github.com/flowchartsman/aql/aqlgraph"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func init() {
	Scenarios["C14"] = &Scenario{Gen: genGraph, Exec: execGraph, Race: func(c *Ctx, rep string) bool {
		return strings.Contains(rep, "simrt.Touch") || strings.Contains(rep, "aqlgraph")
	}}
	signal.Ignore(syscall.SIGXFSZ)
}

// Operations: build(text) out(graph, format, target, file id, size limit).
const (
	toFile = iota
	toMissingDir
	toDirectory
	toFull
	toReadOnlyName
)

func genGraph(r *Rng, p *Plan) {
	p.Kind = "graph"
	nt := r.PickI(1, 1, 1, 2, 2, 3, 4)
	for i, n := 0, r.Between(2, 6); i < n; i++ {
		s := genQuery(r, r.PickI(1, 1, 2, 3, 5, 12), 3).Text(r)
		switch {
		case r.P(20):
			s = string(genBadText(r, s))
		case i > 0 && r.P(35):
			s = string(siblingText(r, string(p.Texts[r.N(len(p.Texts))])))
		case r.P(3):
			s = genRow(r, r.PickI(30, 60, 110)).Text(r)
		case r.P(15):
			s += r.Pick(` OR a:"<b>&amp;</b>"`, ` AND "x<y":"\"q\""`, ` OR été:"大懒虫 & >"`, ` OR a:"\\n\\N\\L"`, ` OR a:"{|}"`, ` OR a:("<TABLE>","</TABLE>")`)
		}
		if strings.Count(s, "(") > 3 {
			s = genQuery(r, 2, 1).Text(r)
		}
		s = strings.ToValidUTF8(s, "?")
		p.Texts = append(p.Texts, Bytes(strings.ReplaceAll(s, "\x00", "")))
	}
	p.P["shared"] = r.PickI(0, 0, 1, 2)
	if r.P(25) {
		p.P["fresh"] = 1 + r.N(1000)
	}
	id := 0
	for t := 0; t < nt; t++ {
		ops := []Op{{K: "build", N: []int{r.N(len(p.Texts))}}}
		first := id
		for i, n := 0, r.PickI(2, 4, 8, 16); i < n; i++ {
			if r.P(30) {
				ops = append(ops, Op{K: "build", N: []int{r.N(len(p.Texts))}})
				continue
			}
			target := toFile
			if r.P(25) {
				target = r.PickI(toMissingDir, toDirectory, toFull, toFull, toReadOnlyName)
			}
			f := id
			if id > first && r.P(25) {
				f = first + r.N(id-first) // overwrite an earlier file of this task
			} else {
				id++
			}
			limit := 0
			if nt == 1 && target == toFile && r.P(20) {
				limit = 1 + r.N(r.PickI(1, 100, 2000, 6000, 20000))
			}
			before := 0
			if target == toFile && r.P(20) {
				before = r.PickI(1, 2, 2, 3, 4, 5000, 40000)
			}
			ops = append(ops, Op{K: "out", N: []int{r.N(8), r.N(2), target, f, limit, before}})
			if len(p.Faults) < 14 && target == toFile && r.P(35) {
				fl := &simos.Fault{Base: fmt.Sprintf("f%d.out", f), Op: r.Pick("open", "write", "write", "write", "close"), Cnt: r.PickI(0, 1, 1, 2)}
				switch fl.Op {
				case "open":
					fl.Kind = r.Pick("EACCES", "EMFILE", "EIO", "ENOSPC", "ENOENT")
				default:
					fl.Kind = r.Pick("ENOSPC", "ENOSPC", "EIO", "EDQUOT")
					fl.At = int64(r.N(r.PickI(1, 2, 500, 3000, 12000)))
				}
				p.Faults = append(p.Faults, fl)
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

func countNodes(n ast.Node) int {
	switch x := n.(type) {
	case *ast.NotNode:
		return 1 + countNodes(x.Expr)
	case *ast.AndNode:
		return 1 + countNodes(x.Left) + countNodes(x.Right)
	case *ast.OrNode:
		return 1 + countNodes(x.Left) + countNodes(x.Right)
	}
	return 1
}

// graphRef has the renderings of a query that was built and written alone.
type graphRef struct {
	err  error
	out  [2]string
	bad  string
	form int
}

func plainText(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, c := range s {
		if unicode.IsControl(c) && c != '\n' && c != '\t' && c != '\r' || c == 0xfffd || c == 0xfffe || c == 0xffff {
			return false
		}
	}
	return true
}

func renderAlone(dir, text string) (ref graphRef) {
	g, err := aqlgraph.QueryGraph(text)
	root, perr := parser.ParseQuery(text)
	ref.err = err
	if (err == nil) != (perr == nil) {
		ref.bad = fmt.Sprintf("QueryGraph error %v, ParseQuery error %v", err, perr)
		return
	}
	if err != nil {
		return
	}
	if g == nil {
		ref.bad = "no graph and no error"
		return
	}
	for k := 0; k < 2; k++ {
		f := filepath.Join(dir, "alone.out")
		os.Remove(f)
		var err error
		if k == 0 {
			err = g.OutputSVG(f)
		} else {
			err = g.OutputDOT(f)
		}
		b, rerr := os.ReadFile(f)
		if err != nil || rerr != nil {
			ref.bad = fmt.Sprintf("writing alone without any fault failed: %v %v", err, rerr)
			return
		}
		ref.out[k] = string(b)
	}
	n := countNodes(root)
	svg := ref.out[0]
	if a, b := strings.Count(svg, `class="node"`), strings.Count(svg, `class="edge"`); a != n+1 || b != n || !strings.HasSuffix(strings.TrimSpace(svg), "</svg>") {
		ref.bad = fmt.Sprintf("svg of %d nodes has %d node and %d edge elements:\n%s", n, a, b, svg)
	}
	if plainText(text) {
		d := xml.NewDecoder(strings.NewReader(svg))
		d.Strict = true
		for {
			if _, err := d.Token(); err == io.EOF {
				break
			} else if err != nil {
				ref.bad = fmt.Sprintf("svg is not well-formed: %v:\n%s", err, svg)
				break
			}
		}
	}
	dot := strings.TrimSpace(ref.out[1])
	if !strings.HasPrefix(dot, "digraph") || !strings.HasSuffix(dot, "}") || strings.Count(dot, "\n}") != 1 {
		ref.bad = fmt.Sprintf("dot is not complete:\n%s", dot)
	}
	return
}

func execGraph(c *Ctx, p *Plan) {
	dir := c.Scratch
	os.RemoveAll(dir)
	if err := os.MkdirAll(filepath.Join(dir, "d"), 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := os.Symlink("/dev/full", filepath.Join(dir, "full")); err != nil {
		panic(err)
	}
	simos.Set(nil)
	refs := make([]graphRef, len(p.Texts))
	for i, t := range p.Texts {
		refs[i] = renderAlone(dir, string(t))
		if refs[i].bad != "" {
			c.Fail("alone", "query %q: %s", t, refs[i].bad)
			return
		}
	}
	if f := p.P["fresh"]; f > 0 {
		i := f % len(p.Texts)
		in, _ := json.Marshal(graphJob{dir, p.Texts[i]})
		out, err := inFreshProcess(in)
		var res graphResult
		if err == nil && json.Unmarshal([]byte(out), &res) == nil {
			c.Count("fresh_process", 1)
			if res.Bad != refs[i].bad || res.Out != refs[i].out || res.Failed != (refs[i].err != nil) {
				c.Fail("history", "query %q: in a process of its own the result differs: %s %s %s", p.Texts[i], res.Bad, firstDiff(refs[i].out[0], res.Out[0]), firstDiff(refs[i].out[1], res.Out[1]))
				return
			}
		}
	}
	type graph struct {
		g *aqlgraph.Graph
		q int
	}
	var shared []graph
	for i := 0; i < p.P["shared"] && i < len(p.Texts); i++ {
		if g, err := aqlgraph.QueryGraph(string(p.Texts[i])); err == nil {
			shared = append(shared, graph{g, i})
		}
	}
	w := &simos.World{Root: dir}
	for _, f := range p.Faults {
		g := *f
		w.AddFault(&g)
	}
	simos.Set(w)
	firedFor := func(base string) (n int) {
		for _, f := range w.Faults() {
			if f.Base == base {
				n += f.Fired()
			}
		}
		return
	}
	msgs := make([]string, len(p.Tasks))
	outs := make([]int, len(p.Tasks))
	errs := make([]int, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			mine := append([]graph(nil), shared...)
			fail := func(f string, a ...any) {
				if msgs[ti] == "" {
					msgs[ti] = fmt.Sprintf(f, a...)
				}
			}
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				simrt.YS()
				if op.K == "build" {
					q := op.I(0)
					if q >= len(p.Texts) {
						continue
					}
					g, err := aqlgraph.QueryGraph(string(p.Texts[q]))
					if (err == nil) != (refs[q].err == nil) {
						fail("building the graph of %q: error %v, alone %v", p.Texts[q], err, refs[q].err)
						return
					}
					if err == nil {
						mine = append(mine, graph{g, q})
					}
					continue
				}
				if len(mine) == 0 {
					continue
				}
				g := mine[(len(mine)-1+op.I(0))%len(mine)]
				if op.I(0) > 4 {
					g = mine[len(mine)-1]
				}
				base := fmt.Sprintf("f%d.out", op.I(3))
				file := filepath.Join(dir, base)
				broken := "" // what is wrong with the target
				switch op.I(2) {
				case toMissingDir:
					file = filepath.Join(dir, "missing", base)
					broken = "directory missing"
				case toDirectory:
					file = filepath.Join(dir, "d")
					broken = "target is a directory"
				case toFull:
					file = filepath.Join(dir, "full")
					broken = "device full"
				case toReadOnlyName:
					file = filepath.Join(dir, strings.Repeat("n", 300))
					broken = "name too long"
				}
				want := refs[g.q].out[op.I(1)]
				if op.I(5) > 0 && op.I(2) == toFile { // something else is there already
					old := strings.Repeat("old\n", op.I(5)/4+1)
					switch op.I(5) {
					case 2: // of the same size
						old = strings.Repeat("o", len(want))
					case 3: // that begins and ends like it
						old = want
						if n := len(old); n > 400 {
							old = old[:n/2] + "*" + old[n/2+1:]
						}
					case 4: // that has more
						old = want + want
					}
					os.WriteFile(file, []byte(old), 0o644)
				}
				limit := op.I(4)
				if limit > 0 && limit < len(want) {
					broken = fmt.Sprintf("file size limited to %d", limit)
				}
				before := firedFor(base)
				if limit > 0 {
					limitSize(uint64(limit))
				}
				var err error
				if op.I(1) == 0 {
					err = g.g.OutputSVG(file)
				} else {
					err = g.g.OutputDOT(file)
				}
				if limit > 0 {
					limitSize(^uint64(0))
				}
				fired := firedFor(base) - before
				outs[ti]++
				if err != nil {
					errs[ti]++
					if broken == "" && fired == 0 {
						fail("output of %q to %s failed without a fault: %v", p.Texts[g.q], base, err)
						return
					}
					continue
				}
				st, serr := os.Lstat(file)
				if serr != nil || !st.Mode().IsRegular() {
					fail("output of %q reported success, but there is no file (%s)", p.Texts[g.q], broken)
					return
				}
				b, rerr := os.ReadFile(file)
				if rerr != nil || string(b) != want {
					fail("output of %q (format %d) reported success, but the file has %d bytes instead of %d (%s; %d faults fired): %s", p.Texts[g.q], op.I(1), len(b), len(want), broken, fired, firstDiff(string(b), want))
					return
				}
			}
		})
	}
	c.Run(fns)
	simos.Set(nil)
	for i, f := range w.Faults() {
		c.FaultFired("graph:"+p.Faults[i].Op+":"+p.Faults[i].Kind, f.Fired())
	}
	for ti, m := range msgs {
		c.Count("outputs", outs[ti])
		c.FaultFired("graph:failed output", errs[ti])
		if m != "" {
			c.Fail("graph", "task %d: %s", ti, m)
			return
		}
	}
	if s := w.Escaped(); s != "" {
		c.Fail("wrote", "tried to write %s", s)
		return
	}
	if now, _, _ := w.Open(); now != 0 {
		c.Fail("leak", "%d files left open", now)
		return
	}
	for i, t := range p.Texts {
		if again := renderAlone(dir, string(t)); again.bad != "" || again.out != refs[i].out {
			c.Fail("later", "query %q: a graph built and written after the run differs: %s %s %s", t, again.bad, firstDiff(again.out[0], refs[i].out[0]), firstDiff(again.out[1], refs[i].out[1]))
			return
		}
	}
}

type graphJob struct {
	Dir  string
	Text Bytes
}

type graphResult struct {
	Out    [2]string
	Bad    string
	Failed bool
}

func init() {
	alone = func(in []byte) string {
		var j graphJob
		if json.Unmarshal(in, &j) != nil {
			os.Exit(4)
		}
		ref := renderAlone(j.Dir, string(j.Text))
		out, err := json.Marshal(graphResult{ref.out, ref.bad, ref.err != nil})
		if err != nil {
			os.Exit(4)
		}
		return string(out)
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i == len(a) && i == len(b) {
		return ""
	}
	end := func(s string) string {
		if len(s) > i+60 {
			return s[i : i+60]
		}
		return s[i:]
	}
	return fmt.Sprintf("at byte %d: %q instead of %q", i, end(a), end(b))
}

func limitSize(n uint64) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	l.Cur = n
	if n > l.Max {
		l.Cur = l.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
}
