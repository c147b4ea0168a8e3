//go:build wcore

package h

import (
	"fmt"

	"vsim/simos"
	"vsim/simrt"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func init() {
	Scenarios["C31"] = &Scenario{Gen: genTrace, Exec: execTrace, Race: raceAny}
}

// Operations: trace (text, with visitors) parses with tracing; the others are
// those of compileOp and match, which must not print anything.
func genTrace(r *Rng, p *Plan) {
	p.Kind = "trace"
	nt := r.PickI(1, 2, 2, 3)
	for i, n := 0, r.Between(1, 3); i < n; i++ {
		q := genQuery(r, r.PickI(1, 1, 1, 2), 1)
		if r.P(25) {
			p.Queries, p.Texts = append(p.Queries, nil), append(p.Texts, genBadText(r, q.Text(r)))
			continue
		}
		p.Queries, p.Texts = append(p.Queries, q), append(p.Texts, Bytes(q.Text(r)))
	}
	traces := r.PickI(0, 1, 1, 2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.PickI(1, 2, 4, 8); i < n; i++ {
			k := r.N(len(p.Texts))
			switch {
			case traces > 0 && r.P(30):
				traces--
				ops = append(ops, Op{K: "trace", N: []int{k, r.N(4)}})
			case r.P(20):
				ops = append(ops, Op{K: "match", N: []int{k}})
			case r.P(20):
				ops = append(ops, Op{K: "visit", N: []int{k, 0}})
			default:
				ops = append(ops, Op{K: r.Pick("parse", "parse", "new", "reader"), N: []int{k}})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(50) {
		f := &simos.Fault{Base: "stdout", Op: "write", Kind: r.Pick("ENOSPC", "EIO", "EDQUOT"), Cnt: r.PickI(0, 0, 1, 50)}
		f.At = int64(r.N(r.PickI(1, 60, 2000, 100000)))
		p.Faults = append(p.Faults, f)
	}
	p.Sched = genSched(r, nt)
	if p.Sched.SyncP > 10 {
		p.Sched.SyncP = 10 // every line printed is one
	}
}

func traceOp(op *Op, text string, debug bool) string {
	switch op.K {
	case "trace":
		var opts []parser.Option
		seen := ""
		v := parser.VisitorFunc(func(n ast.Node) error { seen += n.String() + "\n"; return nil })
		if op.I(1)&1 == 1 {
			opts = append(opts, parser.Visitors(v))
		}
		if debug {
			opts = append(opts, parser.Debug())
		}
		if op.I(1)&2 == 2 {
			opts = append(opts, parser.Visitors(v))
		}
		n, err := parser.ParseQuery(text, opts...)
		return dump(n) + "|" + errText(err) + "|" + seen
	case "match":
		m, err := jsonmatcher.NewMatcher(text)
		if err != nil {
			return errText(err)
		}
		ok, err := m.Match([]byte(`{"a":"alpha","b":5,"n":{"x":1},"user":{"name":"bob"}}`))
		bad, err2 := m.Match([]byte(`{"a":`))
		return fmt.Sprint(ok, err, bad, err2, statNames(m.Stats()))
	}
	return compileOp(op, text, nil)
}

func execTrace(c *Ctx, p *Plan) {
	w := &simos.World{Root: c.Scratch}
	for _, f := range p.Faults {
		g := *f
		w.AddFault(&g)
	}
	all := make([][]parseObs, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				simrt.YS()
				all[ti] = append(all[ti], parseObs{op: op, tree: traceOp(op, string(p.Texts[op.I(0)]), true)})
			}
		})
	}
	simos.Set(w)
	c.Run(fns)
	simos.Set(nil)
	fired := 0
	for _, f := range w.Faults() {
		fired += f.Fired()
		c.FaultFired("output:"+f.Kind, f.Fired())
	}
	type printed struct {
		total int64
		sum   uint64
	}
	lone := map[string]printed{}
	wants := map[string]string{}
	var want printed
	traces := 0
	for ti := range all {
		for _, o := range all[ti] {
			text := string(p.Texts[o.op.I(0)])
			c.Count("ops_"+o.op.K, 1)
			k := fmt.Sprint(o.op.K, o.op.N, text)
			res, ok := wants[k]
			if !ok {
				x := &simos.World{Root: c.Scratch}
				simos.Set(x)
				res = traceOp(o.op, text, false)
				simos.Set(nil)
				wants[k] = res
				if x.Total > 0 {
					c.Fail("printed", "%s of %s printed %q to standard output", o.op.K, clip([]byte(text)), clip([]byte(x.Output())))
					return
				}
			}
			if res != o.tree {
				c.Fail("result", "task %d: %s of %s gave %s, alone and untraced it gives %s", ti, o.op.K, clip([]byte(text)), o.tree, res)
				return
			}
			if q := p.Queries[o.op.I(0)]; q != nil && o.op.K == "parse" {
				if n, err := parser.ParseQuery(text); err != nil || n.String() != q.SExpr() {
					c.Fail("tree", "query %s gave %s (%v), want %s", clip([]byte(text)), dump(n), err, q.SExpr())
					return
				}
			}
			if o.op.K != "trace" {
				continue
			}
			traces++
			pr, ok := lone[text]
			if !ok {
				x := &simos.World{Root: c.Scratch}
				simos.Set(x)
				traceOp(o.op, text, true)
				simos.Set(nil)
				pr = printed{x.Total, x.Sum}
				lone[text] = pr
			}
			want.total += pr.total
			want.sum += pr.sum
		}
	}
	if fired == 0 && (want != printed{w.Total, w.Sum}) {
		c.Fail("trace", "%d traced parses printed %d bytes (sum %x), each alone prints %d in all (sum %x)", traces, w.Total, w.Sum, want.total, want.sum)
	}
}
