//go:build wcore

package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"vsim/simrt"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

func init() {
	Scenarios["C27"] = &Scenario{Gen: genShared, Exec: execShared, Race: raceAny}
}

// Operations on the shared results of parsing: read(text, how), and calls
// that go on beside them: parse, own, new, other.
const readWays = 9

func genShared(r *Rng, p *Plan) {
	p.Kind = "shared"
	nt := r.PickI(2, 2, 3, 4, 6, 8)
	for i, n := 0, r.Between(1, 4); i < n; i++ {
		switch {
		case i > 0 && r.P(35):
			p.Queries = append(p.Queries, nil)
			p.Texts = append(p.Texts, siblingText(r, string(p.Texts[r.N(len(p.Texts))])))
		case r.P(15):
			q := genQuery(r, r.PickI(1, 2, 3), 1)
			p.Queries = append(p.Queries, nil)
			p.Texts = append(p.Texts, genBadText(r, q.Text(r)))
		case r.P(4):
			q := genRow(r, r.PickI(20, 60, 130))
			p.Queries, p.Texts = append(p.Queries, q), append(p.Texts, Bytes(q.Text(nil)))
		default:
			q := genQuery(r, r.PickI(1, 1, 2, 3, 5, 8), 2)
			p.Queries, p.Texts = append(p.Queries, q), append(p.Texts, Bytes(q.Text(r)))
		}
	}
	p.P["touched"] = r.N(3) // 1: read before the tasks start, 2: read once by the first task
	for t := 0; t < nt; t++ {
		var ops []Op
		if t == 0 && p.P["touched"] == 2 {
			for k := range p.Texts {
				ops = append(ops, Op{K: "read", N: []int{k, r.N(readWays)}})
			}
		}
		for i, n := 0, r.PickI(2, 4, 8, 16); i < n; i++ {
			k := r.N(len(p.Texts))
			switch r.N(9) {
			case 0:
				ops = append(ops, Op{K: "parse", N: []int{k}})
			case 8:
				ops = append(ops, Op{K: "own", N: []int{k}})
			case 1:
				ops = append(ops, Op{K: "new", N: []int{k}})
			case 2:
				ops = append(ops, Op{K: "other", S: []Bytes{siblingText(r, string(p.Texts[k]))}})
			default:
				ops = append(ops, Op{K: "read", N: []int{k, r.N(readWays)}})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

// parsed is what a parse returned, for many readers.
type parsed struct {
	text string
	root ast.Node
	err  error
	mv   *parser.MessageVisitor
	msgs []*parser.ParserMessage
	fm   *fmtmsg.Formatter
}

func parseShared(text string) *parsed {
	x := &parsed{text: text, fm: fmtmsg.NewTerminalFormatter(0)}
	x.mv = parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
		if e, ok := n.(*ast.ExprNode); ok {
			// the text of the node is left for the readers
			t.HintWith(e, "at %s", strings.Join(e.Field, "/"))
			t.WarningAt(e.Pos(), "node")
		}
		return nil
	})
	x.root, x.err = parser.ParseQuery(text, parser.Visitors(x.mv))
	x.msgs = x.mv.Messages()
	return x
}

// read looks at the result in one of several ways and describes what it saw.
func (x *parsed) read(how int) string {
	var b strings.Builder
	if x.err != nil {
		var pe *parser.ParseError
		if !errors.As(x.err, &pe) {
			return x.err.Error()
		}
		switch how % 4 {
		case 0:
			return pe.Error()
		case 1:
			return fmt.Sprintf("%s %+v", pe.Message(), pe.Pos())
		case 2:
			j, err := json.Marshal(pe)
			return fmt.Sprint(string(j), err)
		}
		if !ascii(x.text) {
			return ""
		}
		return x.fm.WithQuery(x.text).Sprint(pe)
	}
	leaves := func(f func(e *ast.ExprNode)) {
		var rec func(n ast.Node)
		rec = func(n ast.Node) {
			switch y := n.(type) {
			case *ast.AndNode:
				rec(y.Left)
				rec(y.Right)
			case *ast.OrNode:
				rec(y.Left)
				rec(y.Right)
			case *ast.NotNode:
				rec(y.Expr)
			case *ast.ExprNode:
				f(y)
			}
		}
		rec(x.root)
	}
	switch how {
	case 0:
		return dump(x.root)
	case 1:
		return x.root.String()
	case 2:
		j, err := json.Marshal(x.root)
		return fmt.Sprint(string(j), err)
	case 3:
		leaves(func(e *ast.ExprNode) {
			fmt.Fprintf(&b, "%s %s %+v %s;", e.FriendlyString(), e.String(), e.Pos(), ast.FieldString(e.Field))
		})
	case 4:
		leaves(func(e *ast.ExprNode) {
			for _, v := range e.RVals {
				switch y := v.(type) {
				case *ast.IntVal:
					fmt.Fprint(&b, y.Value())
				case *ast.FloatVal:
					fmt.Fprint(&b, y.Value())
				case *ast.StringVal:
					fmt.Fprint(&b, y.Value())
				case *ast.BoolVal:
					fmt.Fprint(&b, y.Value())
				case *ast.NetVal:
					fmt.Fprint(&b, y.Value())
				case *ast.TimeVal:
					fmt.Fprint(&b, y.Value().UTC(), y.DayOnly())
				case *ast.RegexpVal:
					fmt.Fprint(&b, y.Value().MatchString("alpha beta"), y.Value().FindStringIndex("hello 123 world"), y.Value())
				}
				b.WriteByte(' ')
			}
		})
	case 5:
		leaves(func(e *ast.ExprNode) {
			for i := len(e.RVals) - 1; i >= 0; i-- {
				v := e.RVals[i]
				fmt.Fprintf(&b, "%s %v %+v;", v.String(), v.Type(), v.Pos())
			}
		})
	case 6:
		for _, m := range x.msgs {
			fmt.Fprintf(&b, "%s %s %+v;", m.String(), m.Message(), m.Pos())
		}
	case 7:
		j, err := json.Marshal(x.mv.Messages())
		return fmt.Sprint(string(j), err)
	case 8:
		if ascii(x.text) {
			for i, m := range x.msgs {
				x.fm.WithQuery(x.text).Fprint(&faultWriter{left: 3 * i, mode: 2}, m)
				b.WriteString(x.fm.WithQuery(x.text).Sprint(m))
			}
		}
	}
	return b.String()
}

func execShared(c *Ctx, p *Plan) {
	shared := make([]*parsed, len(p.Texts))
	for i, t := range p.Texts {
		shared[i] = parseShared(string(t))
		if p.P["touched"] == 1 {
			for k := 0; k < readWays; k++ {
				shared[i].read(k)
			}
		}
	}
	type sobs struct {
		op  *Op
		out string
	}
	all := make([][]sobs, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				simrt.YS()
				o := sobs{op: op}
				switch op.K {
				case "read":
					o.out = shared[op.I(0)].read(op.I(1) % readWays)
				case "parse":
					parseShared(string(p.Texts[op.I(0)]))
				case "own":
					// a parse whose result the caller changes
					if n, err := parser.ParseQuery(string(p.Texts[op.I(0)])); err == nil {
						spoil(n)
					}
				case "other":
					parser.ParseQuery(string(op.B(0)))
				case "new":
					if m, err := jsonmatcher.NewMatcher(string(p.Texts[op.I(0)])); err == nil {
						m.Match([]byte(`{"a":"alpha","b":5,"n":{"x":1}}`))
					}
				}
				all[ti] = append(all[ti], o)
			}
		})
	}
	c.Run(fns)
	want := make([][readWays]string, len(p.Texts))
	for i, t := range p.Texts {
		fresh := parseShared(string(t))
		if q := p.Queries[i]; q != nil {
			if fresh.err != nil {
				c.Fail("rejected", "valid query %s was rejected: %v", clip(t), fresh.err)
				return
			}
			if s := fresh.root.String(); s != q.SExpr() {
				c.Fail("tree", "query %s gave tree %s, want %s", clip(t), s, q.SExpr())
				return
			}
		}
		for k := range want[i] {
			want[i][k] = fresh.read(k)
		}
	}
	for ti := range all {
		for _, o := range all[ti] {
			c.Count("ops_"+o.op.K, 1)
			if o.op.K != "read" {
				continue
			}
			c.Mix(hashStr(o.out))
			if w := want[o.op.I(0)][o.op.I(1)%readWays]; w != o.out {
				c.Fail("shared", "task %d: reading (way %d) the shared result of %s gave %s, a fresh one alone gives %s", ti, o.op.I(1), clip(p.Texts[o.op.I(0)]), clip([]byte(o.out)), clip([]byte(w)))
				return
			}
		}
	}
	for i, x := range shared {
		for k := range want[i] {
			if s := x.read(k); s != want[i][k] {
				c.Fail("changed", "the result of parsing %s changed: reading (way %d) gives %s, a fresh one %s", clip(p.Texts[i]), k, clip([]byte(s)), clip([]byte(want[i][k])))
				return
			}
		}
	}
}
