//go:build wcore

package h

import (
	"fmt"
	"strings"

	"vsim/simrt"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

func init() {
	Scenarios["C30"] = &Scenario{Gen: genPanic, Exec: execPanic, Race: raceAny}
}

// Operations during which the caller's own code panics: vpanic (text, visit),
// tpanic (text, visit), rpanic (text, byte), wpanic (text, byte), mpanic (text).
// Operations that must not notice: those of compileOp, print and match.
func genPanic(r *Rng, p *Plan) {
	p.Kind = "panic"
	nt := r.PickI(1, 2, 2, 3, 4)
	for i, n := 0, r.Between(1, 4); i < n; i++ {
		if i > 0 && r.P(30) {
			p.Queries = append(p.Queries, nil)
			p.Texts = append(p.Texts, siblingText(r, string(p.Texts[r.N(len(p.Texts))])))
			continue
		}
		genTextOf(r, p, genQuery(r, r.PickI(1, 1, 2, 3), 1))
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		rep := 1
		if r.P(8) {
			rep = r.PickI(20, 60)
		}
		for i, n := 0, r.PickI(2, 4, 8, 16); i < n; i++ {
			k := r.N(len(p.Texts))
			switch r.N(12) {
			case 0, 1:
				ops = append(ops, Op{K: "vpanic", N: []int{k, r.N(5), r.N(5)}})
			case 2:
				ops = append(ops, Op{K: "tpanic", N: []int{k, r.N(5), r.N(5)}})
			case 3, 4:
				ops = append(ops, Op{K: "rpanic", N: []int{k, r.N(len(p.Texts[k]) + 1), r.N(5)}})
			case 5:
				ops = append(ops, Op{K: "wpanic", N: []int{k, r.N(r.PickI(1, 4, 30, 80)), r.N(5)}})
			case 6:
				ops = append(ops, Op{K: "mpanic", N: []int{k, r.N(2), r.N(5)}})
			case 7:
				ops = append(ops, Op{K: "print", N: []int{k, r.N(2)}})
			case 8:
				ops = append(ops, Op{K: "match", N: []int{k}})
			case 9:
				ops = append(ops, Op{K: "reader", N: []int{k, 1, 2, 3}})
			case 10:
				ops = append(ops, Op{K: r.Pick("parse", "new"), N: []int{k}})
			default:
				ops = append(ops, Op{K: "visit", N: []int{k, 0}})
			}
			if rep > 1 {
				for o := ops[len(ops)-1]; rep > 1; rep-- {
					ops = append(ops, o)
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

func genTextOf(r *Rng, p *Plan, q *Q) {
	p.Queries = append(p.Queries, q)
	p.Texts = append(p.Texts, Bytes(q.Text(r)))
}

// injected is what the caller's code panics with.
type injected struct{ n int }

func (i injected) Error() string { return fmt.Sprintf("injected panic %d", i.n) }

func throw(how, n int) {
	switch how {
	case 1:
		panic(fmt.Sprintf("injected panic %d", n))
	case 2:
		var m map[int]int
		m[n] = 1 // an error of the run time
	case 3:
		panic(&struct{ n int }{n})
	case 4:
		panic(nil)
	}
	panic(injected{n})
}

type panicReader struct {
	data  []byte
	at    int
	pos   int
	how   int
	fired *int
}

func (r *panicReader) Read(b []byte) (int, error) {
	simrt.YS()
	if r.pos >= r.at || r.pos >= len(r.data) {
		*r.fired++
		throw(r.how, r.pos)
	}
	n := copy(b, r.data[r.pos:r.at])
	if n > 3 {
		n = 3
	}
	r.pos += n
	return n, nil
}

type panicWriter struct {
	left  int
	how   int
	fired *int
}

func (w *panicWriter) Write(b []byte) (int, error) {
	simrt.YS()
	if len(b) > w.left {
		*w.fired++
		throw(w.how, w.left)
	}
	w.left -= len(b)
	return len(b), nil
}

type panicMessage struct {
	parser.ParserMessage
	where, how int
	fired      *int
}

func (m *panicMessage) Pos() ast.Pos {
	if m.where == 0 {
		*m.fired++
		throw(m.how, 0)
	}
	return m.ParserMessage.Pos()
}

func (m *panicMessage) Message() string {
	if m.where == 1 {
		*m.fired++
		throw(m.how, 1)
	}
	return m.ParserMessage.Message()
}

// panicOp does the operation; tree tells how a call ended whose callback
// panicked.
func panicOp(op *Op, text string, fm *fmtmsg.Formatter) (o parseObs) {
	o.op = op
	fired := 0
	defer func() { o.fired = fired }()
	msg := &parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 1, Offset: 0, Len: 1}, Msg: "about " + text, Type: parser.MsgWarning}
	if text == "" {
		msg.Position = ast.NoPosition()
	}
	catch := func(f func()) {
		o.extra = "panic" // also if its value is nil
		defer func() { recover() }()
		f()
		o.extra = ""
	}
	var n ast.Node
	var err error
	switch op.K {
	case "vpanic", "tpanic":
		k := 0
		f := func() {
			if k++; k > op.I(1) {
				fired++
				throw(op.I(2), k)
			}
		}
		catch(func() {
			if op.K == "vpanic" {
				n, err = parser.ParseQuery(text, parser.Visitors(parser.VisitorFunc(func(ast.Node) error { f(); return nil })))
				return
			}
			n, err = parser.ParseQuery(text, parser.Visitors(parser.NewMessageVisitor(func(x ast.Node, t *parser.MessageTape) error {
				t.Hint("one")
				f()
				return nil
			})))
		})
	case "rpanic":
		catch(func() {
			n, err = parser.ParseQueryReader(&panicReader{data: []byte(text), at: op.I(1), how: op.I(2), fired: &fired})
		})
	case "wpanic":
		catch(func() { fm.WithQuery(text).Fprint(&panicWriter{left: op.I(1), how: op.I(2), fired: &fired}, msg) })
		return
	case "mpanic":
		catch(func() {
			fm.WithQuery(text).Sprint(&panicMessage{ParserMessage: *msg, where: op.I(1), how: op.I(2), fired: &fired})
		})
		return
	case "print":
		o.tree = fm.WithQuery(text).Sprint(msg)
		if op.I(1) == 1 {
			w := &faultWriter{left: 1 << 20}
			fm.WithQuery(text).Fprint(w, msg)
			o.tree += "|" + string(w.b)
		}
		return
	case "match":
		m, err := jsonmatcher.NewMatcher(text)
		if err != nil {
			o.tree = errText(err)
			return
		}
		ok, err := m.Match([]byte(`{"a":"alpha","b":5,"n":{"x":1},"user":{"name":"bob"}}`))
		o.tree = fmt.Sprint(ok, err, statNames(m.Stats()))
		return
	default:
		o.tree = compileOp(op, text, nil)
		return
	}
	o.isNil, o.err = isNilNode(n), errText(err)
	return o
}

func execPanic(c *Ctx, p *Plan) {
	fm := fmtmsg.NewTerminalFormatter(30)
	all := make([][]parseObs, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				simrt.YS()
				all[ti] = append(all[ti], panicOp(op, string(p.Texts[op.I(0)]), fm))
			}
		})
	}
	c.Run(fns)
	wants := map[string]string{}
	for ti := range all {
		for _, o := range all[ti] {
			text := string(p.Texts[o.op.I(0)])
			c.Count("ops_"+o.op.K, 1)
			if strings.HasSuffix(o.op.K, "panic") {
				if o.fired > 0 {
					c.FaultFired("panic:"+o.op.K[:1], 1)
				}
				parse := o.op.K[0] != 'w' && o.op.K[0] != 'm'
				// a panic without a value cannot be told from a return by those who recover
				valued := o.op.I(2) != 4
				if o.fired > 0 && o.extra == "" && parse && valued && (o.err == "" || !o.isNil) {
					c.Fail("swallowed", "task %d: %v of %s: the caller's code panicked, but the call returned without an error", ti, *o.op, clip([]byte(text)))
					return
				}
				if o.fired == 0 && o.extra != "" {
					c.Fail("panic", "task %d: %v of %s panicked", ti, *o.op, clip([]byte(text)))
					return
				}
				continue
			}
			k := fmt.Sprint(o.op.K, o.op.N, text)
			want, ok := wants[k]
			if !ok {
				want = panicOp(o.op, text, fmtmsg.NewTerminalFormatter(30)).tree
				wants[k] = want
			}
			if want != o.tree {
				c.Fail("affected", "task %d %s of %s gave %s, alone it gives %s", ti, o.op.K, clip([]byte(text)), clip([]byte(o.tree)), clip([]byte(want)))
				return
			}
			if q := p.Queries[o.op.I(0)]; q != nil && o.op.K == "parse" {
				if n, err := parser.ParseQuery(text); err != nil || n.String() != q.SExpr() {
					c.Fail("tree", "query %s gave %s (%v), want %s", clip([]byte(text)), dump(n), err, q.SExpr())
					return
				}
			}
		}
	}
}
