//go:build wcore

package h

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"vsim/simrt"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func init() {
	Scenarios["C06"] = &Scenario{Gen: genRead, Exec: execRead}
	Scenarios["C07"] = &Scenario{Gen: genReadFail, Exec: execReadFail}
	Scenarios["C08"] = &Scenario{Gen: genCompile, Exec: execCompile, Race: raceAny}
	Scenarios["C09"] = &Scenario{Gen: genVisit, Exec: execVisit}
	Scenarios["C10"] = &Scenario{Gen: genTape, Exec: execTape}
}

// dump writes a tree with all its positions.
func dump(n ast.Node) string {
	var b strings.Builder
	dumpTo(&b, n)
	return b.String()
}

func dumpTo(b *strings.Builder, n ast.Node) {
	switch x := n.(type) {
	case nil:
		b.WriteString("<nil>")
	case *ast.AndNode:
		b.WriteString("(and ")
		dumpTo(b, x.Left)
		b.WriteByte(' ')
		dumpTo(b, x.Right)
		b.WriteByte(')')
	case *ast.OrNode:
		b.WriteString("(or ")
		dumpTo(b, x.Left)
		b.WriteByte(' ')
		dumpTo(b, x.Right)
		b.WriteByte(')')
	case *ast.NotNode:
		b.WriteString("(not ")
		dumpTo(b, x.Expr)
		b.WriteByte(')')
	case *ast.ExprNode:
		fmt.Fprintf(b, "(%s %q @%+v", x.Op, x.Field, x.Position)
		for _, v := range x.RVals {
			fmt.Fprintf(b, " %s:%s@%+v", v.Type(), v.String(), v.Pos())
		}
		b.WriteByte(')')
	default:
		fmt.Fprintf(b, "(%T %s)", n, n.String())
	}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	var pe *parser.ParseError
	if errors.As(err, &pe) && pe != nil {
		return fmt.Sprintf("%+v %s", pe.Position, pe.Msg)
	}
	return err.Error()
}

// isNilNode also recognises a typed nil.
func isNilNode(n ast.Node) bool {
	if n == nil {
		return true
	}
	switch x := n.(type) {
	case *ast.AndNode:
		return x == nil
	case *ast.OrNode:
		return x == nil
	case *ast.NotNode:
		return x == nil
	case *ast.ExprNode:
		return x == nil
	}
	return false
}

// genLongText draws a valid query of about the given size.
func genLongText(r *Rng, size int) (*Q, string) {
	var q *Q
	switch r.N(3) {
	case 0: // one long string value
		s := strings.Repeat("word ", size/5+1)[:size]
		if r.Bool() {
			s = strings.Repeat("大é", size/5+1)
		}
		q = &Q{Op: "eq", Field: []string{"a"}, Vals: []V{{"s", s}}}
		if r.Bool() {
			q = &Q{Op: "and", L: genLeaf(r), R: &Q{Op: "or", L: q, R: genLeaf(r)}}
			q = &Q{Op: "or", L: &Q{Op: "and", L: genLeaf(r), R: &Q{Op: "eq", Field: []string{"b"}, Vals: []V{{"s", s}}}}, R: genLeaf(r)}
		}
		return q, q.Text(r)
	case 1: // blanks
		q = genQuery(r, r.Between(2, 5), 1)
		t := q.Text(r)
		if strings.Contains(t, "(") && size > 600 {
			size = 600 // the parser reads groups many times over
		}
		i := strings.Index(t, " ")
		if i < 0 {
			return q, t
		}
		// only between words: never inside a quoted value
		for _, kw := range []string{" AND ", " OR "} {
			if k := strings.Index(t, kw); k >= 0 && strings.Count(t[:k], `"`)%2 == 0 && strings.Count(t[:k], "/")%2 == 0 {
				return q, t[:k] + strings.Repeat(r.Pick(" ", "\n", "\t "), size) + t[k:]
			}
		}
		return q, t
	}
	op := r.Pick("and", "or")
	q = genLeaf(r)
	n := len(q.Text(nil))
	for n < size {
		l := genLeaf(r)
		n += len(l.Text(nil)) + 5
		q = &Q{Op: op, L: l, R: q}
		if n > 6000 {
			break // the parser's cost per clause is high
		}
	}
	return q, q.Text(r)
}

func genText(r *Rng, p *Plan) {
	var q *Q
	var t string
	switch {
	case r.P(14) && (p.Prop != "C08" || r.P(35)):
		base := r.PickI(64, 512, 1024, 4096, 8192)
		if p.Prop == "C06" && r.P(12) && len(p.Texts) == 0 {
			base = r.PickI(32768, 65536)
		}
		q, t = genLongText(r, base+r.Between(-12, 12))
	default:
		q = genQuery(r, r.PickI(1, 1, 2, 3, 4, 6), 2)
		if p.Prop == "C08" {
			q = genQuery(r, r.PickI(1, 1, 1, 2, 2, 3, 4), r.PickI(0, 1, 1, 2))
		}
		t = q.Text(r)
	}
	if r.P(22) {
		bad := genBadText(r, t)
		p.Queries = append(p.Queries, nil)
		p.Texts = append(p.Texts, bad)
		return
	}
	p.Queries = append(p.Queries, q)
	p.Texts = append(p.Texts, Bytes(t))
}

func genCuts(r *Rng, n int) []int {
	if r.P(6) { // nothing for a long time, several times
		var c []int
		for i, k := 0, r.Between(1, 3); i < k; i++ {
			c = append(c, 1+r.N(n/2+2), -r.PickI(60, 101, 130, 300))
		}
		return append(c, 1+r.N(n/2+2))
	}
	switch r.N(8) {
	case 0:
		return []int{1}
	case 1:
		return []int{2}
	case 2:
		return []int{r.Between(1, 7), r.Between(0, 3)}
	case 3:
		return []int{1, 0, 0, 3}
	case 4:
		return []int{511, 1, 2}
	case 5:
		return []int{4095, 1, 4097}
	case 6:
		return []int{n - 1, 1}
	}
	var c []int
	for i, k := 0, r.Between(1, 8); i < k; i++ {
		c = append(c, r.N(n/2+2))
	}
	c = append(c, 1)
	return c
}

func genRead(r *Rng, p *Plan) {
	nt := r.PickI(1, 1, 1, 2, 3)
	p.Kind = "read"
	for i, n := 0, r.Between(1, 4); i < n; i++ {
		genText(r, p)
		if len(p.Texts[0]) > 20000 {
			nt, n = 1, 1 // costly to parse
		}
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		n := r.Between(1, 5)
		if len(p.Texts[0]) > 20000 {
			n = 1
		}
		for i := 0; i < n; i++ {
			k := r.N(len(p.Texts))
			o := Op{K: "read", N: []int{k, r.N(2)}}
			o.N = append(o.N, genCuts(r, len(p.Texts[k]))...)
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.P["face"] = r.PickI(0, r.N(readerFaces))
	if r.N(150) == 0 && len(p.Texts[0]) < 2000 {
		// a very long query: blanks in front cost least
		nt = 1
		p.P["pad"] = r.PickI(1<<17, 1<<18, 1<<19, 1<<20, 1<<20, 1<<21) + r.Between(-300, 10)
		cuts := [][]int{{1 << 22}, {65536}, {1 << 20}, {4095, 1, 4097}, {p.P["pad"], 1, 7}, {100003}}
		p.Tasks = [][]Op{{{K: "read", N: append([]int{0, r.N(2)}, cuts[r.N(len(cuts))]...)}}}
	}
	p.Sched = genSched(r, nt)
}

type parseObs struct {
	op    *Op
	tree  string
	isNil bool
	err   string
	extra string
	seen  []string
	fired int
	reads int
}

func execRead(c *Ctx, p *Plan) {
	all := make([][]parseObs, len(p.Tasks))
	texts := make([][]byte, len(p.Texts))
	for i, t := range p.Texts {
		texts[i] = t
		if n := p.P["pad"]; n > 0 {
			texts[i] = append(bytes.Repeat([]byte(" "), n), t...)
		}
	}
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				rd := &onceReader{faultReader: faultReader{data: texts[op.I(0)], failAt: -1, eofW: op.I(1) == 1}}
				if len(op.N) > 2 {
					rd.cuts = op.N[2:]
				}
				simrt.YS()
				n, err := parser.ParseQueryReader(face(rd, &rd.faultReader, p.P["face"]))
				all[ti] = append(all[ti], parseObs{op: op, tree: dump(n), isNil: isNilNode(n), err: errText(err), reads: rd.reads})
			}
		})
	}
	c.Run(fns)
	for ti := range all {
		for _, o := range all[ti] {
			text := string(texts[o.op.I(0)])
			n, err := parser.ParseQuery(text)
			wt, we := dump(n), errText(err)
			c.Count("reads", o.reads)
			c.Count("parses", 1)
			if o.reads > 2 {
				c.FaultFired("reader:cut", o.reads-2)
			}
			if o.tree != wt || o.err != we {
				c.Fail("reader", "query %s cut as %v (kind of reader %d): got tree %s error %q, from a string: tree %s error %q", clip([]byte(text)), o.op.N[2:], p.P["face"], o.tree, o.err, wt, we)
				return
			}
			if q := p.Queries[o.op.I(0)]; q != nil {
				if err != nil {
					c.Fail("rejected", "valid query %s was rejected: %v", clip([]byte(text)), err)
					return
				}
				if n.String() != q.SExpr() {
					c.Fail("tree", "query %s gave tree %s, want %s", clip([]byte(text)), n.String(), q.SExpr())
					return
				}
			}
		}
	}
}

func genReadFail(r *Rng, p *Plan) {
	nt := r.PickI(1, 1, 2)
	p.Kind = "readfail"
	for i, n := 0, r.Between(1, 4); i < n; i++ {
		genText(r, p)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.Between(1, 6); i < n; i++ {
			k := r.N(len(p.Texts))
			n := len(p.Texts[k])
			at := r.N(n + 1)
			switch r.N(6) {
			case 0:
				at = n
			case 1:
				at = 0
			case 2:
				// right after a complete clause
				s := string(p.Texts[k])
				if j := strings.Index(s, " AND "); j > 0 {
					at = j
				} else if j := strings.Index(s, " OR "); j > 0 {
					at = j
				}
			}
			o := Op{K: "fail", N: []int{k, at, r.N(2), r.PickI(r.N(8), r.N(24)), r.N(3), r.N(3)}}
			o.N = append(o.N, genCuts(r, n)...)
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.P["face"] = r.PickI(0, r.N(readerFaces))
	p.Sched = genSched(r, nt)
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "injected timeout 91c2" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func readErr(k int) error {
	switch k {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrClosedPipe
	case 3:
		return context.Canceled
	case 4:
		return fmt.Errorf("connection lost: %w", io.EOF)
	case 5:
		return timeoutErr{}
	case 6:
		return fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF)
	case 7:
		return io.ErrNoProgress
	case 8:
		return syscall.EINTR
	case 9:
		return syscall.EAGAIN
	case 10:
		return os.ErrDeadlineExceeded
	case 11:
		return context.DeadlineExceeded
	case 12:
		return os.ErrClosed
	case 13:
		return io.ErrShortBuffer
	case 14:
		return errors.New("EOF")
	case 15:
		return &os.PathError{Op: "read", Path: "query", Err: syscall.EIO}
	case 16:
		return &os.PathError{Op: "read", Path: "query", Err: io.EOF}
	case 17:
		return bufio.ErrTooLong
	case 18:
		return &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
	case 19:
		return net.ErrClosed
	case 20:
		return io.ErrShortWrite
	case 21:
		return parser.Skip
	case 22:
		return parser.SkipAll
	case 23:
		return errors.Join(io.EOF, errReader)
	}
	return errReader
}

// onceReader fails once; later reads go on or end cleanly.
type onceReader struct {
	faultReader
	after int // 0 fails for ever, 1 clean end afterwards, 2 delivers the rest afterwards
}

func (o *onceReader) Read(b []byte) (int, error) {
	if o.fired > 0 {
		switch o.after {
		case 1:
			return 0, io.EOF
		case 2:
			o.failAt = -1
			o.fired++
		}
	}
	return o.faultReader.Read(b)
}

func execReadFail(c *Ctx, p *Plan) {
	all := make([][]parseObs, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				rd := &onceReader{after: op.I(4)}
				rd.data = p.Texts[op.I(0)]
				rd.failAt = op.I(1)
				if rd.failAt > len(rd.data) {
					rd.failAt = len(rd.data)
				}
				rd.with = op.I(2) == 1
				rd.err = readErr(op.I(3))
				if len(op.N) > 6 {
					rd.cuts = op.N[6:]
				}
				var opts []parser.Option
				seen := 0
				v := parser.VisitorFunc(func(ast.Node) error { seen++; return nil })
				switch op.I(5) {
				case 1:
					opts = append(opts, parser.Visitors(v))
				case 2:
					opts = append(opts, parser.Visitors(parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
						seen++
						t.Hint("seen")
						return nil
					}), v))
				}
				simrt.YS()
				n, err := parser.ParseQueryReader(face(rd, &rd.faultReader, p.P["face"]), opts...)
				o := parseObs{op: op, isNil: isNilNode(n), tree: dump(n), err: errText(err), fired: rd.fired, reads: rd.reads}
				if seen > 0 {
					o.extra = fmt.Sprintf("visitor ran %d times", seen)
				}
				all[ti] = append(all[ti], o)
			}
		})
	}
	c.Run(fns)
	for ti := range all {
		for _, o := range all[ti] {
			text := p.Texts[o.op.I(0)]
			e := readErr(o.op.I(3))
			where := fmt.Sprintf("reader of %s failing with %q after %d bytes (with data: %d, then: %d, kind of reader: %d)", clip(text), e, o.op.I(1), o.op.I(2), o.op.I(4), p.P["face"])
			c.Count("parses", 1)
			if o.fired == 0 {
				// The parser gave up reading before the failure. That is only
				// right if what it read settles the matter without more text.
				if o.err == "" {
					c.Fail("readfail", "%s: the parser stopped reading before the end and returned tree %s", where, o.tree)
					return
				}
				continue
			}
			c.FaultFired("reader:"+e.Error(), 1)
			if !o.isNil || o.err == "" {
				c.Fail("readfail", "%s: returned tree %s, error %q", where, o.tree, o.err)
				return
			}
			if !strings.Contains(o.err, e.Error()) {
				c.Fail("readfail", "%s: error %q does not report the read failure", where, o.err)
				return
			}
			if o.extra != "" {
				c.Fail("readfail", "%s: %s", where, o.extra)
				return
			}
		}
	}
}

func genCompile(r *Rng, p *Plan) {
	nt := r.PickI(2, 2, 3, 4, 6, 8)
	p.Kind = "compile"
	nops := r.PickI(1, 2, 4, 8)
	switch {
	case r.P(4):
		// many distinct small queries in one process
		p.Kind = "volume"
		nt = r.PickI(1, 2, 3)
		n := r.PickI(70, 140, 300)
		if r.P(20) {
			n = 1100
		}
		nops = n / nt
		base := r.N(1000)
		for i := 0; i < n; i++ {
			q := &Q{Op: "eq", Field: []string{r.Pick("a", "b", "user.name")}, Vals: []V{{"i", fmt.Sprint(base + i)}}}
			q.Field = strings.Split(q.Field[0], ".")
			if r.P(40) {
				q.Vals = []V{{"s", fmt.Sprintf("v%d", base+i)}}
			}
			if r.P(10) {
				p.Queries, p.Texts = append(p.Queries, nil), append(p.Texts, Bytes(fmt.Sprintf("a:%d AND", base+i)))
				continue
			}
			p.Queries, p.Texts = append(p.Queries, q), append(p.Texts, Bytes(q.Text(nil)))
		}
	case r.P(30):
		// texts that differ only a little
		p.Kind = "siblings"
		for i, n := 0, r.Between(1, 2); i < n; i++ {
			q := genQuery(r, r.PickI(1, 1, 2, 3), 1)
			p.Queries, p.Texts = append(p.Queries, q), append(p.Texts, Bytes(q.Text(nil)))
		}
		for i, n := 0, r.Between(2, 6); i < n; i++ {
			p.Queries = append(p.Queries, nil)
			p.Texts = append(p.Texts, siblingText(r, string(p.Texts[r.N(len(p.Texts))])))
		}
	default:
		for i, n := 0, r.Between(2, 6); i < n; i++ {
			genText(r, p)
			if len(p.Texts[i]) > 2000 && nt > 3 {
				nt = 3
			}
		}
	}
	if r.P(12) {
		p.P["fresh"] = 1 + r.N(1000)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, nops; i < n; i++ {
			k := r.N(len(p.Texts))
			switch r.N(11) {
			case 0, 1, 2:
				ops = append(ops, Op{K: "parse", N: []int{k}})
			case 10:
				ops = append(ops, Op{K: "own", N: []int{k}})
			case 3, 4:
				o := Op{K: "reader", N: []int{k}}
				o.N = append(o.N, genCuts(r, len(p.Texts[k]))...)
				ops = append(ops, o)
			case 5, 6, 7:
				ops = append(ops, Op{K: "new", N: []int{k}})
			case 8:
				ops = append(ops, Op{K: "tree", N: []int{k}})
			case 9:
				ops = append(ops, Op{K: "visit", N: []int{k, r.N(6)}})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

// compileOp does one operation and describes everything it returned.
func compileOp(op *Op, text string, tree ast.Node) string {
	switch op.K {
	case "parse":
		n, err := parser.ParseQuery(text)
		return dump(n) + "|" + errText(err)
	case "reader":
		rd := &faultReader{data: []byte(text), failAt: -1}
		if len(op.N) > 1 {
			rd.cuts = op.N[1:]
		}
		n, err := parser.ParseQueryReader(rd)
		return dump(n) + "|" + errText(err)
	case "new":
		m, err := jsonmatcher.NewMatcher(text)
		if err != nil {
			if m != nil {
				return "matcher together with error " + errText(err)
			}
			return errText(err)
		}
		s := m.Query() + "|" + msgsText(m.Messages())
		return s + "|" + statNames(m.Stats())
	case "own":
		// the caller owns the tree and changes it
		n, err := parser.ParseQuery(text)
		d := dump(n) + "|" + errText(err)
		if err == nil {
			spoil(n)
		}
		return d
	case "tree":
		if tree == nil {
			return ""
		}
		return dump(tree) + "|" + tree.String()
	case "visit":
		var seen []string
		v := parser.VisitorFunc(func(n ast.Node) error {
			seen = append(seen, n.String())
			return nil
		})
		mv := parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
			if e, ok := n.(*ast.ExprNode); ok {
				t.HintWith(e, "at %s", e.String())
				if op.I(1) == 5 {
					t.ErrorWith(e, "no %s", e.String())
				}
			}
			return nil
		})
		n, err := parser.ParseQuery(text, parser.Visitors(v, mv))
		return dump(n) + "|" + errText(err) + "|" + strings.Join(seen, "\n") + "|" + msgsText(mv.Messages())
	}
	return ""
}

// spoil changes a tree all over, as its owner may.
func spoil(n ast.Node) {
	switch x := n.(type) {
	case *ast.AndNode:
		spoil(x.Left)
		spoil(x.Right)
		x.Left, x.Right = x.Right, x.Left
	case *ast.OrNode:
		spoil(x.Left)
		spoil(x.Right)
		x.Left, x.Right = x.Right, x.Left
	case *ast.NotNode:
		spoil(x.Expr)
		if e, ok := x.Expr.(*ast.ExprNode); ok {
			x.Expr = &ast.NotNode{Expr: e}
		}
	case *ast.ExprNode:
		for i := range x.Field {
			x.Field[i] += "_"
		}
		for i, j := 0, len(x.RVals)-1; i < j; i, j = i+1, j-1 {
			x.RVals[i], x.RVals[j] = x.RVals[j], x.RVals[i]
		}
		if len(x.RVals) == 1 {
			x.RVals = append(x.RVals[:0], x.RVals[0], x.RVals[0])
		}
		x.Op += "?"
		x.Position.Offset += 7
	}
}

func statNames(s *jsonmatcher.MatchStats) string {
	if s == nil {
		return "<nil>"
	}
	o := fmt.Sprintf("%s:%d:%d(", s.NodeName, s.TimesChecked, s.TimesMatched)
	for _, k := range s.Children {
		o += statNames(k) + " "
	}
	return o + ")"
}

func execCompile(c *Ctx, p *Plan) {
	all := make([][]parseObs, len(p.Tasks))
	// trees that all tasks read
	trees := make([]ast.Node, len(p.Texts))
	for _, t := range p.Tasks {
		for _, o := range t {
			if o.K == "tree" && o.I(0) < len(p.Texts) && trees[o.I(0)] == nil {
				trees[o.I(0)], _ = parser.ParseQuery(string(p.Texts[o.I(0)]))
			}
		}
	}
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				simrt.YS()
				all[ti] = append(all[ti], parseObs{op: op, tree: compileOp(op, string(p.Texts[op.I(0)]), trees[op.I(0)])})
			}
		})
	}
	c.Run(fns)
	if f := p.P["fresh"]; f > 0 {
		// some of them once more, each in a process of its own
		var flat []parseObs
		for ti := range all {
			for _, o := range all[ti] {
				if o.op.K != "tree" {
					flat = append(flat, o)
				}
			}
		}
		for i := 0; i < 3 && i < len(flat); i++ {
			o := flat[(f*7919+i*31)%len(flat)]
			text := p.Texts[o.op.I(0)]
			want, err := freshCompile(o.op, text)
			if err != nil {
				continue
			}
			c.Count("fresh_process", 1)
			if want != o.tree {
				c.Fail("isolation", "%s of %s gave %s, in a process of its own it gives %s", o.op.K, clip(text), o.tree, want)
				return
			}
		}
	}
	wants := map[string]string{}
	checked := make([]bool, len(p.Texts))
	for ti := range all {
		for _, o := range all[ti] {
			text := string(p.Texts[o.op.I(0)])
			c.Count("ops_"+o.op.K, 1)
			k := o.op.K
			if k == "visit" {
				k += fmt.Sprint(o.op.N)
			}
			k += "\x00" + text
			want, ok := wants[k]
			if !ok {
				tree := ast.Node(nil)
				if o.op.K == "tree" {
					tree, _ = parser.ParseQuery(text)
				}
				want = compileOp(o.op, text, tree)
				wants[k] = want
			}
			if want != o.tree {
				c.Fail("isolation", "task %d %s of %s gave %s, alone it gives %s", ti, o.op.K, clip([]byte(text)), o.tree, want)
				return
			}
			if q := p.Queries[o.op.I(0)]; q != nil && !checked[o.op.I(0)] {
				checked[o.op.I(0)] = true
				n, err := parser.ParseQuery(text)
				if err != nil {
					c.Fail("rejected", "valid query %s was rejected: %v", clip([]byte(text)), err)
					return
				}
				if n.String() != q.SExpr() {
					c.Fail("tree", "query %s gave tree %s, want %s", clip([]byte(text)), n.String(), q.SExpr())
					return
				}
			}
		}
	}
}

// freshCompile does the operation in a new process.
func freshCompile(op *Op, text Bytes) (string, error) {
	in, err := json.Marshal(aloneJob{op, text})
	if err != nil {
		return "", err
	}
	return inFreshProcess(in)
}

type aloneJob struct {
	Op   *Op
	Text Bytes
}

func init() {
	alone = func(in []byte) string {
		var j aloneJob
		if json.Unmarshal(in, &j) != nil {
			os.Exit(4)
		}
		return compileOp(j.Op, string(j.Text), nil)
	}
}

// A visit operation: query, then per visitor the action and the visit it
// happens at. Actions: 0 none, 1 skip, 2 skip all, 3 error, 4 parse error,
// 5 skip at every second visit, 6 parse another query.
func genVisit(r *Rng, p *Plan) {
	nt := r.PickI(1, 1, 2, 3)
	p.Kind = "visit"
	for i, n := 0, r.Between(1, 3); i < n; i++ {
		if r.P(12) {
			q := genQuery(r, 2, 1)
			p.Queries = append(p.Queries, nil)
			p.Texts = append(p.Texts, Bytes(q.Text(r)+" AND "+r.Pick("b:(2,2)", "d:><(3,2)", "e:<true", "f:(true,false)", "g:~3", "h:><(1,2,3)")))
			continue
		}
		q := genQuery(r, r.PickI(1, 2, 3, 4, 5, 8), 2)
		if r.P(2) {
			q, nt = genRow(r, r.PickI(40, 110, 140, 300)), 1
		}
		p.Queries = append(p.Queries, q)
		p.Texts = append(p.Texts, Bytes(q.Text(r)))
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.Between(1, 5); i < n; i++ {
			k := r.N(len(p.Texts))
			size := 3
			if p.Queries[k] != nil {
				size = p.Queries[k].size()
			}
			o := Op{K: "visit", N: []int{k}}
			for v, nv := 0, r.Between(1, 3); v < nv; v++ {
				o.N = append(o.N, r.PickI(0, 1, 1, 2, 2, 3, 3, 4, 5, 6), r.N(size))
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

const innerVisits = "(|| (== z 1) (! (== z 2)))\n(== z 1)\n(! (== z 2))\n(== z 2)\n"

var errVisit = errors.New("injected visitor failure 55d1")

// visitErr has errors that look like signals, but are none.
func visitErr(k int) error {
	switch k % 8 {
	case 0:
		return fmt.Errorf("failure 55d1: %w", parser.Skip)
	case 1:
		return fmt.Errorf("failure 55d1: %w", parser.SkipAll)
	case 2:
		return errors.New(parser.Skip.Error())
	case 3:
		return errors.New(parser.SkipAll.Error())
	case 4:
		return io.EOF
	}
	return errVisit
}

// plannedVisit returns what the visitor answers at its i-th visit.
func plannedVisit(action, at, i int) int {
	switch action {
	case 5:
		if (i+at)%2 == 1 {
			return 1
		}
		return 0
	case 0:
		return 0
	}
	if i == at {
		return action
	}
	return 0
}

// expectVisit is the documented walk: the nodes visited and how it ended.
func expectVisit(q *Q, action, at int) (seen []string, end int) {
	i := 0
	var rec func(q *Q) bool // false: stop
	rec = func(q *Q) bool {
		a := plannedVisit(action, at, i)
		i++
		seen = append(seen, q.SExpr())
		switch a {
		case 1:
			return true
		case 2, 3, 4:
			end = a
			return false
		}
		if q.L != nil && !rec(q.L) {
			return false
		}
		if q.R != nil && !rec(q.R) {
			return false
		}
		return true
	}
	rec(q)
	return seen, end
}

func execVisit(c *Ctx, p *Plan) {
	type vobs struct {
		op    *Op
		seen  [][]string
		err   string
		same  bool
		nilT  bool
		tree  string
		inner []string
	}
	all := make([][]vobs, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				nv := (len(op.N) - 1) / 2
				o := vobs{op: op, seen: make([][]string, nv)}
				var vs []parser.Visitor
				perr := parser.ErrorAt(ast.Pos{Line: 1, Col: 2, Offset: 1, Len: 3}, "injected parse error 9ab0")
				for v := 0; v < nv; v++ {
					v := v
					f := func(n ast.Node) error {
						k := len(o.seen[v])
						o.seen[v] = append(o.seen[v], n.String())
						switch plannedVisit(op.I(1+2*v), op.I(2+2*v), k) {
						case 1:
							return parser.Skip
						case 2:
							return parser.SkipAll
						case 3:
							return visitErr(op.I(2+2*v) + v + op.I(0)*3)
						case 4:
							return perr
						case 6:
							m, err := parser.ParseQuery("z:1 OR !z:2", parser.Visitors(parser.VisitorFunc(func(x ast.Node) error {
								o.inner = append(o.inner, x.String())
								return nil
							})))
							if err != nil || m.String() != "(|| (== z 1) (! (== z 2)))" {
								o.inner = append(o.inner, fmt.Sprint(m, err))
							}
						}
						return nil
					}
					if v%2 == 1 {
						vs = append(vs, parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error { return f(n) }))
					} else {
						vs = append(vs, parser.VisitorFunc(f))
					}
				}
				opts := []parser.Option{parser.Visitors(vs...)}
				if at := op.I(2) % 4; at > 0 && at <= nv {
					// the same visitors, given in two parts
					opts = []parser.Option{parser.Visitors(vs[:at]...), parser.Visitors(vs[at:]...)}
				}
				simrt.YS()
				n, err := parser.ParseQuery(string(p.Texts[op.I(0)]), opts...)
				o.err = errText(err)
				o.nilT = isNilNode(n)
				o.tree = dump(n)
				if pe, ok := err.(*parser.ParseError); ok && pe == perr || errText(perr) == o.err {
					o.same = true
				}
				all[ti] = append(all[ti], o)
			}
		})
	}
	c.Run(fns)
	for ti := range all {
		for _, o := range all[ti] {
			text := string(p.Texts[o.op.I(0)])
			q := p.Queries[o.op.I(0)]
			c.Count("parses", 1)
			if q == nil {
				for v := range o.seen {
					if len(o.seen[v]) > 0 {
						c.Fail("visit", "query %q: a visitor ran although validation rejects the query", text)
						return
					}
				}
				if o.err == "" || !o.nilT {
					c.Fail("visit", "query %q was accepted", text)
					return
				}
				c.Count("invalid_queries", 1)
				continue
			}
			failed, which, inner := 0, errVisit, 0
			for v := range o.seen {
				want, end := expectVisit(q, o.op.I(1+2*v), o.op.I(2+2*v))
				c.Count("visits", len(o.seen[v]))
				desc := fmt.Sprintf("query %q visitor %d (action %d at visit %d)", text, v, o.op.I(1+2*v), o.op.I(2+2*v))
				if failed != 0 {
					// parsing has ended already
					if len(o.seen[v]) > 0 {
						c.Fail("visit", "%s ran although an earlier visitor ended parsing", desc)
						return
					}
					continue
				}
				if strings.Join(want, "\n") != strings.Join(o.seen[v], "\n") {
					c.Fail("visit", "%s saw %q, want %q", desc, o.seen[v], want)
					return
				}
				switch end {
				case 3, 4:
					failed, which = end, visitErr(o.op.I(2+2*v)+v+o.op.I(0)*3)
					c.FaultFired("visitor:error", 1)
				case 2:
					c.FaultFired("visitor:skipall", 1)
				}
				if len(want) < q.size() && end == 0 {
					c.FaultFired("visitor:skip", 1)
				}
				if o.op.I(1+2*v) == 6 && o.op.I(2+2*v) < len(want) {
					inner++
				}
			}
			if got, want := strings.Join(o.inner, "\n"), strings.Repeat(innerVisits, inner); got != strings.TrimSuffix(want, "\n") {
				c.Fail("visit", "query %q: visitors of %d parses made during visits saw %q", text, inner, o.inner)
				return
			}
			switch failed {
			case 0:
				if o.err != "" || o.nilT {
					c.Fail("visit", "query %q: no visitor failed, but parsing returned error %q", text, o.err)
					return
				}
			case 3:
				if o.err == "" || !o.nilT || !strings.Contains(o.err, which.Error()) {
					c.Fail("visit", "query %q: a visitor failed, parsing returned tree %s and error %q", text, o.tree, o.err)
					return
				}
			case 4:
				if !o.same || !o.nilT {
					c.Fail("visit", "query %q: a visitor returned a positioned error, parsing returned tree %s and error %q", text, o.tree, o.err)
					return
				}
			}
		}
	}
}

// A tape operation: query, then triples (visitor, visit, message kind).
// Kinds: 0 hint 1 warning 2 error without position, 3-5 with the node's
// position, 6-8 with an own position, 9 skip, 10 skip all, 100 and more that
// many hints and warnings at once.
func genTape(r *Rng, p *Plan) {
	nt := r.PickI(1, 1, 2, 3)
	p.Kind = "tape"
	for i, n := 0, r.Between(1, 3); i < n; i++ {
		q := genQuery(r, r.PickI(1, 2, 3, 4, 5, 8), 2)
		p.Queries = append(p.Queries, q)
		p.Texts = append(p.Texts, Bytes(q.Text(r)))
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.Between(1, 5); i < n; i++ {
			k := r.N(len(p.Texts))
			size := p.Queries[k].size()
			o := Op{K: "tape", N: []int{k}}
			nm := r.PickI(0, 1, 2, 3, 6, 12)
			if r.P(4) {
				nm = r.Between(30, 120)
			}
			noErr := r.P(35)
			for j := 0; j < nm; j++ {
				kind := r.N(11)
				if noErr && (kind == 2 || kind == 5 || kind == 8) {
					kind--
				}
				if kind >= 9 && r.P(60) {
					kind = r.N(2)
				}
				if r.P(1) {
					kind = r.PickI(100, 140, 300, 1100)
				}
				o.N = append(o.N, r.N(2), r.N(size), kind)
			}
			if nm > 0 && r.P(3) { // many messages, then some more
				last := o.N[len(o.N)-3:]
				flood := []int{last[0], last[1] * r.N(2), r.PickI(130, 270, 1100)}
				o.N = append(o.N[:len(o.N)-3:len(o.N)-3], append(flood, last...)...)
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

func tapeText(j int) (string, []any) {
	switch j % 8 {
	case 0, 4:
		return "plain message", nil
	case 1:
		return "number %d", []any{j}
	case 2:
		return "100%% sure of %q", []any{"x"}
	case 5:
		return "", nil
	case 6:
		return "%s", []any{""}
	case 7:
		return []string{"\n", "two\nlines", "no error", strings.Repeat("long ", 60)}[j/8%4], nil
	}
	return fmt.Sprintf("message %d", j), nil
}

func ownPos(j int) ast.Pos { return ast.Pos{Line: 1, Col: j + 1, Offset: j, Len: 1 + j%3} }

type tapeMsg struct {
	typ parser.MessageType
	pos ast.Pos
	msg string
}

func execTape(c *Ctx, p *Plan) {
	type tobs struct {
		op   *Op
		msgs [2][]tapeMsg
		want [2][]tapeMsg
		err  string
		nilT bool
		perr bool
		pos  ast.Pos
		msg  string
		vis  [2][]string
	}
	all := make([][]*tobs, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(0) >= len(p.Texts) {
					continue
				}
				o := &tobs{op: op}
				var vs [2]*parser.MessageVisitor
				for v := 0; v < 2; v++ {
					v := v
					vs[v] = parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
						at := len(o.vis[v])
						o.vis[v] = append(o.vis[v], n.String())
						var ret error
						for j := 0; 3+3*j < len(op.N); j++ {
							if op.N[1+3*j] != v || op.N[2+3*j] != at {
								continue
							}
							f, a := tapeText(j)
							kind := op.N[3+3*j]
							pos := ast.NoPosition()
							ex, isEx := n.(*ast.ExprNode)
							if kind >= 3 && kind <= 5 && !isEx {
								kind -= 3
							}
							rec := func(tp parser.MessageType) {
								o.want[v] = append(o.want[v], tapeMsg{tp, pos, fmt.Sprintf(f, a...)})
							}
							switch kind {
							case 0:
								t.Hint(f, a...)
								rec(parser.MsgHint)
							case 1:
								t.Warning(f, a...)
								rec(parser.MsgWarning)
							case 2:
								t.Error(f, a...)
								rec(parser.MsgError)
							case 3:
								pos = ex.Pos()
								t.HintWith(ex, f, a...)
								rec(parser.MsgHint)
							case 4:
								pos = ex.Pos()
								t.WarningWith(ex, f, a...)
								rec(parser.MsgWarning)
							case 5:
								pos = ex.Pos()
								t.ErrorWith(ex, f, a...)
								rec(parser.MsgError)
							case 6:
								pos = ownPos(j)
								t.HintAt(pos, f, a...)
								rec(parser.MsgHint)
							case 7:
								pos = ownPos(j)
								t.WarningAt(pos, f, a...)
								rec(parser.MsgWarning)
							case 8:
								pos = ownPos(j)
								t.ErrorAt(pos, f, a...)
								rec(parser.MsgError)
							case 9:
								ret = parser.Skip
							case 10:
								ret = parser.SkipAll
							default:
								for k := 0; k < kind; k++ {
									if k%3 == 0 {
										t.Warning(f, a...)
										rec(parser.MsgWarning)
									} else {
										t.Hint(f, a...)
										rec(parser.MsgHint)
									}
								}
							}
						}
						return ret
					})
				}
				simrt.YS()
				n, err := parser.ParseQuery(string(p.Texts[op.I(0)]), parser.Visitors(vs[0], vs[1]))
				o.nilT = isNilNode(n)
				o.err = errText(err)
				if pe, ok := err.(*parser.ParseError); ok && pe != nil {
					o.perr, o.pos, o.msg = true, pe.Position, pe.Msg
				}
				for v := 0; v < 2; v++ {
					for _, m := range vs[v].Messages() {
						if m == nil {
							o.msgs[v] = append(o.msgs[v], tapeMsg{})
							continue
						}
						o.msgs[v] = append(o.msgs[v], tapeMsg{m.Type, m.Pos(), m.Message()})
					}
				}
				all[ti] = append(all[ti], o)
			}
		})
	}
	c.Run(fns)
	for ti := range all {
		for _, o := range all[ti] {
			text := string(p.Texts[o.op.I(0)])
			c.Count("parses", 1)
			var first *tapeMsg
			for v := 0; v < 2 && first == nil; v++ {
				for j := range o.want[v] {
					if o.want[v][j].typ == parser.MsgError {
						first = &o.want[v][j]
						break
					}
				}
			}
			for v := 0; v < 2; v++ {
				c.Count("messages", len(o.want[v]))
				if len(o.msgs[v]) != len(o.want[v]) {
					c.Fail("tape", "query %q visitor %d: %d messages recorded, %d available", text, v, len(o.want[v]), len(o.msgs[v]))
					return
				}
				for j := range o.msgs[v] {
					if o.msgs[v][j] != o.want[v][j] {
						c.Fail("tape", "query %q visitor %d: message %d is %+v, recorded was %+v", text, v, j, o.msgs[v][j], o.want[v][j])
						return
					}
				}
			}
			if first == nil {
				if o.err != "" || o.nilT {
					c.Fail("tape", "query %q: no error was recorded, but parsing failed: %q", text, o.err)
					return
				}
				continue
			}
			c.FaultFired("tape:error", 1)
			if o.err == "" || !o.nilT {
				c.Fail("tape", "query %q: error %+v was recorded, but parsing succeeded", text, *first)
				return
			}
			if !o.perr || o.pos != first.pos || o.msg != first.msg {
				c.Fail("tape", "query %q: returned error %q, the first recorded is %+v", text, o.err, *first)
				return
			}
		}
	}
}
