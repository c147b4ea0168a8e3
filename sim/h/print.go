//go:build wcore

package h

import (
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"

	"vsim/simrt"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

func init() {
	Scenarios["C11"] = &Scenario{Gen: genPrint, Exec: execPrint, Race: raceAny}
}

// Print operations: formatter, query, message, writer mode, bytes accepted.
// Modes: 0 Sprint, 1 good writer, 2 fails for ever, 3 fails once, 4 slow good writer.
func genPrint(r *Rng, p *Plan) {
	nt := r.PickI(1, 2, 2, 3, 4, 6)
	p.Kind = "print"
	p.P["fmt"] = r.N(64)
	if r.P(30) {
		p.P["reuse"] = 1 // each task has one message, which it changes
	}
	for i, n := 0, r.Between(1, 3); i < n; i++ {
		q := genQuery(r, r.PickI(1, 2, 3, 6), 1)
		t := q.Text(nil)
		if r.P(15) {
			t += r.Pick(" OR d:\"日本語\"", " OR é:1", "\nAND u:\"naïve – 𝄞\"", " AND x:\"\u00a0\"")
		}
		if r.P(15) {
			t += strings.Repeat(" OR a:\"alpha\"", r.PickI(4, 50, 400))
		}
		p.Texts = append(p.Texts, Bytes(t))
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.PickI(1, 2, 4, 8); i < n; i++ {
			k := r.N(len(p.Texts))
			n := len([]rune(string(p.Texts[k])))
			off := r.N(n)
			ln := 1 + r.N(n-off)
			if ln > 30 {
				ln = 1 + r.N(30)
			}
			mode := r.PickI(0, 1, 2, 2, 3, 3, 4)
			acc := r.N(2*n + 60)
			if r.P(20) {
				acc = r.N(8)
			}
			ops = append(ops, Op{K: "print", N: []int{r.N(3), k, r.N(6), mode, acc, off, ln, r.N(6), r.N(6)}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

const customTmpl = `[{{.Type}}] {{.Message}}{{if .HasHL}} <<{{.QueryPre}}|{{.QueryHL}}|{{.QueryPost}}>>{{end}}
`

func formatters(seed int) ([]*fmtmsg.Formatter, error) {
	width := []int{0, 0, 20, 40, 80}[seed%5]
	f0 := fmtmsg.NewTerminalFormatter(0)
	f1, err := fmtmsg.NewFormatter(customTmpl, false, 0)
	if err != nil {
		return nil, err
	}
	f2, err := fmtmsg.NewFormatter(`<p class="{{.Type}}">{{.Message}}</p>{{if .HasHL}}<pre>{{.QueryPre}}<b>{{.QueryHL}}</b>{{.QueryPost}}</pre>{{end}}`, true, 0)
	if err != nil {
		return nil, err
	}
	if width > 0 {
		f0 = fmtmsg.NewTerminalFormatter(width)
	}
	return []*fmtmsg.Formatter{f0, f1, f2}, nil
}

func printMsg(op *Op, text string) (fmtmsg.Message, string) {
	pos := ast.Pos{Line: 1, Col: op.I(5) + 1, Offset: op.I(5), Len: op.I(6)}
	if pos.Offset+pos.Len > utf8.RuneCountInString(text) {
		pos.Offset, pos.Len = 0, 1
	}
	msg := []string{"something is odd", "a <b> & \"c\"", "", "100% {{.Type}}", strings.Repeat("long ", 40), fmt.Sprint("no. ", op.N)}[op.I(7)%6]
	switch op.I(2) {
	case 0:
		return &parser.ParseError{Position: pos, Msg: msg}, "ERROR"
	case 1:
		return &parser.ParserMessage{Position: pos, Msg: msg, Type: parser.MsgHint}, "INFO"
	case 2:
		return &parser.ParserMessage{Position: pos, Msg: msg, Type: parser.MsgWarning}, "WARNING"
	case 3:
		return &parser.ParserMessage{Position: ast.NoPosition(), Msg: msg, Type: parser.MsgHint}, "INFO"
	case 4:
		return &parser.ParseError{Position: ast.NoPosition(), Msg: msg}, "ERROR"
	}
	return &parser.ParserMessage{Position: pos, Msg: msg, Type: parser.MsgError}, "ERROR"
}

var errWriter = errors.New("injected write failure 3e77")

// writeErr has the errors a writer may fail with.
func writeErr(k int) error {
	switch k % 6 {
	case 1:
		return io.ErrShortWrite
	case 2:
		return io.EOF
	case 3:
		return syscall.EPIPE
	case 4:
		return timeoutErr{}
	case 5:
		return io.ErrClosedPipe
	}
	return errWriter
}

type faultWriter struct {
	b     []byte
	left  int
	mode  int
	fired int
	kind  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	simrt.YS()
	fail := w.mode == 2 || (w.mode == 3 && w.fired == 0)
	if fail && (len(p) > w.left || w.fired > 0) {
		n := w.left
		if w.fired > 0 {
			n = 0
		}
		w.b = append(w.b, p[:n]...)
		w.left = 0
		w.fired++
		return n, writeErr(w.kind)
	}
	if w.mode == 4 {
		for i := range p {
			w.b = append(w.b, p[i])
			if i%16 == 0 {
				simrt.YS()
			}
		}
		return len(p), nil
	}
	w.b = append(w.b, p...)
	w.left -= len(p)
	return len(p), nil
}

func terminalText(m fmtmsg.Message, typ, text string) string {
	s := typ + ": " + m.Message()
	if m.Pos() != ast.NoPosition() {
		s += "\n    " + text + "\n    " + strings.Repeat(" ", m.Pos().Offset) + strings.Repeat("^", m.Pos().Len) + "\n"
	}
	return s
}

var printMark = regexp.MustCompile(`(?i)print error`)

func execPrint(c *Ctx, p *Plan) {
	fs, err := formatters(p.P["fmt"])
	if err != nil {
		c.Fail("print", "formatter: %v", err)
		return
	}
	// formatters and printers are shared by all tasks
	printers := make([][]*fmtmsg.Printer, len(fs))
	for i := range fs {
		for _, t := range p.Texts {
			printers[i] = append(printers[i], fs[i].WithQuery(string(t)))
		}
	}
	type pobs struct {
		op    *Op
		out   string
		fired int
	}
	all := make([][]pobs, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			var own parser.ParserMessage
			var ownErr parser.ParseError
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				if op.I(1) >= len(p.Texts) {
					continue
				}
				m, _ := printMsg(op, string(p.Texts[op.I(1)]))
				if p.P["reuse"] == 1 {
					switch x := m.(type) {
					case *parser.ParserMessage:
						own = *x
						m = &own
					case *parser.ParseError:
						ownErr = *x
						m = &ownErr
					}
				}
				pr := printers[op.I(0)%3][op.I(1)]
				simrt.YS()
				o := pobs{op: op}
				if op.I(3) == 0 {
					o.out = pr.Sprint(m)
				} else {
					w := &faultWriter{left: op.I(4), mode: op.I(3), kind: op.I(8)}
					pr.Fprint(w, m)
					o.out, o.fired = string(w.b), w.fired
				}
				all[ti] = append(all[ti], o)
			}
		})
	}
	c.Run(fns)
	for ti := range all {
		for _, o := range all[ti] {
			op := o.op
			text := string(p.Texts[op.I(1)])
			fresh, err := formatters(p.P["fmt"])
			if err != nil {
				c.Fail("print", "formatter: %v", err)
				return
			}
			m, typ := printMsg(op, text)
			want := fresh[op.I(0)%3].WithQuery(text).Sprint(m)
			if op.I(0)%3 == 0 && p.P["fmt"]%5 < 2 {
				if exp := terminalText(m, typ, text); exp != want {
					c.Fail("print", "message %+v formats as %q, want %q", m, want, exp)
					return
				}
			}
			c.Count("prints", 1)
			what := fmt.Sprintf("task %d formatter %d mode %d accepting %d bytes", ti, op.I(0)%3, op.I(3), op.I(4))
			if o.fired == 0 {
				if o.out != want {
					c.Fail("print", "%s: printed %q, want %q", what, o.out, want)
					return
				}
				continue
			}
			if op.I(3) == 2 {
				c.FaultFired("writer:permanent", 1)
				if !strings.HasPrefix(want, o.out) {
					c.Fail("print", "%s: the failing writer accepted %q, which is no prefix of %q", what, o.out, want)
					return
				}
				continue
			}
			c.FaultFired("writer:once", 1)
			at := printMark.FindStringIndex(o.out)
			if at == nil {
				c.Fail("print", "%s: the writer worked again, but the output %q is not marked as a print error (full text %q)", what, o.out, want)
				return
			}
			// what was accepted before the failure is a prefix of the text
			pre := o.out
			if len(pre) > op.I(4) {
				pre = pre[:op.I(4)]
			}
			if !strings.HasPrefix(want, pre) {
				c.Fail("print", "%s: before the failure %q was written, which is no prefix of %q", what, pre, want)
				return
			}
			// and nothing of the text follows the gap
			if i := at[0]; i > len(pre) && strings.IndexFunc(o.out[len(pre):i], func(c rune) bool { return unicode.IsLetter(c) || unicode.IsDigit(c) || c == '^' }) >= 0 {
				c.Fail("print", "%s: after the failure printing went on with %q", what, o.out[len(pre):i])
				return
			}
		}
	}
}

func printSome(text string, mode int, fs []*fmtmsg.Formatter) {
	op := &Op{N: []int{mode, 0, 0, 0, 0, 0, 1, mode}}
	if !ascii(text) {
		text = "a:1"
	}
	if fs == nil {
		var err error
		if fs, err = formatters(0); err != nil {
			return
		}
	}
	m, _ := printMsg(op, text)
	w := &faultWriter{left: 5, mode: 1 + mode}
	fs[mode%3].WithQuery(text).Fprint(w, m)
}
