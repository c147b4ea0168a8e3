//go:build wcore

package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"vsim/simrt"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
)

func init() {
	Scenarios["C01"] = &Scenario{Gen: genMatch, Exec: execMatch, Race: raceAny}
	Scenarios["C02"] = &Scenario{Gen: genMatch, Exec: execMatch, Race: raceBuf}
	Scenarios["C03"] = &Scenario{Gen: genMatch, Exec: execMatch}
	Scenarios["C04"] = &Scenario{Gen: genMatch, Exec: execMatch}
	Scenarios["C05"] = &Scenario{Gen: genMatch, Exec: execMatch, Race: raceStats}
	Scenarios["C19"] = &Scenario{Gen: genMatch, Exec: execMatch}
}

func raceBuf(c *Ctx, rep string) bool {
	for _, l := range strings.Split(rep, "\n") {
		i := strings.Index(l, " at 0x")
		if i < 0 {
			continue
		}
		var a uintptr
		fmt.Sscanf(l[i+4:], "%v", &a)
		for _, b := range c.Bufs {
			if a >= b.Lo && a < b.Hi {
				return true
			}
		}
	}
	return false
}

func raceStats(c *Ctx, rep string) bool { return strings.Contains(rep, ").Stats(") }

// twin replaces the words of a document by others of the same length.
func twin(r *Rng, doc []byte) []byte {
	s := string(doc)
	fives := []string{"alpha", "gamma", "delta", "omega", "hello", "world"}
	var out strings.Builder
	for i := 0; i < len(s); {
		done := false
		for _, w := range fives {
			if strings.HasPrefix(s[i:], w) {
				out.WriteString(fives[r.N(len(fives))])
				i += 5
				done = true
				break
			}
		}
		if done {
			continue
		}
		switch {
		case strings.HasPrefix(s[i:], "true,"):
			out.WriteString("null,")
			i += 5
		case strings.HasPrefix(s[i:], ":42") && r.Bool():
			out.WriteString(":10")
			i += 3
		case strings.HasPrefix(s[i:], ":0") && r.Bool():
			out.WriteString(":0")
			i += 2
		case strings.HasPrefix(s[i:], ":1") && r.Bool():
			out.WriteString(":2")
			i += 2
		default:
			out.WriteByte(s[i])
			i++
		}
	}
	return []byte(out.String())
}

// matchPool draws documents about which the queries disagree.
func matchPool(r *Rng, p *Plan, nq, nd int) {
	for i := 0; i < nq; i++ {
		n := r.PickI(1, 1, 2, 2, 3, 4, 6)
		if r.P(4) {
			n = r.Between(8, 30)
		}
		q := genQuery(r, n, 2)
		p.Queries = append(p.Queries, q)
		p.Texts = append(p.Texts, Bytes(q.Text(r)))
	}
	for len(p.Docs) < nd {
		switch {
		case r.P(6):
			p.Docs = append(p.Docs, genOddDoc(r))
		case r.P(4):
			p.Docs = append(p.Docs, genBigDoc(r, r.PickI(600, 3000, 5000, 9000)))
		case r.P(25) && len(p.Docs) > 0:
			p.Docs = append(p.Docs, twin(r, p.Docs[r.N(len(p.Docs))]))
		default:
			d := genDoc(r)
			p.Docs = append(p.Docs, d)
			if r.P(40) {
				p.Docs = append(p.Docs, twin(r, d))
			}
		}
	}
}

// familyPool draws clauses on one field and documents whose values of that
// field are easily taken for one another.
func familyPool(r *Rng, p *Plan, nq, nd int) {
	field := []string{r.Pick("a", "a", "ts", "ip")}
	if r.P(20) {
		field = []string{"n", "x"}
	}
	w := words[r.N(len(words))]
	for i := 0; i < nq; i++ {
		q := genLeaf(r)
		switch {
		case q.Op == "exists" || q.Op == "null" || r.P(35):
			q = &Q{Op: "eq", Vals: []V{{"r", r.Pick(w+"$", w, "^"+w, "(?i)"+w, strings.ToUpper(w), strings.ToUpper(w[:1])+w[1:], strings.ToLower(w), "("+w+")", w+"+", w+" ", "[a-z]", "[A-Z]", `\d`, `\D`, `\w+`, `\W+`)}}}
			if r.P(40) {
				q.Vals = []V{{"s", r.Pick(w, "*"+w, w+"*", "*"+w+"*")}}
			}
		}
		q.Field = append([]string(nil), field...)
		if r.P(15) {
			q = &Q{Op: "not", L: q}
		}
		p.Queries = append(p.Queries, q)
		p.Texts = append(p.Texts, Bytes(q.Text(r)))
	}
	prefix := strings.Repeat("prefix of many values ", r.PickI(1, 3, 6, 12, 50))
	val := func() string {
		x := words[r.N(len(words))]
		if r.P(40) {
			x = w
		}
		return x
	}
	kind := r.N(9)
	digits := r.PickI(3, 6, 9, 11, 14)
	tail := strings.Repeat("9", digits/2) + r.Pick("250", "007", ".50")
	if kind == 8 {
		// numbers that differ in one place
		for i := range p.Queries {
			q := &Q{Field: append([]string(nil), field...), Op: r.Pick("gt", "gte", "lt", "lte", "eq", "bet")}
			lim := func(k int) V {
				if strings.Contains(tail, ".") {
					return V{"f", fmt.Sprintf("%d%s", k, tail)}
				}
				return V{"i", fmt.Sprintf("%d%s", k, tail)}
			}
			k := r.Between(2, 8)
			q.Vals = []V{lim(k)}
			if q.Op == "bet" {
				q.Vals = append(q.Vals, lim(r.Between(k+1, 9)))
			}
			p.Queries[i], p.Texts[i] = q, Bytes(q.Text(r))
		}
	}
	for i := 0; i < nd; i++ {
		var v string
		switch kind {
		case 7: // the same field in the same place of the text, but not of the document
			x := `"` + val() + `"`
			if r.P(40) {
				x = r.Pick(ints...)
			}
			f := `"` + field[len(field)-1] + `":` + x
			y := r.Pick(ints...)
			lead := []string{`{"q":1,`, `{"q":{`, `{"q":[{`, `[{"q":1,`, `{"q":"",`, `{"q":[],`, `{"q":{},`, `{"q":{"r":1,`, `{"q":[{"r":1},{`, `{"q":"\\",`, `{"q":"x\",`}
			tail := []string{`}`, `}}`, `}]}`, `}]`, `}`, `}`, `}`, `}}`, `}]}`, `}`, `"}`}
			k := r.N(len(lead))
			pad := strings.Repeat(" ", 16-len(lead[k]))
			if k == 10 {
				f = strings.ReplaceAll(f, `"`, `\"`)
			}
			d := lead[k] + pad + f
			if r.P(30) && k != 10 {
				d += `,"z":` + y
			}
			d += tail[k]
			if r.P(30) && strings.HasSuffix(d, "}") {
				d = d[:len(d)-1] + `,"` + field[len(field)-1] + `":` + y + `}`
			}
			for j := len(field) - 2; j >= 0; j-- {
				d = `{"` + field[j] + `":` + d + `}`
			}
			p.Docs = append(p.Docs, Bytes(d))
			continue
		case 8:
			x := fmt.Sprintf("%d%s", r.Between(1, 9), tail)
			if r.P(30) && !strings.Contains(x, ".") {
				x = x[:len(x)/2] + fmt.Sprint(r.N(10)) + x[len(x)/2+1:]
			}
			p.Docs = append(p.Docs, famDoc(field, r.Pick(x, x, `"`+x+`"`, "-"+x)))
			continue
		case 0: // the same beginning
			v = prefix + val()
		case 1: // the same end
			v = val() + " " + prefix
		case 2: // the same beginning and end
			v = prefix + val() + " " + prefix
		case 3: // letter case and blanks
			v = r.Pick(val(), strings.ToUpper(val()), " "+val(), val()+" ", strings.Title(val()), val()+"s")
		case 4: // numbers and their texts
			p.Docs = append(p.Docs, famDoc(field, r.Pick(`1`, `1.0`, `"1"`, `true`, `"true"`, `10`, `"10"`, `1e1`, `-1`, `0`, `-0`, `"0"`, `null`, `"null"`, `""`, `[]`, `{}`, `[1]`, `["1"]`, `2.5`, `"2.5"`, `255`, `256`, `65535`, `65536`, `4294967296`, `42`, `42.0`)))
			continue
		case 5: // instants
			v = r.Pick(times...)
			if r.P(40) {
				v = r.Pick(days...)
			}
		case 6: // lists
			var parts []string
			for k, n := 0, r.Between(0, 3); k < n; k++ {
				parts = append(parts, r.Pick(`"`+val()+`"`, `"`+prefix+val()+`"`, `1`, `"10.0.0.1"`, `null`))
			}
			p.Docs = append(p.Docs, famDoc(field, "["+strings.Join(parts, ",")+"]"))
			continue
		}
		p.Docs = append(p.Docs, famDoc(field, `"`+v+`"`))
	}
}

func famDoc(field []string, v string) Bytes {
	for i := len(field) - 1; i >= 0; i-- {
		v = `{"` + field[i] + `":` + v + `}`
	}
	return Bytes(v)
}

func genMatch(r *Rng, p *Plan) {
	nt := r.PickI(2, 2, 2, 3, 3, 4, 5, 6, 8)
	nq := r.PickI(1, 1, 2, 3)
	nd := r.Between(2, 8)
	nops := r.PickI(2, 4, 8, 12, 24)
	p.Kind = "mixed"
	long := 0
	switch {
	case r.P(8):
		p.Kind = "history"
		nt, nops = r.PickI(1, 1, 2), r.Between(40, 200)
		nd = r.Between(4, 12)
	case r.P(3) || (p.Prop == "C19" && r.P(5)):
		p.Kind = "leak" // the same failure or success very often
		nt, nq, nops = r.PickI(1, 2, 2, 3), r.PickI(1, 2), r.PickI(2, 4, 6)
	case r.P(2):
		p.Kind = "long"
		nt, nq, nops = 2, 1, 3
		long = r.PickI(300, 1100, 4200, 10100)
		if r.P(25) {
			long = 66000
			nt = 1
		}
	}
	if long == 0 && r.P(12) {
		nd = r.Between(3, 16)
		familyPool(r, p, nq, nd)
	} else {
		matchPool(r, p, nq, nd)
	}
	if long > 0 {
		// tiny query and documents
		q := genQuery(r, r.Between(1, 3), 1)
		p.Queries, p.Texts = []*Q{q}, []Bytes{Bytes(q.Text(r))}
		if long > 20000 {
			p.Docs = []Bytes{Bytes(`{"a":"alpha","b":1}`), Bytes(`{"a":"omega","b":7}`)}
			q = &Q{Op: "eq", Field: []string{"a"}, Vals: []V{{"s", "alpha"}}}
			if r.Bool() {
				q = &Q{Op: "gt", Field: []string{"b"}, Vals: []V{{"i", "5"}}}
			}
			p.Queries, p.Texts = []*Q{q}, []Bytes{Bytes(q.Text(nil))}
		}
	}
	if p.Kind == "leak" {
		p.Queries, p.Texts = nil, nil
		for i := 0; i < nq; i++ {
			q := genQuery(r, r.Between(1, 2), 0)
			p.Queries, p.Texts = append(p.Queries, q), append(p.Texts, Bytes(q.Text(nil)))
		}
		p.Docs = nil
		for i := 0; i < 4; i++ {
			p.Docs = append(p.Docs, genDoc(r))
		}
	}
	nd = len(p.Docs)
	if p.Prop == "C03" {
		// some large documents, damaged late
		if r.P(12) && long == 0 {
			p.Docs = append(p.Docs, genBigDoc(r, r.PickI(4000, 4200, 66000, 70000)))
		}
		if r.P(1) && long == 0 && nt*nops <= 48 {
			p.Docs = append(p.Docs, genBigDoc(r, 1_200_000))
		}
		nd = len(p.Docs)
	}
	streaks := p.Kind == "history" && r.P(50)
	for t := 0; t < nt; t++ {
		var ops []Op
		n := nops
		if streaks {
			// the same again and again, and then something else
			if n > 60 {
				n = 60
			}
			for i, k := 0, r.Between(1, 2); i < k; i++ {
				ops = append(ops, Op{K: "loop", N: []int{r.N(len(p.Queries)), r.N(nd), r.PickI(70, 130, 260, 520, 1030)}})
			}
		}
		if long > 0 {
			n = 1
			ops = append(ops, Op{K: "loop", N: []int{0, r.N(nd), long}})
			ops = append(ops, Op{K: "loop", N: []int{0, r.N(nd), r.Between(2, 300)}})
		}
		if p.Kind == "leak" {
			for i, k := 0, r.Between(1, 2); i < k; i++ {
				o := Op{K: "rep", N: []int{r.N(len(p.Queries)), r.N(nd), r.N(len(damageKinds)), r.N(1001), r.N(64), r.N(repKinds), r.PickI(20, 40, 70, 130, 300)}}
				if r.P(6) {
					o.N[6] = 1100
				}
				o.S = []Bytes{genBadText(r, string(p.Texts[0]))}
				ops = append(ops, o)
			}
		}
		for i := 0; i < n; i++ {
			m, d := r.N(len(p.Queries)), r.N(nd)
			ops = append(ops, genMatchOp(r, p, m, d))
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
	p.Sched.Hold = p.Prop == "C19"
	p.P["prewarm"] = 0
	if r.P(30) {
		p.P["prewarm"] = 1 // matchers used before the tasks start
	}
	if r.P(30) {
		p.P["inside"] = 1 // matchers built by the first task instead of beforehand
	}
}

// What a "rep" operation repeats: 0 rejected document, 1 rejected query,
// 2 failing reader, 3 failing print, 4 new matcher, 5 sampling, 6 statistics,
// 7 empty document, 8 messages.
const repKinds = 9

// atMost bounds how often an operation is repeated on a document.
func atMost(n int, doc []byte) int {
	if most := 8<<20/(len(doc)+1) + 2; n > most {
		return most
	}
	return n
}

func (mr *matchRun) rep(op *Op, o *obs) {
	m, d := op.I(0), op.I(1)
	what := op.I(5) % repKinds
	n := atMost(op.I(6), mr.docs[d])
	if n > 300 && what != 0 && what != 6 && what != 7 && what != 8 {
		n = 300
	}
	for i := 0; i < n; i++ {
		switch what {
		case 0, 7:
			doc := mr.damaged[op]
			if what == 7 {
				doc = nil
			}
			v, err := mr.matchers[m].Match(append([]byte(nil), doc...))
			if valid := json.Valid(doc); err != nil && valid || err == nil && !valid || err != nil && v {
				o.bad = fmt.Sprintf("call %d on %s gave (%v, %v)", i+1, clip(doc), v, err)
				return
			}
		case 1:
			jsonmatcher.NewMatcher(string(op.B(0)))
			parser.ParseQuery(string(op.B(0)))
		case 2:
			t := mr.texts[m]
			if _, err := parser.ParseQueryReader(&faultReader{data: []byte(t), failAt: op.I(4) % len(t)}); err == nil {
				o.bad = "a query whose reader failed was accepted"
				return
			}
		case 3:
			printSome(mr.texts[m], i%3, mr.fs)
		case 4:
			mt, err := jsonmatcher.NewMatcher(mr.texts[m])
			if err != nil {
				o.bad = "valid query was rejected: " + err.Error()
				return
			}
			mt.Match(mr.shared[d])
		case 5:
			sampleSome(mr.docs[d])
		case 6:
			mr.matchers[m].Stats()
		case 8:
			mr.matchers[m].Messages()
		}
	}
	o.n = n
}

func genMatchOp(r *Rng, p *Plan, m, d int) Op {
	match := Op{K: "match", N: []int{m, d}}
	bad := func() Op {
		at := r.N(1001)
		if r.P(35) {
			at = r.PickI(0, 999, 1000, 990, 995, 5)
		}
		return Op{K: "bad", N: []int{m, d, r.N(len(damageKinds)), at, r.N(64), r.N(2)}}
	}
	switch p.Prop {
	case "C01":
		switch r.N(20) {
		case 0:
			return Op{K: "stats", N: []int{m}}
		case 1:
			return Op{K: "msgs", N: []int{m}}
		case 2:
			return Op{K: "query", N: []int{m}}
		case 3:
			return Op{K: "new", N: []int{m, d}}
		case 4, 5:
			return bad()
		case 6:
			return Op{K: "badq", S: []Bytes{genBadText(r, string(p.Texts[m]))}}
		case 7:
			return Op{K: "loop", N: []int{m, d, r.Between(2, 20)}}
		}
		return match
	case "C02":
		switch r.N(12) {
		case 0, 1, 2:
			return Op{K: "buf", N: []int{m, d, r.N(3), r.N(4)}}
		case 3, 4:
			return Op{K: "ro", N: []int{m, d}}
		case 5:
			return Op{K: "stats", N: []int{m}}
		case 6:
			return bad()
		case 7:
			return Op{K: "query", N: []int{m}}
		case 8:
			return Op{K: "msgs", N: []int{m}}
		}
		return Op{K: "shared", N: []int{m, d}}
	case "C03":
		switch r.N(10) {
		case 0, 1, 2:
			return match
		case 3:
			return Op{K: "flipback", N: []int{m, d, r.N(len(damageKinds)), r.N(1001), r.N(64)}}
		case 4:
			return Op{K: "stats", N: []int{m}}
		}
		return bad()
	case "C04":
		switch r.N(20) {
		case 0:
			return Op{K: "stats", N: []int{m}}
		case 1, 2:
			return bad()
		case 3:
			return Op{K: "loop", N: []int{m, d, r.Between(2, 40)}}
		case 4:
			return Op{K: "new", N: []int{m, d}}
		}
		return match
	case "C05":
		switch r.N(10) {
		case 0, 1, 2, 3:
			return Op{K: "stats", N: []int{m, r.N(4)}}
		case 4:
			return bad()
		case 5:
			return Op{K: "loop", N: []int{m, d, r.Between(2, 12)}}
		}
		return match
	case "C19":
		switch r.N(12) {
		case 0, 1:
			return Op{K: "stats", N: []int{m}}
		case 2, 3:
			return bad()
		case 4:
			return Op{K: "new", N: []int{m, d}}
		case 5:
			return Op{K: "badq", S: []Bytes{genBadText(r, string(p.Texts[m]))}}
		case 6:
			return Op{K: "msgs", N: []int{m}}
		case 7:
			return Op{K: "print", N: []int{m, r.N(3), r.N(2)}}
		case 8:
			return Op{K: "sample", N: []int{d}}
		case 9:
			return Op{K: "readfail", N: []int{m, r.N(200)}}
		case 10:
			return Op{K: "within", N: []int{m, d, r.N(3), r.N(2), r.N(40)}}
		}
		return match
	}
	return match
}

type obs struct {
	op     *Op
	m, d   int
	n      int // how many calls this stands for
	s0, s1 uint64
	v      bool
	err    string
	doc    []byte // the document actually passed
	snap   *jsonmatcher.MatchStats
	copy   *jsonmatcher.MatchStats
	text   string
	own    uint64
	bad    string
	kind   string
}

type matchRun struct {
	c        *Ctx
	p        *Plan
	matchers []*jsonmatcher.Matcher
	built    []uint32
	shared   [][]byte
	damaged  map[*Op][]byte
	obs      [][]obs
	texts    []string
	docs     [][]byte
	maps     [][]byte
	parsed   map[string]*D
	alone    map[string]bool
	msgs     []string
	fs       []*fmtmsg.Formatter // shared by the tasks
	others   *waitSet
}

// waitSet lets a task wait, inside a call, until every other task has finished
// or waits like itself.
type waitSet struct {
	mu   sync.Mutex
	idle []bool
}

func (w *waitSet) set(ti int, v bool) {
	w.mu.Lock()
	w.idle[ti] = v
	w.mu.Unlock()
}

func (w *waitSet) wait(ti int) {
	w.set(ti, true)
	for {
		w.mu.Lock()
		all := true
		for _, v := range w.idle {
			all = all && v
		}
		w.mu.Unlock()
		if all {
			break
		}
		simrt.Block()
	}
	w.set(ti, false)
}

type hookReader struct {
	text string
	pos  int
	at   int
	f    func()
}

func (h *hookReader) Read(p []byte) (int, error) {
	if h.pos >= h.at && h.f != nil {
		f := h.f
		h.f = nil
		f()
	}
	if h.pos >= len(h.text) {
		return 0, io.EOF
	}
	n := copy(p, h.text[h.pos:])
	if h.f != nil && h.pos+n > h.at {
		n = h.at - h.pos
	}
	h.pos += n
	return n, nil
}

type hookWriter struct{ f func() }

func (h *hookWriter) Write(p []byte) (int, error) {
	if h.f != nil {
		f := h.f
		h.f = nil
		f()
	}
	return len(p), nil
}

// within makes a call that reads, visits or writes, and from within it waits for
// the other tasks or makes other calls.
func (mr *matchRun) within(ti int, op *Op, o *obs) {
	m, d := op.I(0), op.I(1)
	t := mr.texts[m]
	f := func() { mr.others.wait(ti) }
	if op.I(3) == 1 {
		f = func() {
			parser.ParseQuery(t)
			if mt, err := jsonmatcher.NewMatcher(t); err == nil {
				mt.Match(mr.shared[d])
			}
			mr.matchers[m].Match(mr.shared[d])
			mr.matchers[m].Stats()
			parser.ParseQuery("a:")
			printSome(t, 0, mr.fs)
			sampleSome(mr.docs[d])
		}
	}
	var err error
	switch op.I(2) {
	case 0:
		_, err = parser.ParseQueryReader(&hookReader{text: t, at: op.I(4) % (len(t) + 1), f: f})
	case 1:
		at := op.I(4) % 4
		_, err = parser.ParseQuery(t, parser.Visitors(parser.VisitorFunc(func(ast.Node) error {
			if at == 0 {
				f()
			}
			at--
			return nil
		})))
	case 2:
		msg, _ := printMsg(&Op{N: []int{0, 0, 0, 0, 0, 0, 1, 0}}, "a:1")
		mr.fs[op.I(4)%3].WithQuery("a:1").Fprint(&hookWriter{f: f}, msg)
	}
	if err != nil {
		o.bad = "valid query was rejected: " + err.Error()
	}
}

func copyStats(s *jsonmatcher.MatchStats) *jsonmatcher.MatchStats {
	if s == nil {
		return nil
	}
	x := &jsonmatcher.MatchStats{NodeName: s.NodeName, TimesChecked: s.TimesChecked, TimesMatched: s.TimesMatched}
	for _, k := range s.Children {
		x.Children = append(x.Children, copyStats(k))
	}
	return x
}

func equalStats(a, b *jsonmatcher.MatchStats) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.NodeName != b.NodeName || a.TimesChecked != b.TimesChecked || a.TimesMatched != b.TimesMatched || len(a.Children) != len(b.Children) {
		return false
	}
	for i := range a.Children {
		if !equalStats(a.Children[i], b.Children[i]) {
			return false
		}
	}
	return true
}

func spoilStats(s *jsonmatcher.MatchStats) {
	if s == nil {
		return
	}
	for _, k := range s.Children {
		spoilStats(k)
	}
	s.TimesChecked, s.TimesMatched, s.NodeName = -7, 1<<40, "spoiled"
	for i := range s.Children {
		s.Children[i] = nil
	}
}

func msgsText(ms []*parser.ParserMessage) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&b, "%d|%+v|%s\n", m.Type, m.Position, m.Msg)
	}
	return b.String()
}

const canary = 0xA5

// padded returns a copy of the document with spare capacity full of canaries.
func padded(doc []byte, extra int) []byte {
	b := make([]byte, len(doc)+extra)
	for i := range b {
		b[i] = canary
	}
	copy(b, doc)
	return b[:len(doc)]
}

func intact(b, doc []byte) string {
	if !bytes.Equal(b, doc) {
		return "document bytes changed"
	}
	rest := b[len(b):cap(b)]
	for _, x := range rest {
		if x != canary {
			return "bytes behind the document changed"
		}
	}
	return ""
}

func execMatch(c *Ctx, p *Plan) {
	mr := &matchRun{c: c, p: p, parsed: map[string]*D{}, alone: map[string]bool{}, damaged: map[*Op][]byte{}}
	for _, t := range p.Texts {
		mr.texts = append(mr.texts, string(t))
	}
	for _, d := range p.Docs {
		mr.docs = append(mr.docs, []byte(d))
	}
	mr.others = &waitSet{idle: make([]bool, len(p.Tasks))}
	if p.Prop == "C19" {
		var err error
		if mr.fs, err = formatters(0); err != nil {
			c.Fail("print", "formatter: %v", err)
			return
		}
	}
	mr.matchers = make([]*jsonmatcher.Matcher, len(mr.texts))
	mr.built = make([]uint32, len(mr.texts))
	inside := p.P["inside"] == 1
	if !inside {
		mr.build()
		if c.Failed() {
			return
		}
	}
	if p.P["prewarm"] == 1 && !inside {
		for i := range mr.matchers {
			for _, d := range mr.docs {
				mr.matchers[i].Match(append([]byte(nil), d...))
			}
			mr.matchers[i].Stats()
		}
	}
	// documents shared by all tasks
	for _, d := range mr.docs {
		b := padded(d, 40)
		mr.shared = append(mr.shared, b)
		if len(b) > 0 {
			c.Bufs = append(c.Bufs, rangeOf(b))
		}
	}
	for ti := range p.Tasks {
		for oi := range p.Tasks[ti] {
			op := &p.Tasks[ti][oi]
			if op.K == "bad" || op.K == "flipback" || op.K == "rep" {
				if op.I(1) < len(mr.docs) {
					mr.damaged[op] = damage(damageKinds[op.I(2)%len(damageKinds)], mr.docs[op.I(1)], op.I(3), op.I(4))
				}
			}
			if op.K == "ro" && op.I(1) < len(mr.docs) {
				op := op
				mr.mapRO(op)
			}
		}
	}
	mr.obs = make([][]obs, len(p.Tasks))
	var fns []func()
	ready := new(simFlag)
	for ti := range p.Tasks {
		ti := ti
		n := 0
		for i := range p.Tasks[ti] {
			n += 1 + min0(p.Tasks[ti][i].I(2), 50)
		}
		mr.obs[ti] = make([]obs, 0, n+1)
		fns = append(fns, func() {
			if inside {
				if ti == 0 {
					mr.build()
					ready.set()
				} else {
					for !ready.get() {
						simrt.Block()
					}
				}
				if c.Failed() {
					return
				}
			}
			defer mr.others.set(ti, true)
			st := &taskBufs{}
			for i := range p.Tasks[ti] {
				simrt.YS()
				mr.op(ti, &p.Tasks[ti][i], st)
			}
		})
	}
	c.Run(fns)
	mr.check()
	for _, m := range mr.maps {
		syscall.Munmap(m)
	}
}

func min0(a, b int) int {
	if a < 0 {
		return 0
	}
	if a < b {
		return a
	}
	return b
}

func rangeOf(b []byte) AddrRange {
	lo := uintptr(unsafe.Pointer(&b[0]))
	return AddrRange{lo, lo + uintptr(cap(b))}
}

// mapRO puts the document of an operation into a page that cannot be written.
func (mr *matchRun) mapRO(op *Op) {
	d := mr.docs[op.I(1)]
	size := (len(d)/4096 + 1) * 4096
	m, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		return
	}
	copy(m, d)
	syscall.Mprotect(m, syscall.PROT_READ)
	mr.maps = append(mr.maps, m)
	mr.damaged[op] = m[:len(d)]
}

func (mr *matchRun) build() {
	for i, t := range mr.texts {
		m, err := jsonmatcher.NewMatcher(t)
		if err != nil {
			mr.c.Fail("rejected", "valid query %q was rejected: %v", t, err)
			return
		}
		mr.matchers[i] = m
	}
}

type taskBufs struct {
	buf [3][]byte
}

func (mr *matchRun) put(ti int, o obs) { mr.obs[ti] = append(mr.obs[ti], o) }

func (mr *matchRun) op(ti int, op *Op, st *taskBufs) {
	m, d := op.I(0), op.I(1)
	needM := op.K != "badq" && op.K != "sample"
	if needM && (m >= len(mr.matchers)) {
		return
	}
	needD := strings.Contains(" match loop new bad flipback buf ro shared rep within ", " "+op.K+" ")
	if needD && d >= len(mr.docs) {
		return
	}
	o := obs{op: op, m: m, d: d, n: 1, kind: op.K}
	begin := func() { o.s0 = simrt.Stamp(); o.own = simrt.OwnSteps() }
	end := func() { o.own = simrt.OwnSteps() - o.own; o.s1 = simrt.Stamp() }
	call := func(mt *jsonmatcher.Matcher, doc []byte) {
		begin()
		v, err := mt.Match(doc)
		end()
		o.v = v
		if err != nil {
			o.err = err.Error()
			if o.err == "" {
				o.err = "error"
			}
		}
	}
	switch op.K {
	case "match", "shared":
		o.doc = mr.docs[d]
		call(mr.matchers[m], mr.shared[d])
		mr.put(ti, o)
	case "loop":
		n := atMost(op.I(2), mr.docs[d])
		o.doc = mr.docs[d]
		if n <= 50 {
			for i := 0; i < n; i++ {
				o.err = ""
				call(mr.matchers[m], mr.shared[d])
				mr.put(ti, o)
			}
			return
		}
		begin()
		first := true
		for i := 0; i < n; i++ {
			v, err := mr.matchers[m].Match(mr.shared[d])
			e := ""
			if err != nil {
				e = err.Error()
			}
			if first {
				o.v, o.err = v, e
				first = false
			} else if v != o.v || e != o.err {
				if o.bad == "" {
					o.bad = fmt.Sprintf("call %d of %d on the same document returned (%v, %q) after (%v, %q)", i+1, n, v, e, o.v, o.err)
				}
			}
		}
		end()
		o.own = 0
		o.n = n
		mr.put(ti, o)
	case "new":
		begin()
		mt, err := jsonmatcher.NewMatcher(mr.texts[m])
		end()
		if err != nil {
			o.bad = "valid query was rejected: " + err.Error()
			mr.put(ti, o)
			return
		}
		o.doc = mr.docs[d]
		call(mt, mr.shared[d])
		o.kind = "private"
		mr.put(ti, o)
	case "badq":
		begin()
		_, err := jsonmatcher.NewMatcher(string(op.B(0)))
		end()
		if err != nil {
			o.err = err.Error()
		}
		mr.put(ti, o)
	case "bad":
		o.doc = mr.damaged[op]
		if o.doc == nil && mr.docs[d] == nil {
			return
		}
		b := padded(o.doc, 16)
		if op.I(5) == 0 {
			b = append([]byte(nil), o.doc...)
		}
		call(mr.matchers[m], b)
		if !bytes.Equal(b, o.doc) {
			o.bad = "document bytes changed"
		}
		mr.put(ti, o)
	case "flipback":
		// the same buffer: good, damaged in place, good again
		good := mr.docs[d]
		bd := mr.damaged[op]
		n := len(good)
		if len(bd) > n {
			n = len(bd)
		}
		b := make([]byte, n)
		for i := 0; i < 3; i++ {
			src := good
			if i == 1 {
				src = bd
			}
			copy(b, src)
			o.doc = src
			o.err = ""
			call(mr.matchers[m], b[:len(src)])
			mr.put(ti, o)
		}
	case "buf":
		// private buffer that is reused for other contents after the call
		k := op.I(2) % 3
		doc := mr.docs[d]
		need := len(doc) + 24
		if cap(st.buf[k]) < need {
			st.buf[k] = make([]byte, need, need)
		}
		full := st.buf[k][:cap(st.buf[k])]
		for i := range full {
			full[i] = canary
		}
		copy(full, doc)
		b := full[:len(doc)]
		o.doc = doc
		call(mr.matchers[m], b)
		o.bad = intact(b, doc)
		switch op.I(3) % 4 {
		case 0:
			for i := range full {
				full[i] = 'x'
			}
		case 1:
			for i := range b {
				if b[i] >= 'a' && b[i] <= 'z' {
					b[i] = 'z'
				} else if b[i] >= '0' && b[i] <= '9' {
					b[i] = '9'
				}
			}
		case 2:
			for i := range full {
				full[i] = 0
			}
		}
		mr.put(ti, o)
	case "ro":
		o.doc = mr.docs[d]
		b := mr.damaged[op]
		if b == nil {
			return
		}
		call(mr.matchers[m], b)
		// from now on not even reading it is possible
		syscall.Mprotect(b[:0:cap(b)][:cap(b)], syscall.PROT_NONE)
		o.kind = "match"
		mr.put(ti, o)
	case "stats":
		begin()
		s := mr.matchers[m].Stats()
		o.copy = copyStats(s)
		end()
		if op.I(1) == 1 {
			spoilStats(s)
		} else {
			o.snap = s
		}
		mr.put(ti, o)
	case "msgs":
		begin()
		o.text = msgsText(mr.matchers[m].Messages())
		end()
		mr.put(ti, o)
	case "query":
		begin()
		o.text = mr.matchers[m].Query()
		end()
		mr.put(ti, o)
	case "rep":
		o.doc = mr.damaged[op]
		begin()
		mr.rep(op, &o)
		end()
		o.own = 0
		mr.put(ti, o)
	case "within":
		begin()
		mr.within(ti, op, &o)
		end()
		o.own = 0
		mr.put(ti, o)
	case "print":
		begin()
		if op.I(2) == 1 {
			printSome(mr.texts[m], op.I(1), mr.fs)
		} else {
			printSome(mr.texts[m], op.I(1), nil)
		}
		end()
		mr.put(ti, o)
	case "sample":
		if op.I(0) >= len(mr.docs) {
			return
		}
		begin()
		sampleSome(mr.docs[op.I(0)])
		end()
		mr.put(ti, o)
	case "readfail":
		begin()
		_, err := parser.ParseQueryReader(&faultReader{data: []byte(mr.texts[m]), failAt: op.I(1)})
		end()
		if err != nil {
			o.err = err.Error()
		}
		mr.put(ti, o)
	}
}

func (mr *matchRun) parse(doc []byte) *D {
	k := string(doc)
	if d, ok := mr.parsed[k]; ok {
		return d
	}
	d := ParseDoc(doc)
	mr.parsed[k] = d
	return d
}

// aloneVerdict is the verdict of a fresh matcher on its only document.
func (mr *matchRun) aloneVerdict(text string, doc []byte) (bool, bool) {
	k := text + "\x00" + string(doc)
	if v, ok := mr.alone[k]; ok {
		return v, true
	}
	m, err := jsonmatcher.NewMatcher(text)
	if err != nil {
		mr.c.Fail("rejected", "valid query %q was rejected: %v", text, err)
		return false, false
	}
	v, err := m.Match(append([]byte(nil), doc...))
	if err != nil {
		mr.c.Fail("verdict", "valid document %s was rejected: %v", clip(doc), err)
		return false, false
	}
	mr.alone[k] = v
	return v, true
}

func (mr *matchRun) leafVerdict(doc []byte) func(*Q) bool {
	d := mr.parse(doc)
	own := mr.drawn(doc)
	return func(q *Q) bool {
		if t := q.evalLeaf(d); t != Unk && own {
			return t == True
		}
		v, _ := mr.aloneVerdict(q.Text(nil), doc)
		return v
	}
}

// drawn tells whether the document comes from the generator: only for those
// does the model say what the verdict is. A document that is valid in spite of
// damage may contain anything.
func (mr *matchRun) drawn(doc []byte) bool {
	for _, d := range mr.docs {
		if bytes.Equal(d, doc) {
			return true
		}
	}
	return false
}

func (mr *matchRun) checkMatch(ti int, o *obs) {
	c := mr.c
	if o.bad != "" {
		c.Fail("verdict", "task %d %s query %q document %s: %s", ti, o.kind, mr.texts[o.m], clip(o.doc), o.bad)
		return
	}
	if !json.Valid(o.doc) {
		if o.err == "" {
			c.Fail("accepted", "task %d: damaged document %s was accepted (verdict %v, query %q)", ti, clip(o.doc), o.v, mr.texts[o.m])
		} else if o.v {
			c.Fail("accepted", "task %d: damaged document %s got a true verdict (query %q)", ti, clip(o.doc), mr.texts[o.m])
		}
		c.Count("rejected_documents", o.n)
		return
	}
	if o.err != "" {
		c.Fail("refused", "task %d: valid document %s was rejected: %s (query %q)", ti, clip(o.doc), o.err, mr.texts[o.m])
		return
	}
	c.Count("match_calls", o.n)
	if o.v {
		c.Count("true_verdicts", o.n)
	}
	if t := mr.p.Queries[o.m].Eval(mr.parse(o.doc)); t != Unk && mr.drawn(o.doc) {
		c.Count("model_decided", 1)
		if o.v != (t == True) {
			c.Fail("verdict", "task %d: query %q on %s returned %v, the query defines %v", ti, mr.texts[o.m], clip(o.doc), o.v, t == True)
		}
		return
	}
	c.Count("alone_decided", 1)
	if a, ok := mr.aloneVerdict(mr.texts[o.m], o.doc); ok && a != o.v {
		c.Fail("verdict", "task %d: query %q on %s returned %v, alone it gives %v", ti, mr.texts[o.m], clip(o.doc), o.v, a)
	}
}

// tally returns the counts of the nodes (walk order) for one call.
func (mr *matchRun) tally(m int, doc []byte, memo map[string][]Counts) []Counts {
	k := fmt.Sprint(m) + "\x00" + string(doc)
	if t, ok := memo[k]; ok {
		return t
	}
	q := mr.p.Queries[m]
	idx := map[*Q]int{}
	q.walk(func(x *Q) { idx[x] = len(idx) })
	t := make([]Counts, len(idx))
	q.Tally(mr.leafVerdict(doc), func(x *Q, res bool) {
		t[idx[x]].Checked++
		if res {
			t[idx[x]].Matched++
		}
	})
	memo[k] = t
	return t
}

// flat lists the nodes of a statistics tree in walk order, checking its shape.
func (mr *matchRun) flat(q *Q, s *jsonmatcher.MatchStats, out *[]Counts) string {
	if s == nil {
		return "a node of the statistics tree is missing"
	}
	*out = append(*out, Counts{s.TimesChecked, s.TimesMatched})
	want := 0
	if q.L != nil {
		want++
	}
	if q.R != nil {
		want++
	}
	if len(s.Children) != want {
		return fmt.Sprintf("node %q (%s) has %d children, want %d", s.NodeName, q.Op, len(s.Children), want)
	}
	if q.leaf() {
		last := q.Field[len(q.Field)-1]
		if ascii(last) && !strings.Contains(s.NodeName, last) {
			return fmt.Sprintf("node %q stands for field %v", s.NodeName, q.Field)
		}
		return ""
	}
	if !strings.EqualFold(s.NodeName, q.Op) {
		return fmt.Sprintf("node %q stands for %s", s.NodeName, q.Op)
	}
	if e := mr.flat(q.L, s.Children[0], out); e != "" {
		return e
	}
	if q.R != nil {
		return mr.flat(q.R, s.Children[1], out)
	}
	return ""
}

func (mr *matchRun) check() {
	c, p := mr.c, mr.p
	if c.Failed() {
		return
	}
	// final statistics first, before anything else touches the shared matchers
	final := make([]*jsonmatcher.MatchStats, len(mr.matchers))
	for i, m := range mr.matchers {
		final[i] = copyStats(m.Stats())
	}
	for i, b := range mr.shared {
		if s := intact(b, mr.docs[i]); s != "" {
			c.Fail("modified", "shared document %s: %s", clip(mr.docs[i]), s)
			return
		}
	}
	maxOwn := uint64(0)
	for ti := range mr.obs {
		for i := range mr.obs[ti] {
			o := &mr.obs[ti][i]
			if o.own > maxOwn {
				maxOwn = o.own
			}
			// parsing is exponential in nested parentheses, matching is not
			if p.Prop == "C19" && o.own > 40_000_000 || (p.Prop == "C19" && o.own > 8_000_000 && (o.kind == "match" || o.kind == "stats")) {
				c.Fail("steps", "task %d: %s took %d steps of its own", ti, o.kind, o.own)
				return
			}
			c.Count("ops_"+o.kind, 1)
			c.Mix(uint64(len(o.err)))
			switch o.kind {
			case "match", "shared", "loop", "private", "bad", "flipback", "buf":
				if o.v {
					c.Mix(1)
				}
				mr.checkMatch(ti, o)
				if o.doc != nil && !json.Valid(o.doc) {
					c.FaultFired("document:"+damageKinds[o.op.I(2)%len(damageKinds)], 1)
				}
			case "new":
				if o.bad != "" {
					c.Fail("rejected", "task %d: %q: %s", ti, mr.texts[o.m], o.bad)
				}
			case "rep":
				c.Count("repeated_calls", o.n)
				if o.bad != "" {
					c.Fail("repeated", "task %d: query %q, repeated call: %s", ti, mr.texts[o.m], o.bad)
				} else if o.op.I(5)%repKinds < 4 {
					c.FaultFired("repeated:"+[]string{"document", "query", "reader", "writer"}[o.op.I(5)%repKinds], o.n)
				}
			case "within":
				if o.bad != "" {
					c.Fail("rejected", "task %d: %q: %s", ti, mr.texts[o.m], o.bad)
				}
				c.FaultFired("caller:"+[]string{"reader", "visitor", "writer"}[o.op.I(2)%3]+[]string{" waits", " calls"}[o.op.I(3)%2], 1)
			case "badq":
				if o.err != "" {
					c.FaultFired("query:rejected", 1)
				}
			case "msgs":
				m, err := jsonmatcher.NewMatcher(mr.texts[o.m])
				if err == nil {
					if want := msgsText(m.Messages()); want != o.text {
						c.Fail("messages", "task %d: messages of %q are %q, want %q", ti, mr.texts[o.m], o.text, want)
					}
				}
			case "query":
				if o.text != mr.texts[o.m] {
					c.Fail("query", "task %d: Query() is %q, want %q", ti, o.text, mr.texts[o.m])
				}
			case "readfail":
				if o.err == "" {
					c.Count("readfail_unreached", 1)
				} else {
					c.FaultFired("reader:error", 1)
				}
			}
			if c.Failed() {
				return
			}
		}
	}
	switch p.Prop {
	case "C02", "C03", "C04", "C05":
		mr.checkStats(final)
	}
}

func (mr *matchRun) checkStats(final []*jsonmatcher.MatchStats) {
	c, p := mr.c, mr.p
	memo := map[string][]Counts{}
	for m := range mr.matchers {
		q := p.Queries[m]
		var got []Counts
		if e := mr.flat(q, final[m], &got); e != "" {
			c.Fail("stats", "statistics of %q: %s", mr.texts[m], e)
			return
		}
		base := make([]Counts, len(got)) // calls before the tasks started
		if p.P["prewarm"] == 1 && p.P["inside"] != 1 {
			for _, d := range mr.docs {
				if json.Valid(d) {
					add(base, mr.tally(m, d, memo), 1)
				}
			}
		}
		want := append([]Counts(nil), base...)
		type ev struct {
			s0, s1 uint64
			t      []Counts
			n      int
		}
		var evs []ev
		var snaps []*obs
		for ti := range mr.obs {
			for i := range mr.obs[ti] {
				o := &mr.obs[ti][i]
				if o.m != m {
					continue
				}
				switch o.kind {
				case "match", "shared", "loop", "bad", "flipback", "buf":
					if json.Valid(o.doc) {
						t := mr.tally(m, o.doc, memo)
						add(want, t, int64(o.n))
						evs = append(evs, ev{o.s0, o.s1, t, o.n})
					}
				case "rep":
					if o.op.I(5)%repKinds == 0 && json.Valid(o.doc) {
						t := mr.tally(m, o.doc, memo)
						add(want, t, int64(o.n))
						evs = append(evs, ev{o.s0, o.s1, t, o.n})
					}
				case "stats":
					snaps = append(snaps, o)
				}
			}
		}
		if c.Failed() {
			return
		}
		for i := range want {
			if want[i] != got[i] {
				c.Fail("stats", "statistics of %q: node %d has checked=%d matched=%d, all calls together give checked=%d matched=%d", mr.texts[m], i, got[i].Checked, got[i].Matched, want[i].Checked, want[i].Matched)
				return
			}
		}
		c.Count("stat_nodes_checked", len(want))
		if p.Prop != "C05" {
			continue
		}
		flats := make([][]Counts, len(snaps))
		for k, o := range snaps {
			if e := mr.flat(q, o.copy, &flats[k]); e != "" {
				c.Fail("snapshot", "snapshot of %q: %s", mr.texts[m], e)
				return
			}
			if o.snap != nil && !equalStats(o.snap, o.copy) {
				c.Fail("snapshot-changed", "a snapshot of %q changed after it was delivered", mr.texts[m])
				return
			}
			lo := append([]Counts(nil), base...)
			hi := append([]Counts(nil), base...)
			for _, e := range evs {
				if e.n == 1 {
					if e.s1 < o.s0 {
						add(lo, e.t, 1)
					}
					if e.s0 < o.s1 {
						add(hi, e.t, 1)
					}
					continue
				}
				if e.s1 < o.s0 {
					add(lo, e.t, int64(e.n))
				}
				if e.s0 < o.s1 {
					add(hi, e.t, int64(e.n))
				}
			}
			for i, g := range flats[k] {
				if g.Matched < 0 || g.Matched > g.Checked {
					c.Fail("snapshot", "snapshot of %q: node %d matched=%d checked=%d", mr.texts[m], i, g.Matched, g.Checked)
					return
				}
				if g.Checked < lo[i].Checked || g.Matched < lo[i].Matched || g.Checked > hi[i].Checked || g.Matched > hi[i].Matched {
					c.Fail("snapshot", "snapshot of %q: node %d checked=%d matched=%d, outside [%d,%d] and [%d,%d] given by the calls that had returned before and begun by then", mr.texts[m], i, g.Checked, g.Matched, lo[i].Checked, hi[i].Checked, lo[i].Matched, hi[i].Matched)
					return
				}
				if lo[i] != hi[i] {
					c.Count("snapshot_during_calls", 1)
				}
			}
			for j := range snaps {
				if snaps[j].s1 < o.s0 && flats[j] != nil {
					for i := range flats[k] {
						if flats[k][i].Checked < flats[j][i].Checked || flats[k][i].Matched < flats[j][i].Matched {
							c.Fail("snapshot", "snapshot of %q: node %d went down from %v to %v", mr.texts[m], i, flats[j][i], flats[k][i])
							return
						}
					}
				}
			}
			c.Count("snapshots", 1)
		}
	}
}

func add(dst, t []Counts, n int64) {
	for i := range dst {
		if i < len(t) {
			dst[i].Checked += t[i].Checked * n
			dst[i].Matched += t[i].Matched * n
		}
	}
}
