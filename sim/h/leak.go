//go:build wcore

package h

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"vsim/simrt"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"
)

func init() {
	Scenarios["C29"] = &Scenario{Gen: genLeak, Exec: execLeak}
}

// Kinds of calls of which a long history is made, each with fresh inputs.
const (
	leakKinds = 17
	leakForms = 16
)

func genLeak(r *Rng, p *Plan) {
	p.Kind = "leak"
	nt := r.PickI(1, 1, 2, 3)
	nk := r.PickI(1, 1, 1, 2, 3)
	slow := false
	for i := 0; i < nk; i++ {
		k := r.N(leakKinds)
		p.P[fmt.Sprintf("kind%d", i)] = 1 + k
		slow = slow || k >= 8
	}
	p.P["kinds"] = nk
	n := r.PickI(300, 500)
	if slow {
		n = r.PickI(50, 80, 120)
	}
	p.P["n"] = n
	for i, k := 0, r.Between(1, 2); i < k; i++ {
		q := genQuery(r, r.PickI(1, 1, 2, 3), 1)
		p.Queries, p.Texts = append(p.Queries, q), append(p.Texts, Bytes(q.Text(r)))
	}
	if r.P(60) {
		p.Queries, p.Texts = append(p.Queries[:0], nil), append(p.Texts[:0], Bytes(wideQuery))
	}
	if r.P(60) {
		p.P["forms"], p.P["stride"] = leakForms+r.N(leakForms), r.PickI(1, 3, 5, 7)
	}
	p.P["base"] = r.N(1 << 20)
	p.P["size"] = r.PickI(10, 10, 100, 400)
	for t := 0; t < nt; t++ {
		p.Tasks = append(p.Tasks, []Op{{K: "calls"}})
	}
	p.Sched = genSched(r, nt)
	p.Sched.Mean = uint64(r.PickI(250, 1000, 5000))
	p.Sched.SyncP = uint64(r.PickI(0, 1))
}

// wideQuery has a clause of every kind, all of which must be evaluated for the
// documents of a history.
const wideQuery = `a:"nowhere" OR b:<-1 OR b:><(-5,-1) OR b:-7 OR net:192.168.1.0/24 OR user.ts:<1990-01-01 OR user.ts:1991-02-03 OR ` +
	`user.ts:><(1980-01-01,1980-01-02) OR c:/^q+z$/ OR c:("no","nay",/n.y$/) OR uni:"カナ" OR w:"zz*x?" OR flag:false OR nothing:exists OR ` +
	`user:null OR user.name:~"nobody" OR c.d:>=1000000000 OR !a:exists OR (user.name:exists AND b:-3)`

// leaker makes the i-th call of a history.
type leaker struct {
	p        *Plan
	matchers []*jsonmatcher.Matcher
	samplers []*sampler.Sampler
	fm       *fmtmsg.Formatter
	msg      *parser.ParserMessage
}

func (l *leaker) call(task, kind, i int) string {
	id := fmt.Sprintf("%d-%d-%d", l.p.P["base"], task, i)
	size := l.p.P["size"]
	fill := strings.Repeat("x", size)
	m := l.matchers[i%len(l.matchers)]
	doc := func() []byte {
		return []byte(fmt.Sprintf(`{"a":"alpha %s","b":%d,"c":["%s",{"d":%d.5}],"user":{"name":"u%s","ts":"2020-%02d-%02dT%02d:%02d:%02dZ"},`+
			`"net":"from 10.%d.%d.%d to 172.%d.%d.0/24","uni":"日本 %s","w":"\u0061l %s","flag":true}`, id, i, fill, i, id, 1+i%12, 1+i/12%28, i%24, i/24%60, i%60,
			task, i>>8&255, i&255, i>>8&255, i&255, id, id))
	}
	form := func(k int) string {
		switch k % leakForms {
		case 3:
			return fmt.Sprintf(`n%d:10.%d.%d.0/24`, i, i>>8&255, i&255)
		case 4:
			return fmt.Sprintf(`t:<20%02d-%02d-%02d`, i%100, 1+i%12, 1+i%28)
		case 5:
			return fmt.Sprintf(`t:20%02d-%02d-%02dT01:02:%02dZ`, i%100, 1+i%12, 1+i%28, i%60)
		case 6:
			return fmt.Sprintf(`b:><(%d,%d)`, i, i+1)
		case 7:
			return fmt.Sprintf(`a:~"s%s"`, id)
		case 8:
			return fmt.Sprintf(`u:"日本 %s"`, id)
		case 9:
			return fmt.Sprintf(`w:"%s*x?"`, id)
		case 10:
			return fmt.Sprintf(`m:("%s",%d,true,/x%d/)`, id, i, i)
		case 11:
			return fmt.Sprintf(`f%d.g%d:exists OR !f%d:null`, i, i, i)
		case 12:
			return fmt.Sprintf(`s%d:%d.5 AND (q:1 OR q:"%s")`, i, i, id)
		case 13:
			return fmt.Sprintf(`r:~/(?i).*(é%d)/`, i)
		case 0:
			return fmt.Sprintf(`a:"v%s" AND b:>%d`, id, i)
		case 1:
			return fmt.Sprintf(`c:/r%d.*/`, i)
		case 2:
			return fmt.Sprintf(`b:>%d`, i)
		}
		return fmt.Sprintf(`a:"v%s"`, id)
	}
	// forms of clauses by turns, or the same few in every query
	query := func() string {
		if l.p.P["forms"] == 0 {
			return form(i)
		}
		q := form(l.p.P["forms"])
		for k := 1; k < 3; k++ {
			q += " OR " + form(l.p.P["forms"]+k*l.p.P["stride"])
		}
		return q
	}
	switch kind {
	case 0:
		m.Match(doc())
	case 1:
		d := doc()
		m.Match(d[:1+(i*31)%(len(d)-1)])
	case 2:
		m.Stats()
	case 3:
		l.samplers[task].Sample(doc())
		if i%7 == 0 {
			l.samplers[task].Keys()
			l.samplers[task].KeysAtThreshold(i % 101)
		}
	case 4:
		d := doc()
		l.samplers[task].Sample(d[:1+(i*31)%(len(d)-1)])
	case 5:
		s := sampler.New(3)
		s.Sample(doc())
		s.Sample([]byte(fmt.Sprintf(`{"k%s":1}`, id)))
		s.Reset()
	case 6:
		l.samplers[task].Sample([]byte(fmt.Sprintf(`{"k%s":1,"y":[{"z%d":2}]}`, id, i)))
		l.samplers[task].Reset()
	case 7:
		var b bytes.Buffer
		msg := *l.msg
		msg.Msg = id + fill
		pr := l.fm.WithQuery(fmt.Sprintf("a:%q", id+fill))
		pr.Fprint(&b, &msg)
		pr.Fprint(&faultWriter{left: i % 40, mode: i % 3}, &msg)
	case 8:
		jsonmatcher.NewMatcher(query())
	case 9:
		jsonmatcher.NewMatcher(query() + []string{" AND", ")", " OR a:/(/", " OR a:(1,1)", " OR b:<\"x\"", "\x00"}[i%6])
	case 10:
		parser.ParseQuery(query())
	case 11:
		parser.ParseQuery(fmt.Sprintf([]string{`a:><(%d,%d)`, `x%d:(%d,true,false)`, `y%d:%d AND z:/[/`, `%d:%d :`}[i%4], i+5, i))
	case 12:
		parser.ParseQueryReader(&faultReader{data: []byte(query()), failAt: i % 20, err: fmt.Errorf("lost %s", id)})
	case 13:
		k := 0
		parser.ParseQuery(query(), parser.Visitors(parser.VisitorFunc(func(ast.Node) error {
			if k++; k > i%4 {
				return fmt.Errorf("no %s", id)
			}
			return nil
		})))
	case 14:
		mv := parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
			t.Hint("h %s", id)
			if i%3 == 0 {
				t.Error("e %s", id)
			}
			return nil
		})
		parser.ParseQuery(query(), parser.Visitors(mv))
		mv.Messages()
	case 15:
		if x, err := jsonmatcher.NewMatcher(query()); err == nil {
			x.Match(doc())
			x.Stats()
			x.Messages()
		}
	case 16:
		func() {
			defer func() { recover() }()
			parser.ParseQuery(query(), parser.Visitors(parser.VisitorFunc(func(ast.Node) error { panic(id) })))
		}()
	}
	return ""
}

// held returns the bytes that are still in use, and the number of goroutines.
func held() (int64, int) {
	var ms runtime.MemStats
	simrt.Settle()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc), runtime.NumGoroutine()
}

func execLeak(c *Ctx, p *Plan) {
	// all phases go by the drawn schedule, so that is the one to replay
	sched := p.Sched
	c.saved = &sched
	l := &leaker{p: p, fm: fmtmsg.NewTerminalFormatter(0)}
	for _, t := range p.Texts {
		m, err := jsonmatcher.NewMatcher(string(t))
		if err != nil {
			c.Fail("rejected", "valid query %s was rejected: %v", clip(t), err)
			return
		}
		l.matchers = append(l.matchers, m)
	}
	for range p.Tasks {
		l.samplers = append(l.samplers, sampler.New(-1))
	}
	l.msg = &parser.ParserMessage{Position: ast.Pos{Line: 1, Col: 3, Offset: 2, Len: 2}, Msg: "x", Type: parser.MsgHint}
	done := 0
	// phase makes n calls in all and returns what is held then.
	phase := func(n int) (int64, int) {
		var fns []func()
		each := n / len(p.Tasks)
		from := done
		for ti := range p.Tasks {
			ti := ti
			fns = append(fns, func() {
				for i := from; i < from+each; i++ {
					l.call(ti, p.P[fmt.Sprintf("kind%d", i%p.P["kinds"])]-1, i)
				}
			})
		}
		done += each
		c.Run(fns)
		return held()
	}
	n := p.P["n"]
	if n < 20 || p.P["kinds"] < 1 {
		return
	}
	phase(n / 2)
	a, ga := phase(n)
	b, gb := phase(n)
	d, gd := phase(2 * n)
	c.Count("calls", 9*n/2)
	c.nontriv = true
	runtime.KeepAlive(l)
	var kinds []int
	for i := 0; i < p.P["kinds"]; i++ {
		kinds = append(kinds, p.P[fmt.Sprintf("kind%d", i)]-1)
	}
	desc := fmt.Sprintf("calls of kinds %v", kinds)
	// what is in use otherwise varies by a few hundred bytes
	grew := func(by int64, calls int) bool { return by > 6*int64(calls)+600 }
	memory := grew(b-a, n) && grew(d-b, 2*n) && d-b > (b-a)*3/2
	goroutines := gb-ga > n/10 && gd-gb > n/5
	if !memory && !goroutines {
		return
	}
	// a table that is bounded would be full by now
	const more = 2200
	e, ge, calls := d, gd, 0
	for ; calls < more; calls += 2 * n {
		e, ge = phase(2 * n)
	}
	if memory && (e-d)/int64(calls) > (d-b)/int64(2*n)*2/3 {
		c.Fail("memory", "%s: memory in use grows with every call: %d bytes more after %d calls, %d more after %d further ones, %d after another %d", desc, b-a, n, d-b, 2*n, e-d, calls)
	} else if goroutines && ge-gd > calls/10 {
		c.Fail("goroutines", "%s: goroutines pile up: %d, %d, %d, %d", desc, ga, gb, gd, ge)
	}
}
