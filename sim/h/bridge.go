//go:build wcli

package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"vsim/simjs"
	"vsim/simrt"

	"github.com/flowchartsman/aql/parser"
	bridge "github.com/flowchartsman/aql/wasm/aqlparse"
)

func init() {
	Scenarios["C18"] = &Scenario{Gen: genBridge, Exec: execBridge}
}

var bridgeTexts = []string{
	`a:1`, ``, ` `, `a`, `a:`, `a:/()/`, `a:/(?i)é/`, `a:~/x/`, `a:/.*x.*/`, `a:/a|b/`, `a:/(a|b)/`, `a:/.*/`, `a:/(.*)/`, `a:/x.*/`,
	`a:2020-01-01`, `a:>2020-01-01`, `a:2020-01-01T00:00:00Z AND b:/.*x/`, `a:/x*/ AND b:/(y)/ OR c:/(?i)ü/`, `NOT a:/(z)/`, `a:/[/`,
	`a:/(/ AND b:/.*x.*/`, `(a:1`, `a:1)`, `a:"x`, `a:><(2,1)`, `a:(1,"x")`, `a:<true`, `a:/\//`, `a:///`, `a:/(a)(b)/`, `a:/((a))/`,
	`a:/.*x.*y.*/`, `a:/^.*$/`, `a:/(?i)(?s).*é/`, `a:/a/ AND`, `a:1e400`, `a:999999999999999999999999`, `a:9999-12-31`, `a:0000-01-01`, `a:0001-01-01T00:00:00Z`,
	`"a b".c:(1,2,3)`, `a:exists`, `a:null`, `a:10.0.0.0/8`, `a:~"x"`, `é:"ü"`, "a:\"\u0000\"", `a:/(?P<n>x)/`, `a:/x{2,1}/`, `a:/|/`, `a:/||/`, `a:/(|)/`, `a:/$/`,
}

// answers the bridge of this process gave to common queries
var bridgeMemo = map[string]string{}

func genBridge(r *Rng, p *Plan) {
	p.Kind = "bridge"
	n := r.PickI(1, 2, 4, 8, 8, 20)
	for i := 0; i < n; i++ {
		var s string
		switch {
		case r.P(40):
			s = bridgeTexts[r.N(len(bridgeTexts))]
		case r.P(15):
			s = bridgeTexts[r.N(len(bridgeTexts))] + r.Pick(" AND ", " OR ", " ", ")", " AND (") + bridgeTexts[r.N(len(bridgeTexts))]
		case r.P(14):
			// many remarks
			for j, k := 0, r.PickI(2, 4, 7, 9, 12, 18); j < k; j++ {
				if j > 0 {
					s += r.Pick(" AND ", " OR ")
				}
				s += r.Pick(`a:/.*x.*/`, `b:/x.*/`, `c:/.*/`, `d:/(a|b)/`, `e:2020-01-01`, `f:1`)
			}
			if r.P(25) {
				s += r.Pick(" AND", ` AND a:/[/`, ` AND a:<true`)
			}
		case r.P(40):
			s = genQuery(r, r.PickI(1, 2, 3, 5), 3).Text(r)
		default:
			s = string(genBadText(r, genQuery(r, r.PickI(1, 2, 4), 3).Text(r)))
		}
		if strings.Count(s, "(") > 3 { // parsing is exponential in open parentheses
			s = bridgeTexts[r.N(len(bridgeTexts))]
		}
		p.Texts = append(p.Texts, Bytes(strings.ToValidUTF8(s, "\ufffd")))
	}
	var ops []Op
	for i, m := 0, n+r.N(2*n+2); i < m; i++ {
		if r.P(6) {
			ops = append(ops, Op{K: "odd", N: []int{r.N(n), r.N(oddCalls)}})
			continue
		}
		ops = append(ops, Op{K: "ask", N: []int{r.N(n)}})
	}
	p.Tasks = [][]Op{ops}
	p.Sched = genSched(r, 1)
	p.Sched.Cap = 1_000_000_000
}

// oddCall calls the bridge in a way in which the page does not.
const oddCalls = 9

func oddCall(f simjs.Value, text string, how int) simjs.Value {
	switch how % oddCalls {
	case 0:
		return f.Invoke()
	case 1:
		return f.Invoke(simjs.Undefined())
	case 2:
		return f.Invoke(nil)
	case 3:
		return f.Invoke(5)
	case 4:
		return f.Invoke(true)
	case 5:
		return f.Invoke(map[string]any{"query": text})
	case 6:
		return f.Invoke([]any{text})
	case 7:
		return f.Invoke(f)
	}
	return f.Invoke("", text)
}

func bridgeAnswer(v simjs.Value) (text string, ast string, msgs []string, bad string) {
	if v.Type() != simjs.TypeObject {
		return "", "", nil, "result is not an object but " + v.String()
	}
	a := v.Get("ast")
	if a.Type() != simjs.TypeString {
		return "", "", nil, "ast is not a string but " + a.String()
	}
	ast = a.String()
	m := v.Get("messages")
	if m.Type() != simjs.TypeObject || !m.IsArray() {
		return "", "", nil, "messages is not a list but " + m.String()
	}
	for i := 0; i < m.Length(); i++ {
		x := m.Index(i)
		if x.Type() != simjs.TypeObject {
			return "", "", nil, "message is not an object but " + x.String()
		}
		get := func(k string) string { return x.Get(k).String() }
		if x.Get("msg").Type() != simjs.TypeString || get("msg") == "" {
			return "", "", nil, "message without text"
		}
		msgs = append(msgs, fmt.Sprintf("%s|%s|%s|%s", get("type"), get("msg"), get("start"), get("end")))
	}
	return ast + "\n" + strings.Join(msgs, "\n"), ast, msgs, ""
}

func execBridge(c *Ctx, p *Plan) {
	type ans struct {
		q    int
		text string
		ast  string
		msgs []string
		bad  string
	}
	ops := p.Tasks[0]
	pass := func(reversed bool) []ans {
		var out []ans
		c.Run([]func(){func() {
			g := simjs.ResetGlobal()
			g.Set("notifyBrowser", simjs.FuncOf(func(simjs.Value, []simjs.Value) any { return nil }))
			simrt.GoDaemon(bridge.SimMain)
			for i := 0; g.Get("parseAQL").IsUndefined(); i++ {
				if i > 10000 {
					c.Fail("bridge", "the bridge never offered parseAQL")
					return
				}
				simrt.Block()
			}
			for i := range ops {
				k := i
				if reversed {
					k = len(ops) - 1 - i
				}
				q := ops[k].I(0)
				if q >= len(p.Texts) {
					continue
				}
				a := ans{q: q}
				if ops[k].K == "odd" {
					v := oddCall(g.Get("parseAQL"), string(p.Texts[q]), ops[k].I(1))
					a.text, a.ast, a.msgs, a.bad = bridgeAnswer(v)
					a.q = -1 - ops[k].I(1)
					out = append(out, a)
					continue
				}
				v := g.Get("parseAQL").Invoke(string(p.Texts[q]))
				a.text, a.ast, a.msgs, a.bad = bridgeAnswer(v)
				out = append(out, a)
			}
		}})
		return out
	}
	type refT struct {
		tree []byte
		err  error
	}
	refs := map[string]*refT{}
	known := map[int]string{}
	for round := 0; round < 2; round++ {
		for _, a := range pass(round == 1) {
			if a.q < 0 {
				c.FaultFired("call:odd", 1)
				if a.bad != "" || a.ast != "" || len(a.msgs) == 0 {
					c.Fail("odd", "call %d without a query: %s tree %q messages %q", -1-a.q, a.bad, a.ast, a.msgs)
					return
				}
				continue
			}
			q := string(p.Texts[a.q])
			c.Count("queries", 1)
			if a.bad != "" {
				c.Fail("result", "query %q: %s", q, a.bad)
				return
			}
			ref := refs[q]
			if ref == nil {
				ref = &refT{}
				root, err := parser.ParseQuery(q)
				if ref.err = err; err == nil {
					ref.tree, err = json.Marshal(root)
					if err != nil {
						c.Fail("tree", "tree of query %q: %v", q, err)
						return
					}
				}
				refs[q] = ref
			}
			err := ref.err
			if (err == nil) != (a.ast != "") {
				c.Fail("tree", "query %q (error %v) has tree %q messages %q", q, err, a.ast, a.msgs)
				return
			}
			if err == nil {
				var got bytes.Buffer
				if json.Compact(&got, []byte(a.ast)) != nil || !bytes.Equal(got.Bytes(), ref.tree) {
					c.Fail("tree", "query %q has tree %s, want %s", q, a.ast, ref.tree)
					return
				}
			} else {
				c.FaultFired("query:rejected", 1)
				found := false
				for _, m := range a.msgs {
					found = found || strings.HasPrefix(m, "error|") || strings.HasPrefix(m, "<undefined>|")
				}
				if !found {
					c.Fail("message", "invalid query %q (%v) has no error message: %q", q, err, a.msgs)
					return
				}
			}
			w, ok := known[a.q]
			if !ok {
				w, ok = bridgeMemo[q]
			}
			if ok && w != a.text {
				c.Fail("history", "query %q was answered %q and another time %q", q, w, a.text)
				return
			}
			known[a.q] = a.text
			if len(bridgeMemo) < 5000 {
				bridgeMemo[q] = a.text
			}
			c.Mix(hashStr(a.text))
		}
		if c.Failed() {
			return
		}
	}
	c.nontriv = c.nontriv || len(ops) > 3
}
