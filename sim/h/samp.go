//go:build wcore

package h

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"vsim/simrt"

	"github.com/flowchartsman/aql/sampler"
)

func init() {
	Scenarios["C12"] = &Scenario{Gen: genSample, Exec: execSample}
	Scenarios["C13"] = &Scenario{Gen: genSample, Exec: execSample, Race: raceAny}
}

// Sampler operations: sample(doc) bad(doc,kind,at,x) keys thr(pct) scanned reset.
func genSample(r *Rng, p *Plan) {
	nt := 1
	p.Kind = "sample"
	if p.Prop == "C13" {
		nt = r.PickI(2, 2, 3, 4, 6)
	}
	p.P["depth"] = r.PickI(-1, -1, -1, 0, 1, 2, 3, 4, 10, -5)
	for i, n := 0, r.Between(2, 8); i < n; i++ {
		switch {
		case r.P(12):
			p.Docs = append(p.Docs, genOddDoc(r))
		case r.P(6):
			p.Docs = append(p.Docs, genBigDoc(r, r.PickI(800, 4000)))
		case r.P(25) && i > 0:
			p.Docs = append(p.Docs, twin(r, p.Docs[r.N(len(p.Docs))]))
		case r.P(15):
			p.Docs = append(p.Docs, genNested(r))
		default:
			p.Docs = append(p.Docs, genDoc(r))
		}
	}
	many := 0
	if r.P(2) { // a tiny document, sampled very often
		many = r.PickI(300, 300, 70000, 70000)
		p.Docs = append(p.Docs, Bytes(r.Pick(`{"a":1}`, `{"a":{"b":1},"c":[1,2]}`, `[{"a":1},{"a":1}]`)))
	} else if r.P(1) { // or one document with very many values of one key
		p.Docs = append(p.Docs, Bytes(`{"a":[1`+strings.Repeat(",1", r.PickI(300, 70000))+`],"b":2}`))
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		n := r.PickI(3, 6, 12, 30)
		if r.P(3) {
			n = r.Between(150, 400)
		}
		for i := 0; i < n; i++ {
			d := r.N(len(p.Docs))
			switch r.N(16) {
			case 0, 1, 2:
				at := r.N(1001)
				if r.P(35) {
					at = r.PickI(0, 999, 1000, 990)
				}
				ops = append(ops, Op{K: "bad", N: []int{d, r.N(len(damageKinds) + 3), at, r.N(64)}})
			case 3:
				ops = append(ops, Op{K: "keys", N: []int{r.N(2)}})
			case 4, 5:
				ops = append(ops, Op{K: "thr", N: []int{r.PickI(0, 1, 10, 25, 33, 34, 50, 51, 66, 67, 75, 100, 101, 150, 200, 300, -5), r.N(2)}})
			case 6:
				ops = append(ops, Op{K: "scanned"})
			case 7:
				if r.P(40) {
					ops = append(ops, Op{K: "reset"})
					continue
				}
				fallthrough
			default:
				ops = append(ops, Op{K: "sample", N: []int{d, r.N(2)}})
			}
		}
		if many > 0 && t == 0 {
			ops = append(ops[:len(ops)/2:len(ops)/2], append([]Op{{K: "many", N: []int{len(p.Docs) - 1, many}}, {K: "thr", N: []int{100}}, {K: "thr", N: []int{101}}}, ops[len(ops)/2:]...)...)
		}
		ops = append(ops, Op{K: "keys"}, Op{K: "thr", N: []int{50}}, Op{K: "thr", N: []int{100}}, Op{K: "scanned"})
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, nt)
}

// genNested draws a document of deep objects and arrays.
func genNested(r *Rng) []byte {
	var rec func(d int) string
	rec = func(d int) string {
		if d == 0 || r.P(15) {
			return r.Pick(`1`, `"x"`, `true`, `null`, `{}`, `[]`)
		}
		n := r.Between(1, 3)
		var parts []string
		if r.P(35) {
			for i := 0; i < n; i++ {
				parts = append(parts, rec(d-1))
			}
			return "[" + strings.Join(parts, ",") + "]"
		}
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf(`"%s%d":%s`, r.Pick("a", "b", "c", "x y", "é"), i, rec(d-1)))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	s := rec(r.Between(2, 6))
	if s[0] != '{' && s[0] != '[' {
		s = `{"a":` + s + `}`
	}
	return []byte(s)
}

// more damage that is particular to samplers: broken inside nested values
func sampleDamage(kind int, doc []byte, at, x int) []byte {
	if kind < len(damageKinds) {
		return damage(damageKinds[kind], doc, at, x)
	}
	s := string(doc)
	n := len(s)
	pos := 0
	if n > 0 {
		pos = at * n / 1001
	}
	rest := s[pos:]
	rep := func(old, new string) []byte {
		if i := strings.Index(rest, old); i >= 0 {
			return []byte(s[:pos+i] + new + rest[i+len(old):])
		}
		return []byte(strings.Replace(s, old, new, 1))
	}
	switch kind - len(damageKinds) {
	case 0: // damage that keeps the outer brackets
		return rep(":", []string{"", ";", "::", ":,"}[x%4])
	case 1:
		return rep(",", []string{"", ",,", ",nope,", ";"}[x%4])
	}
	return rep(`"`, []string{"", `\`, `'`, `""`}[x%4])
}

// sampleModel gives the key counts of an unambiguous document; ok is false
// where the documentation leaves it open.
func sampleModel(doc []byte, max int) (map[string]uint, bool) {
	if !json.Valid(doc) || len(doc) == 0 || (doc[0] != '{' && doc[0] != '[') || (doc[len(doc)-1] != '}' && doc[len(doc)-1] != ']') {
		return nil, false
	}
	d := ParseDoc(doc)
	if d == nil || !utf8.Valid(doc) || strings.Contains(string(doc), `\`) {
		return nil, false
	}
	keys := map[string]uint{}
	ok := true
	var rec func(d *D, path string, depth int)
	rec = func(d *D, path string, depth int) {
		if max >= 0 && depth > max {
			return
		}
		switch d.K {
		case 'o':
			for i, k := range d.Keys {
				if strings.Contains(k, " ") {
					k = `"` + k + `"`
				}
				if k == "" {
					ok = false
				}
				sub := k
				if path != "" {
					sub = path + "." + k
				}
				rec(d.Kids[i], sub, depth+1)
			}
		case 'a':
			for _, e := range d.Kids {
				if e.K != 'a' {
					rec(e, path, depth)
				}
			}
		default:
			if path != "" {
				keys[path]++
			}
		}
	}
	rec(d, "", 0)
	return keys, ok
}

// aloneSample gives what a fresh sampler makes of a document.
func aloneSample(doc []byte, max int) (keys map[string]uint, accepted bool) {
	s := sampler.New(max)
	if err := s.Sample(append([]byte(nil), doc...)); err != nil {
		return nil, false
	}
	keys = map[string]uint{}
	for _, k := range s.Keys() {
		n := uint(1)
		keys[k] = n
	}
	for n := 2; n < 1<<20; n++ {
		ks := s.KeysAtThreshold(100 * n)
		if len(ks) == 0 {
			break
		}
		for _, k := range ks {
			keys[k] = uint(n)
		}
	}
	return keys, true
}

func execSample(c *Ctx, p *Plan) {
	type sobs struct {
		op   *Op
		doc  []byte
		err  string
		list []string
		n    int
	}
	shared := make([][]byte, len(p.Docs))
	for i, d := range p.Docs {
		shared[i] = padded(d, 24)
	}
	damaged := map[*Op][]byte{}
	for ti := range p.Tasks {
		for i := range p.Tasks[ti] {
			op := &p.Tasks[ti][i]
			if op.K == "bad" && op.I(0) < len(p.Docs) {
				damaged[op] = sampleDamage(op.I(1), p.Docs[op.I(0)], op.I(2), op.I(3))
			}
		}
	}
	depth := p.P["depth"]
	all := make([][]sobs, len(p.Tasks))
	samplers := make([]*sampler.Sampler, len(p.Tasks))
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		fns = append(fns, func() {
			s := sampler.New(depth)
			samplers[ti] = s
			var buf []byte
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				o := sobs{op: op}
				simrt.YS()
				switch op.K {
				case "sample", "bad":
					if op.I(0) >= len(p.Docs) {
						continue
					}
					b := shared[op.I(0)]
					o.doc = p.Docs[op.I(0)]
					own := op.K == "bad" || op.I(1) == 1
					if op.K == "bad" {
						o.doc = damaged[op]
					}
					if own { // a buffer of the task's own, which it uses again
						buf = append(buf[:0], o.doc...)
						b = buf
					}
					if err := s.Sample(b); err != nil {
						o.err = "error: " + err.Error()
					}
					if own {
						if string(b) != string(o.doc) {
							o.n = -1
						}
						for i := range b {
							b[i] = 'z'
						}
					}
				case "many":
					if op.I(0) >= len(p.Docs) {
						continue
					}
					o.doc = p.Docs[op.I(0)]
					for k := 0; k < op.I(1); k++ {
						if err := s.Sample(shared[op.I(0)]); err != nil {
							o.err = "error: " + err.Error()
							break
						}
					}
				case "keys", "thr":
					var l []string
					if op.K == "keys" {
						l = s.Keys()
					} else {
						l = s.KeysAtThreshold(op.I(0))
					}
					o.list = append([]string(nil), l...)
					for i := range l { // the list is the caller's own
						l[i] = "spoiled"
					}
				case "scanned":
					o.n = s.Scanned()
				case "reset":
					s.Reset()
				}
				all[ti] = append(all[ti], o)
			}
		})
	}
	c.Run(fns)
	type eff struct {
		keys map[string]uint
		ok   bool
	}
	memo := map[string]eff{}
	effect := func(doc []byte) eff {
		if e, ok := memo[string(doc)]; ok {
			return e
		}
		var e eff
		e.keys, e.ok = aloneSample(doc, depth)
		if mk, known := sampleModel(doc, depth); known {
			if !e.ok {
				c.Fail("sample", "valid document %s was rejected", clip(doc))
			} else if !sameCounts(mk, e.keys) {
				c.Fail("sample", "document %s at depth %d gives keys %v, want %v", clip(doc), depth, e.keys, mk)
			}
			c.Count("model_decided", 1)
		}
		memo[string(doc)] = e
		return e
	}
	for ti := range all {
		total := map[string]uint{}
		docs := 0
		for _, o := range all[ti] {
			c.Count("ops_"+o.op.K, 1)
			switch o.op.K {
			case "sample", "bad", "many":
				times := 1
				if o.op.K == "many" {
					times = o.op.I(1)
				}
				if o.n < 0 {
					c.Fail("modified", "sampler changed the document %s", clip(o.doc))
					return
				}
				e := effect(o.doc)
				if c.Failed() {
					return
				}
				if (o.err == "") != e.ok {
					c.Fail("sample", "task %d: document %s: error %q, alone accepted=%v", ti, clip(o.doc), o.err, e.ok)
					return
				}
				if o.op.K == "bad" && !e.ok {
					c.FaultFired("document:damaged", 1)
				}
				if e.ok {
					docs += times
					for k, n := range e.keys {
						total[k] += n * uint(times)
					}
				}
			case "keys", "thr":
				want := []string{}
				for k, n := range total {
					if o.op.K == "keys" || int(n)*100 >= o.op.I(0)*docs {
						want = append(want, k)
					}
				}
				got := append([]string{}, o.list...)
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(want, "\n") != strings.Join(got, "\n") {
					c.Fail("sample", "task %d: %s %v after %d documents gives %q, want %q", ti, o.op.K, o.op.N, docs, got, want)
					return
				}
			case "scanned":
				if o.n != docs {
					c.Fail("sample", "task %d: Scanned() = %d, want %d", ti, o.n, docs)
					return
				}
			case "reset":
				total = map[string]uint{}
				docs = 0
			}
		}
	}
	for i, b := range shared {
		if s := intact(b, p.Docs[i]); s != "" {
			c.Fail("modified", "shared document %s: %s", clip(p.Docs[i]), s)
			return
		}
	}
	if len(p.Tasks) == 1 {
		c.nontriv = c.nontriv || len(p.Tasks[0]) > 6
	}
}

func sameCounts(a, b map[string]uint) bool {
	if len(a) != len(b) {
		return false
	}
	for k, n := range a {
		if b[k] != n {
			return false
		}
	}
	return true
}

func sampleSome(doc []byte) {
	s := sampler.New(-1)
	s.Sample(doc)
	s.Keys()
}
