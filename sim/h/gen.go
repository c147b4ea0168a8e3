package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// The vocabulary of queries and documents overlaps, so that about half of the
// clauses hold.

var (
	words  = []string{"alpha", "beta", "gamma", "delta", "omega", "Andy", "hello", "world"}
	uwords = []string{"大懒虫", "日本語", "été", "Straße", "Ωmega", "naïve", "привет"}
	fields = [][]string{{"a"}, {"b"}, {"c"}, {"d"}, {"n", "x"}, {"n", "y"}, {"arr"}, {"objs", "v"}, {"objs", "w"}, {"deep", "l1", "l2"}, {"k k"}, {"ts"}, {"ip"}, {"u"}, {"z"}, {"t"}, {"missing"}, {"n", "missing"}, {"été"}, {"a.b"}}
	ints   = []string{"0", "1", "2", "5", "10", "-3", "42", "255", "256", "65535", "65536", "1000000"}
	floats = []string{"0.5", "1.0", "2.5", "-3.25", "42.0", "99.75"}
	times  = []string{"2020-01-01T00:00:00Z", "2020-06-15T12:30:00Z", "2020-06-15T12:30:00+02:00", "2021-03-04T05:06:07-05:00", "1999-12-31T23:59:59Z", "2020-06-15T23:30:00-03:00", "2020-06-15T00:30:00+05:30"}
	days   = []string{"2020-01-01", "2020-06-15", "2021-03-04", "1999-12-31", "2020-06-16", "2020-06-14"}
	nets   = []string{"10.0.0.1", "10.0.0.0/8", "192.168.1.0/24", "192.168.1.77", "172.16.0.0/12", "8.8.8.8"}
	res    = []string{"alp", "^hello$", "[a-d]+ta", "wor.d", "(?i)ANDY", "x{2,}", ".*eta", "(alpha|beta)", "\\d+", "a/b", "(hello)", "gam.*"}
	sent   = []string{"hello world", "alpha beta gamma", "from delta to omega", "Andy says hello", "nothing to see", "x", "xx", ""}
)

func (r *Rng) str() string {
	if r.P(2) { // long, with a beginning that others have too
		return strings.Repeat("prefix of many values ", r.PickI(3, 3, 6, 13)) + words[r.N(len(words))]
	}
	switch r.N(10) {
	case 0, 1, 2, 3:
		return words[r.N(len(words))]
	case 4, 5:
		return sent[r.N(len(sent))]
	case 6:
		return uwords[r.N(len(uwords))]
	case 7:
		return "see " + uwords[r.N(len(uwords))] + " here"
	case 8:
		return ints[r.N(len(ints))]
	}
	return strings.ToUpper(words[r.N(len(words))])
}

// genLeaf draws a clause.
func genLeaf(r *Rng) *Q {
	f := fields[r.N(len(fields))]
	if r.P(40) {
		f = fields[r.N(8)]
	}
	q := &Q{Op: "eq", Field: append([]string(nil), f...)}
	v := func(t, s string) { q.Vals = append(q.Vals, V{t, s}) }
	switch r.N(22) {
	case 0, 1, 2, 3:
		v("s", words[r.N(len(words))])
	case 4:
		v("s", r.Pick("alph?", "a*a", "h?llo", "wor*", "*eta", "hello w?rld"))
	case 5:
		v("s", uwords[r.N(len(uwords))])
	case 6, 7:
		v("i", ints[r.N(len(ints))])
	case 8:
		v("f", floats[r.N(len(floats))])
	case 9:
		v("b", r.Pick("true", "false"))
	case 10:
		v("r", res[r.N(len(res))])
	case 11:
		q.Field = []string{"ip"}
		v("n", nets[r.N(len(nets))])
	case 12:
		q.Field = []string{r.Pick("ts", "t", "d")}
		if r.Bool() {
			v("t", days[r.N(len(days))])
		} else {
			v("t", times[r.N(len(times))])
		}
	case 13:
		q.Op = "exists"
	case 14:
		q.Op = "null"
	case 15, 16:
		q.Op = r.Pick("lt", "lte", "gt", "gte")
		if r.Bool() {
			v("i", ints[r.N(len(ints))])
		} else {
			v("f", floats[r.N(len(floats))])
		}
	case 17:
		q.Op = r.Pick("lt", "lte", "gt", "gte")
		q.Field = []string{r.Pick("ts", "t", "d")}
		if r.Bool() {
			v("t", days[r.N(len(days))])
		} else {
			v("t", times[r.N(len(times))])
		}
	case 18:
		q.Op = "bet"
		a := r.Between(-5, 40)
		v("i", strconv.Itoa(a))
		v("i", strconv.Itoa(a+1+r.N(60)))
	case 19:
		q.Op = "bet"
		q.Field = []string{r.Pick("ts", "t")}
		v("t", r.Pick("1999-01-01", "2019-12-31", "2020-06-15"))
		v("t", r.Pick("2020-06-16", "2021-01-01T00:00:00Z", "2022-01-01"))
	case 20:
		q.Op = "sim"
		v("s", words[r.N(len(words))])
	case 21:
		n := r.Between(2, 5)
		seen := map[string]bool{}
		hasBool := false
		for i := 0; i < n; i++ {
			var x V
			switch r.N(6) {
			case 0, 1, 2:
				x = V{"s", words[r.N(len(words))]}
			case 3:
				x = V{"i", ints[r.N(len(ints))]}
			case 4:
				if hasBool {
					continue
				}
				hasBool = true
				x = V{"b", r.Pick("true", "false")}
			case 5:
				x = V{"r", res[r.N(len(res))]}
			}
			if seen[x.sval()] {
				continue
			}
			seen[x.sval()] = true
			q.Vals = append(q.Vals, x)
		}
		if len(q.Vals) == 0 {
			v("s", "alpha")
		}
	}
	return q
}

// genQuery draws a query of about n clauses with at most depth nested parentheses.
func genQuery(r *Rng, n, depth int) *Q {
	for try := 0; ; try++ {
		q := genTree(r, n)
		if n > 1 && r.P(12) {
			repeatLeaf(r, q)
		}
		if q.parens() <= depth {
			return q
		}
		if try > 20 {
			return genChain(r, n)
		}
	}
}

// repeatLeaf makes one clause of the query equal to another, or nearly so.
func repeatLeaf(r *Rng, q *Q) {
	var leaves []*Q
	q.walk(func(x *Q) {
		if x.leaf() {
			leaves = append(leaves, x)
		}
	})
	for k, n := 0, r.Between(1, 3); k < n; k++ {
		from, to := leaves[r.N(len(leaves))], leaves[r.N(len(leaves))]
		if from == to {
			continue
		}
		to.Op, to.Field, to.Vals = from.Op, append([]string(nil), from.Field...), append([]V(nil), from.Vals...)
		if r.P(25) {
			to.Field = append([]string(nil), fields[r.N(8)]...)
		}
	}
}

func genChain(r *Rng, n int) *Q {
	op := r.Pick("and", "or")
	q := genLeaf(r)
	for i := 1; i < n; i++ {
		q = &Q{Op: op, L: genLeaf(r), R: q}
	}
	return q
}

// genRow draws a flat query of n tiny clauses.
func genRow(r *Rng, n int) *Q {
	op := r.Pick("and", "or")
	leaf := func() *Q {
		q := &Q{Op: "eq", Field: []string{r.Pick("a", "b", "c")}}
		q.Vals = []V{{"i", ints[r.N(len(ints))]}}
		if r.P(30) {
			q.Vals[0] = V{"s", words[r.N(len(words))]}
		}
		return q
	}
	q := leaf()
	for i := 1; i < n; i++ {
		q = &Q{Op: op, L: leaf(), R: q}
	}
	return q
}

func genTree(r *Rng, n int) *Q {
	if n <= 1 {
		q := genLeaf(r)
		if r.P(15) {
			return &Q{Op: "not", L: q}
		}
		return q
	}
	if r.P(12) {
		return &Q{Op: "not", L: genTree(r, n)}
	}
	k := r.Between(1, n-1)
	return &Q{Op: r.Pick("and", "or"), L: genTree(r, k), R: genTree(r, n-k)}
}

// notOfNot is not expressible (NOT takes one clause): only through parentheses,
// which the renderer adds.

type jw struct {
	b  strings.Builder
	r  *Rng
	ws bool
}

func (w *jw) sp() {
	if w.ws && w.r.P(30) {
		w.b.WriteString(w.r.Pick(" ", "\n", "\t", "  "))
	}
}

func (w *jw) val(depth int) {
	r := w.r
	switch r.N(12) {
	case 0, 1, 2:
		w.str(r.str())
	case 3, 4:
		w.b.WriteString(ints[r.N(len(ints))])
	case 5:
		w.b.WriteString(floats[r.N(len(floats))])
	case 6:
		w.b.WriteString(r.Pick("true", "false"))
	case 7:
		w.b.WriteString("null")
	case 8:
		w.b.WriteByte('[')
		for i, n := 0, r.N(4); i < n; i++ {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.sp()
			w.scalar()
		}
		w.b.WriteByte(']')
	case 9:
		if depth > 0 {
			w.obj(depth - 1)
			return
		}
		w.b.WriteString("{}")
	case 10:
		w.str(words[r.N(len(words))])
	case 11:
		w.str(r.Pick("1", "2", "42", "10", "-3", "2.5", "abc1"))
	}
}

func (w *jw) scalar() {
	r := w.r
	switch r.N(6) {
	case 0, 1, 2:
		w.str(r.str())
	case 3:
		w.b.WriteString(ints[r.N(len(ints))])
	case 4:
		w.b.WriteString(r.Pick("true", "false", "null"))
	case 5:
		w.b.WriteString(floats[r.N(len(floats))])
	}
}

func (w *jw) str(s string) {
	if w.r.P(10) {
		// escaped form
		w.b.WriteByte('"')
		for _, c := range s {
			if c < 0x10000 && w.r.P(30) {
				fmt.Fprintf(&w.b, `\u%04x`, c)
			} else {
				b, _ := json.Marshal(string(c))
				w.b.Write(b[1 : len(b)-1])
			}
		}
		w.b.WriteByte('"')
		return
	}
	var sb strings.Builder
	enc := json.NewEncoder(&sb)
	enc.SetEscapeHTML(false)
	enc.Encode(s)
	w.b.WriteString(strings.TrimRight(sb.String(), "\n"))
}

func (w *jw) key(k string) {
	w.sp()
	w.str(k)
	w.sp()
	w.b.WriteByte(':')
	w.sp()
}

func (w *jw) obj(depth int) {
	r := w.r
	w.b.WriteByte('{')
	first := true
	put := func(k string, f func()) {
		if !first {
			w.b.WriteByte(',')
		}
		first = false
		w.key(k)
		f()
	}
	keys := []string{"a", "b", "c", "d", "n", "arr", "objs", "deep", "k k", "ts", "t", "ip", "u", "z", "été", "a.b", "extra", ""}
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	n := r.Between(2, 9)
	for _, k := range keys[:n] {
		if k == "" && r.P(70) {
			continue
		}
		k := k
		put(k, func() {
			switch k {
			case "n":
				w.b.WriteString("{")
				w.key("x")
				w.val(0)
				w.b.WriteByte(',')
				w.key("y")
				w.val(0)
				w.b.WriteString("}")
			case "objs":
				w.b.WriteByte('[')
				for i, m := 0, r.N(4); i < m; i++ {
					if i > 0 {
						w.b.WriteByte(',')
					}
					if r.P(20) {
						w.scalar()
						continue
					}
					w.b.WriteString("{")
					w.key("v")
					w.val(0)
					if r.Bool() {
						w.b.WriteByte(',')
						w.key("w")
						w.scalar()
					}
					w.b.WriteString("}")
				}
				w.b.WriteByte(']')
			case "deep":
				w.b.WriteString("{")
				w.key("l1")
				if r.P(30) {
					w.b.WriteString("[{")
					w.key("l2")
					w.val(0)
					w.b.WriteString("}]")
				} else {
					w.b.WriteString("{")
					w.key("l2")
					w.val(0)
					w.b.WriteString("}")
				}
				w.b.WriteString("}")
			case "ts", "t":
				switch r.N(6) {
				case 0:
					w.str(r.Pick("2020-06-15 12:30:00", "2020/06/15", "2020-01-01 00:00:00", "Mon, 15 Jun 2020 12:30:00 +0200", "2020-06-15 12:30:00 -0700"))
				case 1:
					w.str(r.Pick("1592224200", "1592224200000"))
				case 2:
					w.str(days[r.N(len(days))])
				case 3:
					w.str(r.str())
				default:
					w.str(times[r.N(len(times))])
				}
			case "ip":
				w.str(r.Pick("10.0.0.1", "10.9.8.7", "192.168.1.77", "seen 8.8.8.8 there", "10.0.0.0/16", "none", "from 172.16.5.5 to 192.168.1.3", "1.2.3.4"))
			case "u":
				w.str(r.Pick(uwords...))
			default:
				w.val(depth)
			}
		})
	}
	w.sp()
	w.b.WriteByte('}')
}

// genDoc draws a valid JSON object.
func genDoc(r *Rng) []byte {
	w := &jw{r: r, ws: r.P(30)}
	w.obj(1)
	return []byte(w.b.String())
}

// genOddDoc draws valid JSON of unusual shape.
func genOddDoc(r *Rng) []byte {
	switch r.N(9) {
	case 0:
		return []byte(r.Pick(`[]`, `{}`, `[1,2,"x"]`, `"s"`, `1`, `null`, `true`, ` {} `, "\n[ ]\n"))
	case 1:
		w := &jw{r: r}
		w.b.WriteByte('[')
		w.obj(0)
		w.b.WriteByte(',')
		w.obj(0)
		w.b.WriteByte(']')
		return []byte(w.b.String())
	case 2:
		return []byte(`{"a":[[1,"alpha"],["beta"]],"arr":[["hello"],"world"],"objs":[[{"v":1}],{"v":2}]}`)
	case 3:
		return []byte(`{"a":"alpha","a":"beta","b":1,"b":2}`)
	case 4:
		n := r.Between(3, 40)
		return []byte(strings.Repeat(`{"a":`, n) + `"alpha"` + strings.Repeat(`}`, n))
	case 5:
		n := r.Between(3, 40)
		return []byte(`{"arr":` + strings.Repeat(`[`, n) + `"alpha"` + strings.Repeat(`]`, n) + `}`)
	case 6:
		return []byte(`{"a":1e400,"b":-0,"c":1E5,"d":0.1e-3,"n":{"x":12345678901234567890}}`)
	case 7:
		return []byte(`{"a":"\ud83d\ude00","b":"\u0000","c":"\ud800","u":"\u5927\u61d2\u866b"}`)
	}
	return []byte(`{"":1,"":{"":"alpha"},"a.b":{"c":1},"*":"beta"}`)
}

// genBigDoc draws a large valid document whose interesting fields come first,
// last or in the middle.
func genBigDoc(r *Rng, size int) []byte {
	w := &jw{r: r}
	w.obj(1)
	core := w.b.String()
	core = core[1 : len(core)-1]
	var b strings.Builder
	b.WriteString("{")
	where := r.N(3)
	if where == 0 && core != "" {
		b.WriteString(core)
		b.WriteByte(',')
	}
	b.WriteString(`"pad":[`)
	for i := 0; b.Len() < size; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		switch i % 4 {
		case 0:
			fmt.Fprintf(&b, `{"id":%d,"name":"item %d"}`, i, i)
		case 1:
			fmt.Fprintf(&b, `"%s"`, strings.Repeat("lorem ipsum ", 6))
		case 2:
			fmt.Fprintf(&b, `%d.5`, i)
		case 3:
			b.WriteString(`[1,2,[3]]`)
		}
	}
	b.WriteString(`]`)
	if where != 0 && core != "" {
		b.WriteByte(',')
		b.WriteString(core)
	}
	b.WriteString("}")
	return []byte(b.String())
}

// Damage kinds of documents in transit.
var damageKinds = []string{"truncate", "flip", "zero", "delete", "dup", "append", "splice", "empty", "concat", "prepend", "token", "blank"}

// damage returns a damaged copy of a document. at selects the place (0..999 of
// its length), x varies the kind.
func damage(kind string, doc []byte, at, x int) []byte {
	n := len(doc)
	pos := 0
	if n > 0 {
		pos = at * n / 1000
		if pos >= n {
			pos = n - 1
		}
	}
	out := append([]byte(nil), doc...)
	switch kind {
	case "truncate":
		return out[:pos]
	case "flip":
		if n > 0 {
			out[pos] ^= 1 << uint(x%8)
		}
	case "zero":
		for i := pos; i < n && i < pos+1+x%16; i++ {
			out[i] = 0
		}
	case "delete":
		e := pos + 1 + x%4
		if e > n {
			e = n
		}
		out = append(out[:pos], out[e:]...)
	case "dup":
		e := pos + 1 + x%8
		if e > n {
			e = n
		}
		out = append(append(append([]byte(nil), out[:e]...), doc[pos:e]...), doc[e:]...)
	case "append":
		out = append(out, []byte([]string{"}", "x", ",", "{}", "\x00", "]", " 1", "\"", "//c"}[x%9])...)
	case "splice":
		h := n / 2
		if n > 0 {
			h = (pos*7 + x*13) % n
		}
		out = append(append([]byte(nil), doc[:pos]...), doc[h:]...)
	case "empty":
		return []byte([]string{"", " ", "\n", "\t \n"}[x%4])
	case "concat":
		out = append(append(out, []byte([]string{"", "\n", " "}[x%3])...), doc...)
	case "token": // something that only looks like JSON in place of a value
		i := bytes.IndexByte(doc[pos:], ':')
		if i < 0 {
			i = bytes.IndexByte(doc, ':')
		} else {
			i += pos
		}
		if i < 0 {
			return []byte(badTokens[x%len(badTokens)])
		}
		e := i + 1
		for e < n && !strings.ContainsRune(",}]", rune(doc[e])) {
			e++
		}
		out = append(append(append([]byte(nil), doc[:i+1]...), badTokens[x%len(badTokens)]...), doc[e:]...)
	case "blank": // what is no blank in JSON, or nothing where something is needed
		c := []string{"\f", "\v", "\u00a0", "\u2028", "/**/", ",", "\x1f", "\x7f", "\ufeff", "\\", "'"}[x%11]
		i := bytes.IndexAny(doc[pos:], ",:{}[]")
		if i < 0 {
			i = 0
		}
		out = append(append(append([]byte(nil), doc[:pos+i]...), c...), doc[pos+i:]...)
	case "prepend":
		out = append([]byte([]string{"\xef\xbb\xbf", "x", ",", "}", "\x00", "'", ")]}'"}[x%7]), out...)
	}
	return out
}

var badTokens = []string{
	"01", "-", "+1", "1.", ".5", "1e", "1e+", "0x1f", "1_000", "NaN", "Infinity", "-Infinity", "--1", "00", "1..2", "1e5.5",
	"True", "None", "undefined", "nul", "nulll", "tru", "truefalse", "TRUE", "false1", "n", "t", "f",
	"'alpha'", "\"alpha", "alpha\"", "\"a\"\"b\"", "\"\\x41\"", "\"\\u12\"", "\"\\u12G4\"", "\"\\\"", "\"a\nb\"", "\"a\tb\"", "\"a\x00b\"", "`alpha`",
	"", "[1,]", "[,1]", "[1 2]", "[1", "{\"x\":1,}", "{x:1}", "{\"x\"}", "{\"x\":}", "{,}", "[}", "{]", "(1)", "1 2", "// one\n1", "/* one */ 1", "#1",
}

// genBadText damages a query text; the result may still be valid.
func genBadText(r *Rng, s string) Bytes {
	if len(s) == 0 {
		return Bytes(":")
	}
	if strings.Count(s, "(") > 3 {
		s = r.Pick("a:1 AND (b:2 OR c:\"x\")", "NOT a:(1,2) OR b:/x+/", "a:>1 AND b:\"été\" OR c:exists")
	}
	i := r.N(len(s))
	switch r.N(12) {
	case 10:
		return Bytes(r.Pick("\ufeff", "\u200b", "\u00a0", "\x00", "#!", "\r\n", "\ufffe", "\v") + s)
	case 11:
		return Bytes(s + r.Pick("\x00", "\r\n", "\x1a", "\ufeff", "\u00a0", ";", "\n", "\f"))
	case 0:
		return Bytes(s[:i])
	case 1:
		return Bytes(s[:i] + s[i+1:])
	case 2:
		return Bytes(s[:i] + r.Pick("(", ")", ":", `"`, "/", " AND ", " OR ", "!", "\x00", "é", ",", "~", "<", "\xff") + s[i:])
	case 3:
		return Bytes(s + " AND")
	case 4:
		return Bytes(r.Pick("", " ", "a", "a:", "a:()", "a:(1,1)", "a:><(2,1)", "a:<\"x\"", "a:(true,false)", "a:/(/", "a:1.2.3.4.5", "a:2020-99-99", "a:999999999999999999999", "a:><(1,2,3)", "a:~1", "*:1", `"":1`, "a:10.0.0.0/99", "a:\"\\q\""))
	case 5:
		return Bytes("(" + s)
	case 6:
		return Bytes(s + ")")
	case 7:
		return Bytes(s + " AND " + r.Pick("b:(2,2)", "c:/[/", "d:><(3,2)", "e:<true", "f:(true,false)", `"x":exists(1)`))
	case 8:
		return Bytes(strings.Replace(s, ":", r.Pick("", "::", " "), 1))
	}
	return Bytes(s[:i] + s)
}

// siblingText changes a query a little; the result need not be valid.
func siblingText(r *Rng, t string) Bytes {
	if t == "" {
		return Bytes(" ")
	}
	i := r.N(len(t))
	switch r.N(9) {
	case 0:
		return Bytes(strings.Repeat(r.Pick(" ", "\n", "\t"), r.Between(1, 4)) + t)
	case 1:
		return Bytes(t + strings.Repeat(r.Pick(" ", "\n"), r.Between(1, 4)))
	case 2:
		return Bytes(strings.ToUpper(t))
	case 3:
		return Bytes(strings.ToLower(t))
	case 4: // one letter or digit changed
		for k := range t {
			j := (i + k) % len(t)
			if c := t[j]; c >= 'a' && c < 'z' || c >= '1' && c < '9' {
				return Bytes(t[:j] + string(c+1) + t[j+1:])
			}
		}
		return Bytes(t)
	case 5: // one more blank wherever there is one
		return Bytes(strings.ReplaceAll(t, " ", "  "))
	case 6:
		return Bytes("(" + t + ")")
	case 7: // the same length, two parts exchanged
		if k := strings.Index(t, " AND "); k >= 0 {
			return Bytes(t[k+5:] + " AND " + t[:k])
		}
		return Bytes("!" + t)
	}
	return Bytes(strings.Replace(t, "AND", "and", 1) + " /* */"[:r.PickI(0, 0, 6)])
}

func clip(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%q...(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%q", b)
}
