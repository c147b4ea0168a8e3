package h

import (
	"bytes"
	"encoding/json"
	"net/netip"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// Tri is a verdict of the reference model: Unk where the documentation leaves
// the verdict open.
type Tri int

const (
	False Tri = iota
	True
	Unk
)

func tri(b bool) Tri {
	if b {
		return True
	}
	return False
}

// D is a parsed document of the model: keeps key order, raw numbers.
type D struct {
	K    byte // o a s n b z(null)
	Esc  bool // string written with escapes
	S    string
	B    bool
	Keys []string
	Kids []*D
}

// ParseDoc reads valid JSON into the model's form; nil if it is not an
// unambiguous document (duplicate keys).
func ParseDoc(b []byte) *D {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	d, ok := parseD(dec, b)
	if !ok {
		return nil
	}
	return d
}

func parseD(dec *json.Decoder, b []byte) (*D, bool) {
	from := dec.InputOffset()
	t, err := dec.Token()
	if err != nil {
		return nil, false
	}
	switch v := t.(type) {
	case json.Delim:
		switch v {
		case '{':
			d := &D{K: 'o'}
			seen := map[string]bool{}
			for dec.More() {
				kt, err := dec.Token()
				if err != nil {
					return nil, false
				}
				k := kt.(string)
				if seen[k] {
					return nil, false
				}
				seen[k] = true
				c, ok := parseD(dec, b)
				if !ok {
					return nil, false
				}
				d.Keys = append(d.Keys, k)
				d.Kids = append(d.Kids, c)
			}
			dec.Token()
			return d, true
		case '[':
			d := &D{K: 'a'}
			for dec.More() {
				c, ok := parseD(dec, b)
				if !ok {
					return nil, false
				}
				d.Kids = append(d.Kids, c)
			}
			dec.Token()
			return d, true
		}
	case string:
		return &D{K: 's', S: v, Esc: bytes.IndexByte(b[from:dec.InputOffset()], '\\') >= 0}, true
	case json.Number:
		return &D{K: 'n', S: v.String()}, true
	case bool:
		return &D{K: 'b', B: v}, true
	case nil:
		return &D{K: 'z'}, true
	}
	return nil, false
}

func (d *D) get(k string) *D {
	for i, x := range d.Keys {
		if x == k {
			return d.Kids[i]
		}
	}
	return nil
}

// resolve returns the values at a path: keys of objects, arrays of objects
// traversed transparently. murky is set when an array sits directly in an array
// on the way ("deeply nested arrays are a WIP") or the root is no object.
func resolve(d *D, path []string, murky *bool) []*D {
	switch d.K {
	case 'o':
		c := d.get(path[0])
		if c == nil {
			return nil
		}
		if len(path) == 1 {
			return []*D{c}
		}
		return resolve(c, path[1:], murky)
	case 'a':
		var out []*D
		for _, c := range d.Kids {
			switch c.K {
			case 'o':
				out = append(out, resolve(c, path, murky)...)
			case 'a':
				*murky = true
			}
		}
		return out
	}
	return nil
}

func scalars(vs []*D, murky *bool) []*D {
	var out []*D
	for _, v := range vs {
		switch v.K {
		case 'o':
		case 'a':
			for _, c := range v.Kids {
				switch c.K {
				case 'o':
				case 'a':
					*murky = true
				default:
					out = append(out, c)
				}
			}
		default:
			out = append(out, v)
		}
	}
	return out
}

// Eval gives the documented verdict of a leaf clause.
func (q *Q) evalLeaf(d *D) Tri {
	if d == nil || d.K != 'o' {
		return Unk
	}
	murky := false
	vals := resolve(d, q.Field, &murky)
	if murky {
		return Unk
	}
	switch q.Op {
	case "exists":
		return tri(len(vals) > 0)
	case "null":
		if len(vals) == 0 {
			return False
		}
		for _, v := range vals {
			if v.K != 'z' {
				return False
			}
		}
		return True
	}
	sc := scalars(vals, &murky)
	if murky {
		return Unk
	}
	res := False
	for _, c := range q.Vals {
		for _, v := range sc {
			var t Tri
			if q.Op == "bet" {
				t = q.between(v)
			} else {
				t = cmp(q.Op, c, v)
			}
			if t == True {
				return True
			}
			if t == Unk {
				res = Unk
			}
		}
		if q.Op == "bet" {
			break
		}
	}
	return res
}

// Eval gives the documented verdict of the whole query.
func (q *Q) Eval(d *D) Tri {
	switch q.Op {
	case "and":
		l := q.L.Eval(d)
		if l == False {
			return False
		}
		r := q.R.Eval(d)
		if r == False {
			return False
		}
		if l == Unk || r == Unk {
			return Unk
		}
		return True
	case "or":
		l := q.L.Eval(d)
		if l == True {
			return True
		}
		r := q.R.Eval(d)
		if r == True {
			return True
		}
		if l == Unk || r == Unk {
			return Unk
		}
		return False
	case "not":
		switch q.L.Eval(d) {
		case True:
			return False
		case False:
			return True
		}
		return Unk
	}
	return q.evalLeaf(d)
}

func plainDecimal(s string) bool {
	if s == "" {
		return false
	}
	for i, c := range s {
		if c >= '0' && c <= '9' || c == '.' || (c == '-' && i == 0) {
			continue
		}
		return false
	}
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

// number of a JSON value: numbers, and strings that are plain decimals.
// Other strings that look remotely numeric are left open.
func number(v *D) (float64, Tri) {
	switch v.K {
	case 'n':
		f, err := strconv.ParseFloat(v.S, 64)
		if err != nil {
			return 0, Unk
		}
		return f, True
	case 's':
		if v.Esc && strings.IndexFunc(v.S, unicode.IsDigit) >= 0 {
			return 0, Unk
		}
		if plainDecimal(v.S) {
			f, _ := strconv.ParseFloat(v.S, 64)
			return f, True
		}
		if v.S != "" && strings.IndexFunc(v.S, unicode.IsDigit) < 0 {
			l := strings.ToLower(v.S)
			if strings.Contains(l, "inf") || strings.Contains(l, "nan") {
				return 0, Unk
			}
			return 0, False
		}
		return 0, Unk
	}
	return 0, False
}

func ord(op string, c int) bool {
	switch op {
	case "eq":
		return c == 0
	case "lt":
		return c < 0
	case "lte":
		return c <= 0
	case "gt":
		return c > 0
	case "gte":
		return c >= 0
	}
	return false
}

func fcmp(a, b float64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

var (
	reRFC  = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)$`)
	reDay  = regexp.MustCompile(`^\d{4}-\d\d-\d\d$`)
	reSp   = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d$`)
	reSpO  = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4}$`)
	reSla  = regexp.MustCompile(`^\d{4}/\d\d/\d\d$`)
	reHTTP = regexp.MustCompile(`^[A-Z][a-z][a-z], \d\d [A-Z][a-z][a-z] \d{4} \d\d:\d\d:\d\d [+-]\d{4}$`)
	reSec  = regexp.MustCompile(`^1\d{9}$`)
	reMs   = regexp.MustCompile(`^1\d{12}$`)
)

// instant reads the timestamp formats the model commits itself to: with a
// numeric offset, or without zone and then UTC.
func instant(s string) (time.Time, Tri) {
	p := func(l string) (time.Time, Tri) {
		t, err := time.ParseInLocation(l, s, time.UTC)
		if err != nil || t.Year() < 1700 || t.Year() > 2250 {
			return t, Unk // not all instants can be told apart outside these years
		}
		return t, True
	}
	switch {
	case reRFC.MatchString(s):
		return p(time.RFC3339)
	case reDay.MatchString(s):
		return p("2006-01-02")
	case reSp.MatchString(s):
		return p("2006-01-02 15:04:05")
	case reSpO.MatchString(s):
		return p("2006-01-02 15:04:05 -0700")
	case reSla.MatchString(s):
		return p("2006/01/02")
	case reHTTP.MatchString(s):
		return p(time.RFC1123Z)
	case reSec.MatchString(s):
		n, _ := strconv.ParseInt(s, 10, 64)
		return time.Unix(n, 0), True
	case reMs.MatchString(s):
		n, _ := strconv.ParseInt(s, 10, 64)
		return time.UnixMilli(n), True
	}
	if s != "" && strings.IndexFunc(s, unicode.IsDigit) < 0 {
		return time.Time{}, False
	}
	return time.Time{}, Unk
}

func timeLit(s string) (t time.Time, day bool) {
	if len(s) == 10 {
		t, _ = time.Parse("2006-01-02", s)
		return t, true
	}
	t, _ = time.Parse(time.RFC3339, s)
	return t, false
}

func (q *Q) between(v *D) Tri {
	a, b := q.Vals[0], q.Vals[1]
	if a.T == "t" {
		if b.T != "t" {
			return Unk
		}
		if v.K != 's' && v.K != 'n' {
			return False
		}
		t, k := instant(v.S)
		if v.Esc && k == True {
			k = Unk
		}
		if k != True {
			return k
		}
		lo, _ := timeLit(a.S)
		hi, _ := timeLit(b.S)
		if t.Equal(lo) || t.Equal(hi) {
			return Unk // inclusive or not is not documented
		}
		return tri(t.After(lo) && t.Before(hi))
	}
	if b.T == "t" {
		return Unk
	}
	f, k := number(v)
	if k != True {
		return k
	}
	lo, _ := strconv.ParseFloat(a.S, 64)
	hi, _ := strconv.ParseFloat(b.S, 64)
	if f == lo || f == hi {
		return Unk
	}
	return tri(f > lo && f < hi)
}

func strOf(v *D) (string, Tri) {
	switch v.K {
	case 's':
		return v.S, True
	case 'n':
		if plainDecimal(v.S) {
			f, _ := strconv.ParseFloat(v.S, 64)
			s := strconv.FormatFloat(f, 'f', -1, 64)
			if s == v.S {
				return s, True
			}
		}
		return "", Unk
	}
	return "", False
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

var reCache = map[string]*regexp.Regexp{}

func re(s string) *regexp.Regexp {
	r := reCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		reCache[s] = r
	}
	return r
}

func wordy(s string) bool {
	if s == "" {
		return false
	}
	f, l := rune(s[0]), rune(s[len(s)-1])
	w := func(r rune) bool {
		return r < 0x80 && (unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_')
	}
	return w(f) && w(l)
}

func cmp(op string, c V, v *D) Tri {
	switch c.T {
	case "b":
		if v.K != 'b' {
			return False
		}
		return tri(v.B == (c.S == "true"))
	case "i", "f":
		f, k := number(v)
		if k != True {
			return k
		}
		x, _ := strconv.ParseFloat(c.S, 64)
		return tri(ord(op, fcmp(f, x)))
	case "t":
		if v.K != 's' && v.K != 'n' {
			return False
		}
		t, k := instant(v.S)
		if v.Esc && k == True {
			k = Unk
		}
		if k != True {
			return k
		}
		x, day := timeLit(c.S)
		if op == "eq" && day {
			return tri(!t.Before(x) && t.Before(x.Add(24*time.Hour)))
		}
		n := 0
		if t.Before(x) {
			n = -1
		} else if t.After(x) {
			n = 1
		}
		return tri(ord(op, n))
	case "n":
		s, k := strOf(v)
		if k != True {
			return k
		}
		if v.Esc && strings.IndexFunc(s, unicode.IsDigit) >= 0 {
			return Unk
		}
		return netMatch(c.S, s)
	case "r":
		s, k := strOf(v)
		if k != True {
			return k
		}
		return tri(re(c.S).MatchString(s))
	case "s":
		s, k := strOf(v)
		if k != True {
			return k
		}
		return strMatch(c.S, s)
	}
	return Unk
}

func strMatch(pat, s string) Tri {
	wild := strings.ContainsAny(pat, "?*")
	if strings.Contains(pat, `\`) || pat == "" {
		return Unk
	}
	if ascii(pat) {
		if !wordy(strings.NewReplacer("?", "x", "*", "x").Replace(pat)) || !ascii(s) || strings.ContainsAny(s, "\n") {
			return Unk
		}
		if wild && (pat[0] == '?' || pat[0] == '*' || pat[len(pat)-1] == '?' || pat[len(pat)-1] == '*') {
			return Unk
		}
		e := regexp.QuoteMeta(strings.ToLower(pat))
		e = strings.ReplaceAll(e, `\?`, `.`)
		e = strings.ReplaceAll(e, `\*`, `.*?`)
		return tri(re(`(?i)\b` + e + `\b`).MatchString(s))
	}
	if wild {
		return Unk
	}
	// loose matching of other scripts: certain only when the text itself is
	// there, or when not even its first letter is
	if strings.Contains(s, pat) {
		return True
	}
	if ascii(s) {
		return False
	}
	first := []rune(pat)[0]
	if first > 0x2E80 && !strings.ContainsRune(s, first) { // ideographs have no loose variants here
		return False
	}
	return Unk
}

var reNet = regexp.MustCompile(`^\d{1,3}(\.\d{1,3}){3}(/\d{1,2})?$`)

func netMatch(c, s string) Tri {
	if strings.IndexFunc(s, unicode.IsDigit) < 0 {
		return False
	}
	// the address stands alone between blanks
	res := False
	for _, w := range strings.Fields(s) {
		if strings.IndexFunc(w, unicode.IsDigit) < 0 {
			continue
		}
		if !reNet.MatchString(w) {
			if strings.Count(w, ".") < 3 {
				continue
			}
			return Unk
		}
		if !strings.Contains(c, "/") {
			c += "/32"
		}
		p, err := netip.ParsePrefix(c)
		if err != nil {
			return Unk
		}
		if strings.Contains(w, "/") {
			x, err := netip.ParsePrefix(w)
			if err != nil {
				return Unk
			}
			if p.Overlaps(x) {
				return True
			}
		} else {
			a, err := netip.ParseAddr(w)
			if err != nil {
				return Unk
			}
			if p.Contains(a) {
				return True
			}
		}
	}
	return res
}

// Counts of a node: how often it had to be evaluated and how often it matched.
type Counts struct{ Checked, Matched int64 }

// Tally adds one evaluation of the query over leaf verdicts to the counts of
// its nodes (in walk order) and returns the verdict.
func (q *Q) Tally(leaf func(*Q) bool, add func(*Q, bool)) bool {
	var res bool
	switch q.Op {
	case "and":
		res = q.L.Tally(leaf, add) && q.R.Tally(leaf, add)
	case "or":
		res = q.L.Tally(leaf, add) || q.R.Tally(leaf, add)
	case "not":
		res = !q.L.Tally(leaf, add)
	default:
		res = leaf(q)
	}
	add(q, res)
	return res
}
