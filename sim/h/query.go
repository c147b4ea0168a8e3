package h

import (
	"fmt"
	"strconv"
	"strings"
)

// Q is the harness's own query tree: the reference model evaluates it and
// renders it to query text, independently of the parser under test.
type Q struct {
	Op    string   `json:"op"` // and or not eq sim lt lte gt gte bet exists null
	L     *Q       `json:"l,omitempty"`
	R     *Q       `json:"r,omitempty"`
	Field []string `json:"f,omitempty"`
	Vals  []V      `json:"v,omitempty"`
}

// V is a literal: type tag and the value it stands for.
type V struct {
	T string `json:"t"` // s(tring) i(nt) f(loat) b(ool) r(egexp) n(et) t(ime)
	S string `json:"s"`
}

func (q *Q) leaf() bool { return q.L == nil }

// Text of the value as written in a query.
func (v V) text() string {
	switch v.T {
	case "s":
		return quoteAQL(v.S)
	case "r":
		return "/" + strings.ReplaceAll(v.S, "/", `\/`) + "/"
	}
	return v.S
}

func quoteAQL(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// sval is the value as the syntax tree prints it.
func (v V) sval() string {
	switch v.T {
	case "s":
		return strconv.Quote(v.S)
	case "r":
		return "/" + v.S + "/"
	case "f":
		f, _ := strconv.ParseFloat(v.S, 64)
		return strconv.FormatFloat(f, 'f', -1, 64)
	case "n":
		if !strings.Contains(v.S, "/") {
			return v.S + "/32"
		}
	}
	return v.S
}

func bareField(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
			return false
		}
	}
	return true
}

func fieldText(f []string) string {
	var parts []string
	for _, p := range f {
		if bareField(p) {
			parts = append(parts, p)
		} else {
			parts = append(parts, quoteAQL(p))
		}
	}
	return strings.Join(parts, ".")
}

// FieldSExpr is the field as the syntax tree prints it.
func fieldSExpr(f []string) string {
	var parts []string
	for _, p := range f {
		if strings.ContainsAny(p, ` ."`) {
			parts = append(parts, strconv.Quote(p))
		} else {
			parts = append(parts, p)
		}
	}
	return strings.Join(parts, ".")
}

var opText = map[string]string{"lt": "<", "lte": "<=", "gt": ">", "gte": ">=", "bet": "><", "sim": "~", "eq": ""}
var opSExpr = map[string]string{"lt": "<", "lte": "<=", "gt": ">", "gte": ">=", "bet": "><", "sim": "~", "eq": "==", "exists": "exists", "null": "null"}

// SExpr is the tree the documentation promises, as the parser prints trees.
func (q *Q) SExpr() string {
	switch q.Op {
	case "and":
		return "(&& " + q.L.SExpr() + " " + q.R.SExpr() + ")"
	case "or":
		return "(|| " + q.L.SExpr() + " " + q.R.SExpr() + ")"
	case "not":
		return "(! " + q.L.SExpr() + ")"
	}
	s := "(" + opSExpr[q.Op] + " " + fieldSExpr(q.Field)
	switch len(q.Vals) {
	case 0:
	case 1:
		s += " " + q.Vals[0].sval()
	default:
		var vs []string
		for _, v := range q.Vals {
			vs = append(vs, v.sval())
		}
		s += " [" + strings.Join(vs, ", ") + "]"
	}
	return s + ")"
}

// prec: 1 or, 2 and, 3 not / leaf
func (q *Q) prec() int {
	switch q.Op {
	case "or":
		return 1
	case "and":
		return 2
	}
	return 3
}

// Style varies how a tree is written.
type style struct{ r *Rng }

func (st style) sp() string {
	if st.r == nil {
		return " "
	}
	return st.r.Pick(" ", " ", " ", "  ", "\n", "\t", " \n ")
}
func (st style) osp() string {
	if st.r == nil {
		return ""
	}
	return st.r.Pick("", "", "", " ", "\n")
}

// Text renders the query; with a generator, in a random style.
func (q *Q) Text(r *Rng) string { return q.render(style{r}) }

func (q *Q) render(st style) string {
	switch q.Op {
	case "and", "or":
		// right-associative
		kw, p := "AND", 2
		if q.Op == "or" {
			kw, p = "OR", 1
		}
		return paren(q.L, p+1, st) + st.sp() + kw + st.sp() + paren(q.R, p, st)
	case "not":
		if st.r != nil && st.r.Bool() {
			return "NOT" + st.sp() + parenNot(q.L, st)
		}
		return "!" + parenNot(q.L, st)
	}
	f := fieldText(q.Field)
	if q.Op == "exists" || q.Op == "null" {
		return f + st.osp() + ":" + st.osp() + q.Op
	}
	s := f + st.osp() + ":" + st.osp() + opText[q.Op] + st.osp()
	if len(q.Vals) == 1 {
		return s + q.Vals[0].text()
	}
	s += "(" + st.osp()
	for i, v := range q.Vals {
		if i > 0 {
			s += st.osp() + "," + st.osp()
		}
		s += v.text()
	}
	return s + st.osp() + ")"
}

func paren(q *Q, need int, st style) string {
	if q.prec() >= need {
		return q.render(st)
	}
	return "(" + st.osp() + q.render(st) + st.osp() + ")"
}

// NOT takes a single comparison
func parenNot(q *Q, st style) string {
	if q.leaf() {
		return q.render(st)
	}
	return "(" + st.osp() + q.render(st) + st.osp() + ")"
}

// depth of parentheses the rendering needs
func (q *Q) parens() int {
	switch q.Op {
	case "and", "or":
		p := 2
		if q.Op == "or" {
			p = 1
		}
		l, r := q.L.parens(), q.R.parens()
		if q.L.prec() < p+1 {
			l++
		}
		if q.R.prec() < p {
			r++
		}
		if l > r {
			return l
		}
		return r
	case "not":
		d := q.L.parens()
		if !q.L.leaf() {
			d++
		}
		return d
	}
	return 0
}

func (q *Q) size() int {
	n := 1
	if q.L != nil {
		n += q.L.size()
	}
	if q.R != nil {
		n += q.R.size()
	}
	return n
}

// walk visits the tree depth-first, parents before children, left before right.
func (q *Q) walk(f func(*Q)) {
	f(q)
	if q.L != nil {
		q.L.walk(f)
	}
	if q.R != nil {
		q.R.walk(f)
	}
}

func (q *Q) leaves() []*Q {
	var out []*Q
	q.walk(func(x *Q) {
		if x.leaf() {
			out = append(out, x)
		}
	})
	return out
}
