// Command instr copies a Go module and rewrites it for deterministic simulation.
//
//	instr -src /repo -dst DIR/repo -rt DIR/simrt [-plain file,file] [-main cmd/x,...]
//
// Every statement gets a scheduling point, and every operation on a source of
// nondeterminism (sync, sync/atomic, goroutines, channels, clocks, files,
// process exit, map iteration order) is redirected to the simulator's runtime
// package. Nothing else changes: with the simulator inactive the rewritten code
// does what the original does. The rewriting is by position in the source text,
// independent of how the code is written; a file that cannot be rewritten
// (listed in -plain after a failed build) is copied as it is.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	rtPath = "vsim/simrt"
	rtName = "vSimRt__"
)

// whole-import substitutions: same API under the same local name
var swapImports = map[string]string{
	"sync":        "vsim/simsync",
	"sync/atomic": "vsim/simatomic",
	"syscall/js":  "vsim/simjs",
}

// selective substitutions: only these names are redirected
var swapNames = map[string]struct {
	path, alias string
	names       map[string]bool
	keep        string // expression that keeps the original import used
}{
	"time":      {"vsim/simtime", "vSimTime__", set("Now Since Until Sleep After NewTimer NewTicker AfterFunc Tick Timer Ticker"), "time.Nanosecond"},
	"os":        {"vsim/simos", "vSimOs__", set("File Open OpenFile Create CreateTemp ReadFile WriteFile Stat Lstat Remove Rename Exit Args Stdout Stderr Stdin DirFS ReadDir MkdirAll Mkdir RemoveAll Link Symlink Truncate Chmod"), "os.O_RDONLY"},
	"io/ioutil": {"vsim/simos", "vSimOs__", set("ReadFile WriteFile"), "ioutil.Discard"},
	"log":       {"vsim/simlog", "vSimLog__", set("Fatal Fatalf Fatalln New SetOutput"), "log.LstdFlags"},
	"log/slog":  {"vsim/simlog", "vSimSlog__", set("NewTextHandler NewJSONHandler"), "slog.LevelInfo"},
	"io":        {"vsim/simio", "vSimIo__", set("Pipe PipeReader PipeWriter"), "io.EOF"},
	"fmt":       {"vsim/simfmt", "vSimFmt__", set("Print Printf Println"), "fmt.Sprint"},
	"flag":      {"vsim/simflag", "vSimFlag__", set("Parse"), "flag.ErrHelp"},
	"net/http":  {"vsim/simhttp", "vSimHttp__", set("ListenAndServe Serve"), "http.StatusOK"},
	"context":   {"vsim/simctx", "vSimCtx__", set("WithTimeout WithDeadline WithTimeoutCause WithDeadlineCause AfterFunc"), "context.Canceled"},
	"runtime":   {"vsim/simrt", "vSimRun__", set("Gosched SetFinalizer AddCleanup"), "runtime.GOOS"},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

type edit struct {
	start, end int
	text       string
	prio       int // for insertions at the same offset: lower first
	seq        int
}

type fileInstr struct {
	src    []byte
	fset   *token.FileSet
	f      *ast.File
	info   *types.Info
	edits  []edit
	needRt bool
	usedSw map[string]bool // import path of selectively swapped packages
	seq    int
	noFS   bool // do not swap os/log/fmt/http (library packages keep the real ones where harmless)
}

func (fi *fileInstr) off(p token.Pos) int { return fi.fset.Position(p).Offset }
func (fi *fileInstr) text(n ast.Node) string {
	return string(fi.src[fi.off(n.Pos()):fi.off(n.End())])
}
func (fi *fileInstr) ins(at int, s string, prio int) {
	fi.seq++
	fi.edits = append(fi.edits, edit{at, at, s, prio, fi.seq})
}
func (fi *fileInstr) rep(a, b int, s string) {
	fi.seq++
	fi.edits = append(fi.edits, edit{a, b, s, 0, fi.seq})
}

func hasFuncLit(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

// hasRedirect reports whether the node contains anything that gets its own edits
func (fi *fileInstr) hasRedirect(n ast.Node) bool {
	found := hasFuncLit(n)
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if p := fi.pkgOf(id); p != "" {
					if sw, ok := swapNames[p]; ok && sw.names[x.Sel.Name] {
						found = true
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
		}
		return !found
	})
	return found
}

// pkgOf returns the import path an identifier refers to, or "".
func (fi *fileInstr) pkgOf(id *ast.Ident) string {
	if fi.info != nil {
		if pn, ok := fi.info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
		if fi.info.Uses[id] != nil {
			return ""
		}
	}
	if id.Obj != nil {
		return ""
	}
	for _, im := range fi.f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == id.Name {
			return p
		}
	}
	return ""
}

func (fi *fileInstr) typeOf(e ast.Expr) types.Type {
	if fi.info == nil {
		return nil
	}
	return fi.info.TypeOf(e)
}

func (fi *fileInstr) isMap(e ast.Expr) bool {
	t := fi.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func (fi *fileInstr) isChan(e ast.Expr) bool {
	t := fi.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// shared reports whether the lvalue may be visible to another goroutine:
// anything but a plain local variable (or a field of a local struct variable).
func (fi *fileInstr) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return fi.shared(x.X)
	case *ast.Ident:
		if fi.info == nil {
			return false
		}
		v, ok := fi.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		return v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() || fi.captured(x, v)
	case *ast.SelectorExpr:
		t := fi.typeOf(x.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		if id, ok := x.X.(*ast.Ident); ok && fi.pkgOf(id) != "" {
			return true
		}
		return fi.shared(x.X)
	case *ast.IndexExpr:
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

// captured: a local variable assigned inside a function literal declared after it
func (fi *fileInstr) captured(id *ast.Ident, v *types.Var) bool {
	cap := false
	ast.Inspect(fi.f, func(n ast.Node) bool {
		if cap {
			return false
		}
		if fl, ok := n.(*ast.FuncLit); ok {
			if fl.Pos() <= id.Pos() && id.End() <= fl.End() && !(fl.Pos() <= v.Pos() && v.Pos() <= fl.End()) {
				cap = true
			}
		}
		return true
	})
	return cap
}

func (fi *fileInstr) y() string { fi.needRt = true; return rtName + ".Y(); " }

func (fi *fileInstr) block(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return
		case *ast.EmptyStmt:
			continue
		}
		y := fi.y()
		if fi.usesGraphviz(s) {
			y += rtName + ".Touch(); "
		}
		fi.ins(fi.off(s.Pos()), y, 10)
	}
}

const gvPrefix = "github.com/goccy/go-graphviz"

// usesGraphviz reports whether the statement itself (not the blocks and
// function literals in it) calls into the graphviz library.
func (fi *fileInstr) usesGraphviz(s ast.Stmt) bool {
	if fi.info == nil {
		return false
	}
	switch s.(type) {
	case *ast.DeferStmt, *ast.GoStmt:
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.CallExpr:
			sel, ok := unparen(x.Fun).(*ast.SelectorExpr)
			if !ok {
				break
			}
			fn, ok := fi.info.Uses[sel.Sel].(*types.Func)
			if !ok || fn.Pkg() == nil || !strings.HasPrefix(fn.Pkg().Path(), gvPrefix) {
				break
			}
			if fn.Pkg().Path() == gvPrefix && (fn.Name() == "Name" || strings.HasPrefix(fn.Name(), "With")) {
				break // options are plain Go
			}
			found = true
		}
		return !found
	})
	return found
}

func (fi *fileInstr) stmt(s ast.Stmt) {
	if fi.info == nil {
		return
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		fi.rmw(x, x.X, op, "1")
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			return
		}
		if x.Tok == token.ASSIGN {
			if !fi.shared(x.Lhs[0]) {
				return
			}
			tv, ok := fi.info.Types[x.Rhs[0]]
			if !ok || tv.Value != nil || tv.IsNil() || !tv.IsValue() {
				return
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				return
			}
			if call, ok := x.Rhs[0].(*ast.CallExpr); ok {
				if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "recover" {
					return
				}
			}
			fi.needRt = true
			fi.ins(fi.off(x.Rhs[0].Pos()), rtName+".V(", 20)
			fi.ins(fi.off(x.Rhs[0].End()), ")", -20)
			return
		}
		if x.Tok == token.DEFINE {
			return
		}
		op := strings.TrimSuffix(x.Tok.String(), "=")
		if fi.hasRedirect(x.Rhs[0]) {
			return
		}
		fi.rmw(x, x.Lhs[0], op, "("+fi.text(x.Rhs[0])+")")
	}
}

func (fi *fileInstr) rmw(s ast.Stmt, lv ast.Expr, op, rhs string) {
	if !fi.shared(lv) || fi.hasRedirect(lv) {
		return
	}
	fi.needRt = true
	lv = unparen(lv)
	if ix, ok := lv.(*ast.IndexExpr); ok && fi.isMap(ix.X) {
		kt := fi.typeOf(ix.Index)
		key := fi.text(ix.Index)
		pre := fmt.Sprintf("__m := %s; __k := %s; ", fi.text(ix.X), key)
		if b, ok := kt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		if tv := fi.info.Types[ix.Index]; tv.Value != nil {
			return
		}
		fi.rep(fi.off(s.Pos()), fi.off(s.End()), "{ "+pre+"__t := __m[__k]; "+rtName+".Y(); __m[__k] = __t "+op+" "+rhs+" }")
		return
	}
	if ix, ok := lv.(*ast.IndexExpr); ok {
		if t := fi.typeOf(ix.X); t == nil {
			return
		}
	}
	fi.rep(fi.off(s.Pos()), fi.off(s.End()), "{ __p := &("+fi.text(lv)+"); __t := *__p; "+rtName+".Y(); *__p = __t "+op+" "+rhs+" }")
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (fi *fileInstr) goStmt(g *ast.GoStmt) {
	fi.needRt = true
	call := g.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		fi.rep(fi.off(g.Pos()), fi.off(fl.Pos()), rtName+".Go(")
		fi.rep(fi.off(fl.End()), fi.off(call.End()), ")")
		return
	}
	var b strings.Builder
	b.WriteString("{ __f := " + fi.text(call.Fun) + "; ")
	args := []string{}
	for i, a := range call.Args {
		inline := false
		if fi.info != nil {
			tv := fi.info.Types[a]
			inline = tv.Value != nil || tv.IsNil()
		}
		if inline {
			args = append(args, fi.text(a))
			continue
		}
		n := fmt.Sprintf("__a%d", i)
		b.WriteString(n + " := " + fi.text(a) + "; ")
		args = append(args, n)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	b.WriteString(rtName + ".Go(func() { __f(" + strings.Join(args, ", ") + ell + ") }) }")
	fi.dropInside(fi.off(g.Pos()), fi.off(g.End()))
	fi.rep(fi.off(g.Pos()), fi.off(g.End()), b.String())
}

func (fi *fileInstr) dropInside(a, b int) {
	out := fi.edits[:0]
	for _, e := range fi.edits {
		if e.start >= a && e.end <= b && !(e.start == a && e.end == a) {
			continue
		}
		out = append(out, e)
	}
	fi.edits = out
}

func (fi *fileInstr) selectStmt(s *ast.SelectStmt, label *ast.LabeledStmt) {
	fi.needRt = true
	if len(s.Body.List) == 0 {
		fi.rep(fi.off(s.Pos()), fi.off(s.End()), rtName+".BlockForever(); panic(\"unreachable\")")
		return
	}
	var defs strings.Builder
	names := []string{}
	hasDef := false
	type cl struct {
		c      *ast.CommClause
		header string
	}
	var cls []cl
	for i, cc := range s.Body.List {
		c := cc.(*ast.CommClause)
		n := fmt.Sprintf("__c%d", i)
		switch cm := c.Comm.(type) {
		case nil:
			hasDef = true
			cls = append(cls, cl{c, "case -1:"})
			continue
		case *ast.SendStmt:
			fmt.Fprintf(&defs, "%s := %s.NewSend(%s, %s); ", n, rtName, fi.text(cm.Chan), fi.text(cm.Value))
			cls = append(cls, cl{c, fmt.Sprintf("case %d:", len(names))})
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			fmt.Fprintf(&defs, "%s := %s.NewRecv(%s); ", n, rtName, fi.text(u.X))
			cls = append(cls, cl{c, fmt.Sprintf("case %d:", len(names))})
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&defs, "%s := %s.NewRecv(%s); ", n, rtName, fi.text(u.X))
			var l []string
			for _, e := range cm.Lhs {
				l = append(l, fi.text(e))
			}
			r := n + ".V"
			if len(l) == 2 {
				r += ", " + n + ".Ok"
			}
			cls = append(cls, cl{c, fmt.Sprintf("case %d: %s %s %s;", len(names), strings.Join(l, ", "), cm.Tok, r)})
		}
		names = append(names, n)
	}
	args := ""
	for _, n := range names {
		args += ", " + n
	}
	open := "{ " + defs.String()
	if label != nil {
		fi.ins(fi.off(label.Pos()), open, 12)
		open = ""
	}
	fi.rep(fi.off(s.Pos()), fi.off(s.Body.Lbrace)+1, fmt.Sprintf("%sswitch %s.Select(%v%s) {", open, rtName, hasDef, args))
	for _, c := range cls {
		fi.rep(fi.off(c.c.Pos()), fi.off(c.c.Colon)+1, c.header)
	}
	fi.rep(fi.off(s.Body.Rbrace), fi.off(s.End()), " default: panic(\"unreachable\") } }")
}

func (fi *fileInstr) rangeStmt(r *ast.RangeStmt) {
	if fi.info == nil {
		return
	}
	if fi.isChan(r.X) {
		fi.needRt = true
		v := "_"
		tok := ":="
		if r.Key != nil {
			v = fi.text(r.Key)
			tok = r.Tok.String()
		}
		hdr := fmt.Sprintf("for { %s, __ok := %s.Recv2(%s); if !__ok { break }; ", v, rtName, fi.text(r.X))
		if tok == "=" {
			hdr = fmt.Sprintf("for { __v, __ok := %s.Recv2(%s); if !__ok { break }; %s = __v; ", rtName, fi.text(r.X), v)
		}
		fi.rep(fi.off(r.Pos()), fi.off(r.Body.Lbrace)+1, hdr)
		return
	}
	t := fi.typeOf(r.X)
	if t == nil {
		return
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok || fi.hasRedirect(r.X) {
		return
	}
	kb, ok := m.Key().Underlying().(*types.Basic)
	if !ok || kb.Info()&(types.IsOrdered) == 0 || (r.Tok != token.DEFINE && r.Tok != token.ILLEGAL) {
		return
	}
	// seeded iteration order instead of the runtime's
	fi.needRt = true
	k, v := "__k", ""
	if r.Key != nil && fi.text(r.Key) != "_" {
		k = fi.text(r.Key)
	}
	if r.Value != nil && fi.text(r.Value) != "_" {
		v = fi.text(r.Value)
	}
	mv := fmt.Sprintf("__m%d", fi.off(r.Pos()))
	get := fmt.Sprintf("if _, __ok := %s[%s]; !__ok { continue }; ", mv, k)
	if v != "" {
		get = fmt.Sprintf("%s, __ok := %s[%s]; if !__ok { continue }; ", v, mv, k)
	}
	fi.rep(fi.off(r.Pos()), fi.off(r.Body.Lbrace)+1, fmt.Sprintf("for %s, %s := range %s.MapKeys(%s) { %s := %s.MapOf(%s); %s", "_", k, rtName, fi.text(r.X), mv, rtName, fi.text(r.X), get))
}

func (fi *fileInstr) run(isLib bool, toMain string) ([]byte, error) {
	f := fi.f
	fi.usedSw = map[string]bool{}
	lhsRecv2 := map[*ast.UnaryExpr]bool{}
	inSelect := map[ast.Node]bool{}
	labeled := map[ast.Stmt]*ast.LabeledStmt{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			labeled[x.Stmt] = x
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					lhsRecv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					lhsRecv2[u] = true
				}
			}
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				if cm := c.(*ast.CommClause).Comm; cm != nil {
					ast.Inspect(cm, func(m ast.Node) bool {
						if m != nil {
							inSelect[m] = true
						}
						return true
					})
				}
			}
		}
		return true
	})
	// post statements and init statements are not block statements
	blockStmts := map[ast.Stmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			fi.block(x.List)
			for _, s := range x.List {
				blockStmts[s] = true
			}
		case *ast.CaseClause:
			fi.block(x.Body)
			for _, s := range x.Body {
				blockStmts[s] = true
			}
		case *ast.CommClause:
			fi.block(x.Body)
			for _, s := range x.Body {
				blockStmts[s] = true
			}
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				fi.ins(fi.off(x.Body.Lbrace)+1, " "+fi.y(), 0)
			}
		}
		return true
	})
	var goStmts []*ast.GoStmt
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		if inSelect[n] {
			return false
		}
		switch x := n.(type) {
		case ast.Stmt:
			if blockStmts[x] {
				fi.stmt(x)
			}
			switch s := x.(type) {
			case *ast.GoStmt:
				goStmts = append(goStmts, s)
			case *ast.SelectStmt:
				fi.selectStmt(s, labeled[s])
			case *ast.SendStmt:
				fi.needRt = true
				fi.ins(fi.off(s.Chan.Pos()), rtName+".Send(", 20)
				fi.rep(fi.off(s.Arrow), fi.off(s.Arrow)+2, ",")
				fi.ins(fi.off(s.Value.End()), ")", -20)
			case *ast.RangeStmt:
				fi.rangeStmt(s)
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				fi.needRt = true
				fn := "Recv"
				if lhsRecv2[x] {
					fn = "Recv2"
				}
				fi.rep(fi.off(x.OpPos), fi.off(x.OpPos)+2, rtName+"."+fn+"(")
				fi.ins(fi.off(x.End()), ")", -20)
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 && fi.isChan(x.Args[0]) {
				fi.needRt = true
				fi.rep(fi.off(id.Pos()), fi.off(id.End()), rtName+".Close")
			}
		case *ast.SelectorExpr:
			if fi.info != nil && (x.Sel.Name == "ListenAndServe" || x.Sel.Name == "Serve") {
				if sel := fi.info.Selections[x]; sel != nil {
					recv := sel.Recv().String()
					if recv == "*net/http.Server" || recv == "net/http.Server" {
						amp := ""
						if recv[0] != '*' {
							amp = "&"
						}
						fi.usedSw["net/http"] = true
						fi.ins(fi.off(x.X.Pos()), "vSimHttp__.Server("+amp, 20)
						fi.ins(fi.off(x.X.End()), ")", -20)
					}
				}
			}
			if fi.info != nil && (strings.HasPrefix(x.Sel.Name, "Fatal") || x.Sel.Name == "SetOutput") {
				if sel := fi.info.Selections[x]; sel != nil && sel.Recv().String() == "*log.Logger" {
					fi.usedSw["log"] = true
					fi.ins(fi.off(x.X.Pos()), "vSimLog__.Logger(", 20)
					fi.ins(fi.off(x.X.End()), ")", -20)
				}
			}
			if id, ok := x.X.(*ast.Ident); ok {
				p := fi.pkgOf(id)
				if sw, ok := swapNames[p]; ok && sw.names[x.Sel.Name] {
					fi.usedSw[p] = true
					fi.rep(fi.off(id.Pos()), fi.off(id.End()), sw.alias)
				}
			}
		}
		return true
	})
	for _, g := range goStmts {
		fi.goStmt(g)
	}
	if toMain != "" {
		fi.rep(fi.off(f.Name.Pos()), fi.off(f.Name.End()), toMain)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				fi.rep(fi.off(fd.Name.Pos()), fi.off(fd.Name.End()), "SimMain")
			}
		}
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if np, ok := swapImports[p]; ok {
			name := filepath.Base(p)
			if im.Name != nil {
				name = im.Name.Name
			}
			a := fi.off(im.Pos())
			fi.rep(a, fi.off(im.End()), name+" "+strconv.Quote(np))
		}
	}
	var hdr string
	if fi.needRt {
		hdr += "; import " + rtName + " " + strconv.Quote(rtPath)
	}
	var tail string
	aliases := map[string]bool{}
	var keys []string
	for p := range fi.usedSw {
		keys = append(keys, p)
	}
	sort.Strings(keys)
	for _, p := range keys {
		sw := swapNames[p]
		if !aliases[sw.alias] {
			aliases[sw.alias] = true
			hdr += "; import " + sw.alias + " " + strconv.Quote(sw.path)
		}
		keep := sw.keep
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if ip == p && im.Name != nil {
				keep = im.Name.Name + keep[strings.Index(keep, "."):]
			}
		}
		tail += "\nvar _ = " + keep + "\n"
	}
	if hdr != "" {
		fi.ins(fi.off(f.Name.End()), hdr, 30)
	}
	return fi.apply(tail)
}

func (fi *fileInstr) apply(tail string) ([]byte, error) {
	es := fi.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].start != es[j].start {
			return es[i].start < es[j].start
		}
		iIns, jIns := es[i].end == es[i].start, es[j].end == es[j].start
		if iIns != jIns {
			return iIns // insertions before replacements
		}
		if es[i].prio != es[j].prio {
			return es[i].prio < es[j].prio
		}
		return es[i].seq < es[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.start < pos {
			if e.end <= pos {
				continue // inside a replaced region
			}
			return nil, fmt.Errorf("overlapping edits at %d", e.start)
		}
		out.Write(fi.src[pos:e.start])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(fi.src[pos:])
	out.WriteString(tail)
	return out.Bytes(), nil
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Dir  string
		Main bool
	}
	ImportMap map[string]string
}

func main() {
	src := flag.String("src", "", "module to copy")
	dst := flag.String("dst", "", "destination")
	plain := flag.String("plain", "", "comma-separated relative files to leave as they are")
	report := flag.String("report", "", "write a JSON report here")
	typed := flag.Bool("typed", true, "use type information")
	pkgsArg := flag.String("pkgs", "./...", "packages to type-check")
	jsmain := flag.String("jsmain", "", "relative directories whose js/wasm files are built natively against the stub host")
	flag.Parse()
	plainSet := map[string]bool{}
	for _, p := range strings.Split(*plain, ",") {
		if p != "" {
			plainSet[p] = true
		}
	}
	js := map[string]bool{}
	for _, d := range strings.Split(*jsmain, ",") {
		if d != "" {
			js[d] = true
		}
	}
	infos := map[string]*types.Info{}
	asts := map[string]*ast.File{}
	fset := token.NewFileSet()
	warn := []string{}
	if *typed {
		if err := load(*src, strings.Fields(*pkgsArg), fset, infos, asts, &warn); err != nil {
			warn = append(warn, "type information unavailable: "+err.Error())
		}
	}
	var done, skipped []string
	err := filepath.WalkDir(*src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, p)
		if d.IsDir() {
			if d.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(*dst, rel), 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out := filepath.Join(*dst, rel)
		if !strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go") {
			if strings.HasSuffix(rel, "_test.go") {
				return nil
			}
			return os.WriteFile(out, data, 0o644)
		}
		f := asts[p]
		info := infos[p]
		fs1 := fset
		if f == nil {
			fs1 = token.NewFileSet()
			f, err = parser.ParseFile(fs1, p, data, parser.ParseComments)
			if err != nil {
				skipped = append(skipped, rel)
				return os.WriteFile(out, data, 0o644)
			}
		}
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				return os.WriteFile(out, data, 0o644)
			}
		}
		toMain := ""
		if f.Name.Name == "main" {
			toMain = "simmain"
		}
		if js[filepath.Dir(rel)] {
			// build the js/wasm program natively: drop the constraint
			lines := strings.Split(string(data), "\n")
			for i, l := range lines {
				if strings.HasPrefix(l, "//go:build") {
					lines[i] = "//" + strings.Repeat(" ", len(l)-2)
				}
			}
			data = []byte(strings.Join(lines, "\n"))
		}
		fi := &fileInstr{src: data, fset: fs1, f: f, info: info}
		var res []byte
		if plainSet[rel] {
			// scheduling points off, seams on
			fi.info = nil
			skipped = append(skipped, rel)
			if toMain != "" {
				res, err = fi.run(true, toMain)
			} else {
				res = data
			}
		} else {
			res, err = fi.run(true, toMain)
			if err == nil {
				if _, perr := parser.ParseFile(token.NewFileSet(), p, res, 0); perr != nil {
					warn = append(warn, rel+": "+perr.Error())
					if os.Getenv("INSTR_DEBUG") != "" {
						os.WriteFile(out+".bad", res, 0o644)
					}
					err = perr
				}
			}
			if err != nil {
				skipped = append(skipped, rel)
				res, err = data, nil
			} else {
				done = append(done, rel)
			}
		}
		if err != nil {
			return err
		}
		return os.WriteFile(out, res, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	if *report != "" {
		b, _ := json.Marshal(map[string]any{"instrumented": done, "plain": skipped, "warnings": warn})
		os.WriteFile(*report, b, 0o644)
	}
	for _, w := range warn {
		fmt.Fprintln(os.Stderr, "instr: note:", w)
	}
}

func load(src string, pkgs []string, fset *token.FileSet, infos map[string]*types.Info, asts map[string]*ast.File, warn *[]string) error {
	cmd := exec.Command("go", append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,Module,ImportMap"}, pkgs...)...)
	cmd.Dir = src
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	outb, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(outb))
	exports := map[string]string{}
	var mine []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Main {
			q := p
			mine = append(mine, &q)
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	for _, p := range mine {
		var files []*ast.File
		var names []string
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, f)
			names = append(names, fn)
		}
		if len(files) == 0 {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(err error) { *warn = append(*warn, "types: "+err.Error()) }}
		conf.Check(p.ImportPath, fset, files, info)
		for i, fn := range names {
			asts[fn] = files[i]
			infos[fn] = info
		}
	}
	return nil
}
