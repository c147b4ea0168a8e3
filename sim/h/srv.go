//go:build wsrv

package h

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"vsim/simflag"
	"vsim/simhttp"
	"vsim/simos"
	"vsim/simrt"

	server "github.com/flowchartsman/aql/wasm/aqlparse/server"
)

func init() {
	Scenarios["C16"] = &Scenario{Gen: genServer, Exec: execServer, Race: func(c *Ctx, rep string) bool {
		return strings.Contains(rep, "wasm/aqlparse/server")
	}}
}

var served = []string{"index.html", "wasm_exec.js", "hwt.css", "style.css", "aqlparse.wasm"}

// files beside the served ones that must stay private
var decoys = []string{"secret.txt", "main.go", "sub/x.js", "sub/style.css", "style.css.bak", ".htpasswd", "../outside.txt", "../style.css"}

const secret = "TOPSECRET"

var oddPaths = []string{
	"/secret.txt", "/main.go", "/sub/x.js", "/sub/style.css", "/sub/", "/sub", "/style.css.bak", "/.htpasswd", "/../outside.txt", "/..%2foutside.txt", "/%2e%2e/outside.txt",
	"/%2e%2e%2foutside.txt", "/..%5coutside.txt", "/sub/../secret.txt", "/./secret.txt", "//secret.txt", "/WASM_EXEC.JS", "/Style.css", "/style.css/", "/style.css/x", "/style.css%00", "/style.css%00.txt",
	"/index.html", "/index.html/", "/INDEX.HTML", "/favicon.ico", "/etc/passwd", "//etc/passwd", "/%2fetc%2fpasswd", "/..%2f..%2f..%2f..%2f..%2f..%2fetc/passwd", "/wasm_exec.js?x=1", "/style.css?../secret.txt", "/?q=1", "/%73tyle.css",
	"/style.css.", "/style", "/.", "/..", "/%", "/*", "/aqlparse.wasm/../secret.txt", "/aqlparse.wasm/..%2fsecret.txt", "/sub/../style.css", "/%2e/style.css", "/..", "/~", "/C:/secret.txt", "/file:///etc/passwd", "/%252e%252e%252foutside.txt",
}

// Operations of clients: req(file, method, range, condition, client fault, x),
// odd(path, method); of the environment: replace(file, size, time) remove(file)
// restore(file) clock(seconds) pause(steps).
func genServer(r *Rng, p *Plan) {
	p.Kind = "server"
	nc := r.PickI(1, 1, 2, 3, 5)
	sizes := func() int { return r.PickI(0, 1, 60, 100, 511, 512, 513, 4096, 40000, 100000) }
	for range served {
		p.P["size"+strconv.Itoa(len(p.P))] = sizes()
	}
	for t := 0; t < nc; t++ {
		var ops []Op
		for i, n := 0, r.PickI(2, 5, 10, 25); i < n; i++ {
			if r.P(20) {
				ops = append(ops, Op{K: "odd", N: []int{r.PickI(0, 0, 0, 1, 2, 3)}, S: []Bytes{Bytes(oddPaths[r.N(len(oddPaths))])}})
				continue
			}
			op := Op{K: "req", N: []int{r.N(len(served)), 0, 0, 0, 0, r.N(100000)}}
			if r.P(30) {
				op.N[0] = 0
			}
			if r.P(12) {
				op.N[1] = r.PickI(1, 1, 2)
			}
			if r.P(15) {
				op.N[2] = r.Between(1, 5)
			}
			if r.P(45) {
				op.N[3] = r.PickI(1, 1, 1, 1, 2, 3, 4)
				if op.N[2] > 0 {
					op.N[3] = r.PickI(1, 2, 3, 4, 5, 5, 5)
				}
			}
			if r.P(8) {
				op.N[4] = 1
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(75) {
		var ops []Op
		for i, n := 0, r.PickI(1, 3, 6, 12); i < n; i++ {
			f := r.N(len(served))
			if r.P(35) {
				f = 0
			}
			switch r.N(8) {
			case 0:
				ops = append(ops, Op{K: "remove", N: []int{f}})
				for j, m := 0, r.N(3); j < m; j++ {
					ops = append(ops, Op{K: "pause", N: []int{r.Between(1, 40)}})
				}
				ops = append(ops, Op{K: "restore", N: []int{f}})
			case 1:
				ops = append(ops, Op{K: "clock", N: []int{r.PickI(1, 2, 60, 86400, -1, -2, -60, -86400)}})
			case 2, 3:
				ops = append(ops, Op{K: "pause", N: []int{r.Between(1, 200)}})
			default:
				op := Op{K: "replace", N: []int{f, sizes(), 0}}
				if r.P(30) {
					op.N[1] = -1 // the size stays
				}
				if r.P(30) {
					op.N[2] = r.Between(1, 3) // an odd modification time
				}
				ops = append(ops, op)
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for i, n := 0, r.PickI(0, 0, 0, 1, 2, 4); i < n; i++ {
		f := &simos.Fault{Base: served[r.N(len(served))], Op: r.Pick("open", "open", "read", "read", "read", "stat"), Nth: r.N(4), Cnt: r.PickI(1, 1, 2, 5, 0)}
		switch f.Op {
		case "open":
			f.Kind = r.Pick("EMFILE", "EACCES", "ENOENT", "EIO")
		case "read":
			f.Kind = r.Pick("EIO", "EIO", "ESTALE", "chop")
			f.At = int64(r.N(r.PickI(1, 100, 600, 50000)))
		default:
			f.Kind = r.Pick("EIO", "EACCES", "ENOENT")
		}
		p.Faults = append(p.Faults, f)
	}
	p.Sched = genSched(r, len(p.Tasks))
}

// content of a version of a served file
func content(f, ver, size int) []byte {
	var b bytes.Buffer
	head := fmt.Sprintf("/* ASSET-%s-v%d */", served[f], ver)
	switch f {
	case 0:
		head = "<!doctype html><!-- " + head + " -->"
	case 4:
		head = "\x00asm\x01\x00\x00\x00" + head
	}
	b.WriteString(head)
	for i := 0; b.Len() < size; i++ {
		fmt.Fprintf(&b, "line %d of %s version %d\n", i, served[f], ver)
	}
	if size < len(head) {
		// tiny files: the version shows in the bytes there are
		return []byte(strings.Repeat(string(rune('a'+ver%26)), size))
	}
	return b.Bytes()[:size]
}

type fileVersion struct {
	from, to uint64 // stamps between which it was current (to 0: still)
	data     []byte
	absent   bool
	mtime    time.Time
}

type srvRun struct {
	dir string
	// replaced as a whole, so that tasks that read it depend on those that
	// changed a file and not the other way round
	all [5]atomic.Pointer[[]fileVersion]
	w   *simos.World
	seq uint64
}

func (s *srvRun) files(f int) []fileVersion {
	if v := s.all[f].Load(); v != nil {
		return *v
	}
	return nil
}

// next ends the version that was current and adds v.
func (s *srvRun) next(f int, v fileVersion) {
	vs := append([]fileVersion(nil), s.files(f)...)
	if n := len(vs); n > 0 {
		vs[n-1].to = s.stamp()
	}
	vs = append(vs, v)
	s.all[f].Store(&vs)
}

//go:norace
func (s *srvRun) stamp() uint64 { s.seq++; return s.seq }

func (s *srvRun) put(f int, data []byte) { s.putAt(f, data, 0) }

// putAt replaces a file. The modification time is 0 a later one, 1 the same
// as before, 2 a little later in the same second, 3 an earlier one.
func (s *srvRun) putAt(f int, data []byte, when int) {
	v := fileVersion{data: data, mtime: time.Unix(1_500_000_000+int64(len(s.files(f)))*2, 0)}
	if n := len(s.files(f)); n > 0 && !s.files(f)[n-1].absent {
		last := s.files(f)[n-1].mtime
		switch when {
		case 1:
			v.mtime = last
		case 2:
			v.mtime = last.Add(3 * time.Millisecond).Truncate(time.Millisecond)
			if v.mtime.Unix() != last.Unix() {
				v.mtime = last
			}
		case 3:
			v.mtime = last.Add(-1001 * time.Second)
		}
	}
	tmp := filepath.Join(s.dir, "..", "tmp")
	name := filepath.Join(s.dir, served[f])
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.WriteFile(tmp, data, 0o644))
	must(os.Chtimes(tmp, v.mtime, v.mtime))
	v.from = s.stamp()
	must(os.Rename(tmp, name))
	s.next(f, v)
}

func (s *srvRun) remove(f int) {
	v := fileVersion{absent: true, from: s.stamp()}
	os.Remove(filepath.Join(s.dir, served[f]))
	s.next(f, v)
}

// during returns the versions that were current at some time of the interval.
func (s *srvRun) during(f int, a, b uint64) (vs []fileVersion, absent bool) {
	for _, v := range s.files(f) {
		if v.from <= b && (v.to == 0 || v.to >= a) {
			if v.absent {
				absent = true
			} else {
				vs = append(vs, v)
			}
		}
	}
	return
}

//go:norace
func (s *srvRun) fired(f int) (n int) {
	for _, x := range s.w.Faults() {
		if x.Base == served[f] && x.Kind != "chop" {
			n += x.Fired()
		}
	}
	return
}

// recorder is a response as the client sees it.
type recorder struct {
	h       http.Header
	code    int
	sent    http.Header
	body    []byte
	failAt  int // client goes away after this many bytes (<0: never)
	aborted string
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(code int) {
	if r.code == 0 && code >= 200 {
		r.code = code
		r.sent = r.h.Clone()
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	simrt.YS()
	r.WriteHeader(200)
	if r.failAt >= 0 && len(r.body)+len(b) > r.failAt {
		n := r.failAt - len(r.body)
		r.body = append(r.body, b[:n]...)
		return n, io.ErrClosedPipe
	}
	r.body = append(r.body, b...)
	return len(b), nil
}
func (r *recorder) Flush() { r.WriteHeader(200) }

func serve(h http.Handler, method, target string, hdr map[string]string, failAt int) (*recorder, *http.Request) {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: localhost:8080\r\n", method, target)
	for k, v := range hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", k, v)
	}
	b.WriteString("\r\n")
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(b.String())))
	if err != nil {
		return nil, nil // the real server answers 400 without asking the handler
	}
	req.RemoteAddr = "127.0.0.1:4711"
	rec := &recorder{h: http.Header{}, failAt: failAt}
	func() {
		defer func() {
			if x := recover(); x != nil {
				rec.aborted = fmt.Sprint(x)
				if rec.aborted == "" {
					rec.aborted = "panic"
				}
			}
		}()
		h.ServeHTTP(rec, req)
		rec.WriteHeader(200)
	}()
	return rec, req
}

type cached struct {
	lm, etag string
	body     []byte
}

func execServer(c *Ctx, p *Plan) {
	root := c.Scratch
	s := &srvRun{dir: filepath.Join(root, "www")}
	os.RemoveAll(root)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.MkdirAll(filepath.Join(s.dir, "sub"), 0o755))
	defer os.RemoveAll(root)
	for i, d := range decoys {
		must(os.WriteFile(filepath.Join(s.dir, d), []byte(fmt.Sprintf("%s %d %s", secret, i, d)), 0o644))
	}
	for f := range served {
		s.put(f, content(f, 0, p.P["size"+strconv.Itoa(f)]))
	}
	w := &simos.World{Root: root, Args: []string{"server", s.dir}}
	for _, f := range p.Faults {
		g := *f
		w.AddFault(&g)
	}
	s.w = w
	log.SetOutput(io.Discard)
	simhttp.Reset()
	simflag.Reset()
	simos.Set(w)
	defer simos.Set(nil)

	method := func(i int) string { return []string{"GET", "HEAD", "POST", "CONNECT"}[i%4] }
	msgs := make([]string, len(p.Tasks))
	counts := make([]map[string]int, len(p.Tasks))
	var h http.Handler
	boot := func() bool {
		simrt.GoDaemon(server.SimMain)
		for i := 0; ; i++ {
			if x, ok := simhttp.Handler(); ok {
				h = x
				return true
			}
			if ex, _ := w.Exit(); ex || i > 20000 {
				return false
			}
			simrt.Block()
		}
	}
	c.Aside([]func(){func() {
		if !boot() {
			c.Fail("start", "the server did not start")
		}
	}})
	if c.Failed() {
		return
	}
	var fns []func()
	for ti := range p.Tasks {
		ti := ti
		counts[ti] = map[string]int{}
		fns = append(fns, func() {
			cache := map[int]cached{}
			for i := range p.Tasks[ti] {
				op := &p.Tasks[ti][i]
				simrt.YS()
				counts[ti][op.K]++
				msg := ""
				switch op.K {
				case "req":
					msg = s.request(h, op, cache, method, counts[ti])
				case "odd":
					msg = s.odd(h, method(op.I(0)), string(op.B(0)), counts[ti])
				case "replace":
					f, size := op.I(0)%5, op.I(1)
					if size < 0 {
						size = len(s.files(f)[len(s.files(f))-1].data)
					}
					s.putAt(f, content(f, len(s.files(f)), size), op.I(2))
				case "remove":
					s.remove(op.I(0) % 5)
				case "restore":
					f := op.I(0) % 5
					s.put(f, content(f, len(s.files(f)), 300))
				case "clock":
					simrt.SetClock(simrt.Clock() + int64(op.I(0))*1e9)
				case "pause":
					for k := 0; k < op.I(0); k++ {
						simrt.YS()
					}
				}
				if msg != "" && msgs[ti] == "" {
					msgs[ti] = fmt.Sprintf("task %d operation %d: %s", ti, i, msg)
				}
			}
		})
	}
	c.Run(fns)
	for ti, m := range msgs {
		for k, n := range counts[ti] {
			switch {
			case strings.HasPrefix(k, "fault:"):
				c.FaultFired(strings.TrimPrefix(k, "fault:"), n)
			case k == "replace" || k == "remove" || k == "clock":
				c.FaultFired("env:"+k, n)
			default:
				c.Count("ops_"+k, n)
			}
		}
		if m != "" {
			c.Fail("response", "%s", m)
			return
		}
	}
	for i, f := range w.Faults() {
		c.FaultFired("file:"+p.Faults[i].Op+":"+p.Faults[i].Kind, f.Fired())
	}
	// everything is readable again: so must the responses be
	w.ClearFaults()
	for f := range served {
		if v := s.files(f)[len(s.files(f))-1]; v.absent {
			s.put(f, content(f, len(s.files(f)), 200))
		}
	}
	msg := ""
	c.Aside([]func(){func() {
		for f := range served {
			op := &Op{K: "req", N: []int{f}}
			if m := s.request(h, op, map[int]cached{}, method, map[string]int{}); m != "" && msg == "" {
				msg = "after all faults: " + m
			}
		}
	}})
	if msg != "" {
		c.Fail("response", "%s", msg)
		return
	}
	if n, _, _ := w.Open(); n != 0 {
		c.Fail("leak", "%d files are open after all requests ended", n)
		return
	}
	if e := w.Escaped(); e != "" {
		c.Fail("wrote", "the server tried to write %s", e)
		return
	}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, root+"/") {
			c.Fail("leak", "%s is open after all requests ended", l)
			return
		}
	}
}

func (s *srvRun) request(h http.Handler, op *Op, cache map[int]cached, method func(int) string, counts map[string]int) string {
	f := op.I(0) % len(served)
	target := "/" + served[f]
	if f == 0 {
		target = "/"
	}
	m := method(op.I(1))
	hdr := map[string]string{}
	x := op.I(5)
	size := 0
	if n := len(s.files(f)); n > 0 {
		size = len(s.files(f)[n-1].data)
	}
	switch op.I(2) {
	case 1:
		hdr["Range"] = "bytes=0-0"
	case 2:
		a := x % (size + 1)
		hdr["Range"] = fmt.Sprintf("bytes=%d-%d", a, a+x/7%5000)
	case 3:
		hdr["Range"] = fmt.Sprintf("bytes=-%d", 1+x%(size+2))
	case 4:
		hdr["Range"] = fmt.Sprintf("bytes=%d-", x%(size+3))
	case 5:
		hdr["Range"] = []string{"bytes=", "bytes=x-y", "bytes=5-1", "lines=0-1", fmt.Sprintf("bytes=%d-", size+10)}[x%5]
	}
	var ims time.Time
	reval := false
	have := cache[f]
	switch op.I(3) {
	case 1: // ask whether the cached copy is still good
		if have.lm != "" {
			hdr["If-Modified-Since"] = have.lm
			reval = true
		}
		if have.etag != "" {
			hdr["If-None-Match"] = have.etag
			reval = true
		}
	case 2:
		ims = time.Unix(1_500_000_000+int64(x%12)*2, 0)
		hdr["If-Modified-Since"] = ims.UTC().Format(http.TimeFormat)
	case 3:
		ims = time.Unix(1_500_000_000-int64(x), 0)
		hdr["If-Modified-Since"] = ims.UTC().Format(http.TimeFormat)
	case 4:
		hdr["If-Modified-Since"] = []string{"yesterday", "", "0"}[x%3]
	case 5: // the rest of the cached copy, if it is still good
		if v := have.lm + have.etag; v != "" && hdr["Range"] != "" {
			if have.etag != "" {
				v = have.etag
			}
			hdr["If-Range"] = v
		}
	}
	// excusable: the client's copy and the file cannot be told apart by what
	// the protocol compares
	undated := func(v fileVersion) bool {
		if have.etag != "" || have.lm == "" {
			return false
		}
		lm, err := http.ParseTime(have.lm)
		return err == nil && v.mtime.Unix() <= lm.Unix()
	}
	failAt := -1
	if op.I(4) == 1 {
		failAt = x % (size + 1)
	}
	fired := s.fired(f)
	a := s.stamp()
	rec, req := serve(h, m, target, hdr, failAt)
	b := s.stamp()
	if req == nil {
		return ""
	}
	faults := s.fired(f) - fired
	vs, absent := s.during(f, a, b)
	desc := fmt.Sprintf("%s %s %v: status %d, aborted %q, %d bytes %s", m, target, hdr, rec.code, rec.aborted, len(rec.body), clip(rec.body))
	for _, v := range vs {
		desc += fmt.Sprintf("; version %s mtime %v", clip(v.data[:min(len(v.data), 60)]), v.mtime.Unix())
	}
	if bytes.Contains(rec.body, []byte(secret)) {
		return desc + ": content of another file"
	}
	if failAt >= 0 && rec.code == 200 {
		counts["fault:client:gone"]++
		for _, v := range vs {
			if bytes.HasPrefix(v.data, rec.body) {
				return ""
			}
		}
		if faults > 0 || absent || m != "GET" || len(hdr) > 0 {
			return ""
		}
		return desc + ": what was sent is not the content of the file"
	}
	if failAt >= 0 {
		return ""
	}
	trouble := faults > 0 || absent
	if trouble {
		counts["troubled"]++
	}
	if rec.aborted != "" {
		if trouble {
			return ""
		}
		return desc + ": the handler panicked"
	}
	switch {
	case rec.code == 304:
		if reval {
			for _, v := range vs {
				if bytes.Equal(v.data, have.body) || undated(v) {
					counts["not_modified"]++
					return ""
				}
			}
			return desc + ": reported as not modified since the client's copy " + clip(have.body[:min(60, len(have.body))])
		}
		if ims.IsZero() {
			return desc + ": not modified, but the client did not ask"
		}
		for _, v := range vs {
			if v.mtime.Unix() <= ims.Unix() {
				return ""
			}
		}
		return desc + ": reported as not modified since " + fmt.Sprint(ims.Unix())
	case rec.code == 200:
		cl := rec.sent.Get("Content-Length")
		for _, v := range vs {
			if m == "HEAD" {
				if cl == "" || cl == strconv.Itoa(len(v.data)) {
					return ""
				}
				continue
			}
			if bytes.Equal(v.data, rec.body) && (cl == "" || cl == strconv.Itoa(len(v.data))) {
				counts["whole"]++
				cache[f] = cached{rec.sent.Get("Last-Modified"), rec.sent.Get("Etag"), v.data}
				return ""
			}
			// a failed read shows as a response shorter than announced
			if faults > 0 && bytes.HasPrefix(v.data, rec.body) && cl == strconv.Itoa(len(v.data)) {
				return ""
			}
		}
		return desc + fmt.Sprintf(" (Content-Length %s): not the current content", cl)
	case rec.code == 206:
		cr := rec.sent.Get("Content-Range")
		var lo, hi, total int
		if _, err := fmt.Sscanf(cr, "bytes %d-%d/%d", &lo, &hi, &total); err != nil || hdr["Range"] == "" {
			return desc + ": bad Content-Range " + cr
		}
		for _, v := range vs {
			if total == 0 && len(v.data) == 0 && len(rec.body) == 0 {
				return "" // the library's answer to a range of an empty file
			}
			if hdr["If-Range"] != "" && m == "GET" && !bytes.Equal(v.data, have.body) && !undated(v) {
				continue // not a part of the client's copy
			}
			if total == len(v.data) && lo <= hi && hi < total {
				part := v.data[lo : hi+1]
				if m == "HEAD" || bytes.Equal(part, rec.body) || (faults > 0 && bytes.HasPrefix(part, rec.body)) {
					counts["partial"]++
					return ""
				}
			}
		}
		return desc + ": not that part of the current content " + cr
	case rec.code == 416 && hdr["Range"] != "":
		return ""
	case rec.code >= 400 && (trouble || m == "POST" || m == "CONNECT"):
		return ""
	case rec.code >= 300 && rec.code < 400:
		return desc + ": redirected"
	}
	return desc + ": no content although the file is there"
}

func (s *srvRun) odd(h http.Handler, m, target string, counts map[string]int) string {
	a := s.stamp()
	rec, req := serve(h, m, target, nil, -1)
	b := s.stamp()
	if req == nil {
		counts["refused"]++
		return ""
	}
	desc := fmt.Sprintf("%s %s: status %d, aborted %q, %d bytes %s", m, target, rec.code, rec.aborted, len(rec.body), clip(rec.body))
	if bytes.Contains(rec.body, []byte(secret)) || bytes.Contains(rec.body, []byte("root:")) {
		return desc + ": content of another file"
	}
	cp := path.Clean("/" + req.URL.Path)
	f := -1
	for i, n := range served {
		if cp == "/"+n {
			f = i
		}
	}
	if cp == "/" {
		f = 0
	}
	if rec.aborted != "" {
		if f >= 0 {
			return "" // judged by the plain requests
		}
		return desc + ": the handler panicked"
	}
	if rec.code >= 300 {
		counts["turned_away"]++
		return ""
	}
	if f < 0 {
		return desc + ": answered"
	}
	if m != "GET" {
		return ""
	}
	vs, _ := s.during(f, a, b)
	for _, v := range vs {
		if bytes.HasPrefix(v.data, rec.body) {
			return ""
		}
	}
	return desc + ": not the current content"
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
