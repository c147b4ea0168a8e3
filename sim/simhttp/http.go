// Package simhttp replaces the listening part of net/http: the harness hands
// requests to the handler instead of a socket.
package simhttp

import (
	"net"
	"net/http"
	"sync"

	"vsim/simrt"
)

var (
	handler http.Handler
	addr    string
	ready   bool
	mu      sync.Mutex
)

func set(a string, h http.Handler, r bool) {
	mu.Lock()
	addr, handler, ready = a, h, r
	mu.Unlock()
}

// Reset forgets the handler of an earlier run.
func Reset() {
	set("", nil, false)
	http.DefaultServeMux = http.NewServeMux()
}

// Handler returns the handler of the server once it listens.
func Handler() (http.Handler, bool) {
	mu.Lock()
	defer mu.Unlock()
	return handler, ready
}

func ListenAndServe(a string, h http.Handler) error {
	if h == nil {
		h = http.DefaultServeMux
	}
	set(a, h, true)
	simrt.Park()
	return nil
}

func Serve(l net.Listener, h http.Handler) error { return ListenAndServe(l.Addr().String(), h) }

// SimServer stands for an http.Server.
type SimServer struct{ s *http.Server }

func Server(s *http.Server) SimServer { return SimServer{s} }

func (s SimServer) ListenAndServe() error      { return ListenAndServe(s.s.Addr, s.s.Handler) }
func (s SimServer) Serve(l net.Listener) error { return Serve(l, s.s.Handler) }
