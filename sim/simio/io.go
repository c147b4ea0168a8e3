// Package simio has the pipe of io, with locks the scheduler sees.
package simio

import (
	"io"

	"vsim/simsync"
)

type pipe struct {
	mu   simsync.Mutex
	cond *simsync.Cond
	buf  []byte
	full bool
	wr   simsync.Mutex // one Write at a time
	rerr error
	werr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = simsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if p.full {
			n := copy(b, p.buf)
			if p.buf = p.buf[n:]; len(p.buf) == 0 {
				p.full = false
				p.cond.Broadcast()
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.buf, p.full = b, true
	p.cond.Broadcast()
	for p.full && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	if !p.full {
		return len(b), nil
	}
	n := len(b) - len(p.buf)
	p.buf, p.full = nil, false
	if p.rerr != nil {
		return n, p.rerr
	}
	return n, io.ErrClosedPipe
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	defer r.p.mu.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.cond.Broadcast()
	return nil
}
