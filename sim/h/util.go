package h

import (
	"bufio"
	"errors"
	"io"
	"sync"

	"vsim/simrt"
)

// simFlag passes a value between tasks and orders them for the race detector.
type simFlag struct {
	mu sync.Mutex
	v  bool
}

func (f *simFlag) set() { f.mu.Lock(); f.v = true; f.mu.Unlock() }

func (f *simFlag) get() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.v }

// faultReader delivers data in the given pieces and then fails or ends.
type faultReader struct {
	data   []byte
	pos    int
	failAt int // bytes delivered before the failure; <0: never
	err    error
	with   bool // deliver the error together with data
	eofW   bool // deliver EOF together with the last data
	cuts   []int
	ci     int
	idle   int
	zeros  int
	reads  int
	fired  int
}

var errReader = errors.New("injected read failure 7f3a")

func (f *faultReader) Read(p []byte) (int, error) {
	simrt.YS()
	f.reads++
	e := f.err
	if e == nil {
		e = errReader
	}
	limit := len(f.data)
	if f.failAt >= 0 && f.failAt < limit {
		limit = f.failAt
	}
	atEnd := func() error {
		if f.failAt >= 0 && f.failAt <= len(f.data) {
			f.fired++
			return e
		}
		return io.EOF
	}
	if f.pos >= limit {
		return 0, atEnd()
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := limit - f.pos
	if len(f.cuts) > 0 {
		k := f.cuts[f.ci%len(f.cuts)]
		if k < 0 { // that many empty reads
			if f.idle < -k && f.ci < 64 {
				f.idle++
				return 0, nil
			}
			f.idle, k = 0, 1
		}
		f.ci++
		if k == 0 {
			f.zeros++
			if f.zeros%50 != 0 {
				return 0, nil
			}
			k = 1
		}
		if k < n {
			n = k
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == limit {
		isFail := f.failAt >= 0 && f.failAt <= len(f.data)
		if isFail && f.with {
			f.fired++
			return n, e
		}
		if !isFail && f.eofW {
			return n, io.EOF
		}
	}
	return n, nil
}

// Readers can do more than Read, which callees may use. Each face adds some of
// what the readers of the standard library can do.
const readerFaces = 9

func face(rd io.Reader, f *faultReader, k int) io.Reader {
	b := faceBase{rd, f}
	switch k {
	case 1:
		return struct {
			faceBase
			faceLen
		}{b, faceLen{f}}
	case 2:
		return struct {
			faceBase
			faceBytes
		}{b, faceBytes{rd, new(error)}}
	case 3:
		return struct {
			faceBase
			faceTo
		}{b, faceTo{rd}}
	case 4:
		return struct {
			faceBase
			faceSeek
		}{b, faceSeek{f}}
	case 5:
		// only Read: WriteTo of a bufio.Reader forgets an error that came with data
		return struct{ io.Reader }{bufio.NewReaderSize(rd, 16)}
	case 6:
		return io.MultiReader(io.LimitReader(rd, 3), rd)
	case 7:
		return struct {
			faceBase
			faceLen
			faceBytes
			faceTo
			faceSeek
		}{b, faceLen{f}, faceBytes{rd, new(error)}, faceTo{rd}, faceSeek{f}}
	case 8:
		return io.LimitReader(rd, 1<<40)
	}
	return rd
}

type faceBase struct {
	io.Reader
	f *faultReader
}

func (b faceBase) Close() error { return nil }

type faceLen struct{ f *faultReader }

func (b faceLen) Len() int    { return len(b.f.data) - b.f.pos }
func (b faceLen) Size() int64 { return int64(len(b.f.data)) }

type faceBytes struct {
	r    io.Reader
	late *error // came together with a byte
}

func (b faceBytes) ReadByte() (byte, error) {
	var p [1]byte
	for {
		if err := *b.late; err != nil {
			*b.late = nil
			return 0, err
		}
		n, err := b.r.Read(p[:])
		if n == 1 {
			*b.late = err
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

type faceTo struct{ r io.Reader }

func (b faceTo) WriteTo(w io.Writer) (int64, error) {
	var total int64
	p := make([]byte, 100)
	for {
		n, err := b.r.Read(p)
		if n > 0 {
			m, werr := w.Write(p[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

type faceSeek struct{ f *faultReader }

func (b faceSeek) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(b.f.pos)
	case io.SeekEnd:
		off += int64(len(b.f.data))
	}
	if off < 0 {
		return 0, errors.New("seek before the start")
	}
	b.f.pos = int(off)
	return off, nil
}
