package simrt

import (
	"reflect"
	"sync"
)

// Channel operations. Buffered channels are used directly with a retry loop;
// an unbuffered send is offered in a side table until a receiver takes it.

type offer struct {
	ch    any
	v     any
	taken bool
	grp   *selGroup
	g     *gor
	mu    *sync.Mutex
}

// selGroup makes sure that only one send of a select is taken
type selGroup struct{ taken bool }

var (
	offers  [256]*offer
	nOffers int
)

//go:norace
func addOffer(o *offer) {
	o.g = cur()
	if nOffers < len(offers) {
		offers[nOffers] = o
		nOffers++
		return
	}
	doAbort("no-progress", "too many pending channel sends")
}

//go:norace
func takeOffer(ch any) *offer {
	for i := 0; i < nOffers; i++ {
		if offers[i].ch == ch && !(offers[i].grp != nil && offers[i].grp.taken) {
			o := offers[i]
			if o.grp != nil {
				o.grp.taken = true
			}
			for ; i < nOffers-1; i++ {
				offers[i] = offers[i+1]
			}
			nOffers--
			o.taken = true
			return o
		}
	}
	return nil
}

//go:norace
func dropOffer(o *offer) {
	for i := 0; i < nOffers; i++ {
		if offers[i] == o {
			for ; i < nOffers-1; i++ {
				offers[i] = offers[i+1]
			}
			nOffers--
			return
		}
	}
}

// want is a receiver that waits on an unbuffered channel.
type want struct {
	ch   any
	v    any
	full bool
	grp  *selGroup
	g    *gor
	mu   *sync.Mutex
}

// The mutexes that order the two sides of a channel exist from the start: a
// fresh one would itself be reported as unordered.
var (
	chMus [4096]sync.Mutex
	chN   uint
)

//go:norace
func chMu() *sync.Mutex {
	chN++
	return &chMus[chN%uint(len(chMus))]
}

//go:norace
func (o *offer) lock() *sync.Mutex { return o.mu }

//go:norace
func (w *want) lock() *sync.Mutex { return w.mu }

//go:norace
func newOffer(ch any, grp *selGroup) *offer { return &offer{ch: ch, grp: grp, mu: chMu()} }

//go:norace
func makeWant(ch any, grp *selGroup) *want { return &want{ch: ch, grp: grp, mu: chMu()} }

//go:norace
func (o *offer) value() any { return o.v }

//go:norace
func (o *offer) setValue(v any) { o.v = v }

//go:norace
func (w *want) value() any { return w.v }

//go:norace
func (w *want) setValue(v any) { w.v = v }

var (
	wants  [256]*want
	nWants int
)

func newWant(ch any, g *selGroup) *want {
	w := makeWant(ch, g)
	w.lock().Lock()
	w.lock().Unlock()
	addWant(w)
	return w
}

//go:norace
func addWant(w *want) {
	w.g = cur()
	if nWants < len(wants) {
		wants[nWants] = w
		nWants++
	}
}

//go:norace
func dropWant(w *want) {
	for i := 0; i < nWants; i++ {
		if wants[i] == w {
			for ; i < nWants-1; i++ {
				wants[i] = wants[i+1]
			}
			nWants--
			return
		}
	}
}

//go:norace
func takeWant(ch any) *want {
	for i := 0; i < nWants; i++ {
		if w := wants[i]; w.ch == ch && !(w.grp != nil && w.grp.taken) {
			if w.grp != nil {
				w.grp.taken = true
			}
			dropWant(w)
			return w
		}
	}
	return nil
}

//go:norace
func closeWants(ch any) {
	for i := nWants - 1; i >= 0; i-- {
		if wants[i].ch == ch {
			dropWant(wants[i])
		}
	}
}

//go:norace
func cur() *gor {
	if active {
		return tasks[turn].g
	}
	return outTurn
}

// purge forgets what goroutines wait for that will not go on.
//
//go:norace
func purge() {
	for i := nWants - 1; i >= 0; i-- {
		if g := wants[i].g; g != nil && g.dead {
			dropWant(wants[i])
		}
	}
	for i := nOffers - 1; i >= 0; i-- {
		if g := offers[i].g; g != nil && g.dead {
			dropOffer(offers[i])
		}
	}
}

//go:norace
func filled(w *want) bool { return w.full }

//go:norace
func setFull(w *want) { w.full = true }

// fill hands v to a receiver that waits on ch.
func fill(ch, v any) bool {
	w := takeWant(ch)
	if w == nil {
		return false
	}
	w.lock().Lock()
	w.setValue(v)
	w.lock().Unlock()
	setFull(w)
	return true
}

//go:norace
func offerTaken(o *offer) bool { return o.taken }

func bidi[T any](ch any) chan T {
	v := reflect.ValueOf(ch)
	return reflect.NewAt(reflect.TypeOf((chan T)(nil)), ptrTo(v)).Elem().Interface().(chan T)
}

func ptrTo(v reflect.Value) (p unsafePointer) {
	x := v.Pointer()
	return toUnsafe(&x)
}

func Send[T any](dst chan<- T, v T) {
	YS()
	if dst == nil {
		BlockForever()
	}
	if cap(dst) > 0 {
		for {
			select {
			case dst <- v:
				Went()
				YS()
				return
			default:
			}
			Block()
		}
	}
	ch := bidi[T](dst)
	if fill(ch, v) {
		Went()
		YS()
		return
	}
	o := newOffer(ch, nil)
	o.lock().Lock()
	o.setValue(v)
	o.lock().Unlock()
	addOffer(o)
	for !offerTaken(o) {
		select {
		case dst <- v: // somebody the scheduler does not know waits for it
			dropOffer(o)
			Went()
			return
		default:
		}
		if closedNow(ch) {
			dropOffer(o)
			panic("send on closed channel")
		}
		Block()
	}
	o.lock().Lock()
	o.lock().Unlock()
	Went()
}

func closedNow[T any](ch chan T) bool {
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

func tryRecv[T any](src <-chan T) (v T, ok, ready bool) {
	if src == nil {
		return
	}
	if cap(src) == 0 {
		if o := takeOffer(any(bidi[T](src))); o != nil {
			o.lock().Lock()
			v, _ = o.value().(T) // a nil interface has no type
			o.lock().Unlock()
			return v, true, true
		}
	}
	select {
	case v, ok = <-src:
		return v, ok, true
	default:
		return
	}
}

func Recv2[T any](src <-chan T) (T, bool) {
	YS()
	var w *want
	for {
		if w != nil && filled(w) {
			w.lock().Lock()
			v, _ := w.value().(T)
			w.lock().Unlock()
			Went()
			YS()
			return v, true
		}
		if v, ok, ready := tryRecv(src); ready {
			if w != nil {
				dropWant(w)
			}
			Went()
			YS()
			return v, ok
		}
		if w == nil && src != nil && cap(src) == 0 {
			w = newWant(bidi[T](src), nil)
		}
		Block()
	}
}

func Recv[T any](src <-chan T) T {
	v, _ := Recv2(src)
	return v
}

func Close[T any](ch chan<- T) {
	YS()
	if cap(ch) == 0 {
		closeWants(bidi[T](ch))
	}
	close(ch)
}

type SelCase interface {
	try() bool
	done()
	pre(*selGroup)
}

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	Ok bool
	w  *want
}

func NewRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func (c *RecvCase[T]) pre(g *selGroup) {
	if c.ch != nil && cap(c.ch) == 0 {
		c.w = newWant(bidi[T](c.ch), g)
	}
}
func (c *RecvCase[T]) done() {
	if c.w != nil {
		dropWant(c.w)
	}
}
func (c *RecvCase[T]) offered() bool {
	if c.w == nil || !filled(c.w) {
		return false
	}
	c.w.lock().Lock()
	c.V, _ = c.w.value().(T)
	c.Ok = true
	c.w.lock().Unlock()
	return true
}
func (c *RecvCase[T]) try() bool {
	v, ok, ready := tryRecv(c.ch)
	if ready {
		c.V, c.Ok = v, ok
	}
	return ready
}

type SendCase[T any] struct {
	ch  chan<- T
	v   T
	off *offer
}

func NewSend[T any](ch chan<- T, v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
func (c *SendCase[T]) pre(g *selGroup) {
	if c.ch != nil && cap(c.ch) == 0 {
		c.off = newOffer(bidi[T](c.ch), g)
		c.off.lock().Lock()
		c.off.setValue(c.v)
		c.off.lock().Unlock()
		addOffer(c.off)
	}
}
func (c *SendCase[T]) done() {
	if c.off != nil && !offerTaken(c.off) {
		dropOffer(c.off)
	}
}
func (c *SendCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	if c.off != nil {
		if offerTaken(c.off) {
			return true
		}
		select {
		case c.ch <- c.v:
			return true
		default:
			return false
		}
	}
	if cap(c.ch) == 0 && fill(bidi[T](c.ch), c.v) {
		return true
	}
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

// Select returns the index of the case that proceeded, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	YS()
	if len(cases) > 0 {
		off := int(Env() % uint64(len(cases)))
		for i := range cases {
			j := (i + off) % len(cases)
			if cases[j].try() {
				Went()
				return j
			}
		}
	}
	if hasDefault {
		return -1
	}
	g := &selGroup{}
	for _, c := range cases {
		c.pre(g)
	}
	for {
		for i, c := range cases {
			if s, ok := c.(interface{ offered() bool }); ok && s.offered() {
				finishSelect(cases, i)
				return i
			}
		}
		for i, c := range cases {
			if c.try() {
				finishSelect(cases, i)
				return i
			}
		}
		Block()
	}
}

func (c *SendCase[T]) offered() bool { return c.off != nil && offerTaken(c.off) }

func finishSelect(cases []SelCase, i int) {
	Went()
	for _, c := range cases {
		c.done()
	}
}
