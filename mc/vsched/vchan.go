package vsched

import "unsafe"

// Channels of the code under test. Outside of an exploration they are the real ones. During one a buffered channel is used
// only when that cannot block; values for an unbuffered channel are handed over here.

type xfer struct {
	v     any
	taken bool
}

//go:norace
func (x *xfer) CanRun() bool { return x.taken }

type chanState struct {
	ch      unsafe.Pointer // keeps the channel, so that its address stays its own
	closed  bool
	senders []*xfer
}

var (
	chans   []*chanState
	chansOf int
)

// chanOf returns what is known about a channel. It is called during explorations only, where one thread runs at a time.
//
//go:norace
func chanOf(ch unsafe.Pointer) *chanState {
	if e := Epoch(); e != chansOf {
		chans, chansOf = nil, e
	}
	for _, s := range chans {
		if s.ch == ch {
			return s
		}
	}
	s := &chanState{ch: ch}
	chans = append(chans, s)
	return s
}

//go:norace
func (s *chanState) isClosed() bool { return s.closed }

//go:norace
func (s *chanState) close() { s.closed = true }

//go:norace
func (s *chanState) waiting() int { return len(s.senders) }

//go:norace
func (x *xfer) value() any { return x.v }

type chanWait struct{ ready func() bool }

func (w chanWait) CanRun() bool { return w.ready() }

type never struct{}

func (never) CanRun() bool { return false }

// Send returns what sends a value to ch.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() || Aborted() {
			if !Aborted() {
				ch <- v
			}
			return
		}
		S()
		if ch == nil {
			Wait(never{})
		}
		st := chanOf(ch2(ch))
		if cap(ch) > 0 {
			Wait(chanWait{func() bool { return st.isClosed() || len(ch) < cap(ch) }})
			if !Aborted() {
				ch <- v
			}
			return
		}
		if st.isClosed() {
			panic("send on closed channel")
		}
		x := handOver(st, v)
		Wait(x)
		Acquire(unsafe.Pointer(x))
	}
}

//go:norace
func handOver(st *chanState, v any) *xfer {
	x := &xfer{v: v}
	ReleaseMerge(unsafe.Pointer(st))
	st.senders = append(st.senders, x)
	return x
}

//go:norace
func takeOver(st *chanState) *xfer {
	x := st.senders[0]
	st.senders = st.senders[1:]
	Acquire(unsafe.Pointer(st))
	ReleaseMerge(unsafe.Pointer(x))
	x.taken = true
	return x
}

// ch2 identifies a channel, whichever direction it is seen in.
func ch2[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if Aborted() {
		return
	}
	if !Active() {
		v, ok = <-ch
		return
	}
	S()
	if ch == nil {
		Wait(never{})
	}
	st := chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	if cap(ch) > 0 {
		Wait(chanWait{func() bool { return st.isClosed() || len(ch) > 0 }})
		if !Aborted() {
			v, ok = <-ch
		}
		return
	}
	Wait(chanWait{func() bool { return st.isClosed() || st.waiting() > 0 }})
	if Aborted() {
		return
	}
	if st.waiting() == 0 {
		v, ok = <-ch // closed
		return
	}
	if x := takeOver(st).value(); x != nil {
		v = x.(T)
	}
	return v, true
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if Aborted() {
		return
	}
	if Active() {
		S()
		chanOf(ch2(ch)).close()
	}
	close(ch)
}
