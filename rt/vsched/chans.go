package vsched

import "reflect"

// Recv is `<-ch`.
func Recv[T any](ch <-chan T) T {
	P("recv")
	v := <-ch
	Post("recvd")
	return v
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](ch <-chan T) (T, bool) {
	P("recv")
	v, ok := <-ch
	Post("recvd")
	return v, ok
}

// Send is `ch <- v`, as Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		P("send")
		ch <- v
		Post("sent")
	}
}

// Close is `close(ch)`.
func Close[T any](ch chan<- T) {
	P("close")
	close(ch)
}

// Case is a case of a select statement.
type Case interface {
	try() bool
	rcase() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// RCase is a receive case.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// RecvCase returns a receive case.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) try() bool {
	select {
	case c.V, c.OK = <-c.ch:
		return true
	default:
		return false
	}
}

func (c *RCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RCase[T]) got(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	}
}

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase returns a send case, as SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch, v} }
}

func (c *SCase[T]) try() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

func (c *SCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *SCase[T]) got(reflect.Value, bool) {}

// Select runs a select statement and returns the index of the case taken, or
// -1 for the default case. Which of several ready cases is taken is a decision.
func Select(def bool, cases ...Case) int {
	P("select")
	n := len(cases)
	if n == 0 {
		if def {
			return -1
		}
		select {}
	}
	first := 0
	if ex := Cur(); n > 1 && Active() {
		first = ex.Choose(n, false, "select")
	}
	for k := 0; k < n; k++ {
		i := (first + k) % n
		if cases[i].try() {
			return i
		}
	}
	if def {
		return -1
	}
	rc := make([]reflect.SelectCase, n)
	for i, c := range cases {
		rc[i] = c.rcase()
	}
	i, v, ok := reflect.Select(rc)
	Post("selected")
	cases[i].got(v, ok)
	return i
}

// Block is `select {}`.
func Block() {
	P("block")
	select {}
}
