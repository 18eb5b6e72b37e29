//go:build go1.21

package simrt

import (
	"fmt"
	"sort"
	"unsafe"
)

type chanState struct {
	keep   interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	stash  []interface{} // values taken from senders outside the simulation
}

type selState struct {
	task  *Task
	fired int
}

type waiter struct {
	sel *selState
	idx int
	c   interface{} // *RecvC[T] or *SendC[T]
}

func idOf[T any](c *T) uintptr { return uintptr(unsafe.Pointer(*(*unsafe.Pointer)(unsafe.Pointer(c)))) }

func (r *Run) state(id uintptr, keep interface{}) *chanState {
	s := r.chans[id]
	if s == nil {
		s = &chanState{keep: keep}
		r.chans[id] = s
	}
	return s
}

func live(q *[]*waiter, not *selState) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.sel.fired >= 0 || w.sel.task.killed || w.sel.task.done {
			*q = (*q)[1:]
			continue
		}
		break
	}
	for _, w := range *q {
		if w.sel.fired < 0 && !w.sel.task.killed && w.sel != not {
			return w
		}
	}
	return nil
}

func drop(q *[]*waiter, sel *selState) {
	var n []*waiter
	for _, w := range *q {
		if w.sel != sel {
			n = append(n, w)
		}
	}
	*q = n
}

// Case is one case of a select.
type Case interface {
	ready(r *Run, sel *selState) bool
	exec(r *Run, sel *selState)
	enq(r *Run, sel *selState, idx int)
	deq(r *Run, sel *selState)
	real() (isSend bool)
}

// RecvC is a receive case; Val and Ok hold the result.
type RecvC[T any] struct {
	c   <-chan T
	Val T
	Ok  bool
}

// SendC is a send case.
type SendC[T any] struct {
	c    chan<- T
	v    T
	hook func()
}

// SendCaseHook is a send case that calls f at the moment the value is taken.
func SendCaseHook[T any](c chan<- T, v T, f func()) *SendC[T] {
	return &SendC[T]{c: c, v: v, hook: f}
}

func (x *SendC[T]) taken() {
	if x.hook != nil {
		x.hook()
	}
}

func RecvCase[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }

func SendCase[T any](c chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
}

func (x *RecvC[T]) st(r *Run) *chanState { return r.state(idOf(&x.c), x.c) }
func (x *SendC[T]) st(r *Run) *chanState { return r.state(idOf(&x.c), x.c) }

func (x *RecvC[T]) ready(r *Run, sel *selState) bool {
	if x.c == nil {
		return false
	}
	s := x.st(r)
	if len(s.stash) > 0 || len(x.c) > 0 || s.closed {
		return true
	}
	if cap(x.c) == 0 && live(&s.sendq, sel) != nil {
		return true
	}
	// A channel closed, or sent on, by code outside the simulation.
	select {
	case v, ok := <-x.c:
		if ok {
			s.stash = append(s.stash, v)
		} else {
			s.closed = true
		}
		return true
	default:
	}
	return false
}

func (x *RecvC[T]) exec(r *Run, sel *selState) {
	s := x.st(r)
	if len(s.stash) > 0 {
		x.Val, x.Ok = s.stash[0].(T), true
		s.stash = s.stash[1:]
		return
	}
	if len(x.c) > 0 {
		x.Val, x.Ok = <-x.c
		return
	}
	if cap(x.c) == 0 {
		if w := live(&s.sendq, sel); w != nil {
			sc := w.c.(*SendC[T])
			x.Val, x.Ok = sc.v, true
			w.sel.fired = w.idx
			sc.taken()
			return
		}
	}
	var zero T
	x.Val, x.Ok = zero, false
}

func (x *RecvC[T]) enq(r *Run, sel *selState, idx int) {
	if x.c == nil || cap(x.c) > 0 {
		return
	}
	s := x.st(r)
	s.recvq = append(s.recvq, &waiter{sel, idx, x})
}

func (x *RecvC[T]) deq(r *Run, sel *selState) {
	if x.c != nil && cap(x.c) == 0 {
		drop(&x.st(r).recvq, sel)
	}
}

func (x *RecvC[T]) real() bool { return false }

func (x *SendC[T]) ready(r *Run, sel *selState) bool {
	if x.c == nil {
		return false
	}
	s := x.st(r)
	if s.closed {
		return true
	}
	if cap(x.c) > 0 {
		return len(x.c) < cap(x.c)
	}
	return live(&s.recvq, sel) != nil
}

func (x *SendC[T]) exec(r *Run, sel *selState) {
	s := x.st(r)
	if s.closed {
		panic("send on closed channel")
	}
	if cap(x.c) > 0 {
		x.c <- x.v
		x.taken()
		return
	}
	w := live(&s.recvq, sel)
	rc := w.c.(*RecvC[T])
	rc.Val, rc.Ok = x.v, true
	w.sel.fired = w.idx
	x.taken()
}

func (x *SendC[T]) enq(r *Run, sel *selState, idx int) {
	if x.c == nil || cap(x.c) > 0 {
		return
	}
	s := x.st(r)
	s.sendq = append(s.sendq, &waiter{sel, idx, x})
}

func (x *SendC[T]) deq(r *Run, sel *selState) {
	if x.c != nil && cap(x.c) == 0 {
		drop(&x.st(r).sendq, sel)
	}
}

func (x *SendC[T]) real() bool { return true }

// Select executes a select statement and returns the index of the case chosen,
// or -1 for the default case.
func Select(hasDefault bool, cases ...Case) int {
	r := R
	if r == nil {
		panic("simrt: select outside a run")
	}
	r.yield()
	t := r.cur
	sel := &selState{task: t, fired: -1}
	for {
		var rd []int
		for i, c := range cases {
			if c.ready(r, sel) {
				rd = append(rd, i)
			}
		}
		if len(rd) > 0 {
			k := r.choose(len(rd), func() int { return r.rng.Intn(len(rd)) })
			cases[rd[k]].exec(r, sel)
			return rd[k]
		}
		if hasDefault {
			return -1
		}
		for i, c := range cases {
			c.enq(r, sel, i)
		}
		what := "select"
		if len(cases) == 1 {
			what = "channel"
		}
		r.block(what, func() bool {
			if sel.fired >= 0 {
				return true
			}
			for _, c := range cases {
				if c.ready(r, sel) {
					return true
				}
			}
			return false
		})
		for _, c := range cases {
			c.deq(r, sel)
		}
		if sel.fired >= 0 {
			return sel.fired
		}
	}
}

// Send is c <- v, written Send(c)(v).
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		if R == nil {
			c <- v
			return
		}
		Select(false, &SendC[T]{c: c, v: v})
	}
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is the two-valued <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if R == nil {
		v, ok := <-c
		return v, ok
	}
	x := &RecvC[T]{c: c}
	Select(false, x)
	return x.Val, x.Ok
}

// RangeInit starts a range over a channel.
func RangeInit[T any](c <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(c)
	return c, v, ok
}

// Close is close(c).
func Close[T any](c chan<- T) {
	r := R
	if r == nil {
		close(c)
		return
	}
	r.yield()
	closeNow(r, c)
}

func closeNow[T any](r *Run, c chan<- T) {
	if c != nil {
		r.state(idOf(&c), c).closed = true
	}
	close(c)
}

// It iterates over a map in a seeded order.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration; the zero values only carry the types.
func MapIter[K comparable, V any](m map[K]V) (*It[K, V], K, V) {
	it := &It[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	names := make(map[K]string, len(it.keys))
	for _, k := range it.keys {
		names[k] = keyName(k)
	}
	sort.SliceStable(it.keys, func(i, j int) bool { return names[it.keys[i]] < names[it.keys[j]] })
	if r := R; r != nil && r.strat.MapPerm {
		for i := len(it.keys) - 1; i > 0; i-- {
			j := r.choose(i+1, func() int { return r.rng.Intn(i + 1) })
			it.keys[i], it.keys[i-j] = it.keys[i-j], it.keys[i]
		}
	}
	var k K
	var v V
	return it, k, v
}

func keyName(k interface{}) string {
	switch x := k.(type) {
	case int, int8, int16, int32, int64:
		return fmt.Sprintf("%021d", x)
	case uint, uint8, uint16, uint32, uint64:
		return fmt.Sprintf("%021d", x)
	}
	return fmt.Sprintf("%T%v", k, k)
}

// Next advances; entries deleted during the iteration are skipped.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
