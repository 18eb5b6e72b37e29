//go:build go1.21

package simrt

import (
	"sync"
	"time"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// holder remembers who locked what: a lock held by a task of an earlier run or
// of a crashed instance is no longer held (package-level locks outlive both
// inside the simulator's process, but not in reality).
type holder struct {
	r *Run
	t *Task
}

func (h holder) gone() bool {
	if h.r == nil {
		return false
	}
	return h.r != R || h.t != nil && h.t.killed
}

func me() holder {
	if R == nil {
		return holder{}
	}
	return holder{R, R.cur}
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	h      holder
}

func (m *Mutex) held() bool { return m.locked && !m.h.gone() }

func (m *Mutex) Lock() {
	r := R
	if r == nil {
		if m.held() {
			panic("simrt: lock contention outside a run")
		}
		m.locked, m.h = true, me()
		return
	}
	r.yield()
	for m.held() {
		r.block("mutex", func() bool { return !m.held() })
	}
	m.locked, m.h = true, me()
}

func (m *Mutex) TryLock() bool {
	if R != nil {
		R.yield()
	}
	if m.held() {
		return false
	}
	m.locked, m.h = true, me()
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	if R != nil {
		R.yield()
	}
}

// RWMutex replaces sync.RWMutex: a waiting writer holds back new readers.
type RWMutex struct {
	w       bool
	h       holder
	readers []holder
	waiting []holder
}

func purge(l []holder) []holder {
	n := l[:0:0]
	for _, h := range l {
		if !h.gone() {
			n = append(n, h)
		}
	}
	return n
}

func (m *RWMutex) wheld() bool { return m.w && !m.h.gone() }

func (m *RWMutex) busy() bool {
	m.readers = purge(m.readers)
	return m.wheld() || len(m.readers) > 0
}

func (m *RWMutex) rbusy() bool {
	m.waiting = purge(m.waiting)
	return m.wheld() || len(m.waiting) > 0
}

func (m *RWMutex) Lock() {
	r := R
	if r == nil {
		m.w, m.h = true, me()
		return
	}
	r.yield()
	self := me()
	m.waiting = append(m.waiting, self)
	for m.busy() {
		r.block("rwmutex", func() bool { return !m.busy() })
	}
	for i, h := range m.waiting {
		if h == self {
			m.waiting = append(m.waiting[:i:i], m.waiting[i+1:]...)
			break
		}
	}
	m.w, m.h = true, self
}

func (m *RWMutex) TryLock() bool {
	if m.busy() {
		return false
	}
	m.w, m.h = true, me()
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	if R != nil {
		R.yield()
	}
}

func (m *RWMutex) RLock() {
	r := R
	if r == nil {
		m.readers = append(m.readers, me())
		return
	}
	r.yield()
	for m.rbusy() {
		r.block("rwmutex", func() bool { return !m.rbusy() })
	}
	m.readers = append(m.readers, me())
}

func (m *RWMutex) TryRLock() bool {
	if m.rbusy() {
		return false
	}
	m.readers = append(m.readers, me())
	return true
}

func (m *RWMutex) RUnlock() {
	if len(m.readers) == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	self := me()
	k := 0
	for i, h := range m.readers {
		if h == self {
			k = i
			break
		}
	}
	m.readers = append(m.readers[:k:k], m.readers[k+1:]...)
	if R != nil {
		R.yield()
	}
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if R != nil {
		R.yield()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	r := R
	if r == nil {
		return
	}
	r.yield()
	if w.n > 0 {
		r.block("waitgroup", func() bool { return w.n == 0 })
	}
}

// Go is as in newer versions of package sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	flag := new(bool)
	c.wait = append(c.wait, flag)
	c.L.Unlock()
	R.block("cond", func() bool { return *flag })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	if R != nil {
		R.yield()
	}
}

func (c *Cond) Broadcast() {
	for _, f := range c.wait {
		*f = true
	}
	c.wait = nil
	if R != nil {
		R.yield()
	}
}

// Pool replaces sync.Pool; it always reuses.
type Pool struct {
	New  func() interface{}
	free []interface{}
	r    *Run
}

func (p *Pool) Get() interface{} {
	if R != nil {
		R.yield()
	}
	if p.r != R {
		p.r, p.free = R, nil
	}
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if p.r != R {
		p.r, p.free = R, nil
	}
	if x != nil {
		p.free = append(p.free, x)
	}
	if R != nil {
		R.yield()
	}
}

// Map replaces sync.Map, with a fixed iteration order.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) y() {
	if R != nil {
		R.yield()
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { m.y(); v, ok := m.m[k]; return v, ok }

func (m *Map) Store(k, v interface{}) {
	m.y()
	m.put(k, v)
}

func (m *Map) put(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.y()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.y()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]interface{}{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Delete(k interface{}) { m.y(); m.del(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.y()
	x, ok := m.m[k]
	m.put(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.y()
	if x, ok := m.m[k]; ok && x == old {
		m.m[k] = v
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.y()
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.y()
	for _, k := range append([]interface{}{}, m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// ---- time ----

func Now() time.Time {
	if R == nil {
		return time.Now()
	}
	return Base.Add(time.Duration(R.now))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	r := R
	if r == nil {
		time.Sleep(d)
		return
	}
	r.yield()
	if d <= 0 {
		return
	}
	due := false
	r.addTimer(r.now+int64(d), func() { due = true })
	r.block("sleep", func() bool { return due })
}

func Gosched() {
	if R != nil {
		R.yield()
	}
}

// Timer replaces time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	e  *timerEnt
	rt *time.Timer
}

func (t *Timer) fire() {
	r := R
	if t.f != nil {
		r.newTask("timer func", t.f)
		return
	}
	select {
	case t.c <- Now():
	default:
	}
}

func NewTimer(d time.Duration) *Timer {
	r := R
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	if r == nil {
		t.rt = time.NewTimer(d)
		t.C = t.rt.C
		return t
	}
	r.yield()
	t.e = r.addTimer(r.now+int64(d), t.fire)
	return t
}

func (t *Timer) Stop() bool {
	if t.rt != nil {
		return t.rt.Stop()
	}
	if R == nil {
		return false
	}
	R.yield()
	return R.delTimer(t.e)
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.rt != nil {
		return t.rt.Reset(d)
	}
	R.yield()
	was := R.delTimer(t.e)
	t.e = R.addTimer(R.now+int64(d), t.fire)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	r := R
	if r == nil {
		return &Timer{rt: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	tag, op := 0, 0
	if r.cur != nil {
		tag, op = r.cur.Tag, r.cur.Op
	}
	t.e = r.addTimer(r.now+int64(d), func() {
		k := R.newTask("timer func", f)
		k.Tag, k.Op = tag, op
	})
	return t
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	e *timerEnt
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	r := R
	t.e = r.addTimer(r.now+int64(t.d), func() {
		select {
		case t.c <- Now():
		default:
		}
		t.arm()
	})
}

func (t *Ticker) Stop() { R.delTimer(t.e) }

func (t *Ticker) Reset(d time.Duration) {
	R.delTimer(t.e)
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
