package shim

import (
	"sync"
	"sync/atomic"
)

var mu sync.Mutex // guards the state of all shim primitives; held for a few instructions only

type Locker = sync.Locker

// order makes an operation on p come after the earlier ones and before the later ones.
func order(p any, point string) {
	if w := cur.Load(); w != nil && w.Ctl != nil {
		if point != "" {
			Point(point, nil)
		}
		w.Ctl.atomic(p, true)
	}
}

// Pool hands out what was put last, so that whoever goes on using it is noticed.
type Pool struct {
	New   func() any
	epoch uint64
	items []any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	order(p, "pool")
	w := cur.Load()
	mu.Lock()
	defer mu.Unlock()
	p.fresh(w)
	p.items = append(p.items, x)
}

func (p *Pool) fresh(w *World) {
	var e uint64
	if w != nil {
		e = w.epoch
	}
	if p.epoch != e {
		p.epoch, p.items = e, nil
	}
}

func (p *Pool) Get() any {
	order(p, "pool")
	w := cur.Load()
	mu.Lock()
	p.fresh(w)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		mu.Unlock()
		return x
	}
	mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Map is sync.Map; every operation is a scheduling point and comes after all earlier ones.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { order(m, "sync map"); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { order(m, "sync map"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { order(m, "sync map"); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { order(m, "sync map"); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { order(m, "sync map"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { order(m, "sync map"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	order(m, "sync map")
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool {
	order(m, "sync map")
	return m.m.CompareAndDelete(k, old)
}
func (m *Map) Clear() { order(m, "sync map"); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	order(m, "sync map")
	m.m.Range(func(k, v any) bool { order(m, "sync map"); return f(k, v) })
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// rw is the state behind Mutex and RWMutex. A lock left held by a world that is gone counts as free.
type rw struct {
	epoch   uint64
	writer  bool
	readers int
	wwait   int
	waiters []chan struct{}
	rel     VC // happens-before: joined clocks of past write releases
	rrel    VC // joined clocks of past read releases
}

func (l *rw) fresh(w *World) {
	var e uint64
	if w != nil {
		e = w.epoch
	}
	if l.epoch != e {
		*l = rw{epoch: e}
	}
}

func (l *rw) lock(try bool) bool {
	w := cur.Load()
	Point("lock", l)
	waiting := false
	for {
		mu.Lock()
		l.fresh(w)
		if !l.writer && l.readers == 0 {
			l.writer = true
			if waiting {
				l.wwait--
			}
			if w != nil && w.Ctl != nil {
				w.Ctl.acquire(l.rel, l.rrel)
			}
			mu.Unlock()
			return true
		}
		if try {
			mu.Unlock()
			return false
		}
		if !waiting {
			waiting = true
			l.wwait++
		}
		ch := make(chan struct{})
		l.waiters = append(l.waiters, ch)
		mu.Unlock()
		w.wait(ch)
		Point("relock", l)
	}
}

func (l *rw) rlock(try bool) bool {
	w := cur.Load()
	Point("rlock", l)
	for {
		mu.Lock()
		l.fresh(w)
		// like sync.RWMutex, a waiting writer holds off new readers
		if !l.writer && l.wwait == 0 {
			l.readers++
			if w != nil && w.Ctl != nil {
				w.Ctl.acquire(l.rel)
			}
			mu.Unlock()
			return true
		}
		if try {
			mu.Unlock()
			return false
		}
		ch := make(chan struct{})
		l.waiters = append(l.waiters, ch)
		mu.Unlock()
		w.wait(ch)
		Point("rerlock", l)
	}
}

func (l *rw) wake() {
	ws := l.waiters
	l.waiters = nil
	for _, ch := range ws {
		close(ch)
	}
}

func (l *rw) unlock() {
	w := cur.Load()
	mu.Lock()
	l.fresh(w)
	if !l.writer {
		mu.Unlock()
		if w.isKilled() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	if w != nil && w.Ctl != nil {
		l.rel = w.Ctl.release(l.rel)
	}
	l.writer = false
	l.wake()
	mu.Unlock()
	Point("unlock", l)
}

func (l *rw) runlock() {
	w := cur.Load()
	mu.Lock()
	l.fresh(w)
	if l.readers == 0 {
		mu.Unlock()
		if w.isKilled() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if w != nil && w.Ctl != nil {
		l.rrel = w.Ctl.release(l.rrel)
	}
	l.readers--
	if l.readers == 0 {
		l.wake()
	}
	mu.Unlock()
	Point("runlock", l)
}

type Mutex struct{ l rw }

func (m *Mutex) Lock()         { m.l.lock(false) }
func (m *Mutex) TryLock() bool { return m.l.lock(true) }
func (m *Mutex) Unlock()       { m.l.unlock() }

type RWMutex struct{ l rw }

func (m *RWMutex) Lock()          { m.l.lock(false) }
func (m *RWMutex) TryLock() bool  { return m.l.lock(true) }
func (m *RWMutex) Unlock()        { m.l.unlock() }
func (m *RWMutex) RLock()         { m.l.rlock(false) }
func (m *RWMutex) TryRLock() bool { return m.l.rlock(true) }
func (m *RWMutex) RUnlock()       { m.l.runlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		if w := cur.Load(); w != nil && w.Ctl != nil {
			w.Ctl.atomic(o, false)
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer func() {
			order(o, "")
			o.done.Store(true)
		}()
		f()
	}
}

type WaitGroup struct {
	n       int
	waiters []chan struct{}
	rel     VC
}

func (g *WaitGroup) Add(d int) {
	w := cur.Load()
	mu.Lock()
	g.n += d
	if w != nil && w.Ctl != nil {
		g.rel = w.Ctl.release(g.rel)
	}
	if g.n < 0 {
		mu.Unlock()
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for _, ch := range g.waiters {
			close(ch)
		}
		g.waiters = nil
	}
	mu.Unlock()
	Point("wg", nil)
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	t := PreGo()
	go func() {
		defer g.Done()
		defer Exit(Enter(t))
		f()
	}()
}
func (g *WaitGroup) Wait() {
	w := cur.Load()
	Point("wgwait", nil)
	mu.Lock()
	if g.n == 0 {
		if w != nil && w.Ctl != nil {
			w.Ctl.acquire(g.rel)
		}
		mu.Unlock()
		return
	}
	ch := make(chan struct{})
	g.waiters = append(g.waiters, ch)
	mu.Unlock()
	w.wait(ch)
	Point("wgwait", nil)
	mu.Lock()
	if w != nil && w.Ctl != nil {
		w.Ctl.acquire(g.rel)
	}
	mu.Unlock()
}

type Cond struct {
	L       Locker
	waiters []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := cur.Load()
	ch := make(chan struct{})
	mu.Lock()
	c.waiters = append(c.waiters, ch)
	mu.Unlock()
	c.L.Unlock()
	w.wait(ch)
	c.L.Lock()
}
func (c *Cond) Signal() {
	Point("signal", nil)
	mu.Lock()
	if len(c.waiters) > 0 {
		close(c.waiters[0])
		c.waiters = c.waiters[1:]
	}
	mu.Unlock()
}
func (c *Cond) Broadcast() {
	Point("broadcast", nil)
	mu.Lock()
	for _, ch := range c.waiters {
		close(ch)
	}
	c.waiters = nil
	mu.Unlock()
}
