package shim

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"testing/synctest"
	"unsafe"
)

// VC is a vector clock indexed by thread id.
type VC []uint32

func (a VC) join(b VC) VC {
	if len(b) > len(a) {
		c := make(VC, len(b))
		copy(c, a)
		a = c
	} else {
		a = append(VC{}, a...)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func (a VC) leq(b VC) bool {
	for i, v := range a {
		if v == 0 {
			continue
		}
		if i >= len(b) || v > b[i] {
			return false
		}
	}
	return true
}

type Thread struct {
	c       *Controller
	ID      int
	Name    string
	vc      VC
	parked  bool
	done    bool
	what    string
	harness bool
	wake    chan struct{}
}

// ChoicePoint records one scheduling decision of an execution.
type ChoicePoint struct {
	N       int  // number of enabled threads
	Chosen  int  // index taken
	Running bool // alternative 0 is the thread that was running (switching away is a preemption)
}

// Controller runs one thread at a time and decides who goes next at every point.
type Controller struct {
	mu      sync.Mutex
	w       *World
	threads []*Thread
	last    *Thread
	Choose  func(n int, running bool, label string) int
	Points  []ChoicePoint
	Trace   []string
	Steps   int
	Max     int
	Races   []string
	atoms   map[any]VC
	maps    map[uintptr]*mapState
	On      bool // scheduling active (threads park); off: points are no-ops
}

func (w *World) NewController() *Controller {
	c := &Controller{w: w, maps: map[uintptr]*mapState{}, Max: 20000}
	w.Ctl = c
	c.mu.Lock()
	th := c.addThread("main", nil)
	setLabel(unsafe.Pointer(th))
	c.mu.Unlock()
	return c
}

// The current thread is kept where profiler labels live: looking a goroutine id up is far too slow.
//
//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

func (c *Controller) addThread(name string, parent *Thread) *Thread {
	th := &Thread{c: c, ID: len(c.threads), Name: name, wake: make(chan struct{}, 1)}
	if parent != nil {
		th.vc = th.vc.join(parent.vc)
	}
	for len(th.vc) <= th.ID {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.ID] = 1
	if parent != nil {
		parent.vc[parent.ID]++
	}
	c.threads = append(c.threads, th)
	return th
}

func (c *Controller) newThread(name string, parent *Thread) *Thread {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.addThread(name, parent)
}

func (c *Controller) self() *Thread {
	th := (*Thread)(getLabel())
	if th == nil || th.c != c {
		return nil
	}
	return th
}

func (c *Controller) enter(th *Thread) {
	setLabel(unsafe.Pointer(th))
	c.park(th, "start")
}

func (c *Controller) exit(th *Thread) {
	c.mu.Lock()
	th.done = true
	c.mu.Unlock()
	setLabel(nil)
}

// Spawn starts a harness thread under the controller.
func (c *Controller) Spawn(name string, f func()) *Thread {
	th := c.newThread(name, c.self())
	th.harness = true
	t := &Tok{w: c.w, th: th}
	go func() {
		defer Exit(Enter(t))
		f()
	}()
	return th
}

// Point is a scheduling point.
func Point(what string, obj any) {
	w := cur.Load()
	if w == nil || w.Ctl == nil {
		return
	}
	w.Ctl.point(what, 0)
}

func (c *Controller) point(what string, _ int) {
	th := c.self()
	if th == nil || th.ID == 0 {
		return
	}
	c.park(th, what)
}

func (c *Controller) park(th *Thread, what string) {
	c.mu.Lock()
	if !c.On {
		c.mu.Unlock()
		return
	}
	th.parked = true
	th.what = what
	c.mu.Unlock()
	select {
	case <-th.wake:
	case <-c.w.kill:
		runtime.Goexit()
	}
}

// Run schedules until nothing is enabled; false if the step bound was hit. Called from the bubble's root.
func (c *Controller) Run() bool {
	for {
		synctest.Wait()
		c.mu.Lock()
		var en []*Thread
		for _, t := range c.threads {
			if t.parked && !t.done {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			c.mu.Unlock()
			return true
		}
		if c.Steps >= c.Max {
			c.mu.Unlock()
			return false
		}
		sort.SliceStable(en, func(i, j int) bool {
			if (en[i] == c.last) != (en[j] == c.last) {
				return en[i] == c.last
			}
			return en[i].ID < en[j].ID
		})
		running := en[0] == c.last
		k := 0
		if len(en) > 1 {
			if c.Choose != nil {
				k = c.Choose(len(en), running, en[0].what)
			}
			c.Points = append(c.Points, ChoicePoint{N: len(en), Chosen: k, Running: running})
		}
		if k < 0 || k >= len(en) {
			c.mu.Unlock()
			panic(fmt.Sprintf("replay diverged: choice %d of %d", k, len(en)))
		}
		th := en[k]
		if len(en) > 1 {
			c.Trace = append(c.Trace, fmt.Sprintf("%s%d:%s", th.Name, th.ID, th.what))
		}
		c.last = th
		c.Steps++
		th.parked = false
		c.mu.Unlock()
		th.wake <- struct{}{}
	}
}

// Off releases every parked thread and lets the rest run free.
func (c *Controller) Off() {
	c.mu.Lock()
	c.On = false
	for _, t := range c.threads {
		if t.parked {
			t.parked = false
			t.wake <- struct{}{}
		}
	}
	c.mu.Unlock()
}

func (c *Controller) acquire(vs ...VC) {
	th := c.self()
	if th == nil {
		return
	}
	c.mu.Lock()
	for _, v := range vs {
		th.vc = th.vc.join(v)
	}
	c.mu.Unlock()
}

func (c *Controller) release(v VC) VC {
	th := c.self()
	if th == nil {
		return v
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	r := v.join(th.vc)
	th.vc[th.ID]++
	return r
}

type access struct {
	th  int
	clk uint32
	pos string
}

type mapState struct {
	obj     any // so that its address is not used again
	w       access
	r       []access
	hasW    bool
	written bool
}

// written tells whether a map was modified since the controller exists: reads of the others commute with
// everything and need no scheduling point.
func (c *Controller) written(key uintptr) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.maps[key]
	return m != nil && m.written
}

// Start makes the threads that exist and the ones to come follow the schedule.
func (c *Controller) Start() {
	c.mu.Lock()
	c.On = true
	c.mu.Unlock()
}

// Stuck lists the harness threads that have not finished, with what they were last about to do.
func (c *Controller) Stuck() (l []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range c.threads {
		if t.harness && !t.done {
			l = append(l, t.Name+" (last: "+t.what+")")
		}
	}
	return
}

// MapAccess records a read or write of a map (identified by its header pointer) and reports a race when it
// is not ordered with an earlier conflicting access: the Go runtime aborts the process on those.
func (c *Controller) mapAccess(key uintptr, obj any, write bool, pos string) {
	th := c.self()
	if th == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.maps[key]
	if m == nil {
		m = &mapState{obj: obj}
		c.maps[key] = m
	}
	ord := func(a *access) bool {
		return a.th == th.ID || (a.th < len(th.vc) && a.clk <= th.vc[a.th])
	}
	if m.hasW && !ord(&m.w) {
		c.Races = append(c.Races, fmt.Sprintf("%s: unsynchronized with write at %s", pos, m.w.pos))
	}
	now := access{th.ID, th.vc[th.ID], pos}
	if write {
		m.written = true
		for i := range m.r {
			if a := &m.r[i]; !ord(a) {
				c.Races = append(c.Races, fmt.Sprintf("%s: write unsynchronized with read at %s", pos, a.pos))
			}
		}
		m.w, m.hasW, m.r = now, true, m.r[:0]
		return
	}
	for i := range m.r {
		if m.r[i].th == th.ID {
			m.r[i] = now
			return
		}
	}
	m.r = append(m.r, now)
}
