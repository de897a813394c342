// Package shim replaces package sync, the go statement and net.Listen in the instrumented copy of
// gotgt that the checks build (see ../instr).  Without a Controller it only makes blocking visible to
// testing/synctest (so that "nothing more can happen" is decided, not timed out); with a Controller every
// acquire, release, map access and connection operation is a scheduling point (see sched.go).
package shim

import (
	"fmt"
	"net"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
)

// World is the life of one system under test: from NewWorld to Kill.
type World struct {
	mu        sync.Mutex
	kill      chan struct{}
	killed    bool
	crashes   []string
	listeners map[string]*Listener
	conns     []*Conn
	Ctl       *Controller
	dialSeq   int
	epoch     uint64
	// AcceptErr, if set, is asked before each connection is accepted.
	AcceptErr func() error

	live  atomic.Int64
	apis  map[string]*apiListener
	pipes []net.Conn
}

var cur atomic.Pointer[World]
var epochs atomic.Uint64

// NewWorld must be called inside the synctest bubble.
func NewWorld() *World {
	w := &World{kill: make(chan struct{}), listeners: map[string]*Listener{}, epoch: epochs.Add(1)}
	cur.Store(w)
	return w
}

func Cur() *World { return cur.Load() }

// Kill ends every goroutine of the world that blocks in the shim and closes all connections.
func (w *World) Kill() {
	w.mu.Lock()
	if w.killed {
		w.mu.Unlock()
		return
	}
	w.killed = true
	close(w.kill)
	conns, ls := w.conns, w.listeners
	apis, pipes := w.apis, w.pipes
	w.mu.Unlock()
	for _, l := range apis {
		l.Close()
	}
	for _, c := range pipes {
		c.Close()
	}
	for _, l := range ls {
		l.Close()
	}
	for _, c := range conns {
		c.teardown()
	}
}

// Live is the number of goroutines of the program that have not ended.
func (w *World) Live() int { return int(w.live.Load()) }

// Open are the connections whose server end the program has not closed.
func (w *World) Open() (l []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.conns {
		if c.server && !c.isClosed() {
			l = append(l, string(c.remote))
		}
	}
	return
}

func (w *World) Crashes() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string{}, w.crashes...)
}

func (w *World) crash(what any, stack string) {
	w.mu.Lock()
	w.crashes = append(w.crashes, fmt.Sprintf("%v\n%s", what, stack))
	w.mu.Unlock()
	w.Kill()
}

// Tok carries the parent's clock into a spawned goroutine.
type Tok struct {
	w  *World
	th *Thread
}

// PreGo runs in the spawning goroutine, before the go statement.
func PreGo() *Tok {
	w := cur.Load()
	t := &Tok{w: w}
	if w != nil && w.Ctl != nil {
		w.Ctl.point("go", 0)
		t.th = w.Ctl.newThread("srv", w.Ctl.self())
	}
	return t
}

// Enter runs first in the spawned goroutine, Exit is deferred there.
func Enter(t *Tok) *Tok {
	if t.w != nil {
		t.w.live.Add(1)
	}
	if t.w != nil && t.w.Ctl != nil && t.th != nil {
		t.w.Ctl.enter(t.th)
	}
	return t
}

func Exit(t *Tok) {
	r := recover()
	if t.w == nil {
		if r != nil {
			panic(r)
		}
		return
	}
	t.w.live.Add(-1)
	if r != nil {
		t.w.crash(r, string(debug.Stack()))
	}
	if t.w.Ctl != nil && t.th != nil {
		t.w.Ctl.exit(t.th)
	}
}

// Fn wraps the function value of a go statement whose callee is not a literal.
func Fn[F any](t *Tok, f F) F {
	v := reflect.ValueOf(f)
	typ := v.Type()
	w := reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
		defer Exit(Enter(t))
		if typ.IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	})
	return w.Interface().(F)
}

// Guard runs f like a goroutine body of the program: a panic becomes a recorded crash of the world.
func (w *World) Guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			w.crash(r, string(debug.Stack()))
		}
	}()
	f()
}

// wait blocks until ch is closed or the world is killed.
func (w *World) wait(ch chan struct{}) {
	if w == nil {
		<-ch
		return
	}
	select {
	case <-ch:
	case <-w.kill:
		runtime.Goexit()
	}
}

func (w *World) isKilled() bool {
	if w == nil {
		return false
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.killed
}
