package shim

import (
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"
)

// Listen is what net.Listen becomes: an in-memory listener of the current world.
func Listen(network, addr string) (net.Listener, error) {
	w := cur.Load()
	if w == nil {
		return net.Listen(network, addr)
	}
	port := addr[strings.LastIndex(addr, ":")+1:]
	w.mu.Lock()
	defer w.mu.Unlock()
	if old := w.listeners[port]; old != nil && !old.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", errInUse{})}
	}
	l := &Listener{w: w, port: port, wake: make(chan struct{})}
	w.listeners[port] = l
	return l, nil
}

type errInUse struct{}

func (errInUse) Error() string { return "address already in use" }

type Listener struct {
	w      *World
	port   string
	mu     sync.Mutex
	queue  []*Conn
	closed bool
	wake   chan struct{}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type closedErr struct{}

func (closedErr) Error() string   { return "use of closed network connection" }
func (closedErr) Timeout() bool   { return false }
func (closedErr) Temporary() bool { return false }

func (l *Listener) Accept() (net.Conn, error) {
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			l.mu.Unlock()
			if f := l.w.AcceptErr; f != nil {
				if err := f(); err != nil {
					return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: os.NewSyscallError("accept4", err)}
				}
			}
			Point("accept", l)
			l.mu.Lock()
			if len(l.queue) == 0 || l.closed {
				l.mu.Unlock()
				continue
			}
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.mu.Unlock()
			return c, nil
		}
		ch := l.wake
		l.mu.Unlock()
		select {
		case <-ch:
		case <-l.w.kill:
			l.Close()
		}
	}
}

func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	close(l.wake)
	for _, c := range l.queue {
		c.peer.in.close(io.EOF)
		c.in.close(io.EOF)
	}
	return nil
}

func (l *Listener) Addr() net.Addr { return addr("[::]:" + l.port) }

// Dial connects a client at the given addresses; nil if nobody listens there.
func (w *World) Dial(from, to string) *Conn {
	port := to[strings.LastIndex(to, ":")+1:]
	w.mu.Lock()
	l := w.listeners[port]
	w.mu.Unlock()
	if l == nil {
		return nil
	}
	a, b := newStream(), newStream()
	cl := &Conn{w: w, in: a, local: addr(from), remote: addr(to), down: make(chan struct{})}
	sv := &Conn{w: w, in: b, local: addr(to), remote: addr(from), server: true, down: make(chan struct{})}
	cl.peer, sv.peer = sv, cl
	w.mu.Lock()
	w.conns = append(w.conns, cl, sv)
	w.mu.Unlock()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil
	}
	l.queue = append(l.queue, sv)
	close(l.wake)
	l.wake = make(chan struct{})
	return cl
}

type stream struct {
	mu     sync.Mutex
	buf    []byte
	closed bool
	err    error
	wake   chan struct{}
	vc     VC
}

func newStream() *stream { return &stream{wake: make(chan struct{})} }

func (s *stream) close(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.closed = true
		s.err = err
		close(s.wake)
		s.wake = make(chan struct{})
	}
}

// Conn is one end of an in-memory TCP connection.
type Conn struct {
	w             *World
	in            *stream
	peer          *Conn
	local, remote addr
	server        bool
	mu            sync.Mutex
	closed        bool
	stall         chan struct{} // non-nil: writes to this end block (a peer that does not read)
	down          chan struct{} // closed when this end is closed
}

// shut marks the end closed, which ends the writes that wait at it; false: it was closed before.
func (c *Conn) shut() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return false
	}
	c.closed = true
	close(c.down)
	return true
}

func (c *Conn) teardown() {
	c.in.close(io.EOF)
	c.shut()
}

func (c *Conn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Conn) Read(p []byte) (int, error) {
	for {
		if c.isClosed() {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		s := c.in
		s.mu.Lock()
		ready := len(s.buf) > 0 || s.closed || len(p) == 0
		ch := s.wake
		s.mu.Unlock()
		if !ready {
			<-ch
			continue
		}
		if c.server {
			Point("read", nil)
		}
		s.mu.Lock()
		if len(s.buf) > 0 {
			n := copy(p, s.buf)
			s.buf = s.buf[n:]
			vc := s.vc
			s.mu.Unlock()
			if c.w.Ctl != nil {
				c.w.Ctl.acquire(vc)
			}
			return n, nil
		}
		if s.closed {
			err := s.err
			s.mu.Unlock()
			return 0, err
		}
		s.mu.Unlock()
		if len(p) == 0 {
			return 0, nil
		}
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.server {
		Point("write", nil)
	}
	if c.isClosed() {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	c.peer.mu.Lock()
	st := c.peer.stall
	c.peer.mu.Unlock()
	if st != nil {
		select {
		case <-st:
		case <-c.down:
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		case <-c.peer.down:
		case <-c.w.kill:
		}
	}
	if c.peer.isClosed() {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", errPipe{})}
	}
	s := c.peer.in
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", errPipe{})}
	}
	s.buf = append(s.buf, p...)
	if c.w.Ctl != nil {
		s.vc = c.w.Ctl.release(s.vc)
	}
	close(s.wake)
	s.wake = make(chan struct{})
	return len(p), nil
}

type errPipe struct{}

func (errPipe) Error() string { return "broken pipe" }

func (c *Conn) Close() error {
	if c.server {
		Point("close", nil)
	}
	if !c.shut() {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.in.close(net.ErrClosed)
	c.peer.in.close(io.EOF)
	return nil
}

func (c *Conn) LocalAddr() net.Addr                { return c.local }
func (c *Conn) RemoteAddr() net.Addr               { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Take removes and returns what has arrived at a client end; eof tells that the peer has closed.
func (c *Conn) Take() (b []byte, eof bool) {
	s := c.in
	s.mu.Lock()
	defer s.mu.Unlock()
	b = s.buf
	s.buf = nil
	return b, s.closed
}

// Await blocks until something has arrived at a client end or the peer has closed.
func (c *Conn) Await() {
	for {
		s := c.in
		s.mu.Lock()
		ready, ch := len(s.buf) > 0 || s.closed, s.wake
		s.mu.Unlock()
		if ready {
			Point("recv", nil)
			s.mu.Lock()
			vc := s.vc
			s.mu.Unlock()
			if c.w.Ctl != nil {
				c.w.Ctl.acquire(vc)
			}
			return
		}
		c.w.wait(ch)
	}
}

// Peek returns what has arrived at a client end without removing it.
func (c *Conn) Peek() []byte {
	s := c.in
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.buf...)
}

// Stall makes the peer's writes to this end block until Unstall.
func (c *Conn) Stall() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.stall == nil {
		c.stall = make(chan struct{})
	}
}
func (c *Conn) Unstall() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.stall != nil {
		close(c.stall)
		c.stall = nil
	}
}

// Reset ends the connection from the client end abortively: what the server has not read is lost.
func (c *Conn) Reset() {
	c.shut()
	c.in.close(net.ErrClosed)
	s := c.peer.in
	s.mu.Lock()
	s.buf = nil
	s.mu.Unlock()
	s.close(&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", errReset{})})
}

type errReset struct{}

func (errReset) Error() string { return "connection reset by peer" }

// Forget drops the record of connections that are closed at both ends.
func (w *World) Forget() {
	w.mu.Lock()
	defer w.mu.Unlock()
	var left []*Conn
	for _, c := range w.conns {
		if !c.isClosed() || !c.peer.isClosed() {
			left = append(left, c)
		}
	}
	w.conns = left
}
