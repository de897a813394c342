package shim

import (
	"crypto/tls"
	"errors"
	"net"
	"net/http"
	"sync"
)

// apiListener is where the management interface waits for its clients, in memory.
type apiListener struct {
	addr string
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

type apiAddr string

func (a apiAddr) Network() string { return "tcp" }
func (a apiAddr) String() string  { return string(a) }

func (l *apiListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}

func (l *apiListener) Close() error {
	err := net.ErrClosed
	l.once.Do(func() { close(l.done); err = nil })
	return err
}

func (l *apiListener) Addr() net.Addr { return apiAddr(l.addr) }

// APIListen stands for net.Listen in the management interface.
func APIListen(network, addr string) (net.Listener, error) {
	w := cur.Load()
	w.mu.Lock()
	defer w.mu.Unlock()
	if l := w.apis[addr]; l != nil {
		select {
		case <-l.done:
		default:
			return nil, &net.OpError{Op: "listen", Net: network, Err: errInUse{}}
		}
	}
	if w.apis == nil {
		w.apis = map[string]*apiListener{}
	}
	l := &apiListener{addr: addr, ch: make(chan net.Conn), done: make(chan struct{})}
	w.apis[addr] = l
	return l, nil
}

// NewTCPSocket stands for sockets.NewTCPSocket.
func NewTCPSocket(addr string, conf *tls.Config) (net.Listener, error) {
	l, err := APIListen("tcp", addr)
	if err == nil && conf != nil {
		conf.NextProtos = []string{"http/1.1"}
		l = tls.NewListener(l, conf)
	}
	return l, err
}

// APIDial connects to the management interface.
func APIDial(network, addr string) (net.Conn, error) {
	w := cur.Load()
	w.mu.Lock()
	l := w.apis[addr]
	w.mu.Unlock()
	if l != nil {
		a, b := net.Pipe()
		w.mu.Lock()
		w.pipes = append(w.pipes, a, b)
		w.mu.Unlock()
		select {
		case l.ch <- b:
			return a, nil
		case <-l.done:
		}
	}
	return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connect: connection refused")}
}

// ConfigureTransport stands for sockets.ConfigureTransport.
func ConfigureTransport(tr *http.Transport, proto, addr string) error {
	if proto != "tcp" {
		return errors.New("not in this world: " + proto)
	}
	tr.Dial = func(network, _ string) (net.Conn, error) { return APIDial(network, addr) }
	return nil
}
