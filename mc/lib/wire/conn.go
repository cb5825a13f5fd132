// Package wire runs the real server over in-memory connections and speaks LDAP with it.
package wire

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// ErrTimeout is returned by a client read that waited too long.
var ErrTimeout = errors.New("timeout")

type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
	broken bool // writes fail
}

func newHalf() *half { h := &half{}; h.cond = sync.NewCond(&h.mu); return h }

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed || h.broken {
		return 0, io.ErrClosedPipe
	}
	h.buf = append(h.buf, b...)
	h.cond.Broadcast()
	return len(b), nil
}

func (h *half) read(b []byte, max int) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.buf) == 0 {
		if h.closed {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
	if max > 0 && len(b) > max {
		b = b[:max]
	}
	n := copy(b, h.buf)
	h.buf = h.buf[n:]
	return n, nil
}

func (h *half) readTimeout(b []byte, d time.Duration) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.buf) == 0 && !h.closed {
		deadline := time.Now().Add(d)
		t := time.AfterFunc(d, func() { h.mu.Lock(); h.cond.Broadcast(); h.mu.Unlock() })
		defer t.Stop()
		for len(h.buf) == 0 && !h.closed {
			if !time.Now().Before(deadline) {
				return 0, ErrTimeout
			}
			h.cond.Wait()
		}
	}
	if len(h.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, h.buf)
	h.buf = h.buf[n:]
	return n, nil
}

func (h *half) close() {
	h.mu.Lock()
	h.closed = true
	h.cond.Broadcast()
	h.mu.Unlock()
}

// Hooks observe the server side of a connection.
type Hooks struct {
	Read  func()         // before the server reads
	Write func(b []byte) // before the server's write takes effect
	Close func()
}

// ServerConn is the server's end.
type ServerConn struct {
	in, out       *half
	remote, local net.Addr
	MaxRead       int // deliver at most that many bytes per read
	Hooks         *Hooks
	closedOnce    sync.Once
	Closed        chan struct{}
}

// Addr is a settable network address.
type Addr struct{ Net, S string }

func (a Addr) Network() string { return a.Net }
func (a Addr) String() string  { return a.S }

func (c *ServerConn) Read(b []byte) (int, error) {
	if c.Hooks != nil && c.Hooks.Read != nil {
		c.Hooks.Read()
	}
	return c.in.read(b, c.MaxRead)
}

func (c *ServerConn) Write(b []byte) (int, error) {
	if c.Hooks != nil && c.Hooks.Write != nil {
		c.Hooks.Write(b)
	}
	return c.out.write(b)
}

func (c *ServerConn) Close() error {
	c.closedOnce.Do(func() {
		if c.Hooks != nil && c.Hooks.Close != nil {
			c.Hooks.Close()
		}
		c.in.close()
		c.out.close()
		close(c.Closed)
	})
	return nil
}
func (c *ServerConn) LocalAddr() net.Addr              { return c.local }
func (c *ServerConn) RemoteAddr() net.Addr             { return c.remote }
func (c *ServerConn) SetDeadline(time.Time) error      { return nil }
func (c *ServerConn) SetReadDeadline(time.Time) error  { return nil }
func (c *ServerConn) SetWriteDeadline(time.Time) error { return nil }

// Listener hands out in-memory connections.
type Listener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func NewListener() *Listener {
	return &Listener{ch: make(chan net.Conn), closed: make(chan struct{})}
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, errors.New("use of closed network connection")
	}
}
func (l *Listener) Close() error   { l.once.Do(func() { close(l.closed) }); return nil }
func (l *Listener) Addr() net.Addr { return Addr{"tcp", "127.0.0.1:389"} }

// IsClosed reports whether the server closed the listener.
func (l *Listener) IsClosed() bool {
	select {
	case <-l.closed:
		return true
	default:
		return false
	}
}

// Pipe makes a connection pair.
func Pipe(remote net.Addr) (*ServerConn, *Client) {
	in, out := newHalf(), newHalf()
	sc := &ServerConn{in: in, out: out, remote: remote, local: Addr{"tcp", "127.0.0.1:389"}, Closed: make(chan struct{})}
	return sc, &Client{Srv: sc, w: in, r: out, Timeout: DefaultTimeout}
}

// DefaultTimeout is how long a client waits for an answer before the server counts as hanging.
var DefaultTimeout = 20 * time.Second
