package core

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// Net is a simulated network: named hosts, connections made of two byte
// streams with latency, and faults.
type Net struct {
	w     *World
	r     *Rand
	hosts map[string]*Host
	conns []*Conn
	// Latency bounds of a segment.
	Lo, Hi time.Duration
	// Cap limits the bytes in flight in one direction before writers block.
	Cap int
	nid int
}

// Host is something that can be dialled.
type Host struct {
	n      *Net
	name   string
	accept chan *Conn
	down   bool // refuses connections
	cut    bool // unreachable: nothing gets through until it heals
	heal   chan struct{}
}

func NewNet(w *World, r *Rand) *Net {
	return &Net{w: w, r: r, hosts: map[string]*Host{}, Lo: 100 * time.Microsecond, Hi: 2 * time.Millisecond, Cap: 4 << 20}
}

// Host registers a listening host.
func (n *Net) Host(name string) *Host {
	h := &Host{n: n, name: name, accept: make(chan *Conn, 1024)}
	n.hosts[name] = h
	return h
}

func (h *Host) Accept() (net.Conn, error) {
	c, ok := <-h.accept
	if !ok {
		return nil, net.ErrClosed
	}
	return c, nil
}
func (h *Host) Close() error   { return nil }
func (h *Host) Addr() net.Addr { return addr(h.name) }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Conn is one end of a connection.
type Conn struct {
	net         *Net
	id          int
	host        *Host
	local, peer string
	in, out     *stream
	other       *Conn
	Client      bool
}

type seg struct {
	data []byte
	at   time.Time
}

type stream struct {
	c      *Conn // receiving end
	mu     sync.Mutex
	q      []seg
	size   int
	fin    bool  // no more data will be written
	err    error // broken
	shut   bool  // receiving end closed
	last   time.Time
	wake   chan struct{}
	space  chan struct{}
	rd, wd deadline
}

func newStream() *stream {
	return &stream{wake: make(chan struct{}, 1), space: make(chan struct{}, 1), rd: newDeadline(), wd: newDeadline()}
}

func poke(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

// deadline is the one of net.Pipe.
type deadline struct {
	mu     *sync.Mutex
	timer  **time.Timer
	cancel *chan struct{}
}

func newDeadline() deadline {
	c := make(chan struct{})
	var t *time.Timer
	return deadline{&sync.Mutex{}, &t, &c}
}

func (d deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if *d.timer != nil && !(*d.timer).Stop() {
		<-*d.cancel
	}
	*d.timer = nil
	closed := false
	select {
	case <-*d.cancel:
		closed = true
	default:
	}
	if t.IsZero() {
		if closed {
			*d.cancel = make(chan struct{})
		}
		return
	}
	if dur := time.Until(t); dur > 0 {
		if closed {
			*d.cancel = make(chan struct{})
		}
		c := *d.cancel
		*d.timer = time.AfterFunc(dur, func() { close(c) })
		return
	}
	if !closed {
		close(*d.cancel)
	}
}

func (d deadline) wait() chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	return *d.cancel
}

func expired(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

var errReset = errors.New("connection reset by peer")

func (n *Net) lat() time.Duration {
	if n.Hi <= n.Lo {
		return n.Lo
	}
	return n.Lo + time.Duration(n.r.U64()%uint64(n.Hi-n.Lo))
}

// Dial connects to a host.
func (n *Net) Dial(from, to string, timeout time.Duration) (net.Conn, error) {
	h := n.hosts[to]
	if h == nil {
		time.Sleep(n.lat())
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: addr(to), Err: errors.New("no such host")}
	}
	if timeout <= 0 {
		timeout = 30 * time.Second
	}
	until := time.Now().Add(timeout)
	for h.cut {
		heal := h.heal
		t := time.NewTimer(time.Until(until))
		select {
		case <-heal:
			t.Stop()
		case <-t.C:
			return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: addr(to), Err: os.ErrDeadlineExceeded}
		}
	}
	time.Sleep(2 * n.lat())
	if h.down {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: addr(to), Err: errors.New("connection refused")}
	}
	n.nid++
	a, b := newStream(), newStream()
	c := &Conn{net: n, id: n.nid, host: h, local: fmt.Sprintf("%s:%d", from, 40000+n.nid), peer: to, in: a, out: b, Client: true}
	s := &Conn{net: n, id: n.nid, host: h, local: to, peer: c.local, in: b, out: a}
	c.other, s.other = s, c
	a.c, b.c = c, s
	n.conns = append(n.conns, c)
	h.accept <- s
	return c, nil
}

func (c *Conn) Read(p []byte) (int, error) {
	s := c.in
	for {
		dl := s.rd.wait()
		if expired(dl) {
			return 0, os.ErrDeadlineExceeded
		}
		s.mu.Lock()
		if s.shut {
			s.mu.Unlock()
			return 0, net.ErrClosed
		}
		if s.err != nil {
			err := s.err
			s.mu.Unlock()
			return 0, err
		}
		var wait time.Duration = -1
		cut := c.host.cut
		heal := c.host.heal
		if len(s.q) > 0 && !cut {
			now := time.Now()
			if !s.q[0].at.After(now) {
				if len(p) == 0 {
					s.mu.Unlock()
					return 0, nil
				}
				k := copy(p, s.q[0].data)
				s.q[0].data = s.q[0].data[k:]
				s.size -= k
				if len(s.q[0].data) == 0 {
					s.q = s.q[1:]
				}
				s.mu.Unlock()
				poke(s.space)
				return k, nil
			}
			wait = s.q[0].at.Sub(now)
		} else if s.fin && !cut {
			s.mu.Unlock()
			return 0, io.EOF
		}
		s.mu.Unlock()
		if !cut {
			heal = nil
		}
		if wait >= 0 {
			t := time.NewTimer(wait)
			select {
			case <-t.C:
			case <-s.wake:
			case <-dl:
			}
			t.Stop()
		} else {
			select {
			case <-s.wake:
			case <-dl:
			case <-heal:
			}
		}
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	s := c.out
	for {
		dl := s.wd.wait()
		if expired(dl) {
			return 0, os.ErrDeadlineExceeded
		}
		s.mu.Lock()
		if s.fin {
			s.mu.Unlock()
			return 0, net.ErrClosed
		}
		if s.err != nil || s.shut {
			s.mu.Unlock()
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: errReset}
		}
		if s.size < c.net.Cap || c.net.Cap == 0 {
			at := time.Now().Add(c.net.lat())
			if at.Before(s.last) {
				at = s.last
			}
			s.last = at
			s.q = append(s.q, seg{append([]byte(nil), p...), at})
			s.size += len(p)
			s.mu.Unlock()
			poke(s.wake)
			return len(p), nil
		}
		s.mu.Unlock()
		select {
		case <-s.space:
		case <-dl:
		}
	}
}

// Close ends the connection in an orderly way: the peer reads what was
// written, then EOF.
func (c *Conn) Close() error {
	c.in.mu.Lock()
	if c.in.shut {
		c.in.mu.Unlock()
		return net.ErrClosed
	}
	c.in.shut = true
	c.in.q, c.in.size = nil, 0
	c.in.mu.Unlock()
	c.out.mu.Lock()
	c.out.fin = true
	c.out.mu.Unlock()
	poke(c.in.wake)
	poke(c.in.space)
	poke(c.out.wake)
	poke(c.out.space)
	return nil
}

// Reset breaks the connection: what was not read yet is lost.
func (c *Conn) Reset() {
	for _, s := range []*stream{c.in, c.out} {
		s.mu.Lock()
		if s.err == nil {
			s.err = &net.OpError{Op: "read", Net: "tcp", Err: errReset}
		}
		s.q, s.size = nil, 0
		s.mu.Unlock()
		poke(s.wake)
		poke(s.space)
	}
}

func (c *Conn) LocalAddr() net.Addr  { return addr(c.local) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.peer) }
func (c *Conn) SetDeadline(t time.Time) error {
	c.in.rd.set(t)
	c.out.wd.set(t)
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.in.rd.set(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.out.wd.set(t); return nil }

// open reports whether the connection is still in use.
func (c *Conn) open() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.err == nil && !c.in.shut && !c.in.fin
}

// Open lists the live connections to a host ("" for all), client ends.
func (n *Net) Open(host string) []*Conn {
	var out []*Conn
	live := n.conns[:0]
	for _, c := range n.conns {
		if c.open() {
			live = append(live, c)
			if host == "" || c.host.name == host {
				out = append(out, c)
			}
		}
	}
	n.conns = live
	return out
}

// OpenFrom lists the live connections a client made.
func (n *Net) OpenFrom(from string) []*Conn {
	var out []*Conn
	for _, c := range n.Open("") {
		if len(c.local) > len(from) && c.local[:len(from)+1] == from+":" {
			out = append(out, c)
		}
	}
	return out
}

// SetDown makes a host refuse connections, breaking those it has.
func (h *Host) SetDown(down bool) {
	h.down = down
	if down {
		for _, c := range h.n.Open(h.name) {
			c.Reset()
		}
	}
}

// SetCut makes a host unreachable, or reachable again.
func (h *Host) SetCut(cut bool) {
	if cut == h.cut {
		return
	}
	if cut {
		h.heal = make(chan struct{})
		h.cut = true
		return
	}
	h.cut = false
	close(h.heal)
	for _, c := range h.n.Open(h.name) {
		poke(c.in.wake)
		poke(c.out.wake)
	}
}
