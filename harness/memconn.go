package main

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"
)

// memConn is one end of an in-memory TCP-like connection with buffering, read
// splitting, virtual-time deadlines, graceful close and abort.  It blocks on
// sync.Cond only, so that synctest sees blocked goroutines.

type memHalf struct { // one direction
	mu      sync.Mutex
	cond    *sync.Cond
	buf     []byte
	cap     int
	eof     bool  // the writer closed
	dead    error // the reader closed or the connection was reset
	written []byte
	tap     bool
	total   int64 // bytes ever written
	taken   int64 // bytes ever read
	writes  int
	linger  bool // writes to a closed reader are swallowed
	stall   bool // the reader takes nothing (its side behaves as if it stopped reading)
}

func newHalf(capacity int) *memHalf {
	h := &memHalf{cap: capacity}
	h.cond = sync.NewCond(&h.mu)
	return h
}

type memConn struct {
	name   string
	rd, wr *memHalf
	rmu    sync.Mutex
	r      *rand.Rand
	mode   int // 0 whole, 1 single bytes, 2 random pieces, 3 random pieces with pauses
	closed bool
	cmu    sync.Mutex
	rdl    memDeadline
	wdl    memDeadline
	onClos func()
	local  net.Addr
}

type memDeadline struct {
	t     time.Time
	timer *time.Timer
	gone  bool
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

// memPipe makes a connected pair; capacity 0 means unbounded buffers.
func memPipe(r *rand.Rand, capacity int, mode int) (a, b *memConn) {
	x, y := newHalf(capacity), newHalf(capacity)
	a = &memConn{name: "a", rd: y, wr: x, r: rand.New(rand.NewSource(r.Int63())), mode: mode, local: memAddr("a")}
	b = &memConn{name: "b", rd: x, wr: y, r: rand.New(rand.NewSource(r.Int63())), mode: mode, local: memAddr("b")}
	return
}

var errReset = errors.New("memconn: connection reset by peer")

func (c *memConn) Read(p []byte) (n int, err error) {
	c.rmu.Lock()
	lim := len(p)
	pause := time.Duration(0)
	switch c.mode {
	case 1:
		lim = 1
	case 2, 3:
		lim = 1 + c.r.Intn(1+c.r.Intn(3000))
		if c.mode == 3 && c.r.Intn(20) == 0 {
			pause = time.Duration(c.r.Intn(2000)) * time.Microsecond
		}
	}
	c.rmu.Unlock()
	if lim > len(p) {
		lim = len(p)
	}
	if pause > 0 {
		time.Sleep(pause)
	}
	h := c.rd
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if c.isClosed() {
			return 0, net.ErrClosed
		}
		if c.rdl.gone {
			return 0, os.ErrDeadlineExceeded
		}
		if h.dead != nil {
			return 0, h.dead
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 && !h.stall {
			n = copy(p[:lim], h.buf)
			h.buf = h.buf[n:]
			h.taken += int64(n)
			h.cond.Broadcast()
			return n, nil
		}
		if h.eof && len(h.buf) == 0 {
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (c *memConn) Write(p []byte) (n int, err error) {
	h := c.wr
	h.mu.Lock()
	defer h.mu.Unlock()
	h.writes++
	for {
		if c.isClosed() {
			return n, net.ErrClosed
		}
		if c.wdl.gone {
			return n, os.ErrDeadlineExceeded
		}
		if h.dead != nil {
			if h.linger {
				return n + len(p), nil
			}
			return n, h.dead
		}
		room := len(p)
		if h.cap > 0 && room > h.cap-len(h.buf) {
			room = h.cap - len(h.buf)
		}
		if room > 0 {
			h.buf = append(h.buf, p[:room]...)
			if h.tap {
				h.written = append(h.written, p[:room]...)
			}
			h.total += int64(room)
			n += room
			p = p[room:]
			h.cond.Broadcast()
		}
		if len(p) == 0 {
			return n, nil
		}
		h.cond.Wait()
	}
}

func (c *memConn) isClosed() bool {
	c.cmu.Lock()
	defer c.cmu.Unlock()
	return c.closed
}

// Close ends this side: what was written stays readable by the peer.
func (c *memConn) Close() error {
	c.cmu.Lock()
	if c.closed {
		c.cmu.Unlock()
		return net.ErrClosed
	}
	c.closed = true
	f := c.onClos
	c.cmu.Unlock()
	c.rd.mu.Lock()
	c.stop(&c.rdl)
	if c.rd.dead == nil {
		c.rd.dead = errReset
	}
	c.rd.cond.Broadcast()
	c.rd.mu.Unlock()
	c.wr.mu.Lock()
	c.stop(&c.wdl)
	c.wr.eof = true
	c.wr.cond.Broadcast()
	c.wr.mu.Unlock()
	if f != nil {
		f()
	}
	return nil
}

// Linger makes writes to a side that has closed succeed and vanish, as TCP's
// may; without it they fail at once.
func (c *memConn) Linger() {
	c.rd.linger, c.wr.linger = true, true
}

// Abort resets the connection: buffered bytes are lost on both sides.
func (c *memConn) Abort() {
	for _, h := range []*memHalf{c.rd, c.wr} {
		h.mu.Lock()
		h.buf = nil
		h.dead = errReset
		h.cond.Broadcast()
		h.mu.Unlock()
	}
	c.Close()
}

// CloseWrite ends the writing direction only.
func (c *memConn) CloseWrite() error {
	c.wr.mu.Lock()
	c.wr.eof = true
	c.wr.cond.Broadcast()
	c.wr.mu.Unlock()
	return nil
}

func (c *memConn) stop(d *memDeadline) {
	if d.timer != nil {
		d.timer.Stop()
		d.timer = nil
	}
}

func (c *memConn) setDL(h *memHalf, d *memDeadline, t time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	c.stop(d)
	d.gone = false
	if t.IsZero() {
		return
	}
	w := time.Until(t)
	if w <= 0 {
		d.gone = true
		h.cond.Broadcast()
		return
	}
	var tm *time.Timer
	tm = time.AfterFunc(w, func() {
		h.mu.Lock()
		if d.timer == tm {
			d.gone = true
			h.cond.Broadcast()
		}
		h.mu.Unlock()
	})
	d.timer = tm
}

func (c *memConn) SetDeadline(t time.Time) error {
	if c.isClosed() {
		return net.ErrClosed
	}
	c.setDL(c.rd, &c.rdl, t)
	c.setDL(c.wr, &c.wdl, t)
	return nil
}
func (c *memConn) SetReadDeadline(t time.Time) error {
	c.setDL(c.rd, &c.rdl, t)
	return nil
}
func (c *memConn) SetWriteDeadline(t time.Time) error {
	c.setDL(c.wr, &c.wdl, t)
	return nil
}
func (c *memConn) LocalAddr() net.Addr  { return c.local }
func (c *memConn) RemoteAddr() net.Addr { return memAddr("peer of " + c.name) }

// Tap records everything this side writes from now on.
func (c *memConn) Tap() {
	c.wr.mu.Lock()
	c.wr.tap = true
	c.wr.mu.Unlock()
}

// Tapped is what this side wrote since Tap.
func (c *memConn) Tapped() []byte {
	c.wr.mu.Lock()
	defer c.wr.mu.Unlock()
	return append([]byte(nil), c.wr.written...)
}

// Unread is how many bytes written by the peer this side has not read.
func (c *memConn) Unread() int {
	c.rd.mu.Lock()
	defer c.rd.mu.Unlock()
	return len(c.rd.buf)
}
