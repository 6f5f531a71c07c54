package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/mp4/mp4io"
	"github.com/nareix/joy5/format/rtmp"
	"github.com/nareix/joy5/utils/bits"
)

// C30: every operation of a session's file or connection is made to fail in
// turn; the call in progress has to say so.

func init() {
	register(&propDef{
		id: "C30", mul: 4, level: "fault_enumeration",
		rule: "the operations (write, read, seek, flush) beneath a session are counted in a run without faults, then the session is run again with each of them failing in turn (once or for good, writing nothing or a part); the outcome of every call is compared with whether an operation failed in it. Non-trivial = the operation was reached and failed; distinct by session and operation",
		assume: []string{
			"a failing operation takes or gives no byte, or a write takes a part of its bytes",
			"errors other than end of file are injected",
		},
		must: []string{"write faults", "read faults", "seek faults", "flush faults", "faults in negotiation", "faults in media", "complete runs", "answers", "full devices"},
		run:  runC30,
	})
}

type opFault struct {
	mu     sync.Mutex
	kind   string // the kind of operation to fail: write, read, seek, flush
	at     int    // which one, from 0; -1 for none
	always bool   // every later one of the kind, too
	part   int    // a failing write takes len/part bytes if > 0
	err    error
	n      map[string]int
	hits   int
}

func (f *opFault) op(kind string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.n == nil {
		f.n = map[string]int{}
	}
	k := f.n[kind]
	f.n[kind]++
	if kind == f.kind && (k == f.at || f.always && f.at >= 0 && k > f.at) {
		f.hits++
		return f.err
	}
	return nil
}

func (f *opFault) hit() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.hits
}

func (f *opFault) count(kind string) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.n[kind]
}

// call runs one call of the library and compares its outcome.
func (f *opFault) call(c *C, what string, fn func() error) error {
	before := f.hit()
	err := fn()
	if f.hit() > before {
		if err == nil {
			c.Failf("%s succeeded although %s %d beneath it failed", what, f.kind, f.at)
		}
		if err == io.EOF {
			c.Failf("%s took the failure of %s %d (%v) for the end", what, f.kind, f.at, f.err)
		}
	}
	return err
}

var faultErrs = []error{errors.New("injected"), io.ErrClosedPipe, syscall.ENOSPC, syscall.EIO, syscall.ECONNRESET, os.ErrDeadlineExceeded, &net.OpError{Op: "read", Err: syscall.ETIMEDOUT}, io.ErrShortWrite, io.ErrNoProgress}

// faultFile is a file whose operations may fail.
type faultFile struct {
	memFile
	f *opFault
}

func (m *faultFile) Write(p []byte) (int, error) {
	if err := m.f.op("write"); err != nil {
		n := 0
		if m.f.part > 0 && len(p) > 0 {
			n, _ = m.memFile.Write(p[:len(p)/m.f.part])
		}
		return n, err
	}
	return m.memFile.Write(p)
}

func (m *faultFile) Seek(off int64, whence int) (int64, error) {
	if err := m.f.op("seek"); err != nil {
		return 0, err
	}
	return m.memFile.Seek(off, whence)
}

func (m *faultFile) Read(p []byte) (int, error) {
	if err := m.f.op("read"); err != nil {
		return 0, err
	}
	if m.pos >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[m.pos:])
	m.pos += int64(n)
	return n, nil
}

func (m *faultFile) Streams() ([]interface{}, error) {
	if err := m.f.op("streams"); err != nil {
		return nil, err
	}
	return m.memFile.Streams()
}

// eachFault runs a session with no fault and then with every operation
// failing in turn (every so many, if there are very many).
func eachFault(c *C, kinds []string, max int, run func(f *opFault)) {
	clean := &opFault{at: -1}
	run(clean)
	c.Count("complete runs", 1)
	for _, kind := range kinds {
		n := clean.count(kind)
		step := n/max + 1
		for k := c.R.Intn(step); k < n; k += step {
			f := &opFault{kind: kind, at: k, always: c.R.Intn(2) == 0, part: []int{0, 1, 2}[c.R.Intn(3)], err: faultErrs[c.R.Intn(len(faultErrs))]}
			run(f)
			if f.hit() > 0 {
				c.Count(kind+" faults", 1)
				c.Nontrivial(c.Group, c.Idx, kind, k)
			}
		}
	}
}

func faultMP4Mux(c *C) {
	ms := genCodecSet(c)
	order := genMP4Packets(c, ms, c.R.Intn(30))
	early, keepOn := c.R.Intn(2) == 0, c.R.Intn(2) == 0
	late := c.R.Intn(2) == 0
	c.Desc("%d tracks %d packets", len(ms), len(order))
	var whole []byte
	eachFault(c, []string{"write", "seek", "streams"}, 60, func(f *opFault) {
		file := &faultFile{f: f}
		known := !late
		file.streams = func() (s []interface{}, err error) {
			for _, m := range ms {
				if known {
					s = append(s, m.codec)
				}
			}
			return
		}
		var m *mp4.Muxer
		bad := 0
		run := func(what string, fn func() error) bool {
			if err := f.call(c, what, fn); err != nil {
				if f.hit() == 0 {
					c.Failf("%s: %v", what, err)
				}
				bad++
			}
			return bad == 0 || keepOn
		}
		if run("NewMuxer", func() (err error) { m, err = mp4.NewMuxer(file); return }); m == nil {
			return
		}
		known = true
		ok := true
		if early {
			ok = run("WriteFileHeader", m.WriteFileHeader)
		}
		for i := 0; ok && i < len(order); i++ {
			p := order[i]
			ok = run("WritePacket", func() error { return m.WritePacket(p) })
		}
		if ok {
			run("WriteTrailer", m.WriteTrailer)
		}
		if f.hit() > 0 && bad == 0 {
			c.Failf("%s %d failed and no call said so", f.kind, f.at)
		}
		if f.hit() > 0 && f.at > 0 {
			c.Count("faults in media", 1)
		}
		if f.at < 0 {
			whole = file.b
		} else if f.hit() == 0 && len(file.b) != len(whole) {
			c.Failf("no fault: %d bytes, %d before", len(file.b), len(whole))
		}
	})
}

func faultMP4Demux(c *C) {
	ms := genCodecSet(c)
	file := muxMP4(c, ms, genMP4Packets(c, ms, c.R.Intn(30)), false)
	seek := c.R.Intn(3)
	at := time.Duration(c.R.Int63n(int64(20 * time.Second)))
	var want []av.Packet
	c.Desc("%d bytes seek %d", len(file), seek)
	eachFault(c, []string{"read", "seek"}, 60, func(f *opFault) {
		src := &faultFile{f: f}
		src.b = append([]byte(nil), file...)
		d := mp4.NewDemuxer(src)
		bad := func(what string, fn func() error) bool {
			err := f.call(c, what, fn)
			if err != nil && err != io.EOF && f.hit() == 0 {
				c.Failf("%s: %v", what, err)
			}
			return err != nil
		}
		if seek != 1 && bad("Streams", func() error { _, err := d.Streams(); return err }) {
			return
		}
		var got []av.Packet
		read := func(max int) bool {
			for ; max > 0; max-- {
				var p av.Packet
				if bad("ReadPacket", func() (err error) { p, err = d.ReadPacket(); return }) {
					return false
				}
				got = append(got, p)
			}
			return true
		}
		if seek > 0 {
			if seek == 2 && !read(3) || bad("SeekToTime", func() error { return d.SeekToTime(at) }) {
				goto end
			}
		}
		read(1 << 30)
	end:
		if f.at < 0 {
			want = got
			return
		}
		if len(got) > len(want) {
			c.Failf("%d packets, %d without a fault", len(got), len(want))
		}
		samePackets(c, "before the fault", got, want[:len(got)])
		if f.hit() == 0 && len(got) < len(want) {
			c.Failf("no fault, %d of %d packets", len(got), len(want))
		}
		if len(got) > 0 {
			c.Count("faults in media", 1)
		}
	})
	// the list of boxes
	eachFault(c, []string{"read", "seek"}, 60, func(f *opFault) {
		src := &faultFile{f: f}
		src.b = file
		f.call(c, "ReadFileAtoms", func() error { _, err := mp4io.ReadFileAtoms(src); return err })
	})
}

func samePackets(c *C, what string, got, want []av.Packet) {
	for i, p := range got {
		w := want[i]
		if p.Type != w.Type || p.Time != w.Time || p.CTime != w.CTime || p.IsKeyFrame != w.IsKeyFrame || !bytes.Equal(p.Data, w.Data) {
			c.Failf("%s: packet %d: %v, want %v", what, i, p, w)
		}
	}
}

func faultFLV(c *C) {
	r := c.R
	var order []av.Packet
	if r.Intn(8) > 0 {
		order = genPackets(c, r.Intn(20), 600)
	}
	keepOn := r.Intn(2) == 0
	var whole []byte
	eachFault(c, []string{"write", "seek"}, 100, func(f *opFault) {
		file := &faultFile{f: f}
		file.streams = func() ([]interface{}, error) { return nil, nil }
		m := flv.NewMuxer(file)
		bad := 0
		for i, p := range order {
			if err := f.call(c, "WritePacket", func() error { return m.WritePacket(p) }); err != nil {
				if f.hit() == 0 {
					c.Failf("WritePacket %d: %v", i, err)
				}
				if bad++; !keepOn {
					break
				}
			}
		}
		if f.at < 0 {
			whole = file.b
		}
	})
	file := whole
	if r.Intn(2) == 0 {
		file, _, _ = genForeignFLV(c, r.Intn(20), 600)
	}
	var want []av.Packet
	eachFault(c, []string{"read"}, 100, func(f *opFault) {
		src := &faultFile{f: f}
		src.b = file
		var rd io.Reader = src
		d := flv.NewDemuxer(rd)
		var got []av.Packet
		for {
			var p av.Packet
			err := f.call(c, "ReadPacket", func() (err error) { p, err = d.ReadPacket(); return })
			if err != nil {
				if err != io.EOF && f.hit() == 0 {
					c.Failf("ReadPacket: %v", err)
				}
				break
			}
			got = append(got, p)
		}
		if f.at < 0 {
			want = got
			return
		}
		if len(got) > len(want) {
			c.Failf("%d packets, %d without a fault", len(got), len(want))
		}
		checkPackets(c, "before the fault", got, want[:len(got)])
		if f.hit() == 0 && len(got) < len(want) {
			c.Failf("no fault, %d of %d packets", len(got), len(want))
		}
		if len(got) > 0 {
			c.Count("faults in media", 1)
		}
	})
}

// faultBits covers the bit reader and writer and what is built on them.
func faultBits(c *C) {
	r := c.R
	type field struct {
		v uint64
		n int
	}
	var fs []field
	for i := 0; i < 1+r.Intn(60); i++ {
		n := 1 + r.Intn(64)
		fs = append(fs, field{r.Uint64() >> uint(64-n), n})
	}
	var whole []byte
	eachFault(c, []string{"write"}, 100, func(f *opFault) {
		file := &faultFile{f: f}
		w := &bits.Writer{W: file}
		for _, x := range fs {
			if f.call(c, "WriteBits64", func() error { return w.WriteBits64(x.v, x.n) }) != nil {
				return
			}
		}
		if f.call(c, "FlushBits", w.FlushBits) != nil {
			return
		}
		whole = file.b
	})
	eachFault(c, []string{"read"}, 100, func(f *opFault) {
		src := &faultFile{f: f}
		src.b = whole
		b := &bits.Reader{R: src}
		for i, x := range fs {
			var v uint64
			if f.call(c, "ReadBits64", func() (err error) { v, err = b.ReadBits64(x.n); return }) != nil {
				return
			}
			if v != x.v {
				c.Failf("field %d: %x, written %x", i, v, x.v)
			}
		}
	})
	eachFault(c, []string{"read"}, 100, func(f *opFault) {
		src := &faultFile{f: f}
		src.b = whole
		b := &bits.Reader{R: src}
		p := make([]byte, len(whole))
		f.call(c, "Read", func() error { _, err := io.ReadFull(b, p); return err })
	})
	eachFault(c, []string{"write"}, 100, func(f *opFault) {
		file := &faultFile{f: f}
		w := &bits.Writer{W: file}
		if f.call(c, "Write", func() error { _, err := w.Write(whole); return err }) == nil {
			f.call(c, "FlushBits", w.FlushBits)
		}
	})
	cfg := aac.MPEG4AudioConfig{ObjectType: uint(1 + r.Intn(60)), SampleRateIndex: uint(1 + r.Intn(12)), ChannelConfig: uint(1 + r.Intn(7))}
	eachFault(c, []string{"write"}, 100, func(f *opFault) {
		f.call(c, "WriteMPEG4AudioConfig", func() error { return aac.WriteMPEG4AudioConfig(&faultFile{f: f}, cfg) })
	})
	tag := flvio.Tag{Type: 8, SoundFormat: flvio.SOUND_AAC, Data: genBytes(r, r.Intn(300))}
	var one []byte
	eachFault(c, []string{"write"}, 100, func(f *opFault) {
		file := &faultFile{f: f}
		if f.call(c, "flvio.WriteTag", func() error { return flvio.WriteTag(file, tag, make([]byte, 256)) }) == nil {
			one = file.b
		}
	})
	eachFault(c, []string{"read"}, 100, func(f *opFault) {
		src := &faultFile{f: f}
		src.b = one
		f.call(c, "flvio.ReadTag", func() error {
			_, err := flvio.ReadTag(src, make([]byte, 256), func(n int) ([]byte, error) { return make([]byte, n), nil })
			return err
		})
	})
}

// faultConn is a connection whose operations may fail.
type faultConn struct {
	*memConn
	f *opFault
}

func (m *faultConn) Write(p []byte) (int, error) {
	if err := m.f.op("write"); err != nil {
		n := 0
		if m.f.part > 0 {
			n, _ = m.memConn.Write(p[:len(p)/m.f.part])
		}
		return n, err
	}
	return m.memConn.Write(p)
}

func (m *faultConn) Read(p []byte) (int, error) {
	if err := m.f.op("read"); err != nil {
		return 0, err
	}
	return m.memConn.Read(p)
}

// faultRW is the same without a buffer for what is written.
type faultRW struct {
	*faultConn
	buf *bufio.Writer
}

func (m *faultRW) Write(p []byte) (int, error) {
	if m.buf != nil {
		return m.buf.Write(p)
	}
	return m.faultConn.Write(p)
}

func (m *faultRW) Flush() error {
	if err := m.f.op("flush"); err != nil {
		return err
	}
	if m.buf != nil {
		return m.buf.Flush()
	}
	return nil
}

// faultRTMP runs a library pair one side of which has a failing connection.
func faultRTMP(c *C) {
	r := c.R
	onServer, publish := r.Intn(2) == 0, r.Intn(2) == 0
	rawTags := r.Intn(2) == 0
	buffered := r.Intn(3) == 0
	reject := r.Intn(6) == 0
	access := r.Intn(2) == 0
	writing := publish != onServer
	var order []av.Packet
	var last int64
	for i := 0; i < r.Intn(8); i++ {
		size := r.Intn(3000)
		if r.Intn(12) == 0 { // in several chunks
			size = 65000 + r.Intn(150000)
		}
		order = append(order, genPacket(r, i, &last, size))
	}
	seed := r.Int63()
	mode := []int{0, 0, 2}[r.Intn(3)]
	acks := r.Intn(2) == 0
	u := mustURL("rtmp://host:1935/app/stream?a=b")
	c.Desc("server=%v publish=%v tags=%v buffered=%v reject=%v n=%d mode=%d", onServer, publish, rawTags, buffered, reject, len(order), mode)
	kinds := []string{"write", "flush", "read"}
	if onServer {
		kinds = []string{"write", "read"}
	}
	eachFault(c, kinds, 60, func(f *opFault) {
		a, b := memPipe(rand.New(rand.NewSource(seed)), 0, mode)
		a.Linger()
		b.Linger()
		// the side that fails has a
		fc := &faultConn{memConn: a, f: f}
		g := &gotTags{}
		var got []av.Packet
		sent, ended := 0, false
		var negotiated bool
		setup := func(rc *rtmp.Conn) {
			rc.SendSampleAccess = access
		}
		// the failing side once there is a connection
		drive := func(rc *rtmp.Conn) {
			negotiated = true
			gone := func() bool { return f.hit() > 0 }
			if !writing {
				if reject {
					rc.PubPlayErr = errors.New("no")
					f.call(c, "Prepare", func() error { return rc.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading) })
					return
				}
				for {
					var p av.Packet
					err := f.call(c, "ReadPacket", func() (err error) { p, err = rc.ReadPacket(); return })
					if err != nil {
						if err == io.EOF && gone() {
							c.Failf("the session that failed ended as if the peer had closed")
						}
						ended = true
						return
					}
					got = append(got, p)
				}
			}
			// from here on another goroutine reads: only writes are the calls' own
			call := f.call
			if f.kind == "read" {
				call = func(c *C, what string, fn func() error) error { return fn() }
			}
			if reject {
				rc.PubPlayErr = errors.New("no")
				call(c, "Prepare", func() error { return rc.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting) })
				return
			}
			if len(order) == 0 || rawTags {
				if call(c, "Prepare", func() error { return rc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting) }) != nil {
					return
				}
			}
			for _, p := range order {
				p := p
				write := func() error { return rc.WritePacket(p) }
				if rawTags {
					write = func() error { return flv.WritePacket(p, rc.WriteTag, publish) }
				}
				if err := call(c, "write", write); err != nil {
					if !gone() {
						c.Failf("write: %v", err)
					}
					return
				}
				sent++
			}
			a.CloseWrite()
			if f.kind == "read" && gone() {
				select {
				case <-rc.CloseNotify():
				case <-time.After(time.Hour):
					c.Failf("reading failed and the close notification never came")
				}
			} else {
				select {
				case <-rc.CloseNotify():
				case <-time.After(time.Hour):
				}
			}
		}
		c.Bubble(func() {
			var wg sync.WaitGroup
			// the good side
			far := func(rc *rtmp.Conn, nc *memConn) {
				defer nc.Close()
				if writing {
					g.readLoop(rc, false, nil)
					return
				}
				if rc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting) != nil {
					return
				}
				for i, p := range order {
					if err := rc.WritePacket(p); err != nil {
						return
					}
					if acks && i == 0 {
						time.Sleep(time.Second)
					}
				}
				nc.CloseWrite()
				select {
				case <-rc.CloseNotify():
				case <-time.After(time.Hour):
				}
			}
			events := []int{}
			if onServer {
				srv := rtmp.NewServer()
				srv.OnNewConn = setup
				srv.LogEvent = func(rc *rtmp.Conn, nc net.Conn, e int) { events = append(events, e) }
				srv.HandleConn = func(rc *rtmp.Conn, nc net.Conn) {
					if f.hit() > 0 && !(writing && f.kind == "read") {
						c.Failf("the connection was handed over although %s %d of its negotiation had failed", f.kind, f.at)
					}
					drive(rc)
					nc.Close()
				}
				c.Go(&wg, func() {
					srv.HandleNetConn(fc)
					if !a.isClosed() {
						c.Failf("the connection is left open")
					}
				})
				c.Go(&wg, func() {
					flags := rtmp.PrepareReading
					if publish {
						flags = rtmp.PrepareWriting
					}
					cc, err := rtmp.NewClient().FromNetConn(b, u, flags)
					if err != nil {
						if f.hit() == 0 && !reject {
							c.Failf("client: %v", err)
						}
						b.Close()
						return
					}
					far(cc, b)
				})
			} else {
				srv := rtmp.NewServer()
				srv.OnNewConn = setup
				srv.HandleConn = func(rc *rtmp.Conn, nc net.Conn) { far(rc, b) }
				c.Go(&wg, func() { srv.HandleNetConn(b); b.Close() })
				c.Go(&wg, func() {
					defer a.Close()
					rw := &faultRW{faultConn: fc}
					if buffered {
						rw.buf = bufio.NewWriterSize(fc, 64+int(seed%4000))
					}
					cc := rtmp.NewConn(rw)
					cc.URL = u
					flags := rtmp.PrepareReading
					if publish {
						flags = rtmp.PrepareWriting
					}
					before := f.hit()
					err := cc.Prepare(rtmp.StageGotPublishOrPlayCommand, flags)
					if hit := f.hit() > before; hit && err == nil && !(publish && f.kind == "read") {
						c.Failf("the negotiation succeeded although %s %d of it failed", f.kind, f.at)
					} else if err == io.EOF && hit {
						c.Failf("the negotiation took the failure of %s %d (%v) for the end", f.kind, f.at, f.err)
					}
					if err != nil {
						if f.hit() == 0 {
							c.Failf("client: %v", err)
						}
						return
					}
					if reject {
						return
					}
					drive(cc)
				})
			}
			wg.Wait()
			if onServer {
				want := fmt.Sprint([]int{rtmp.EventConnConnected})
				if !negotiated {
					want = fmt.Sprint([]int{rtmp.EventConnConnected, rtmp.EventHandshakeFailed})
				}
				if fmt.Sprint(events) != want {
					c.Failf("events %v, negotiated %v", names(events), negotiated)
				}
			}
		})
		if f.hit() > 0 {
			if negotiated {
				c.Count("faults in media", 1)
			} else {
				c.Count("faults in negotiation", 1)
			}
		}
		if reject {
			return
		}
		var want []av.Packet
		for _, p := range order {
			want = append(want, wantRead(p))
		}
		if writing {
			if g.pkts != nil && len(g.pkts) > len(want) {
				c.Failf("%d packets arrived, %d written", len(g.pkts), len(want))
			}
			checkPackets(c, "at the peer", g.pkts, want[:len(g.pkts)])
			if len(g.pkts) < sent {
				c.Failf("%d packets written without an error, %d arrived", sent, len(g.pkts))
			}
		} else {
			if len(got) > len(want) {
				c.Failf("%d packets, %d sent", len(got), len(want))
			}
			checkPackets(c, "before the fault", got, want[:len(got)])
			if f.hit() == 0 && len(got) < len(want) {
				c.Failf("no fault, %d of %d packets", len(got), len(want))
			}
			if negotiated && !ended {
				c.Failf("reading did not end")
			}
		}
	})
	c.State("rtmp", onServer, publish, rawTags, buffered, reject)
}

// faultAnswers has a raw peer ask a reading session for answers.
func faultAnswers(c *C) {
	r := c.R
	asServer := r.Intn(2) == 0
	raw := !asServer && r.Intn(2) == 0
	seed := r.Int63()
	win := uint32(100 + r.Intn(2000))
	var order []av.Packet
	var last int64
	n := 1 + r.Intn(8)
	for i := 0; i < n; i++ {
		order = append(order, av.Packet{Type: av.AAC, Time: time.Duration(last) * time.Millisecond, Data: genBytes(r, 1+r.Intn(1500))})
		last += int64(r.Intn(50))
	}
	c.Desc("server=%v unbuffered=%v window %d n=%d", asServer, raw, win, n)
	eachFault(c, []string{"write", "read", "flush"}, 60, func(f *opFault) {
		rr := rand.New(rand.NewSource(seed))
		a, b := memPipe(rr, 0, 0)
		a.Linger()
		b.Linger()
		fc := &faultConn{memConn: a, f: f}
		p := newPeer(rr, b)
		o := basicOpts(rr, asServer)
		var got []av.Packet
		answers, done := 0, false
		c.Bubble(func() {
			var wg sync.WaitGroup
			read := func(rc *rtmp.Conn, nc net.Conn) {
				defer nc.Close()
				for {
					var p av.Packet
					err := f.call(c, "ReadPacket", func() (err error) { p, err = rc.ReadPacket(); return })
					if err != nil {
						if err == io.EOF && f.hit() > 0 {
							c.Failf("the session that failed ended as if the peer had closed")
						}
						done = true
						return
					}
					got = append(got, p)
				}
			}
			if asServer {
				srv := rtmp.NewServer()
				srv.HandleConn = read
				c.Go(&wg, func() { srv.HandleNetConn(fc) })
			} else {
				c.Go(&wg, func() {
					var cc *rtmp.Conn
					var err error
					if raw {
						cc = rtmp.NewConn(&faultRW{faultConn: fc})
						cc.URL = mustURL("rtmp://h:1935/live/room")
						err = cc.Prepare(rtmp.StageGotPublishOrPlayCommand, rtmp.PrepareReading)
					} else {
						cc, err = rtmp.NewClient().FromNetConn(fc, mustURL("rtmp://h:1935/live/room"), rtmp.PrepareReading)
					}
					if err != nil {
						if f.hit() == 0 {
							c.Failf("client: %v", err)
						}
						a.Close()
						return
					}
					if f.hit() > 0 {
						c.Failf("the negotiation succeeded although %s %d of it failed", f.kind, f.at)
					}
					read(cc, a)
				})
			}
			var err error
			if asServer {
				err = p.rawConnect(o)
			} else {
				err = p.rawAccept(o)
			}
			if err == nil {
				c.Go(&wg, func() {
					p.drain(func(m rMsg) {
						if m.typ == 3 || m.typ == 4 && len(m.data) > 1 && m.data[1] == 7 {
							answers++
						}
					})
				})
				sid := o.sid
				if asServer {
					sid = 1
				}
				p.w.put(2, rMsg{typ: 5, data: be32(win)})
				for i, q := range order {
					if i%2 == 1 {
						p.w.put(2, rMsg{typ: 4, data: append([]byte{0, 6}, be32(uint32(i))...)})
					}
					p.w.put(4, rMsg{typ: 8, sid: sid, ts: uint32(q.Time / time.Millisecond), data: append([]byte{0xaf, 1}, q.Data...)})
					p.flush()
					time.Sleep(time.Second)
				}
				time.Sleep(time.Minute)
			} else if f.hit() == 0 {
				c.Failf("peer: %v", err)
			}
			b.Close()
			wg.Wait()
		})
		if f.hit() == 0 {
			if len(got) != n || !done {
				c.Failf("no fault, %d of %d packets", len(got), n)
			}
			c.Count("answers", answers)
		} else if done {
			c.Count("faults in media", 1)
		}
		if len(got) > n {
			c.Failf("%d packets, %d sent", len(got), n)
		}
		checkPackets(c, "before the fault", got, order[:len(got)])
	})
}

// faultTool lets the converter write to a device that takes nothing.
func faultTool(c *C) {
	r := c.R
	dir, rm := c.scratch()
	defer rm()
	var src bytes.Buffer
	m := flv.NewMuxer(discardStreams{&src})
	n := 1 + r.Intn(30)
	for _, p := range genPackets(c, n, 4000) {
		if err := m.WritePacket(p); err != nil {
			c.Failf("write: %v", err)
		}
	}
	in, out := filepath.Join(dir, "a.flv"), filepath.Join(dir, "b.flv")
	if err := os.WriteFile(in, src.Bytes(), 0644); err != nil {
		c.Failf("harness: %v", err)
	}
	if err := os.Symlink("/dev/full", out); err != nil {
		c.Failf("harness: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VH_AVTOOL"), "conv", in, out)
	cmd.Dir = dir
	msg, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		c.Failf("conv to a full device did not end")
	}
	if err == nil {
		c.Failf("conv of %d packets to a full device succeeded: %s", n, head(string(msg), 300))
	}
	if bytes.Contains(msg, []byte("panic:")) {
		c.Failf("conv to a full device: %s", head(string(msg), 600))
	}
	c.Count("full devices", 1)
	c.Nontrivial("full", c.Idx)
}

func runC30(x *Ctx) {
	x.Each("mp4 muxer", x.N(1000, 30000), faultMP4Mux)
	x.Each("mp4 demuxer", x.N(1000, 30000), faultMP4Demux)
	x.Each("flv", x.N(1000, 30000), faultFLV)
	x.Each("bits", x.N(800, 20000), faultBits)
	x.Each("rtmp", x.N(2000, 40000), faultRTMP)
	x.Each("answers", x.N(800, 20000), faultAnswers)
	x.Each("tool", x.N(30, 300), faultTool)
}
