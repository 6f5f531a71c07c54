package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/url"
	"sync"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"
)

func init() {
	register(&propDef{id: "C01", mul: 5,
		rule: "library client and library server run a session over an in-memory transport that splits, delays and back-pressures the bytes, in virtual time; every packet or tag read is compared with the one written, after many writes the session is left alone and the packet must have arrived, and everything must have arrived after the writer closes. Non-trivial = at least 3 packets delivered; distinct by workload",
		must: []string{"packets", "tags", "publish sessions", "play sessions", "settled checks", "closes", "bytes in large messages", "loopback packets", "ext timestamps", "long sessions"},
		run:  runC01})
	register(&propDef{id: "C02", mul: 5,
		rule: "an independent chunk writer plays a conforming peer (publisher or server) using every header type, basic header form, chunk size, interleaving, extended timestamp form and aggregates; the tags the session returns are compared with the messages sent, in completion order. Non-trivial = at least 3 messages of which one is split; distinct by byte stream",
		must: []string{"tags", "type 1 headers", "type 2 headers", "type 3 message starts", "3-byte chunk stream ids", "continuation chunks", "extended timestamps", "extended deltas", "unrepeated extended timestamps", "interleaved messages", "aggregates", "empty media messages", "chunk size changes"},
		run:  runC02})
	register(&propDef{id: "C03", mul: 5,
		rule: "all bytes written by library sessions of all four roles are captured and decoded by an independent strict chunk decoder; commands, controls and media are compared with what the session was asked to write. Non-trivial = at least 3 media messages decoded; distinct by capture",
		must: []string{"media messages", "split messages", "extended timestamps", "commands", "controls", "chunk multiples", "large messages", "packets beyond 16 MB"},
		run:  runC03})
	register(&propDef{id: "C04", mul: 5,
		rule: "independent handshake peers (plain, digest layout 0 and 1, extreme digest offsets, one-bit-off digests, wrong versions) run against the library's client and server over splitting transports. Non-trivial = every case; distinct by C1/S1",
		must: []string{"server plain", "server digest layout 0", "server digest layout 1", "client plain", "client digest layout 0", "client digest layout 1", "near-miss digests", "wrong versions", "library pairs", "truncated"},
		run:  runC04})
}

// splitLike cuts b into transport writes.
func writePieces(r *rand.Rand, w io.Writer, b []byte) error {
	mode := r.Intn(4)
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0:
			n = 1 + r.Intn(7)
		case 1, 2:
			n = 1 + r.Intn(1+r.Intn(5000))
		}
		if mode == 0 && len(b) > 2000 {
			n = 1 + r.Intn(300)
		}
		if n > len(b) {
			n = len(b)
		}
		if _, err := w.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

// got collects what a reading goroutine received.
type gotTags struct {
	mu   sync.Mutex
	pkts []av.Packet
	tags []flvio.Tag
	err  error
	done bool
}

func (g *gotTags) n() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return len(g.pkts) + len(g.tags)
}

func (g *gotTags) fin() (bool, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.done, g.err
}

// readLoop reads until an error.
func (g *gotTags) readLoop(rc *rtmp.Conn, tags bool, pause func()) {
	var err error
	defer func() {
		g.mu.Lock()
		g.err, g.done = err, true
		g.mu.Unlock()
	}()
	if tags {
		if err = rc.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); err != nil {
			return
		}
	}
	for {
		if tags {
			var t flvio.Tag
			if t, err = rc.ReadTag(); err != nil {
				return
			}
			g.mu.Lock()
			g.tags = append(g.tags, t)
			g.mu.Unlock()
		} else {
			var p av.Packet
			if p, err = rc.ReadPacket(); err != nil {
				return
			}
			g.mu.Lock()
			g.pkts = append(g.pkts, p)
			g.mu.Unlock()
		}
		if pause != nil {
			pause()
		}
	}
}

// libSession runs a library-to-library session: write is called with the
// writing side's connection once established, g receives on the other side.
// It returns after both sides ended.
func libSession(c *C, u *url.URL, publish, tags bool, mode, capacity int, g *gotTags, pause func(), setup func(cl, sv *memConn), write func(wc *rtmp.Conn, nc *memConn)) {
	a, b := memPipe(c.R, capacity, mode)
	// an acknowledgement written to a side that has closed does not fail
	a.Linger()
	if setup != nil {
		setup(a, b)
	}
	var wg sync.WaitGroup
	srv := rtmp.NewServer()
	ch := make(chan *rtmp.Conn, 1)
	srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
		if sc.Publishing != publish {
			c.Failf("server role publishing=%v", sc.Publishing)
		}
		if publish {
			g.readLoop(sc, tags, pause)
			nc.Close()
		} else {
			ch <- sc
		}
	}
	srv.LogEvent = func(sc *rtmp.Conn, nc net.Conn, e int) {
		if e == rtmp.EventHandshakeFailed {
			c.Failf("server: handshake failed")
		}
	}
	c.Go(&wg, func() { srv.HandleNetConn(b) })
	cl := rtmp.NewClient()
	if publish {
		cc, err := cl.FromNetConn(a, u, rtmp.PrepareWriting)
		if err != nil {
			c.Failf("client: %v", err)
		}
		write(cc, a)
	} else {
		c.Go(&wg, func() {
			cc, err := cl.FromNetConn(a, u, rtmp.PrepareReading)
			if err != nil {
				c.Failf("client: %v", err)
			}
			g.readLoop(cc, tags, pause)
			a.Close()
		})
		write(<-ch, b)
	}
	wg.Wait()
}

func rtmpSize(r *rand.Rand) int {
	switch r.Intn(14) {
	case 0:
		return []int{65536*1 - 5, 65536*2 - 5, 65536*1 - 2, 65536 * 3, 65531 + 65536, 65536 - 1, 131072 - 6}[r.Intn(7)] + r.Intn(3) - 1
	case 1:
		return r.Intn(200000)
	}
	return genSize(r)
}

func runC01(x *Ctx) {
	run := func(c *C, big, long bool) {
		r := c.R
		n := 1 + r.Intn(30)
		tagMode := r.Intn(3) == 0
		publish := r.Intn(2) == 0
		mode := r.Intn(4)
		capacity := []int{0, 0, 100, 5000, 70000}[r.Intn(5)]
		var pkts []av.Packet
		var tags []flvio.Tag
		var last int64
		if r.Intn(4) == 0 {
			last = 0xffffff - int64(r.Intn(100))
		}
		if big {
			n = 1 + r.Intn(3)
			if mode == 1 {
				mode = 2
			}
			if capacity == 100 {
				capacity = 70000
			}
		}
		total := 0
		if long {
			n = 1000 + r.Intn(2000)
			mode = []int{0, 2, 3}[r.Intn(3)]
			tagMode = r.Intn(4) == 0
			c.Count("long sessions", 1)
		}
		for i := 0; i < n; i++ {
			size := rtmpSize(r)
			if long {
				size = r.Intn(200)
			}
			if mode == 1 || capacity == 100 {
				size = r.Intn(r.Intn(3000) + 1)
			}
			if big {
				size = []int{4*1024*1024 - 5, 4*1024*1024 - 6, 1 << 20, 3 << 20, 65536*17 - 5}[r.Intn(5)] - r.Intn(2)*r.Intn(100)
			}
			total += size
			if tagMode {
				tags = append(tags, genTag(r, size, &last))
				if last >= 0xffffff {
					c.Count("ext timestamps", 1)
				}
			} else {
				p := genPacket(r, i, &last, size)
				if last >= 0xffffff {
					c.Count("ext timestamps", 1)
				}
				if long && i%500 == 7 {
					p = av.Packet{Type: av.Metadata, Data: bigMeta(r), Time: p.Time}
				}
				pkts = append(pkts, p)
			}
		}
		if big {
			c.Count("bytes in large messages", total)
		}
		c.Desc("publish=%v tags=%v mode=%d cap=%d n=%d total=%d", publish, tagMode, mode, capacity, n, total)
		g := &gotTags{}
		check := func(k int) {
			g.mu.Lock()
			defer g.mu.Unlock()
			if tagMode {
				if len(g.tags) > k {
					c.Failf("%d tags read, %d written", len(g.tags), k)
				}
				for i, t := range g.tags {
					w := tags[i]
					if !tagsEqual(t, w) {
						c.Failf("tag %d: got %v (%d bytes), want %v (%d bytes)", i, t.DebugFields(), len(t.Data), w.DebugFields(), len(w.Data))
					}
				}
				return
			}
			if len(g.pkts) > k {
				c.Failf("%d packets read, %d written", len(g.pkts), k)
			}
			for i, p := range g.pkts {
				if d := pktDiff(p, wantRead(pkts[i])); d != "" {
					c.Failf("packet %d: %s", i, d)
				}
			}
		}
		slowReader := r.Intn(3) == 0
		pr := rand.New(rand.NewSource(r.Int63()))
		pause := func() {
			if slowReader && pr.Intn(3*(1+n/100)) == 0 {
				time.Sleep(time.Duration(pr.Intn(50)) * time.Millisecond)
			}
		}
		settle := r.Intn(3)
		c.Bubble(func() {
			libSession(c, mustURL("rtmp://host/app/stream"), publish, tagMode, mode, capacity, g, pause, nil, func(wc *rtmp.Conn, nc *memConn) {
				if tagMode {
					if err := wc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); err != nil {
						c.Failf("Prepare: %v", err)
					}
				}
				for i := 0; i < n; i++ {
					var err error
					if tagMode {
						err = wc.WriteTag(tags[i])
					} else {
						err = wc.WritePacket(pkts[i])
					}
					if err != nil {
						c.Failf("write %d: %v", i, err)
					}
					if settle > 0 && r.Intn(settle*4*(1+n/100)) == 0 {
						time.Sleep(time.Hour)
						if k := g.n(); k != i+1 {
							c.Failf("%d written, but only %d readable however long the reader waits", i+1, k)
						}
						c.Count("settled checks", 1)
					}
				}
				nc.Close()
				c.Count("closes", 1)
				time.Sleep(time.Hour)
				if k := g.n(); k != n {
					_, err := g.fin()
					c.Failf("%d written before close, %d read, then %v", n, k, err)
				}
				if done, err := g.fin(); !done || err == nil {
					c.Failf("reader still reading an hour after the writer closed (%v)", err)
				}
			})
			check(n)
		})
		if tagMode {
			c.Count("tags", n)
		} else {
			c.Count("packets", n)
		}
		if publish {
			c.Count("publish sessions", 1)
		} else {
			c.Count("play sessions", 1)
		}
		c.State("session shape", publish, tagMode, mode, capacity, slowReader)
		if n >= 3 || big {
			c.Nontrivial(publish, tagMode, mode, capacity, total, n)
		}
		c.Sample("publish=%v tags=%v transport mode %d, buffer %d: %d items, %d bytes", publish, tagMode, mode, capacity, n, total)
	}
	x.Each("sessions", x.N(2500, 60000), func(c *C) { run(c, false, false) })
	x.EachLim("large", x.N(30, 600), 4, defaultCaseLimit, func(c *C) { run(c, true, false) })
	x.EachLim("long", x.N(30, 400), 8, defaultCaseLimit, func(c *C) { run(c, false, true) })
	x.Each("loopback", x.N(30, 600), func(c *C) { loopbackRTMP(c) })
}

// loopbackRTMP runs a dialled session over a real loopback connection.
func loopbackRTMP(c *C) {
	r := c.R
	publish := r.Intn(2) == 0
	pkts := genPackets(c, 1+r.Intn(200), 100000)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.X.Note("no loopback: %v", err)
		return
	}
	defer ln.Close()
	srv := rtmp.NewServer()
	g := &gotTags{}
	done := make(chan error, 2)
	srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
		defer nc.Close()
		if publish {
			g.readLoop(sc, false, nil)
			done <- nil
			return
		}
		for _, p := range pkts {
			if err := sc.WritePacket(p); err != nil {
				done <- err
				return
			}
		}
		done <- nil
	}
	go func() {
		nc, err := ln.Accept()
		if err != nil {
			done <- err
			return
		}
		srv.HandleNetConn(nc)
	}()
	flags := rtmp.PrepareReading
	if publish {
		flags = rtmp.PrepareWriting
	}
	cc, nc, err := rtmp.NewClient().Dial("rtmp://"+ln.Addr().String()+"/app/s", flags)
	if err != nil {
		c.Failf("Dial: %v", err)
	}
	if publish {
		for _, p := range pkts {
			if err := cc.WritePacket(p); err != nil {
				c.Failf("WritePacket: %v", err)
			}
		}
		// closing outright could reset the connection when an
		// acknowledgement arrives for data still on its way
		nc.(*net.TCPConn).CloseWrite()
	} else {
		g.readLoop(cc, false, nil)
	}
	defer nc.Close()
	if err := <-done; err != nil {
		c.Failf("server: %v", err)
	}
	var want []av.Packet
	for _, p := range pkts {
		want = append(want, wantRead(p))
	}
	checkPackets(c, "loopback session", g.pkts, want)
	c.Count("loopback packets", len(pkts))
	c.Nontrivial("loopback", publish, len(pkts))
}

// ---------------------------------------------------------------- raw peers

// rPeer is an independent RTMP endpoint.
type rPeer struct {
	c   net.Conn
	r   *rand.Rand
	w   *rWriter
	rd  *rReader
	mu  sync.Mutex
	got []rMsg
	err error
	end bool
}

func newPeer(r *rand.Rand, c net.Conn) *rPeer {
	return &rPeer{c: c, r: r, w: newRWriter(r), rd: newRReader(c)}
}

// flush sends what the writer has encoded.
func (p *rPeer) flush() error { return writePieces(p.r, p.c, p.w.take()) }

// drain reads everything the library sends until the connection ends.
func (p *rPeer) drain(on func(m rMsg)) {
	for {
		m, err := p.rd.Next()
		p.mu.Lock()
		if err != nil {
			p.err, p.end = err, true
			p.mu.Unlock()
			return
		}
		p.got = append(p.got, m)
		p.mu.Unlock()
		if on != nil {
			on(m)
		}
	}
}

func (p *rPeer) msgs() []rMsg {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]rMsg(nil), p.got...)
}

// await reads messages until f accepts one.
func (p *rPeer) await(f func(m rMsg) bool) (rMsg, error) {
	for {
		m, err := p.rd.Next()
		if err != nil {
			return m, err
		}
		p.mu.Lock()
		p.got = append(p.got, m)
		p.mu.Unlock()
		if f(m) {
			return m, nil
		}
	}
}

func isCmd(m rMsg, want string, transid float64) bool {
	if m.typ != 20 && m.typ != 17 {
		return false
	}
	name, vs, err := rCommand(m)
	return err == nil && name == want && (transid < 0 || vs[1].f == transid)
}

func (p *rPeer) cmd(csid, sid uint32, vs ...*aVal) {
	p.w.put(csid, rMsg{typ: 20, sid: sid, data: cmdData(vs...)})
}

type rawOpts struct {
	layout    int // handshake
	publish   bool
	app       string
	stream    string
	tcURL     string
	pageURL   string
	flashVer  string
	lower     bool // lower-case keys
	amf3      bool // commands as AMF3 messages
	pipeline  bool // do not wait for answers
	inject    func(p *rPeer)
	noConnect bool
	sid       uint32
	csid      uint32
}

// rawConnect drives an independent client up to the publish or play request.
func (p *rPeer) rawConnect(o rawOpts) error {
	if err := rHandshakeClient(p.r, p.c, o.layout); err != nil {
		return fmt.Errorf("handshake: %w", err)
	}
	inj := func() {
		if o.inject != nil {
			o.inject(p)
		}
	}
	key := func(up, low string) string {
		if o.lower {
			return low
		}
		return up
	}
	put := func(csid, sid uint32, vs ...*aVal) {
		d := cmdData(vs...)
		t := uint8(20)
		if o.amf3 {
			t = 17
			d = append([]byte{0}, d...)
		}
		p.w.put(csid, rMsg{typ: t, sid: sid, data: d})
	}
	inj()
	kv := []interface{}{"app", aS(o.app), "tcUrl", aS(o.tcURL)}
	kv[2] = key("tcUrl", "tcurl")
	if o.flashVer != "" {
		kv = append(kv, key("flashVer", "flashver"), aS(o.flashVer))
	}
	if o.pageURL != "" {
		kv = append(kv, key("pageUrl", "pageurl"), aS(o.pageURL))
	}
	kv = append(kv, "objectEncoding", aN(float64(p.r.Intn(2)*3)), "fpad", &aVal{kind: aBool})
	p.cmd(3, 0, aS("connect"), aN(1), aO(kv...))
	inj()
	wait := func(name string, id float64) error {
		if o.pipeline {
			return nil
		}
		if err := p.flush(); err != nil {
			return err
		}
		_, err := p.await(func(m rMsg) bool { return isCmd(m, name, id) })
		return err
	}
	if err := wait("_result", 1); err != nil {
		return fmt.Errorf("connect: %w", err)
	}
	inj()
	if o.publish {
		put(3, 0, aS("releaseStream"), aN(2), aNil, aS(o.stream))
		put(3, 0, aS("FCPublish"), aN(3), aNil, aS(o.stream))
	}
	put(3, 0, aS("createStream"), aN(4), aNil)
	inj()
	if err := wait("_result", 4); err != nil {
		return fmt.Errorf("createStream: %w", err)
	}
	if o.publish {
		put(o.csid, 1, aS("publish"), aN(5), aNil, aS(o.stream), aS("live"))
	} else {
		put(o.csid, 1, aS("play"), aN(5), aNil, aS(o.stream))
	}
	return p.flush()
}

// rawAccept drives an independent server up to its last answer.
func (p *rPeer) rawAccept(o rawOpts) error {
	if err := rHandshakeServer(p.r, p.c, o.layout); err != nil {
		return fmt.Errorf("handshake: %w", err)
	}
	inj := func() {
		if o.inject != nil {
			o.inject(p)
		}
	}
	inj()
	m, err := p.await(func(m rMsg) bool { return isCmd(m, "connect", -1) })
	if err != nil {
		return err
	}
	_, vs, _ := rCommand(m)
	inj()
	p.w.put(2, rMsg{typ: 5, data: be32(2500000)})
	p.w.put(2, rMsg{typ: 6, data: append(be32(2500000), 2)})
	p.cmd(3, 0, aS("_result"), vs[1], aO("fmsVer", aS("FMS/3,0,1,123")), aO("level", aS("status"), "code", aS("NetConnection.Connect.Success")))
	inj()
	if err := p.flush(); err != nil {
		return err
	}
	if m, err = p.await(func(m rMsg) bool { return isCmd(m, "createStream", -1) }); err != nil {
		return err
	}
	_, vs, _ = rCommand(m)
	inj()
	if o.publish { // some servers answer releaseStream and FCPublish, too
		switch p.r.Intn(4) {
		case 0:
			p.cmd(3, 0, aS("_result"), aN(2), aNil)
			p.cmd(3, 0, aS("_result"), aN(3), aNil)
		case 1:
			p.cmd(3, 0, aS("_result"), aN(2), aNil, aNil)
			p.cmd(3, 0, aS("onFCPublish"), aN(0), aNil, aO("code", aS("NetStream.Publish.Start")))
			p.cmd(3, 0, aS("_result"), aN(3), aNil, aNil)
		}
	}
	p.cmd(3, 0, aS("_result"), vs[1], aNil, aN(float64(o.sid)))
	inj()
	if err := p.flush(); err != nil {
		return err
	}
	name := "play"
	if o.publish {
		name = "publish"
	}
	if m, err = p.await(func(m rMsg) bool { return isCmd(m, name, -1) }); err != nil {
		return err
	}
	if m.sid != o.sid {
		return fmt.Errorf("%s on message stream %d, createStream returned %d", name, m.sid, o.sid)
	}
	inj()
	if !o.publish {
		p.w.put(2, rMsg{typ: 4, data: append([]byte{0, 0}, be32(o.sid)...)})
	}
	code := "NetStream.Play.Start"
	if o.publish {
		code = "NetStream.Publish.Start"
	}
	p.cmd(5, o.sid, aS("onStatus"), aN(0), aNil, aO("level", aS("status"), "code", aS(code), "description", aS("ok")))
	inj()
	return p.flush()
}

// ---------------------------------------------------------------- chunk sessions

// rBody encodes a tag's message body independently.
func rBody(t flvio.Tag) (b []byte) {
	switch t.Type {
	case 8:
		b = append(b, t.SoundFormat<<4|t.SoundRate<<2|t.SoundSize<<1|t.SoundType)
		if t.SoundFormat == 10 {
			b = append(b, t.AACPacketType)
		}
	case 9:
		b = append(b, t.FrameType<<4|t.VideoFormat)
		if t.VideoFormat == 7 || t.VideoFormat == flvio.VIDEO_H265 {
			v := uint32(t.CTime)
			b = append(b, t.AVCPacketType, byte(v>>16), byte(v>>8), byte(v))
		}
	}
	return append(b, t.Data...)
}

type evKind int

const (
	evTag evKind = iota
	evPing
	evWindow
	evClaim
	evOther
)

type rEvent struct {
	kind evKind
	tags []flvio.Tag
	ts   uint32 // ping, window
	typ  uint8
	data []byte
}

type chunkStats struct {
	empty                           int
	inter, agg, chunkChanges, unrep int
}

type chunkGen struct {
	w         *rWriter
	r         *rand.Rand
	csids     []uint32
	sid       uint32
	last      int64
	events    []rEvent
	pend      map[uint32]*rEvent
	msgs      map[uint32]*rMsg
	stats     chunkStats
	control   int // out of 10: share of control messages
	claims    bool
	maxSize   int
	windows   bool
	lastStart uint32
}

func newChunkGen(r *rand.Rand, w *rWriter, sid uint32) *chunkGen {
	g := &chunkGen{w: w, r: r, sid: sid, pend: map[uint32]*rEvent{}, msgs: map[uint32]*rMsg{}, control: 2, maxSize: 3000}
	// at most 16 chunk streams, of which the handshake phase used 2, 3 and one more
	seen := map[uint32]bool{2: true}
	n := 1 + r.Intn(8)
	if r.Intn(6) == 0 { // as many as there may be
		for cs := range w.st {
			seen[cs] = true
		}
		n = 1000
	}
	for i := 0; i < n && len(seen) < 16; i++ {
		cs := uint32(3 + r.Intn(61))
		switch r.Intn(4) {
		case 0:
			cs = uint32(64 + r.Intn(256))
		case 1:
			cs = []uint32{63, 64, 65, 319, 320, 321, 64 + 255, 64 + 256, 64 + 0xff00, 64 + 0x0100, 65599, 65598}[r.Intn(12)]
		case 2:
			cs = uint32(64 + r.Intn(65536))
		}
		if !seen[cs] {
			seen[cs] = true
			g.csids = append(g.csids, cs)
		}
	}
	return g
}

func (g *chunkGen) size() int {
	switch g.r.Intn(6) {
	case 0:
		return []int{0, 1, 2, 3, 4, 127, 128, 129, 130, 131, 132, 256, 260}[g.r.Intn(13)]
	case 1:
		return g.r.Intn(g.maxSize)
	}
	return g.r.Intn(300)
}

func (g *chunkGen) newMsg(csid uint32) (m rMsg, ev rEvent) {
	r := g.r
	if csid == 2 || r.Intn(10) < g.control {
		m.csid = csid
		sid := uint32(0)
		switch k := r.Intn(8); {
		case k < 2 && csid == 2:
			n := []int{1, 2, 3, 127, 128, 129, 4096, 65536, 0xffffff, 0x7fffffff, 1 + r.Intn(500), 1 + r.Intn(500), 1<<uint(r.Intn(31)) + r.Intn(3), 1 + r.Intn(0x7fffffff)}[r.Intn(14)]
			m = rMsg{typ: 1, data: be32(uint32(n))}
			ev.kind = evOther
			g.stats.chunkChanges++
		case k == 2 && csid == 2 && g.windows:
			n := uint32([]int{1, 100, 1000, 5000, 2500000, 1 + r.Intn(20000)}[r.Intn(6)])
			m = rMsg{typ: 5, data: be32(n)}
			ev = rEvent{kind: evWindow, ts: n}
		case k < 5 && csid == 2:
			ts := r.Uint32()
			m = rMsg{typ: 4, data: append([]byte{0, 6}, be32(ts)...)}
			ev = rEvent{kind: evPing, ts: ts}
		case k == 5 && csid == 2: // other user control events
			t := []byte{0, 1, 2, 4, 7, 31, 32}[r.Intn(7)]
			m = rMsg{typ: 4, data: append([]byte{0, t}, be32(r.Uint32())...)}
			ev.kind = evOther
		case k == 6 && csid == 2:
			if r.Intn(2) == 0 {
				m = rMsg{typ: 6, data: append(be32(2500000), byte(r.Intn(3)))}
			} else {
				m = rMsg{typ: 3, data: be32(r.Uint32())}
			}
			ev = rEvent{kind: evClaim, typ: m.typ, data: m.data}
		case csid == 2:
			m = rMsg{typ: 4, data: []byte{0, 1, 0, 0, 0, 1}}
			ev.kind = evOther
		default: // commands and messages a media reader does not know
			sid = g.sid
			switch r.Intn(4) {
			case 3: // media messages too short to be media, as sent for silence
				m = rMsg{typ: []uint8{8, 9}[r.Intn(2)]}
				if r.Intn(3) == 0 {
					m.data = [][]byte{{0xaf}, {0x17}, {0x17, 1}, {0x27, 1, 0}}[r.Intn(4)]
					m.typ = 9
					if len(m.data) == 1 && m.data[0] == 0xaf {
						m.typ = 8
					}
				}
				g.stats.empty++
			case 0:
				m = rMsg{typ: 20, data: cmdData(aS([]string{"onBWDone", "onFCPublish", "FCSubscribe", "_checkbw"}[r.Intn(4)]), aN(0), aNil)}
			case 1:
				m = rMsg{typ: 17, data: append([]byte{0}, cmdData(aS("onBWDone"), aN(0), aNil)...)}
			case 2:
				m = rMsg{typ: []uint8{16, 19, 7, 40, 200}[r.Intn(5)], data: genBytes(r, r.Intn(200))}
			}
			ev = rEvent{kind: evClaim, typ: m.typ, data: m.data}
		}
		m.sid = sid
		if r.Intn(3) == 0 {
			m.ts = uint32(g.last)
		}
		return
	}
	if r.Intn(8) == 0 { // aggregate
		g.stats.agg++
		n := 1 + r.Intn(5)
		var first uint32
		var b []byte
		t0 := int64(r.Intn(100000))
		if r.Intn(3) == 0 {
			t0 = 0xffffff - int64(r.Intn(30))
		}
		m.ts = uint32(genTimeMs(r, g.last))
		for i := 0; i < n; i++ {
			t := genTag(r, g.size(), &g.last)
			ts := uint32(t0)
			switch r.Intn(10) {
			default:
				t0 += int64(r.Intn(60))
			case 0: // audio a little behind the video
				t0 -= int64(r.Intn(40))
			case 1:
				t0 += int64(r.Intn(1 << 25))
			}
			if t0 < 0 {
				t0 = 0
			}
			if i == 0 {
				first = ts
			}
			body := rBody(t)
			b = oAppendTag(b, t.Type, ts, g.sid&0xffffff, body, uint32(len(body)+11))
			t.Time = m.ts + ts - first
			ev.tags = append(ev.tags, t)
		}
		m.typ, m.sid, m.data = 22, g.sid, b
		return
	}
	t := genTag(r, g.size(), &g.last)
	if r.Intn(8) == 0 {
		t = flvio.Tag{Type: 15, Time: uint32(g.last), Data: genBytes(r, g.size())}
	}
	s := g.w.st[csid]
	if s != nil && s.have && r.Intn(2) == 0 { // favour deltas that repeat
		t.Time = s.ts + s.delta
		if r.Intn(2) == 0 && len(t.Data) > 0 && s.typ == t.Type && s.len > 5 {
			t.Data = genBytes(r, s.len-len(rBody(t))+len(t.Data))
		}
		g.last = int64(t.Time)
	}
	m = rMsg{typ: t.Type, sid: g.sid, ts: t.Time, data: rBody(t)}
	ev.tags = []flvio.Tag{t}
	return
}

// step writes one chunk.  It reports whether a message was completed.
func (g *chunkGen) step(mayStart bool) (completed bool) {
	r := g.r
	var idle, busy []uint32
	for _, cs := range append([]uint32{2}, g.csids...) {
		if g.w.busy(cs) {
			busy = append(busy, cs)
		} else {
			idle = append(idle, cs)
		}
	}
	if len(busy) > 0 && (!mayStart || len(idle) == 0 || r.Intn(3) != 0) {
		cs := busy[r.Intn(len(busy))]
		if g.w.st[cs].ext && !g.w.repeat {
			g.stats.unrep++
		}
		if g.w.next(cs) {
			g.complete(cs)
			return true
		}
		return false
	}
	if !mayStart || len(idle) == 0 {
		return false
	}
	cs := idle[r.Intn(len(idle))]
	if cs == 2 && r.Intn(10) >= g.control+1 {
		if len(idle) == 1 {
			return false
		}
		cs = idle[1+r.Intn(len(idle)-1)]
	}
	m, ev := g.newMsg(cs)
	if len(busy) > 0 {
		g.stats.inter++
	}
	mm := m
	g.pend[cs], g.msgs[cs] = &ev, &mm
	g.w.begin(cs, &mm)
	if !g.w.busy(cs) {
		g.complete(cs)
		return true
	}
	return false
}

func (g *chunkGen) complete(cs uint32) {
	ev, m := g.pend[cs], g.msgs[cs]
	delete(g.pend, cs)
	if m.typ == 1 {
		g.w.chunk = int(binary.BigEndian.Uint32(m.data))
	}
	g.events = append(g.events, *ev)
}

func (g *chunkGen) pending() bool { return len(g.pend) > 0 }

func (g *chunkGen) wantTags() (ts []flvio.Tag) {
	for _, e := range g.events {
		ts = append(ts, e.tags...)
	}
	return
}

// libReader starts a library session that reads media from a raw peer.
// asServer: the library is the server and the peer publishes.
func libReader(c *C, wg *sync.WaitGroup, asServer bool, nc *memConn, g *gotTags, tags bool, onConn func(rc *rtmp.Conn), pause func()) {
	if asServer {
		srv := rtmp.NewServer()
		srv.OnNewConn = onConn
		srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
			if !sc.Publishing {
				c.Failf("server role: not publishing")
			}
			g.readLoop(sc, tags, pause)
			nc.Close()
		}
		c.Go(wg, func() {
			srv.HandleNetConn(nc)
			g.mu.Lock()
			g.done = true
			g.mu.Unlock()
		})
		return
	}
	c.Go(wg, func() {
		cl := rtmp.NewClient()
		cc, err := cl.FromNetConn(nc, mustURL("rtmp://h:1935/live/room?x=1"), rtmp.PrepareReading)
		if err != nil {
			g.mu.Lock()
			g.err, g.done = err, true
			g.mu.Unlock()
			nc.Close()
			return
		}
		if onConn != nil {
			onConn(cc)
		}
		g.readLoop(cc, tags, pause)
		nc.Close()
	})
}

func basicOpts(r *rand.Rand, publish bool) rawOpts {
	return rawOpts{layout: r.Intn(3) - 1, publish: publish, app: "live", stream: "room?k=v", tcURL: "rtmp://h:1935/live", flashVer: "LNX 9", pipeline: r.Intn(2) == 0,
		sid: []uint32{1, 1, 1, 7, 0x01020304, 0x7fffffff}[r.Intn(6)], csid: 4}
}

func checkTags(c *C, got, want []flvio.Tag) {
	for i, t := range got {
		if i >= len(want) {
			c.Failf("%d tags read, %d sent; extra %v", len(got), len(want), t.DebugFields())
		}
		if !tagsEqual(t, want[i]) {
			c.Failf("tag %d of %d: got %v t=%d %d bytes %x, want %v t=%d %d bytes %x", i, len(want), t.DebugFields(), t.Time, len(t.Data), head(string(t.Data), 12), want[i].DebugFields(), want[i].Time, len(want[i].Data), head(string(want[i].Data), 12))
		}
	}
	if len(got) < len(want) {
		c.Failf("%d tags read, %d sent; missing %v t=%d %d bytes", len(got), len(want), want[len(got)].DebugFields(), want[len(got)].Time, len(want[len(got)].Data))
	}
}

func runC02(x *Ctx) {
	x.Each("streams", x.N(4000, 100000), func(c *C) {
		r := c.R
		asServer := r.Intn(2) == 0
		mode := r.Intn(4)
		a, b := memPipe(r, 0, mode)
		g := &gotTags{}
		p := newPeer(r, b)
		o := basicOpts(r, asServer)
		n := 3 + r.Intn(40)
		var cg *chunkGen
		c.Desc("asServer=%v mode=%d n=%d", asServer, mode, n)
		var sent []byte
		c.Bubble(func() {
			var wg sync.WaitGroup
			libReader(c, &wg, asServer, a, g, true, nil, nil)
			var err error
			if asServer {
				err = p.rawConnect(o)
			} else {
				err = p.rawAccept(o)
			}
			if err != nil {
				c.Failf("peer: %v", err)
			}
			c.Go(&wg, func() { p.drain(nil) })
			sid := o.sid
			if asServer {
				sid = 1
			}
			cg = newChunkGen(r, p.w, sid)
			cg.control = r.Intn(3)
			p.w.repeat = r.Intn(3) != 0
			if r.Intn(4) == 0 {
				cg.last = 0xffffff - int64(r.Intn(200))
			}
			done := 0
			for done < n || cg.pending() {
				if cg.step(done < n) {
					done++
				}
				if r.Intn(8) == 0 || len(p.w.out) > 1<<16 {
					out := p.w.take()
					sent = append(sent, out...)
					if err := writePieces(r, b, out); err != nil {
						c.Failf("session ended: %v (%v)", err, g.err)
					}
					if r.Intn(4) == 0 {
						time.Sleep(time.Minute)
						if k := len(cg.wantTags()); k != g.n() {
							_, err := g.fin()
							c.Failf("%d tags complete on the wire, %d returned (%v)", k, g.n(), err)
						}
					}
				}
			}
			out := p.w.take()
			sent = append(sent, out...)
			writePieces(r, b, out)
			time.Sleep(time.Minute)
			g.mu.Lock()
			checkTags(c, g.tags, cg.wantTags())
			g.mu.Unlock()
			if done, err := g.fin(); done {
				c.Failf("session ended: %v", err)
			}
			b.Close()
			wg.Wait()
			checkTags(c, g.tags, cg.wantTags())
		})
		if cg == nil {
			return
		}
		c.Count("tags", len(g.tags))
		c.Count("type 1 headers", p.w.fmts[1])
		c.Count("type 2 headers", p.w.fmts[2])
		c.Count("type 3 message starts", p.w.fmts[3])
		c.Count("2-byte chunk stream ids", p.w.forms[2])
		c.Count("3-byte chunk stream ids", p.w.forms[3])
		c.Count("continuation chunks", p.w.conts)
		c.Count("extended timestamps", p.w.ext)
		c.Count("extended deltas", p.w.deltaEx)
		c.Count("unrepeated extended timestamps", cg.stats.unrep)
		c.Count("interleaved messages", cg.stats.inter)
		c.Count("aggregates", cg.stats.agg)
		c.Count("empty media messages", cg.stats.empty)
		c.Count("chunk size changes", cg.stats.chunkChanges)
		c.State("shape", asServer, p.w.repeat, len(cg.csids), mode)
		if n >= 3 && p.w.conts > 0 {
			c.Nontrivial(string(sent))
		}
		c.Sample("asServer=%v: %d messages on %d chunk streams, %d bytes, header types %v, forms %v", asServer, len(cg.events), len(cg.csids), len(sent), p.w.fmts, p.w.forms[1:])
	})
	// large messages and chunk sizes
	x.EachLim("large", x.N(24, 400), 4, defaultCaseLimit, func(c *C) {
		r := c.R
		asServer := r.Intn(2) == 0
		a, b := memPipe(r, 1<<20, []int{0, 2}[r.Intn(2)])
		g := &gotTags{}
		p := newPeer(r, b)
		o := basicOpts(r, asServer)
		c.Bubble(func() {
			var wg sync.WaitGroup
			libReader(c, &wg, asServer, a, g, true, nil, nil)
			var err error
			if asServer {
				err = p.rawConnect(o)
			} else {
				err = p.rawAccept(o)
			}
			if err != nil {
				c.Failf("peer: %v", err)
			}
			c.Go(&wg, func() { p.drain(nil) })
			var want []flvio.Tag
			last := int64(0xffff00)
			for i := 0; i < 3; i++ {
				ch := []int{4096, 65536, 100000, 1 << 20, 0xffffff, 0x7fffffff}[r.Intn(6)]
				p.w.put(2, rMsg{typ: 1, data: be32(uint32(ch))})
				t := genTag(r, 1<<20+r.Intn(3<<20-10), &last)
				m := rMsg{typ: t.Type, sid: 1, ts: t.Time, data: rBody(t)}
				p.w.begin(uint32(4+r.Intn(3)), &m)
				for p.w.busy(m.csid) {
					p.w.next(m.csid)
				}
				want = append(want, t)
				if _, err := b.Write(p.w.take()); err != nil {
					c.Failf("session ended: %v", err)
				}
			}
			time.Sleep(time.Minute)
			g.mu.Lock()
			checkTags(c, g.tags, want)
			g.mu.Unlock()
			b.Close()
			wg.Wait()
			c.Count("tags", len(want))
			c.Nontrivial("large", len(want[0].Data), len(want[1].Data))
		})
	})
}

// ---------------------------------------------------------------- C03

func runC03(x *Ctx) {
	x.Each("captures", x.N(3000, 60000), func(c *C) {
		r := c.R
		publish := r.Intn(2) == 0
		var pkts []av.Packet
		var last int64
		if r.Intn(3) == 0 {
			last = 0xffffff - int64(r.Intn(100))
		}
		for i, n := 0, 1+r.Intn(20); i < n; i++ {
			size := rtmpSize(r)
			if r.Intn(4) == 0 {
				size = 65536*(1+r.Intn(3)) - r.Intn(6)
				c.Count("chunk multiples", 1)
			}
			pkts = append(pkts, genPacket(r, i, &last, size))
		}
		if r.Intn(60) == 0 {
			pkts = append(pkts, genPacket(r, 999, &last, 4<<20-5-r.Intn(2)))
			c.Count("large messages", 1)
		}
		path := "/app/stream"
		if r.Intn(2) == 0 {
			path = "/a" + genAscii2(r, 1+r.Intn(400)) + "/b" + genAscii2(r, r.Intn(400))
		}
		g := &gotTags{}
		var cl, sv *memConn
		c.Desc("publish=%v packets=%d", publish, len(pkts))
		c.Bubble(func() {
			libSession(c, mustURL("rtmp://host"+path), publish, false, r.Intn(3)&^1, 0, g, nil, func(a, b *memConn) {
				cl, sv = a, b
				a.Tap()
				b.Tap()
			}, func(wc *rtmp.Conn, nc *memConn) {
				for i, p := range pkts {
					if err := wc.WritePacket(p); err != nil {
						c.Failf("write %d: %v", i, err)
					}
				}
				nc.Close()
			})
			if !publish { // libSession closes the reading client itself
				sv.Close()
			}
		})
		if cl == nil {
			return
		}
		cms := c.capture("client", cl.Tapped())
		sms := c.capture("server", sv.Tapped())
		if publish {
			cms = c.expectCmds("client", cms, "connect", "createStream", "publish")
			rest := c.expectCmds("server", sms, "_result", "_result", "onStatus")
			c.noMedia("server", rest)
		} else {
			rest := c.expectCmds("client", cms, "connect", "createStream", "play")
			c.noMedia("client", rest)
			sms = c.expectCmds("server", sms, "_result", "_result", "onStatus")
			cms = sms
		}
		// the media messages
		k := 0
		for _, m := range cms {
			if m.typ != 8 && m.typ != 9 && m.typ != 18 && m.typ != 15 {
				continue
			}
			if k >= len(pkts) {
				c.Failf("extra media message %v", m)
			}
			if m.sid != 1 {
				c.Failf("media message on stream %d, want 1", m.sid)
			}
			if err := oTagMatches(m.typ, m.ts, m.data, pkts[k], publish); err != nil {
				c.Failf("packet %d %s: %v", k, pktStr(pkts[k]), err)
			}
			if len(m.data) > 65536 {
				c.Count("split messages", 1)
			}
			if m.ts >= 0xffffff {
				c.Count("extended timestamps", 1)
			}
			k++
		}
		if k != len(pkts) {
			c.Failf("%d media messages on the wire, %d packets written", k, len(pkts))
		}
		c.Count("media messages", k)
		if k >= 3 {
			c.Nontrivial(len(cl.Tapped()), len(sv.Tapped()), publish, k)
		}
		c.Sample("publish=%v: %d packets decoded from %d client and %d server bytes", publish, k, len(cl.Tapped()), len(sv.Tapped()))
	})
	// raw servers with their own stream ids
	x.Each("stream ids", x.N(300, 4000), func(c *C) {
		r := c.R
		a, b := memPipe(r, 0, r.Intn(4))
		a.Tap()
		p := newPeer(r, b)
		o := basicOpts(r, true)
		o.sid = []uint32{1, 2, 255, 256, 65536, 0x01020304, 0x7fffffff, r.Uint32() >> 1}[r.Intn(8)]
		var last int64
		var pkts []av.Packet
		for i := 0; i < 5; i++ {
			pkts = append(pkts, genPacket(r, i, &last, rtmpSize(r)))
		}
		refused := -1 // a packet that is too long for a message
		if c.Idx%30 == 7 {
			refused = r.Intn(len(pkts))
			over := r.Intn(3)
			big := av.Packet{Type: av.H264, Data: make([]byte, 1<<24-5+over)}
			if r.Intn(2) == 0 {
				big = av.Packet{Type: av.AAC, Data: make([]byte, 1<<24-2+over)}
			}
			if r.Intn(4) == 0 { // the longest that is not
				big.Data = big.Data[:len(big.Data)-over-1]
				pkts[refused] = big
				refused = -1
			} else {
				pkts = append(pkts[:refused], append([]av.Packet{big}, pkts[refused:]...)...)
			}
			c.Count("packets beyond 16 MB", 1)
		}
		c.Bubble(func() {
			var wg sync.WaitGroup
			c.Go(&wg, func() {
				cc, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h/live/room"), rtmp.PrepareWriting)
				if err != nil {
					c.Failf("client: %v", err)
				}
				for i, q := range pkts {
					err := cc.WritePacket(q)
					if i == refused {
						if err == nil {
							c.Failf("packet of %d bytes, which no message can hold: written without an error", len(q.Data))
						}
						continue
					}
					if err != nil {
						c.Failf("write: %v", err)
					}
				}
				a.Close()
			})
			if err := p.rawAccept(o); err != nil {
				c.Failf("peer: %v", err)
			}
			p.drain(nil)
			b.Close()
			wg.Wait()
		})
		if refused >= 0 {
			pkts = append(pkts[:refused:refused], pkts[refused+1:]...)
		}
		ms := c.capture("client", a.Tapped())
		k := 0
		for _, m := range ms {
			if m.typ == 8 || m.typ == 9 || m.typ == 18 {
				if m.sid != o.sid {
					c.Failf("media on stream %d, server announced %d", m.sid, o.sid)
				}
				if k >= len(pkts) {
					c.Failf("extra media message %v", m)
				}
				if err := oTagMatches(m.typ, m.ts, m.data, pkts[k], true); err != nil {
					c.Failf("packet %d: %v", k, err)
				}
				k++
			}
		}
		if k != len(pkts) {
			c.Failf("%d media messages for %d packets", k, len(pkts))
		}
		c.Count("media messages", k)
		c.Nontrivial("sid", o.sid, len(a.Tapped()))
	})
	// tags of every type and time straight to the wire
	x.Each("tags", x.N(1500, 30000), func(c *C) {
		r := c.R
		publish := r.Intn(2) == 0
		var tags []flvio.Tag
		var last int64
		for i, n := 0, 1+r.Intn(20); i < n; i++ {
			t := genTag(r, rtmpSize(r), &last)
			if r.Intn(5) == 0 {
				t.Time = []uint32{0, 0xfffffe, 0xffffff, 0x1000000, 0xffffffff}[r.Intn(5)]
			}
			if r.Intn(10) == 0 {
				t = flvio.Tag{Type: 15, Time: t.Time, Data: t.Data}
			}
			tags = append(tags, t)
		}
		g := &gotTags{}
		var cl, sv *memConn
		c.Bubble(func() {
			libSession(c, mustURL("rtmp://host/app/stream"), publish, true, 0, 0, g, nil, func(a, b *memConn) {
				cl, sv = a, b
				a.Tap()
				b.Tap()
			}, func(wc *rtmp.Conn, nc *memConn) {
				if err := wc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); err != nil {
					c.Failf("Prepare: %v", err)
				}
				for i, t := range tags {
					if err := wc.WriteTag(t); err != nil {
						c.Failf("write %d: %v", i, err)
					}
				}
				nc.Close()
			})
		})
		if cl == nil {
			return
		}
		src := cl
		if !publish {
			src = sv
		}
		k := 0
		for _, m := range c.capture("writer", src.Tapped()) {
			if m.typ != 8 && m.typ != 9 && m.typ != 18 && m.typ != 15 {
				continue
			}
			if k >= len(tags) {
				c.Failf("extra media message %v", m)
			}
			t := tags[k]
			if m.typ != t.Type || m.ts != t.Time || !bytes.Equal(m.data, rBody(t)) {
				c.Failf("tag %d: %v t=%d %d bytes on the wire as %v", k, t.DebugFields(), t.Time, len(t.Data), m)
			}
			if m.ts >= 0xffffff {
				c.Count("extended timestamps", 1)
			}
			k++
		}
		if k != len(tags) {
			c.Failf("%d media messages for %d tags", k, len(tags))
		}
		c.Count("media messages", k)
		c.Nontrivial("tags", len(src.Tapped()), k)
	})
}

func genAscii2(r *rand.Rand, n int) string {
	const s = "abcdefghijklmnopqrstuvwxyz0123456789-_."
	b := make([]byte, n)
	for i := range b {
		b[i] = s[r.Intn(len(s))]
	}
	return string(b)
}

// capture decodes everything a side wrote after its handshake.
func (c *C) capture(who string, b []byte) []rMsg {
	if len(b) < 3073 {
		c.Failf("%s wrote %d bytes", who, len(b))
	}
	ms, err := oDecodeChunks(b[3073:])
	if err != nil {
		c.Failf("%s output: %v", who, err)
	}
	for _, m := range ms {
		switch {
		case m.typ == 20:
			if _, _, err := rCommand(m); err != nil {
				c.Failf("%s: %v", who, err)
			}
			c.Count("commands", 1)
		case m.typ <= 6:
			want := map[uint8]int{1: 4, 3: 4, 5: 4, 6: 5}[m.typ]
			if m.typ == 4 {
				if len(m.data) != 6 && !(len(m.data) == 10 && m.data[1] == 3) {
					c.Failf("%s: user control %x", who, m.data)
				}
			} else if want == 0 || len(m.data) != want {
				c.Failf("%s: control %v", who, m)
			}
			c.Count("controls", 1)
		case m.typ == 8 || m.typ == 9 || m.typ == 18 || m.typ == 15:
		default:
			c.Failf("%s: message %v", who, m)
		}
	}
	return ms
}

// expectCmds checks that the named commands were written in this order (others
// may lie between) and returns what follows the last.
func (c *C) expectCmds(who string, ms []rMsg, names ...string) []rMsg {
	for i, m := range ms {
		if len(names) == 0 {
			return ms[i:]
		}
		if m.typ == 20 {
			name, _, _ := rCommand(m)
			if name == names[0] {
				names = names[1:]
			}
		} else if m.typ > 6 {
			c.Failf("%s wrote %v before %q", who, m, names[0])
		}
	}
	if len(names) > 0 {
		c.Failf("%s never wrote %q", who, names[0])
	}
	return nil
}

func (c *C) noMedia(who string, ms []rMsg) {
	for _, m := range ms {
		if m.typ > 6 && m.typ != 20 {
			c.Failf("%s wrote %v", who, m)
		}
	}
}

// ---------------------------------------------------------------- C04

func runC04(x *Ctx) {
	lname := func(l int) string {
		if l < 0 {
			return "plain"
		}
		return fmt.Sprintf("digest layout %d", l)
	}
	// library server
	x.Each("server", x.N(3000, 60000), func(c *C) {
		r := c.R
		layout := r.Intn(3) - 1
		a, b := memPipe(r, 0, r.Intn(4))
		entered := false
		kind := r.Intn(10)
		c.Desc("layout %d kind %d", layout, kind)
		c.Bubble(func() {
			var wg sync.WaitGroup
			srv := rtmp.NewServer()
			srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
				entered = true
				nc.Close()
			}
			c.Go(&wg, func() { srv.HandleNetConn(a) })
			switch kind {
			case 0: // another version
				v := byte(r.Intn(256))
				if v == 3 {
					v = 6
				}
				c1 := rMake1(r, layout, rClientKey)
				b.Write(append([]byte{v}, c1...))
				// a peer that would go on regardless
				b.Write(c1)
				w := newRWriter(r)
				w.put(3, rMsg{typ: 20, data: cmdData(aS("connect"), aN(1), aO("app", aS("a"), "tcUrl", aS("rtmp://h/a")))})
				w.put(3, rMsg{typ: 20, data: cmdData(aS("createStream"), aN(2), aNil)})
				w.put(3, rMsg{typ: 20, sid: 1, data: cmdData(aS("publish"), aN(3), aNil, aS("s"))})
				b.Write(w.take())
				time.Sleep(time.Minute)
				if entered {
					c.Failf("session established with a client of version %d", v)
				}
				if !a.isClosed() {
					c.Failf("connection of a version %d client left open", v)
				}
				c.Count("wrong versions", 1)
			case 1: // truncated at any point
				n := r.Intn(1 + 1536*2 + 1)
				bs := append([]byte{3}, rMake1(r, layout, rClientKey)...)
				bs = append(bs, make([]byte, 1536)...)
				writePieces(r, b, bs[:n])
				if r.Intn(2) == 0 {
					b.Close()
				}
				time.Sleep(time.Minute)
				if !a.isClosed() || entered {
					c.Failf("handshake cut at %d: closed=%v, session=%v after a minute", n, a.isClosed(), entered)
				}
				c.Count("truncated", 1)
			case 2: // near misses are plain handshakes
				l := r.Intn(2)
				c1 := rMake1(r, l, rClientKey)
				p := rDigestPos(c1, l)
				switch r.Intn(3) {
				case 0:
					c1[p+r.Intn(32)] ^= 1 << r.Intn(8)
				case 1: // digest with the server's key
					c1 = rMake1(r, l, rServerKey)
				case 2: // any other byte changed
					i := r.Intn(8)
					c1[i] ^= 1 << r.Intn(8)
				}
				b.Write(append([]byte{3}, c1...))
				s := make([]byte, 1+1536*2)
				if _, err := io.ReadFull(b, s); err != nil {
					c.Failf("no answer to a plain C1: %v", err)
				}
				if !bytes.Equal(s[1537:], c1) {
					c.Failf("S2 is not the C1 of a client without a valid digest")
				}
				b.Write(s[1:1537])
				c.Count("near-miss digests", 1)
				p1 := newPeer(r, b)
				c.checkConnect(p1, false)
			default:
				p := newPeer(r, b)
				if err := rHandshakeClient(r, b, layout); err != nil {
					c.Failf("handshake (%s): %v", lname(layout), err)
				}
				c.Count("server "+lname(layout), 1)
				c.checkConnect(p, false)
			}
			b.Close()
			wg.Wait()
		})
		c.Nontrivial(kind, layout, c.Idx)
		c.State("server", kind, layout)
	})
	// library client
	x.Each("client", x.N(3000, 60000), func(c *C) {
		r := c.R
		layout := r.Intn(3) - 1
		near := r.Intn(5) == 0
		a, b := memPipe(r, 0, r.Intn(4))
		ok := false
		c.Desc("layout %d near %v", layout, near)
		c.Bubble(func() {
			var wg sync.WaitGroup
			c.Go(&wg, func() {
				_, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h/a/b"), rtmp.PrepareReading)
				ok = err == nil
				a.Close()
				if !ok {
					c.Failf("client: %v", err)
				}
			})
			if near {
				c01 := make([]byte, 1537)
				io.ReadFull(b, c01)
				if _, _, v := rFind1(c01[1:], rClientKey); c01[0] != 3 || !v {
					c.Failf("C0C1: version %d, digest valid %v", c01[0], v)
				}
				l := r.Intn(2)
				s1 := rMake1(r, l, rServerKey)
				if r.Intn(2) == 0 {
					s1[rDigestPos(s1, l)+r.Intn(32)] ^= 1 << r.Intn(8)
				} else {
					s1 = rMake1(r, l, rClientKey)
				}
				b.Write(append(append([]byte{3}, s1...), c01[1:]...))
				c2 := make([]byte, 1536)
				if _, err := io.ReadFull(b, c2); err != nil {
					c.Failf("no C2: %v", err)
				}
				if !bytes.Equal(c2, s1) {
					c.Failf("C2 is not the S1 of a server without a valid digest")
				}
				c.Count("near-miss digests", 1)
			} else {
				if err := rHandshakeServer(r, b, layout); err != nil {
					c.Failf("handshake (%s): %v", lname(layout), err)
				}
				c.Count("client "+lname(layout), 1)
			}
			p := newPeer(r, b)
			c.answerPlay(p)
			p.drain(nil)
			b.Close()
			wg.Wait()
			if !ok {
				c.Failf("client did not complete")
			}
		})
		c.Nontrivial("client", layout, near, c.Idx)
		c.State("client", layout, near)
	})
	// both library
	x.Each("pair", x.N(600, 6000), func(c *C) {
		r := c.R
		a, b := memPipe(r, 0, r.Intn(4))
		a.Tap()
		b.Tap()
		done := 0
		c.Bubble(func() {
			var wg sync.WaitGroup
			srv := rtmp.NewServer()
			srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
				sc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting)
				done++
			}
			c.Go(&wg, func() { srv.HandleNetConn(b) })
			if _, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h/a/b"), rtmp.PrepareReading); err != nil {
				c.Failf("client: %v", err)
			}
			time.Sleep(time.Second)
			if done != 1 {
				c.Failf("server did not complete")
			}
			a.Close()
			b.Close()
			wg.Wait()
		})
		cb, sb := a.Tapped(), b.Tapped()
		cd, _, ok1 := rFind1(cb[1:1537], rClientKey)
		sd, _, ok2 := rFind1(sb[1:1537], rServerKey)
		if !ok1 || !ok2 {
			c.Failf("digests of C1 %v, S1 %v", ok1, ok2)
		}
		if !rCheck2(sb[1537:3073], rFull(rServerKey), cd) || !rCheck2(cb[1537:3073], rFull(rClientKey), sd) {
			c.Failf("S2 or C2 not keyed by the peer's digest")
		}
		if ok, _ := rtmp.HsServerParseC1(append([]byte(nil), cb[1:1537]...)); !ok {
			c.Failf("HsServerParseC1 rejects the library's own C1")
		}
		c.Count("library pairs", 1)
		c.Nontrivial("pair", string(cd))
	})
}

// checkConnect sends connect and expects the answer: the handshake is complete.
func (c *C) checkConnect(p *rPeer, publish bool) {
	p.cmd(3, 0, aS("connect"), aN(1), aO("app", aS("a"), "tcUrl", aS("rtmp://h/a")))
	if err := p.flush(); err != nil {
		c.Failf("after the handshake: %v", err)
	}
	if _, err := p.await(func(m rMsg) bool { return isCmd(m, "_result", 1) }); err != nil {
		c.Failf("connect after the handshake: %v", err)
	}
}

// answerPlay is a raw server's side of connect, createStream and play.
func (c *C) answerPlay(p *rPeer) {
	for _, n := range []string{"connect", "createStream", "play"} {
		m, err := p.await(func(m rMsg) bool { return isCmd(m, n, -1) })
		if err != nil {
			c.Failf("waiting for %s: %v", n, err)
		}
		_, vs, _ := rCommand(m)
		switch n {
		case "connect":
			p.cmd(3, 0, aS("_result"), vs[1], aNil, aO("level", aS("status"), "code", aS("NetConnection.Connect.Success")))
		case "createStream":
			p.cmd(3, 0, aS("_result"), vs[1], aNil, aN(1))
		case "play":
			p.cmd(5, 1, aS("onStatus"), aN(0), aNil, aO("level", aS("status"), "code", aS("NetStream.Play.Start")))
		}
		if err := p.flush(); err != nil {
			c.Failf("%v", err)
		}
	}
}
