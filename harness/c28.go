package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"
)

func init() {
	register(&propDef{id: "C28", mul: 5,
		rule:   "the real avtool binary converts, rewrites, forwards and plays generated streams; sources and targets are the library and independent RTMP, HTTP and FLV implementations in the harness, and every packet that comes out is compared with what went in. Non-trivial = a run with media packets; distinct by source, target, options and content",
		assume: []string{"streams towards RTMP targets last less than a second, so the native rate does not hold them up", "H.264 payloads of the rewriting tools are valid AVCC or Annex B"},
		must:   []string{"conv flv to flv", "conv flv to rtmp", "conv rtmp to flv", "conv listener to flv", "conv http to flv", "truncated sources", "paced runs", "annexb files", "moved headers", "forwarded sessions", "forwarded packets", "targets that closed", "forward refusals", "bench players", "bench publishers", "stalled bench players", "wrong command lines", "quiet publishers"},
		run:    runC28})
}

// ---------------------------------------------------------------- running tools

type toolRun struct {
	code int
	out  string
	took time.Duration
}

// runTool runs avtool to its end.
func (c *C) runTool(args ...string) toolRun {
	ctx, cancel := context.WithTimeout(context.Background(), 80*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VH_AVTOOL"), args...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+c.Idx%4), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	start := time.Now()
	err := cmd.Run()
	r := toolRun{code: cmd.ProcessState.ExitCode(), out: out.String(), took: time.Since(start)}
	if ctx.Err() != nil {
		c.Failf("avtool %q has not ended in 80 s: %s", args, r.tail())
	}
	if i := strings.Index(r.out, "WARNING: DATA RACE"); i >= 0 {
		c.Failf("avtool %q: %s", args, head(r.out[i:], 6000))
	}
	if i := strings.Index(r.out, "panic:"); i >= 0 && r.code == 2 {
		c.Failf("avtool %q: %s", args, head(r.out[i:], 3000))
	}
	if err != nil && r.code < 0 {
		c.Failf("avtool %q: %v: %s", args, err, r.tail())
	}
	return r
}

func (r toolRun) tail() string {
	s := r.out
	if len(s) > 1500 {
		s = "..." + s[len(s)-1500:]
	}
	return s
}

// toolPackets makes packets whose times grow to at most span; span 0 leaves
// them free.
func toolPackets(c *C, n, maxSize int, span int64) (pkts []av.Packet) {
	pkts = genPackets(c, n, maxSize)
	if span > 0 {
		var ms int64
		for i := range pkts {
			if left := span - ms; left > 0 {
				ms += c.R.Int63n(min64(left, 2*span/int64(n)+1) + 1)
			}
			pkts[i].Time = time.Duration(ms) * time.Millisecond
		}
	}
	return
}

// pktMsg is the RTMP message that carries a packet.
func pktMsg(p av.Packet, sid uint32, publishing bool) rMsg {
	m := rMsg{sid: sid, ts: uint32(p.Time / time.Millisecond)}
	ct := uint32(int32(p.CTime / time.Millisecond))
	switch p.Type {
	case av.AAC:
		m.typ, m.data = 8, append([]byte{0xaf, 1}, p.Data...)
	case av.AACDecoderConfig:
		m.typ, m.data = 8, append([]byte{0xaf, 0}, p.Data...)
	case av.H264:
		f := byte(2)
		if p.IsKeyFrame {
			f = 1
		}
		m.typ, m.data = 9, append([]byte{f<<4 | 7, 1, byte(ct >> 16), byte(ct >> 8), byte(ct)}, p.Data...)
	case av.H264DecoderConfig:
		m.typ, m.data = 9, append([]byte{0x17, 0, 0, 0, 0}, p.Data...)
	case av.Metadata:
		m.typ = 18
		if publishing {
			m.data = aEncode(m.data, aS("@setDataFrame"))
		}
		m.data = append(aEncode(m.data, aS("onMetaData")), p.Data...)
	}
	return m
}

// pktTag appends the FLV tag that carries a packet.
func pktTag(b []byte, p av.Packet) []byte {
	m := pktMsg(p, 0, false)
	return oAppendTag(b, m.typ, m.ts, 0, m.data, uint32(len(m.data)+11))
}

func flvFile(pkts []av.Packet) []byte {
	b := []byte{'F', 'L', 'V', 1, 5, 0, 0, 0, 9, 0, 0, 0, 0}
	for _, p := range pkts {
		b = pktTag(b, p)
	}
	return b
}

// checkFLVFile compares a file with the packets it must hold.
func (c *C) checkFLVFile(what, name string, want []av.Packet) {
	b, err := os.ReadFile(name)
	if err != nil {
		if len(want) == 0 && os.IsNotExist(err) {
			return
		}
		c.Failf("%s: %v", what, err)
	}
	if len(want) == 0 && len(b) == 0 {
		return
	}
	f, err := oParseFLV(b)
	if err != nil {
		c.Failf("%s: the file does not parse: %v", what, err)
	}
	for i, t := range f.tags {
		if i >= len(want) {
			c.Failf("%s: %d tags for %d packets", what, len(f.tags), len(want))
		}
		if err := oTagMatches(t.typ, t.ts, t.body, want[i], false); err != nil {
			c.Failf("%s: tag %d for %s: %v", what, i, pktStr(want[i]), err)
		}
	}
	if len(f.tags) < len(want) {
		c.Failf("%s: %d tags for %d packets; missing %s", what, len(f.tags), len(want), pktStr(want[len(f.tags)]))
	}
}

// ---------------------------------------------------------------- RTMP ends

// endPoint is a library or an independent RTMP endpoint that receives.
type endPoint struct {
	raw        bool
	publishing bool // it is being published to
	g          gotTags
	mu         sync.Mutex
	msgs       []rMsg
	at         []time.Time
	err        error
	app        string
	stream     string
	uri        string
	fin        chan bool
	nc         net.Conn
	pause      func(n int)
}

// media returns how many media packets have arrived.
func (e *endPoint) media() int {
	if !e.raw {
		return e.g.n()
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.msgs)
}

func (e *endPoint) onMsg(m rMsg) {
	if m.typ == 8 || m.typ == 9 || m.typ == 18 || m.typ == 15 {
		e.mu.Lock()
		e.msgs = append(e.msgs, m)
		e.at = append(e.at, time.Now())
		n := len(e.msgs)
		e.mu.Unlock()
		if e.pause != nil {
			e.pause(n)
		}
	}
}

// serveSink answers one publisher.
func (e *endPoint) serveSink(r *rand.Rand, nc net.Conn) {
	e.publishing = true
	if e.raw {
		p := newPeer(r, nc)
		o := basicOpts(r, true)
		if e.err = p.rawAccept(o); e.err != nil {
			return
		}
		for _, m := range p.msgs() {
			if name, vs, err := rCommand(m); err == nil {
				switch name {
				case "connect":
					if v := vs[2].get("app"); v != nil {
						e.app = v.s
					}
				case "publish":
					if len(vs) > 3 {
						e.stream = vs[3].s
					}
				}
			}
		}
		p.drain(func(m rMsg) {
			if m.typ >= 8 && m.sid != o.sid {
				e.mu.Lock()
				e.err = fmt.Errorf("message on stream %d, want %d", m.sid, o.sid)
				e.mu.Unlock()
			}
			e.onMsg(m)
		})
		return
	}
	srv := rtmp.NewServer()
	srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
		e.uri = sc.URL.RequestURI()
		n := 0
		e.g.readLoop(sc, false, func() {
			n++
			if e.pause != nil {
				e.pause(n)
			}
		})
	}
	srv.HandleNetConn(nc)
}

// play connects a player.
func (e *endPoint) play(r *rand.Rand, nc net.Conn, path string) {
	if e.raw {
		p := newPeer(r, nc)
		o := basicOpts(r, false)
		o.app, o.stream, _ = strings.Cut(strings.TrimPrefix(path, "/"), "/")
		if e.err = p.rawConnect(o); e.err != nil {
			return
		}
		p.drain(e.onMsg)
		return
	}
	rc, err := rtmp.NewClient().FromNetConn(nc, mustURL("rtmp://h"+path), rtmp.PrepareReading)
	if err != nil {
		e.err = err
		return
	}
	n := 0
	e.g.readLoop(rc, false, func() {
		n++
		e.mu.Lock()
		e.at = append(e.at, time.Now())
		e.mu.Unlock()
		if e.pause != nil {
			e.pause(n)
		}
	})
}

// check compares what arrived; prefix allows the end to be missing.
func (e *endPoint) check(c *C, what string, pkts []av.Packet, prefix bool) {
	e.mu.Lock()
	err := e.err
	e.mu.Unlock()
	if err != nil && !prefix {
		c.Failf("%s: %v", what, err)
	}
	if !e.raw {
		got := e.g.pkts
		want := []av.Packet{}
		for _, p := range pkts {
			want = append(want, wantRead(p))
		}
		if prefix && len(got) < len(want) {
			want = want[:len(got)]
		}
		checkPackets(c, what, got, want)
		return
	}
	if e.publishing { // a tool has read the packets before
		var want []av.Packet
		for _, p := range pkts {
			want = append(want, wantRead(p))
		}
		pkts = want
	}
	for i, m := range e.msgs {
		if i >= len(pkts) {
			c.Failf("%s: %d media messages for %d packets", what, len(e.msgs), len(pkts))
		}
		if err := oTagMatches(m.typ, m.ts, m.data, pkts[i], e.publishing); err != nil {
			c.Failf("%s: message %d for %s: %v", what, i, pktStr(pkts[i]), err)
		}
	}
	if !prefix && len(e.msgs) < len(pkts) {
		c.Failf("%s: %d media messages for %d packets; missing %s", what, len(e.msgs), len(pkts), pktStr(pkts[len(e.msgs)]))
	}
}

// acceptOne accepts a connection of a tool.
func acceptOne(l net.Listener, d time.Duration) (net.Conn, error) {
	l.(*net.TCPListener).SetDeadline(time.Now().Add(d))
	return l.Accept()
}

// sendAll plays or publishes packets on a negotiated raw peer.
func sendRaw(p *rPeer, sid uint32, pkts []av.Packet, publishing bool) error {
	chunk := 128
	for i, q := range pkts {
		if p.r.Intn(8) == 0 {
			chunk = []int{1, 64, 128, 4096, 65536, 1 << 20}[p.r.Intn(6)]
			p.w.put(2, rMsg{typ: 1, data: be32(uint32(chunk))})
		}
		m := pktMsg(q, sid, publishing)
		csid := uint32(4 + m.typ%8)
		p.w.put(csid, m)
		if len(p.w.out) > 30000 || p.r.Intn(3) == 0 || i == len(pkts)-1 {
			if _, err := p.c.Write(p.w.take()); err != nil {
				return err
			}
		}
	}
	return nil
}

// publishTo publishes packets over nc; it leaves the connection open.
func publishTo(r *rand.Rand, raw bool, nc net.Conn, app, stream string, pkts []av.Packet, pause func(i int), onConn func(rc *rtmp.Conn)) error {
	if raw {
		p := newPeer(r, nc)
		o := basicOpts(r, true)
		o.app, o.stream, o.tcURL, o.pipeline = app, stream, "rtmp://h/"+app, false
		if err := p.rawConnect(o); err != nil {
			return err
		}
		if _, err := p.await(func(m rMsg) bool { return isCmd(m, "onStatus", -1) }); err != nil {
			return fmt.Errorf("publish: %w", err)
		}
		go p.drain(nil)
		return sendRaw(p, 1, pkts, true)
	}
	rc, err := rtmp.NewClient().FromNetConn(nc, mustURL("rtmp://h/"+app+"/"+stream), rtmp.PrepareWriting)
	if err != nil {
		return err
	}
	if onConn != nil {
		onConn(rc)
	}
	for i, q := range pkts {
		if pause != nil {
			pause(i)
		}
		if err := rc.WritePacket(q); err != nil {
			return fmt.Errorf("packet %d: %w", i, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- the property

// usageCase gives avtool command lines it cannot follow.
func usageCase(c *C) {
	r := c.R
	dir, rm := c.scratch()
	defer rm()
	src, dst := filepath.Join(dir, "in.flv"), filepath.Join(dir, "out.flv")
	file, _, _ := genForeignFLV(c, 5, 100)
	if err := os.WriteFile(src, file, 0o644); err != nil {
		c.Failf("%v", err)
	}
	var args []string
	switch k := r.Intn(8); k {
	case 0, 1: // too few arguments
		args = [][]string{{"conv"}, {"avcc2annexb"}, {"avcc2annexb", src}, {"moveh264seqhdrtokeyframe"}, {"moveh264seqhdrtokeyframe", src}, {"benchrtmp"}, {"forwardrtmp"}, {"pubsubrtmp"}}[r.Intn(8)]
	case 2: // unknown option
		args = []string{[]string{"conv", "avcc2annexb", "moveh264seqhdrtokeyframe"}[r.Intn(3)], []string{"--rate", "--x=1", "-z"}[r.Intn(3)], src, dst}
	case 3: // unknown debugging option
		args = []string{"conv", []string{"--drtmp=nett", "--drtmp=net,x", "--dflv=chunk", "--dflv=FILEHDR"}[r.Intn(4)], src, dst}
	case 4:
		args = []string{[]string{"convert", "con", "CONV", "play"}[r.Intn(4)], src, dst}
	case 5: // no source
		args = []string{[]string{"conv", "avcc2annexb", "moveh264seqhdrtokeyframe"}[r.Intn(3)], filepath.Join(dir, "none.flv"), dst}
	case 6: // no directory for the result
		args = []string{[]string{"conv", "avcc2annexb", "moveh264seqhdrtokeyframe"}[r.Intn(3)], src, filepath.Join(dir, "none", "out.flv")}
	case 7: // unsupported formats
		args = [][]string{{"conv", src, filepath.Join(dir, "out.mkv")}, {"conv", src, "ftp://127.0.0.1/out.flv"}, {"conv", filepath.Join(dir, "in.avi"), dst}, {"conv", "ftp://127.0.0.1/in.flv", dst}}[r.Intn(4)]
	}
	c.Desc("avtool %q", args)
	res := c.runTool(args...)
	if res.code == 0 {
		c.Failf("avtool %q: exit status 0: %s", args, res.tail())
	}
	es, _ := os.ReadDir(dir)
	if len(es) != 1 {
		c.Failf("avtool %q left %v", args, es)
	}
	if now, _ := os.ReadFile(src); !bytes.Equal(now, file) {
		c.Failf("avtool %q changed its source", args)
	}
	c.Count("wrong command lines", 1)
	c.State("usage", args[0], len(args))
	c.Nontrivial(strings.Join(args, " "), string(file))
}

func runC28(x *Ctx) {
	nconv := x.N(1200, 25000)
	if x.lenient != nil { // one goroutine, and slow to start
		nconv /= 6
	}
	x.Each("conv", nconv, convCase)
	if x.Prop != "C25" {
		x.Each("annexb", x.N(500, 10000), func(c *C) { rewriteCase(c, false) })
		x.Each("usage", x.N(120, 1500), usageCase)
		x.Each("seqhdr", x.N(500, 10000), func(c *C) { rewriteCase(c, true) })
	}

	var ts []*tool
	for _, n := range []int{1, 2, 4, 8} {
		t := startTool(x, n, "forwardrtmp", "ADDR")
		defer t.stop()
		t.ready()
		ts = append(ts, t)
	}
	x.EachLim("forward", x.N(250, 4000), 6, defaultCaseLimit, func(c *C) { forwardCase(c, ts[c.R.Intn(len(ts))]) })
	if x.Prop != "C25" {
		// a publisher that pauses stays connected
		x.EachLim("quiet", len(ts), len(ts), defaultCaseLimit, func(c *C) {
			c.quiet = 17 * time.Second
			if x.Thorough {
				c.quiet = 33 * time.Second
			}
			forwardCase(c, ts[c.Idx])
			c.Count("quiet publishers", 1)
		})
	}
	x.EachLim("refusals", x.N(150, 2000), 6, defaultCaseLimit, func(c *C) { forwardRefusal(c, ts[c.R.Intn(len(ts))]) })
	x.Serial("settled", 1, func(c *C) {
		for i, t := range ts {
			t.alive(c)
			ok := false
			for k := 0; k < 300 && !ok; k++ {
				if ok = t.fds() <= 1; !ok {
					time.Sleep(100 * time.Millisecond)
				}
			}
			if !ok {
				c.Failf("forwarder %d still has %d sockets 30 s after the last session", i, t.fds())
			}
		}
		c.Count("descriptor checks", len(ts))
	})
	x.EachLim("bench", x.N(60, 900), 6, defaultCaseLimit, benchCase)
	x.EachLim("bench-stall", x.N(8, 80), 4, defaultCaseLimit, benchStall)
	if x.Prop == "C25" {
		x.mu.Lock()
		x.res.Counts["forward tools"] += int64(len(ts))
		x.res.Counts["bench tools"] += x.res.Counts["bench players"]
		x.mu.Unlock()
	}
}

func convCase(c *C) {
	r := c.R
	dir, rm := c.scratch()
	defer rm()
	srcKind := []string{"flv", "flv", "flv", "rtmp", "rtmp", "listener", "http"}[r.Intn(7)]
	dstKind := []string{"flv", "flv", "rtmp"}[r.Intn(3)]
	re := r.Intn(8) == 0
	span := int64(0)
	if re || dstKind == "rtmp" {
		span = 1 + r.Int63n(150)
	}
	n := 1 + r.Intn(30)
	var pkts []av.Packet // as the source's reader gives them
	var src, dst string
	var args []string
	args = append(args, "conv")
	if r.Intn(3) > 0 {
		args = append(args, "--qpkt")
	}
	if re {
		args = append(args, "--re")
	}
	if r.Intn(6) == 0 {
		args = append(args, "--statsec")
	}
	if r.Intn(10) == 0 {
		args = append(args, "--drtmp="+[]string{"chunk", "net", "stage", "net,stage", "chunk,net,stage"}[r.Intn(5)])
	}
	if r.Intn(10) == 0 {
		args = append(args, "--dflv=filehdr")
	}
	raw := r.Intn(2) == 0
	truncated := false
	var wg sync.WaitGroup
	var srcErr error
	rs := r2(c)
	switch srcKind {
	case "flv", "http":
		var file []byte
		cut := srcKind == "flv" && r.Intn(5) == 0
		if span == 0 && !cut {
			file, pkts, _ = genForeignFLV(c, n, 20000)
		} else {
			for _, p := range toolPackets(c, n, 20000, span) {
				pkts = append(pkts, wantRead(p))
			}
			file = flvFile(pkts)
		}
		if cut {
			// cut inside a tag: what lies before it must come out
			f, err := oParseFLV(file)
			if err != nil {
				c.Failf("harness: %v", err)
			}
			k := r.Intn(len(f.tags))
			t := f.tags[k]
			file = file[:t.offset+1+r.Intn(10+len(t.body))]
			pkts = pkts[:k]
			truncated = true
		}
		src = filepath.Join(dir, genName(r, ".flv"))
		if srcKind == "flv" {
			if err := os.WriteFile(src, file, 0644); err != nil {
				c.Failf("harness: %v", err)
			}
			src = (&url.URL{Path: src}).String()
			break
		}
		l, err := getListener()
		if err != nil {
			c.X.Note("listen: %v", err)
			return
		}
		hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			f := w.(http.Flusher)
			for b := file; len(b) > 0; {
				k := 1 + rs.Intn(len(b))
				w.Write(b[:k])
				f.Flush()
				b = b[k:]
			}
		})}
		served := make(chan bool)
		go func() { hs.Serve(keepOpen{l}); close(served) }()
		defer func() {
			hs.Close()
			<-served
			l.Close()
		}()
		src = "http://" + l.Addr().String() + "/a/b.flv"
	case "rtmp":
		sent := toolPackets(c, n, 20000, span)
		for _, p := range sent {
			pkts = append(pkts, wantRead(p))
		}
		l, err := getListener()
		if err != nil {
			c.X.Note("listen: %v", err)
			return
		}
		src = "rtmp://" + l.Addr().String() + "/live/s"
		c.Go(&wg, func() {
			nc, err := acceptOne(l, 60*time.Second)
			if err != nil {
				srcErr = err
				return
			}
			putListener(l)
			defer nc.Close()
			nc.SetDeadline(time.Now().Add(80 * time.Second))
			if raw {
				p := newPeer(rs, nc)
				o := basicOpts(rs, false)
				if srcErr = p.rawAccept(o); srcErr != nil {
					return
				}
				if srcErr = sendRaw(p, o.sid, sent, false); srcErr != nil {
					return
				}
				nc.(*net.TCPConn).CloseWrite()
				p.drain(nil)
				return
			}
			srv := rtmp.NewServer()
			srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
				c.playOrRead(sent, sc, nc, nil)
			}
			srv.HandleNetConn(nc)
		})
	case "listener":
		sent := toolPackets(c, n, 20000, span)
		for _, p := range sent {
			pkts = append(pkts, wantRead(p))
		}
		addr := ownAddr()
		src = "@rtmp://" + addr + "/any"
		c.Go(&wg, func() {
			var nc net.Conn
			var err error
			for i := 0; i < 6000; i++ {
				if nc, err = net.DialTimeout("tcp", addr, 5*time.Second); err == nil {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			if err != nil {
				srcErr = err
				return
			}
			defer nc.Close()
			nc.SetDeadline(time.Now().Add(80 * time.Second))
			if srcErr = publishTo(rs, raw, nc, "live", "s", sent, nil, nil); srcErr == nil {
				nc.(*net.TCPConn).CloseWrite()
				io.Copy(io.Discard, nc) // until the tool is through
			}
		})
	}
	var sink *endPoint
	sinkDone := make(chan bool)
	switch dstKind {
	case "flv":
		dst = filepath.Join(dir, "out-"+genName(r, ".flv"))
		if r.Intn(4) == 0 && len(pkts) > 0 {
			os.WriteFile(dst, genBytes(r, 300000), 0644)
		}
		close(sinkDone)
	case "rtmp":
		sink = &endPoint{raw: r.Intn(2) == 0}
		l, err := getListener()
		if err != nil {
			c.X.Note("listen: %v", err)
			return
		}
		dst = "rtmp://" + l.Addr().String() + "/app/target?k=v"
		rk := r2(c)
		go func() {
			defer close(sinkDone)
			nc, err := acceptOne(l, 60*time.Second)
			if err != nil {
				sink.err = err
				return
			}
			putListener(l)
			defer nc.Close()
			nc.SetDeadline(time.Now().Add(80 * time.Second))
			sink.serveSink(rk, nc)
		}()
	}
	du := dst
	if dstKind == "flv" {
		du = (&url.URL{Path: dst}).String()
	}
	args = append(args, src, du)
	c.Desc("avtool %q: %d packets, raw %v, truncated %v", args, len(pkts), raw, truncated)
	res := c.runTool(args...)
	if dstKind == "rtmp" && len(pkts) > 0 {
		<-sinkDone
	}
	wg.Wait()
	if truncated {
		if res.code == 0 {
			c.Failf("a source that ends inside a tag: exit status 0\n%s", res.tail())
		}
		c.Count("truncated sources", 1)
	} else if res.code != 0 {
		c.Failf("exit status %d (source: %v)\n%s", res.code, srcErr, res.tail())
	}
	if srcErr != nil {
		c.Failf("source: %v\n%s", srcErr, res.tail())
	}
	if dstKind == "flv" {
		c.checkFLVFile("output", dst, pkts)
	} else if len(pkts) > 0 {
		sink.check(c, "target", pkts, false)
	}
	if re && len(pkts) > 0 {
		var max time.Duration
		for _, p := range pkts {
			if p.Time > max {
				max = p.Time
			}
		}
		if res.took < max {
			c.Failf("--re: packets up to %v written in %v", max, res.took)
		}
		c.Count("paced runs", 1)
	}
	c.Count("conv "+srcKind+" to "+dstKind, 1)
	c.Count("converted packets", len(pkts))
	if len(pkts) > 0 {
		c.Nontrivial(srcKind, dstKind, raw, strings.Join(args[1:len(args)-2], " "), len(pkts), c.Idx)
	}
	c.State("conversions", srcKind, dstKind, raw, truncated, strings.Join(args[1:len(args)-2], " "))
	c.Sample("avtool %s %s to %s: %d packets in %v", strings.Join(args[:len(args)-2], " "), srcKind, dstKind, len(pkts), res.took)
}

// rewriteCase runs avcc2annexb or moveh264seqhdrtokeyframe on a file.
func rewriteCase(c *C, move bool) {
	r := c.R
	dir, rm := c.scratch()
	defer rm()
	type item struct {
		p     av.Packet
		units [][]byte
		spss  [][]byte
		ppss  [][]byte
	}
	var items []item
	var in []av.Packet
	var spss, ppss [][]byte
	var last int64
	changes := 0
	for i, n := 0, r.Intn(40); i < n; i++ {
		last = genTimeMs(r, last)
		tm := time.Duration(last) * time.Millisecond
		var it item
		switch k := r.Intn(10); {
		case k == 0:
			var ss, ps [][]byte
			for j, m := 0, 1+r.Intn(3); j < m; j++ {
				_, nal, _ := genSPS(c, uint64(j))
				ss = append(ss, nal)
				ps = append(ps, genPPS(c, uint64(j), uint64(j)))
			}
			if r.Intn(4) == 0 {
				ps = append(ps, genPPS(c, uint64(len(ss)), 0))
			}
			it.p = av.Packet{Type: av.H264DecoderConfig, Data: oRecord(ss, ps, 3), Time: 0}
			spss, ppss = ss, ps
			changes++
		case k < 4:
			q := av.Packet{Type: av.AAC, Data: genBytes(r, r.Intn(500)), Time: tm}
			if r.Intn(6) == 0 {
				q = av.Packet{Type: av.AACDecoderConfig, Data: genBytes(r, 2+r.Intn(4))}
			}
			it.p = q
		case k == 4 && r.Intn(2) == 0:
			it.p = av.Packet{Type: av.Metadata, Data: encMeta(genMeta(r)), Time: tm}
		default:
			for j, m := 0, 1+r.Intn(5); j < m; j++ {
				it.units = append(it.units, annexbUnit(c))
			}
			var b []byte
			if r.Intn(6) == 0 { // Annex B already
				for _, u := range it.units {
					b = append(append(b, []byte{0, 0, 0, 1}[r.Intn(2):]...), u...)
				}
				if _, ok := oIsAVCC(b); ok {
					b = nil
				}
			}
			if b == nil {
				for _, u := range it.units {
					b = append(binary.BigEndian.AppendUint32(b, uint32(len(u))), u...)
				}
			}
			it.p = av.Packet{Type: av.H264, IsKeyFrame: r.Intn(3) == 0, Data: b, Time: tm, CTime: time.Duration(genCTime(r)) * time.Millisecond}
			if it.p.IsKeyFrame {
				it.spss, it.ppss = spss, ppss
			}
		}
		items = append(items, it)
		in = append(in, it.p)
	}
	src, dst := filepath.Join(dir, genName(r, ".flv")), filepath.Join(dir, "out-"+genName(r, ".flv"))
	file := flvFile(in)
	trunc := false
	if len(items) > 0 && r.Intn(6) == 0 {
		f, err := oParseFLV(file)
		if err != nil {
			c.Failf("harness: %v", err)
		}
		k := r.Intn(len(items))
		file = file[:f.tags[k].offset+1+r.Intn(10+len(f.tags[k].body))]
		items = items[:k]
		trunc = true
	}
	if err := os.WriteFile(src, file, 0644); err != nil {
		c.Failf("harness: %v", err)
	}
	if r.Intn(4) == 0 {
		os.WriteFile(dst, genBytes(r, 200000), 0644)
	}
	cmd := "avcc2annexb"
	if move {
		cmd = "moveh264seqhdrtokeyframe"
	}
	c.Desc("avtool %s %q %q: %d packets, truncated %v", cmd, src, dst, len(items), trunc)
	before := dirState(dir)
	res := c.runTool(cmd, "--", src, dst)
	if (res.code != 0) != trunc {
		c.Failf("exit status %d, truncated %v\n%s", res.code, trunc, res.tail())
	}
	if b, err := os.ReadFile(src); err != nil || !bytes.Equal(b, file) {
		c.Failf("the source was changed: %v", err)
	}
	_ = before
	if ents, _ := os.ReadDir(dir); len(ents) != 2 {
		c.Failf("%d files in the directory: %v", len(ents), ents)
	}
	b, err := os.ReadFile(dst)
	if err != nil {
		c.Failf("no output: %v", err)
	}
	var tags []oTag
	if len(b) > 0 {
		f, err := oParseFLV(b)
		if err != nil {
			c.Failf("the output does not parse: %v", err)
		}
		tags = f.tags
	}
	k := 0
	moved := 0
	for i, it := range items {
		if move && it.p.Type == av.H264DecoderConfig {
			continue
		}
		if k >= len(tags) {
			c.Failf("%d tags; packet %d of %d %s is missing", len(tags), i, len(items), pktStr(it.p))
		}
		t := tags[k]
		k++
		if it.p.Type != av.H264 {
			if err := oTagMatches(t.typ, t.ts, t.body, it.p, false); err != nil {
				c.Failf("tag %d for packet %d %s: %v", k-1, i, pktStr(it.p), err)
			}
			continue
		}
		q := it.p
		if len(t.body) >= 5 {
			q.Data = t.body[5:]
		}
		if err := oTagMatches(t.typ, t.ts, t.body, q, false); err != nil {
			c.Failf("tag %d for packet %d %s: %v", k-1, i, pktStr(it.p), err)
		}
		// the payload is Annex B, or units in it behind one length field
		pl := q.Data
		if us, ok := oIsAVCC(pl); ok && len(us) == 1 && !move {
			pl = us[0]
		}
		us, ok := oSplitAnnexb(pl)
		if !ok {
			c.Failf("packet %d: the payload is not Annex B: %x", i, head(string(pl), 40))
		}
		want := it.units
		if move && it.p.IsKeyFrame && it.spss != nil {
			want = append(append(append([][]byte(nil), it.spss...), it.ppss...), it.units...)
			moved++
		}
		if d := unitsEqual(us, want); d != "" {
			c.Failf("packet %d %s (%d units, %d SPS, %d PPS in force): %s", i, pktStr(it.p), len(it.units), len(it.spss), len(it.ppss), d)
		}
	}
	if k != len(tags) {
		c.Failf("%d tags for %d packets", len(tags), k)
	}
	if move {
		c.Count("moved headers", moved)
		c.Count("header changes", changes)
	} else {
		c.Count("annexb files", 1)
	}
	c.Count("rewritten packets", len(items))
	if len(items) > 0 {
		c.Nontrivial(cmd, string(file))
	}
	c.Sample("%s: %d packets, %d headers moved", cmd, len(items), moved)
}

// ---------------------------------------------------------------- forwarding

func (c *C) dialTool(t *tool) net.Conn {
	for i := 0; ; i++ {
		nc, err := net.DialTimeout("tcp", t.addr, 15*time.Second)
		if err == nil {
			nc.SetDeadline(time.Now().Add(80 * time.Second))
			return nc
		}
		t.alive(c)
		if i == 3 {
			c.Failf("dial %v: %v", t.cmd.Args[1:], err)
		}
		time.Sleep(time.Second)
	}
}

// closedBy waits until the other end has closed nc.
func closedBy(nc net.Conn) chan bool {
	ch := make(chan bool)
	go func() {
		io.Copy(io.Discard, nc)
		close(ch)
	}()
	return ch
}

// forwardCase runs several forwarded sessions at once.
func forwardCase(c *C, t *tool) {
	r := c.R
	t.alive(c)
	k := 1 + r.Intn(5)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var descs []string
	for s := 0; s < k; s++ {
		s := s
		rs := rand.New(rand.NewSource(r.Int63()))
		n := 1 + rs.Intn(40)
		pkts := toolPackets(c, n, 20000, 0)
		end := rs.Intn(5) // 0,1 publisher closes; 2 resets; 3 target closes; 4 target resets
		stall := rs.Intn(4) == 0
		rawPub, rawSink := rs.Intn(2) == 0, rs.Intn(2) == 0
		stopAt := 0
		if end >= 3 {
			stopAt = 1 + rs.Intn(n)
		}
		target := []string{"/app/out", "/a/b/c", "/live/x.flv", "/app/out?token=a%26b&z=1"}[rs.Intn(4)]
		var pause func(i int)
		if c.quiet > 0 {
			end, stopAt, rawPub = s%2, 0, false
			at := rs.Intn(n)
			pause = func(i int) { c.lull(i, 2*at) }
		}
		descs = append(descs, fmt.Sprintf("%d: %d packets end %d at %d stall %v raw %v/%v %s", s, n, end, stopAt, stall, rawPub, rawSink, target))
		c.Go(&wg, func() {
			l, err := getListener()
			if err != nil {
				c.X.Note("listen: %v", err)
				return
			}
			fwd := "rtmp://" + l.Addr().String() + target
			sink := &endPoint{raw: rawSink, fin: make(chan bool)}
			var snc net.Conn
			if stall {
				sink.pause = func(n int) {
					if n == 1 {
						time.Sleep(50 * time.Millisecond)
					}
				}
			}
			rk := rand.New(rand.NewSource(rs.Int63()))
			go func() {
				defer close(sink.fin)
				nc, err := acceptOne(l, 60*time.Second)
				if err != nil {
					sink.err = err
					return
				}
				putListener(l)
				nc.SetDeadline(time.Now().Add(80 * time.Second))
				snc = nc
				if stopAt > 0 {
					prev := sink.pause
					sink.pause = func(n int) {
						if prev != nil {
							prev(n)
						}
						if n == stopAt {
							if end == 4 {
								resetConn(nc)
							} else {
								nc.Close()
							}
						}
					}
				}
				sink.serveSink(rk, nc)
				if stopAt == 0 {
					nc.Close()
				}
			}()
			nc := c.dialTool(t)
			defer nc.Close()
			var rc *rtmp.Conn
			app, stream := "app", fmt.Sprintf("s%d-%d?fwd=%s", c.Idx, s, url.QueryEscape(fwd))
			err = publishTo(rk2(rs), rawPub, nc, app, stream, pkts, pause, func(c *rtmp.Conn) { rc = c })
			if err != nil && end < 3 {
				t.alive(c)
				c.Failf("session %d: publisher: %v\n%s", s, err, t.tail())
			}
			what := fmt.Sprintf("session %d: the target", s)
			switch {
			case end < 2:
				nc.(*net.TCPConn).CloseWrite()
			case end == 2:
				// what has not been read when a connection is reset is lost
				for i := 0; i < 6000 && sink.media() < n; i++ {
					time.Sleep(5 * time.Millisecond)
					select {
					case <-sink.fin:
						i = 6000
					default:
					}
				}
				resetConn(nc)
			}
			if end < 3 {
				select {
				case <-sink.fin:
				case <-time.After(relayWait):
					t.alive(c)
					c.Failf("%s is still connected %v after its publisher ended, with %d of %d packets", what, relayWait, sink.media(), n)
				}
				sink.check(c, what, pkts, false)
				c.Count("forwarded sessions", 1)
				c.Count("forwarded packets", n)
				if end == 2 {
					return
				}
			} else {
				<-sink.fin
				sink.check(c, what, pkts, true)
				c.Count("targets that closed", 1)
			}
			// the tool ends the publisher's connection, too
			ch := make(chan bool)
			if rc != nil {
				n := rc.CloseNotify()
				go func() { <-n; close(ch) }()
			} else {
				ch = closedBy(nc)
			}
			awaitClosed(c, t, fmt.Sprintf("session %d: the publisher", s), ch)
			_ = snc
			if end < 3 {
				if !sink.raw && sink.uri != target {
					c.Failf("%s is %q, want %q", what, sink.uri, target)
				}
				if sink.raw {
					got := "/" + sink.app + "/" + sink.stream
					if got != target {
						c.Failf("%s is %q, want %q", what, got, target)
					}
				}
			}
		})
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	c.Desc("%v: %s", t.cmd.Args[1:], strings.Join(descs, "; "))
	c.finishRelay(t)
	c.Nontrivial(strings.Join(descs, ";"))
	c.State("forwarding sessions", k, strings.Join(descs, ";"))
	c.Sample("%s", strings.Join(descs, "; "))
}

func rk2(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }

// forwardRefusal: sessions with nowhere to go are closed, and nothing else
// happens.
func forwardRefusal(c *C, t *tool) {
	r := c.R
	t.alive(c)
	dir, rm := c.scratch()
	defer rm()
	os.WriteFile(filepath.Join(dir, "there.flv"), []byte("precious"), 0644)
	before := dirState(dir)
	kind := r.Intn(6)
	q := ""
	switch kind {
	case 0: // none
		q = []string{"", "?x=1", "?fwd=", "?FWD=rtmp://127.0.0.1/a/b"}[r.Intn(4)]
	case 1: // nobody listens
		q = "?fwd=" + url.QueryEscape("rtmp://127.0.0.1:1/app/x")
	case 2: // files
		f := filepath.Join(dir, []string{"new.flv", "there.flv", "new.mp4"}[r.Intn(3)])
		q = "?fwd=" + url.QueryEscape([]string{"", "file://"}[r.Intn(2)]+f)
	case 3: // not URLs
		q = "?fwd=" + url.QueryEscape([]string{"rtmp://[::1", "%zz", "rtmp", ":", "rtmp://127.0.0.1:port/x", "ftp://127.0.0.1/a"}[r.Intn(6)])
	case 4, 5: // players
		l, err := getListener()
		if err != nil {
			c.X.Note("listen: %v", err)
			return
		}
		defer l.Close()
		q = "?fwd=" + url.QueryEscape("rtmp://"+l.Addr().String()+"/app/x")
		go func() {
			if nc, err := acceptOne(l, 5*time.Second); err == nil {
				c.Count("players forwarded", 1)
				nc.Close()
			}
		}()
	}
	c.Desc("%v: kind %d %s", t.cmd.Args[1:], kind, q)
	nc := c.dialTool(t)
	defer nc.Close()
	raw := r.Intn(2) == 0
	path := "s" + q
	if kind >= 4 {
		e := &endPoint{raw: raw}
		done := make(chan bool)
		go func() { e.play(r2(c), nc, "/app/"+path); close(done) }()
		awaitClosed(c, t, "the player", done)
		if e.media() > 0 {
			c.Failf("a player got media")
		}
	} else {
		done := make(chan bool)
		rk := r2(c)
		go func() {
			publishTo(rk, raw, nc, "app", path, nil, nil, nil)
			io.Copy(io.Discard, nc)
			close(done)
		}()
		awaitClosed(c, t, "the publisher", done)
	}
	if d := dirState(dir); d != before {
		c.Failf("the directory changed:\n%s\n->\n%s", before, d)
	}
	c.finishRelay(t)
	c.Count("forward refusals", 1)
	c.Nontrivial(kind, raw, strings.ReplaceAll(q, dir, ""))
}

// ---------------------------------------------------------------- benchmark server

func benchCase(c *C) {
	r := c.R
	dir, rm := c.scratch()
	defer rm()
	span := 1 + r.Int63n(600)
	n := 1 + r.Intn(80)
	var pkts []av.Packet
	for _, p := range toolPackets(c, n, 8000, span) {
		pkts = append(pkts, wantRead(p))
	}
	name := filepath.Join(dir, genName(r, ".flv"))
	os.WriteFile(name, flvFile(pkts), 0644)
	t := startTool(c.X, 1+r.Intn(8), "benchrtmp", "ADDR", (&url.URL{Path: name}).String())
	defer t.stop()
	t.ready()
	players := 1 + r.Intn(6)
	c.Desc("benchrtmp: %d packets over %d ms, %d players", n, span, players)
	var wg sync.WaitGroup
	for i := 0; i < players; i++ {
		rs := rk2(r)
		kind := rs.Intn(6) // 0: leaves early, 1: publishes, else plays
		own := toolPackets(c, 1+rs.Intn(30), 20000, 0)
		if i == 0 {
			kind = 2
		}
		delay := time.Duration(rs.Int63n(span+1)) * time.Millisecond
		c.Go(&wg, func() {
			if i > 0 {
				time.Sleep(delay)
			}
			nc := c.dialTool(t)
			defer nc.Close()
			raw := rs.Intn(2) == 0
			if kind == 1 {
				err := publishTo(rs, raw, nc, "app", "p", own, nil, nil)
				if err != nil {
					t.alive(c)
					c.Failf("publisher: %v\n%s", err, t.tail())
				}
				nc.(*net.TCPConn).CloseWrite()
				if raw || rs.Intn(2) == 0 {
					nc.Close()
				}
				c.Count("bench publishers", 1)
				return
			}
			e := &endPoint{raw: raw}
			if kind == 0 {
				stop := 1 + rs.Intn(n)
				e.pause = func(k int) {
					if k == stop {
						resetConn(nc)
					}
				}
			}
			start := time.Now()
			done := make(chan bool)
			go func() { c.Guard(func() { e.play(rs, nc, "/app/any") }); close(done) }()
			select {
			case <-done:
			case <-time.After(relayWait + time.Duration(span)*time.Millisecond):
				t.alive(c)
				c.Failf("player %d: %d of %d packets and no end", i, e.media(), n)
			}
			e.check(c, fmt.Sprintf("player %d", i), pkts, kind == 0)
			if kind == 0 {
				return
			}
			if _, err := e.g.fin(); !e.raw && !errors.Is(err, io.EOF) {
				c.Failf("player %d: end: %v", i, err)
			}
			var max time.Duration
			for k, at := range e.at {
				if k > 0 && pkts[k-1].Time > max {
					max = pkts[k-1].Time
				}
				if at.Sub(start) < max {
					c.Failf("player %d: packet %d came %v after the start, before the previous one's time %v was over", i, k, at.Sub(start), max)
				}
			}
			c.Count("bench players", 1)
			c.Count("played packets", n)
		})
	}
	wg.Wait()
	c.finishRelay(t)
	ok := false
	for k := 0; k < 300 && !ok; k++ {
		if ok = t.fds() <= 1; !ok {
			time.Sleep(100 * time.Millisecond)
		}
	}
	if !ok {
		c.Failf("%d sockets 30 s after the last session", t.fds())
	}
	c.Nontrivial(n, span, players, c.Idx)
	c.Sample("benchrtmp: %d packets over %d ms to %d players", n, span, players)
}

// benchStall: players that do not read do not hold up the others.
func benchStall(c *C) {
	r := c.R
	dir, rm := c.scratch()
	defer rm()
	var pkts []av.Packet
	n := 300
	for i := 0; i < n; i++ {
		d := make([]byte, 50000+r.Intn(20000))
		binary.BigEndian.PutUint32(d, uint32(i))
		pkts = append(pkts, av.Packet{Type: av.H264, IsKeyFrame: i%50 == 0, Data: d, Time: time.Duration(i) * time.Millisecond})
	}
	name := filepath.Join(dir, "big.flv")
	os.WriteFile(name, flvFile(pkts), 0644)
	t := startTool(c.X, 1+r.Intn(4), "benchrtmp", "ADDR", name)
	defer t.stop()
	t.ready()
	gate := make(chan bool)
	var stuck []net.Conn
	for i := 0; i < 3; i++ {
		nc := c.dialTool(t)
		nc.(*net.TCPConn).SetReadBuffer(4096)
		stuck = append(stuck, nc)
		e := &endPoint{raw: true, pause: func(int) { <-gate }}
		go e.play(r2(c), nc, "/app/stuck")
	}
	c.Desc("benchrtmp: %d packets, 3 stalled players", n)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		rs := rk2(r)
		c.Go(&wg, func() {
			nc := c.dialTool(t)
			defer nc.Close()
			e := &endPoint{raw: true} // sends no acknowledgements, so the end is not cut
			done := make(chan bool)
			go func() { e.play(rs, nc, "/app/any"); close(done) }()
			select {
			case <-done:
			case <-time.After(2 * relayWait):
				t.alive(c)
				c.Failf("player %d beside stalled ones: %d of %d packets and no end", i, e.media(), n)
			}
			e.check(c, fmt.Sprintf("player %d", i), pkts, false)
			c.Count("bench players", 1)
		})
	}
	wg.Wait()
	close(gate)
	for _, nc := range stuck {
		resetConn(nc)
	}
	c.finishRelay(t)
	c.Count("stalled bench players", 3)
	c.Nontrivial(c.Idx)
}

var _ = atomic.AddInt64
