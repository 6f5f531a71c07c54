package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"
	"github.com/nareix/joy5/format/rtsp"
)

func init() {
	register(&propDef{
		id:   "C29",
		mul:  4,
		rule: "sessions, files and connections with observers attached: what each observer was told is compared with the bytes tapped from the transport, the items written and read and the outcome, and the same workload without observers must give the same bytes and packets. Non-trivial = at least one observer reported something; distinct by workload",
		assume: []string{
			"observers return without touching what they are shown and do not call back into the connection",
		},
		must: []string{"byte events", "tag events", "stage events", "runs compared", "failed negotiations", "peer gone", "peer present", "sample access", "raw players", "peer gone early", "bypassed", "header events", "debug sessions", "hostile debug sessions", "printed tags", "printed hostile tags", "json entries"},
		run:  runC29,
	})
}

// rtmpWatch records what the hooks of one connection report.
type rtmpWatch struct {
	c       *C
	who     string
	mu      sync.Mutex
	on      [5]bool
	rd, wr  []byte
	rt, wt  []flvio.Tag
	stages  [][2]string
	calls   int
	evs     []int
	conn    *rtmp.Conn
	badConn bool
}

func (w *rtmpWatch) attach(rc *rtmp.Conn) {
	w.conn = rc
	if w.on[0] {
		rc.LogChunkDataEvent = func(isRead bool, b []byte) {
			w.mu.Lock()
			defer w.mu.Unlock()
			if isRead {
				w.rd = append(w.rd, b...)
			} else {
				w.wr = append(w.wr, b...)
			}
		}
	}
	if w.on[1] {
		rc.LogTagEvent = func(isRead bool, t flvio.Tag) {
			t.Data = append([]byte(nil), t.Data...)
			w.mu.Lock()
			defer w.mu.Unlock()
			if isRead {
				w.rt = append(w.rt, t)
			} else {
				w.wt = append(w.wt, t)
			}
		}
	}
	if w.on[2] {
		rc.LogStageEvent = func(e, u string) {
			w.mu.Lock()
			defer w.mu.Unlock()
			w.stages = append(w.stages, [2]string{e, u})
		}
	}
	// these take a type of the package's own
	for i, name := range []string{"LogMsgEvent", "LogChunkHeaderEvent"} {
		f := reflect.ValueOf(rc).Elem().FieldByName(name)
		if w.on[3+i] && f.IsValid() && f.Kind() == reflect.Func {
			f.Set(reflect.MakeFunc(f.Type(), func(a []reflect.Value) (out []reflect.Value) {
				w.mu.Lock()
				defer w.mu.Unlock()
				w.calls++
				for k := 0; k < f.Type().NumOut(); k++ {
					out = append(out, reflect.Zero(f.Type().Out(k)))
				}
				return
			}))
		}
	}
}

func (w *rtmpWatch) event(rc *rtmp.Conn, nc net.Conn, e int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.evs = append(w.evs, e)
	if rc == nil || nc == nil || w.conn != nil && w.conn != rc {
		w.badConn = true
	}
}

// checkStages compares the reported stages with the session's role and end.
func (w *rtmpWatch) checkStages(role, u string, last rtmp.Stage) {
	if !w.on[2] {
		return
	}
	c := w.c
	order := []rtmp.Stage{rtmp.StageHandshakeDone, rtmp.StageGotPublishOrPlayCommand, rtmp.StageCommandDone, rtmp.StageDataStart}
	k, roles := 0, 0
	for i, s := range w.stages {
		if s[0] == role {
			if roles++; roles > 1 || i != 1 {
				c.Failf("%s: role event %d of %v", w.who, i, w.stages)
			}
			if s[1] != u {
				c.Failf("%s: role event with the URL %q, the connection's is %q", w.who, s[1], u)
			}
			continue
		}
		for k < len(order) && "Rtmp"+order[k].String() != s[0] {
			k++
		}
		if k == len(order) {
			c.Failf("%s: stage events %v", w.who, w.stages)
		}
		k++
		if s[1] != "" {
			c.Failf("%s: stage events %v", w.who, w.stages)
		}
	}
	if roles != 1 || w.stages[0][0] != "Rtmp"+order[0].String() {
		c.Failf("%s: stage events %v, role %s", w.who, w.stages, role)
	}
	if e := w.stages[len(w.stages)-1][0]; last > rtmp.StageCommandDone && e != "Rtmp"+last.String() {
		c.Failf("%s: stage events %v, reached %v", w.who, w.stages, last)
	}
	c.Count("stage events", len(w.stages))
}

type watchedRun struct {
	cb, sb []byte // after the handshake
	pkts   []av.Packet
	tags   []flvio.Tag
	err    string
}

type watchedSpec struct {
	publish, rtags, wtags bool
	mode, capacity        int
	seed                  int64
	pkts                  []av.Packet
	tags                  []flvio.Tag
	access                bool
	stop                  int // the reader stops after so many, if > 0
}

// watchedSession runs one library pair with the observers of cw and sw.
func watchedSession(c *C, s *watchedSpec, cw, sw *rtmpWatch) (w watchedRun) {
	u := mustURL("rtmp://host:1935/app/stream?a=b")
	a, b := memPipe(rand.New(rand.NewSource(s.seed)), s.capacity, s.mode)
	a.Linger()
	b.Linger()
	a.Tap()
	b.Tap()
	g := &gotTags{}
	write := func(rc *rtmp.Conn) {
		if s.wtags || len(s.pkts) == 0 {
			if err := rc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); err != nil {
				c.Failf("Prepare: %v", err)
			}
			for i, t := range s.tags {
				if err := rc.WriteTag(t); err != nil {
					c.Failf("WriteTag %d: %v", i, err)
				}
			}
			return
		}
		for i, p := range s.pkts {
			if err := rc.WritePacket(p); err != nil {
				c.Failf("WritePacket %d: %v", i, err)
			}
		}
	}
	var cend, send rtmp.Stage
	var curl, surl string
	c.Bubble(func() {
		var wg sync.WaitGroup
		srv := rtmp.NewServer()
		srv.OnNewConn = func(rc *rtmp.Conn) {
			rc.SendSampleAccess = s.access
			sw.attach(rc)
		}
		srv.LogEvent = sw.event
		srv.HandleConn = func(rc *rtmp.Conn, nc net.Conn) {
			if s.publish {
				g.readLoop(rc, s.rtags, nil)
				nc.Close()
			} else {
				write(rc)
				nc.(*memConn).CloseWrite()
				<-rc.CloseNotify()
				nc.Close()
			}
			send, surl = rc.Stage, rc.URL.String()
		}
		c.Go(&wg, func() { srv.HandleNetConn(b) })
		cc := rtmp.NewConn(&struct {
			*bufio.Reader
			*bufio.Writer
		}{bufio.NewReader(a), bufio.NewWriter(a)})
		cc.URL = u
		cw.attach(cc)
		flags := rtmp.PrepareReading
		if s.publish {
			flags = rtmp.PrepareWriting
		}
		if err := cc.Prepare(rtmp.StageGotPublishOrPlayCommand, flags); err != nil {
			c.Failf("client: %v", err)
		}
		if s.publish {
			write(cc)
			a.CloseWrite()
			<-cc.CloseNotify()
		} else {
			g.readLoop(cc, s.rtags, nil)
		}
		a.Close()
		wg.Wait()
		cend, curl = cc.Stage, cc.URL.String()
	})
	w.cb, w.sb = a.Tapped(), b.Tapped()
	w.pkts, w.tags = g.pkts, g.tags
	if g.err != nil {
		w.err = g.err.Error()
	}
	// what the observers were told
	for _, side := range []struct {
		w        *rtmpWatch
		out, in  []byte
		writing  bool
		role, at string
		end      rtmp.Stage
	}{
		{cw, w.cb, w.sb, s.publish, map[bool]string{true: "RtmpDialPublish", false: "RtmpDialPlay"}[s.publish], curl, cend},
		{sw, w.sb, w.cb, !s.publish, map[bool]string{true: "RtmpServerPublish", false: "RtmpServerPlay"}[s.publish], surl, send},
	} {
		o := side.w
		if o.on[0] {
			if out := side.out[3073:]; !bytes.Equal(o.wr, out) {
				c.Failf("%s: events of %d written bytes, %d on the transport, %s", o.who, len(o.wr), len(out), firstDiff(o.wr, out))
			}
			if in := side.in[3073:]; !bytes.HasPrefix(in, o.rd) || !side.writing && len(o.rd) != len(in) || len(o.rd) == 0 {
				c.Failf("%s: events of %d read bytes, %d received, %s", o.who, len(o.rd), len(in), firstDiff(o.rd, in))
			}
			c.Count("byte events", len(o.rd)+len(o.wr))
		}
		if o.on[1] {
			if side.writing {
				if len(o.rt) > 0 {
					c.Failf("%s: %d read tag events of a session that writes", o.who, len(o.rt))
				}
				ms, err := oDecodeChunks(side.out[3073:])
				if err != nil {
					c.Failf("%s output: %v", o.who, err)
				}
				k := 0
				for _, m := range ms {
					if (m.typ == 8 || m.typ == 9 || m.typ == 18 || m.typ == 15) && !(m.typ == 18 && bytes.Contains(m.data, []byte("|RtmpSampleAccess"))) {
						if k < len(o.wt) && (o.wt[k].Type != m.typ || o.wt[k].Time != m.ts || !bytes.HasSuffix(m.data, o.wt[k].Data)) {
							c.Failf("%s: tag event %d: %v t=%d %d bytes, sent %v", o.who, k, o.wt[k].DebugFields(), o.wt[k].Time, len(o.wt[k].Data), m)
						}
						k++
					}
				}
				if k != len(o.wt) {
					c.Failf("%s: %d tag events, %d tags sent", o.who, len(o.wt), k)
				}
				if s.wtags {
					checkTags(c, o.wt, s.tags)
				}
			} else {
				if len(o.wt) > 0 {
					c.Failf("%s: %d written tag events of a session that reads", o.who, len(o.wt))
				}
				if s.rtags {
					checkTags(c, o.rt, w.tags)
				}
			}
			c.Count("tag events", len(o.rt)+len(o.wt))
		}
		if o.on != [5]bool{} {
			o.checkStages(side.role, side.at, side.end)
		}
	}
	if cw.on[1] && sw.on[1] {
		from, to := cw.wt, sw.rt
		if !s.publish {
			from, to = sw.wt, cw.rt
			if s.access && len(to) > 0 && bytes.Contains(to[0].Data, []byte("|RtmpSampleAccess")) {
				to = to[1:]
			}
		}
		checkTags(c, to, from)
	}
	if len(sw.evs) != 1 || sw.evs[0] != rtmp.EventConnConnected || sw.badConn {
		c.Failf("server events %v of one good connection (wrong connection: %v)", sw.evs, sw.badConn)
	}
	return
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at %d", i)
		}
	}
	return "one is a prefix of the other"
}

func watchPair(c *C) {
	r := c.R
	s := &watchedSpec{publish: r.Intn(2) == 0, rtags: r.Intn(2) == 0, wtags: r.Intn(2) == 0, mode: r.Intn(4), capacity: []int{0, 0, 100, 5000}[r.Intn(4)], seed: r.Int63()}
	s.access = r.Intn(2) == 0
	n := r.Intn(25)
	var last int64
	for i := 0; i < n; i++ {
		size := rtmpSize(r)
		if s.mode == 1 || s.capacity == 100 {
			size = r.Intn(r.Intn(3000) + 1)
		}
		if s.wtags {
			t := genTag(r, size, &last)
			if t.Type == flvio.TAG_AMF0 && r.Intn(2) == 0 {
				t.Type = flvio.TAG_AMF3
			}
			s.tags = append(s.tags, t)
		} else {
			s.pkts = append(s.pkts, genPacket(r, i, &last, size))
		}
	}
	cw, sw := &rtmpWatch{c: c, who: "client"}, &rtmpWatch{c: c, who: "server"}
	all := r.Intn(2) == 0
	for _, w := range []*rtmpWatch{cw, sw} {
		for i := range w.on {
			w.on[i] = all || r.Intn(2) == 0
		}
	}
	if !all && r.Intn(3) == 0 {
		cw.on = [5]bool{}
	}
	c.Desc("publish=%v tags %v/%v access=%v mode=%d capacity=%d client %v server %v n=%d", s.publish, s.wtags, s.rtags, s.access, s.mode, s.capacity, cw.on, sw.on, n)
	w := watchedSession(c, s, cw, sw)
	z := watchedSession(c, s, &rtmpWatch{c: c, who: "client"}, &rtmpWatch{c: c, who: "server"})
	if !bytes.Equal(w.cb[3073:], z.cb[3073:]) {
		c.Failf("the client's bytes differ when observed: %d, %d unobserved, %s", len(w.cb), len(z.cb), firstDiff(w.cb[3073:], z.cb[3073:]))
	}
	if !bytes.Equal(w.sb[3073:], z.sb[3073:]) {
		c.Failf("the server's bytes differ when observed: %d, %d unobserved, %s", len(w.sb), len(z.sb), firstDiff(w.sb[3073:], z.sb[3073:]))
	}
	if w.err != z.err {
		c.Failf("the reader ended with %q when observed, %q unobserved", w.err, z.err)
	}
	checkTags(c, w.tags, z.tags)
	checkPackets(c, "observed session", w.pkts, z.pkts)
	// sample access
	ms, err := oDecodeChunks(w.sb[3073:])
	if err != nil {
		c.Failf("server output: %v", err)
	}
	seen := 0
	for i, m := range ms {
		if m.typ == 18 && bytes.Equal(m.data, append([]byte("\x02\x00\x11|RtmpSampleAccess"), 1, 1, 1, 1)) {
			seen++
			c.Count("sample access", 1)
			for _, q := range ms[:i] {
				if q.typ == 8 || q.typ == 9 || q.typ == 18 {
					c.Failf("sample access announced after %v", q)
				}
			}
			if m.sid != 1 {
				c.Failf("sample access announced on message stream %d", m.sid)
			}
		}
	}
	if want := map[bool]int{true: 1}[s.access && !s.publish]; seen != want {
		c.Failf("sample access announced %d times, set: %v", seen, s.access)
	}
	if !s.rtags && !s.wtags {
		var want []av.Packet
		for _, p := range s.pkts {
			want = append(want, wantRead(p))
		}
		checkPackets(c, "observed session", w.pkts, want)
	}
	if cw.calls+sw.calls > 0 {
		c.Count("message and chunk events", cw.calls+sw.calls)
	}
	c.Count("runs compared", 1)
	c.State("pair", s.publish, s.rtags, s.wtags, s.access, cw.on, sw.on)
	if cw.on != [5]bool{} || sw.on != [5]bool{} {
		c.Nontrivial(s.seed)
	}
	c.Sample("publish=%v, %d items, observers %v %v: %d and %d bytes, same without observers", s.publish, n, cw.on, sw.on, len(w.cb), len(w.sb))
}

// watchFailure runs negotiations that may fail.
func watchFailure(c *C) {
	r := c.R
	asServer := r.Intn(2) == 0
	a, b := memPipe(r, 0, r.Intn(4))
	a.Linger()
	w := &rtmpWatch{c: c, who: "library", on: [5]bool{false, false, true}}
	p := newPeer(r, b)
	o := basicOpts(r, asServer && r.Intn(2) == 0)
	kind := r.Intn(7)
	failed, handled := false, 0
	var took time.Duration
	c.Desc("server=%v kind %d", asServer, kind)
	c.Bubble(func() {
		var wg sync.WaitGroup
		if asServer {
			srv := rtmp.NewServer()
			srv.OnNewConn = w.attach
			srv.LogEvent = w.event
			srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) { handled++; nc.Close() }
			c.Go(&wg, func() {
				t := time.Now()
				srv.HandleNetConn(a)
				took = time.Since(t)
				if !a.isClosed() {
					c.Failf("the connection is left open")
				}
			})
		} else {
			cl := rtmp.NewClient()
			cl.LogEvent = w.event
			c.Go(&wg, func() {
				t := time.Now()
				flags := rtmp.PrepareReading
				if o.publish {
					flags = rtmp.PrepareWriting
				}
				cc, err := cl.FromNetConn(a, mustURL("rtmp://h/live/room"), flags)
				if failed = err != nil; !failed {
					handled++
					if cc == nil {
						c.Failf("neither a connection nor an error")
					}
				}
				took = time.Since(t)
				a.Close()
			})
		}
		switch kind {
		case 0, 1: // goes well
			var err error
			if asServer {
				err = p.rawConnect(o)
			} else {
				err = p.rawAccept(o)
			}
			if err != nil {
				c.Failf("peer: %v", err)
			}
			p.drain(nil)
		case 2: // gone before or in the handshake
			writePieces(r, b, append([]byte{3}, genBytes(r, r.Intn(1536))...))
		case 3: // nonsense
			writePieces(r, b, append([]byte{byte(4 + r.Intn(100))}, genBytes(r, r.Intn(8000))...))
		case 4: // silence
			c.Go(&wg, func() { io.Copy(io.Discard, b) })
			writePieces(r, b, append([]byte{3}, genBytes(r, r.Intn(1536))...))
			time.Sleep(time.Minute)
		case 5: // gone after the handshake
			if asServer {
				rHandshakeClient(r, b, o.layout)
			} else {
				rHandshakeServer(r, b, o.layout)
			}
		case 6: // a handshake, then no RTMP
			if asServer {
				rHandshakeClient(r, b, o.layout)
				// a command that is none
				p.w.put(3, rMsg{typ: 20, data: cmdData(aS("connect"), aN(1))})
				p.flush()
				c.Go(&wg, func() { io.Copy(io.Discard, b) })
				time.Sleep(time.Minute)
			} else {
				rHandshakeServer(r, b, o.layout)
				m, err := p.await(func(m rMsg) bool { return isCmd(m, "connect", -1) })
				if err != nil {
					c.Failf("peer: %v", err)
				}
				_, vs, _ := rCommand(m)
				p.cmd(3, 0, aS("_error"), vs[1], aNil, aO("level", aS("error"), "code", aS("NetConnection.Connect.Rejected")))
				p.flush()
				c.Go(&wg, func() { io.Copy(io.Discard, b) })
				time.Sleep(time.Minute)
			}
		}
		b.Close()
		wg.Wait()
	})
	good := kind < 2
	if good != (handled == 1) || handled > 1 {
		c.Failf("negotiation of kind %d: handed over %d times (failed %v)", kind, handled, failed)
	}
	var want []int
	if asServer {
		want = append(want, rtmp.EventConnConnected)
	}
	if !good {
		want = append(want, rtmp.EventHandshakeFailed)
		c.Count("failed negotiations", 1)
	} else {
		c.Count("good negotiations", 1)
	}
	if fmt.Sprint(w.evs) != fmt.Sprint(want) || w.badConn {
		c.Failf("events %v, want %v (wrong connection: %v)", names(w.evs), names(want), w.badConn)
	}
	if !good && took > 20*time.Second {
		c.Failf("the failure took %v", took)
	}
	c.State("negotiation", asServer, kind, o.publish)
	c.Nontrivial(asServer, kind, c.Idx)
}

func names(evs []int) (s []string) {
	for _, e := range evs {
		s = append(s, rtmp.EventString[e])
	}
	return
}

// watchClose checks when a sending session learns that its peer is gone.
func watchClose(c *C) {
	r := c.R
	asServer := r.Intn(2) == 0
	a, b := memPipe(r, 0, []int{0, 2, 3}[r.Intn(3)])
	a.Linger()
	p := newPeer(r, b)
	o := basicOpts(r, !asServer)
	how := r.Intn(3)
	wait := time.Duration(r.Intn(10000)) * time.Millisecond
	if r.Intn(3) == 0 {
		wait = time.Duration(r.Intn(100)) * time.Hour
	}
	chat := r.Intn(4)
	early, accepted := r.Intn(3) == 0, r.Intn(2) == 0
	c.Desc("server=%v end %d after %v chat %d early=%v accepted=%v", asServer, how, wait, chat, early, accepted)
	c.Bubble(func() {
		var wg sync.WaitGroup
		fired := make(chan time.Time, 4)
		gone, ready := make(chan bool), make(chan bool)
		use := func(rc *rtmp.Conn, nc net.Conn) {
			if early {
				if accepted {
					if err := rc.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting); err != nil {
						c.Failf("Prepare: %v", err)
					}
				}
				c.Count("peer gone early", 1)
			} else if r2(c).Intn(2) == 0 {
				if err := rc.WritePacket(av.Packet{Type: av.AAC, Data: []byte{1, 2, 3}}); err != nil {
					c.Failf("write: %v", err)
				}
			} else if err := rc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); err != nil {
				c.Failf("Prepare: %v", err)
			}
			close(ready)
			go func() {
				<-rc.CloseNotify()
				fired <- time.Now()
			}()
			<-gone
			nc.Close()
		}
		if asServer {
			srv := rtmp.NewServer()
			srv.HandleConn = use
			c.Go(&wg, func() { srv.HandleNetConn(a) })
		} else {
			c.Go(&wg, func() {
				cc, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h/live/room"), rtmp.PrepareWriting)
				if err != nil {
					c.Failf("client: %v", err)
				}
				use(cc, a)
			})
		}
		var err error
		if asServer {
			err = p.rawConnect(o)
		} else {
			err = p.rawAccept(o)
		}
		if err != nil {
			c.Failf("peer: %v", err)
		}
		c.Go(&wg, func() { io.Copy(io.Discard, b) })
		<-ready
		say := func() {
			switch chat {
			case 1: // what players and servers send
				for k := r.Intn(20); k > 0; k-- {
					switch r.Intn(4) {
					case 0:
						p.w.put(2, rMsg{typ: 3, data: be32(r.Uint32())})
					case 1:
						p.w.put(2, rMsg{typ: 4, data: append([]byte{0, byte(r.Intn(8))}, be32(r.Uint32())...)})
					case 2:
						p.cmd(3, 1, aS([]string{"pause", "seek", "receiveAudio", "closeStream", "deleteStream", "FCUnpublish", "onStatus"}[r.Intn(7)]), aN(0), aNil, &aVal{kind: aBool})
					case 3:
						p.w.put(5, rMsg{typ: uint8(8 + r.Intn(2)), sid: 1, data: genBytes(r, r.Intn(2000))})
					}
				}
				p.flush()
			case 2: // no RTMP at all
				writePieces(r, b, genBytes(r, r.Intn(10000)))
			case 3: // a great deal
				for k := 0; k < 40; k++ {
					b.Write(genBytes(r, 1+r.Intn(20000)))
				}
			}
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			say()
			time.Sleep(wait / 3)
		}
		select {
		case t := <-fired:
			c.Failf("told at %v that the peer is gone, which is there", t)
		default:
			c.Count("peer present", 1)
		}
		t0 := time.Now()
		switch how {
		case 0:
			b.Close()
		case 1:
			b.CloseWrite()
		case 2:
			b.Abort()
		}
		select {
		case t := <-fired:
			if d := t.Sub(t0); d > 5*time.Second {
				c.Failf("told %v after the peer had gone", d)
			}
			c.Count("peer gone", 1)
		case <-time.After(time.Hour):
			c.Failf("not told within an hour that the peer is gone")
		}
		close(gone)
		b.Close()
		wg.Wait()
		if len(fired) > 0 {
			c.Failf("told more than once")
		}
	})
	c.State("close", asServer, how, chat, early, accepted)
	c.Nontrivial(asServer, how, chat, wait)
}

// watchBypass reads a raw peer's messages with some types handed out raw.
func watchBypass(c *C) {
	r := c.R
	asServer := r.Intn(2) == 0
	a, b := memPipe(r, 0, r.Intn(4))
	p := newPeer(r, b)
	o := basicOpts(r, asServer)
	var list []uint8
	raw := map[uint8]bool{}
	for _, t := range []uint8{8, 9, 18, 15, 19, 16, 40, 255} {
		if r.Intn(3) == 0 {
			list = append(list, t)
			raw[t] = true
		}
	}
	r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	n := 1 + r.Intn(40)
	c.Desc("server=%v bypass %v n=%d", asServer, list, n)
	g := &gotTags{}
	var want, told []flvio.Tag
	c.Bubble(func() {
		var wg sync.WaitGroup
		set := func(rc *rtmp.Conn) {
			rc.BypassMsgtypeid = list
			rc.LogTagEvent = func(isRead bool, t flvio.Tag) {
				if !isRead {
					c.Failf("written tag event of a session that reads")
				}
				t.Data = append([]byte(nil), t.Data...)
				told = append(told, t)
			}
		}
		if asServer {
			srv := rtmp.NewServer()
			srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
				set(sc)
				g.readLoop(sc, true, nil)
				nc.Close()
			}
			c.Go(&wg, func() { srv.HandleNetConn(a) })
		} else {
			libReader(c, &wg, false, a, g, true, set, nil)
		}
		var err error
		if asServer {
			err = p.rawConnect(o)
		} else {
			err = p.rawAccept(o)
		}
		if err != nil {
			c.Failf("peer: %v", err)
		}
		c.Go(&wg, func() { p.drain(nil) })
		sid := o.sid
		if asServer {
			sid = 1
		}
		var last int64
		for i := 0; i < n; i++ {
			last = genTimeMs(r, last)
			m := rMsg{typ: []uint8{8, 9, 18, 15, 19, 16, 40, 255, 8, 9}[r.Intn(10)], sid: sid, ts: uint32(last)}
			var t flvio.Tag
			k := int64(0)
			for t = genTag(r, r.Intn(1500), &k); (m.typ == 8 || m.typ == 9) && t.Type != m.typ; t = genTag(r, r.Intn(1500), &k) {
			}
			valid := m.typ == 8 || m.typ == 9
			if valid && r.Intn(3) > 0 {
				b := make([]byte, 64)
				h := t.FillHeader(b)
				m.data = append(b[:h:h], t.Data...)
			} else {
				m.data = genBytes(r, r.Intn(1500))
			}
			p.w.put([]uint32{4, 5, 6}[r.Intn(3)], m)
			switch {
			case raw[m.typ]:
				want = append(want, flvio.Tag{Type: m.typ, Time: m.ts, Data: m.data})
				c.Count("bypassed", 1)
			case m.typ == 8 || m.typ == 9:
				if w, ok := oBody(m); ok {
					want = append(want, w)
				}
			case m.typ == 18 || m.typ == 15:
				want = append(want, flvio.Tag{Type: m.typ, Time: m.ts, Data: m.data})
			}
			if r.Intn(4) == 0 {
				p.flush()
			}
		}
		p.flush()
		time.Sleep(time.Hour)
		b.Close()
		wg.Wait()
	})
	checkTags(c, g.tags, want)
	checkTags(c, told, want)
	c.State("bypass", asServer, len(list))
	if len(list) > 0 {
		c.Nontrivial(asServer, fmt.Sprint(list), n, c.Idx)
	}
}

// watchAccess serves raw players and looks for the announcement.
func watchAccess(c *C) {
	r := c.R
	a, b := memPipe(r, 0, r.Intn(4))
	a.Linger()
	p := newPeer(r, b)
	o := basicOpts(r, r.Intn(4) == 0)
	str := func(n int) string {
		switch r.Intn(4) {
		case 0:
			return ""
		case 1:
			return genAscii(r, r.Intn(n))
		}
		return []string{"http://site/page.html?a=1", "WIN 32,0,0,465", "LNX 9,0,124,2", "FMLE/3.0 (compatible; Lavf)", "x"}[r.Intn(5)]
	}
	o.pageURL, o.flashVer = str(300), str(30)
	o.lower, o.amf3 = r.Intn(3) == 0, r.Intn(3) == 0
	access, n := r.Intn(2) == 0, r.Intn(6)
	reject := r.Intn(5) == 0
	c.Desc("publish=%v access=%v reject=%v page %q flash %q n=%d", o.publish, access, reject, o.pageURL, o.flashVer, n)
	var got []rMsg
	c.Bubble(func() {
		var wg sync.WaitGroup
		srv := rtmp.NewServer()
		late := r.Intn(2) == 0
		if !late {
			srv.OnNewConn = func(rc *rtmp.Conn) { rc.SendSampleAccess = access }
		}
		srv.HandleConn = func(rc *rtmp.Conn, nc net.Conn) {
			rc.SendSampleAccess = access
			if reject {
				rc.PubPlayErr = fmt.Errorf("no")
				nc.Close()
				return
			}
			if o.publish {
				rc.ReadPacket()
			} else {
				for i := 0; i < n; i++ {
					if err := rc.WritePacket(av.Packet{Type: av.AAC, Time: time.Duration(i) * time.Second, Data: []byte{1, byte(i)}}); err != nil {
						c.Failf("write: %v", err)
					}
				}
				if n == 0 {
					if err := rc.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); err != nil {
						c.Failf("Prepare: %v", err)
					}
				}
			}
			nc.Close()
		}
		c.Go(&wg, func() { srv.HandleNetConn(a) })
		if err := p.rawConnect(o); err != nil && !reject {
			c.Failf("peer: %v", err)
		}
		b.CloseWrite()
		p.drain(func(m rMsg) { got = append(got, m) })
		b.Close()
		wg.Wait()
	})
	seen, media := 0, 0
	for _, m := range got {
		switch {
		case m.typ == 18 && bytes.Contains(m.data, []byte("|RtmpSampleAccess")):
			seen++
			if media > 0 {
				c.Failf("sample access announced after %d media messages", media)
			}
		case m.typ == 8 || m.typ == 9:
			media++
		}
	}
	if want := map[bool]int{true: 1}[access && !o.publish && !reject]; seen != want {
		c.Failf("sample access announced %d times, want %d", seen, want)
	}
	if !o.publish && !reject && media < n {
		c.Failf("%d of %d packets", media, n)
	}
	c.Count("raw players", map[bool]int{true: 1}[!o.publish && access])
	c.State("access", o.publish, access, reject, o.lower, o.amf3)
	c.Nontrivial(o.publish, access, reject, o.pageURL, o.flashVer, n)
}

// oBody is the tag an audio or video message body holds, if it holds one.
func oBody(m rMsg) (t flvio.Tag, ok bool) {
	b := m.data
	t = flvio.Tag{Type: m.typ, Time: m.ts}
	if len(b) < 1 {
		return
	}
	f := b[0]
	b = b[1:]
	if m.typ == 8 {
		t.SoundFormat, t.SoundRate, t.SoundSize, t.SoundType = f>>4, f>>2&3, f>>1&1, f&1
		if t.SoundFormat == flvio.SOUND_AAC {
			if len(b) < 1 {
				return
			}
			t.AACPacketType = b[0]
			b = b[1:]
		}
	} else {
		t.FrameType, t.VideoFormat = f>>4, f&15
		if t.VideoFormat == flvio.VIDEO_H264 || t.VideoFormat == flvio.VIDEO_H265 {
			if len(b) < 4 {
				return
			}
			t.AVCPacketType = b[0]
			t.CTime = int32(uint32(b[1])<<24|uint32(b[2])<<16|uint32(b[3])<<8) >> 8
			b = b[4:]
		}
	}
	t.Data = b
	return t, true
}

func watchFLV(c *C) {
	r := c.R
	file, want, _ := genForeignFLV(c, r.Intn(30), 3000)
	read := func(hook func(uint8)) (ps []av.Packet, err error) {
		d := flv.NewDemuxer(bytes.NewReader(file))
		d.LogHeaderEvent = hook
		for {
			p, err := d.ReadPacket()
			if err != nil {
				return ps, err
			}
			ps = append(ps, p)
		}
	}
	cut := r.Intn(4) == 0
	if cut {
		file = file[:r.Intn(len(file)+1)]
	}
	var flags []uint8
	ps, err := read(func(f uint8) { flags = append(flags, f) })
	zs, zerr := read(nil)
	if fmt.Sprint(err) != fmt.Sprint(zerr) {
		c.Failf("reading ended with %v when observed, %v unobserved", err, zerr)
	}
	checkPackets(c, "observed file", ps, zs)
	if !cut {
		checkPackets(c, "observed file", ps, want)
	}
	switch {
	case len(file) < 9 && len(flags) > 0:
		c.Failf("header event of a file of %d bytes", len(file))
	case len(file) >= 13 && len(flags) != 1 || len(flags) > 1 || len(flags) == 1 && flags[0] != file[4]:
		c.Failf("header events %x of a file with flags %x", flags, file[4])
	}
	c.Count("header events", len(flags))
	if len(flags) > 0 {
		c.Nontrivial(string(head(string(file), 4000)), len(file))
	}
}

// genPrintable is a value that JSON can hold.
func genPrintable(r *rand.Rand, depth int) *aVal {
	str := func() string {
		s := ""
		for i := r.Intn(6); i > 0; i-- {
			s += []string{"a", "key", "\"", "\\", "<&>", "\n", "\x00", "\x1b", "é", "\u2028", "漢", "😀", " ", "{", "]", ","}[r.Intn(16)]
		}
		return s
	}
	n := 6
	if depth == 0 {
		n = 4
	}
	switch r.Intn(n) {
	case 0:
		f := genNum(r)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		return &aVal{kind: aNum, f: f}
	case 1:
		return &aVal{kind: aBool, b: r.Intn(2) == 0}
	case 2:
		return &aVal{kind: aStr, s: str()}
	case 3:
		return &aVal{kind: aNull}
	case 4:
		v := &aVal{kind: aStrict}
		for i := r.Intn(5); i > 0; i-- {
			v.arr = append(v.arr, genPrintable(r, depth-1))
		}
		return v
	}
	v := &aVal{kind: aObj}
	for i := r.Intn(6); i > 0; i-- {
		k := fmt.Sprint(str(), i) // keys differ
		v.kv = append(v.kv, aKV{k, genPrintable(r, depth-1)})
	}
	return v
}

// jsonHolds reads one value from d and compares it with v.
func jsonHolds(c *C, d *json.Decoder, v *aVal) {
	tok := func() json.Token {
		t, err := d.Token()
		if err != nil {
			c.Failf("JSON ends or breaks where %v belongs: %v", v, err)
		}
		return t
	}
	want := func(w json.Token) {
		if t := tok(); t != w {
			c.Failf("JSON has %v, want %v", t, w)
		}
	}
	switch v.kind {
	case aNum:
		n, ok := tok().(json.Number)
		if f, err := n.Float64(); !ok || err != nil || f != v.f {
			c.Failf("JSON has %v for the number %v", n, v.f)
		}
	case aBool:
		want(v.b)
	case aStr:
		want(v.s)
	case aNull:
		want(nil)
	case aStrict:
		want(json.Delim('['))
		for _, e := range v.arr {
			jsonHolds(c, d, e)
		}
		want(json.Delim(']'))
	case aObj:
		want(json.Delim('{'))
		for _, e := range v.kv {
			want(e.k)
			jsonHolds(c, d, e.v)
			c.Count("json entries", 1)
		}
		want(json.Delim('}'))
	}
}

// watchPrint prints what hooks are given.
func watchPrint(c *C) {
	r := c.R
	field := func(f []interface{}, k string) (interface{}, bool) {
		if len(f)%2 != 0 {
			c.Failf("debug fields do not pair up: %v", f)
		}
		for i := 0; i < len(f); i += 2 {
			if f[i] == k {
				return f[i+1], true
			}
		}
		return nil, false
	}
	// a tag of values
	var b []byte
	var vals []*aVal
	for i := 1 + r.Intn(3); i > 0; i-- {
		v := genPrintable(r, 4)
		vals = append(vals, v)
		b = aEncode(b, v)
	}
	c.Desc("%d values %x", len(vals), b)
	t := flvio.Tag{Type: flvio.TAG_AMF0, Time: r.Uint32(), Data: append([]byte{}, b...)}
	s, ok := field(t.DebugFields(), "Data")
	js, ok2 := s.(string)
	if !ok || !ok2 {
		c.Failf("debug fields of a tag of values hold no values")
	}
	d := json.NewDecoder(strings.NewReader(js))
	d.UseNumber()
	jsonHolds(c, d, &aVal{kind: aStrict, arr: vals})
	if _, err := d.Token(); err != io.EOF {
		c.Failf("more after the values: %s", js)
	}
	if !bytes.Equal(t.Data, b) {
		c.Failf("printing changed the tag")
	}
	c.Count("printed tags", 1)
	c.Nontrivial(string(b))

	// a tag of anything
	b = mutate(r, b)
	if r.Intn(3) == 0 {
		b = genBytes(r, r.Intn(40))
	}
	c.Desc("%x", b)
	h := flvio.Tag{Type: []byte{8, 9, 15, 18, byte(r.Intn(256))}[r.Intn(5)], Time: r.Uint32(), Data: append([]byte{}, b...), Header: genBytes(r, r.Intn(9)),
		FrameType: byte(r.Intn(16)), VideoFormat: byte(r.Intn(16)), AVCPacketType: byte(r.Intn(256)), CTime: int32(r.Uint32()), SoundFormat: byte(r.Intn(16))}
	w := h
	w.Header = append([]byte{}, h.Header...)
	f := h.DebugFields()
	if v, _ := field(f, "Time"); v != h.Time {
		c.Failf("debug fields %v of a tag at %d", f, h.Time)
	}
	if v, _ := field(f, "Len"); v != len(b) {
		c.Failf("debug fields %v of a tag of %d bytes", f, len(b))
	}
	if h.Type == flvio.TAG_VIDEO {
		if v, ok := field(f, "Ctime"); ok != (h.CTime != 0) || ok && v != h.CTime {
			c.Failf("debug fields %v of a tag with composition time %d", f, h.CTime)
		}
	}
	if !bytes.Equal(h.Data, b) || !bytes.Equal(h.Header, w.Header) {
		c.Failf("printing changed the tag")
	}
	for _, amf3 := range []bool{false, true} {
		if _, err := flvio.ParseAMFVals(b, amf3); err != nil && err.Error() == "" {
			c.Failf("an error without text")
		}
	}
	c.Count("printed hostile tags", 1)

	p := av.Packet{Type: r.Intn(12) - 2, IsKeyFrame: r.Intn(2) == 0, Time: time.Duration(r.Int63() - r.Int63()), CTime: time.Duration(r.Intn(3) * 40e6), Data: b}
	ps := p.String()
	for _, w := range []string{fmt.Sprint(p.Time), fmt.Sprint(len(b))} {
		if !strings.Contains(ps, " "+w) {
			c.Failf("packet %v of %d bytes printed as %q", p.Time, len(b), ps)
		}
	}
	if strings.Contains(ps, " K ") != p.IsKeyFrame {
		c.Failf("key frame %v printed as %q", p.IsKeyFrame, ps)
	}
}

func runC29(x *Ctx) {
	x.Each("pairs", x.N(1500, 40000), watchPair)
	x.Each("negotiations", x.N(2000, 40000), watchFailure)
	x.Each("close", x.N(2500, 40000), watchClose)
	x.Each("access", x.N(1500, 30000), watchAccess)
	x.Each("bypass", x.N(2500, 40000), watchBypass)
	x.Each("flv header", x.N(1500, 30000), watchFLV)
	x.Each("printed", x.N(4000, 80000), watchPrint)
	// the debug output of RTSP sessions goes to the standard output
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		x.Note("no %s: %v", os.DevNull, err)
		return
	}
	out := os.Stdout
	os.Stdout = null
	rtsp.DebugRtp, rtsp.DebugRtsp = true, true
	x.Each("rtsp sessions", x.N(600, 15000), func(c *C) {
		rtspSession(c)
		c.Count("debug sessions", 1)
	})
	x.Each("rtsp hostile", x.N(1500, 30000), func(c *C) {
		b := mutate(c.R, recordRTSP(c, c.R.Intn(12), c.R.Intn(4) == 0))
		c.Desc("%d bytes %q", len(b), b)
		hostileRTSP(c, b, c.R.Intn(4), len(b)+10)
		c.Count("hostile debug sessions", 1)
		c.Nontrivial(string(b))
	})
	rtsp.DebugRtp, rtsp.DebugRtsp = false, false
	os.Stdout = out
}
