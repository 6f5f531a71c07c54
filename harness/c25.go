package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"
)

func init() {
	register(&propDef{id: "C25",
		rule:   "harness and tools are built with the race detector; many RTMP sessions (library and independent ends, plain and TLS, shared Server, Client and URLOpener values, shared packets) run at once, are rejected, stalled and closed from other goroutines at random moments, and the relay, forwarding and benchmark processes are driven as for C23, C24 and C28. A report of the race detector, a crash, or an operation that does not return after a close is a violation. Non-trivial = a session that was negotiated or closed; distinct by the kinds, outcome and moment of the close",
		assume: []string{"the race detector sees the executed interleavings only", "operations are awaited for 30 s after a close"},
		must:   []string{"sessions", "packets delivered", "rejected", "closed by another goroutine", "closed in negotiation", "stalled writers closed", "idle readers closed", "close notifications", "tls sessions", "relay tools", "forward tools", "bench tools"},
		run:    runC25})
}

var tlsOnce sync.Once
var tlsConf *tls.Config

func testTLS() *tls.Config {
	tlsOnce.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(48 * time.Hour), DNSNames: []string{"localhost"}}
		b, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			panic(err)
		}
		tlsConf = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{b}, PrivateKey: k}}}
	})
	return tlsConf
}

// raceSession is one of several sessions of a case.
type raceSession struct {
	c       *C
	id      int
	kind    string
	pkts    []av.Packet
	want    []av.Packet
	g       gotTags
	e       endPoint
	started chan bool // the server handles it
	served  chan bool // the server is done with it
	snc     net.Conn
	release chan bool
	clean   bool // nobody closes it
}

func (s *raceSession) server(sc *rtmp.Conn, nc net.Conn) {
	defer close(s.served)
	defer nc.Close()
	s.snc = nc
	close(s.started)
	switch s.kind {
	case "reject":
		sc.PubPlayErr = errors.New("rejected")
		f := rtmp.PrepareReading
		if !sc.Publishing {
			f = rtmp.PrepareWriting
		}
		sc.Prepare(rtmp.StageCommandDone, f)
	case "publish":
		s.g.readLoop(sc, false, nil)
	case "stall": // does not read
		if err := sc.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); err != nil {
			return
		}
		<-s.release
	case "play":
		for _, p := range s.pkts {
			if err := sc.WritePacket(p); err != nil {
				return
			}
		}
		if cw, ok := nc.(interface{ CloseWrite() error }); ok {
			cw.CloseWrite()
		}
		select {
		case <-sc.CloseNotify():
		case <-time.After(relayWait):
			s.c.Count("slow close notifications", 1)
			s.c.record("", "a writing server was not told that its player left", "")
		}
	case "idle":
		if len(s.pkts) > 0 {
			sc.WritePacket(s.pkts[0])
		}
		<-s.release
	}
}

func raceCase(c *C) {
	r := c.R
	n := 2 + r.Intn(7)
	var all []*raceSession
	tab := map[string]*raceSession{}
	shared := genPackets(c, 1+r.Intn(40), 8000)
	var wantShared []av.Packet
	for _, p := range shared {
		wantShared = append(wantShared, wantRead(p))
	}
	useTLS := r.Intn(6) == 0
	logs := r.Intn(3)
	onConn := func(rc *rtmp.Conn) {
		switch logs { // callbacks that do not synchronise
		case 1:
			rc.LogStageEvent = func(string, string) {}
			rc.LogChunkDataEvent = func(bool, []byte) {}
		case 2:
			rc.LogTagEvent = func(bool, flvio.Tag) {}
			rc.LogStageEvent = func(string, string) {}
		}
	}
	srv := rtmp.NewServer()
	srv.OnNewConn = onConn
	if r.Intn(2) == 0 {
		srv.LogEvent = func(*rtmp.Conn, net.Conn, int) {}
	}
	srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
		p := sc.URL.Path
		s := tab[p[strings.LastIndexByte(p, '/')+1:]]
		if s == nil {
			nc.Close()
			return
		}
		s.server(sc, nc)
	}
	opener := &format.URLOpener{OnNewRtmpConn: onConn}
	if r.Intn(2) == 0 {
		opener.NewDialFunc = func() func(context.Context, string, string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext
		}
	}
	client := rtmp.NewClient()
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.X.Note("listen: %v", err)
		return
	}
	defer lis.Close()
	scheme := "rtmp"
	var l net.Listener = lis
	if useTLS {
		scheme = "rtmps"
		l = tls.NewListener(lis, testTLS())
	}
	addr := lis.Addr().String()
	var desc []string
	for i := 0; i < n; i++ {
		s := &raceSession{c: c, id: i, kind: []string{"publish", "publish", "publish", "play", "play", "play", "reject", "stall", "idle", "silent"}[r.Intn(10)], started: make(chan bool), served: make(chan bool), release: make(chan bool)}
		if useTLS && s.kind == "silent" {
			s.kind = "publish"
		}
		if r.Intn(2) == 0 {
			s.pkts, s.want = shared, wantShared
		} else {
			s.pkts = genPackets(c, 1+r.Intn(60), 3000)
			for _, p := range s.pkts {
				s.want = append(s.want, wantRead(p))
			}
		}
		tab[fmt.Sprint("s", i)] = s
		all = append(all, s)
	}
	var accepted sync.WaitGroup
	accepted.Add(1)
	var mu sync.Mutex
	var raw []net.Conn
	go func() {
		defer accepted.Done()
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			raw = append(raw, nc)
			mu.Unlock()
			accepted.Add(1)
			go func() {
				defer accepted.Done()
				srv.HandleNetConn(nc)
			}()
		}
	}()
	var wg sync.WaitGroup
	for _, s := range all {
		s := s
		rs := rk2(r)
		how := rs.Intn(4) // 0, 1: client, 2: opener, 3: independent
		if useTLS && how == 3 {
			how = 0
		}
		closer := rs.Intn(3) // 0: nobody, 1: the client's side, 2: the server's
		if s.kind == "stall" || s.kind == "idle" || s.kind == "silent" {
			closer = 1 + rs.Intn(2)
		}
		s.clean = closer == 0
		delay := time.Duration(rs.Int63n([]int64{1, 300, 1000, 4000, 20000}[rs.Intn(5)])) * time.Microsecond
		early := rs.Intn(2) == 0
		desc = append(desc, fmt.Sprintf("%s/%d/%d", s.kind, how, closer))
		c.Go(&wg, func() { s.client(rs, how, closer, early, delay, client, opener, scheme, addr, useTLS) })
	}
	c.Desc("%s tls %v logs %d: %v", addr, useTLS, logs, desc)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		c.Failf("the sessions have not ended")
	}
	lis.Close()
	mu.Lock()
	for _, nc := range raw {
		nc.Close()
	}
	mu.Unlock()
	fin := make(chan bool)
	go func() { accepted.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(relayWait):
		c.Failf("servers go on after their connections were closed")
	}
	if useTLS {
		c.Count("tls sessions", n)
	}
	c.Count("sessions", n)
	c.Nontrivial(desc, logs, useTLS, c.Idx)
	c.State("session mixes", strings.Join(desc, " "))
	c.Sample("%d sessions at once (kind/client/closer): %v", n, desc)
}

// client runs a session's client side and its closing goroutine.
func (s *raceSession) client(rs *rand.Rand, how, closer int, early bool, delay time.Duration, client *rtmp.Client, opener *format.URLOpener, scheme, addr string, useTLS bool) {
	c := s.c
	defer close(s.release)
	url := fmt.Sprintf("%s://%s/app/s%d", scheme, addr, s.id)
	publish := s.kind == "publish" || s.kind == "stall" || s.kind == "reject" && rs.Intn(2) == 0
	flags := rtmp.PrepareReading
	if publish {
		flags = rtmp.PrepareWriting
	}
	var rc *rtmp.Conn
	var nc net.Conn
	var err error
	dialRaw := func() bool {
		nc, err = net.DialTimeout("tcp", addr, 10*time.Second)
		if err != nil {
			c.X.Note("dial: %v", err)
			return false
		}
		if useTLS {
			nc = tls.Client(nc, &tls.Config{InsecureSkipVerify: true})
		}
		return true
	}
	// the closing goroutine
	closed := make(chan bool)
	closeLater := func() {
		if closer == 0 {
			close(closed)
			return
		}
		if s.kind == "idle" || s.kind == "stall" {
			delay += time.Duration(rs.Intn(10)) * time.Millisecond
		}
		x := nc
		go func() {
			defer close(closed)
			if !early && closer == 2 {
				select {
				case <-s.started:
				case <-time.After(time.Second):
				}
			}
			time.Sleep(delay)
			if closer == 1 {
				x.Close()
				return
			}
			select {
			case <-s.started:
				s.snc.Close()
			case <-time.After(2 * time.Second):
				x.Close()
			}
		}()
	}
	within := func(what string, f func()) {
		done := make(chan bool)
		go func() { defer close(done); c.Guard(f) }()
		<-closed
		select {
		case <-done:
		case <-time.After(relayWait):
			c.Failf("session %d (%s): %s has not returned %v after the session was closed", s.id, s.kind, what, relayWait)
		}
		if closer > 0 {
			c.Count("closed by another goroutine", 1)
		}
	}
	if s.kind == "silent" { // the server does not answer
		a, b := memPipe(rs, 0, 0)
		nc = a
		closer = 1
		closeLater()
		within("the negotiation", func() {
			if _, err := rtmp.NewClient().FromNetConn(a, mustURL(url), flags); err == nil {
				c.Failf("negotiated with a silent peer")
			}
		})
		b.Close()
		c.Count("closed in negotiation", 1)
		return
	}
	switch {
	case how == 3:
		if !dialRaw() {
			return
		}
		closeLater()
		if publish {
			within("publishing", func() {
				err := publishTo(rs, true, nc, "app", fmt.Sprint("s", s.id), s.pkts, nil, nil)
				if err == nil && s.clean {
					nc.(*net.TCPConn).CloseWrite()
				}
			})
		} else {
			e := &endPoint{raw: true}
			within("playing", func() { e.play(rs, nc, fmt.Sprintf("/app/s%d", s.id)) })
			if s.clean && s.kind == "play" {
				e.check(c, fmt.Sprintf("session %d", s.id), s.pkts, false)
				c.Count("packets delivered", len(s.pkts))
			}
		}
	case early && how < 2:
		if !dialRaw() {
			return
		}
		closeLater()
		within("the session", func() {
			rc, err = client.FromNetConn(nc, mustURL(url), flags)
			if err != nil {
				if s.clean && s.kind != "reject" {
					c.Failf("session %d: %v", s.id, err)
				}
				if closer > 0 {
					c.Count("closed in negotiation", 1)
				}
				return
			}
			s.media(rc, nc, publish)
		})
	default:
		if how == 2 && (publish || !useTLS) { // rtmps is for writing only
			if publish {
				w, e := opener.Create(url, nil)
				if err = e; err == nil {
					rc, nc = w.Rtmp, w.NetConn
				}
			} else {
				rd, e := opener.Open(url)
				if err = e; err == nil {
					rc, nc = rd.Rtmp, rd.NetConn
				}
			}
		} else {
			rc, nc, err = client.Dial(url, flags)
		}
		if err != nil {
			if s.kind == "reject" {
				c.Count("rejected", 1)
				return
			}
			c.Failf("session %d: %v", s.id, err)
		}
		closeLater()
		within("the session", func() { s.media(rc, nc, publish) })
	}
	if nc != nil {
		if s.kind == "publish" && s.clean {
			select {
			case <-s.served:
			case <-time.After(relayWait):
				c.Failf("session %d: the server is not done", s.id)
			}
			s.g.mu.Lock()
			got := s.g.pkts
			s.g.mu.Unlock()
			checkPackets(c, fmt.Sprintf("session %d", s.id), got, s.want)
			c.Count("packets delivered", len(got))
		}
		nc.Close()
	}
}

// media runs the media stage of a library client.
func (s *raceSession) media(rc *rtmp.Conn, nc net.Conn, publish bool) {
	c := s.c
	if s.kind == "reject" {
		if publish {
			for i := 0; i < 100; i++ {
				if err := rc.WritePacket(s.pkts[i%len(s.pkts)]); err != nil {
					break
				}
				time.Sleep(time.Millisecond)
			}
		} else {
			rc.ReadPacket()
		}
		c.Count("rejected", 1)
		return
	}
	if publish {
		n := rc.CloseNotify()
		if s.kind == "stall" {
			if t, ok := nc.(*net.TCPConn); ok {
				t.SetWriteBuffer(4096)
			}
			big := av.Packet{Type: av.AAC, Data: make([]byte, 200000)}
			for {
				if err := rc.WritePacket(big); err != nil {
					break
				}
			}
			c.Count("stalled writers closed", 1)
		} else {
			for i, p := range s.pkts {
				if err := rc.WritePacket(p); err != nil {
					if s.clean {
						c.Failf("session %d: write %d: %v", s.id, i, err)
					}
					break
				}
			}
			if s.clean {
				if cw, ok := nc.(interface{ CloseWrite() error }); ok {
					cw.CloseWrite()
				}
			}
		}
		select {
		case <-n:
			c.Count("close notifications", 1)
		case <-time.After(relayWait):
			c.Failf("session %d (%s): no close notification", s.id, s.kind)
		}
		return
	}
	var got []av.Packet
	for {
		p, err := rc.ReadPacket()
		if err != nil {
			break
		}
		got = append(got, p)
	}
	if s.kind == "idle" {
		c.Count("idle readers closed", 1)
		return
	}
	if s.clean {
		checkPackets(c, fmt.Sprintf("session %d", s.id), got, s.want)
		c.Count("packets delivered", len(got))
	} else if len(got) > len(s.want) {
		c.Failf("session %d: %d packets of %d", s.id, len(got), len(s.want))
	}
	if _, err := rc.ReadPacket(); err == nil {
		c.Failf("session %d: a packet after the end", s.id)
	}
}

func runC25(x *Ctx) {
	x.EachLim("sessions", x.N(5000, 60000), 6, defaultCaseLimit, raceCase)
	// the tools: what they do is checked elsewhere, here their runs only have
	// to be free of races, crashes and hangs
	x.lenient = func(msg string) bool {
		for _, s := range []string{"DATA RACE", "panic", "fatal error", "still open after", "has not ended"} {
			if strings.Contains(msg, s) {
				return true
			}
		}
		return false
	}
	x.scale = 0.5
	if x.Thorough {
		x.scale = 0.15
	}
	runC23(x)
	runC24(x)
	x.mu.Lock()
	x.res.Counts["relay tools"]++
	x.mu.Unlock()
	runC28(x)
	x.lenient, x.scale = nil, 0
}
