package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"
)

func init() {
	register(&propDef{id: "C05", mul: 5,
		rule: "library pairs and independent peers negotiate publish and play over generated URLs, key spellings, AMF encodings, accepts, rejections and protocol errors; both sides' role, URL and outcome are compared with the request. Non-trivial = every negotiation; distinct by request",
		must: []string{"pairs accepted", "pairs rejected", "raw clients accepted", "raw clients rejected", "protocol errors", "raw servers accepted", "raw servers refusing", "dials", "bad dials", "secure pairs"},
		run:  runC05})
	register(&propDef{id: "C06", mul: 5,
		rule: "an independent peer mixes pings, windows, acknowledgements, chunk size changes and unknown messages with interleaved media, before, between and after the commands; every byte the session writes back is decoded and pings, acknowledgements, claimed events and media are checked. Non-trivial = at least one ping and one media message; distinct by byte stream",
		must: []string{"pings answered", "long session messages", "acks", "ack checks", "claimed", "tags", "injected during negotiation", "chunk size changes", "no-claim sessions"},
		run:  runC06})
	register(&propDef{id: "C07", mul: 5,
		rule: "recorded sessions of both roles are truncated at every byte, mutated, replaced by random bytes or forged lengths, with peers that close, abort or stall; panics, stalled goroutines (synctest), unreturned sessions, allocation and healthy neighbour sessions are monitored. Non-trivial = hostile input that reached the session; distinct by bytes",
		must: []string{"truncations", "mutants", "random", "forged", "stalls", "healthy packets", "writers cut", "hostile established"},
		run:  runC07})
}

func genURL(r *rand.Rand) string {
	host := []string{"h", "host.example.com", "127.0.0.1", "[::1]", "h:1935", "127.0.0.1:19350", "[2001:db8::1]:80", "h:443"}[r.Intn(8)]
	seg := func() string {
		switch r.Intn(8) {
		case 0:
			return "a%20b"
		case 1:
			return "x%2Fy"
		case 2:
			return "q%3Fz"
		case 3:
			return "A-b_c.d~e"
		case 4:
			return "a:b@c,d;e=f+g&h"
		case 5:
			return genAscii2(r, 1+r.Intn(300))
		}
		return genAscii2(r, 1+r.Intn(10))
	}
	var segs []string
	for i, n := 0, 2+r.Intn(5); i < n; i++ {
		segs = append(segs, seg())
	}
	u := "rtmp://" + host + "/" + strings.Join(segs, "/")
	if r.Intn(12) == 0 {
		u += "/"
	}
	switch r.Intn(6) {
	case 0:
		u += "?k=v"
	case 1:
		u += "?auth=" + genAscii2(r, r.Intn(40)) + "&x=a%20b+c&y=%2F"
	case 2:
		u += "?a=/b/c&d=http://e/f?g"
	case 3:
		u += "?a=1/2"
	}
	return u
}

func urlDiff(got, want *url.URL) string {
	if got == nil {
		return "no URL"
	}
	if got.Scheme != want.Scheme || got.Host != want.Host || got.EscapedPath() != want.EscapedPath() || got.RawQuery != want.RawQuery {
		return fmt.Sprintf("URL %q, want %q", got, want)
	}
	return ""
}

func mapStr(m flvio.AMFMap, k string) string {
	s, _ := m.GetString(k)
	return s
}

func runC05(x *Ctx) {
	testCert()
	x.Each("pairs", x.N(3000, 60000), func(c *C) {
		r := c.R
		us := genURL(r)
		u := mustURL(us)
		publish := r.Intn(2) == 0
		reject := r.Intn(3) == 0
		msg := "no: " + genAscii2(r, r.Intn(300))
		implicit := r.Intn(2) == 0
		viaDial := r.Intn(2) == 0
		secure := viaDial && r.Intn(6) == 0
		linger := r.Intn(2) == 0 // the server leaves a rejected session open
		if secure {
			u.Scheme = "rtmps"
			us = u.String()
		}
		c.Desc("%s publish=%v reject=%v", us, publish, reject)
		a, b := memPipe(r, 0, r.Intn(4))
		a.Tap()
		var sc *rtmp.Conn
		var cc *rtmp.Conn
		var cerr error
		var dialed []string
		c.Bubble(func() {
			var wg sync.WaitGroup
			srv := rtmp.NewServer()
			srv.HandleConn = func(s *rtmp.Conn, nc net.Conn) {
				sc = s
				if d := urlDiff(s.URL, u); d != "" {
					c.Failf("server %s", d)
				}
				if s.Publishing != publish {
					c.Failf("server publishing=%v", s.Publishing)
				}
				if reject {
					s.PubPlayErr = errors.New(msg)
				}
				stage, flags := rtmp.Stage(rtmp.StageCommandDone), rtmp.PrepareReading
				if !publish {
					flags = rtmp.PrepareWriting
				}
				if err := s.Prepare(stage, flags); err != nil {
					c.Failf("server Prepare: %v", err)
				}
				if reject {
					if linger {
						time.Sleep(time.Minute)
					}
					nc.Close()
					return
				}
				if !publish && implicit {
					s.WritePacket(av.Packet{Type: av.AAC, Data: []byte("x")})
				}
				time.Sleep(time.Minute)
				nc.Close()
			}
			var bc net.Conn = b
			if secure {
				bc = tls.Server(b, &tls.Config{Certificates: []tls.Certificate{testCert()}})
			}
			c.Go(&wg, func() { srv.HandleNetConn(bc) })
			cl := rtmp.NewClient()
			flags := rtmp.PrepareReading
			t0 := time.Now()
			if publish {
				flags = rtmp.PrepareWriting
			}
			if viaDial {
				cl.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
					return func(ctx context.Context, network, address string) (net.Conn, error) {
						dialed = append(dialed, address)
						return a, nil
					}
				}
				var nc net.Conn
				cc, nc, cerr = cl.Dial(us, flags)
				if cerr == nil && !secure && nc != net.Conn(a) {
					c.Failf("Dial returned connection %v", nc)
				}
				if cerr != nil && !a.isClosed() {
					c.Failf("failed Dial (%v) left its connection open", cerr)
				}
				want := u.Host
				if u.Port() == "" {
					want = net.JoinHostPort(u.Hostname(), map[bool]string{false: "1935", true: "443"}[secure])
				}
				if len(dialed) != 1 || dialed[0] != want {
					// IPv6 literals without a port are the caller's business
					if !strings.HasPrefix(u.Host, "[") {
						c.Failf("dialed %v, want %q", dialed, want)
					}
				}
				c.Count("dials", 1)
			} else {
				cc, cerr = cl.FromNetConn(a, u, flags)
			}
			if reject {
				if cerr == nil {
					c.Failf("rejected request reported as a success")
				}
				if t := time.Since(t0); t > 5*time.Second {
					c.Failf("rejection reported after %v only: %v", t, cerr)
				}
			} else {
				if cerr != nil {
					c.Failf("client: %v", cerr)
				}
				if mapStr(cc.PubPlayOnStatusParams, "level") != "status" || !strings.HasPrefix(mapStr(cc.PubPlayOnStatusParams, "code"), "NetStream.") {
					c.Failf("accepted status %v", cc.PubPlayOnStatusParams)
				}
				if cc.Publishing != publish {
					c.Failf("client publishing=%v", cc.Publishing)
				}
			}
			time.Sleep(2 * time.Minute)
			a.Close()
			wg.Wait()
		})
		if sc == nil {
			c.Failf("request never reached the server application: %v", cerr)
		}
		// what the client sent
		d := newRReader(bytes.NewReader(a.Tapped()[3073:]))
		for !secure {
			m, err := d.Next()
			if err != nil {
				c.Failf("no connect command on the wire: %v", err)
			}
			if isCmd(m, "connect", -1) {
				_, vs, _ := rCommand(m)
				if tc := vs[2].get("tcUrl"); tc == nil || tc.s != sc.TcUrl {
					c.Failf("tcUrl sent %v, server has %q", tc, sc.TcUrl)
				}
				if fv := vs[2].get("flashVer"); fv == nil || fv.s != sc.FlashVer {
					c.Failf("flashVer sent %v, server has %q", fv, sc.FlashVer)
				}
				break
			}
		}
		if reject {
			c.Count("pairs rejected", 1)
		} else {
			c.Count("pairs accepted", 1)
		}
		if secure {
			c.Count("secure pairs", 1)
		}
		c.Nontrivial(us, publish, reject)
		c.State("pair", publish, reject, implicit, viaDial, secure, linger, strings.Count(u.Path, "/"), u.RawQuery != "")
		c.Sample("%s publish=%v reject=%v: client error %v", us, publish, reject, cerr)
	})
	x.Each("raw clients", x.N(3000, 60000), func(c *C) {
		r := c.R
		o := basicOpts(r, r.Intn(2) == 0)
		u := mustURL(genURL(r))
		host := u.Scheme + "://" + u.Host
		if r.Intn(8) == 0 {
			host = "rtmps://" + u.Host
		}
		// any split of the path between app and stream
		p := strings.TrimPrefix(u.EscapedPath(), "/")
		ss := strings.Split(p, "/")
		k := 1 + r.Intn(len(ss)-1)
		o.app, o.stream = strings.Join(ss[:k], "/"), strings.Join(ss[k:], "/")
		if u.RawQuery != "" {
			o.stream += "?" + u.RawQuery
		}
		o.tcURL = host + "/" + o.app
		o.lower = r.Intn(3) == 0
		o.amf3 = r.Intn(3) == 0
		o.flashVer = []string{"", "LNX 9,0,124,2", genAscii2(r, r.Intn(100)) + "x"}[r.Intn(3)]
		o.pageURL = []string{"", "http://page/x?y", "http://" + genAscii2(r, 300)}[r.Intn(3)]
		o.csid = []uint32{3, 4, 5, 8, 64, 400}[r.Intn(6)]
		reject := r.Intn(3) == 0
		c.Desc("%+v reject=%v", o, reject)
		a, b := memPipe(r, 0, r.Intn(4))
		entered := false
		pe := newPeer(r, b)
		c.Bubble(func() {
			var wg sync.WaitGroup
			srv := rtmp.NewServer()
			srv.HandleConn = func(s *rtmp.Conn, nc net.Conn) {
				entered = true
				want := mustURL(host + u.EscapedPath())
				want.RawQuery = u.RawQuery
				if d := urlDiff(s.URL, want); d != "" {
					c.Failf("server %s (app %q stream %q)", d, o.app, o.stream)
				}
				if s.TcUrl != o.tcURL || s.PageUrl != o.pageURL || s.FlashVer != o.flashVer {
					c.Failf("tcUrl %q pageUrl %q flashVer %q", s.TcUrl, s.PageUrl, s.FlashVer)
				}
				if s.Publishing != o.publish {
					c.Failf("publishing=%v", s.Publishing)
				}
				if reject {
					s.PubPlayErr = errors.New("no")
				}
				f := rtmp.PrepareReading
				if !o.publish {
					f = rtmp.PrepareWriting
				}
				if err := s.Prepare(rtmp.StageCommandDone, f); err != nil {
					c.Failf("Prepare: %v", err)
				}
				time.Sleep(time.Minute)
				nc.Close()
			}
			c.Go(&wg, func() { srv.HandleNetConn(a) })
			if err := pe.rawConnect(o); err != nil {
				c.Failf("peer: %v", err)
			}
			pe.drain(nil)
			b.Close()
			wg.Wait()
		})
		if !entered {
			c.Failf("request never reached the application")
		}
		var levels, codes []string
		for _, m := range pe.msgs() {
			if isCmd(m, "onStatus", -1) {
				_, vs, _ := rCommand(m)
				if len(vs) < 4 {
					c.Failf("onStatus %v", vs)
				}
				l, cd := vs[3].get("level"), vs[3].get("code")
				if l == nil || cd == nil {
					c.Failf("onStatus %v", vs)
				}
				levels = append(levels, l.s)
				codes = append(codes, cd.s)
			}
		}
		if len(levels) == 0 {
			c.Failf("no onStatus")
		}
		for i, l := range levels {
			if reject != (l == "error") {
				c.Failf("reject=%v answered with level %q code %q", reject, l, codes[i])
			}
		}
		if reject {
			c.Count("raw clients rejected", 1)
		} else {
			want := "NetStream.Play.Start"
			if o.publish {
				want = "NetStream.Publish.Start"
			}
			if !strings.Contains(strings.Join(codes, " "), want) {
				c.Failf("codes %v", codes)
			}
			c.Count("raw clients accepted", 1)
		}
		c.Nontrivial(o.app, o.stream, o.tcURL, reject, o.publish)
		c.State("raw client", o.publish, reject, o.lower, o.amf3, o.pipeline, o.layout)
	})
	x.Each("protocol errors", x.N(1500, 20000), func(c *C) {
		r := c.R
		a, b := memPipe(r, 0, r.Intn(4))
		p := newPeer(r, b)
		kind := r.Intn(9)
		entered := false
		c.Desc("kind %d", kind)
		c.Bubble(func() {
			var wg sync.WaitGroup
			srv := rtmp.NewServer()
			srv.HandleConn = func(s *rtmp.Conn, nc net.Conn) {
				entered = true
				nc.Close()
			}
			c.Go(&wg, func() { srv.HandleNetConn(a) })
			if err := rHandshakeClient(r, b, r.Intn(3)-1); err != nil {
				c.Failf("handshake: %v", err)
			}
			good := aO("app", aS("app"), "tcUrl", aS("rtmp://h/app"))
			role := []string{"publish", "play"}[r.Intn(2)]
			request := func() {
				p.cmd(3, 0, aS("createStream"), aN(2), aNil)
				p.cmd(4, 1, aS(role), aN(3), aNil, aS("s"))
			}
			switch kind {
			case 0: // request before connect
				request()
				p.cmd(3, 0, aS("connect"), aN(1), good)
				request()
			case 1:
				p.cmd(4, 1, aS(role), aN(3), aNil, aS("s"))
				p.cmd(3, 0, aS("connect"), aN(1), good)
			case 2: // no app
				p.cmd(3, 0, aS("connect"), aN(1), aO("tcUrl", aS("rtmp://h/app")))
				request()
			case 3: // no object
				p.cmd(3, 0, aS("connect"), aN(1), []*aVal{aNil, aS("x"), aN(3)}[r.Intn(3)])
				request()
			case 4:
				p.cmd(3, 0, aS("connect"), aN(1))
				request()
			case 5: // request without a name
				p.cmd(3, 0, aS("connect"), aN(1), good)
				p.cmd(4, 1, aS(role), aN(3), aNil)
			case 6:
				p.cmd(3, 0, aS("connect"), aN(1), good)
				p.cmd(4, 1, aS(role), aN(3))
			case 7: // app of another type
				p.cmd(3, 0, aS("connect"), aN(1), aO("app", []*aVal{aN(3), aNil, aO()}[r.Intn(3)], "tcUrl", aS("rtmp://h/app")))
				request()
			case 8: // no usable tcUrl
				o := aO("app", aS("app"))
				if r.Intn(2) == 0 {
					o = aO("app", aS("app"), "tcUrl", aS([]string{"", "x", "/app", "://", "rtmp:///app", "//h/app"}[r.Intn(6)]))
				}
				p.cmd(3, 0, aS("connect"), aN(1), o)
				request()
			}
			p.flush()
			time.Sleep(time.Minute)
			if entered {
				c.Failf("kind %d: a session was established", kind)
			}
			if !a.isClosed() {
				c.Failf("kind %d: connection left open", kind)
			}
			b.Close()
			wg.Wait()
		})
		c.Count("protocol errors", 1)
		c.Nontrivial(kind, c.Idx)
		c.State("protocol error", kind)
	})
	x.Each("raw servers", x.N(2000, 30000), func(c *C) {
		r := c.R
		o := basicOpts(r, r.Intn(2) == 0)
		a, b := memPipe(r, 0, r.Intn(4))
		p := newPeer(r, b)
		kind := r.Intn(6)
		u := mustURL(genURL(r))
		stay := r.Intn(2) == 0
		c.Desc("kind %d publish=%v %v", kind, o.publish, u)
		c.Bubble(func() {
			var wg sync.WaitGroup
			var cc *rtmp.Conn
			var err error
			done := false
			var took time.Duration
			told := ""
			t0 := time.Now()
			c.Go(&wg, func() {
				f := rtmp.PrepareReading
				if o.publish {
					f = rtmp.PrepareWriting
				}
				cc, err = rtmp.NewClient().FromNetConn(a, u, f)
				took = time.Since(t0)
				done = true
				a.Close()
			})
			name := "play"
			if o.publish {
				name = "publish"
			}
			if kind < 2 {
				if err := p.rawAccept(o); err != nil {
					c.Failf("peer: %v", err)
				}
			} else {
				if err := rHandshakeServer(r, b, o.layout); err != nil {
					c.Failf("handshake: %v", err)
				}
				next := func(n string) *aVal {
					m, err := p.await(func(m rMsg) bool { return isCmd(m, n, -1) })
					if err != nil {
						c.Failf("waiting for %s: %v", n, err)
					}
					_, vs, _ := rCommand(m)
					return vs[1]
				}
				id := next("connect")
				if kind == 2 { // connect refused
					if r.Intn(2) == 0 {
						p.cmd(3, 0, aS("_error"), id, aNil, aO("level", aS("error"), "code", aS("NetConnection.Connect.Rejected")))
					} else {
						p.cmd(3, 0, aS("_result"), id, aNil, aO("level", aS("error"), "code", aS("NetConnection.Connect.Rejected")))
					}
				} else {
					p.cmd(3, 0, aS("_result"), id, aNil, aO("level", aS("status"), "code", aS("NetConnection.Connect.Success")))
					p.flush()
					id = next("createStream")
					if kind == 3 { // no stream id
						p.cmd(3, 0, aS("_result"), id, aNil)
					} else {
						p.cmd(3, 0, aS("_result"), id, aNil, aN(1))
						p.flush()
						next(name)
						lv := []string{"error", "warning", ""}[r.Intn(3)]
						told = lv
						switch {
						case kind == 4:
							p.cmd(5, 1, aS("onStatus"), aN(0), aNil, aO("level", aS(lv), "code", aS("NetStream.Play.StreamNotFound")))
						default:
							p.cmd(5, 1, aS("onStatus"), aN(0), []*aVal{aNil, aS("x")}[r.Intn(2)])
						}
					}
				}
				p.flush()
				if !stay {
					b.Close()
				}
			}
			time.Sleep(time.Minute)
			if !done {
				c.Failf("client still waiting after a minute")
			}
			if kind < 2 {
				if err != nil {
					c.Failf("client: %v", err)
				}
				if cc.Publishing != o.publish || mapStr(cc.PubPlayOnStatusParams, "description") != "ok" {
					c.Failf("publishing=%v status %v", cc.Publishing, cc.PubPlayOnStatusParams)
				}
				// what was asked for
				var app, stream string
				for _, m := range p.msgs() {
					if isCmd(m, "connect", -1) {
						_, vs, _ := rCommand(m)
						app = vs[2].get("app").s
					}
					if isCmd(m, name, -1) {
						_, vs, _ := rCommand(m)
						if len(vs) > 3 {
							stream = vs[3].s
						}
					}
				}
				if want := u.RequestURI(); "/"+app+"/"+stream != want {
					c.Failf("app %q stream %q for %q", app, stream, want)
				}
				c.Count("raw servers accepted", 1)
			} else {
				if err == nil {
					c.Failf("kind %d: refused %s reported as a success", kind, name)
				}
				if kind == 4 && told == "error" && took > 5*time.Second {
					c.Failf("refused %s reported after %v only: %v", name, took, err)
				}
				c.Count("raw servers refusing", 1)
			}
			b.Close()
			wg.Wait()
		})
		c.Nontrivial(kind, o.publish, u.String())
		c.State("raw server", kind, o.publish, stay)
	})
	x.Each("bad dials", x.N(60, 200), func(c *C) {
		r := c.R
		us := []string{"http://h/a/b", "h/a/b", "", "://", "rtmpx://h/a/b", "rtsp://h/a/b", "ftp://127.0.0.1/a/b", "RTMP:", "rtmp://h:x y/a", "file:///a/b", "/a/b", "rtmpt://h/a/b", "ws://h/a/b"}[c.Idx%13]
		f := []int{0, rtmp.PrepareReading, rtmp.PrepareWriting}[r.Intn(3)]
		c.Desc("%q", us)
		c.Bubble(func() {
			cl := rtmp.NewClient()
			cl.NewDialFunc = func() func(ctx context.Context, network, address string) (net.Conn, error) {
				return func(ctx context.Context, network, address string) (net.Conn, error) {
					return nil, errors.New("harness: no network")
				}
			}
			cc, nc, err := cl.Dial(us, f)
			if err == nil || cc != nil || nc != nil {
				c.Failf("Dial(%q) = %v %v %v", us, cc, nc, err)
			}
		})
		c.Count("bad dials", 1)
		c.Nontrivial(us, f)
	})
}

// ---------------------------------------------------------------- C06

func runC06(x *Ctx) {
	x.EachLim("long session", x.N(2, 4), 2, defaultCaseLimit, func(c *C) {
		longSession(c, []int64{1<<31 + 100<<20, 1<<32 + 200<<20}[(c.Idx/2)%2])
	})
	x.Each("sessions", x.N(3000, 60000), func(c *C) {
		r := c.R
		asServer := r.Intn(2) == 0
		mode := r.Intn(4)
		a, b := memPipe(r, 0, mode)
		g := &gotTags{}
		p := newPeer(r, b)
		o := basicOpts(r, asServer)
		n := 3 + r.Intn(40)
		c.Desc("asServer=%v mode=%d n=%d", asServer, mode, n)
		claims := map[uint8]bool{}
		if r.Intn(4) != 0 {
			for _, t := range []uint8{3, 6, 16, 19, 7, 40, 200, 20, 17, 18} {
				if r.Intn(3) == 0 {
					claims[t] = true
				}
			}
		} else {
			c.Count("no-claim sessions", 1)
		}
		type claimed struct {
			typ  uint8
			data []byte
		}
		var gotClaims []claimed
		var cmu sync.Mutex
		var pings []uint32 // expected answers
		injected := 0
		b.Tap()
		o.inject = func(p *rPeer) {
			for p.r.Intn(3) == 0 {
				injected++
				switch p.r.Intn(4) {
				case 0, 1:
					ts := p.r.Uint32()
					p.w.put(2, rMsg{typ: 4, data: append([]byte{0, 6}, be32(ts)...)})
					pings = append(pings, ts)
				case 2:
					p.w.put(2, rMsg{typ: 1, data: be32(uint32([]int{1, 5, 128, 4096, 65536}[p.r.Intn(5)]))})
				case 3:
					p.w.put(2, rMsg{typ: 5, data: be32(uint32([]int{50, 1000, 100000}[p.r.Intn(3)]))})
				}
			}
		}
		var lastAck uint32
		var acks int
		var cg *chunkGen
		var sent []byte
		c.Bubble(func() {
			var wg sync.WaitGroup
			ready := make(chan bool, 1)
			onConn := func(rc *rtmp.Conn) {
				rc.HandleEvent = func(t uint8, d []byte) (bool, error) {
					if claims[t] {
						cmu.Lock()
						gotClaims = append(gotClaims, claimed{t, append([]byte(nil), d...)})
						cmu.Unlock()
						return true, nil
					}
					return false, nil
				}
				ready <- true
			}
			// OnNewConn is too early for claims of commands
			if asServer {
				srv := rtmp.NewServer()
				srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
					onConn(sc)
					g.readLoop(sc, true, nil)
					nc.Close()
				}
				c.Go(&wg, func() { srv.HandleNetConn(a) })
			} else {
				libReader(c, &wg, false, a, g, true, onConn, nil)
			}
			hs := int64(3073)
			var err error
			if asServer {
				err = p.rawConnect(o)
			} else {
				err = p.rawAccept(o)
			}
			if err != nil {
				c.Failf("peer: %v (%v)", err, g.err)
			}
			c.Go(&wg, func() {
				p.drain(nil)
			})
			<-ready
			sid := o.sid
			if asServer {
				sid = 1
			}
			cg = newChunkGen(r, p.w, sid)
			cg.control = 3 + r.Intn(6)
			cg.windows = true
			p.w.repeat = r.Intn(3) != 0
			nseen := 0
			checkBack := func() {
				ms := p.msgs()
				for ; nseen < len(ms); nseen++ {
					m := ms[nseen]
					if m.typ == 3 {
						v := binary.BigEndian.Uint32(m.data)
						if v < lastAck {
							c.Failf("acknowledgement %d after %d", v, lastAck)
						}
						b.wr.mu.Lock()
						tk := b.wr.taken
						b.wr.mu.Unlock()
						if int64(v) > tk {
							c.Failf("acknowledged %d bytes, %d received", v, tk)
						}
						lastAck = v
						acks++
					}
				}
			}
			checkAck := func(wnd uint32) {
				checkBack()
				b.wr.mu.Lock()
				total := b.wr.total - hs
				b.wr.mu.Unlock()
				if wnd != 0 && total-int64(lastAck) > int64(wnd) {
					c.Failf("%d bytes received, %d acknowledged, window %d", total, lastAck, wnd)
				}
				c.Count("ack checks", 1)
			}
			evs, wndAt := 0, uint32(0)
			for d := newRReader(bytes.NewReader(b.Tapped()[hs:])); ; {
				m, err := d.Next()
				if err != nil {
					break
				}
				if m.typ == 5 {
					wndAt = binary.BigEndian.Uint32(m.data)
				}
			}
			applyEvents := func() (changed bool) {
				for ; evs < len(cg.events); evs++ {
					e := cg.events[evs]
					switch e.kind {
					case evPing:
						pings = append(pings, e.ts)
					case evWindow:
						wndAt, changed = e.ts, true
					}
				}
				return
			}
			done := 0
			for done < n || cg.pending() {
				if cg.step(done < n) {
					done++
				}
				if r.Intn(6) == 0 {
					out := p.w.take()
					sent = append(sent, out...)
					if err := writePieces(r, b, out); err != nil {
						c.Failf("session ended: %v (%v)", err, g.err)
					}
					changed := applyEvents()
					if r.Intn(2) == 0 {
						time.Sleep(time.Minute)
						if changed || len(out) == 0 {
							checkBack()
						} else {
							checkAck(wndAt)
						}
					} else if changed {
						// the next settled check would see the new window only in part
						time.Sleep(time.Minute)
						checkBack()
					}
				}
			}
			out := p.w.take()
			sent = append(sent, out...)
			writePieces(r, b, out)
			changed := applyEvents()
			time.Sleep(time.Minute)
			if changed || len(out) == 0 {
				checkBack()
			} else {
				checkAck(wndAt)
			}
			if done, err := g.fin(); done {
				c.Failf("session ended: %v", err)
			}
			b.CloseWrite()
			time.Sleep(time.Minute)
			b.Close()
			wg.Wait()
		})
		if cg == nil {
			return
		}
		// media
		var want []flvio.Tag
		var wantClaims []claimed
		for _, e := range cg.events {
			if e.kind == evClaim && claims[e.typ] {
				wantClaims = append(wantClaims, claimed{e.typ, e.data})
			}
			for _, t := range e.tags {
				if claims[t.Type] {
					wantClaims = append(wantClaims, claimed{t.Type, rBody(t)})
				} else {
					want = append(want, t)
				}
			}
		}
		checkTags(c, g.tags, want)
		for i, k := range gotClaims {
			if i >= len(wantClaims) || k.typ != wantClaims[i].typ || !bytes.Equal(k.data, wantClaims[i].data) {
				c.Failf("claimed event %d: type %d %x; want %d events", i, k.typ, head(string(k.data), 16), len(wantClaims))
			}
		}
		if len(gotClaims) != len(wantClaims) {
			c.Failf("%d claimed events delivered, %d sent", len(gotClaims), len(wantClaims))
		}
		// answers
		var answers []uint32
		for _, m := range p.msgs() {
			if m.typ == 4 && len(m.data) == 6 && binary.BigEndian.Uint16(m.data) == 7 {
				answers = append(answers, binary.BigEndian.Uint32(m.data[2:]))
			}
		}
		if len(answers) != len(pings) {
			c.Failf("%d ping responses to %d pings", len(answers), len(pings))
		}
		for i := range pings {
			if pings[i] != answers[i] {
				c.Failf("ping %d with timestamp %d answered with %d", i, pings[i], answers[i])
			}
		}
		if p.err != io.EOF {
			c.Failf("session's output: %v", p.err)
		}
		c.Count("pings answered", len(pings))
		c.Count("acks", acks)
		c.Count("claimed", len(gotClaims))
		c.Count("tags", len(g.tags))
		c.Count("injected during negotiation", injected)
		c.Count("chunk size changes", cg.stats.chunkChanges)
		c.State("claim set", fmt.Sprint(claims))
		if len(pings) > 0 && len(g.tags) > 0 {
			c.Nontrivial(string(sent))
		}
		c.Sample("asServer=%v: %d tags, %d pings, %d acks, %d claimed events, %d bytes", asServer, len(g.tags), len(pings), acks, len(gotClaims), len(sent))
	})
}

// longSession receives more than 2^31 (thorough: 2^32) bytes, past the points
// where byte counters change sign or wrap.
func longSession(c *C, total int64) {
	r := c.R
	asServer := c.Idx%2 == 0
	a, b := memPipe(r, 8<<20, 0)
	p := newPeer(r, b)
	o := basicOpts(r, asServer)
	wnd := uint32(20000000 + r.Intn(50000000))
	c.Desc("asServer=%v %d bytes, window %d", asServer, total, wnd)
	var tags int64
	var rerr error
	readAll := func(rc *rtmp.Conn) {
		for {
			t, err := rc.ReadTag()
			if err != nil {
				rerr = err
				return
			}
			if t.Type == flvio.TAG_VIDEO {
				tags++
			}
		}
	}
	c.Bubble(func() {
		var wg sync.WaitGroup
		var err error
		if asServer {
			srv := rtmp.NewServer()
			srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
				readAll(sc)
				nc.Close()
			}
			c.Go(&wg, func() { srv.HandleNetConn(a) })
			err = p.rawConnect(o)
		} else {
			c.Go(&wg, func() {
				rc, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h:1935/live/room?x=1"), rtmp.PrepareReading)
				if err != nil {
					rerr = err
				} else {
					readAll(rc)
				}
				a.Close()
			})
			err = p.rawAccept(o)
		}
		if err != nil {
			c.Failf("peer: %v (%v)", err, rerr)
		}
		c.Go(&wg, func() { p.drain(nil) })
		p.w.put(2, rMsg{typ: 1, data: be32(0xffffff)})
		p.w.put(2, rMsg{typ: 5, data: be32(wnd)})
		b.Write(p.w.take())
		sid := o.sid
		if asServer {
			sid = 1
		}
		unit := make([]byte, 12+3<<20)
		copy(unit, []byte{6, 0, 0, 0, 0x30, 0, 0, 9, byte(sid), byte(sid >> 8), byte(sid >> 16), byte(sid >> 24), 0x27, 1, 0, 0, 0})
		var acked int64
		seen, acks := 0, 0
		sent := int64(0)
		for i := int64(0); sent < total; i++ {
			if n, err := b.Write(unit); err != nil {
				c.Failf("after %d bytes: %d %v (%v)", sent, n, err, rerr)
			}
			sent += int64(len(unit))
			if i%8 != 0 && sent < total {
				continue
			}
			time.Sleep(time.Minute)
			b.wr.mu.Lock()
			all := b.wr.total
			b.wr.mu.Unlock()
			for ms := p.msgs(); seen < len(ms); seen++ {
				if m := ms[seen]; m.typ == 3 && len(m.data) == 4 {
					v := int64(binary.BigEndian.Uint32(m.data))
					for v < acked { // sequence numbers wrap
						v += 1 << 32
					}
					if v > all {
						c.Failf("acknowledged %d bytes, %d received", v, all)
					}
					acked = v
					acks++
				}
			}
			if all-3073-acked > int64(wnd) {
				c.Failf("%d bytes received, %d acknowledged, window %d", all, acked, wnd)
			}
			c.Count("ack checks", 1)
			c.State("acked", acked>>28)
		}
		if want := sent / int64(len(unit)); tags != want {
			c.Failf("%d messages of %d delivered (%v)", tags, want, rerr)
		}
		c.Count("long session messages", int(tags))
		c.Count("acks", acks)
		b.Close()
		wg.Wait()
	})
	c.Nontrivial(asServer, total, wnd)
}

// ---------------------------------------------------------------- C07

// recordClient is the byte stream of a conforming client (publisher with media,
// or player), recorded without a server: its answers are not checked.
func recordClient(c *C, publish bool, n int) (b []byte, hs int) {
	r := c.R
	layout := r.Intn(3) - 1
	b = append([]byte{3}, rMake1(r, layout, rClientKey)...)
	b = append(b, rMake1(r, -1, nil)...)
	hs = len(b)
	w := newRWriter(r)
	put := func(csid, sid uint32, vs ...*aVal) { w.put(csid, rMsg{typ: 20, sid: sid, data: cmdData(vs...)}) }
	put(3, 0, aS("connect"), aN(1), aO("app", aS("live"), "tcUrl", aS("rtmp://h/live"), "flashVer", aS("x"), "objectEncoding", aN(0)))
	put(3, 0, aS("createStream"), aN(2), aNil)
	if publish {
		put(4, 1, aS("publish"), aN(3), aNil, aS("room"), aS("live"))
		g := newChunkGen(r, w, 1)
		g.control, g.windows, g.maxSize = 4, true, 600
		for i := 0; i < n || g.pending(); {
			if g.step(i < n) {
				i++
			}
		}
	} else {
		put(4, 1, aS("play"), aN(3), aNil, aS("room"))
	}
	return append(b, w.take()...), hs
}

// recordServer is the byte stream of a conforming server.
func recordServer(c *C, publish bool, n int) (b []byte, hs int) {
	r := c.R
	layout := r.Intn(3) - 1
	b = append([]byte{3}, rMake1(r, layout, rServerKey)...)
	b = append(b, rMake1(r, -1, nil)...)
	hs = len(b)
	w := newRWriter(r)
	put := func(csid, sid uint32, vs ...*aVal) { w.put(csid, rMsg{typ: 20, sid: sid, data: cmdData(vs...)}) }
	w.put(2, rMsg{typ: 5, data: be32(2500000)})
	put(3, 0, aS("_result"), aN(1), aNil, aO("level", aS("status")))
	id, code := 2., "NetStream.Play.Start"
	if publish {
		id, code = 4, "NetStream.Publish.Start"
	}
	put(3, 0, aS("_result"), aN(id), aNil, aN(1))
	put(5, 1, aS("onStatus"), aN(0), aNil, aO("level", aS("status"), "code", aS(code)))
	if !publish {
		g := newChunkGen(r, w, 1)
		g.control, g.windows, g.maxSize = 4, true, 600
		for i := 0; i < n || g.pending(); {
			if g.step(i < n) {
				i++
			}
		}
	}
	return append(b, w.take()...), hs
}

// hostileServer runs the library's server or client against prepared bytes and
// requires the session to end once its peer is gone.
func hostile(c *C, asServer, libWrites bool, data []byte, end int) {
	r := c.R
	a, b := memPipe(r, 0, r.Intn(3))
	c.Bubble(func() {
		var wg sync.WaitGroup
		ended := false
		est := false
		use := func(rc *rtmp.Conn, nc net.Conn) {
			est = true
			c.Count("hostile established", 1)
			if libWrites {
				for i := 0; i < 200; i++ {
					if err := rc.WritePacket(av.Packet{Type: av.H264, Data: make([]byte, 100), Time: time.Duration(i) * time.Second}); err != nil {
						return
					}
					time.Sleep(10 * time.Millisecond)
				}
				return
			}
			for i := 0; ; i++ {
				if _, err := rc.ReadPacket(); err != nil {
					return
				}
			}
		}
		c.Go(&wg, func() {
			if asServer {
				srv := rtmp.NewServer()
				srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
					use(sc, nc)
					nc.Close()
				}
				srv.HandleNetConn(a)
			} else {
				f := rtmp.PrepareReading
				if libWrites {
					f = rtmp.PrepareWriting
				}
				cc, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h/live/room"), f)
				if err == nil {
					use(cc, a)
				}
				a.Close()
			}
			ended = true
		})
		c.Go(&wg, func() { io.Copy(io.Discard, b) })
		b.Write(data)
		time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
		switch end {
		case 0:
			b.CloseWrite()
		case 1:
			b.Close()
		case 2:
			b.Abort()
		case 3: // silent: an unfinished negotiation has a deadline
			time.Sleep(time.Minute)
			if !est && !ended {
				c.Failf("negotiation with a silent peer still open after a minute")
			}
			c.Count("stalls", 1)
			b.Close()
		}
		time.Sleep(time.Minute)
		if !ended {
			c.Failf("session still running a minute after its peer was gone (end %d)", end)
		}
		b.Close()
		wg.Wait()
	})
}

func randRole(r *rand.Rand) (asServer, libWrites bool) { return r.Intn(2) == 0, r.Intn(3) == 0 }

func recordFor(c *C, asServer, libWrites bool, n int) (b []byte, hs int) {
	if asServer {
		return recordClient(c, !libWrites, n)
	}
	return recordServer(c, libWrites, n)
}

func runC07(x *Ctx) {
	// every truncation point of a short session in each role
	for role := 0; role < 4; role++ {
		asServer, libWrites := role&1 == 0, role&2 == 0
		tmp := &C{X: x, R: x.caseRand("trunc", role)}
		base, hs := recordFor(tmp, asServer, libWrites, 4)
		var cuts []int
		for i := 0; i <= len(base); i++ {
			if i > hs-40 || i < 40 || i%61 == 0 || (i > 1500 && i < 1580) {
				cuts = append(cuts, i)
			}
		}
		x.Each(fmt.Sprintf("truncate role %d", role), len(cuts), func(c *C) {
			c.Desc("cut at %d of %d", cuts[c.Idx], len(base))
			hostile(c, asServer, libWrites, base[:cuts[c.Idx]], c.R.Intn(4))
			c.Count("truncations", 1)
			c.Nontrivial(role, cuts[c.Idx])
		})
	}
	x.Each("mutants", x.N(6000, 200000), func(c *C) {
		r := c.R
		asServer, libWrites := randRole(r)
		b, hs := recordFor(c, asServer, libWrites, r.Intn(12))
		if r.Intn(8) == 0 {
			b = mutate(r, b)
		} else {
			b = append(append([]byte(nil), b[:hs]...), mutate(r, b[hs:])...)
		}
		c.Desc("asServer=%v libWrites=%v %d bytes: %x", asServer, libWrites, len(b), b[min(hs, len(b)):])
		hostile(c, asServer, libWrites, b, r.Intn(4))
		c.Count("mutants", 1)
		c.Nontrivial(string(b))
	})
	x.Each("random", x.N(3000, 100000), func(c *C) {
		r := c.R
		asServer, libWrites := randRole(r)
		b, hs := recordFor(c, asServer, libWrites, 0)
		switch r.Intn(3) {
		case 0:
			b = genBytes(r, r.Intn(6000))
		case 1:
			b = append(b[:hs:hs], genBytes(r, r.Intn(3000))...)
		case 2:
			b = append(b, genBytes(r, r.Intn(3000))...)
		}
		c.Desc("asServer=%v libWrites=%v %d bytes: %x", asServer, libWrites, len(b), b[min(hs, len(b)):])
		hostile(c, asServer, libWrites, b, r.Intn(4))
		c.Count("random", 1)
		c.Nontrivial(string(b))
	})
	// forged lengths and nesting: memory
	x.Serial("forged", x.N(150, 2000), func(c *C) {
		r := c.R
		asServer, libWrites := randRole(r)
		libWrites = false
		b, _ := recordFor(c, asServer, libWrites, 0)
		w := newRWriter(r)
		hdr := func(csid int, n int, typ byte) []byte {
			h := []byte{byte(csid), 0, 0, 0, byte(n >> 16), byte(n >> 8), byte(n), typ, 1, 0, 0, 0}
			if csid >= 64+256 {
				h = append([]byte{1, byte(csid - 64), byte((csid - 64) >> 8)}, h[1:]...)
			} else if csid >= 64 {
				h = append([]byte{0, byte(csid - 64)}, h[1:]...)
			}
			return h
		}
		kind, kind2 := r.Intn(6), r.Intn(3)
		switch kind {
		case 0: // many chunk streams with large declared lengths
			w.out = append(w.out, hdr(2, 4, 1)...)
			w.out = append(w.out, 0, 0, 0, 1)
			first := []int{3, 3, 64, 250, 400, 60000}[r.Intn(6)]
			n := []int{4 << 20, 4 << 20, 4<<20 + 1, 16<<20 - 1}[r.Intn(4)]
			for i := first; i < first+57; i++ {
				w.out = append(w.out, hdr(i, n, 9)...)
				w.out = append(w.out, 7)
			}
		case 1: // above the limit
			w.out = append(w.out, hdr(6, 4<<20+1+r.Intn(10<<20), 9)...)
			w.out = append(w.out, genBytes(r, 1000)...)
		case 2: // command bombs
			d := aEncode(nil, aS([]string{"connect", "publish", "onStatus", "_result"}[r.Intn(4)]))
			d = aEncode(d, aN(1))
			switch r.Intn(4) {
			case 0:
				d = append(d, bytes.Repeat([]byte{3, 0, 1, 'a'}, 20000)...)
			case 1:
				d = append(d, bytes.Repeat([]byte{10, 0, 0, 0, 1}, 20000)...)
			case 2:
				d = append(d, 10, 0xff, 0xff, 0xff, 0xff)
			case 3:
				d = append(d, bytes.Repeat([]byte{5}, 100000)...)
			}
			typ := uint8(20)
			if r.Intn(3) == 0 {
				typ = 17
				d = append([]byte{byte(r.Intn(2))}, d...)
			}
			w.put(3, rMsg{typ: typ, data: d})
		case 3: // aggregate with forged inner lengths
			var d []byte
			for i := 0; i < 200; i++ {
				d = append(d, 9, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0)
				d = append(d, genBytes(r, r.Intn(20))...)
			}
			w.put(6, rMsg{typ: 22, sid: 1, data: d})
		case 4: // set chunk size to odd values, then large chunks
			w.out = append(w.out, hdr(2, 4, 1)...)
			w.out = append(w.out, be32([]uint32{0, 0x80000000, 0xffffffff, 0x7fffffff, 1}[r.Intn(5)])...)
			for i := 0; i < 300; i++ {
				w.out = append(w.out, hdr([]int{3, 64, 400}[kind2]+i%10, 4<<20, 9)...)
				w.out = append(w.out, genBytes(r, r.Intn(30))...)
			}
		case 5: // a stream of empty and tiny messages
			for i := 0; i < 3000; i++ {
				w.out = append(w.out, hdr(3+i%10, r.Intn(2), []byte{8, 9, 18, 20, 22, 4, 1, 5, 6}[r.Intn(9)])...)
				w.out = append(w.out, 0)
			}
		}
		if r.Intn(2) == 0 && kind >= 2 { // before the negotiation ends
			k := 3073
			b = append(b[:k:k], w.take()...)
		} else {
			b = append(b, w.take()...)
		}
		c.Desc("asServer=%v kind %d, %d bytes", asServer, kind, len(b))
		a0 := allocBytes()
		hostile(c, asServer, libWrites, b, r.Intn(3))
		used := allocBytes() - a0
		// sixteen unfinished messages of 4 MB, a constant, and what was received
		if limit := uint64(16*4<<20 + 16<<20 + 400*len(b)); used > limit {
			c.Failf("kind %d: %d bytes allocated for %d received", kind, used, len(b))
		}
		c.Count("forged", 1)
		c.Nontrivial(kind, len(b), c.Idx)
	})
	// healthy sessions next to hostile ones on one server
	x.Each("neighbours", x.N(150, 3000), func(c *C) {
		r := c.R
		nh := 1 + r.Intn(8)
		type conn struct {
			b    []byte
			a, p *memConn
			at   int
		}
		var bad []conn
		for i := 0; i < nh; i++ {
			b, hs := recordClient(c, r.Intn(2) == 0, r.Intn(10))
			if r.Intn(3) > 0 {
				b = append(append([]byte(nil), b[:hs]...), mutate(r, b[hs:])...)
			}
			if r.Intn(3) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
			a, p := memPipe(r, 0, r.Intn(3))
			bad = append(bad, conn{b, a, p, r.Intn(20)})
		}
		pkts := genPackets(c, 20, 2000)
		var want []av.Packet
		for _, p := range pkts {
			want = append(want, wantRead(p))
		}
		a, b := memPipe(r, 0, r.Intn(3))
		g := &gotTags{}
		c.Bubble(func() {
			var wg sync.WaitGroup
			srv := rtmp.NewServer()
			srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
				if sc.URL.Path == "/good/one" {
					g.readLoop(sc, false, nil)
				} else if sc.Publishing {
					for {
						if _, err := sc.ReadPacket(); err != nil {
							break
						}
					}
				} else {
					for i := 0; i < 100; i++ {
						if err := sc.WritePacket(av.Packet{Type: av.AAC, Data: make([]byte, 100)}); err != nil {
							break
						}
						time.Sleep(time.Millisecond)
					}
				}
				nc.Close()
			}
			var live int32
			serve := func(nc net.Conn) {
				c.Go(&wg, func() {
					atomic.AddInt32(&live, 1)
					srv.HandleNetConn(nc)
					atomic.AddInt32(&live, -1)
				})
			}
			serve(b)
			cc, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h/good/one"), rtmp.PrepareWriting)
			if err != nil {
				c.Failf("healthy client: %v", err)
			}
			for i, p := range pkts {
				for k := range bad {
					if bad[k].at == i {
						q := bad[k]
						serve(q.a)
						c.Go(&wg, func() { io.Copy(io.Discard, q.p) })
						c.Go(&wg, func() {
							q.p.Write(q.b)
							time.Sleep(time.Second)
							q.p.Close()
						})
					}
				}
				if err := cc.WritePacket(p); err != nil {
					c.Failf("healthy publisher: %v", err)
				}
				time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			}
			time.Sleep(time.Minute)
			if k := g.n(); k != len(pkts) {
				c.Failf("healthy session delivered %d of %d packets", k, len(pkts))
			}
			if l := atomic.LoadInt32(&live); l != 1 {
				c.Failf("%d sessions alive, only the healthy one has a peer", l)
			}
			a.Close()
			wg.Wait()
		})
		checkPackets(c, "healthy session", g.pkts, want)
		c.Count("healthy packets", len(g.pkts))
		c.Nontrivial("neighbours", nh, c.Idx)
	})
	// writing sessions whose peer goes away
	x.Each("writers", x.N(800, 10000), func(c *C) {
		r := c.R
		publish := r.Intn(2) == 0
		a, b := memPipe(r, []int{0, 100, 3000, 70000}[r.Intn(4)], r.Intn(3))
		end := r.Intn(3)
		after := r.Intn(30)
		// the reset may destroy the last answer of the negotiation
		reset := end != 0 && after == 0
		stall := r.Intn(2) == 0
		c.Desc("publish=%v end=%d after %d stall=%v", publish, end, after, stall)
		c.Bubble(func() {
			var wg sync.WaitGroup
			var ended, notified int32
			wrote := int32(0)
			run := func(wc *rtmp.Conn, nc net.Conn) {
				c.Go(&wg, func() {
					select {
					case <-wc.CloseNotify():
						atomic.StoreInt32(&notified, 1)
					case <-time.After(100 * time.Hour):
					}
				})
				for {
					if err := wc.WritePacket(av.Packet{Type: av.H264, IsKeyFrame: true, Data: make([]byte, 500)}); err != nil {
						break
					}
					atomic.AddInt32(&wrote, 1)
					time.Sleep(100 * time.Millisecond)
				}
				nc.Close()
				atomic.StoreInt32(&ended, 1)
			}
			var peer *memConn
			p := newPeer(r, nil)
			if publish { // library client publishes to a raw server
				peer = b
				p.c, p.rd = b, newRReader(b)
				c.Go(&wg, func() {
					cc, err := rtmp.NewClient().FromNetConn(a, mustURL("rtmp://h/a/b"), rtmp.PrepareWriting)
					if err == nil {
						run(cc, a)
					} else if !reset {
						c.Failf("client: %v", err)
					}
					a.Close()
					if err != nil {
						atomic.StoreInt32(&ended, 1)
						atomic.StoreInt32(&notified, 1)
					}
				})
				o := basicOpts(r, true)
				if err := p.rawAccept(o); err != nil {
					c.Failf("peer: %v", err)
				}
			} else {
				peer = a
				p.c, p.rd = a, newRReader(a)
				srv := rtmp.NewServer()
				entered := false
				srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) { entered = true; run(sc, nc) }
				c.Go(&wg, func() {
					srv.HandleNetConn(b)
					if !entered && reset {
						atomic.StoreInt32(&ended, 1)
						atomic.StoreInt32(&notified, 1)
					}
				})
				o := basicOpts(r, false)
				o.pipeline = false
				if err := p.rawConnect(o); err != nil {
					c.Failf("peer: %v", err)
				}
			}
			for i := 0; i < after; i++ {
				if _, err := p.rd.Next(); err != nil {
					c.Failf("peer reading: %v", err)
				}
			}
			if stall {
				time.Sleep(time.Duration(r.Intn(100)) * time.Second)
			}
			switch end {
			case 0:
				peer.Close()
			default:
				peer.Abort()
			}
			time.Sleep(time.Minute)
			if atomic.LoadInt32(&ended) != 1 {
				c.Failf("writer still running a minute after its peer was gone")
			}
			if atomic.LoadInt32(&notified) != 1 {
				c.Failf("close not notified")
			}
			wg.Wait()
		})
		c.Count("writers cut", 1)
		c.Nontrivial(publish, end, after, stall)
	})
}

var testCert = sync.OnceValue(func() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
})
