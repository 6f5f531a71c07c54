package main

import (
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/nareix/joy5/av"
)

// some sends n media packets, whole groups with audio mixed in.
func (u *relayPub) some(n, size int, gop func() int, left *int) error {
	r := u.p.c.R
	for i := 0; i < n; i++ {
		key := *left == 0
		if key {
			*left = gop()
		}
		*left--
		typ := av.H264
		if !key {
			typ = u.kind()
		}
		if err := u.media(typ, key, 12+r.Intn(size)); err != nil {
			return err
		}
	}
	return nil
}

// fdsReturn waits until the relay has closed what clients left.
func fdsReturn(c *C, t *tool, base int) {
	var n int
	for i := 0; i < 3000; i++ {
		if n = t.fds(); n <= base {
			c.Count("descriptor checks", 1)
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.alive(c)
	c.Failf("the relay has %d sockets open after all clients left, %d before", n, base)
}

func runC24(x *Ctx) {
	ts, stop := relayTools(x)
	defer stop()
	base := map[*tool]int{}
	for _, t := range ts {
		for i := 0; i < 200; i++ { // the connections of ready
			if base[t] = t.fds(); base[t] <= 1 {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	settle := func(group string) {
		x.Serial("descriptors after "+group, len(ts), func(c *C) { fdsReturn(c, ts[c.Idx], base[ts[c.Idx]]) })
	}

	// headers that change while subscribers come and go
	x.EachLim("headers", x.N(500, 10000), 8, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			gop := c.gopLens()
			u := p.publish()
			u.headers()
			var subs []*relaySub
			left := 0
			n := 20 + r.Intn(200)
			changes := 0
			paced := r.Intn(2) == 0
			values := r.Intn(2) == 0 // few values, so that they come back
			val := func() []byte {
				if values {
					return []byte{byte(r.Intn(3)), 7}
				}
				return genBytes(r, 1+r.Intn(80))
			}
			c.Desc("relay %s path %s: %d packets", t.cmd.Args, p.path, n)
			for i := 0; i < n; i++ {
				if r.Intn(8) == 0 {
					switch r.Intn(3) {
					case 0:
						m := genMeta(r)
						if values {
							m = []*aVal{aO("v", aN(float64(r.Intn(3))))}
						}
						u.must(u.header(av.Metadata, encMeta(m)))
					case 1:
						u.must(u.header(av.H264DecoderConfig, val()))
					case 2:
						u.must(u.header(av.AACDecoderConfig, val()))
					}
					changes++
				}
				if r.Intn(n/4+1) == 0 && len(subs) < 5 {
					subs = append(subs, p.subscribe(fmt.Sprintf("subscriber %d", len(subs)), nil))
				}
				u.must(u.some(1, 100, gop, &left))
				if paced && r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
			subs = append(subs, p.subscribe("last subscriber", nil))
			for _, s := range subs {
				s.reach(0, n-1, "the last packet")
				s.note()
			}
			c.Count("header changes", changes)
			c.finishRelay(t)
			c.Sample("%d packets, %d header changes, %d subscribers; first received %d headers", n, changes, len(subs), subs[0].heads)
		})
	})
	settle("headers")

	// publishers that replace each other
	x.EachLim("takeover", x.N(300, 6000), 8, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			var subs []*relaySub
			sub := func() {
				subs = append(subs, p.subscribe(fmt.Sprintf("subscriber %d", len(subs)), nil))
			}
			for i, n := 0, r.Intn(3); i < n; i++ {
				sub()
			}
			gens := 2 + r.Intn(4)
			desc := ""
			var bg sync.WaitGroup
			var prev *relayPub
			prevMode := 0
			var prevStop chan bool
			defer func() {
				if prevStop != nil {
					close(prevStop)
				}
				bg.Wait()
			}()
			for g := 0; g < gens; g++ {
				if prev != nil && prevMode == 2 { // it leaves first
					prev.nc.(*net.TCPConn).CloseWrite()
					awaitClosed(c, t, "a publisher that left", prev.watch())
					c.Count("half closes answered", 1)
				}
				u := p.publish()
				if prev != nil && prevMode != 2 {
					awaitClosed(c, t, fmt.Sprintf("replaced publisher %d (mode %d)", prev.gen, prevMode), prev.watch())
					if prevMode == 0 {
						c.Count("idle publishers closed", 1)
					}
					if prevStop != nil {
						close(prevStop)
						prevStop = nil
					}
				}
				if prev != nil {
					c.Count("takeovers", 1)
				}
				u.headers()
				gop := c.gopLens()
				left := 0
				n := 1 + r.Intn(60)
				u.must(u.some(n, 150, gop, &left))
				if r.Intn(2) == 0 {
					sub()
				}
				if r.Intn(2) == 0 {
					for _, s := range subs {
						s.reach(u.gen, n-1, "before the next publisher")
					}
				}
				prev, prevMode = u, r.Intn(3)
				desc += fmt.Sprint(n, "/", prevMode, " ")
				if prevMode == 1 && g < gens-1 { // it goes on writing
					stop := make(chan bool)
					prevStop = stop
					seq := 0
					bg.Add(1)
					go func() {
						defer bg.Done()
						for {
							select {
							case <-stop:
								return
							default:
							}
							seq++
							if seq > 20000 || u.media(av.H264, seq%5 == 0, 60) != nil {
								<-stop
								return
							}
						}
					}()
				}
			}
			if len(subs) == 0 {
				sub()
			}
			c.Desc("relay %s path %s: %s", t.cmd.Args, p.path, desc)
			for _, s := range subs {
				s.reach(prev.gen, prev.last(), "the last publisher's last packet")
				s.note()
			}
			c.Nontrivial(desc)
			c.finishRelay(t)
			c.Sample("publishers (packets/how they end) %s; %d subscribers", desc, len(subs))
		})
	})
	settle("takeover")

	// publishers that start at once: one remains
	x.EachLim("race", x.N(150, 3000), 4, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			p.anyOrder = true
			k := 2 + r.Intn(4)
			var subs []*relaySub
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				subs = append(subs, p.subscribe(fmt.Sprintf("subscriber %d", i), nil))
			}
			pubs := make([]*relayPub, k)
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				i := i
				n := r.Intn(40)
				c.Go(&wg, func() {
					u, err := p.tryPublish()
					if err != nil {
						return
					}
					pubs[i] = u
					for j := 0; j < n; j++ {
						if u.media(av.H264, j%7 == 0, 50) != nil {
							break
						}
					}
				})
			}
			wg.Wait()
			c.finishRelay(t)
			closed := make(chan int, k)
			open := map[int]bool{}
			for i, u := range pubs {
				if u != nil {
					i, ch := i, u.watch()
					go func() { <-ch; closed <- i }()
					open[i] = true
				}
			}
			if len(open) == 0 {
				c.Failf("all %d publishers were closed", k)
			}
			for len(open) > 1 {
				select {
				case i := <-closed:
					delete(open, i)
				case <-time.After(relayWait):
					c.Failf("%d of %d publishers of one path are still connected", len(open), k)
				}
			}
			for i := range open {
				u := pubs[i]
				u.must(u.media(av.H264, true, 30))
				u.must(u.media(av.H264, false, 30))
				for _, s := range subs {
					s.reach(u.gen, u.last(), "from the publisher that remains")
					c.State("publishers seen", s.gens, k)
					s.note()
				}
			}
			c.Count("racing publishers", k)
			c.finishRelay(t)
		})
	})
	settle("race")

	// many paths at once, with names that resemble each other
	x.EachLim("paths", x.N(100, 2000), 4, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		t.alive(c)
		var ps []*relayPath
		n := 2 + r.Intn(8)
		first := newRelayPath(c, t)
		b := fmt.Sprintf("p%d", first.id)
		names := []string{"/" + b + "/s", "/" + b + "/s1", "/" + b + "/S", "/" + b + "x/s", "/" + b + "/s/s", "/" + b + "/ss", "/x" + b + "/s", "/" + b + "/s.flv", "/" + b + "/s/", "/" + b + "/./s", "/" + b + "//s", "/" + b + "/s/../s1"}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for i := 0; i < n; i++ {
			p := first
			if i > 0 {
				p = newRelayPath(c, t)
			}
			p.path = names[i]
			ps = append(ps, p)
		}
		defer func() {
			for _, p := range ps {
				p.end()
			}
		}()
		c.Desc("relay %s paths %v", t.cmd.Args, names[:n])
		var wg sync.WaitGroup
		seed := r.Int63()
		for i, p := range ps {
			p, i := p, i
			c.Go(&wg, func() {
				early := (seed>>uint(i))&1 == 0
				var subs []*relaySub
				if early {
					subs = append(subs, p.subscribe(p.path, nil))
				}
				u := p.publish()
				v := []byte{1, byte(i)}
				u.must(u.header(av.H264DecoderConfig, v))
				u.must(u.header(av.AACDecoderConfig, []byte{byte(i), 2}))
				m := int(100 + seed%97)
				for j := 0; j < m; j++ {
					typ := av.H264
					if j%3 == 1 {
						typ = av.AAC
					}
					u.must(u.media(typ, j%9 == 0, 40))
					if j == m/2 {
						subs = append(subs, p.subscribe(p.path+" late", nil))
					}
				}
				for _, s := range subs {
					s.reach(0, m-1, "the last packet")
					s.note()
				}
			})
		}
		wg.Wait()
		c.Count("paths", n)
		c.finishRelay(t)
	})
	settle("paths")

	// clients that vanish at any moment, and half-open and broken ones
	x.EachLim("disconnects", x.N(250, 5000), 8, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			stays := p.subscribe("staying subscriber", nil)
			u := p.publish()
			u.headers()
			gop := c.gopLens()
			left := 0
			n := 100 + r.Intn(400)
			var goers []*relaySub
			aborts := 0
			desc := ""
			for i := 0; i < n; i++ {
				u.must(u.some(1, 200, gop, &left))
				switch r.Intn(12) {
				case 0:
					s := p.subscribe(fmt.Sprintf("goer %d", len(goers)), nil)
					goers = append(goers, s)
					if r.Intn(3) == 0 {
						s.close()
						aborts++
						desc += "a"
					}
				case 1:
					if len(goers) > 0 {
						s := goers[r.Intn(len(goers))]
						if r.Intn(2) == 0 {
							s.nc.Close()
						} else {
							s.close()
						}
						aborts++
						desc += "c"
					}
				case 2: // one that never gets through
					if nc, err := net.Dial("tcp", t.addr); err == nil {
						nc.Write(genBytes(r, []int{0, 1, 100, 1537, 4000}[r.Intn(5)]))
						if r.Intn(2) == 0 {
							resetConn(nc)
						} else {
							defer resetConn(nc)
						}
						desc += "g"
					}
				case 3: // the publisher vanishes and comes back
					if r.Intn(4) == 0 {
						if r.Intn(2) == 0 {
							resetConn(u.nc)
						} else {
							u.nc.Close()
						}
						aborts++
						desc += "p"
						u = p.publish()
						u.headers()
						left = 0
					}
				}
			}
			c.Desc("relay %s path %s: %d packets, events %s", t.cmd.Args, p.path, n, desc)
			if u.last() < 0 {
				u.must(u.some(1, 20, gop, &left))
			}
			stays.reach(u.gen, u.last(), "the last packet")
			late := p.subscribe("subscriber after it all", nil)
			late.reach(u.gen, u.last(), "the last packet")
			stays.note()
			late.note()
			c.Count("aborts", aborts)
			// half-closed sessions are ended by the relay
			late.nc.(*net.TCPConn).CloseWrite()
			ended := make(chan bool)
			go func() {
				p.mu.Lock()
				for !late.done {
					p.cond.Wait()
				}
				p.mu.Unlock()
				close(ended)
			}()
			awaitClosed(c, t, "a subscriber that left", ended)
			c.Count("half closes answered", 1)
			u.must(u.media(av.H264, true, 30))
			stays.reach(u.gen, u.last(), "after another left")
			c.Nontrivial(desc)
			c.finishRelay(t)
			c.Sample("%d packets with events %s", n, desc)
		})
	})
	settle("disconnects")

	// a subscriber that never reads
	x.EachLim("stalled", x.N(30, 300), 4, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			gate := make(chan bool)
			defer close(gate)
			stuck := p.subscribe("stalled subscriber", func(int) { <-gate })
			s := p.subscribe("neighbour", nil)
			u := p.publish()
			u.headers()
			gop := c.gopLens()
			left := 0
			n := 120 + r.Intn(100)
			u.must(u.some(n, 120000, gop, &left))
			s.reach(0, n-1, "beside a subscriber that does not read")
			other := newRelayPath(c, t)
			defer other.end()
			o := other.subscribe("other path", nil)
			ou := other.publish()
			ou.must(ou.media(av.H264, true, 1000))
			o.reach(0, 0, "on another path")
			u2 := p.publish()
			awaitClosed(c, t, "replaced publisher", u.watch())
			u2.must(u2.some(20, 1000, gop, new(int)))
			s.reach(1, 19, "from the next publisher")
			stuck.close()
			u2.must(u2.media(av.H264, true, 1000))
			s.reach(1, 20, "after the stalled one left")
			s.note()
			c.Count("stalled neighbours", 1)
			c.finishRelay(t)
		})
	})
	settle("stalled")

	// paths that empty and fill again
	x.EachLim("churn", x.N(60, 1000), 4, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			p.anyOrder = true
			var wg sync.WaitGroup
			for k, n := 0, 2+r.Intn(3); k < n; k++ {
				rounds := 3 + r.Intn(10)
				seed := r.Int63()
				c.Go(&wg, func() {
					for i := 0; i < rounds; i++ {
						if (seed>>uint(i*2))&3 == 0 {
							u, err := p.tryPublish()
							if err != nil {
								continue
							}
							u.media(av.H264, true, 40)
							u.media(av.H264, false, 40)
							resetConn(u.nc)
						} else {
							s := p.subscribe("churning subscriber", nil)
							if (seed>>uint(i))&1 == 0 {
								time.Sleep(time.Duration(seed>>30&255) * time.Microsecond)
							}
							s.close()
						}
						c.Count("churn rounds", 1)
					}
				})
			}
			wg.Wait()
			c.finishRelay(t)
			s := p.subscribe("subscriber after the churn", nil)
			u := p.publish()
			u.must(u.media(av.H264, true, 40))
			u.must(u.media(av.H264, false, 40))
			s.reach(u.gen, 1, "after the churn")
			s.note()
			c.finishRelay(t)
			c.Nontrivial(c.Idx)
		})
	})
	settle("churn")
}
