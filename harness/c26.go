package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/av/pktop"
)

func init() {
	register(&propDef{id: "C26", mul: 3,
		rule:   "packet time sequences with ties, jumps and backward steps in batches with delays between calls, run in virtual time; the instant of every return is compared with an independent model, exactly. Non-trivial = a sequence with at least one wait and one packet that does not advance; distinct by the sequence of times and delays",
		assume: []string{"packet times up to 20 years", "times are measured on the virtual clock of testing/synctest, whose sleeps are exact"},
		must:   []string{"packets", "waits", "late", "backward", "ties", "batches", "concurrent limiters"},
		run:    runC26})
}

func genPaceTimes(c *C, n int) (ts []time.Duration) {
	r := c.R
	var cur time.Duration
	units := []time.Duration{1, time.Microsecond, time.Millisecond, 40 * time.Millisecond, time.Second, time.Hour, 24 * time.Hour}
	if r.Intn(4) == 0 { // a stream that starts late
		cur = time.Duration(r.Int63n(int64(20 * 365 * 24 * time.Hour)))
	}
	if r.Intn(8) == 0 {
		cur = -cur
	}
	mode := r.Intn(4)
	for i := 0; i < n; i++ {
		u := units[r.Intn(len(units))]
		switch mode {
		case 0:
			u = 40 * time.Millisecond
		case 1:
			u = time.Millisecond
		}
		d := time.Duration(r.Int63n(int64(u)*2 + 1))
		switch r.Intn(8) {
		case 0:
			d = 0
		case 1:
			d = -d
		case 2:
			d = -d * 10
		}
		ts = append(ts, cur+d)
		if mode != 3 || r.Intn(3) == 0 { // mode 3: jitter around a base
			cur += d
		}
	}
	return
}

// paceRun feeds one limiter and checks every return against the model:
// a packet that advances the stream's time is released when the advance has
// elapsed since the release of the last one that did.
func paceRun(c *C, mk func() *pktop.NativeRateLimiter) {
	r := c.R
	n := 1 + r.Intn(60)
	most := 8
	if r.Intn(10) == 0 {
		n, most = 100+r.Intn(900), 1000
	}
	ts := genPaceTimes(c, n)
	l := mk()
	rel := time.Now()
	var base time.Duration
	key := ""
	waits, still := 0, 0
	for i := 0; i < n; {
		m := 1
		if r.Intn(3) == 0 {
			m = r.Intn(most)
			c.Count("batches", 1)
		}
		if i+m > n {
			m = n - i
		}
		var in, orig []av.Packet
		for k := 0; k < m; k++ {
			p := av.Packet{Type: []int{av.H264, av.AAC, av.Metadata, av.H264DecoderConfig, 77}[r.Intn(5)], Time: ts[i+k], CTime: time.Duration(r.Intn(1000)), IsKeyFrame: r.Intn(2) == 0, Data: genBytes(r, r.Intn(20)), VSeqHdr: genBytes(r, r.Intn(3)), ASeqHdr: genBytes(r, r.Intn(3)), Metadata: genBytes(r, r.Intn(3))}
			in = append(in, p)
			q := p
			q.Data = append([]byte(nil), p.Data...)
			orig = append(orig, q)
		}
		i += m
		var delay time.Duration
		switch r.Intn(4) {
		case 0:
			delay = time.Duration(r.Int63n(int64(100 * time.Millisecond)))
		case 1:
			delay = time.Duration(r.Int63n(int64(3 * time.Hour)))
		}
		time.Sleep(delay)
		key += fmt.Sprint(delay, m, ";")
		now := time.Now()
		for _, p := range in {
			key += fmt.Sprint(p.Time, ",")
			adv := p.Time - base
			switch {
			case adv < 0:
				c.Count("backward", 1)
				still++
			case adv == 0:
				c.Count("ties", 1)
				still++
			default:
				due := rel.Add(adv)
				if now.Before(due) {
					now = due
					c.Count("waits", 1)
					waits++
				} else {
					c.Count("late", 1)
				}
				rel = now
				base = p.Time
			}
		}
		out := l.Do(in)
		if got := time.Now(); !got.Equal(now) {
			c.Failf("batch %v ending at packet %d of %v returned %v %s", times(in), i, ts, got.Sub(now).Abs(), map[bool]string{true: "late", false: "early"}[got.After(now)])
		}
		if len(out) != len(orig) {
			c.Failf("%d packets returned of %d", len(out), len(orig))
		}
		for k := range out {
			a, b := out[k], orig[k]
			if a.Type != b.Type || a.Time != b.Time || a.CTime != b.CTime || a.IsKeyFrame != b.IsKeyFrame || !bytes.Equal(a.Data, b.Data) || !bytes.Equal(a.VSeqHdr, b.VSeqHdr) || !bytes.Equal(a.ASeqHdr, b.ASeqHdr) || !bytes.Equal(a.Metadata, b.Metadata) {
				c.Failf("packet %d changed: %+v, was %+v", k, a, b)
			}
		}
		c.Count("packets", m)
	}
	c.Desc("times %v", ts)
	if waits > 0 && still > 0 {
		c.Nontrivial(key)
	}
	c.State("outcomes", waits > 0, still > 0, n)
}

func times(in []av.Packet) (ts []time.Duration) {
	for _, p := range in {
		ts = append(ts, p.Time)
	}
	return
}

func runC26(x *Ctx) {
	x.Each("pace", x.N(20000, 1500000), func(c *C) {
		c.Bubble(func() {
			time.Sleep(time.Duration(c.R.Intn(1000)) * time.Millisecond)
			paceRun(c, pktop.NewNativeRateLimiter)
		})
	})
	// a limiter does not depend on others
	x.Each("two", x.N(4000, 200000), func(c *C) {
		c.Bubble(func() {
			done := make(chan bool)
			stop := make(chan bool)
			go func() {
				defer close(done)
				o := pktop.NewNativeRateLimiter()
				for t := time.Duration(0); ; t += 7 * time.Hour {
					select {
					case <-stop:
						return
					default:
					}
					o.Do([]av.Packet{{Time: t}})
				}
			}()
			defer func() { close(stop); <-done }()
			paceRun(c, pktop.NewNativeRateLimiter)
			c.Count("concurrent limiters", 1)
		})
	})
}
