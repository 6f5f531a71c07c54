package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"
)

func init() {
	register(&propDef{id: "C23", mul: 6,
		rule:   "the real relay process (avtool pubsubrtmp, at several GOMAXPROCS) is driven by publishers and subscribers over loopback; every packet carries its path, publisher and number, and an online checker per subscriber compares each received packet with the publish log: order, duplicates, bytes, key frame after each gap, no gap while in step, and delivery of the last packet without further publishes. Non-trivial = a subscriber that received media; distinct by the exact set of packets it received relative to the published sequence",
		assume: []string{"published sequences start with a key frame", "completeness is required of subscribers that had received everything before the newest group of pictures began", "delivery is awaited for 30 s"},
		must:   []string{"flood subscribers", "gaps", "late joiners", "in-step packets", "packets delivered", "stalled and resumed", "quiet relays"},
		run:    runC23})
	register(&propDef{id: "C24", mul: 6,
		rule:   "the real relay process under joins, leaves, header changes, take-overs, stalls and disconnects on many paths at once; a checker per subscriber follows headers, publishers and paths, sessions that ended must be closed by the relay, and its open descriptors return to the initial number. Non-trivial = a schedule with at least one event of the group's kind that was observed; distinct by the schedule",
		assume: []string{"the headers a key frame, audio packet or its group needs are those last published before it", "closes and deliveries are awaited for 30 s"},
		must:   []string{"header changes", "headers seen", "takeovers", "idle publishers closed", "paths", "stalled neighbours", "aborts", "half closes answered", "descriptor checks", "churn rounds", "racing publishers"},
		run:    runC24})
}

// ---------------------------------------------------------------- tool processes

type tool struct {
	cmd   *exec.Cmd
	addr  string
	log   string
	dead  chan bool
	state string
	kill  int32
}

// startTool runs avtool; args may hold ADDR for its address.
func startTool(x *Ctx, maxprocs int, args ...string) *tool {
	bin := os.Getenv("VH_AVTOOL")
	if bin == "" {
		panic("no avtool binary")
	}
	t := &tool{addr: ownAddr(), dead: make(chan bool)}
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "ADDR", t.addr)
	}
	t.log = filepath.Join(os.Getenv("VH_TMP"), fmt.Sprintf("tool-%d.log", atomic.AddInt64(&scratchN, 1)))
	f, err := os.Create(t.log)
	if err != nil {
		panic(err)
	}
	t.cmd = exec.Command(bin, args...)
	t.cmd.Stdout, t.cmd.Stderr = f, f
	t.cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", maxprocs), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := t.cmd.Start(); err != nil {
		panic(err)
	}
	f.Close()
	go func() {
		err := t.cmd.Wait()
		t.state = fmt.Sprint(t.cmd.ProcessState, " ", err)
		close(t.dead)
	}()
	return t
}

// ready waits until the tool listens.
func (t *tool) ready() {
	for i := 0; i < 4000; i++ {
		if nc, err := net.DialTimeout("tcp", t.addr, time.Second); err == nil {
			nc.(*net.TCPConn).SetLinger(0)
			nc.Close()
			return
		}
		select {
		case <-t.dead:
			return
		case <-time.After(5 * time.Millisecond):
		}
	}
}

func (t *tool) stop() {
	atomic.StoreInt32(&t.kill, 1)
	t.cmd.Process.Kill()
	<-t.dead
	os.Remove(t.log)
}

func (t *tool) tail() string {
	b, _ := os.ReadFile(t.log)
	if i := bytes.Index(b, []byte("WARNING: DATA RACE")); i >= 0 {
		b = b[i:]
		if len(b) > 6000 {
			b = b[:6000]
		}
		return string(b)
	}
	if i := bytes.Index(b, []byte("panic:")); i >= 0 {
		b = b[i:]
		if len(b) > 4000 {
			b = b[:4000]
		}
		return string(b)
	}
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

// alive fails the case when the tool has ended.
func (t *tool) alive(c *C) {
	select {
	case <-t.dead:
		c.Failf("%v ended: %s\n%s", t.cmd.Args[1:], t.state, t.tail())
	default:
	}
}

func (t *tool) fds() int {
	e, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", t.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	n := 0
	for _, f := range e {
		if l, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", t.cmd.Process.Pid, f.Name())); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- publish log

const relayWait = 30 * time.Second

var relayPaths int64

type relayPkt struct {
	p    av.Packet
	key  bool
	m    []byte // headers in force
	v, a []byte
}

// relayPath is one path of the relay and all that was published on it.
type relayPath struct {
	c        *C
	t        *tool
	id       uint32
	path     string
	mu       sync.Mutex
	cond     *sync.Cond
	log      [][]relayPkt // by publisher
	anyOrder bool         // publishers that raced
	tasks    sync.WaitGroup
	conns    []net.Conn
}

func newRelayPath(c *C, t *tool) *relayPath {
	id := uint32(atomic.AddInt64(&relayPaths, 1))
	p := &relayPath{c: c, t: t, id: id, path: fmt.Sprintf("/app/s%d", id)}
	if c.R.Intn(4) == 0 {
		p.path = fmt.Sprintf("/app/deep/s%d.flv", id)
	}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *relayPath) connect() net.Conn {
	for i := 0; ; i++ {
		nc, err := net.DialTimeout("tcp", p.t.addr, 15*time.Second)
		if err == nil {
			p.mu.Lock()
			p.conns = append(p.conns, nc)
			p.mu.Unlock()
			return nc
		}
		p.t.alive(p.c)
		if i == 3 || !strings.Contains(err.Error(), "assign requested address") {
			p.c.Failf("dial %s: %v", p.path, err)
		}
		time.Sleep(time.Second)
	}
}

// reset closes a connection without TIME_WAIT.
func resetConn(nc net.Conn) {
	if t, ok := nc.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	nc.Close()
}

// end closes every connection and waits for the subscribers.
func (p *relayPath) end() {
	p.mu.Lock()
	cs := p.conns
	p.mu.Unlock()
	for _, nc := range cs {
		resetConn(nc)
	}
	p.tasks.Wait()
}

type relayPub struct {
	p       *relayPath
	gen     int
	rc      *rtmp.Conn
	nc      net.Conn
	m, v, a []byte // headers in force
	gv      []byte // of the current group
	ms      int64
	closed  chan error // reading side ended
}

// publish connects a publisher; gen is its number on the path.
func (p *relayPath) publish() *relayPub {
	u, err := p.tryPublish()
	if err != nil {
		p.t.alive(p.c)
		p.c.Failf("publisher %d on %s: %v", len(p.log), p.path, err)
	}
	return u
}

// tryPublish is publish for publishers that race: one that has been replaced
// may be closed before it is answered.
func (p *relayPath) tryPublish() (*relayPub, error) {
	nc := p.connect()
	u, _ := url.Parse("rtmp://" + p.t.addr + p.path)
	rc, err := rtmp.NewClient().FromNetConn(nc, u, rtmp.PrepareWriting)
	if err != nil {
		return nil, err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.log = append(p.log, nil)
	return &relayPub{p: p, gen: len(p.log) - 1, rc: rc, nc: nc}, nil
}

// write sends a header packet.
func (u *relayPub) header(typ int, data []byte) error {
	switch typ {
	case av.Metadata:
		u.m = data
	case av.H264DecoderConfig:
		u.v = data
	case av.AACDecoderConfig:
		u.a = data
	}
	return u.rc.WritePacket(av.Packet{Type: typ, Data: data})
}

// media sends the next media packet.
func (u *relayPub) media(typ int, key bool, size int) error {
	p := u.p
	p.mu.Lock()
	seq := len(p.log[u.gen])
	if size < 12 {
		size = 12
	}
	d := make([]byte, size)
	binary.BigEndian.PutUint32(d, p.id)
	binary.BigEndian.PutUint32(d[4:], uint32(u.gen))
	binary.BigEndian.PutUint32(d[8:], uint32(seq))
	for i := 12; i < size; i++ {
		d[i] = byte(i*7 + seq*31 + u.gen)
	}
	u.ms += int64(seq % 41)
	q := av.Packet{Type: typ, IsKeyFrame: key, Data: d, Time: time.Duration(u.ms) * time.Millisecond}
	if typ == av.H264 {
		q.CTime = time.Duration(seq%5) * 40 * time.Millisecond
	}
	if key {
		u.gv = u.v
	}
	p.log[u.gen] = append(p.log[u.gen], relayPkt{p: q, key: key, m: u.m, v: u.gv, a: u.a})
	p.mu.Unlock()
	return u.rc.WritePacket(q)
}

func (u *relayPub) last() int {
	u.p.mu.Lock()
	defer u.p.mu.Unlock()
	return len(u.p.log[u.gen]) - 1
}

// must fails the case if a write of a live publisher failed.
func (u *relayPub) must(err error) {
	if err != nil {
		u.p.t.alive(u.p.c)
		u.p.c.Failf("publisher %d on %s: %v", u.gen, u.p.path, err)
	}
}

// watch reports when the relay closes the publisher's connection.
func (u *relayPub) watch() <-chan bool {
	ch := make(chan bool)
	n := u.rc.CloseNotify()
	go func() {
		<-n
		close(ch)
	}()
	return ch
}

// ---------------------------------------------------------------- subscribers

type relaySub struct {
	p          *relayPath
	name       string
	rc         *rtmp.Conn
	nc         net.Conn
	pause      func(n int) // called before each read
	mu         sync.Mutex
	gen, seq   int // last received
	n          int
	gaps       int
	heads      int
	firstSeq   int
	noGap      bool // it is in step with the publisher
	gens       int
	pattern    []byte
	m, v, a    []byte
	hm, hv, ha bool
	err        error
	done       bool
	seen       map[int]bool
}

// subscribe connects a subscriber, which negotiates in the background: the
// relay answers a player when it has something to play.
func (p *relayPath) subscribe(name string, pause func(n int)) *relaySub {
	nc := p.connect()
	s := &relaySub{p: p, name: name, nc: nc, pause: pause, gen: -1, seq: -1, firstSeq: -1, seen: map[int]bool{}}
	p.tasks.Add(1)
	go func() {
		defer p.tasks.Done()
		p.c.Guard(func() {
			u, _ := url.Parse("rtmp://" + p.t.addr + p.path)
			rc, err := rtmp.NewClient().FromNetConn(nc, u, rtmp.PrepareReading)
			if err != nil {
				p.mu.Lock()
				s.err = err
				p.mu.Unlock()
				return
			}
			s.rc = rc
			s.loop()
		})
		p.mu.Lock()
		s.done = true
		p.cond.Broadcast()
		p.mu.Unlock()
	}()
	return s
}

func (s *relaySub) loop() {
	for n := 0; ; n++ {
		if s.pause != nil {
			s.pause(n)
		}
		pkt, err := s.rc.ReadPacket()
		if err != nil {
			s.p.mu.Lock()
			s.err = err
			s.p.mu.Unlock()
			return
		}
		s.got(pkt)
	}
}

// got is the online checker.
func (s *relaySub) got(q av.Packet) {
	p, c := s.p, s.p.c
	switch q.Type {
	case av.Metadata:
		if s.hm && !bytes.Equal(q.Data, []byte{3, 0, 0, 9}) && metaEqual(s.m, q.Data) { // no metadata and an empty object look the same
			c.Failf("%s: metadata %x repeated unchanged as %x after %d/%d", s.name, s.m, q.Data, s.gen, s.seq)
		}
		s.hm, s.m = true, q.Data
		s.heads++
		return
	case av.H264DecoderConfig:
		if s.hv && bytes.Equal(s.v, q.Data) {
			c.Failf("%s: video header repeated unchanged", s.name)
		}
		s.hv, s.v = true, q.Data
		s.heads++
		return
	case av.AACDecoderConfig:
		if s.ha && bytes.Equal(s.a, q.Data) {
			c.Failf("%s: audio header repeated unchanged", s.name)
		}
		s.ha, s.a = true, q.Data
		s.heads++
		return
	}
	if len(q.Data) < 12 {
		c.Failf("%s: unknown packet %s", s.name, pktStr(q))
	}
	id, gen, seq := binary.BigEndian.Uint32(q.Data), int(binary.BigEndian.Uint32(q.Data[4:])), int(binary.BigEndian.Uint32(q.Data[8:]))
	if id != p.id {
		c.Failf("%s: packet of path %d on path %d: %s", s.name, id, p.id, pktStr(q))
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if gen >= len(p.log) || seq >= len(p.log[gen]) {
		c.Failf("%s: packet %d/%d was not published: %s", s.name, gen, seq, pktStr(q))
	}
	w := p.log[gen][seq]
	if d := pktDiff(q, w.p); d != "" {
		c.Failf("%s: packet %d/%d: %s", s.name, gen, seq, d)
	}
	at := fmt.Sprintf("%s: packet %d of publisher %d after packet %d of publisher %d", s.name, seq, gen, s.seq, s.gen)
	if gen == s.gen {
		if seq <= s.seq {
			c.Failf("%s", at)
		}
		if seq != s.seq+1 {
			if !w.key {
				c.Failf("%s: a gap that does not end with a key frame", at)
			}
			if s.noGap {
				c.Failf("%s: a gap although the subscriber had everything", at)
			}
			s.gaps++
			s.pattern = append(s.pattern, byte(seq), byte(seq>>8), byte(s.seq), byte(s.seq>>8))
		}
	} else {
		if gen < s.gen && !p.anyOrder || s.seen[gen] {
			c.Failf("%s: the replaced publisher came back", at)
		}
		s.seen[gen] = true
		if !w.key {
			c.Failf("%s: the stream does not start with a key frame", at)
		}
		if s.gen < 0 {
			s.firstSeq = seq
		}
		s.gens++
		s.pattern = append(s.pattern, 'g', byte(gen), byte(seq), byte(seq>>8))
	}
	if len(w.m) > 0 && !(s.hm && metaEqual(s.m, w.m)) {
		c.Failf("%s: metadata in force not sent before it", at)
	}
	if w.p.Type == av.H264 && len(w.v) > 0 && !bytes.Equal(s.v, w.v) {
		c.Failf("%s: video header %x, in force %x", at, s.v, w.v)
	}
	if w.p.Type == av.AAC && len(w.a) > 0 && !bytes.Equal(s.a, w.a) {
		c.Failf("%s: audio header %x, in force %x", at, s.a, w.a)
	}
	s.gen, s.seq = gen, seq
	s.n++
	p.cond.Broadcast()
}

func metaEqual(a, b []byte) bool {
	x, err1 := aDecodeAll(a)
	y, err2 := aDecodeAll(b)
	return err1 == nil && err2 == nil && aEqualAll(x, y)
}

// reach waits until the subscriber has received the packet.
func (s *relaySub) reach(gen, seq int, what string) {
	p := s.p
	deadline := time.Now().Add(relayWait)
	timer := time.AfterFunc(relayWait+time.Second, p.cond.Broadcast)
	defer timer.Stop()
	p.mu.Lock()
	for !(s.gen == gen && s.seq >= seq) && !s.done && time.Now().Before(deadline) {
		p.cond.Wait()
	}
	ok, g, q, done, err := s.gen == gen && s.seq >= seq, s.gen, s.seq, s.done, s.err
	p.mu.Unlock()
	if atomic.LoadInt32(&p.c.fails) > 0 {
		panic(failSentinel{})
	}
	if !ok {
		p.t.alive(p.c)
		if done {
			p.c.Failf("%s: %s: the session ended (%v) after packet %d/%d, before %d/%d", s.name, what, err, g, q, gen, seq)
		}
		p.c.Failf("%s: %s: packet %d/%d has not arrived in %v; last is %d/%d", s.name, what, gen, seq, relayWait, g, q)
	}
}

func (s *relaySub) close() { resetConn(s.nc) }

// awaitEOF expects the relay to end the connection.
func awaitClosed(c *C, t *tool, what string, ch <-chan bool) {
	select {
	case <-ch:
	case <-time.After(relayWait):
		t.alive(c)
		c.Failf("%s: the connection is still open after %v", what, relayWait)
	}
}

// note adds the subscriber's observations to the evidence.
func (s *relaySub) note() {
	c := s.p.c
	s.p.mu.Lock()
	defer s.p.mu.Unlock()
	c.Count("packets delivered", s.n)
	c.Count("gaps", s.gaps)
	c.Count("headers seen", s.heads)
	if s.firstSeq > 0 {
		c.Count("late joiners", 1)
	}
	if s.n > 0 {
		c.Nontrivial(s.n, s.firstSeq, s.pattern, c.Idx)
		c.State("received sets", s.n, s.firstSeq, s.pattern)
	}
}

// relayCase runs f with a path, closing everything after it.
func relayCase(c *C, t *tool, f func(p *relayPath)) {
	t.alive(c)
	p := newRelayPath(c, t)
	defer p.end()
	f(p)
}

func (c *C) finishRelay(t *tool) {
	t.alive(c)
	if atomic.LoadInt32(&c.fails) > 0 {
		panic(failSentinel{})
	}
}

// gop is a group-of-pictures length generator.
func (c *C) gopLens() func() int {
	r := c.R
	m := []int{1, 2, 3, 10, 50, 300, 5000}[r.Intn(7)]
	fixed := r.Intn(3) == 0
	return func() int {
		if fixed {
			return m
		}
		return 1 + r.Intn(m)
	}
}

var suspensions atomic.Int64

func relayTools(x *Ctx) (ts []*tool, stop func()) {
	for _, n := range []int{1, 2, 4, 8} {
		ts = append(ts, startTool(x, n, "pubsubrtmp", "ADDR"))
	}
	// one that is suspended at random moments, so that its threads resume in
	// any order
	j := startTool(x, 8, "pubsubrtmp", "ADDR")
	ts = append(ts, j)
	for _, t := range ts {
		t.ready()
	}
	over := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		r := rand.New(rand.NewSource(int64(x.Seed)))
		for {
			select {
			case <-over:
				return
			case <-j.dead:
				return
			case <-time.After(time.Duration(r.Intn(2000)) * time.Microsecond):
			}
			j.cmd.Process.Signal(syscall.SIGSTOP)
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			j.cmd.Process.Signal(syscall.SIGCONT)
			suspensions.Add(1)
		}
	}()
	return ts, func() {
		close(over)
		wg.Wait()
		for _, t := range ts {
			t.stop()
		}
	}
}

func (u *relayPub) headers() {
	c := u.p.c
	r := c.R
	if r.Intn(8) > 0 {
		u.must(u.header(av.Metadata, encMeta(genMeta(r))))
	}
	if r.Intn(8) > 0 {
		u.must(u.header(av.H264DecoderConfig, genBytes(r, 1+r.Intn(60))))
	}
	if r.Intn(8) > 0 {
		u.must(u.header(av.AACDecoderConfig, genBytes(r, 1+r.Intn(10))))
	}
}

func (u *relayPub) kind() int {
	if u.p.c.R.Intn(3) == 0 {
		return av.AAC
	}
	return av.H264
}

func runC23(x *Ctx) {
	ts, stop := relayTools(x)
	defer stop()
	x.EachLim("flood", x.N(600, 12000), 8, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			n := []int{50, 300, 1000, 3000}[r.Intn(4)]
			max := []int{30, 200, 2000}[r.Intn(3)]
			gop := c.gopLens()
			audio := r.Intn(3) > 0
			ns := 1 + r.Intn(6)
			c.Desc("relay %s path %s: %d packets up to %d bytes, %d subscribers", t.cmd.Args, p.path, n, max, ns)
			var subs []*relaySub
			join := map[int]int{}
			for i := 0; i < ns; i++ {
				if r.Intn(3) == 0 {
					join[-1]++
				} else {
					join[r.Intn(n)]++
				}
			}
			add := func() {
				k := len(subs)
				rr := r.Int63()
				mode := r.Intn(5)
				s := p.subscribe(fmt.Sprintf("subscriber %d", k), func(i int) {
					switch {
					case mode == 0 && (int64(i)*rr>>7)&15 == 0:
						time.Sleep(time.Duration(rr>>20&1023) * time.Microsecond)
					case mode == 1 && i == int(rr&63):
						time.Sleep(time.Duration(rr>>20&31) * time.Millisecond)
					}
				})
				subs = append(subs, s)
				c.Count("flood subscribers", 1)
			}
			if r.Intn(2) == 0 {
				for ; join[-1] > 0; join[-1]-- {
					add()
				}
			}
			u := p.publish()
			u.headers()
			for ; join[-1] > 0; join[-1]-- {
				add()
			}
			left := 0
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				key := left == 0
				if key {
					left = gop()
				}
				left--
				typ := av.H264
				if !key && audio {
					typ = u.kind()
				}
				u.must(u.media(typ, key, 12+r.Intn(max)))
				for ; join[i] > 0; join[i]-- {
					add()
				}
				if r.Intn(200) == 0 {
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
			}
			wg.Wait()
			for _, s := range subs {
				s.reach(u.gen, n-1, "the last packet")
				s.note()
			}
			c.finishRelay(t)
			c.Sample("%d packets, %d subscribers; first got %d with %d gaps", n, ns, subs[0].n, subs[0].gaps)
		})
	})
	// publisher and subscribers in step: nothing may be missing
	x.EachLim("in-step", x.N(500, 10000), 16, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			gop := c.gopLens()
			var subs []*relaySub
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				subs = append(subs, p.subscribe(fmt.Sprintf("subscriber %d", i), nil))
				if r.Intn(2) == 0 {
					break
				}
			}
			u := p.publish()
			u.headers()
			left := 0
			batches := 5 + r.Intn(60)
			sent := 0
			c.Desc("relay %s path %s: %d batches, %d subscribers", t.cmd.Args, p.path, batches, len(subs))
			for b := 0; b < batches; b++ {
				m := 1 + r.Intn(6)
				for k := 0; k < m; k++ {
					key := left == 0
					if key && k > 0 {
						break // a new group starts only when all is received
					}
					if key {
						left = gop()
					}
					left--
					typ := av.H264
					if !key {
						typ = u.kind()
					}
					u.must(u.media(typ, key, 12+r.Intn(300)))
					sent++
				}
				for _, s := range subs {
					s.reach(u.gen, u.last(), "in step")
					p.mu.Lock()
					s.noGap = true
					p.mu.Unlock()
				}
				if r.Intn(10) == 0 && len(subs) < 8 {
					s := p.subscribe(fmt.Sprintf("subscriber %d", len(subs)), nil)
					// it catches up with what is there
					s.reach(u.gen, u.last(), "catching up")
					p.mu.Lock()
					s.noGap = true
					p.mu.Unlock()
					subs = append(subs, s)
				}
				if r.Intn(12) == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
			}
			for _, s := range subs {
				p.mu.Lock()
				if s.gaps > 0 || s.n != sent-s.firstSeq {
					p.mu.Unlock()
					c.Failf("%s got %d packets from number %d on, of %d", s.name, s.n, s.firstSeq, sent)
				}
				p.mu.Unlock()
				c.Count("in-step packets", s.n)
				s.note()
			}
			c.finishRelay(t)
		})
	})
	// nothing is published for a while: before the first packet or within a
	// group of pictures
	quiet := len(ts)
	if x.Prop == "C25" {
		quiet = 0
	}
	x.EachLim("quiet", quiet, len(ts), defaultCaseLimit, func(c *C) {
		t := ts[c.Idx]
		wait := 17 * time.Second
		if x.Thorough {
			wait = 33 * time.Second
		}
		relayCase(c, t, func(p *relayPath) {
			c.Desc("relay %s path %s: quiet for %v", t.cmd.Args, p.path, wait)
			s := p.subscribe("subscriber", nil)
			if c.Idx%2 == 0 {
				time.Sleep(wait)
			}
			u := p.publish()
			u.headers()
			for i := 0; i < 20; i++ {
				if c.Idx%2 == 1 && i == 5 {
					time.Sleep(wait)
				}
				u.must(u.media(av.H264, i%12 == 0, 100))
				s.reach(u.gen, u.last(), "after a while without packets")
				p.mu.Lock()
				s.noGap = true
				p.mu.Unlock()
			}
			c.Count("quiet relays", 1)
			s.note()
			c.finishRelay(t)
		})
	})
	// subscribers that stop reading until the relay is blocked on them
	x.EachLim("stall", x.N(40, 500), 4, defaultCaseLimit, func(c *C) {
		r := c.R
		t := ts[r.Intn(len(ts))]
		relayCase(c, t, func(p *relayPath) {
			gate := make(chan bool)
			var once sync.Once
			open := func() { once.Do(func() { close(gate) }) }
			defer open()
			at := r.Intn(20)
			slow := p.subscribe("stalled subscriber", func(i int) {
				if i == at {
					<-gate
				}
			})
			fast := p.subscribe("other subscriber", nil)
			u := p.publish()
			u.headers()
			gop := c.gopLens()
			left := 0
			n := 150 + r.Intn(150)
			size := 40000 + r.Intn(60000)
			c.Desc("relay %s path %s: %d packets of %d bytes, stalled at %d", t.cmd.Args, p.path, n, size, at)
			for i := 0; i < n; i++ {
				key := left == 0
				if key {
					left = gop()
				}
				left--
				typ := av.H264
				if !key {
					typ = u.kind()
				}
				u.must(u.media(typ, key, size))
			}
			fast.reach(u.gen, n-1, "beside a stalled subscriber")
			p.mu.Lock()
			stuck := slow.seq < n-1
			p.mu.Unlock()
			open()
			slow.reach(u.gen, n-1, "after the stall")
			if stuck {
				c.Count("stalled and resumed", 1)
			}
			slow.note()
			fast.note()
			c.finishRelay(t)
		})
	})
}
