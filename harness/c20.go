package main

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/rtsp"
)

func init() {
	register(&propDef{id: "C20",
		mul:  5,
		rule: "an independent RTSP server over loopback TCP sends generated H.264 and AAC tracks in every supported packetisation; every packet the client returns is compared with the units sent. Non-trivial = a session with at least 5 media units; distinct by the bytes sent",
		must: []string{"single", "stap", "fu-a", "aac", "rtcp", "responses interleaved", "rtp wraps", "padding", "extension", "csrc", "parameter changes", "long runs", "frames", "tracks 2+", "lost", "holes", "start codes in packets", "malformed skipped", "other payload types", "empty packets", "sps changes", "pps changes"},
		run:  runC20})
	register(&propDef{id: "C21",
		mul:  5,
		rule: "generated SDP layouts, control URLs, credentials, challenges and refusals served by an independent RTSP server that checks every request; streams, outcomes and the timing of delivered probes are compared. Non-trivial = every session; distinct by SDP, URL and challenge",
		must: []string{"sessions", "basic", "digest", "wrong credentials", "refused", "distractor attributes", "skipped sections", "absolute controls", "no control", "setup challenges", "play challenges", "keepalives", "chosen sections"},
		run:  runC21})
	register(&propDef{id: "C22", mul: 3,
		rule: "recorded server byte streams are truncated at every byte, mutated, forged or replaced by random bytes and end with a close, reset or silence; panics, sessions that do not return and allocation are monitored. Non-trivial = every hostile stream; distinct by bytes",
		must: []string{"truncations", "mutants", "random", "forged", "silences", "packets from hostile", "near misses"},
		run:  runC22})
}

// ---------------------------------------------------------------- RTSP server

type rtspReq struct {
	method, uri string
	hdr         map[string]string // lower-case keys
}

type rtspServer struct {
	lis      net.Listener
	nc       net.Conn
	accepted int32
	done     int32
	br       *bufio.Reader
	url      string // without credentials
}

// Listeners are used again by later cases: closed connections keep their
// listener's port for a minute, and there are more cases than ports.
var lisPool struct {
	sync.Mutex
	free []net.Listener
}

func getListener() (net.Listener, error) {
	lisPool.Lock()
	defer lisPool.Unlock()
	if n := len(lisPool.free); n > 0 {
		l := lisPool.free[n-1]
		lisPool.free = lisPool.free[:n-1]
		return l, nil
	}
	return net.Listen("tcp", "127.0.0.1:0")
}

// putListener gives back a listener all whose connections were accepted.
func putListener(l net.Listener) {
	lisPool.Lock()
	defer lisPool.Unlock()
	lisPool.free = append(lisPool.free, l)
}

func newRTSPServer() (*rtspServer, error) {
	l, err := getListener()
	if err != nil {
		return nil, err
	}
	return &rtspServer{lis: l}, nil
}

func (s *rtspServer) host() string { return s.lis.Addr().String() }

func (s *rtspServer) accept() (err error) {
	s.lis.(*net.TCPListener).SetDeadline(time.Now().Add(60 * time.Second))
	if s.nc, err = s.lis.Accept(); err != nil {
		return
	}
	s.br = bufio.NewReaderSize(s.nc, 65536)
	s.nc.SetDeadline(time.Now().Add(90 * time.Second))
	atomic.StoreInt32(&s.accepted, 1)
	return
}

// reset closes the connection without leaving it in TIME_WAIT.
func (s *rtspServer) reset() {
	if !atomic.CompareAndSwapInt32(&s.done, 0, 1) {
		return
	}
	if atomic.LoadInt32(&s.accepted) == 0 {
		s.lis.Close()
		return
	}
	s.nc.(*net.TCPConn).SetLinger(0)
	s.nc.Close()
	putListener(s.lis)
}

func (s *rtspServer) next() (q rtspReq, err error) {
	q.hdr = map[string]string{}
	line, err := s.br.ReadString('\n')
	if err != nil {
		return
	}
	f := strings.Split(strings.TrimSuffix(line, "\r\n"), " ")
	if len(f) != 3 || f[2] != "RTSP/1.0" || !strings.HasSuffix(line, "\r\n") {
		err = fmt.Errorf("request line %q", line)
		return
	}
	q.method, q.uri = f[0], f[1]
	for {
		if line, err = s.br.ReadString('\n'); err != nil {
			return
		}
		if line == "\r\n" {
			return
		}
		if !strings.HasSuffix(line, "\r\n") {
			err = fmt.Errorf("header line %q", line)
			return
		}
		k, v, ok := strings.Cut(strings.TrimSuffix(line, "\r\n"), ":")
		if !ok {
			err = fmt.Errorf("header line %q", line)
			return
		}
		q.hdr[strings.ToLower(strings.TrimSpace(k))] = strings.TrimSpace(v)
	}
}

func rtspResp(r *rand.Rand, code int, cseq string, hdr []string, body string) []byte {
	text := map[int]string{200: "OK", 401: "Unauthorized", 404: "Not Found", 403: "Forbidden", 454: "Session Not Found", 461: "Unsupported Transport", 500: "Internal Server Error", 503: "Service Unavailable", 551: "Option not supported"}[code]
	name := func(s string) string {
		switch r.Intn(6) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return strings.ToUpper(s)
		}
		return s
	}
	lines := []string{name("CSeq") + ": " + cseq}
	for _, h := range hdr {
		k, v, _ := strings.Cut(h, ": ")
		sep := ": "
		if r.Intn(5) == 0 {
			sep = ":"
		}
		lines = append(lines, name(k)+sep+v)
	}
	if body != "" || r.Intn(4) == 0 {
		lines = append(lines, name("Content-Length")+": "+strconv.Itoa(len(body)))
	}
	for _, e := range []string{"Server: Fake/1.0", "Date: Wed, May 04 2016 10:10:51 GMT", "Cache-Control: no-cache", "X-Price: $$$ 12$"} {
		if r.Intn(3) == 0 {
			lines = append(lines, e)
		}
	}
	r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	return []byte(fmt.Sprintf("RTSP/1.0 %d %s\r\n%s\r\n\r\n%s", code, text, strings.Join(lines, "\r\n"), body))
}

// ---------------------------------------------------------------- tracks

type rtpTrack struct {
	h264     bool
	pt       int
	clock    int
	control  string
	sps, pps [][]byte
	asc      []byte

	ssrc, ts uint32
	seq      uint16
	ticks    int64 // since the first unit
	started  bool
	lastTime time.Duration
	wrapped  bool

	blocks [][]int // for each packet of the last unit the blocks that carry it
}

func (t *rtpTrack) time() time.Duration {
	v := new(big.Int).Mul(big.NewInt(t.ticks), big.NewInt(1e9))
	return time.Duration(v.Div(v, big.NewInt(int64(t.clock))).Int64())
}

var ascSamples = []string{"1408", "1190", "1210", "1208", "1390", "1588", "11b0", "0a10", "1410", "f8e44000"}

func genTrack(c *C, h264 bool) *rtpTrack {
	r := c.R
	t := &rtpTrack{h264: h264, pt: 96 + r.Intn(32), ssrc: r.Uint32(), seq: uint16(r.Intn(65536))}
	if r.Intn(3) == 0 {
		t.seq = uint16(65536 - r.Intn(60))
	}
	if h264 {
		t.clock = []int{90000, 90000, 90000, 1000, 30, 1000000}[r.Intn(6)]
		for i, n := 0, 1+r.Intn(2); i < n; i++ {
			_, s, _ := genSPS(c, uint64(i))
			t.sps = append(t.sps, s)
		}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			t.pps = append(t.pps, genPPS(c, uint64(i), uint64(r.Intn(len(t.sps)))))
		}
	} else {
		t.clock = []int{48000, 44100, 16000, 8000, 7350}[r.Intn(5)]
		t.asc, _ = hex.DecodeString(ascSamples[r.Intn(9)])
	}
	t.ts = []uint32{0, 0, 1, 0xffffffff, 0xffffff00, 0x7fffffff, 0x80000000, r.Uint32(), r.Uint32()}[r.Intn(9)]
	return t
}

func (t *rtpTrack) advance(r *rand.Rand, big bool) {
	var d int64
	switch r.Intn(8) {
	case 0:
		d = 0
	case 1:
		d = 1
	case 2:
		d = int64(r.Intn(t.clock*10 + 1))
	case 3:
		d = int64(t.clock) * 29 * 60
		if !big {
			d = int64(t.clock)
		}
	default:
		d = int64(t.clock/25 + r.Intn(3))
	}
	if big {
		d = int64(t.clock)*29*60 - int64(r.Intn(100))
	}
	if int64(t.ts)+d > 0xffffffff {
		t.wrapped = true
	}
	t.ts += uint32(d)
	if t.started {
		t.ticks += d
	}
}

func (t *rtpTrack) sdpSection(r *rand.Rand, c *C, distract bool) string {
	var attrs []string
	add := func(f string, a ...interface{}) { attrs = append(attrs, fmt.Sprintf(f, a...)) }
	kind := "audio"
	other := ""
	if distract && r.Intn(3) == 0 {
		o := 96 + r.Intn(32)
		if o != t.pt {
			other = fmt.Sprintf(" %d", o)
			if t.h264 {
				add("rtpmap:%d MP4V-ES/4321", o)
			} else {
				add("rtpmap:%d opus/48001/2", o)
			}
			add("fmtp:%d config=0102; sprop-parameter-sets=AAAA; x=1", o)
		}
	}
	if t.h264 {
		kind = "video"
		name := []string{"H264", "h264", "H264"}[r.Intn(3)]
		add("rtpmap:%d %s/%d", t.pt, name, t.clock)
		var sets []string
		all := append(append([][]byte(nil), t.sps...), t.pps...)
		if r.Intn(4) == 0 {
			r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		}
		for _, s := range all {
			sets = append(sets, base64.StdEncoding.EncodeToString(s))
		}
		ps := []string{"sprop-parameter-sets=" + strings.Join(sets, ",")}
		if r.Intn(3) > 0 {
			ps = append(ps, "packetization-mode=1", "profile-level-id=420029")
		}
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		add("fmtp:%d %s", t.pt, strings.Join(ps, []string{";", "; ", " ; "}[r.Intn(3)]))
	} else {
		name := []string{"MPEG4-GENERIC", "mpeg4-generic", "MPEG4-generic"}[r.Intn(3)]
		ch := []string{"", "/1", "/2", "/6"}[r.Intn(4)]
		add("rtpmap:%d %s/%d%s", t.pt, name, t.clock, ch)
		cfg := hex.EncodeToString(t.asc)
		if r.Intn(2) == 0 {
			cfg = strings.ToUpper(cfg)
		}
		ps := []string{"streamtype=5", "profile-level-id=1", "mode=AAC-hbr", []string{"sizelength=13", "sizeLength=13"}[r.Intn(2)], "indexlength=3", "indexdeltalength=3", []string{"config=", "config=", "Config="}[r.Intn(3)] + cfg}
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		if r.Intn(8) == 0 {
			ps = []string{"config=" + cfg}
		}
		add("fmtp:%d %s", t.pt, strings.Join(ps, []string{";", "; ", " ;"}[r.Intn(3)]))
	}
	if t.control != "" {
		add("control:%s", t.control)
	}
	if distract {
		for _, d := range []string{"framerate:15", "x-dimensions: 720, 480", "framesize:" + strconv.Itoa(t.pt) + " 1280-720", "x-foo:1/2", "Media_header:MEDIAINFO=494D;config=00;", "source-filter: incl IN IP4 * 1.2.3.4", "range:npt=0-", "recvonly", "sendonly", "x-bar:a control:wrong", "cliprect:0,0,480,720", "ssrc:123 cname:a/44", "appversion:1.0", "x:h264/5", "tool:b/77 x/9"} {
			if r.Intn(4) == 0 {
				attrs = append(attrs, d)
				c.Count("distractor attributes", 1)
			}
		}
	}
	r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	s := fmt.Sprintf("m=%s %s RTP/AVP %d%s\r\n", kind, []string{"0", "49170", "5004/2"}[r.Intn(3)], t.pt, other)
	for _, l := range []string{"i=stream", "c=IN IP4 0.0.0.0", "b=AS:300", "k=clear:x"} {
		if r.Intn(3) == 0 {
			s += l + "\r\n"
		}
	}
	for _, a := range attrs {
		s += "a=" + a + "\r\n"
	}
	return s
}

func sdpHead(r *rand.Rand, distract bool) string {
	s := "v=0\r\no=- 1459325504777324 1 IN IP4 192.168.0.123\r\ns=x\r\n"
	if distract {
		for _, l := range []string{"i=mpeg4cif", "u=http://x/y?z=1", "e=a@b", "t=0 0", "a=tool:LIVE555 Streaming Media v2009.09.28", "a=type:broadcast", "a=control:*", "a=range:npt=0-", "a=x-qt-text-nam:RTSP/RTP stream", "a=rtpmap:96 H264/1", "b=AS:1/2"} {
			if r.Intn(3) > 0 {
				s += l + "\r\n"
			}
		}
	} else {
		s += "t=0 0\r\n"
	}
	return s
}

// rtp makes one interleaved RTP block.
func (t *rtpTrack) rtp(c *C, ch int, payload []byte, marker bool) []byte {
	r := c.R
	b0 := byte(0x80)
	var hdr []byte
	if r.Intn(6) == 0 {
		n := 1 + r.Intn(15)
		b0 |= byte(n)
		hdr = append(hdr, genBytes(r, 4*n)...)
		c.Count("csrc", 1)
	}
	room := 65535 - 12 - len(hdr) - len(payload)
	if r.Intn(6) == 0 {
		n := r.Intn(5)
		if r.Intn(10) == 0 {
			n = 250 + r.Intn(800)
		}
		if 4+4*n <= room {
			room -= 4 + 4*n
			b0 |= 0x10
			hdr = append(hdr, byte(r.Intn(256)), byte(r.Intn(256)), byte(n>>8), byte(n))
			hdr = append(hdr, genBytes(r, 4*n)...)
			c.Count("extension", 1)
		}
	}
	var pad []byte
	if r.Intn(6) == 0 {
		n := 1 + r.Intn(255)
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(4)
		}
		if n <= room {
			b0 |= 0x20
			pad = genBytes(r, n)
			pad[n-1] = byte(n)
			c.Count("padding", 1)
		}
	}
	b1 := byte(t.pt)
	if marker {
		b1 |= 0x80
	}
	p := []byte{b0, b1, byte(t.seq >> 8), byte(t.seq)}
	t.seq++
	p = append(p, be32(t.ts)...)
	p = append(p, be32(t.ssrc)...)
	p = append(p, hdr...)
	p = append(p, payload...)
	p = append(p, pad...)
	return append([]byte{'$', byte(ch), byte(len(p) >> 8), byte(len(p))}, p...)
}

func spiced(r *rand.Rand, n int) []byte {
	b := genBytes(r, n)
	for k := r.Intn(4); k > 0 && n > 0; k-- {
		s := [][]byte{[]byte("$"), []byte("RTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n"), []byte("$\x00\x00\x20\x80\x60"), {0, 0, 0, 1}, {0, 0, 1}, []byte("\r\n\r\n"), []byte("R"), []byte("RTS")}[r.Intn(8)]
		copy(b[r.Intn(n):], s)
	}
	return b
}

func nalSize(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return 1400 + r.Intn(20)
	case 3:
		return 1 + r.Intn(30000)
	case 4:
		if r.Intn(6) == 0 {
			return 65400 + r.Intn(200)
		}
		if r.Intn(6) == 0 {
			return 100000 + r.Intn(200000)
		}
	}
	return 1 + r.Intn(400)
}

// unit produces one access unit's RTP blocks and the packets they carry.
func (t *rtpTrack) unit(c *C, ch int, small bool) (blocks [][]byte, want []av.Packet) {
	r := c.R
	if !t.h264 {
		n := 1 + r.Intn(500)
		switch r.Intn(8) {
		case 0:
			n = 8191
		case 1:
			n = 1
		}
		b := spiced(r, n)
		p := append([]byte{0, 16, byte(n >> 5), byte(n<<3) | byte(r.Intn(8)&0)}, b...)
		blocks = append(blocks, t.rtp(c, ch, p, true))
		t.blocks = [][]int{{0}}
		c.Count("aac", 1)
		t.started = true
		want = append(want, av.Packet{Type: av.AAC, Time: t.time(), Data: b})
		return
	}
	// the NAL units of one access unit
	var nals [][]byte
	t.blocks = nil
	carried := func(nal []byte, from, to int) {
		if k := nal[0] & 31; k >= 1 && k <= 5 {
			var l []int
			for ; from < to; from++ {
				l = append(l, from)
			}
			t.blocks = append(t.blocks, l)
		}
	}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		if r.Intn(3) == 0 && !(small && i == 0) { // other units
			switch r.Intn(5) {
			case 0:
				nals = append(nals, []byte{9, 0xf0})
			case 1:
				nals = append(nals, append([]byte{6}, spiced(r, 1+r.Intn(300))...))
			case 2:
				nals = append(nals, []byte{[]byte{10, 11}[r.Intn(2)]})
			case 3:
				nals = append(nals, append([]byte{byte(12 + r.Intn(12))}, spiced(r, 1+r.Intn(30))...))
			case 4:
				nals = append(nals, t.sps...)
				nals = append(nals, t.pps...)
			}
			continue
		}
		sz := nalSize(r)
		if small {
			sz = 1 + r.Intn(200)
		}
		b := spiced(r, sz)
		b[0] = byte(1+r.Intn(5)) | byte(r.Intn(4))<<5
		nals = append(nals, b)
		if !t.started {
			t.started = true
		}
		avcc := append(be32(uint32(len(b))), b...)
		want = append(want, av.Packet{Type: av.H264, IsKeyFrame: b[0]&31 == 5, Time: t.time(), Data: avcc})
	}
	for len(nals) > 0 {
		n := len(nals[0])
		k := r.Intn(3)
		if n < 2 && k == 2 {
			k = 0
		}
		if n > 65000 {
			k = 2
		}
		if r.Intn(8) == 0 {
			// some cameras send start codes in the packets
			var l [][]byte
			var p []byte
			for len(l) < len(nals) && len(l) < 1+r.Intn(3) && len(p)+4+len(nals[len(l)]) < 65000 {
				nal := nals[len(l)]
				if bytes.Contains(nal, []byte{0, 0, 1}) || nal[len(nal)-1] == 0 {
					break
				}
				if len(l) == 0 || r.Intn(2) == 0 {
					p = append(p, 0)
				}
				p = append(append(p, 0, 0, 1), nal...)
				l = append(l, nal)
			}
			_, avcc := oIsAVCC(p)
			if len(l) > 0 && !avcc {
				for _, nal := range l {
					carried(nal, len(blocks), len(blocks)+1)
				}
				nals = nals[len(l):]
				blocks = append(blocks, t.rtp(c, ch, p, len(nals) == 0))
				c.Count("start codes in packets", 1)
				continue
			}
		}
		last := len(nals) == 1
		switch k {
		case 0:
			carried(nals[0], len(blocks), len(blocks)+1)
			blocks = append(blocks, t.rtp(c, ch, nals[0], last))
			c.Count("single", 1)
			nals = nals[1:]
		case 1: // STAP-A
			p := []byte{24 | byte(r.Intn(4))<<5}
			m := 0
			for len(nals) > 0 && (m == 0 || r.Intn(4) > 0) && len(p)+2+len(nals[0]) <= 65200 {
				p = append(p, byte(len(nals[0])>>8), byte(len(nals[0])))
				p = append(p, nals[0]...)
				carried(nals[0], len(blocks), len(blocks)+1)
				nals = nals[1:]
				m++
			}
			blocks = append(blocks, t.rtp(c, ch, p, len(nals) == 0))
			c.Count("stap", 1)
		case 2: // FU-A
			nal := nals[0]
			nals = nals[1:]
			rest := nal[1:]
			max := 1 + r.Intn(1500)
			if len(rest) > 20000 {
				max = 1400 + r.Intn(63000)
			}
			first := true
			from := len(blocks)
			for len(rest) > 0 {
				m := max
				if first && m >= len(rest) && len(rest) > 1 {
					m = 1 + r.Intn(len(rest)-1)
				}
				if m > len(rest) {
					m = len(rest)
				}
				h := nal[0] & 31
				if first {
					h |= 0x80
				}
				if m == len(rest) && (!first || true) {
					h |= 0x40
				}
				p := append([]byte{nal[0]&0xe0 | 28, h}, rest[:m]...)
				rest = rest[m:]
				first = false
				blocks = append(blocks, t.rtp(c, ch, p, last && len(rest) == 0))
			}
			carried(nal, from, len(blocks))
			c.Count("fu-a", 1)
		}
	}
	return
}

// malformed makes an interleaved RTP block that carries nothing readable.
// malformed also returns the whole units in front of the damage.
func (t *rtpTrack) malformed(c *C, ch int) (block []byte, whole []av.Packet) {
	r := c.R
	b := append([]byte{0x80, byte(t.pt), byte(t.seq >> 8), byte(t.seq)}, be32(t.ts)...)
	b = append(b, be32(t.ssrc)...)
	t.seq++
	switch r.Intn(7) {
	case 6: // aggregated units beyond the end
		if t.h264 {
			b = append(b, 24)
			for k := r.Intn(3); k >= 0; k-- {
				n := 1 + r.Intn(40)
				u := genBytes(r, n)
				u[0] = byte(1+r.Intn(5)) | 0x60
				b = append(append(b, 0, byte(n)), u...)
				if k > 0 {
					whole = append(whole, av.Packet{Type: av.H264, IsKeyFrame: u[0]&31 == 5, Time: t.time(), Data: append(be32(uint32(n)), u...)})
				} else {
					b = b[:len(b)-1-r.Intn(n)]
				}
			}
			if len(whole) > 0 {
				t.started = true
			}
		}
	case 0: // no room for the fixed header
		b = b[:8+r.Intn(4)]
	case 1: // contributing sources beyond the end
		b[0] |= byte(2 + r.Intn(14))
		b = append(b, genBytes(r, r.Intn(8))...)
	case 2: // extension beyond the end
		b[0] |= 0x10
		if n := r.Intn(8); n < 4 {
			b = append(b, genBytes(r, n)...)
		} else {
			b = append(append(b, 0xbe, 0xde, byte(r.Intn(256)), byte(2+r.Intn(200))), genBytes(r, n)...)
		}
	case 3: // more padding than there is, or none
		b[0] |= 0x20
		n := r.Intn(20)
		b = append(b, genBytes(r, n)...)
		if n > 0 {
			b[len(b)-1] = []byte{0, byte(n + 1 + r.Intn(200))}[r.Intn(2)]
		}
	case 4: // cut payload
		if t.h264 {
			if r.Intn(2) == 0 {
				b = append(b, 28)
			}
		} else {
			b = append(b, genBytes(r, r.Intn(4))...)
		}
	case 5: // unknown unit type
		if t.h264 {
			b = append(append(b, []byte{0, 29, 30, 31, 0x60, 0x7f}[r.Intn(6)]), 1, 2, 3, 4)
			b = append(b, genBytes(r, r.Intn(50))...)
		}
	}
	return append([]byte{'$', byte(ch), byte(len(b) >> 8), byte(len(b))}, b...), whole
}

// empty is a packet without payload: what keeps an idle connection open.
func (t *rtpTrack) empty(c *C, ch int) []byte {
	b := t.rtp(c, ch, nil, c.R.Intn(2) == 0)
	c.Count("empty packets", 1)
	return b
}

// otherPayload is a packet of another payload type from another source.
func (t *rtpTrack) otherPayload(c *C, ch int) []byte {
	r := c.R
	pt := r.Intn(128)
	if pt == t.pt {
		pt = (pt + 1) & 127
	}
	b := append([]byte{0x80, byte(pt | r.Intn(2)<<7), byte(r.Intn(256)), byte(r.Intn(256))}, be32(r.Uint32())...)
	b = append(append(b, be32(r.Uint32())...), spiced(r, r.Intn(200))...)
	for k := r.Intn(4); k > 0; k-- { // what could be taken for the start of a block
		copy(b[12+r.Intn(len(b)-11):], []byte{'$', byte(r.Intn(4)), byte(r.Intn(256)), byte(r.Intn(256)), 0x80, byte(t.pt), 0, 0})
	}
	return append([]byte{'$', byte(ch), byte(len(b) >> 8), byte(len(b))}, b...)
}

func rtcpBlock(r *rand.Rand, ch int) []byte {
	var p []byte
	switch r.Intn(6) {
	case 0: // SR
		p = append([]byte{0x80, 200, 0, 6}, genBytes(r, 24)...)
	case 1: // RR
		p = append([]byte{0x80, 201, 0, 1}, genBytes(r, 4)...)
	case 2: // BYE without source
		p = []byte{0x80, 203, 0, 0}
	case 3: // SR + SDES
		p = append([]byte{0x80, 200, 0, 6}, genBytes(r, 24)...)
		p = append(p, 0x81, 202, 0, 3)
		p = append(p, genBytes(r, 12)...)
	case 4:
		p = append([]byte{0x80, 204, 0, 100}, spiced(r, 400)...)
	case 5:
		p = []byte{0x80, 201, 0, 1, '$', 0, 0, 8}
	}
	return append([]byte{'$', byte(ch), byte(len(p) >> 8), byte(len(p))}, p...)
}

// rtspPlay runs the server side of a whole session up to the answer to PLAY.
// Every request is checked by check.
func (s *rtspServer) negotiate(r *rand.Rand, sdp string, nsetup int, early []byte, check func(q rtspReq) error) (playCSeq string, err error) {
	setups := 0
	session := "1234567890"
	for {
		var q rtspReq
		if q, err = s.next(); err != nil {
			return
		}
		if err = check(q); err != nil {
			return
		}
		var out []byte
		switch q.method {
		case "OPTIONS":
			out = rtspResp(r, 200, q.hdr["cseq"], []string{"Public: OPTIONS, DESCRIBE, SETUP, PLAY, TEARDOWN"}, "")
		case "DESCRIBE":
			out = rtspResp(r, 200, q.hdr["cseq"], []string{"Content-Type: application/sdp", "Content-Base: " + s.url + "/"}, sdp)
		case "SETUP":
			setups++
			ss := session
			if r.Intn(2) == 0 {
				ss += ";timeout=60"
			}
			out = rtspResp(r, 200, q.hdr["cseq"], []string{"Session: " + ss, "Transport: " + q.hdr["transport"] + ";ssrc=12345678;mode=\"PLAY\""}, "")
		case "PLAY":
			if setups != nsetup {
				return "", fmt.Errorf("PLAY after %d SETUPs of %d", setups, nsetup)
			}
			out = append(append([]byte(nil), early...), rtspResp(r, 200, q.hdr["cseq"], []string{"Session: " + session, "Range: npt=0.000-", "RTP-Info: url=" + s.url + "/track1;seq=1;rtptime=1"}, "")...)
			return q.hdr["cseq"], writePieces(r, s.nc, out)
		default:
			return "", fmt.Errorf("method %s", q.method)
		}
		if err = writePieces(r, s.nc, out); err != nil {
			return
		}
	}
}

// within runs f and reports when it does not return.
func (c *C) within(d time.Duration, what string, f func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		c.Guard(f)
	}()
	select {
	case <-done:
	case <-time.After(d):
		c.Failf("%s has not returned after %v", what, d)
	}
	if atomic.LoadInt32(&c.fails) > 0 {
		panic(failSentinel{})
	}
}

const rtspWait = 40 * time.Second

// ---------------------------------------------------------------- C20

func runC20(x *Ctx) {
	x.Each("sessions", x.N(2500, 60000), rtspSession)
}

func rtspSession(c *C) {
	{
		r := c.R
		var tracks []*rtpTrack
		for i, n := 0, []int{1, 1, 2, 2, 3, 5}[r.Intn(6)]; i < n; i++ {
			tracks = append(tracks, genTrack(c, r.Intn(3) > 0))
		}
		if len(tracks) > 1 {
			c.Count("tracks 2+", 1)
		}
		long := r.Intn(10) == 0
		change := !long && r.Intn(6) == 0
		lossy := !change && !long && r.Intn(5) == 0
		skip := r.Intn(4) == 0 // malformed packets among the others
		sdp := sdpHead(r, false)
		for i, t := range tracks {
			t.control = fmt.Sprintf("track%d", i+1)
			sdp += t.sdpSection(r, c, false)
		}
		nUnits := 5 + r.Intn(40)
		if long {
			nUnits = 30 * len(tracks)
		}
		var want []av.Packet
		optional := map[int]bool{} // may be passed over with the malformed packet that has them
		var stream []byte
		type changed struct {
			at  int // packets before
			trk int
			sps [][]byte
			pps [][]byte
		}
		var changes []changed
		responses := 0
		cseqOf := func() string { return strconv.Itoa(3 + r.Intn(3)) }
		for u := 0; u < nUnits; u++ {
			ti := r.Intn(len(tracks))
			t := tracks[ti]
			if u > 0 || r.Intn(2) == 0 {
				t.advance(r, long)
			}
			if change && t.h264 && t.started && r.Intn(8) == 0 {
				// new parameter sets with the old ids
				old, oldp := t.sps, t.pps
				_, s, _ := genSPS(c, 0)
				p := genPPS(c, 0, 0)
				if bytes.Equal(s, old[0]) || len(s) > 60000 {
					continue
				}
				sets := [][]byte{s, p}
				switch kind := r.Intn(4); {
				case kind == 0: // the SPS alone, with or without the old PPS
					p = oldp[0]
					sets = [][]byte{s, p}[:1+r.Intn(2)]
					c.Count("sps changes", 1)
				case kind == 1 && !bytes.Equal(p, oldp[0]):
					s = old[0]
					sets = [][]byte{s, p}[r.Intn(2):]
					c.Count("pps changes", 1)
				}
				t.sps, t.pps = append([][]byte{s}, old[1:]...), append([][]byte{p}, oldp[1:]...)
				key := append([]byte{0x65}, genBytes(r, 50)...)
				all := append(sets[:len(sets):len(sets)], key)
				for len(all) > 0 { // in any number of packets
					n := 1 + r.Intn(len(all))
					nal := all[0]
					if n > 1 {
						nal = []byte{24}
						for _, u := range all[:n] {
							nal = append(nal, byte(len(u)>>8), byte(len(u)))
							nal = append(nal, u...)
						}
					}
					all = all[n:]
					stream = append(stream, t.rtp(c, ti*2, nal, len(all) == 0)...)
				}
				changes = append(changes, changed{at: len(want), trk: ti, sps: t.sps, pps: t.pps})
				want = append(want, av.Packet{Type: av.H264, IsKeyFrame: true, Time: t.time(), Data: append(be32(uint32(len(key))), key...)})
				change = r.Intn(2) == 0
				c.Count("parameter changes", 1)
			}
			known := t.started
			if skip && r.Intn(3) == 0 {
				b, w := t.malformed(c, ti*2)
				stream = append(stream, b...)
				for _, p := range w {
					optional[len(want)] = true
					want = append(want, p)
				}
				c.Count("malformed skipped", 1)
			}
			if r.Intn(12) == 0 {
				stream = append(stream, t.empty(c, ti*2)...)
			}
			if r.Intn(12) == 0 {
				stream = append(stream, t.otherPayload(c, ti*2)...)
				c.Count("other payload types", 1)
			}
			blocks, w := t.unit(c, ti*2, long)
			gone := map[int]bool{}
			if lossy && known {
				for i := range blocks {
					if r.Intn(8) == 0 {
						gone[i] = true
						c.Count("lost", 1)
					}
				}
			}
			for i := range w {
				whole := true
				for _, b := range t.blocks[i] {
					whole = whole && !gone[b]
				}
				if whole {
					want = append(want, w[i])
				} else if len(t.blocks[i]) > 1 {
					c.Count("holes", 1)
				}
			}
			for i, b := range blocks {
				if gone[i] {
					continue
				}
				stream = append(stream, b...)
				if r.Intn(6) == 0 {
					stream = append(stream, rtcpBlock(r, 2*r.Intn(len(tracks))+1)...)
					c.Count("rtcp", 1)
				}
				if r.Intn(10) == 0 {
					body := ""
					if r.Intn(4) == 0 {
						body = string(spiced(r, 1+r.Intn(300)))
					}
					stream = append(stream, rtspResp(r, []int{200, 200, 404, 551}[r.Intn(4)], "x"+cseqOf(), []string{"Public: OPTIONS"}, body)...)
					responses++
				}
			}
		}
		for _, t := range tracks {
			if t.wrapped {
				c.Count("rtp wraps", 1)
			}
			if t.ticks > 1<<32 {
				c.Count("long runs", 1)
			}
		}
		c.Desc("%d tracks, %d packets, %d bytes, changes %d, sdp %q", len(tracks), len(want), len(stream), len(changes), sdp)
		srv, err := newRTSPServer()
		if err != nil {
			c.X.Note("listen: %v", err)
			return
		}
		srv.url = "rtsp://" + srv.host() + "/a/b"
		defer srv.reset()
		early := 0
		if r.Intn(4) == 0 && len(stream) > 0 {
			early = blockEnd(stream, r.Intn(4))
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard(func() {
				if err := srv.accept(); err != nil {
					c.Failf("accept: %v", err)
				}
				_, err := srv.negotiate(r2(c), sdp, len(tracks), stream[:early], func(q rtspReq) error { return nil })
				if err != nil {
					c.Failf("server: %v", err)
				}
				writePieces(r2(c), srv.nc, stream[early:])
				srv.nc.(*net.TCPConn).CloseWrite()
			})
		}()
		var got []av.Packet
		c.within(rtspWait, "RTSP session", func() {
			cl, err := rtsp.Dial(srv.url)
			if err != nil {
				c.Failf("dial: %v", err)
			}
			defer func() { cl.Close() }()
			cl.SkipErrRtpBlock = skip
			for ci := 0; ; {
				p, err := cl.ReadPacket()
				if err == rtsp.ErrCodecChange {
					for optional[len(got)] && ci < len(changes) && len(got) < changes[ci].at {
						got = append(got, want[len(got)])
					}
					if ci >= len(changes) || changes[ci].at != len(got) {
						c.Failf("codec change after %d packets; want %v", len(got), changes)
					}
					if cl, err = cl.HandleCodecChange(); err != nil {
						c.Failf("HandleCodecChange: %v", err)
					}
					ss, err := cl.Streams()
					if err != nil {
						c.Failf("Streams: %v", err)
					}
					cd := ss[changes[ci].trk].(*h264.Codec)
					if !bytes.Equal(cd.SPS[0], changes[ci].sps[0]) || !bytes.Equal(cd.PPS[0], changes[ci].pps[0]) {
						c.Failf("parameter sets not updated: %x %x, want %x %x", cd.SPS, cd.PPS, changes[ci].sps, changes[ci].pps)
					}
					ci++
					continue
				}
				if err != nil {
					if err != io.EOF {
						c.Failf("after %d of %d packets: %v", len(got), len(want), err)
					}
					if ci != len(changes) {
						c.Failf("%d codec changes reported of %d", ci, len(changes))
					}
					return
				}
				for optional[len(got)] && pktDiff(p, want[len(got)]) != "" {
					got = append(got, want[len(got)])
				}
				got = append(got, p)
				if len(got) > len(want) {
					c.Failf("extra packet %s", pktStr(p))
				}
				if d := pktDiff(p, want[len(got)-1]); d != "" {
					c.Failf("packet %d of %d: %s", len(got)-1, len(want), d)
				}
			}
		})
		wg.Wait()
		for optional[len(got)] {
			got = append(got, want[len(got)])
		}
		for i := range got {
			if d := pktDiff(got[i], want[i]); d != "" {
				c.Failf("packet %d of %d changed after it was returned: %s", i, len(want), d)
			}
		}
		if len(got) < len(want) {
			c.Failf("only %d of %d packets; missing first %s", len(got), len(want), pktStr(want[len(got)]))
		}
		c.Count("frames", len(got))
		c.Count("responses interleaved", responses)
		c.State("session", len(tracks), long, change, early > 0, len(changes))
		if nUnits >= 5 {
			c.Nontrivial(string(stream))
		}
		c.Sample("%d tracks, %d packets in %d bytes, %d parameter changes, %d responses in between", len(tracks), len(want), len(stream), len(changes), responses)
	}
}

// r2 is a second generator for a concurrent goroutine of the case.
func r2(c *C) *rand.Rand { return c.X.caseRand(c.Group+"/peer", c.Idx) }

// blockEnd is the end of the first n interleaved blocks or the first response.
func blockEnd(b []byte, n int) (e int) {
	for i := 0; i < n && e+4 <= len(b) && b[e] == '$'; i++ {
		e += 4 + int(binary.BigEndian.Uint16(b[e+2:]))
	}
	return
}

// ---------------------------------------------------------------- C21

// rtspParams parses an authorization or challenge parameter list.
func rtspParams(s string) (m map[string]string, err error) {
	m = map[string]string{}
	for {
		s = strings.TrimLeft(s, " ")
		i := strings.IndexByte(s, '=')
		if i < 0 {
			return m, fmt.Errorf("no '=' in %q", s)
		}
		k := s[:i]
		s = s[i+1:]
		var v []byte
		if strings.HasPrefix(s, `"`) {
			s = s[1:]
			for {
				if s == "" {
					return m, fmt.Errorf("unterminated string")
				}
				ch := s[0]
				s = s[1:]
				if ch == '"' {
					break
				}
				if ch == '\\' && s != "" {
					ch = s[0]
					s = s[1:]
				}
				v = append(v, ch)
			}
		} else {
			for s != "" && s[0] != ',' && s[0] != ' ' {
				v = append(v, s[0])
				s = s[1:]
			}
		}
		if _, dup := m[k]; dup {
			return m, fmt.Errorf("%s twice", k)
		}
		m[k] = string(v)
		s = strings.TrimLeft(s, " ")
		if s == "" {
			return m, nil
		}
		if s[0] != ',' {
			return m, fmt.Errorf("%q after %s", s, k)
		}
		s = s[1:]
	}
}

func hexMD5(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

func quoted(s string) string {
	return `"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`
}

type rtspAuth struct {
	kind                 string // "", basic, digest
	user, pass           string
	realm, nonce, opaque string
}

func (a *rtspAuth) challenge(r *rand.Rand) string {
	if a.kind == "basic" {
		return "WWW-Authenticate: Basic realm=" + quoted(a.realm)
	}
	ps := []string{"realm=" + quoted(a.realm), "nonce=" + quoted(a.nonce)}
	if a.opaque != "" {
		ps = append(ps, "opaque="+quoted(a.opaque))
	}
	if r.Intn(3) == 0 {
		ps = append(ps, "stale="+[]string{"FALSE", `"FALSE"`}[r.Intn(2)])
	}
	if r.Intn(3) == 0 {
		ps = append(ps, "algorithm="+[]string{"MD5", `"MD5"`}[r.Intn(2)])
	}
	if r.Intn(4) == 0 {
		ps = append(ps, `domain="rtsp://x/a=b, rtsp://y"`)
	}
	if r.Intn(6) == 0 { // names are not case-sensitive
		for i := range ps {
			k, v, _ := strings.Cut(ps[i], "=")
			ps[i] = []string{strings.ToUpper(k), strings.ToUpper(k[:1]) + k[1:]}[r.Intn(2)] + "=" + v
		}
	}
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	return "WWW-Authenticate: Digest " + strings.Join(ps, []string{",", ", "}[r.Intn(2)])
}

// check tells whether the request carries the right answer; absent reports
// that it carries none.
func (a *rtspAuth) check(q rtspReq) (absent bool, err error) {
	h, ok := q.hdr["authorization"]
	if !ok {
		return true, fmt.Errorf("no authorization")
	}
	scheme, rest, _ := strings.Cut(h, " ")
	if a.kind == "basic" {
		if scheme != "Basic" {
			return false, fmt.Errorf("scheme %q", scheme)
		}
		d, err := base64.StdEncoding.DecodeString(rest)
		if err != nil || string(d) != a.user+":"+a.pass {
			return false, fmt.Errorf("credentials %q (%v), want %q", d, err, a.user+":"+a.pass)
		}
		return false, nil
	}
	if scheme != "Digest" {
		return false, fmt.Errorf("scheme %q", scheme)
	}
	m, err := rtspParams(rest)
	if err != nil {
		return false, fmt.Errorf("authorization %q: %v", rest, err)
	}
	want := map[string]string{"username": a.user, "realm": a.realm, "nonce": a.nonce, "uri": q.uri,
		"response": hexMD5(hexMD5(a.user+":"+a.realm+":"+a.pass) + ":" + a.nonce + ":" + hexMD5(q.method+":"+q.uri))}
	if a.opaque != "" {
		want["opaque"] = a.opaque
	}
	for k, v := range want {
		if m[k] != v {
			return false, fmt.Errorf("%s %s: %s=%q, want %q (%s)", q.method, q.uri, k, m[k], v, rest)
		}
	}
	return false, nil
}

func credential(r *rand.Rand, pass bool) string {
	s := []string{"admin", "user", "a b", "ü", `quo"te`, `back\slash`, "a,b=c", "per%cent", "at@sign", "sl/ash", "q?m#h", "x;y&z", "12345", genAscii2(r, 1+r.Intn(40))}[r.Intn(14)]
	if pass && r.Intn(5) == 0 {
		s = "co:lon:" + s
	}
	if pass && r.Intn(8) == 0 {
		s = ""
	}
	return s
}

func runC21(x *Ctx) {
	run := func(c *C, refuse bool) {
		r := c.R
		var tracks []*rtpTrack
		var sections []string
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			tracks = append(tracks, genTrack(c, r.Intn(2) == 0))
		}
		// URL
		srv, err := newRTSPServer()
		if err != nil {
			c.X.Note("listen: %v", err)
			return
		}
		defer srv.reset()
		path := []string{"", "/", "/live", "/live/", "/a/b/c", "/cam?channel=1&subtype=0", "/a%20b/c%2Fd", "/live.sdp", "/Streaming/Channels/101?x=y/z"}[r.Intn(9)]
		base := "rtsp://" + srv.host() + path
		srv.url = base
		auth := &rtspAuth{kind: []string{"", "basic", "digest", "digest"}[r.Intn(4)], user: credential(r, false), pass: credential(r, true)}
		auth.realm = []string{"LIVE555 Streaming Media", "a", "x, y", "a=b", `say "hi"`, `dom\ain`, "IP Camera(12345)", "é"}[r.Intn(8)]
		auth.nonce = []string{"c633aaf8b83127633cbe98fac1d20d87", "YWJj==", "a,b", "0", `q"q`, genAscii2(r, 1+r.Intn(60))}[r.Intn(6)]
		if r.Intn(3) == 0 {
			auth.opaque = []string{"5ccc069c403ebaf9f0171e9517f40e41", "a=,b", ""}[r.Intn(3)]
		}
		if auth.kind == "basic" {
			auth.user = strings.ReplaceAll(auth.user, ":", "")
		}
		// expected SETUP URIs
		var uris []string
		for i, t := range tracks {
			switch r.Intn(7) {
			case 0:
				t.control = fmt.Sprintf("rtsp://%s/other/track%d", srv.host(), i)
				uris = append(uris, t.control)
				c.Count("absolute controls", 1)
			case 1:
				t.control = ""
				if r.Intn(2) == 0 {
					t.control = "*"
				}
				uris = append(uris, base)
				c.Count("no control", 1)
			default:
				t.control = []string{"track", "trackID=", "streamid/", "a/b/2?x=", "stream=", "1/"}[r.Intn(6)] + strconv.Itoa(i)
				uris = append(uris, strings.TrimSuffix(base, "/")+"/"+t.control)
			}
			sections = append(sections, t.sdpSection(r, c, true))
		}
		// other sections, anywhere
		for r.Intn(2) == 0 {
			at := r.Intn(len(sections) + 1)
			s := []string{
				"m=application 0 RTP/AVP 107\r\na=rtpmap:107 vnd.onvif.metadata/90001\r\na=control:meta\r\na=fmtp:107 config=ff;x=1\r\n",
				"m=audio 0 RTP/AVP 0\r\na=rtpmap:0 PCMU/8001\r\na=control:pcmu\r\n",
				"m=audio 0 RTP/AVP 8\r\na=control:pcma\r\n",
				"m=video 0 RTP/AVP 26\r\na=control:jpeg\r\na=framerate:1/2\r\n",
				"m=text 0 RTP/AVP 98\r\na=rtpmap:98 H264/77\r\n",
			}[r.Intn(5)]
			sections = append(sections[:at:at], append([]string{s}, sections[at:]...)...)
			c.Count("skipped sections", 1)
		}
		sdp := sdpHead(r, true) + strings.Join(sections, "")
		if r.Intn(4) == 0 {
			sdp = strings.ReplaceAll(sdp, "\r\n", "\n")
		}
		if r.Intn(6) == 0 {
			sdp = strings.TrimRight(sdp, "\r\n")
		}
		// credentials of the client
		u := mustURL(base)
		wrong := refuse && r.Intn(3) == 0 && auth.kind != ""
		nocred := wrong && r.Intn(2) == 0
		if auth.kind != "" && !nocred {
			p := auth.pass
			if wrong {
				p += "x"
			}
			u.User = url.UserPassword(auth.user, p)
		} else if auth.kind == "" && r.Intn(4) == 0 {
			u.User = url.UserPassword(auth.user, auth.pass)
		}
		us := u.String()
		refuseAt, refuseCode, refuseBody := "", 0, ""
		if refuse && !wrong {
			refuseAt = []string{"DESCRIBE", "SETUP", "PLAY"}[r.Intn(3)]
			refuseCode = []int{404, 403, 454, 461, 500, 503}[r.Intn(6)]
			if r.Intn(2) == 0 {
				refuseBody = "<html>no</html>"
				if r.Intn(2) == 0 {
					refuseBody = sdp
				}
			}
		}
		setupChallenge := auth.kind == "digest" && !refuse && r.Intn(3) == 0
		playChallenge := auth.kind == "digest" && !refuse && r.Intn(4) == 0
		lateAuth := auth.kind != "" && !refuse && r.Intn(4) == 0 // nothing asked before SETUP
		// the sections the application asks for
		var idx []int
		for i := range tracks {
			idx = append(idx, i)
		}
		subset := r.Intn(5) == 0
		if subset {
			r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
			idx = idx[:1+r.Intn(len(idx))]
			if !refuse {
				c.Count("chosen sections", 1)
			}
		}
		refuseSetup := r.Intn(len(idx))
		session := []string{"1", "12345678", "abcDEF.-_+$9", genAscii2(r, 30)}[r.Intn(4)]
		describeSession := r.Intn(6) == 0
		callOptions := r.Intn(4) == 0
		extra := r.Intn(3) == 0
		keepalive := !refuse && r.Intn(8) == 0
		c.Desc("%s path %q auth %+v wrong=%v nocred=%v refuse %s %d; setup challenge %v late %v\n%s", us, path, *auth, wrong, nocred, refuseAt, refuseCode, setupChallenge, lateAuth, sdp)
		// probes to check payload type and clock rate
		var media []byte
		var want []av.Packet
		for round := 0; round < 3; round++ {
			for _, i := range idx {
				t := tracks[i]
				if round > 0 {
					t.advance(r, false)
				}
				bs, w := t.unit(c, 2*i, true)
				want = append(want, w...)
				media = append(media, bytes.Join(bs, nil)...)
			}
		}
		lastCSeq := 0
		var reqs []rtspReq
		probesRead := make(chan bool)
		var wg sync.WaitGroup
		wg.Add(1)
		authorized := false
		go func() {
			defer wg.Done()
			c.Guard(func() {
				r := r2(c)
				if err := srv.accept(); err != nil {
					c.Failf("accept: %v", err)
				}
				setups := 0
				gaveSession := false
				fresh := map[string]bool{}
				send := func(code int, cseq string, hdr []string, body string) {
					writePieces(r, srv.nc, rtspResp(r, code, cseq, hdr, body))
				}
				for {
					q, err := srv.next()
					if err != nil {
						if err == io.EOF || strings.Contains(err.Error(), "reset") || strings.Contains(err.Error(), "closed") {
							return
						}
						c.Failf("server reading: %v", err)
					}
					reqs = append(reqs, q)
					n, err := strconv.Atoi(q.hdr["cseq"])
					if err != nil || n <= lastCSeq {
						c.Failf("CSeq %q after %d", q.hdr["cseq"], lastCSeq)
					}
					lastCSeq = n
					cs := q.hdr["cseq"]
					if extra && q.hdr["x-extra"] != "yes" {
						c.Failf("%s without the extra header", q.method)
					}
					if auth.kind != "" && q.method != "OPTIONS" && !(lateAuth && q.method == "DESCRIBE") {
						if setupChallenge && q.method == "SETUP" && setups == 0 && !fresh["s"] {
							fresh["s"] = true
							auth.nonce = "new " + auth.nonce
							c.Count("setup challenges", 1)
						}
						if playChallenge && q.method == "PLAY" && !fresh["p"] { // the nonce has expired
							fresh["p"] = true
							auth.nonce = "newer " + auth.nonce
							c.Count("play challenges", 1)
						}
						absent, err := auth.check(q)
						if err != nil {
							if !wrong && authorized && !setupChallenge && !fresh["p"] {
								c.Failf("after authorization: %v", err)
							}
							k := q.method + strconv.Itoa(setups)
							if !wrong && fresh[k] {
								c.Failf("second answer to a challenge: %v", err)
							}
							if !absent && !wrong && !setupChallenge && !fresh["p"] {
								c.Failf("unasked or wrong answer: %v", err)
							}
							fresh[k] = true
							h := []string{auth.challenge(r)}
							if q.method == "DESCRIBE" && r.Intn(4) == 0 {
								h = append(h, "Session: "+session)
								gaveSession = true
							}
							send(401, cs, h, []string{"", "denied"}[r.Intn(2)])
							continue
						}
						if wrong {
							c.Failf("wrong credentials gave a right answer")
						}
						authorized = true
					}
					if q.method == refuseAt && !(refuseAt == "SETUP" && setups != refuseSetup) {
						send(refuseCode, cs, nil, refuseBody)
						continue
					}
					switch q.method {
					case "OPTIONS":
						if q.uri != base {
							c.Failf("OPTIONS %s", q.uri)
						}
						if gaveSession != (q.hdr["session"] != "") || gaveSession && q.hdr["session"] != session {
							c.Failf("OPTIONS with session %q, given %v %q", q.hdr["session"], gaveSession, session)
						}
						send(200, cs, []string{"Public: OPTIONS, DESCRIBE, SETUP, PLAY"}, "")
					case "DESCRIBE":
						if q.uri != base {
							c.Failf("DESCRIBE %s, want %s", q.uri, base)
						}
						if !strings.Contains(q.hdr["accept"], "application/sdp") {
							c.Failf("Accept %q", q.hdr["accept"])
						}
						h := []string{"Content-Type: application/sdp"}
						if describeSession {
							h = append(h, "Session: "+session)
							gaveSession = true
						}
						send(200, cs, h, sdp)
					case "SETUP":
						if setups >= len(idx) {
							c.Failf("SETUP %s beyond the %d sections", q.uri, len(idx))
						}
						if q.uri != uris[idx[setups]] {
							c.Failf("SETUP %s, want %s", q.uri, uris[idx[setups]])
						}
						tr := strings.Split(q.hdr["transport"], ";")
						ch := ""
						for _, p := range tr {
							if v, ok := strings.CutPrefix(p, "interleaved="); ok {
								ch = v
							}
						}
						if tr[0] != "RTP/AVP/TCP" || ch != fmt.Sprintf("%d-%d", 2*idx[setups], 2*idx[setups]+1) {
							// any distinct pair would do; media is sent on these
							c.Failf("transport %q for section %d", q.hdr["transport"], setups)
						}
						if gaveSession != (q.hdr["session"] != "") || gaveSession && q.hdr["session"] != session {
							c.Failf("SETUP with session %q, given %v %q", q.hdr["session"], gaveSession, session)
						}
						setups++
						gaveSession = true
						ss := session
						if r.Intn(2) == 0 {
							ss += ";timeout=60"
						}
						send(200, cs, []string{"Session: " + ss, "Transport: " + q.hdr["transport"]}, "")
					case "PLAY":
						if q.uri != base || q.hdr["session"] != session || setups != len(idx) {
							c.Failf("PLAY %s session %q after %d SETUPs; want %s %q %d", q.uri, q.hdr["session"], setups, base, session, len(idx))
						}
						send(200, cs, []string{"Session: " + session}, "")
						writePieces(r, srv.nc, media)
						if !keepalive {
							<-probesRead
							srv.nc.(*net.TCPConn).CloseWrite()
						}
					case "TEARDOWN":
						if q.uri != base || q.hdr["session"] != session {
							c.Failf("TEARDOWN %s session %q", q.uri, q.hdr["session"])
						}
						return
					default:
						c.Failf("method %q", q.method)
					}
				}
			})
			srv.reset()
		}()
		var rerr error
		c.within(rtspWait, "RTSP session", func() {
			cl, err := rtsp.Dial(us)
			if err != nil {
				c.Failf("Dial(%q): %v", us, err)
			}
			defer cl.Close()
			if extra {
				cl.Headers = []string{"X-Extra: yes"}
			}
			if keepalive {
				cl.RtpKeepAliveTimeout = time.Nanosecond
			}
			if callOptions {
				if err := cl.Options(); err != nil {
					c.Failf("Options: %v", err)
				}
			}
			if r.Intn(2) == 0 {
				streams, err := cl.Streams()
				if err != nil {
					rerr = err
					return
				}
				if !refuse {
					if len(streams) != len(tracks) {
						c.Failf("%d streams of %d sections", len(streams), len(tracks))
					}
					for i, t := range tracks {
						t.checkCodec(c, i, streams[i])
					}
				}
			}
			if subset {
				if err := cl.Setup(idx); err != nil {
					rerr = err
					if refuse {
						return
					}
					c.Failf("Setup(%v): %v", idx, err)
				}
			}
			var got []av.Packet
			for len(got) < len(want) {
				p, err := cl.ReadPacket()
				if err != nil {
					rerr = err
					if refuse {
						return
					}
					c.Failf("after %d of %d probes: %v", len(got), len(want), err)
				}
				got = append(got, p)
			}
			for i := range got {
				if d := pktDiff(got[i], want[i]); d != "" {
					c.Failf("probe %d: %s", i, d)
				}
			}
			streams, _ := cl.Streams()
			for i, t := range tracks {
				t.checkCodec(c, i, streams[i])
			}
			if keepalive {
				cl.Teardown()
			}
			close(probesRead)
			if !keepalive {
				if _, err := cl.ReadPacket(); err != io.EOF {
					c.Failf("after the probes: %v", err)
				}
			}
		})
		wg.Wait()
		if refuse && rerr == nil {
			c.Failf("refused session reported no error")
		}
		c.Count("sessions", 1)
		switch {
		case wrong:
			c.Count("wrong credentials", 1)
		case refuse:
			c.Count("refused", 1)
		default:
			if auth.kind != "" {
				if !authorized {
					c.Failf("never authorized")
				}
				c.Count(auth.kind, 1)
			}
			if keepalive {
				n := 0
				for _, q := range reqs {
					if q.method == "OPTIONS" {
						n++
					}
				}
				// one packet only starts the timer
				if n == 0 && len(want) >= 6 {
					c.Failf("no keepalive was sent")
				}
				c.Count("keepalives", n)
			}
		}
		c.Nontrivial(us, sdp, auth.nonce, refuseAt, refuseCode)
		c.State("session", len(tracks), auth.kind, refuseAt, refuseCode, wrong, setupChallenge, lateAuth, keepalive, path)
		c.Sample("%s auth %s, %d sections, %d requests, error %v", us, auth.kind, len(tracks), len(reqs), rerr)
	}
	x.Each("sessions", x.N(3000, 60000), func(c *C) { run(c, false) })
	x.Serial("default port", 2, func(c *C) {
		host := []string{"127.0.0.1", "[::1]"}[c.Idx]
		l, err := net.Listen("tcp", host+":554")
		if err != nil {
			c.X.Note("no port 554 to listen on: %v", err)
			return
		}
		defer l.Close()
		got := make(chan string, 1)
		go func() {
			nc, err := l.Accept()
			if err != nil {
				got <- err.Error()
				return
			}
			defer nc.Close()
			b := make([]byte, 64)
			n, _ := io.ReadAtLeast(nc, b, len("DESCRIBE rtsp://x/y"))
			got <- string(b[:n])
		}()
		cl, err := rtsp.DialTimeout("rtsp://"+host+"/cam", 5*time.Second)
		if err != nil {
			c.Failf("Dial(%s) without a port: %v", host, err)
		}
		defer cl.Close()
		go cl.Describe()
		if s := <-got; !strings.HasPrefix(s, "DESCRIBE rtsp://"+host) {
			c.Failf("server on port 554 got %q", s)
		}
		c.Count("default port", 1)
		c.Nontrivial(host)
	})
	x.Each("refusals", x.N(1200, 20000), func(c *C) { run(c, true) })
}

func (t *rtpTrack) checkCodec(c *C, i int, s interface{}) {
	if !t.h264 {
		cd, ok := s.(*aac.Codec)
		if !ok {
			c.Failf("stream %d is %T", i, s)
		}
		want, err := aac.FromMPEG4AudioConfigBytes(t.asc)
		if err != nil {
			c.Failf("sample config: %v", err)
		}
		if cd.Config != want.Config {
			c.Failf("stream %d: config %+v, want %+v", i, cd.Config, want.Config)
		}
		return
	}
	cd, ok := s.(*h264.Codec)
	if !ok {
		c.Failf("stream %d is %T", i, s)
	}
	m := map[int][]byte{}
	for k, b := range t.sps {
		m[k] = b
	}
	if d := setEqual(cd.SPS, m); d != "" {
		c.Failf("stream %d SPS: %s", i, d)
	}
	m = map[int][]byte{}
	for k, b := range t.pps {
		m[k] = b
	}
	if d := setEqual(cd.PPS, m); d != "" {
		c.Failf("stream %d PPS: %s", i, d)
	}
}

// ---------------------------------------------------------------- C22

// hostileRTSP serves data whatever the client asks and ends as told.
func hostileRTSP(c *C, data []byte, end int, max int) {
	r := c.R
	srv, err := newRTSPServer()
	if err != nil {
		c.X.Note("listen: %v", err)
		return
	}
	defer srv.reset()
	us := "rtsp://u:p@" + srv.host() + "/a/b"
	timeout := time.Duration(0)
	if end == 3 {
		timeout = time.Duration(20+r.Intn(100)) * time.Millisecond
	}
	skip := r.Intn(2) == 0
	streamsFirst := r.Intn(3) == 0
	go func() {
		r := r2(c)
		if srv.accept() != nil {
			return
		}
		go io.Copy(io.Discard, srv.nc)
		writePieces(r, srv.nc, data)
		switch end {
		case 0, 1:
			srv.nc.(*net.TCPConn).CloseWrite()
		case 2:
			srv.nc.(*net.TCPConn).SetLinger(0)
			srv.nc.Close()
		case 3: // silence
			c.Count("silences", 1)
		}
	}()
	n := 0
	c.within(rtspWait, "client of a hostile server", func() {
		cl, err := rtsp.Dial(us)
		if err != nil {
			return
		}
		defer cl.Close()
		cl.RtspTimeout = timeout
		cl.SkipErrRtpBlock = skip
		if streamsFirst {
			if _, err := cl.Streams(); err != nil {
				return
			}
		}
		changes := 0
		for {
			_, err := cl.ReadPacket()
			if err == rtsp.ErrCodecChange && changes < 100000 {
				changes++
				cl, _ = cl.HandleCodecChange()
				continue
			}
			if err != nil {
				return
			}
			if n++; n > max {
				c.Failf("%d packets from %d bytes", n, len(data))
			}
		}
	})
	c.Count("packets from hostile", n)
}

// recordRTSP is everything a conforming server sends in a session.
func recordRTSP(c *C, units int, auth bool) (b []byte) {
	r := c.R
	var tracks []*rtpTrack
	sdp := sdpHead(r, true)
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		t := genTrack(c, r.Intn(3) > 0)
		t.control = fmt.Sprintf("track%d", i)
		tracks = append(tracks, t)
		sdp += t.sdpSection(r, c, true)
	}
	if auth {
		a := &rtspAuth{kind: []string{"basic", "digest"}[r.Intn(2)], realm: "r", nonce: "n"}
		b = append(b, rtspResp(r, 401, "1", []string{a.challenge(r)}, "")...)
	}
	b = append(b, rtspResp(r, 200, "1", []string{"Content-Type: application/sdp"}, sdp)...)
	for range tracks {
		b = append(b, rtspResp(r, 200, "2", []string{"Session: 1"}, "")...)
	}
	b = append(b, rtspResp(r, 200, "3", nil, "")...)
	for i := 0; i < units; i++ {
		k := r.Intn(len(tracks))
		tracks[k].advance(r, false)
		bs, _ := tracks[k].unit(c, 2*k, true)
		b = append(b, bytes.Join(bs, nil)...)
		if r.Intn(4) == 0 {
			b = append(b, rtcpBlock(r, 2*k+1)...)
		}
	}
	return
}

// offRTP is a block whose inner lengths fit or miss what there is by a little.
func offRTP(r *rand.Rand, ch, pt byte, i int) []byte {
	off := func(n int) int { // n, or a little beside it
		if r.Intn(3) > 0 {
			n += r.Intn(7) - 3
		}
		if n < 0 {
			n = 0
		}
		return n
	}
	be16 := func(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
	some := func() []byte {
		b := genBytes(r, r.Intn(12))
		if len(b) > 0 && r.Intn(2) == 0 {
			b[0] = []byte{0x41, 0x65, 0x67, 0x68, 24, 28, 6, 0}[r.Intn(8)]
		}
		if len(b) > 4 && r.Intn(4) == 0 {
			copy(b, []byte{0, 0, 0, 1}[r.Intn(2):])
		}
		return b
	}
	var p []byte
	switch r.Intn(6) {
	case 0: // single units and nothing
		p = some()
	case 1: // fragments
		p = append([]byte{0x1c, []byte{0x85, 0x45, 5, 0xc5}[r.Intn(4)]}, some()...)
		p = p[:len(p)-r.Intn(len(p)+1)%3]
	case 2, 3: // aggregates
		p = []byte{0x18}
		for k := 1 + r.Intn(3); k > 0; k-- {
			u := some()
			n := len(u)
			if k == 1 {
				n = off(n)
			}
			p = append(append(p, be16(n)...), u...)
		}
		if r.Intn(4) == 0 {
			p = append(p, genBytes(r, r.Intn(3))...)
		}
	case 4: // access units
		u := some()
		p = append(append(be16([]int{0, 15, 16, 17, 32}[r.Intn(5)]), be16(off(len(u))<<3)...), u...)
		p = p[:len(p)-r.Intn(len(p)+1)%6]
	case 5:
		p = append([]byte{0, 0, 0, 1}, some()...)
		p = append(append(p, []byte{0, 0, 1}...), some()...)
	}
	h := []byte{0x80, pt, byte(i >> 8), byte(i), 0, 0, byte(i), 0, 1, 2, 3, 4}
	if r.Intn(4) == 0 { // sources
		k := r.Intn(4)
		h[0] |= byte(k)
		h = append(h, genBytes(r, off(4*k))...)
	}
	if r.Intn(4) == 0 { // extension
		k := r.Intn(4)
		h[0] |= 0x10
		h = append(append(h, 0xbe, 0xde), be16(k)...)
		h = append(h, genBytes(r, off(4*k))...)
		if r.Intn(2) == 0 {
			p = nil
		}
	}
	h = append(h, p...)
	if r.Intn(4) == 0 { // padding
		h[0] |= 0x20
		k := []int{len(p), r.Intn(8)}[r.Intn(2)]
		h = append(h, genBytes(r, k)...)
		h = append(h, byte(off(k+1)))
	}
	if r.Intn(6) == 0 {
		h = h[:r.Intn(len(h)+1)]
	}
	return append([]byte{'$', ch, byte(len(h) >> 8), byte(len(h))}, h...)
}

func runC22(x *Ctx) {
	for base := 0; base < 2; base++ {
		tmp := &C{X: x, R: x.caseRand("trunc", base)}
		b := recordRTSP(tmp, 4, base == 1)
		step := 1
		if !x.Thorough {
			step = 2
		}
		x.Each(fmt.Sprintf("truncate %d", base), (len(b)+step)/step, func(c *C) {
			k := c.Idx * step
			if k > len(b) {
				k = len(b)
			}
			c.Desc("%d of %d bytes", k, len(b))
			hostileRTSP(c, b[:k], []int{0, 1, 2, 3}[c.R.Intn(4)], 1000)
			c.Count("truncations", 1)
			c.Nontrivial(base, k)
		})
	}
	x.Each("mutants", x.N(5000, 80000), func(c *C) {
		r := c.R
		b := mutate(r, recordRTSP(c, r.Intn(12), r.Intn(4) == 0))
		c.Desc("%d bytes %q", len(b), b)
		hostileRTSP(c, b, r.Intn(4), len(b)+10)
		c.Count("mutants", 1)
		c.Nontrivial(string(b))
	})
	x.Each("random", x.N(1500, 25000), func(c *C) {
		r := c.R
		b := recordRTSP(c, 0, r.Intn(4) == 0)
		switch r.Intn(4) {
		case 0:
			b = genBytes(r, r.Intn(4000))
		case 1:
			b = append(b, genBytes(r, r.Intn(4000))...)
		case 2: // random blocks on the right channels
			for i, n := 0, r.Intn(60); i < n; i++ {
				p := genBytes(r, r.Intn(60))
				if len(p) > 1 && r.Intn(3) > 0 {
					p[0] = 0x80 | byte(r.Intn(64))&byte(r.Intn(64))
					p[1] = byte(96 + r.Intn(32))
				}
				if len(p) > 12 && r.Intn(2) == 0 {
					p[12] = byte(r.Intn(32))
				}
				b = append(b, '$', byte(r.Intn(8)), 0, byte(len(p)))
				b = append(b, p...)
			}
		case 3:
			words := []string{"RTSP/1.0 ", "200 ", "401 ", "\r\n", "\n", "\r\n\r\n", "Content-Length: ", "7", "-1", "99999999999999999999", "CSeq: 1", "Session: ;", "WWW-Authenticate: ", "Digest ", "Basic ", `realm="`, `",`, `nonce=`, "=", "$", "v=0", "m=", "m=video", "m=audio 0", "a=", "a=rtpmap:", "a=fmtp:96 ", "config=", ";", "sprop-parameter-sets=", ",", "R", "RT", "RTS", "RTSP", "\x00", " "}
			b = b[:r.Intn(len(b)+1)]
			for i, n := 0, r.Intn(80); i < n; i++ {
				b = append(b, words[r.Intn(len(words))]...)
			}
		}
		c.Desc("%d bytes %q", len(b), b)
		hostileRTSP(c, b, r.Intn(4), len(b)+10)
		c.Count("random", 1)
		c.Nontrivial(string(b))
	})
	x.Each("off by some", x.N(800, 20000), func(c *C) {
		r := c.R
		sdp := sdpHead(r, false) + "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:v\r\nm=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/44100/2\r\na=fmtp:97 config=1210;sizelength=13;indexlength=3\r\na=control:a\r\n"
		b := rtspResp(r, 200, "1", []string{"Content-Type: application/sdp"}, sdp)
		for _, k := range []string{"2", "3", "4"} {
			b = append(b, rtspResp(r, 200, k, []string{"Session: 1"}, "")...)
		}
		n := 1 + r.Intn(40)
		for i := 0; i < n; i++ {
			ch := byte(2 * r.Intn(2))
			b = append(b, offRTP(r, ch, 96+ch/2, i)...)
			c.Count("near misses", 1)
		}
		c.Desc("%d blocks %x", n, b)
		hostileRTSP(c, b, r.Intn(4), len(b)+10)
		c.Nontrivial(string(b))
	})
	x.Serial("forged", x.N(200, 3000), func(c *C) {
		r := c.R
		t := genTrack(c, true)
		t.pt, t.control = 96, "t"
		sdp := sdpHead(r, false) + t.sdpSection(r, c, false)
		ok := rtspResp(r, 200, "1", []string{"Content-Type: application/sdp"}, sdp)
		ok = append(ok, rtspResp(r, 200, "2", []string{"Session: 1"}, "")...)
		ok = append(ok, rtspResp(r, 200, "3", nil, "")...)
		var b []byte
		kind := r.Intn(9)
		max := 1 << 30
		switch kind {
		case 0: // declared body
			b = []byte(fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: %s\r\n\r\nabc", []string{"9223372036854775807", "4294967295", "2147483648", "1000000000", "99999999999999999999999", "-5"}[r.Intn(6)]))
		case 1: // nested fragments
			b = append(ok, t.rtp(c, 0, bytes.Repeat([]byte{0x1c, 0xdc}, 20000+r.Intn(10000)), true)...)
		case 2: // the same built from many packets
			b = ok
			for i := 0; i < 40; i++ {
				h := byte(0x1c)
				if i == 0 {
					h |= 0x80
				}
				if i == 39 {
					h |= 0x40
				}
				b = append(b, t.rtp(c, 0, append([]byte{0x1c, h}, bytes.Repeat([]byte{0xdc}, 60000)...), true)...)
			}
		case 3: // nested aggregation
			p := []byte{0x41, 1}
			for len(p) < 60000 {
				p = append([]byte{24, byte(len(p) >> 8), byte(len(p))}, p...)
				if len(p) > 3000 && r.Intn(2) == 0 {
					break
				}
			}
			b = append(ok, t.rtp(c, 0, p, true)...)
		case 4: // many sections
			s := strings.Repeat("m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n", 300)
			b = rtspResp(r, 200, "1", nil, sdpHead(r, false)+s)
			for i := 0; i < 310; i++ {
				b = append(b, rtspResp(r, 200, "2", nil, "")...)
			}
			b = append(b, genBytes(r, 3000)...)
		case 5: // fragments without an end
			b = ok
			for i := 0; i < 30; i++ {
				b = append(b, t.rtp(c, 0, append([]byte{0x1c, 0x05 | byte(0x80*((i+1)%2)&0x80)}, genBytes(r, 30000)...), false)...)
			}
		case 6: // long parameter sets and many packets
			big := base64.StdEncoding.EncodeToString(append([]byte{0x67, 66, 0, 30}, genBytes(r, 100000)...))
			sdp := sdpHead(r, false) + "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=" + big + "," + big + "\r\na=control:t\r\n"
			b = rtspResp(r, 200, "1", nil, sdp)
			b = append(b, rtspResp(r, 200, "2", nil, "")...)
			b = append(b, rtspResp(r, 200, "3", nil, "")...)
			for i := 0; i < 500; i++ {
				b = append(b, t.rtp(c, 0, []byte{0x41, byte(i)}, true)...)
			}
		case 7: // an endless header
			b = append([]byte("RTSP/1.0 200 OK\r\n"), bytes.Repeat([]byte("X-A: b\r\n"), 60000)...)
		case 8: // start codes nested in payloads
			b = append(ok, t.rtp(c, 0, append(bytes.Repeat([]byte{0, 0, 0, 1, 9, 0}, 9000), 0x41, 1), true)...)
			b = append(b, t.rtp(c, 0, bytes.Repeat([]byte{0, 0, 0, 1}, 15000), true)...)
			b = append(b, t.rtp(c, 0, append(be32(1), append([]byte{9}, be32(59000)...)...), true)...)
		}
		c.Desc("kind %d, %d bytes", kind, len(b))
		a0 := allocBytes()
		hostileRTSP(c, b, r.Intn(4), max)
		used := allocBytes() - a0
		if limit := uint64(8<<20 + 400*len(b)); used > limit {
			c.Failf("kind %d: %d bytes allocated for %d received", kind, used, len(b))
		}
		c.Count("forged", 1)
		c.Nontrivial(kind, len(b), c.Idx)
	})
}
