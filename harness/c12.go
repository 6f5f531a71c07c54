package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/mp4"
)

// C12 (muxer output against an independent ISO-BMFF parser), C13 (demuxer
// against an independent MP4 writer and model), C14 (hostile MP4 input).

// ------------------------------------------------------------ memory file

type memFile struct {
	b       []byte
	pos     int64
	streams func() ([]interface{}, error)
	failAt  int64 // writes beyond this offset fail
	err     error
}

func (m *memFile) Write(p []byte) (int, error) {
	if m.err != nil && m.pos+int64(len(p)) > m.failAt {
		return 0, m.err
	}
	if n := m.pos + int64(len(p)); n > int64(len(m.b)) {
		m.b = append(m.b, make([]byte, n-int64(len(m.b)))...)
	}
	copy(m.b[m.pos:], p)
	m.pos += int64(len(p))
	return len(p), nil
}

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += m.pos
	case 2:
		off += int64(len(m.b))
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	m.pos = off
	return off, nil
}

func (m *memFile) Streams() ([]interface{}, error) { return m.streams() }

// chopSeeker is a ReadSeeker whose reads return short.
// sparseSeeker is a file with a hole of zeros.
type sparseSeeker struct {
	b        []byte
	at, hole int64
	pos      int64
}

func (s *sparseSeeker) Read(p []byte) (n int, err error) {
	for n < len(p) {
		switch {
		case s.pos >= int64(len(s.b))+s.hole:
			if n == 0 {
				err = io.EOF
			}
			return
		case s.pos < s.at:
			k := copy(p[n:], s.b[s.pos:s.at])
			n, s.pos = n+k, s.pos+int64(k)
		case s.pos < s.at+s.hole:
			k := min(int64(len(p)-n), s.at+s.hole-s.pos)
			clear(p[n : n+int(k)])
			n, s.pos = n+int(k), s.pos+k
		default:
			k := copy(p[n:], s.b[s.pos-s.hole:])
			n, s.pos = n+k, s.pos+int64(k)
		}
	}
	return
}

func (s *sparseSeeker) Seek(o int64, w int) (int64, error) {
	switch w {
	case 1:
		o += s.pos
	case 2:
		o += int64(len(s.b)) + s.hole
	}
	if o < 0 {
		return 0, errors.New("seek before the start")
	}
	s.pos = o
	return o, nil
}

type chopSeeker struct {
	*bytes.Reader
	r *rand.Rand
}

func (s chopSeeker) Read(p []byte) (int, error) {
	if len(p) > 1 && s.r.Intn(2) == 0 {
		p = p[:1+s.r.Intn(len(p)-1)]
	}
	return s.Reader.Read(p)
}

// ------------------------------------------------------------ independent parser

type oNode struct {
	tag       string
	off, size int
	body      []byte // after the 8-byte header
	kids      []*oNode
}

// oParseBoxes parses a run of boxes; containers are parsed recursively and
// must be tiled exactly by their children.
func oParseBoxes(b []byte, base int, path string) (r []*oNode, err error) {
	for p := 0; p < len(b); {
		if len(b)-p < 8 {
			return nil, fmt.Errorf("%s: %d stray bytes", path, len(b)-p)
		}
		n := int(binary.BigEndian.Uint32(b[p:]))
		if n < 8 || n > len(b)-p {
			return nil, fmt.Errorf("%s: box %q of size %d in %d bytes", path, b[p+4:p+8], n, len(b)-p)
		}
		x := &oNode{tag: string(b[p+4 : p+8]), off: base + p, size: n, body: b[p+8 : p+n]}
		if h, ok := boxHead[x.tag]; ok {
			if len(x.body) < h {
				return nil, fmt.Errorf("%s: %q cut short", path, x.tag)
			}
			if x.kids, err = oParseBoxes(x.body[h:], x.off+8+h, path+"/"+x.tag); err != nil {
				return nil, err
			}
		}
		r = append(r, x)
		p += n
	}
	return
}

func (x *oNode) all(tag string) (r []*oNode) {
	for _, k := range x.kids {
		if k.tag == tag {
			r = append(r, k)
		}
	}
	return
}

// one returns the only child with the tag.
func (x *oNode) one(path ...string) (*oNode, error) {
	for _, t := range path {
		k := x.all(t)
		if len(k) != 1 {
			return nil, fmt.Errorf("%q holds %d %q boxes", x.tag, len(k), t)
		}
		x = k[0]
	}
	return x, nil
}

func u32at(b []byte, p int) uint32 { return binary.BigEndian.Uint32(b[p:]) }

// oTable reads a full box of n-word entries.
func oTable(x *oNode, words int) (r [][]uint32, err error) {
	if len(x.body) < 8 {
		return nil, fmt.Errorf("%q cut short", x.tag)
	}
	n := int(u32at(x.body, 4))
	if len(x.body)-8 != n*words*4 {
		return nil, fmt.Errorf("%q: %d entries in %d bytes", x.tag, n, len(x.body)-8)
	}
	for i := 0; i < n; i++ {
		var e []uint32
		for j := 0; j < words; j++ {
			e = append(e, u32at(x.body, 8+4*(i*words+j)))
		}
		r = append(r, e)
	}
	return
}

type oSample struct {
	off, size int64
	dts       int64
	delta     int64
	cts       int64
	sync      bool
}

type oTrack struct {
	id        uint32
	handler   string
	timeScale int64
	mdDur     uint32
	tkDur     uint32
	enabled   uint32
	width     uint32
	height    uint32
	stsdTag   string
	avcC      []byte
	asc       []byte
	w, h      int
	channels  int
	rate      uint32
	samples   []oSample
	hasStss   bool
}

// oDesc reads one MPEG-4 descriptor.
func oDesc(b []byte) (tag byte, body, rest []byte, err error) {
	if len(b) < 2 {
		return 0, nil, nil, fmt.Errorf("descriptor cut short")
	}
	tag = b[0]
	n := 0
	p := 1
	for i := 0; ; i++ {
		if p >= len(b) || i == 4 {
			return 0, nil, nil, fmt.Errorf("descriptor length")
		}
		n = n<<7 | int(b[p]&0x7f)
		p++
		if b[p-1]&0x80 == 0 {
			break
		}
	}
	if n > len(b)-p {
		return 0, nil, nil, fmt.Errorf("descriptor %d of %d bytes in %d", tag, n, len(b)-p)
	}
	return tag, b[p : p+n], b[p+n:], nil
}

// oESDS returns the decoder specific info of an esds body.
func oESDS(b []byte) (asc []byte, err error) {
	if len(b) < 4 {
		return nil, fmt.Errorf("esds cut short")
	}
	tag, es, rest, err := oDesc(b[4:])
	if err != nil || tag != 3 || len(rest) != 0 || len(es) < 3 {
		return nil, fmt.Errorf("esds: ES descriptor %d, %d bytes after it, %v", tag, len(rest), err)
	}
	es = es[3:]
	found := 0
	sl := 0
	for len(es) > 0 {
		var body []byte
		if tag, body, es, err = oDesc(es); err != nil {
			return nil, fmt.Errorf("esds: in ES: %v", err)
		}
		switch tag {
		case 4:
			found++
			if len(body) < 13 || body[0] != 0x40 || body[1]>>2 != 5 {
				return nil, fmt.Errorf("esds: decoder config %x", body)
			}
			body = body[13:]
			n := 0
			for len(body) > 0 {
				var d []byte
				if tag, d, body, err = oDesc(body); err != nil {
					return nil, fmt.Errorf("esds: in decoder config: %v", err)
				}
				if tag == 5 {
					asc = d
					n++
				}
			}
			if n != 1 {
				return nil, fmt.Errorf("esds: %d decoder specific infos", n)
			}
		case 6:
			sl++
			if len(body) != 1 || body[0] != 2 {
				return nil, fmt.Errorf("esds: SL config %x", body)
			}
		}
	}
	if found != 1 || sl != 1 {
		return nil, fmt.Errorf("esds: %d decoder configs, %d SL configs", found, sl)
	}
	return
}

func oParseTrack(t *oNode) (tr *oTrack, err error) {
	tr = &oTrack{}
	tkhd, err := t.one("tkhd")
	if err != nil {
		return nil, err
	}
	if len(tkhd.body) != 84 || tkhd.body[0] != 0 {
		return nil, fmt.Errorf("tkhd of %d bytes version %d", len(tkhd.body), tkhd.body[0])
	}
	tr.enabled = u32at(tkhd.body, 0) & 0xffffff
	tr.id = u32at(tkhd.body, 12)
	tr.tkDur = u32at(tkhd.body, 20)
	tr.width = u32at(tkhd.body, 76)
	tr.height = u32at(tkhd.body, 80)
	mdhd, err := t.one("mdia", "mdhd")
	if err != nil {
		return nil, err
	}
	if len(mdhd.body) != 24 || mdhd.body[0] != 0 {
		return nil, fmt.Errorf("mdhd of %d bytes", len(mdhd.body))
	}
	tr.timeScale = int64(u32at(mdhd.body, 12))
	tr.mdDur = u32at(mdhd.body, 16)
	hdlr, err := t.one("mdia", "hdlr")
	if err != nil {
		return nil, err
	}
	if len(hdlr.body) < 12 {
		return nil, fmt.Errorf("hdlr of %d bytes", len(hdlr.body))
	}
	tr.handler = string(hdlr.body[8:12])
	minf, err := t.one("mdia", "minf")
	if err != nil {
		return nil, err
	}
	hd := map[string]string{"vide": "vmhd", "soun": "smhd"}[tr.handler]
	if _, err = minf.one(hd); err != nil {
		return nil, err
	}
	dref, err := minf.one("dinf", "dref")
	if err != nil {
		return nil, err
	}
	if int(u32at(dref.body, 4)) != len(dref.kids) || len(dref.kids) != 1 || dref.kids[0].tag != "url " || len(dref.kids[0].body) < 4 || u32at(dref.kids[0].body, 0) != 1 {
		return nil, fmt.Errorf("dref is not one self-contained reference: %x", dref.body)
	}
	stbl, err := minf.one("stbl")
	if err != nil {
		return nil, err
	}
	stsd, err := stbl.one("stsd")
	if err != nil {
		return nil, err
	}
	if int(u32at(stsd.body, 4)) != 1 || len(stsd.kids) != 1 {
		return nil, fmt.Errorf("stsd says %d entries, holds %d", u32at(stsd.body, 4), len(stsd.kids))
	}
	e := stsd.kids[0]
	tr.stsdTag = e.tag
	if e.tag != "avc1" && e.tag != "mp4a" {
		return nil, fmt.Errorf("sample entry %q", e.tag)
	}
	if binary.BigEndian.Uint16(e.body[6:]) != 1 {
		return nil, fmt.Errorf("data reference index %d", binary.BigEndian.Uint16(e.body[6:]))
	}
	switch e.tag {
	case "avc1":
		tr.w, tr.h = int(binary.BigEndian.Uint16(e.body[24:])), int(binary.BigEndian.Uint16(e.body[26:]))
		k, err := e.one("avcC")
		if err != nil {
			return nil, err
		}
		tr.avcC = k.body
	case "mp4a":
		tr.channels = int(binary.BigEndian.Uint16(e.body[16:]))
		tr.rate = u32at(e.body, 24)
		k, err := e.one("esds")
		if err != nil {
			return nil, err
		}
		if tr.asc, err = oESDS(k.body); err != nil {
			return nil, err
		}
	}
	// sample tables
	get := func(tag string, words int) [][]uint32 {
		if err != nil {
			return nil
		}
		var k *oNode
		if k, err = stbl.one(tag); err != nil {
			return nil
		}
		var r [][]uint32
		r, err = oTable(k, words)
		return r
	}
	stts, stsc, stco := get("stts", 2), get("stsc", 3), get("stco", 1)
	if err != nil {
		return nil, err
	}
	stsz, err := stbl.one("stsz")
	if err != nil {
		return nil, err
	}
	if len(stsz.body) < 12 {
		return nil, fmt.Errorf("stsz cut short")
	}
	uni, cnt := u32at(stsz.body, 4), int(u32at(stsz.body, 8))
	var sizes []int64
	if uni == 0 {
		if len(stsz.body) != 12+4*cnt {
			return nil, fmt.Errorf("stsz: %d entries in %d bytes", cnt, len(stsz.body))
		}
		for i := 0; i < cnt; i++ {
			sizes = append(sizes, int64(u32at(stsz.body, 12+4*i)))
		}
	} else {
		for i := 0; i < cnt; i++ {
			sizes = append(sizes, int64(uni))
		}
	}
	var offs []int64
	for ci, i := 0, -1; ci < len(stco); ci++ {
		for i+1 < len(stsc) && int(stsc[i+1][0]) == ci+1 {
			i++
		}
		if i < 0 {
			return nil, fmt.Errorf("stsc does not cover chunk %d", ci+1)
		}
		if stsc[i][2] != 1 {
			return nil, fmt.Errorf("sample description index %d", stsc[i][2])
		}
		off := int64(stco[ci][0])
		for k := uint32(0); k < stsc[i][1]; k++ {
			if len(offs) >= len(sizes) {
				return nil, fmt.Errorf("chunks hold more samples than stsz (%d)", len(sizes))
			}
			offs = append(offs, off)
			off += sizes[len(offs)-1]
		}
	}
	if len(offs) != cnt {
		return nil, fmt.Errorf("chunks hold %d samples, stsz %d", len(offs), cnt)
	}
	dts := int64(0)
	for _, e := range stts {
		for k := uint32(0); k < e[0]; k++ {
			if len(tr.samples) >= cnt {
				return nil, fmt.Errorf("stts counts more than %d samples", cnt)
			}
			i := len(tr.samples)
			tr.samples = append(tr.samples, oSample{off: offs[i], size: sizes[i], dts: dts, delta: int64(e[1])})
			dts += int64(e[1])
		}
	}
	if len(tr.samples) != cnt {
		return nil, fmt.Errorf("stts counts %d samples, stsz %d", len(tr.samples), cnt)
	}
	if k := stbl.all("ctts"); len(k) > 1 {
		return nil, fmt.Errorf("%d ctts boxes", len(k))
	} else if len(k) == 1 {
		ents, err := oTable(k[0], 2)
		if err != nil {
			return nil, err
		}
		i := 0
		for _, e := range ents {
			for n := uint32(0); n < e[0]; n++ {
				if i >= cnt {
					return nil, fmt.Errorf("ctts counts more than %d samples", cnt)
				}
				tr.samples[i].cts = int64(e[1])
				if k[0].body[0] == 1 {
					tr.samples[i].cts = int64(int32(e[1]))
				}
				i++
			}
		}
		if i != cnt {
			return nil, fmt.Errorf("ctts counts %d samples, stsz %d", i, cnt)
		}
	}
	if k := stbl.all("stss"); len(k) > 1 {
		return nil, fmt.Errorf("%d stss boxes", len(k))
	} else if len(k) == 1 {
		tr.hasStss = true
		ents, err := oTable(k[0], 1)
		if err != nil {
			return nil, err
		}
		last := 0
		for _, e := range ents {
			if int(e[0]) <= last || int(e[0]) > cnt {
				return nil, fmt.Errorf("stss entry %d after %d of %d samples", e[0], last, cnt)
			}
			last = int(e[0])
			tr.samples[last-1].sync = true
		}
	} else {
		for i := range tr.samples {
			tr.samples[i].sync = true
		}
	}
	return tr, nil
}

// ------------------------------------------------------------ workloads

type mp4Model struct {
	codec   interface{}
	typ     int
	w, h    int
	conf    []byte
	asc     []byte
	rate    int
	chans   int
	pkts    []av.Packet
	samples []oSample // foreign files
	data    [][]byte
	ts      int64
}

func genVideoCodec(c *C) *mp4Model {
	m, sps, _ := genSPS(c, 0)
	pps := genPPS(c, 0, 0)
	rec := oRecord([][]byte{sps}, [][]byte{pps}, 3)
	codec, err := h264.FromDecoderConfig(rec)
	if err != nil {
		c.Failf("decoder configuration: %v", err)
	}
	w, h := m.size()
	return &mp4Model{codec: codec, typ: av.H264, w: int(w), h: int(h), conf: rec}
}

func genAudioCodec(c *C) *mp4Model {
	s := &bitStr{}
	sri := c.R.Intn(12)
	ch := []int{1, 2, 6, 3, 4, 5, 7}[c.R.Intn(7)]
	oASC(s, uint64(1+c.R.Intn(4)), uint64(sri), uint64(ch))
	if ch == 7 { // 7.1
		ch = 8
	}
	s.u(0, 3)
	asc := s.bytes()
	codec, err := aac.FromMPEG4AudioConfigBytes(asc)
	if err != nil {
		c.Failf("audio config %x: %v", asc, err)
	}
	return &mp4Model{codec: codec, typ: av.AAC, asc: asc, rate: oRates[sri], chans: ch}
}

func genMP4Times(c *C) func() time.Duration {
	r := c.R
	mode := r.Intn(6)
	return func() time.Duration {
		switch mode {
		case 0:
			return 40 * time.Millisecond
		case 1:
			return time.Duration(r.Intn(100)) * time.Millisecond
		case 2: // not a whole number of ticks
			return time.Duration(r.Int63n(int64(50 * time.Millisecond)))
		case 3: // AAC frame
			return 1024 * time.Second / 44100
		case 4:
			if r.Intn(3) == 0 {
				return 0
			}
			return 33366667 * time.Nanosecond
		}
		if r.Intn(40) == 0 {
			return time.Duration(r.Intn(400)) * time.Second
		}
		return time.Duration(r.Intn(3000)) * time.Microsecond * 10
	}
}

func genMP4Packets(c *C, ms []*mp4Model, n int) (order []av.Packet) {
	r := c.R
	type st struct {
		t    time.Duration
		step func() time.Duration
		key  int
		ct   int
	}
	sts := make([]*st, len(ms))
	for i := range ms {
		sts[i] = &st{step: genMP4Times(c), key: []int{1, 2, 5, 30}[r.Intn(4)], ct: r.Intn(4)}
		if r.Intn(2) == 0 {
			sts[i].t = time.Duration(r.Int63n(int64(3 * time.Hour)))
		}
		if r.Intn(6) == 0 {
			sts[i].t = time.Duration(r.Int63n(int64(1000 * time.Hour)))
		}
	}
	one := r.Intn(len(ms) + 3)
	// where the video starts in a group of pictures, or has no key frame at all
	late := 0
	if c.X.Prop == "C12" && r.Intn(4) == 0 {
		late = []int{1, 1, 2, 5, 1 << 30}[r.Intn(5)]
		c.Count("late key frames", 1)
	}
	for i := 0; i < n; i++ {
		k := r.Intn(len(ms))
		if one < len(ms) && r.Intn(10) != 0 {
			k = one
		}
		m, s := ms[k], sts[k]
		size := []int{0, 1, 5, 100, 255, 256, 257, 300, 1000}[r.Intn(9)]
		if r.Intn(60) == 0 {
			size = 10000 + r.Intn(60000)
		}
		p := av.Packet{Type: m.typ, Time: s.t, Data: genBytes(r, size)}
		if size >= 4 {
			binary.BigEndian.PutUint32(p.Data, uint32(i))
		}
		if m.typ == av.H264 {
			p.IsKeyFrame = len(m.pkts) == 0 || r.Intn(s.key) == 0
			if s.key == 30 && len(m.pkts) != 0 {
				p.IsKeyFrame = r.Intn(30) == 0
			}
			if len(m.pkts) < late {
				p.IsKeyFrame = false
			}
			switch s.ct {
			case 1:
				p.CTime = time.Duration(r.Intn(5)) * 40 * time.Millisecond
			case 2:
				p.CTime = time.Duration(r.Intn(7)-3) * 33 * time.Millisecond
			case 3:
				p.CTime = time.Duration(r.Int63n(int64(time.Second))) - 500*time.Millisecond
			}
		}
		m.pkts = append(m.pkts, p)
		order = append(order, p)
		s.t += s.step()
	}
	return
}

func genCodecSet(c *C) (ms []*mp4Model) {
	switch c.R.Intn(4) {
	case 0:
		ms = append(ms, genVideoCodec(c))
	case 1:
		ms = append(ms, genAudioCodec(c))
	default:
		ms = append(ms, genVideoCodec(c), genAudioCodec(c))
		if c.R.Intn(2) == 0 {
			ms[0], ms[1] = ms[1], ms[0]
		}
	}
	return
}

// muxMP4 writes packets through the real muxer; hostile calls (unsupported
// packet types, times going backwards) are mixed in when bad is set.
func muxMP4(c *C, ms []*mp4Model, order []av.Packet, bad bool) []byte {
	r := c.R
	f := &memFile{}
	avail := len(ms)
	if r.Intn(3) == 0 { // codecs become known one after another
		avail = r.Intn(len(ms) + 1)
	}
	f.streams = func() (s []interface{}, err error) {
		for _, m := range ms[:avail] {
			s = append(s, m.codec)
		}
		return
	}
	m, err := mp4.NewMuxer(f)
	if err != nil {
		c.Failf("NewMuxer: %v", err)
	}
	if r.Intn(3) == 0 {
		if err := m.WriteFileHeader(); err != nil {
			c.Failf("WriteFileHeader: %v", err)
		}
	}
	last := map[int]time.Duration{}
	for _, p := range order {
		for i := avail; i < len(ms); i++ {
			if ms[i].typ == p.Type {
				avail = i + 1
			}
		}
		if bad && r.Intn(10) == 0 {
			if err := m.WritePacket(av.Packet{Type: av.Metadata, Data: []byte("xyz")}); err == nil {
				c.Failf("an unsupported packet type was accepted")
			}
		}
		if t, ok := last[p.Type]; bad && ok && r.Intn(10) == 0 {
			if err := m.WritePacket(av.Packet{Type: p.Type, Time: t - time.Duration(1+r.Int63n(int64(time.Second))), Data: []byte("backwards")}); err == nil {
				c.Failf("a packet with a time before its track's last one was accepted")
			}
		}
		if err := m.WritePacket(p); err != nil {
			c.Failf("WritePacket: %v", err)
		}
		last[p.Type] = p.Time
	}
	avail = len(ms)
	if err := m.WriteTrailer(); err != nil {
		c.Failf("WriteTrailer: %v", err)
	}
	return f.b
}

// ticksOf is the exact value of d in ticks, as a rational.
func within1Tick(ticks, ts int64, d time.Duration) bool {
	a := new(big.Int).Mul(big.NewInt(ticks), big.NewInt(1e9))
	b := new(big.Int).Mul(big.NewInt(int64(d)), big.NewInt(ts))
	a.Sub(a, b)
	return a.CmpAbs(big.NewInt(1e9)) < 0
}

func checkMuxed(c *C, file []byte, ms []*mp4Model, known int) {
	top, err := oParseBoxes(file, 0, "file")
	if err != nil {
		c.Failf("not a tiled box file: %v", err)
	}
	root := &oNode{tag: "file", kids: top}
	mdat, err := root.one("mdat")
	if err != nil {
		c.Failf("%v", err)
	}
	moov, err := root.one("moov")
	if err != nil {
		c.Failf("%v", err)
	}
	if mdat.size+moov.size != len(file) {
		c.Failf("mdat %d and moov %d do not tile %d bytes", mdat.size, moov.size, len(file))
	}
	mvhd, err := moov.one("mvhd")
	if err != nil {
		c.Failf("%v", err)
	}
	if len(mvhd.body) != 100 {
		c.Failf("mvhd of %d bytes", len(mvhd.body))
	}
	mts, mdur, next := int64(u32at(mvhd.body, 12)), int64(u32at(mvhd.body, 16)), u32at(mvhd.body, 96)
	if mts == 0 {
		c.Failf("movie time scale 0")
	}
	var tracks []*oTrack
	ids := map[uint32]bool{}
	for _, t := range moov.all("trak") {
		tr, err := oParseTrack(t)
		if err != nil {
			c.Failf("track: %v", err)
		}
		if tr.id == 0 || ids[tr.id] || tr.id >= next {
			c.Failf("track id %d (others %v), next track id %d", tr.id, ids, next)
		}
		ids[tr.id] = true
		if tr.enabled&1 == 0 {
			c.Failf("track %d is not enabled", tr.id)
		}
		tracks = append(tracks, tr)
	}
	if len(tracks) != known {
		c.Failf("%d tracks for %d codecs", len(tracks), known)
	}
	total := int64(0)
	maxDur := int64(0)
	var ranges [][2]int64
	for _, m := range ms[:known] {
		var tr *oTrack
		for _, t := range tracks {
			if (t.stsdTag == "avc1") == (m.typ == av.H264) {
				if tr != nil {
					c.Failf("two %s tracks", t.stsdTag)
				}
				tr = t
			}
		}
		if tr == nil {
			c.Failf("no track for %T", m.codec)
		}
		if tr.timeScale <= 0 {
			c.Failf("time scale %d", tr.timeScale)
		}
		name := tr.stsdTag
		switch m.typ {
		case av.H264:
			if tr.handler != "vide" || !bytes.Equal(tr.avcC, m.conf) || tr.w != m.w&0xffff || tr.h != m.h&0xffff {
				c.Failf("avc1: handler %q, %dx%d, config %x; want %dx%d %x", tr.handler, tr.w, tr.h, tr.avcC, m.w, m.h, m.conf)
			}
			if int(tr.width>>16) != m.w&0xffff || int(tr.height>>16) != m.h&0xffff {
				c.Failf("avc1: track header size %x x %x, want %dx%d", tr.width, tr.height, m.w, m.h)
			}
		case av.AAC:
			if tr.handler != "soun" || !bytes.Equal(tr.asc, m.asc) || tr.channels != m.chans || (m.rate < 65536 && int(tr.rate>>16) != m.rate) {
				c.Failf("mp4a: handler %q, %d channels, rate %d, config %x; want %d %d %x", tr.handler, tr.channels, tr.rate>>16, tr.asc, m.chans, m.rate, m.asc)
			}
		}
		if len(tr.samples) != len(m.pkts) {
			c.Failf("%s: %d samples for %d packets", name, len(tr.samples), len(m.pkts))
		}
		sum := int64(0)
		for i, s := range tr.samples {
			p := m.pkts[i]
			if s.size != int64(len(p.Data)) || s.off < int64(mdat.off+8) || s.off+s.size > int64(mdat.off+mdat.size) || !bytes.Equal(file[s.off:s.off+s.size], p.Data) {
				c.Failf("%s sample %d: offset %d size %d does not address packet %s (mdat %d+%d)", name, i, s.off, s.size, pktStr(p), mdat.off, mdat.size)
			}
			if !within1Tick(s.dts, tr.timeScale, p.Time-m.pkts[0].Time) {
				c.Failf("%s sample %d: decode time %d/%d, packet time %v after the first", name, i, s.dts, tr.timeScale, p.Time-m.pkts[0].Time)
			}
			if !within1Tick(s.cts, tr.timeScale, p.CTime) {
				c.Failf("%s sample %d: composition offset %d/%d, packet's %v", name, i, s.cts, tr.timeScale, p.CTime)
			}
			if m.typ == av.H264 && s.sync != p.IsKeyFrame {
				c.Failf("%s sample %d: sync %v, key frame %v", name, i, s.sync, p.IsKeyFrame)
			}
			if m.typ == av.AAC && !s.sync {
				c.Failf("%s sample %d is not a sync sample", name, i)
			}
			sum += s.delta
			total += s.size
			if s.size > 0 {
				ranges = append(ranges, [2]int64{s.off, s.off + s.size})
			}
		}
		if sum < 1<<32 {
			if int64(tr.mdDur) != sum {
				c.Failf("%s: media duration %d, deltas sum to %d", name, tr.mdDur, sum)
			}
			// track duration in the movie's time scale
			want := new(big.Int).Mul(big.NewInt(sum), big.NewInt(mts))
			want.Sub(want, new(big.Int).Mul(big.NewInt(int64(tr.tkDur)), big.NewInt(tr.timeScale)))
			if want.CmpAbs(new(big.Int).Mul(big.NewInt(1), big.NewInt(tr.timeScale))) > 0 {
				c.Failf("%s: track duration %d/%d, media %d/%d", name, tr.tkDur, mts, sum, tr.timeScale)
			}
			if int64(tr.tkDur) > maxDur {
				maxDur = int64(tr.tkDur)
			}
		}
		c.Count("samples", len(tr.samples))
		c.State("tracks", name, len(tr.samples) > 0, len(tr.samples) > 1)
	}
	if mdur != maxDur {
		c.Failf("movie duration %d, longest track %d", mdur, maxDur)
	}
	if total != int64(mdat.size-8) {
		c.Failf("samples hold %d bytes, mdat %d", total, mdat.size-8)
	}
	sort.Slice(ranges, func(i, j int) bool { return ranges[i][0] < ranges[j][0] })
	for i := 1; i < len(ranges); i++ {
		if ranges[i][0] < ranges[i-1][1] {
			c.Failf("samples overlap at %d", ranges[i][0])
		}
	}
}

func init() {
	register(&propDef{
		id:   "C12",
		mul:  8,
		rule: "files with at least one sample, distinct by content",
		assume: []string{
			"packet times non-decreasing per track (a violation must be refused), track durations below 2^32 ticks, file below 4 GB",
			"times match within one tick of the track's time scale",
		},
		must: []string{"files", "samples", "late key frames"},
		run: func(x *Ctx) {
			x.Each("mux", x.N(1500, 60000), func(c *C) {
				ms := genCodecSet(c)
				n := []int{0, 1, 2, 3, 20, 100, 300}[c.R.Intn(7)]
				order := genMP4Packets(c, ms, n)
				bad := c.R.Intn(3) == 0
				c.Desc("%d packets, %d codecs, refused calls %v", n, len(ms), bad)
				file := muxMP4(c, ms, order, bad)
				checkMuxed(c, file, ms, knownTracks(file, ms))
				c.Count("files", 1)
				if n > 0 {
					c.Nontrivial(file)
				}
				c.Sample("%d packets of %d codecs -> %d bytes", n, len(ms), len(file))
			})
			// long recordings: many hours with times that are not whole ticks
			x.Each("long", x.N(40, 600), func(c *C) {
				ms := genCodecSet(c)
				r := c.R
				step := []time.Duration{1024 * time.Second / 44100, 1024 * time.Second / 48000, 33366667, 41708333, 3 * time.Second, time.Minute}[r.Intn(6)]
				n := 40000
				if step > time.Second {
					n = int(13 * time.Hour / step)
					if n > 14000 {
						n = 14000
					}
				}
				var order []av.Packet
				for i := 0; i < n; i++ {
					m := ms[i%len(ms)]
					p := av.Packet{Type: m.typ, Time: time.Duration(i) * step, Data: []byte{byte(i), byte(i >> 8)}}
					p.IsKeyFrame = m.typ == av.H264 && len(m.pkts)%50 == 0
					m.pkts = append(m.pkts, p)
					order = append(order, p)
				}
				c.Desc("%d packets every %v", n, step)
				checkMuxed(c, muxMP4(c, ms, order, false), ms, len(ms))
				c.Count("files", 1)
				c.Nontrivial(c.Idx)
			})
			// an error of the underlying file is reported
			x.Each("write-error", x.N(150, 3000), func(c *C) {
				ms := genCodecSet(c)
				order := genMP4Packets(c, ms, 20)
				file := muxMP4(c, ms, order, false)
				f := &memFile{err: errors.New("disk full"), failAt: int64(c.R.Intn(len(file)))}
				f.streams = func() (s []interface{}, err error) {
					for _, m := range ms {
						s = append(s, m.codec)
					}
					return
				}
				m, err := mp4.NewMuxer(f)
				for i := 0; err == nil && i < len(order); i++ {
					err = m.WritePacket(order[i])
				}
				if err == nil {
					err = m.WriteTrailer()
				}
				if err == nil {
					c.Failf("the write error at byte %d of %d was not reported", f.failAt, len(file))
				}
				c.Count("write errors", 1)
				c.Nontrivial(file, f.failAt)
			})
		},
	})
	register(&propDef{
		id:   "C13",
		mul:  6,
		rule: "files with at least two samples, distinct by content",
		assume: []string{
			"version-0 header boxes, 32-bit chunk offsets, no edit lists, no zero-count run-length entries, first video sample a sync sample",
			"times are exact to one nanosecond (floor of ticks times 1e9 over the time scale)",
		},
		must: []string{"muxed files", "foreign files", "packets", "seeks", "seeks before reading", "files with several tracks of a kind", "tracks of other codecs", "large files", "long files", "files of hours"},
		run:  runC13,
	})
	register(&propDef{
		id:     "C14",
		mul:    4,
		rule:   "inputs distinct by content",
		assume: []string{"memory is measured per call: 64 bytes per input byte plus 2 MB"},
		must:   []string{"mutants", "truncations", "boxes cut", "field forgeries", "errors", "packets read"},
		run:    runC14,
	})
}

// knownTracks is how many of the codecs (in announcement order) the muxer can
// have learned: those up to the last one that had packets or was announced.
func knownTracks(file []byte, ms []*mp4Model) int {
	top, err := oParseBoxes(file, 0, "file")
	if err != nil {
		return len(ms)
	}
	n := len(ms)
	for n > 0 && len(ms[n-1].pkts) == 0 {
		n--
	}
	for _, t := range top {
		if t.tag == "moov" {
			if k := len(t.all("trak")); k >= n && k <= len(ms) {
				return k
			}
		}
	}
	return n
}

// ------------------------------------------------------------ C13

// tickTime is floor(ticks*1e9/ts) for either sign.
func tickTime(ticks, ts int64) time.Duration {
	a := new(big.Int).Mul(big.NewInt(ticks), big.NewInt(1e9))
	q, _ := new(big.Int).DivMod(a, big.NewInt(ts), new(big.Int))
	return time.Duration(q.Int64())
}

func near(a, b time.Duration) bool { d := a - b; return d >= -1 && d <= 1 }

// genForeignMP4 writes a conforming file with an independent writer.
// The sample data starts hole bytes further back than in the returned bytes,
// from holeAt on.
func genForeignMP4(c *C, maxSamples int, hole int64) (file []byte, ms []*mp4Model, desc string, holeAt int) {
	r := c.R
	ms = genCodecSet(c)
	many := r.Intn(5) == 0
	if many { // several tracks of a kind; their samples are told apart by content
		for k := 1 + r.Intn(3); k > 0; k-- {
			ms = append(ms, genCodecSet(c)...)
		}
		c.Count("files with several tracks of a kind", 1)
	}
	type chunk struct {
		m     *mp4Model
		first int
		n     int
		off   int
	}
	var chunks []chunk
	for _, m := range ms {
		m.ts = []int64{1000, 90000, 44100, 48000, 600, 25, 10000000, 1, 30000, 1<<31 - 1}[r.Intn(10)]
		n := []int{0, 1, 2, 5, 30, 120}[r.Intn(6)]
		if n > maxSamples {
			n = maxSamples
		}
		uni := -1
		if r.Intn(3) == 0 {
			uni = 1 + r.Intn(50)
		}
		delta := int64(r.Intn(int(min64(m.ts, 1<<30)) + 1))
		if m.ts < 1000 {
			delta = int64(r.Intn(3))
		}
		mode := r.Intn(4)
		ct := r.Intn(3)
		dts := int64(0)
		big := r.Intn(10) == 0
		for i := 0; i < n; i++ {
			size := uni
			if uni < 0 {
				size = []int{0, 1, 3, 20, 200, 3000}[r.Intn(6)]
			}
			d := delta
			switch mode {
			case 1:
				d = int64(r.Intn(int(delta)*2 + 1))
			case 2:
				if r.Intn(3) == 0 {
					d = 0
				}
			}
			if big && r.Intn(10) == 0 {
				d = int64(r.Uint32() >> 4)
			}
			s := oSample{size: int64(size), dts: dts, delta: d}
			if m.typ == av.H264 {
				s.sync = i == 0 || r.Intn(4) == 0
				switch ct {
				case 1:
					s.cts = int64(r.Intn(int(delta)*3 + 1))
				case 2:
					s.cts = int64(r.Intn(int(delta)*4+1)) - 2*delta
				}
				// a version 1 ctts entry is a signed 32-bit number
				s.cts = max(min(s.cts, math.MaxInt32), math.MinInt32)
				if ct == 1 && big && r.Intn(10) == 0 { // version 0: unsigned
					s.cts = int64(r.Uint32())
				}
			}
			if many {
				s.size = max(s.size, 12)
				size = int(s.size)
			}
			b := genBytes(r, size)
			if many {
				binary.BigEndian.PutUint64(b, r.Uint64())
			}
			m.samples = append(m.samples, s)
			m.data = append(m.data, b)
			dts += d
		}
		allSync := m.typ == av.H264 && r.Intn(5) == 0
		if allSync {
			for i := range m.samples {
				m.samples[i].sync = true
			}
		}
		maxChunk := []int{1, 2, 7, 1000}[r.Intn(4)]
		for i := 0; i < n; {
			k := 1 + r.Intn(maxChunk)
			if r.Intn(2) == 0 {
				k = maxChunk
			}
			if k > n-i {
				k = n - i
			}
			chunks = append(chunks, chunk{m: m, first: i, n: k})
			i += k
		}
	}
	// physical order of chunks
	pos := r.Perm(len(chunks))
	if r.Intn(2) == 0 {
		sort.Ints(pos)
	}
	var mdat []byte
	for _, i := range pos {
		if r.Intn(4) == 0 {
			mdat = append(mdat, genBytes(r, r.Intn(20))...)
		}
		ch := &chunks[i]
		ch.off = len(mdat)
		for k := ch.first; k < ch.first+ch.n; k++ {
			ch.m.samples[k].off = int64(len(mdat)) // relative for now
			mdat = append(mdat, ch.m.data[k]...)
		}
	}
	extra := func() []byte {
		if r.Intn(4) == 0 {
			return oBox([]string{"free", "skip", "udta", "xyz "}[r.Intn(4)], genBytes(r, r.Intn(30)))
		}
		return nil
	}
	full := func(tag string, ver int, body ...[]byte) []byte {
		return oBox(tag, append([][]byte{be(1, uint64(ver)), be(3, 0)}, body...)...)
	}
	rle := func(n int, val func(int) uint32) (b []byte) {
		split := r.Intn(4) == 0
		cnt := 0
		for i := 0; i < n; {
			j := i + 1
			for j < n && val(j) == val(i) && !(split && r.Intn(3) == 0) {
				j++
			}
			b = append(b, be(4, uint64(j-i))...)
			b = append(b, be(4, uint64(val(i)))...)
			cnt++
			i = j
		}
		return cat(be(4, uint64(cnt)), b)
	}
	shuffle := func(bb ...[]byte) []byte {
		if r.Intn(2) == 0 {
			r.Shuffle(len(bb), func(i, j int) { bb[i], bb[j] = bb[j], bb[i] })
		}
		return cat(bb...)
	}
	matrix := cat(be(4, 0x10000), be(12, 0), be(4, 0x10000), be(12, 0), be(4, 0x40000000))
	skipped := 0
	buildMoov := func(mdatOff int) []byte {
		seed := r.Int63()
		keep := r
		r = rand.New(rand.NewSource(seed)) // same choices on both passes
		defer func() { r = keep }()
		_ = seed
		var traks [][]byte
		// tracks of kinds the library does not know are skipped
		foreign := func() {
			for r.Intn(6) == 0 {
				kind := []string{"tx3g", "hev1", "alac", "tmcd", "hint"}[r.Intn(5)]
				hd := []string{"text", "vide", "soun", "tmcd", "hint"}[r.Intn(5)]
				n := r.Intn(5)
				stbl := []([]byte){full("stsd", 0, be(4, 1), oBox(kind, be(6, 0), be(2, 1), genBytes(r, r.Intn(70))))}
				stbl = append(stbl, full("stts", 0, be(4, 1), be(4, uint64(n)), be(4, uint64(r.Intn(3000)))), full("stsc", 0, be(4, 1), be(4, 1), be(4, uint64(max(n, 1))), be(4, 1)))
				if r.Intn(3) == 0 {
					stbl = append(stbl, full("co64", 0, be(4, 1), be(8, 1<<33)), full("stz2", 0, be(3, 0), be(1, 8), be(4, uint64(n)), make([]byte, n)))
				} else {
					stbl = append(stbl, full("stco", 0, be(4, 1), be(4, 8)), full("stsz", 0, be(4, 1), be(4, uint64(n))))
				}
				minf := oBox("minf", shuffle(full([]string{"nmhd", "gmhd"}[r.Intn(2)], 0), oBox("dinf", full("dref", 0, be(4, 1), oBox("url ", be(4, 1)))), oBox("stbl", shuffle(stbl...)), extra()))
				mdia := oBox("mdia", shuffle(full("mdhd", 0, be(8, 0), be(4, uint64([]int{0, 1, 600, 90000}[r.Intn(4)])), be(4, 0), be(2, 0x55c4), be(2, 0)),
					full("hdlr", 0, be(4, 0), []byte(hd), be(12, 0), []byte("h\x00")), minf, extra()))
				traks = append(traks, oBox("trak", shuffle(full("tkhd", 0, be(8, 0), be(4, uint64(100+len(traks))), be(4, 0), be(4, 0), be(8, 0), be(8, 0), matrix, be(8, 0)), mdia, extra())))
				skipped++
			}
		}
		for ti, m := range ms {
			foreign()
			n := len(m.samples)
			dur := int64(0)
			for _, s := range m.samples {
				dur += s.delta
			}
			var entry []byte
			if m.typ == av.H264 {
				entry = oBox("avc1", be(6, 0), be(2, 1), be(16, 0), be(2, uint64(m.w)), be(2, uint64(m.h)), be(4, 0x480000), be(4, 0x480000), be(4, 0), be(2, 1), make([]byte, 32), be(2, 24), be(2, 0xffff),
					shuffle(oBox("avcC", m.conf), extra()))
			} else {
				entry = oBox("mp4a", be(6, 0), be(2, 1), be(8, 0), be(2, uint64(m.chans)), be(2, 16), be(4, 0), be(4, uint64(m.rate&0xffff)<<16),
					shuffle(oBox("esds", oEsds(uint16(r.Intn(3)), m.asc, r)), extra()))
			}
			stsd := full("stsd", 0, be(4, 1), entry)
			stts := full("stts", 0, rle(n, func(i int) uint32 { return uint32(m.samples[i].delta) }))
			var ctts []byte
			hasCts, neg, wide := false, false, false
			for _, s := range m.samples {
				hasCts = hasCts || s.cts != 0
				neg = neg || s.cts < 0
				wide = wide || s.cts > math.MaxInt32
			}
			if hasCts || r.Intn(4) == 0 {
				ver := r.Intn(2)
				if neg {
					ver = 1
				} else if wide {
					ver = 0
				}
				ctts = full("ctts", ver, rle(n, func(i int) uint32 { return uint32(m.samples[i].cts) }))
			}
			var stss []byte
			if m.typ == av.H264 {
				all := true
				var ents []byte
				cnt := 0
				for i, s := range m.samples {
					all = all && s.sync
					if s.sync {
						ents = append(ents, be(4, uint64(i+1))...)
						cnt++
					}
				}
				if !all || n == 0 || r.Intn(2) == 0 {
					stss = full("stss", 0, be(4, uint64(cnt)), ents)
				}
			}
			uni := n > 0
			for _, s := range m.samples {
				uni = uni && s.size == m.samples[0].size && s.size != 0
			}
			var stsz []byte
			if uni && r.Intn(4) != 0 {
				stsz = full("stsz", 0, be(4, uint64(m.samples[0].size)), be(4, uint64(n)))
			} else {
				var b []byte
				for _, s := range m.samples {
					b = append(b, be(4, uint64(s.size))...)
				}
				stsz = full("stsz", 0, be(4, 0), be(4, uint64(n)), b)
			}
			var stco, stsc []byte
			nc, ne, prev := 0, 0, -1
			compress := r.Intn(3) != 0
			for _, ch := range chunks {
				if ch.m != m {
					continue
				}
				nc++
				stco = append(stco, be(4, uint64(int64(mdatOff+ch.off)+hole))...)
				if ch.n != prev || !compress {
					stsc = append(stsc, cat(be(4, uint64(nc)), be(4, uint64(ch.n)), be(4, 1))...)
					ne++
				}
				prev = ch.n
			}
			stbl := oBox("stbl", shuffle(stsd, stts, ctts, stss, stsz, full("stsc", 0, be(4, uint64(ne)), stsc), full("stco", 0, be(4, uint64(nc)), stco), extra()))
			hd, sub := full("vmhd", 0, be(8, 0)), "vide"
			if m.typ == av.AAC {
				hd, sub = full("smhd", 0, be(4, 0)), "soun"
			}
			minf := oBox("minf", shuffle(hd, oBox("dinf", full("dref", 0, be(4, 1), oBox("url ", be(4, 1)))), stbl, extra()))
			mdia := oBox("mdia", shuffle(full("mdhd", 0, be(8, 0), be(4, uint64(m.ts)), be(4, uint64(dur)), be(2, 0x55c4), be(2, 0)),
				full("hdlr", 0, be(4, 0), []byte(sub), be(12, 0), []byte("h\x00")), minf, extra()))
			traks = append(traks, oBox("trak", shuffle(full("tkhd", 0, be(8, 0), be(4, uint64(ti+1)), be(4, 0), be(4, uint64(dur)), be(8, 0), be(8, 0), matrix, be(8, 0)), mdia, extra())))
		}
		foreign()
		body := [][]byte{full("mvhd", 0, be(8, 0), be(4, 1000), be(4, 0), be(4, 0x10000), be(2, 0x100), be(10, 0), matrix, be(24, 0), be(4, uint64(len(ms)+1)))}
		body = append(body, traks...)
		body = append(body, extra())
		return oBox("moov", shuffle2(r, body)...)
	}
	var pre []byte
	if r.Intn(3) != 0 {
		pre = oBox("ftyp", []byte("isom"), be(4, 0), []byte("isomavc1"))
	}
	pre = cat(pre, extra())
	mdatLen := int64(len(mdat)) + hole
	mdatHdr := cat(be(4, uint64(8+mdatLen)), []byte("mdat"))
	if r.Intn(4) == 0 || mdatLen+8 > math.MaxUint32 {
		mdatHdr = cat(be(4, 1), []byte("mdat"), be(8, uint64(16+mdatLen)))
	}
	if r.Intn(2) == 0 { // moov first: build twice to learn its size
		s := r.Int63()
		r = rand.New(rand.NewSource(s))
		n := len(buildMoov(0))
		r = rand.New(rand.NewSource(s))
		base := len(pre) + n + len(mdatHdr)
		file = cat(pre, buildMoov(base), mdatHdr, mdat)
		holeAt = base
		for _, m := range ms {
			for i := range m.samples {
				m.samples[i].off += int64(base)
			}
		}
	} else {
		base := len(pre) + len(mdatHdr)
		if r.Intn(8) == 0 {
			// nothing
		}
		file = cat(pre, mdatHdr, mdat, buildMoov(base), extra())
		holeAt = base
		for _, m := range ms {
			for i := range m.samples {
				m.samples[i].off += int64(base)
			}
		}
	}
	c.Count("tracks of other codecs", skipped)
	for _, m := range ms {
		desc += fmt.Sprintf("%d: %d samples at %d/s; ", m.typ, len(m.samples), m.ts)
	}
	return
}

func shuffle2(r *rand.Rand, bb [][]byte) [][]byte {
	// tracks keep their order (ids follow it); other boxes move freely
	if r.Intn(2) == 0 {
		return bb
	}
	k := 1 + r.Intn(len(bb))
	return append(append([][]byte{}, bb[1:k]...), append([][]byte{bb[0]}, bb[k:]...)...)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// demuxState follows the expected position of every track.  After a seek the
// start of a track may be known only to a few candidate samples.
type demuxState struct {
	ms   []*mp4Model
	pos  [][]int
	held []heldData
}

func (s *demuxState) timeAt(k int) (time.Duration, bool) {
	m := s.ms[k]
	p := s.pos[k][len(s.pos[k])-1] // candidates ascend
	if p >= len(m.samples) {
		return 0, false
	}
	return tickTime(m.samples[p].dts, m.ts), true
}

type heldData struct{ got, want []byte }

// unchanged checks that packets returned earlier still hold their samples.
func (s *demuxState) unchanged(c *C) {
	for i, h := range s.held {
		if !bytes.Equal(h.got, h.want) {
			c.Failf("packet %d of %d changed after it was returned", i, len(s.held))
		}
	}
}

// matches compares one packet with one stored sample.
func (m *mp4Model) matches(k, i int, p av.Packet) string {
	if i >= len(m.samples) {
		return fmt.Sprintf("packet %s after the last sample of its track", pktStr(p))
	}
	w := m.samples[i]
	if !bytes.Equal(p.Data, m.data[i]) {
		return fmt.Sprintf("track %d sample %d: wrong bytes (%d, want %d)", k, i, len(p.Data), len(m.data[i]))
	}
	if wt := tickTime(w.dts, m.ts); !near(p.Time, wt) {
		return fmt.Sprintf("track %d sample %d: time %v, stored %v", k, i, p.Time, wt)
	}
	if wc := tickTime(w.cts, m.ts); !near(p.CTime, wc) {
		return fmt.Sprintf("track %d sample %d: composition offset %v, stored %v", k, i, p.CTime, wc)
	}
	if p.IsKeyFrame != (w.sync && m.typ == av.H264) {
		return fmt.Sprintf("track %d sample %d: key frame %v, stored sync %v", k, i, p.IsKeyFrame, w.sync)
	}
	return ""
}

// step checks one ReadPacket result against the model; it returns false at end
// of file.
func (s *demuxState) step(c *C, p av.Packet, err error) bool {
	left := 0
	for k := range s.ms {
		left += len(s.ms[k].samples) - s.pos[k][len(s.pos[k])-1]
	}
	if err != nil {
		if err == io.EOF && left == 0 {
			return false
		}
		c.Failf("ReadPacket: %v with %d samples left (positions %v)", err, left, s.pos)
	}
	bad := ""
	for k, m := range s.ms {
		if m.typ != p.Type {
			continue
		}
		var next []int
		for _, i := range s.pos[k] {
			if d := m.matches(k, i, p); d == "" {
				next = append(next, i+1)
			} else {
				bad += d + "; "
			}
		}
		if len(next) == 0 {
			continue
		}
		for o := range s.ms {
			if t, ok := s.timeAt(o); o != k && ok && t < p.Time-1 {
				c.Failf("track %d sample %d at %v returned before track %d's at %v", k, next[0]-1, p.Time, o, t)
			}
		}
		s.pos[k] = next
		if len(s.held) < 20000 {
			s.held = append(s.held, heldData{p.Data, m.data[next[0]-1]})
		}
		return true
	}
	if bad != "" {
		c.Failf("%s (candidates %v)", bad, s.pos)
	}
	c.Failf("packet of type %d", p.Type)
	return false
}

// covering is the index of the last sample with dts at or before tm.
func (m *mp4Model) covering(tm time.Duration) int {
	a := new(big.Int).Mul(big.NewInt(int64(tm)), big.NewInt(m.ts))
	k := 0
	for i, s := range m.samples {
		if new(big.Int).Mul(big.NewInt(s.dts), big.NewInt(1e9)).Cmp(a) <= 0 {
			k = i
		}
	}
	return k
}

func checkDemux(c *C, file []byte, ms []*mp4Model) {
	var rs io.ReadSeeker = bytes.NewReader(file)
	if c.R.Intn(2) == 0 {
		rs = chopSeeker{bytes.NewReader(file), c.R}
	}
	checkDemuxFrom(c, rs, ms)
}

func checkDemuxFrom(c *C, rs io.ReadSeeker, ms []*mp4Model) {
	r := c.R
	d := mp4.NewDemuxer(rs)
	if r.Intn(3) != 0 {
		ss, err := d.Streams()
		if err != nil {
			c.Failf("Streams: %v", err)
		}
		if len(ss) != len(ms) {
			c.Failf("%d streams for %d tracks", len(ss), len(ms))
		}
		used := map[int]bool{}
		for _, s := range ss {
			desc := fmt.Sprintf("%T", s)
			hit := -1
			for k, m := range ms {
				if used[k] {
					continue
				}
				switch s := s.(type) {
				case *h264.Codec:
					desc = fmt.Sprintf("video codec %dx%d %x", s.W, s.H, s.ConfigBytes)
					if m.typ == av.H264 && s.W == m.w && s.H == m.h && bytes.Equal(s.ConfigBytes, m.conf) {
						hit = k
					}
				case *aac.Codec:
					desc = fmt.Sprintf("audio codec %d Hz %d channels %x", s.Config.SampleRate, s.Config.ChannelLayout.Count(), s.ConfigBytes)
					if m.typ == av.AAC && s.Config.SampleRate == m.rate && s.Config.ChannelLayout.Count() == m.chans && bytes.Equal(s.ConfigBytes, m.asc) {
						hit = k
					}
				}
			}
			if hit < 0 {
				for _, m := range ms {
					desc += fmt.Sprintf("; stored %dx%d %x %d Hz %d channels %x", m.w, m.h, m.conf, m.rate, m.chans, m.asc)
				}
				c.Failf("%s", desc)
			}
			used[hit] = true
		}
	}
	st := &demuxState{ms: ms}
	for range ms {
		st.pos = append(st.pos, []int{0})
	}
	n := 0
	for _, m := range ms {
		n += len(m.samples)
	}
	if n > 0 && r.Intn(4) == 0 { // before anything has been read
		seekDemux(c, d, st)
		c.Count("seeks before reading", 1)
		for k := r.Intn(n + 1); k > 0; k-- {
			p, err := d.ReadPacket()
			if !st.step(c, p, err) {
				break
			}
		}
		rs.Seek(0, 0)
		d = mp4.NewDemuxer(rs)
		for k := range ms {
			st.pos[k] = []int{0}
		}
	}
	n = 0
	for {
		p, err := d.ReadPacket()
		if !st.step(c, p, err) {
			break
		}
		n++
	}
	for i := 0; i < 2; i++ {
		if _, err := d.ReadPacket(); err != io.EOF {
			c.Failf("ReadPacket after the end: %v", err)
		}
	}
	c.Count("packets", n)
	// seeks, from the end of file and from anywhere else
	for q := 0; q < 6 && n > 0; q++ {
		seekDemux(c, d, st)
		steps := r.Intn(n + 5)
		for i := 0; i < steps; i++ {
			p, err := d.ReadPacket()
			if !st.step(c, p, err) {
				break
			}
		}
	}
	st.unchanged(c)
}

// seekDemux seeks somewhere and sets the positions expected from there.
func seekDemux(c *C, d *mp4.Demuxer, st *demuxState) {
	r, ms := c.R, st.ms
	vi := -1
	end := time.Duration(0)
	for k, m := range ms {
		if m.typ == av.H264 && len(m.samples) > 0 && vi < 0 {
			vi = k
		}
		if l := len(m.samples); l > 0 {
			if e := tickTime(m.samples[l-1].dts+m.samples[l-1].delta, m.ts); e > end {
				end = e
			}
		}
	}
	var tm time.Duration
	switch r.Intn(6) {
	case 0:
		tm = 0
	case 1:
		tm = end + time.Duration(r.Int63n(int64(time.Hour)))
	case 2:
		tm = time.Duration(r.Int63n(int64(end) + 1))
	default: // exactly at, just before or just after a sample
		m := ms[r.Intn(len(ms))]
		if len(m.samples) > 0 {
			tm = tickTime(m.samples[r.Intn(len(m.samples))].dts, m.ts) + time.Duration(r.Intn(3)-1)
		}
		if tm < 0 {
			tm = 0
		}
	}
	if err := d.SeekToTime(tm); err != nil {
		c.Failf("SeekToTime(%v): %v", tm, err)
	}
	c.Count("seeks", 1)
	at := tm
	if vi >= 0 {
		k := ms[vi].syncAt(tm)
		st.pos[vi] = []int{k}
		at = tickTime(ms[vi].samples[k].dts, ms[vi].ts)
	}
	// other tracks: the sample covering the video position, known to a
	// nanosecond
	for k, m := range ms {
		if k == vi {
			continue
		}
		st.pos[k] = nil
		for j := m.covering(at - 1); j <= m.covering(at+1); j++ {
			i := j
			if m.typ == av.H264 {
				for i > 0 && i < len(m.samples) && !m.samples[i].sync {
					i--
				}
			}
			if n := len(st.pos[k]); n == 0 || st.pos[k][n-1] != i {
				st.pos[k] = append(st.pos[k], i)
			}
		}
	}
}

// syncAt is the last sync sample at or before the sample covering tm.
func (m *mp4Model) syncAt(tm time.Duration) int {
	k := m.covering(tm)
	for k > 0 && !m.samples[k].sync {
		k--
	}
	return k
}

// readMuxed reads with the oracle what a file muxed for ms stores.
func readMuxed(c *C, ms []*mp4Model, file []byte) (have []*mp4Model) {
	// what the file stores
	top, err := oParseBoxes(file, 0, "file")
	if err != nil {
		c.Failf("%v", err)
	}
	root := &oNode{tag: "file", kids: top}
	moov, err := root.one("moov")
	if err != nil {
		c.Failf("%v", err)
	}
	for _, t := range moov.all("trak") {
		tr, err := oParseTrack(t)
		if err != nil {
			c.Failf("%v", err)
		}
		for _, m := range ms {
			if (m.typ == av.H264) == (tr.stsdTag == "avc1") {
				m.ts = tr.timeScale
				m.samples = tr.samples
				for _, s := range tr.samples {
					m.data = append(m.data, file[s.off:s.off+s.size])
				}
				have = append(have, m)
			}
		}
	}
	return
}

func runC13(x *Ctx) {
	x.Each("muxed", x.N(700, 30000), func(c *C) {
		ms := genCodecSet(c)
		n := []int{1, 2, 10, 60, 200}[c.R.Intn(5)]
		if c.R.Intn(50) == 0 {
			n = 1000 + c.R.Intn(2000)
			c.Count("long files", 1)
		}
		order := genMP4Packets(c, ms, n)
		file := muxMP4(c, ms, order, false)
		have := readMuxed(c, ms, file)
		c.Desc("%d packets of %d codecs", len(order), len(ms))
		checkDemux(c, file, have)
		// and the packets themselves
		d := mp4.NewDemuxer(bytes.NewReader(file))
		idx := map[int]int{}
		for {
			p, err := d.ReadPacket()
			if err == io.EOF {
				break
			}
			if err != nil {
				c.Failf("%v", err)
			}
			for _, m := range ms {
				if m.typ == p.Type {
					w := m.pkts[idx[p.Type]]
					idx[p.Type]++
					if !bytes.Equal(w.Data, p.Data) || w.IsKeyFrame != p.IsKeyFrame {
						c.Failf("packet %s, written %s", pktStr(p), pktStr(w))
					}
					tick := time.Second / time.Duration(m.ts) * 2
					if d := p.Time - (w.Time - m.pkts[0].Time); d > tick || d < -tick {
						c.Failf("packet %s, written %s (first %v)", pktStr(p), pktStr(w), m.pkts[0].Time)
					}
					if d := p.CTime - w.CTime; d > tick || d < -tick {
						c.Failf("packet %s, written %s", pktStr(p), pktStr(w))
					}
				}
			}
		}
		for _, m := range ms {
			if idx[m.typ] != len(m.pkts) {
				c.Failf("%d of %d packets of type %d read back", idx[m.typ], len(m.pkts), m.typ)
			}
		}
		c.Count("muxed files", 1)
		if len(order) > 1 {
			c.Nontrivial(file)
		}
	})
	// recordings of hours: more than 65536 samples in one run of equal
	// durations, chunks and sizes
	x.Each("hours", x.N(6, 60), func(c *C) {
		ms := genCodecSet(c)
		step := []time.Duration{time.Second / 25, time.Second / 50, 20 * time.Millisecond, 1024 * time.Second / 48000}[c.R.Intn(4)]
		n := (66000 + c.R.Intn(8000)) * len(ms)
		size := 1 + c.R.Intn(3)
		key := []int{1, 10, 250}[c.R.Intn(3)]
		var order []av.Packet
		for i := 0; i < n; i++ {
			m := ms[i%len(ms)]
			b := []byte{byte(i), byte(i >> 8), byte(i >> 16)}[:size]
			p := av.Packet{Type: m.typ, Time: time.Duration(i/len(ms)) * step, Data: b}
			p.IsKeyFrame = m.typ == av.H264 && len(m.pkts)%key == 0
			m.pkts = append(m.pkts, p)
			order = append(order, p)
		}
		file := muxMP4(c, ms, order, false)
		readMuxed(c, ms, file)
		c.Desc("%d packets of %d codecs every %v", n, len(ms), step)
		checkDemux(c, file, ms)
		c.Count("files of hours", 1)
		c.Nontrivial(file)
	})
	// sample data anywhere within 32-bit chunk offsets
	x.Each("large files", x.N(200, 5000), func(c *C) {
		hole := []int64{1<<31 - 100, 1 << 31, 3 << 30, 1<<32 - 1<<21, c.R.Int63n(1<<32 - 1<<21)}[c.R.Intn(5)]
		file, ms, desc, at := genForeignMP4(c, 30, hole)
		c.Desc("%s%d bytes and %d at %d", desc, len(file), hole, at)
		checkDemuxFrom(c, &sparseSeeker{b: file, at: int64(at), hole: hole}, ms)
		c.Count("large files", 1)
		c.Nontrivial(file)
	})
	x.Each("foreign", x.N(2500, 100000), func(c *C) {
		file, ms, desc, _ := genForeignMP4(c, 120, 0)
		c.Desc("%s%d bytes", desc, len(file))
		checkDemux(c, file, ms)
		c.Count("foreign files", 1)
		n := 0
		for _, m := range ms {
			n += len(m.samples)
		}
		if n > 1 {
			c.Nontrivial(file)
		}
		c.Sample("%s%d bytes", desc, len(file))
	})
}

// ------------------------------------------------------------ C14

// driveMP4 reads b as MP4 until it ends, watching every call.
func driveMP4(c *C, b []byte, measure bool) {
	lim := uint64(2<<20 + 64*len(b))
	call := func(what string, f func() error) error {
		var a0 uint64
		if measure {
			a0 = allocBytes()
		}
		err := f()
		if measure {
			if d := allocBytes() - a0; d > lim {
				c.Failf("%s allocated %d bytes for a file of %d", what, d, len(b))
			}
		}
		return err
	}
	d := mp4.NewDemuxer(bytes.NewReader(b))
	var err error
	if c.R.Intn(4) != 0 {
		err = call("Streams", func() error { _, e := d.Streams(); return e })
	}
	read := func(max int) {
		for i := 0; i < max; i++ {
			var p av.Packet
			err = call("ReadPacket", func() (e error) { p, e = d.ReadPacket(); return })
			if err != nil {
				c.Count("errors", 1)
				return
			}
			c.Count("packets read", 1)
			if len(p.Data) > len(b) {
				c.Failf("packet of %d bytes from a file of %d", len(p.Data), len(b))
			}
		}
	}
	read(c.R.Intn(600))
	for i := 0; i < 3; i++ {
		tm := []time.Duration{0, -time.Hour, time.Duration(c.R.Int63n(int64(time.Minute))), time.Duration(c.R.Int63n(1 << 62))}[c.R.Intn(4)]
		if call("SeekToTime", func() error { return d.SeekToTime(tm) }) == nil {
			c.Count("hostile seeks", 1)
		}
		read(c.R.Intn(100))
		d.CurrentTime()
	}
	c.State("outcome", fmt.Sprint(err))
}

func validMP4(c *C, small bool) []byte {
	n := 30
	if small {
		n = 4
	}
	if c.R.Intn(2) == 0 {
		f, _, _, _ := genForeignMP4(c, n, 0)
		return f
	}
	ms := genCodecSet(c)
	return muxMP4(c, ms, genMP4Packets(c, ms, c.R.Intn(n)), false)
}

// tableFields lists the offsets of the 32-bit words of the header and table
// boxes of a file, the places where a forged count, size or offset sits.
func tableFields(b []byte) (r []int) {
	var walk func(ns []*oNode)
	walk = func(ns []*oNode) {
		for _, n := range ns {
			if n.tag == "mdat" {
				continue
			}
			r = append(r, n.off, n.off+4)
			if len(n.kids) > 0 {
				walk(n.kids)
				continue
			}
			for p := n.off + 8; p+4 <= n.off+n.size && p < n.off+8+80; p += 4 {
				r = append(r, p)
			}
		}
	}
	if top, err := oParseBoxes(b, 0, ""); err == nil {
		walk(top)
	}
	return
}

func runC14(x *Ctx) {
	x.Each("mutants", x.N(20000, 600000), func(c *C) {
		b := validMP4(c, c.R.Intn(2) == 0)
		if c.R.Intn(2) == 0 { // aim at the tables rather than the payload
			if f := tableFields(b); len(f) > 0 {
				for k := 1 + c.R.Intn(3); k > 0; k-- {
					p := f[c.R.Intn(len(f))]
					v := []uint32{0, 1, 2, 7, 8, 9, 0xffffffff, 0x7fffffff, 0x80000000, uint32(len(b)), uint32(len(b) + 1), c.R.Uint32(), 0x10000000}[c.R.Intn(13)]
					binary.BigEndian.PutUint32(b[p:], v)
				}
				c.Count("field forgeries", 1)
			}
		} else {
			b = mutate(c.R, b)
		}
		c.Desc("%s", shortHex(b))
		driveMP4(c, b, false)
		c.Count("mutants", 1)
		c.Nontrivial(b)
	})
	// boxes removed, duplicated or renamed
	x.Each("structure", x.N(6000, 200000), func(c *C) {
		b := validMP4(c, true)
		top, err := oParseBoxes(b, 0, "")
		if err != nil {
			top = nil
		}
		var rebuild func(ns []*oNode) []byte
		rebuild = func(ns []*oNode) (out []byte) {
			for _, n := range ns {
				var body []byte
				if len(n.kids) > 0 {
					h := boxHead[n.tag]
					body = cat(n.body[:h], rebuild(n.kids))
				} else {
					body = n.body
					if c.R.Intn(12) == 0 {
						body = body[:c.R.Intn(len(body)+1)]
					}
				}
				tag := n.tag
				k := 1
				switch c.R.Intn(14) {
				case 0:
					k = 0
				case 1:
					k = 2
				case 2:
					names := boxNames()
					tag = boxLayout[names[c.R.Intn(len(names))]].tag
				}
				if n.tag == "moov" {
					k, tag = 1, "moov"
				}
				for ; k > 0; k-- {
					out = append(out, oBox(tag, body)...)
				}
			}
			return
		}
		b = rebuild(top)
		c.Desc("%s", shortHex(b))
		driveMP4(c, b, false)
		c.Count("restructured", 1)
		c.Nontrivial(b)
	})
	// memory: measured one at a time
	x.Serial("memory", x.N(2500, 40000), func(c *C) {
		b := validMP4(c, true)
		if f := tableFields(b); len(f) > 0 {
			for k := 1 + c.R.Intn(3); k > 0; k-- {
				p := f[c.R.Intn(len(f))]
				v := []uint32{0xffffffff, 0x7fffffff, 0x80000000, 0x10000000, 0x04000000, c.R.Uint32()}[c.R.Intn(6)]
				binary.BigEndian.PutUint32(b[p:], v)
			}
			c.Count("field forgeries", 1)
		}
		c.Desc("%s", shortHex(b))
		driveMP4(c, b, true)
		c.Nontrivial(b)
	})
	// every truncation point
	x.Each("truncations", x.N(25, 400), func(c *C) {
		b := validMP4(c, true)
		for n := 0; n <= len(b); n++ {
			if len(b) > 6000 && n%7 != 0 {
				continue
			}
			c.Desc("%s cut at %d", shortHex(b), n)
			driveMP4(c, b[:n], false)
			c.Count("truncations", 1)
		}
		c.Nontrivial(b)
	})
	// every kind of box, fragment boxes included, cut at every byte while the
	// boxes around it keep their sizes right
	x.Each("box cuts", x.N(300, 8000), func(c *C) {
		r := c.R
		g := &boxGen{r: r}
		b := encBox(g.fill([]string{"Movie", "MovieFrag"}[r.Intn(2)]), r)
		if r.Intn(3) == 0 {
			b = validMP4(c, true)
		}
		top, err := oParseBoxes(b, 0, "")
		if err != nil { // 64-bit box sizes
			c.Count("unusual layouts skipped", 1)
			return
		}
		var all []*oNode
		var walk func(ns []*oNode)
		walk = func(ns []*oNode) {
			for _, n := range ns {
				all = append(all, n)
				walk(n.kids)
			}
		}
		walk(top)
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		if len(all) > 40 {
			all = all[:40]
		}
		for _, cut := range all {
			if cut.tag == "mdat" {
				continue
			}
			for k := 0; k < len(cut.body); k++ {
				if k > 100 && k < len(cut.body)-4 && r.Intn(50) != 0 {
					continue
				}
				slack := r.Intn(4) == 0 // bytes of the box left over behind it
				var rebuild func(ns []*oNode) []byte
				rebuild = func(ns []*oNode) (out []byte) {
					for _, n := range ns {
						switch {
						case n == cut && slack:
							v := oBox(n.tag, n.body)
							binary.BigEndian.PutUint32(v, uint32(8+k))
							out = append(out, v...)
						case n == cut:
							out = append(out, oBox(n.tag, n.body[:k])...)
						case len(n.kids) > 0:
							out = append(out, oBox(n.tag, n.body[:boxHead[n.tag]], rebuild(n.kids))...)
						default:
							out = append(out, oBox(n.tag, n.body)...)
						}
					}
					return
				}
				d := rebuild(top)
				c.Desc("%s %q at %d cut to %d bytes: %s", shortHex(b), cut.tag, cut.off, k, shortHex(d))
				driveMP4(c, d, false)
				c.Count("boxes cut", 1)
			}
			c.State("box cut", cut.tag)
		}
		c.Nontrivial(b)
	})
	// every 32-bit word of headers and tables, extreme values
	x.Each("fields", x.N(12, 150), func(c *C) {
		b := validMP4(c, true)
		for _, p := range tableFields(b) {
			for _, v := range []uint32{0, 1, 0xffffffff, 0x80000000} {
				d := append([]byte(nil), b...)
				binary.BigEndian.PutUint32(d[p:], v)
				c.Desc("%s word %d = %x", shortHex(b), p, v)
				driveMP4(c, d, false)
				c.Count("field forgeries", 1)
			}
		}
		c.Nontrivial(b)
	})
	// nesting, random bytes, fragment boxes
	x.Each("random", x.N(4000, 100000), func(c *C) {
		r := c.R
		var b []byte
		switch r.Intn(4) {
		case 0:
			b = genBytes(r, r.Intn(200))
		case 1: // random box headers
			for i := 0; i < 10; i++ {
				names := boxNames()
				b = append(b, oBox(boxLayout[names[r.Intn(len(names))]].tag, genBytes(r, r.Intn(60)))...)
			}
			b = oBox("moov", b)
		case 2:
			g := &boxGen{r: r}
			b = mutate(r, encBox(g.fill([]string{"Movie", "MovieFrag"}[r.Intn(2)]), r))
		case 3: // nested descriptors
			d := []byte{}
			for i := 0; i < r.Intn(3000); i++ {
				tag := byte(3 + r.Intn(2))
				pre := make([]byte, 3)
				if tag == 4 {
					pre = make([]byte, 13)
				}
				d = oDescr(tag, 4, cat(pre, d))
				if len(d) > 1<<16 {
					break
				}
			}
			es := oBox("esds", be(4, 0), d)
			b = oBox("moov", oBox("trak", oBox("mdia", oBox("mdhd", make([]byte, 24)), oBox("minf", oBox("stbl", oBox("stsd", be(4, 0), be(4, 1), oBox("mp4a", make([]byte, 28), es)))))))
		}
		c.Desc("%s", shortHex(b))
		driveMP4(c, b, false)
		c.Count("random", 1)
		c.Nontrivial(b)
	})
}
