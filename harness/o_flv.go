package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
)

// ---------------------------------------------------------------- packets

func genTimeMs(r *rand.Rand, prev int64) int64 {
	switch r.Intn(12) {
	case 0:
		return []int64{0, 1, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xff0000, 0xffff}[r.Intn(12)]
	case 1:
		return int64(r.Uint32())
	}
	t := prev + int64(r.Intn(80))
	if t > 0xffffffff {
		t = int64(r.Intn(1000))
	}
	return t
}

func genCTime(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{0, 1, -1, 0x7fffff, -0x800000, 255, 256, -256, 65535, 65536, -65536}[r.Intn(11)]
	case 1:
		return int64(r.Intn(1<<24)) - 1<<23
	}
	return int64(r.Intn(5)) * 40
}

var edgeSizes = []int{0, 1, 2, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 65530, 65531, 65532, 65535, 65536, 65537, 131072}

func genSize(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return edgeSizes[r.Intn(len(edgeSizes))]
	case 1:
		return r.Intn(20000)
	}
	return r.Intn(400)
}

func genMeta(r *rand.Rand) []*aVal {
	n := 1
	if r.Intn(4) == 0 {
		n = 2
	}
	var vs []*aVal
	for i := 0; i < n; i++ {
		k := aObj
		if r.Intn(2) == 0 {
			k = aEcma
		}
		kv := genKV(r, 2, false)
		vs = append(vs, &aVal{kind: k, kv: kv, ecnt: uint32(len(kv))})
	}
	return vs
}

func encMeta(vs []*aVal) (b []byte) {
	for _, v := range vs {
		b = aEncode(b, v)
	}
	return
}

// bigMeta is metadata of more than 64 KB: a key frame index or a long string.
func bigMeta(r *rand.Rand) []byte {
	kv := []aKV{{k: "duration", v: &aVal{kind: aNum, f: float64(r.Intn(10000))}}}
	if r.Intn(3) == 0 {
		kv = append(kv, aKV{k: "comment", v: &aVal{kind: aStr, s: strings.Repeat("long ", 13107+r.Intn(3000))}})
	} else {
		n := 3700 + r.Intn(4000)
		ix := &aVal{kind: aObj}
		for _, k := range []string{"times", "filepositions"} {
			a := &aVal{kind: aStrict}
			for i := 0; i < n; i++ {
				a.arr = append(a.arr, &aVal{kind: aNum, f: float64(i) * 2.5})
			}
			ix.kv = append(ix.kv, aKV{k: k, v: a})
		}
		kv = append(kv, aKV{k: "keyframes", v: ix})
	}
	k := aObj
	if r.Intn(2) == 0 {
		k = aEcma
	}
	return encMeta([]*aVal{{kind: k, kv: kv, ecnt: uint32(len(kv))}})
}

// genPacket makes one packet; payloads start with a unique id where they can.
func genPacket(r *rand.Rand, id int, lastMs *int64, size int) av.Packet {
	data := genBytes(r, size)
	if size >= 4 {
		binary.BigEndian.PutUint32(data, uint32(id))
	}
	*lastMs = genTimeMs(r, *lastMs)
	tm := time.Duration(*lastMs) * time.Millisecond
	switch r.Intn(12) {
	case 0:
		return av.Packet{Type: av.H264DecoderConfig, Data: data, Time: tm}
	case 1:
		return av.Packet{Type: av.AACDecoderConfig, Data: data, Time: tm}
	case 2:
		return av.Packet{Type: av.Metadata, Data: encMeta(genMeta(r)), Time: tm}
	case 3, 4, 5, 6:
		return av.Packet{Type: av.AAC, Data: data, Time: tm}
	}
	return av.Packet{Type: av.H264, IsKeyFrame: r.Intn(4) == 0, Data: data, Time: tm,
		CTime: time.Duration(genCTime(r)) * time.Millisecond}
}

func isSeqHdr(t int) bool { return t == av.H264DecoderConfig || t == av.AACDecoderConfig }

// wantRead is the packet a reader must return for a written one.
func wantRead(p av.Packet) av.Packet {
	if isSeqHdr(p.Type) {
		p.Time = 0
	}
	// times are carried in whole milliseconds
	p.Time = p.Time / time.Millisecond * time.Millisecond
	p.CTime = p.CTime / time.Millisecond * time.Millisecond
	if p.Type != av.H264 {
		p.CTime = 0
		p.IsKeyFrame = false
	}
	p.ASeqHdr, p.VSeqHdr, p.Metadata = nil, nil, nil
	return p
}

func pktStr(p av.Packet) string {
	return fmt.Sprintf("{%s key=%v t=%v ct=%v len=%d %x}", av.PacketTypeString[p.Type], p.IsKeyFrame, p.Time, p.CTime, len(p.Data), head(string(p.Data), 24))
}

// pktDiff compares a read packet with the expected one ("" = equal).
func pktDiff(got, want av.Packet) string {
	if got.Type != want.Type || got.IsKeyFrame != want.IsKeyFrame || got.Time != want.Time || got.CTime != want.CTime {
		return fmt.Sprintf("got %s, want %s", pktStr(got), pktStr(want))
	}
	if len(got.ASeqHdr)+len(got.VSeqHdr)+len(got.Metadata) != 0 {
		return "unexpected header fields on " + pktStr(got)
	}
	if want.Type == av.Metadata {
		a, err1 := aDecodeAll(got.Data)
		b, err2 := aDecodeAll(want.Data)
		if err1 != nil || err2 != nil || !aEqualAll(a, b) {
			return fmt.Sprintf("metadata got %v (%v), want %v", a, err1, b)
		}
		return ""
	}
	if string(got.Data) != string(want.Data) {
		i := 0
		for i < len(got.Data) && i < len(want.Data) && got.Data[i] == want.Data[i] {
			i++
		}
		return fmt.Sprintf("payload differs at byte %d: got %s, want %s", i, pktStr(got), pktStr(want))
	}
	return ""
}

// ---------------------------------------------------------------- independent FLV

type oTag struct {
	typ    uint8
	size   int
	ts     uint32
	sid    uint32
	body   []byte
	prev   uint32
	offset int // of the tag header
	end    int // after the back-pointer
}

type oFile struct {
	flags   uint8
	hdrsize uint32
	tags    []oTag
}

// oParseFLV is a strict FLV parser written from the format's specification.
func oParseFLV(b []byte) (f *oFile, err error) {
	if len(b) < 13 || string(b[:3]) != "FLV" || b[3] != 1 {
		return nil, fmt.Errorf("bad signature %x", head(string(b), 13))
	}
	f = &oFile{flags: b[4], hdrsize: binary.BigEndian.Uint32(b[5:])}
	if f.hdrsize != 9 {
		return nil, fmt.Errorf("header size %d", f.hdrsize)
	}
	if binary.BigEndian.Uint32(b[9:]) != 0 {
		return nil, fmt.Errorf("first back-pointer not zero")
	}
	p := 13
	for p < len(b) {
		if len(b)-p < 11 {
			return nil, fmt.Errorf("truncated tag header at %d", p)
		}
		t := oTag{typ: b[p], offset: p}
		t.size = int(b[p+1])<<16 | int(b[p+2])<<8 | int(b[p+3])
		t.ts = uint32(b[p+7])<<24 | uint32(b[p+4])<<16 | uint32(b[p+5])<<8 | uint32(b[p+6])
		t.sid = uint32(b[p+8])<<16 | uint32(b[p+9])<<8 | uint32(b[p+10])
		if len(b)-p-11 < t.size+4 {
			return nil, fmt.Errorf("truncated tag body at %d (size %d)", p, t.size)
		}
		t.body = b[p+11 : p+11+t.size]
		t.prev = binary.BigEndian.Uint32(b[p+11+t.size:])
		if int(t.prev) != t.size+11 {
			return nil, fmt.Errorf("back-pointer %d after a tag of %d+11 bytes at %d", t.prev, t.size, p)
		}
		p += 11 + t.size + 4
		t.end = p
		f.tags = append(f.tags, t)
	}
	return
}

func oAppendTag(b []byte, typ uint8, ts uint32, sid uint32, body []byte, prev uint32) []byte {
	n := len(body)
	b = append(b, typ, byte(n>>16), byte(n>>8), byte(n), byte(ts>>16), byte(ts>>8), byte(ts), byte(ts>>24),
		byte(sid>>16), byte(sid>>8), byte(sid))
	b = append(b, body...)
	return append(b, byte(prev>>24), byte(prev>>16), byte(prev>>8), byte(prev))
}

// oTagMatches checks a parsed tag against the packet it must carry.
func oTagMatches(typ uint8, ts uint32, body []byte, p av.Packet, publishing bool) error {
	ms := uint32(p.Time / time.Millisecond)
	switch p.Type {
	case av.AAC, av.AACDecoderConfig:
		want := byte(1)
		if p.Type == av.AACDecoderConfig {
			want = 0
		} else if ts != ms {
			return fmt.Errorf("timestamp %d, want %d", ts, ms)
		}
		if typ != 8 || len(body) < 2 || body[0]>>4 != 10 || body[1] != want {
			return fmt.Errorf("not an AAC tag of kind %d: type %d body %x", want, typ, head(string(body), 4))
		}
		if string(body[2:]) != string(p.Data) {
			return fmt.Errorf("audio payload differs (%d vs %d bytes)", len(body)-2, len(p.Data))
		}
	case av.H264, av.H264DecoderConfig:
		if ts != ms {
			return fmt.Errorf("timestamp %d, want %d", ts, ms)
		}
		kind, frame, ct := byte(1), byte(2), int32(p.CTime/time.Millisecond)
		if p.Type == av.H264DecoderConfig {
			kind, frame, ct = 0, 1, 0
		} else if p.IsKeyFrame {
			frame = 1
		}
		if typ != 9 || len(body) < 5 || body[0] != frame<<4|7 || body[1] != kind {
			return fmt.Errorf("not an AVC tag of kind %d frame %d: type %d body %x", kind, frame, typ, head(string(body), 6))
		}
		g := int32(uint32(body[2])<<24|uint32(body[3])<<16|uint32(body[4])<<8) >> 8
		if g != ct {
			return fmt.Errorf("composition time %d, want %d", g, ct)
		}
		if string(body[5:]) != string(p.Data) {
			return fmt.Errorf("video payload differs (%d vs %d bytes)", len(body)-5, len(p.Data))
		}
	case av.Metadata:
		if typ != 18 {
			return fmt.Errorf("metadata in tag type %d", typ)
		}
		if ts != ms {
			return fmt.Errorf("timestamp %d, want %d", ts, ms)
		}
		vs, err := aDecodeAll(body)
		if err != nil {
			return fmt.Errorf("metadata body: %v", err)
		}
		if publishing {
			if len(vs) == 0 || vs[0].kind != aStr || vs[0].s != "@setDataFrame" {
				return fmt.Errorf("published metadata without @setDataFrame: %v", vs)
			}
			vs = vs[1:]
		}
		if len(vs) == 0 || vs[0].kind != aStr || vs[0].s != "onMetaData" {
			return fmt.Errorf("metadata without onMetaData: %v", vs)
		}
		want, _ := aDecodeAll(p.Data)
		if !aEqualAll(vs[1:], want) {
			return fmt.Errorf("metadata %v, want %v", vs[1:], want)
		}
	}
	return nil
}

// ---------------------------------------------------------------- readers/writers

// chopReader returns its bytes in random pieces, sometimes with EOF attached,
// and counts the reads made after the end.
type chopReader struct {
	b       []byte
	r       *rand.Rand
	mode    int // 0 whole, 1 single bytes, 2 random pieces, 3 random with (n, EOF)
	endErr  error
	afterEn int
	reads   int
}

func (c *chopReader) Read(p []byte) (n int, err error) {
	c.reads++
	end := c.endErr
	if end == nil {
		end = io.EOF
	}
	if len(c.b) == 0 {
		c.afterEn++
		if c.afterEn > 10000 {
			panic("code under test keeps reading after the end of its input")
		}
		return 0, end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n = len(p)
	switch c.mode {
	case 1:
		n = 1
	case 2, 3:
		n = 1 + c.r.Intn(1+c.r.Intn(5000))
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if c.mode == 3 && len(c.b) == 0 && c.r.Intn(2) == 0 {
		err = end
	}
	return
}

type discardStreams struct{ w io.Writer }

func (d discardStreams) Write(b []byte) (int, error)     { return d.w.Write(b) }
func (d discardStreams) Streams() ([]interface{}, error) { return nil, nil }

// failWriter accepts n bytes and then fails.
type failWriter struct {
	left int
	b    []byte
	err  error
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) <= f.left {
		f.left -= len(p)
		f.b = append(f.b, p...)
		return len(p), nil
	}
	n := f.left
	f.b = append(f.b, p[:n]...)
	f.left = 0
	return n, f.err
}

func tagsEqual(a, b flvio.Tag) bool {
	return a.Type == b.Type && a.SoundFormat == b.SoundFormat && a.SoundRate == b.SoundRate && a.SoundSize == b.SoundSize &&
		a.SoundType == b.SoundType && a.AACPacketType == b.AACPacketType && a.FrameType == b.FrameType && a.VideoFormat == b.VideoFormat &&
		a.AVCPacketType == b.AVCPacketType && a.Time == b.Time && a.CTime == b.CTime && a.StreamId == b.StreamId && string(a.Data) == string(b.Data)
}

// genTag makes a tag of any kind with in-range fields only.
func genTag(r *rand.Rand, size int, lastMs *int64) flvio.Tag {
	*lastMs = genTimeMs(r, *lastMs)
	t := flvio.Tag{Time: uint32(*lastMs), Data: genBytes(r, size)}
	switch r.Intn(3) {
	case 0:
		t.Type = flvio.TAG_AUDIO
		t.SoundFormat = uint8(r.Intn(16))
		if r.Intn(2) == 0 {
			t.SoundFormat = flvio.SOUND_AAC
		}
		t.SoundRate, t.SoundSize, t.SoundType = uint8(r.Intn(4)), uint8(r.Intn(2)), uint8(r.Intn(2))
		if t.SoundFormat == flvio.SOUND_AAC {
			t.AACPacketType = uint8(r.Intn(2))
		}
	case 1:
		t.Type = flvio.TAG_VIDEO
		t.VideoFormat = uint8(r.Intn(16))
		if r.Intn(2) == 0 {
			t.VideoFormat = flvio.VIDEO_H264
		}
		t.FrameType = uint8(1 + r.Intn(4))
		if t.VideoFormat == flvio.VIDEO_H264 || t.VideoFormat == flvio.VIDEO_H265 {
			t.AVCPacketType = uint8(r.Intn(3))
			t.CTime = int32(genCTime(r))
		}
	case 2:
		t.Type = flvio.TAG_AMF0
	}
	return t
}
