package main

import (
	"bytes"
	"encoding/binary"
	"io"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
)

func init() {
	register(&propDef{id: "C10", mul: 10,
		rule: "random packet and tag sequences are muxed, the file parsed by an independent strict FLV parser and demuxed back through readers that split bytes arbitrarily; files with foreign features from an independent writer are demuxed and compared with the packets they hold. Non-trivial = at least 3 packets of 2 types; distinct by file bytes",
		must: []string{"muxed packets", "foreign files", "tags", "skipped foreign tags", "ext timestamps", "amf3 metadata", "refused packets", "long files"},
		run:  runC10})
	register(&propDef{id: "C11", mul: 6, level: "fault_enumeration",
		rule: "for generated files every byte position is tried as a truncation point of the demuxer's input and as a failure point of the muxer's output (exhaustively for small files); plus mutated and random inputs under panic, allocation and read-after-end monitors. Non-trivial = a fault strictly inside the file; distinct by (file, position)",
		must: []string{"truncations", "write faults", "hostile", "files", "complete prefixes"},
		run:  runC11})
}

func genPackets(c *C, n, maxSize int) (pkts []av.Packet) {
	var last int64
	if c.R.Intn(6) == 0 {
		last = 0xffffff - int64(c.R.Intn(100))
	}
	for i := 0; i < n; i++ {
		size := genSize(c.R)
		if size > maxSize {
			size = c.R.Intn(maxSize + 1)
		}
		p := genPacket(c.R, i, &last, size)
		if c.R.Intn(10) == 0 { // sub-millisecond parts are truncated
			p.Time += time.Duration(c.R.Intn(1000)) * time.Microsecond
			if p.Time >= (1<<32)*time.Millisecond {
				p.Time = 0
			}
		}
		pkts = append(pkts, p)
	}
	return
}

func typesOf(pkts []av.Packet) int {
	m := map[int]bool{}
	for _, p := range pkts {
		m[p.Type] = true
	}
	return len(m)
}

// readAllPackets drains ReadPacket.
func readAllPackets(read func() (av.Packet, error), max int) (pkts []av.Packet, err error) {
	for len(pkts) < max {
		var p av.Packet
		if p, err = read(); err != nil {
			return
		}
		pkts = append(pkts, p)
	}
	return
}

func checkPackets(c *C, what string, got, want []av.Packet) {
	for i := range got {
		if i >= len(want) {
			c.Failf("%s: extra packet %d: %s", what, i, pktStr(got[i]))
		}
		if d := pktDiff(got[i], wantRead(want[i])); d != "" {
			c.Failf("%s: packet %d of %d: %s", what, i, len(want), d)
		}
	}
	if len(got) < len(want) {
		c.Failf("%s: only %d of %d packets; missing first %s", what, len(got), len(want), pktStr(want[len(got)]))
	}
}

func runC10(x *Ctx) {
	one := func(c *C, pkts []av.Packet) {
		var buf bytes.Buffer
		m := flv.NewMuxer(discardStreams{&buf})
		m.HasVideo, m.HasAudio = c.R.Intn(2) == 0, c.R.Intn(2) == 0
		m.Publishing = c.R.Intn(3) == 0
		for i, p := range pkts {
			q := p
			q.Data = append([]byte(nil), p.Data...)
			if err := m.WritePacket(q); err != nil {
				c.Failf("write of packet %d %s: %v", i, pktStr(p), err)
			}
			if !bytes.Equal(q.Data, p.Data) {
				c.Failf("writing changed the caller's payload")
			}
		}
		file := buf.Bytes()
		if len(pkts) == 0 {
			if err := m.WriteFileHeader(); err != nil {
				c.Failf("header: %v", err)
			}
			file = buf.Bytes()
		}
		f, err := oParseFLV(file)
		if err != nil {
			c.Failf("independent parser: %v", err)
		}
		want := uint8(0)
		if m.HasVideo {
			want |= 1
		}
		if m.HasAudio {
			want |= 4
		}
		if f.flags != want {
			c.Failf("file flags %#x, want %#x", f.flags, want)
		}
		if len(f.tags) != len(pkts) {
			c.Failf("%d tags for %d packets", len(f.tags), len(pkts))
		}
		for i, t := range f.tags {
			if err := oTagMatches(t.typ, t.ts, t.body, pkts[i], m.Publishing); err != nil {
				c.Failf("tag %d for %s: %v", i, pktStr(pkts[i]), err)
			}
			if t.sid != 0 {
				c.Failf("tag %d has stream id %d", i, t.sid)
			}
			if t.ts >= 1<<24 {
				c.Count("ext timestamps", 1)
			}
		}
		var flags = -1
		rd := &chopReader{b: append([]byte(nil), file...), r: c.R, mode: c.R.Intn(4)}
		d := flv.NewDemuxer(rd)
		d.LogHeaderEvent = func(f uint8) { flags = int(f) }
		got, err := readAllPackets(d.ReadPacket, len(pkts)+5)
		checkPackets(c, "demux", got, pkts)
		if err != io.EOF {
			c.Failf("end of file reported as %v", err)
		}
		if flags != int(want) {
			c.Failf("header event flags %d, want %d", flags, want)
		}
		c.Count("muxed packets", len(pkts))
		if len(pkts) >= 3 && typesOf(pkts) >= 2 {
			c.Nontrivial(string(file))
		}
	}
	x.Each("packets", x.N(1500, 30000), func(c *C) {
		pkts := genPackets(c, c.R.Intn(24), 140000)
		c.Desc("%d packets", len(pkts))
		one(c, pkts)
		if len(pkts) > 0 {
			c.Sample("%d packets, first %s", len(pkts), pktStr(pkts[0]))
		}
	})
	// many small packets, all kept until the end, and big metadata
	x.EachLim("long", x.N(16, 300), 8, defaultCaseLimit, func(c *C) {
		pkts := genPackets(c, 1500+c.R.Intn(3000), 20+c.R.Intn(200))
		for i := 0; i < 3; i++ {
			pkts[c.R.Intn(len(pkts))] = av.Packet{Type: av.Metadata, Data: bigMeta(c.R), Time: time.Duration(i) * time.Second}
		}
		c.Desc("%d packets", len(pkts))
		one(c, pkts)
		c.Count("long files", 1)
	})
	// sizes up to the 24-bit limit
	big := []int{1<<24 - 1 - 5, 1<<24 - 1 - 6, 1 << 23, 1<<20 + 1, 1 << 16, 4 << 20}
	x.EachLim("big", len(big), 3, defaultCaseLimit, func(c *C) {
		var last int64
		p := av.Packet{Type: av.H264, IsKeyFrame: true, Data: genBytes(c.R, big[c.Idx])}
		q := genPacket(c.R, 1, &last, 10)
		one(c, []av.Packet{p, q, {Type: av.AAC, Data: genBytes(c.R, big[c.Idx]), Time: time.Second}})
		c.Nontrivial(big[c.Idx])
	})
	// payloads that no tag can hold are refused and leave the file as it was
	x.EachLim("too big", 6, 3, defaultCaseLimit, func(c *C) {
		var buf bytes.Buffer
		m := flv.NewMuxer(discardStreams{&buf})
		var last int64
		p, q := genPacket(c.R, 1, &last, 10), genPacket(c.R, 2, &last, 10)
		big := av.Packet{Type: av.H264, IsKeyFrame: true, Data: make([]byte, 1<<24-5+c.Idx/2)}
		if c.Idx%2 == 1 {
			big = av.Packet{Type: av.AAC, Data: make([]byte, 1<<24-2+c.Idx/2)}
		}
		for i, w := range []av.Packet{p, big, q} {
			err := m.WritePacket(w)
			if (err != nil) != (i == 1) {
				c.Failf("write of a packet of %d bytes: %v", len(w.Data), err)
			}
		}
		f, err := oParseFLV(buf.Bytes())
		if err != nil || len(f.tags) != 2 {
			c.Failf("file after a refused packet: %v, %+v", err, f)
		}
		d := flv.NewDemuxer(&chopReader{b: buf.Bytes(), r: c.R, mode: 2})
		got, err := readAllPackets(d.ReadPacket, 5)
		checkPackets(c, "file after a refused packet", got, []av.Packet{p, q})
		c.Count("refused packets", 1)
	})
	// every power of two and neighbours as timestamp and composition time
	x.Each("times", 32*3, func(c *C) {
		ms := int64(1)<<uint(c.Idx/3) + int64(c.Idx%3) - 1
		if ms > 0xffffffff {
			ms = 0xffffffff
		}
		var pkts []av.Packet
		for b := uint(0); b < 23; b++ {
			for _, ct := range []int64{1 << b, -(1 << b), 1<<b - 1, -(1 << b) - 1} {
				if ct < -(1<<23) || ct >= 1<<23 {
					continue
				}
				pkts = append(pkts, av.Packet{Type: av.H264, IsKeyFrame: b%2 == 0, Time: time.Duration(ms) * time.Millisecond, CTime: time.Duration(ct) * time.Millisecond, Data: []byte{byte(b)}})
			}
		}
		pkts = append(pkts, av.Packet{Type: av.AAC, Time: time.Duration(ms) * time.Millisecond}, av.Packet{Type: av.Metadata, Data: encMeta(genMeta(c.R)), Time: time.Duration(ms) * time.Millisecond})
		one(c, pkts)
	})
	// tags with every header field
	x.Each("tags", x.N(1500, 20000), func(c *C) {
		var buf bytes.Buffer
		m := flv.NewMuxer(discardStreams{&buf})
		var tags []flvio.Tag
		var last int64
		n := 1 + c.R.Intn(20)
		for i := 0; i < n; i++ {
			size := genSize(c.R)
			if size > 3000 {
				size = c.R.Intn(3000)
			}
			t := genTag(c.R, size, &last)
			t.StreamId = uint32(c.R.Intn(1 << uint(c.R.Intn(25))))
			tags = append(tags, t)
			if err := m.WriteTag(t); err != nil {
				c.Failf("write tag: %v", err)
			}
		}
		f, err := oParseFLV(buf.Bytes())
		if err != nil {
			c.Failf("independent parser: %v", err)
		}
		if len(f.tags) != n {
			c.Failf("%d tags in the file, %d written", len(f.tags), n)
		}
		d := flv.NewDemuxer(&chopReader{b: buf.Bytes(), r: c.R, mode: c.R.Intn(4)})
		for i, w := range tags {
			o := f.tags[i]
			hl := 0
			switch {
			case w.Type == 8 && w.SoundFormat == 10:
				hl = 2
			case w.Type == 8:
				hl = 1
			case w.Type == 9 && (w.VideoFormat == 7 || w.VideoFormat == 12):
				hl = 5
			case w.Type == 9:
				hl = 1
			}
			if o.typ != w.Type || o.ts != w.Time || o.sid != w.StreamId || o.size != len(w.Data)+hl || string(o.body[hl:]) != string(w.Data) {
				c.Failf("tag %d: file has type %d ts %d sid %d size %d, written %+v", i, o.typ, o.ts, o.sid, o.size, w.DebugFields())
			}
			switch w.Type {
			case 8:
				if o.body[0] != w.SoundFormat<<4|w.SoundRate<<2|w.SoundSize<<1|w.SoundType || (hl == 2 && o.body[1] != w.AACPacketType) {
					c.Failf("tag %d: audio header %x for %+v", i, o.body[:hl], w.DebugFields())
				}
			case 9:
				ct := uint32(w.CTime) & 0xffffff
				if o.body[0] != w.FrameType<<4|w.VideoFormat || (hl == 5 && (o.body[1] != w.AVCPacketType || o.body[2] != byte(ct>>16) || o.body[3] != byte(ct>>8) || o.body[4] != byte(ct))) {
					c.Failf("tag %d: video header %x for %+v", i, o.body[:hl], w.DebugFields())
				}
			}
			g, err := d.ReadTag()
			if err != nil {
				c.Failf("read tag %d of %d: %v", i, n, err)
			}
			if !tagsEqual(g, w) {
				c.Failf("tag %d: read %v, written %v", i, g.DebugFields(), w.DebugFields())
			}
		}
		if _, err := d.ReadTag(); err != io.EOF {
			c.Failf("end of file reported as %v", err)
		}
		c.Count("tags", n)
		c.Nontrivial(buf.String())
	})
	// files from another writer
	x.Each("foreign", x.N(2500, 30000), func(c *C) {
		file, want, skipped := genForeignFLV(c, c.R.Intn(25), 2000)
		d := flv.NewDemuxer(&chopReader{b: append([]byte(nil), file...), r: c.R, mode: c.R.Intn(4)})
		got, err := readAllPackets(d.ReadPacket, len(want)+5)
		checkPackets(c, "foreign file", got, want)
		if err != io.EOF {
			c.Failf("end of file reported as %v", err)
		}
		c.Count("foreign files", 1)
		c.Count("skipped foreign tags", skipped)
		if len(want) >= 3 {
			c.Nontrivial(string(file))
		}
		c.Sample("foreign file of %d bytes, %d packets, %d other tags", len(file), len(want), skipped)
	})
}

// genForeignFLV writes a conforming file as another tool might.
func genForeignFLV(c *C, n, maxSize int) (file []byte, want []av.Packet, skipped int) {
	r := c.R
	ext := 0
	if r.Intn(3) == 0 {
		ext = r.Intn(300)
	}
	hs := uint32(9 + ext)
	file = append(file, 'F', 'L', 'V', 1, []byte{0, 1, 4, 5}[r.Intn(4)], byte(hs>>24), byte(hs>>16), byte(hs>>8), byte(hs))
	file = append(file, genBytes(r, ext)...)
	file = append(file, 0, 0, 0, 0)
	var last int64
	put := func(typ uint8, ts uint32, body []byte) {
		prev := uint32(len(body) + 11)
		if r.Intn(10) == 0 {
			prev = 0 // some writers leave it unset
		}
		file = oAppendTag(file, typ, ts, 0, body, prev)
	}
	for i := 0; i < n; i++ {
		size := r.Intn(r.Intn(maxSize) + 1)
		data := genBytes(r, size)
		last = genTimeMs(r, last)
		ts := uint32(last)
		tm := time.Duration(ts) * time.Millisecond
		switch r.Intn(16) {
		case 0, 1, 2:
			put(8, ts, append([]byte{0xa0 | byte(r.Intn(16)), 1}, data...))
			want = append(want, av.Packet{Type: av.AAC, Time: tm, Data: data})
		case 3:
			put(8, ts, append([]byte{0xa0 | byte(r.Intn(16)), 0}, data...))
			want = append(want, av.Packet{Type: av.AACDecoderConfig, Data: data})
		case 4:
			put(9, ts, append([]byte{0x17, 0, 0, 0, 0}, data...))
			want = append(want, av.Packet{Type: av.H264DecoderConfig, Data: data})
		case 5, 6, 7, 8:
			ct := genCTime(r)
			ft := byte(1 + r.Intn(3))
			put(9, ts, append([]byte{ft<<4 | 7, 1, byte(ct >> 16), byte(ct >> 8), byte(ct)}, data...))
			want = append(want, av.Packet{Type: av.H264, IsKeyFrame: ft == 1, Time: tm, CTime: time.Duration(ct) * time.Millisecond, Data: data})
		case 9, 10: // metadata in its usual forms
			vs := genMeta(r)
			if r.Intn(2) == 0 {
				vs = vs[:1]
			}
			var b []byte
			if r.Intn(3) == 0 {
				b = aEncode(b, &aVal{kind: aStr, s: "@setDataFrame"})
			}
			b = aEncode(b, &aVal{kind: aStr, s: "onMetaData"})
			if r.Intn(20) == 0 { // none: as an empty object
				vs = nil
				c.Count("metadata without values", 1)
			}
			b = append(b, encMeta(vs)...)
			typ := uint8(18)
			switch r.Intn(8) {
			case 0:
				typ = 15
				b = append([]byte{0}, b...)
			case 1: // as AMF3 values
				typ = 15
				e := &a3enc{}
				if r.Intn(3) == 0 {
					e.val(&a3val{kind: 6, s: "@setDataFrame"})
				}
				e.val(&a3val{kind: 6, s: "onMetaData"})
				for i := range vs {
					var v *a3val
					v, vs[i] = a3FromAMF0(r, vs[i])
					e.val(v)
				}
				b = e.b
				c.Count("amf3 metadata", 1)
			}
			put(typ, ts, b)
			if len(vs) == 0 {
				vs = []*aVal{{kind: aObj}}
			}
			want = append(want, av.Packet{Type: av.Metadata, Time: tm, Data: encMeta(vs)})
		case 11: // other script data
			name := []string{"onCuePoint", "onTextData", "onLastSecond", "|RtmpSampleAccess"}[r.Intn(4)]
			put(18, ts, append(aEncode(nil, &aVal{kind: aStr, s: name}), encMeta(genMeta(r))...))
			skipped++
		case 12: // other audio codecs
			f := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 15}[r.Intn(12)]
			put(8, ts, append([]byte{f<<4 | byte(r.Intn(16))}, data...))
			skipped++
		case 13: // other video codecs
			f := []byte{1, 2, 3, 4, 5, 6}[r.Intn(6)]
			put(9, ts, append([]byte{byte(1+r.Intn(4))<<4 | f}, data...))
			skipped++
		case 14: // end of sequence
			put(9, ts, []byte{0x17, 2, 0, 0, 0})
			skipped++
		case 15: // other tag types, script data that is not AMF
			if r.Intn(2) == 0 {
				put([]uint8{0, 1, 7, 10, 16, 17, 19, 22, 40, 255}[r.Intn(10)], ts, data)
			} else {
				put(18, ts, append([]byte{0xff}, data...))
			}
			skipped++
		}
	}
	return
}

func runC11(x *Ctx) {
	// exhaustive truncation
	x.Each("truncate", x.N(60, 600), func(c *C) {
		file, want, _ := genForeignFLV(c, 3+c.R.Intn(8), 120)
		// positions after which packet i is complete (with and without back-pointer)
		ends, bodies := packetEnds(file)
		if len(ends) != len(want) {
			c.Failf("harness: %d packet tags, %d packets", len(ends), len(want))
		}
		bounds := map[int]bool{0: true}
		for p := 4 + int(binary.BigEndian.Uint32(file[5:])); ; p += 15 + (int(file[p+1])<<16 | int(file[p+2])<<8 | int(file[p+3])) {
			bounds[p] = true
			if p == len(file) {
				break
			}
		}
		for cut := 0; cut <= len(file); cut++ {
			c.Desc("cut at %d of %d: %x", cut, len(file), file)
			rd := &chopReader{b: append([]byte(nil), file[:cut]...), r: c.R, mode: cut % 4}
			if c.R.Intn(5) == 0 {
				rd.endErr = io.ErrClosedPipe
			}
			d := flv.NewDemuxer(rd)
			got, err := readAllPackets(d.ReadPacket, len(want)+5)
			if err == nil {
				c.Failf("cut at %d of %d: no error after %d packets", cut, len(file), len(got))
			}
			min, max := 0, 0
			for i := range ends {
				if ends[i] <= cut {
					min = i + 1
				}
				if bodies[i] <= cut {
					max = i + 1
				}
			}
			if rd.endErr == nil {
				if clean := bounds[cut]; clean != (err == io.EOF) {
					c.Failf("cut at %d of %d, between tags %v: the error is %v", cut, len(file), clean, err)
				} else if clean {
					c.Count("clean ends", 1)
				}
			}
			if len(got) < min || len(got) > max {
				c.Failf("cut at %d of %d: %d packets, %d tags lie before the cut", cut, len(file), len(got), min)
			}
			for i := range got {
				if df := pktDiff(got[i], wantRead(want[i])); df != "" {
					c.Failf("cut at %d of %d: packet %d: %s", cut, len(file), i, df)
				}
			}
			if _, err := d.ReadPacket(); err == nil {
				c.Failf("cut at %d: a packet after the error", cut)
			}
			c.Count("truncations", 1)
			c.Count("complete prefixes", len(got))
			if cut > 13 && cut < len(file) {
				c.Nontrivial(cut, string(file))
			}
		}
		c.Count("files", 1)
		c.Sample("file of %d bytes, %d packets, every truncation point", len(file), len(want))
	})
	// exhaustive write faults
	x.Each("writefault", x.N(40, 400), func(c *C) {
		pkts := genPackets(c, 2+c.R.Intn(8), 100)
		var full bytes.Buffer
		m := flv.NewMuxer(discardStreams{&full})
		for _, p := range pkts {
			if err := m.WritePacket(p); err != nil {
				c.Failf("write: %v", err)
			}
		}
		for k := 0; k <= full.Len(); k++ {
			fw := &failWriter{left: k, err: io.ErrNoProgress}
			m := flv.NewMuxer(discardStreams{fw})
			var err error
			for _, p := range pkts {
				if err = m.WritePacket(p); err != nil {
					break
				}
			}
			if k < full.Len() && err == nil {
				c.Failf("the output failed after %d of %d bytes but no write reported it", k, full.Len())
			}
			if k == full.Len() && err != nil {
				c.Failf("spurious write error %v", err)
			}
			if !bytes.Equal(fw.b, full.Bytes()[:len(fw.b)]) || len(fw.b) != k {
				c.Failf("after a failure at byte %d the output is not the file's prefix (%d bytes)", k, len(fw.b))
			}
			c.Count("write faults", 1)
			if k > 0 && k < full.Len() {
				c.Nontrivial("w", k, full.String())
			}
		}
	})
	// hostile files
	x.Serial("hostile", x.N(4000, 60000), func(c *C) {
		var b []byte
		switch c.R.Intn(4) {
		case 0:
			b = append([]byte("FLV\x01\x05\x00\x00\x00\x09\x00\x00\x00\x00"), genBytes(c.R, c.R.Intn(400))...)
			for i := 13; i < len(b); i++ {
				if c.R.Intn(3) > 0 {
					b[i] = byte([]int{0, 0, 8, 9, 18, 15, 1, 0x17, 0xaf, 2, 3}[c.R.Intn(11)])
				}
			}
		case 1:
			b = genBytes(c.R, c.R.Intn(100))
		default:
			f, _, _ := genForeignFLV(c, 1+c.R.Intn(8), 200)
			b = mutate(c.R, f)
		}
		c.Desc("%x", b)
		a0 := allocBytes()
		rd := &chopReader{b: append([]byte(nil), b...), r: c.R, mode: c.Idx % 4}
		d := flv.NewDemuxer(rd)
		got, err := readAllPackets(d.ReadPacket, len(b)+10)
		if err == nil {
			c.Failf("%d packets out of %d bytes and still no error", len(got), len(b))
		}
		for i := 0; i < 3; i++ {
			end := len(rd.b) == 0
			if _, err := d.ReadPacket(); err == nil && end {
				c.Failf("a packet after the input ended")
			}
		}
		if al := allocBytes() - a0; al > 20<<20+600*uint64(len(b)) {
			c.Failf("demuxing %d bytes allocated %d", len(b), al)
		}
		c.Count("hostile", 1)
		c.Nontrivial("h", string(b))
	})
	x.Each("nomem", 50, func(c *C) { // the caller's allocator refuses: the error surfaces
		file, want, _ := genForeignFLV(c, 8, 300)
		d := flv.NewDemuxer(bytes.NewReader(file))
		n, limit := 0, c.R.Intn(8)
		d.Malloc = func(sz int) ([]byte, error) {
			n++
			if n > limit {
				return nil, io.ErrShortBuffer
			}
			return make([]byte, sz), nil
		}
		got, err := readAllPackets(d.ReadPacket, len(want)+5)
		if err == nil {
			c.Failf("allocator failure not reported")
		}
		for i := range got {
			if df := pktDiff(got[i], wantRead(want[i])); df != "" {
				c.Failf("packet %d: %s", i, df)
			}
		}
	})
}

// packetEnds walks a file made by genForeignFLV and returns, for each tag that
// holds a packet, the offset after its back-pointer and after its body.
func packetEnds(b []byte) (ends, bodies []int) {
	hs := int(b[5])<<24 | int(b[6])<<16 | int(b[7])<<8 | int(b[8])
	p := hs + 4
	for p+11 <= len(b) {
		n := int(b[p+1])<<16 | int(b[p+2])<<8 | int(b[p+3])
		body := b[p+11 : p+11+n]
		is := false
		switch b[p] {
		case 8:
			is = body[0]>>4 == 10
		case 9:
			is = body[0]&15 == 7 && body[1] < 2
		case 18, 15:
			q := body
			if b[p] == 15 && body[0] == 6 {
				s := "\x06\x15onMetaData"
				is = strings.HasPrefix(string(body), s) || strings.HasPrefix(string(body), "\x06\x1b@setDataFrame"+s)
				break
			}
			if b[p] == 15 {
				q = body[1:]
			}
			vs, err := aDecodeAll(q)
			if err == nil && len(vs) > 0 && vs[0].kind == aStr && vs[0].s == "@setDataFrame" {
				vs = vs[1:]
			}
			is = err == nil && len(vs) > 0 && vs[0].kind == aStr && vs[0].s == "onMetaData"
		}
		if is {
			ends = append(ends, p+11+n+4)
			bodies = append(bodies, p+11+n)
		}
		p += 11 + n + 4
	}
	return
}
