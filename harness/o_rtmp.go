package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
)

// ---------------------------------------------------------------- independent RTMP

// rMsg is one RTMP message.
type rMsg struct {
	typ  uint8
	sid  uint32
	ts   uint32
	data []byte
	csid uint32 // informative
	end  int    // stream offset after its last chunk (decoder)
}

func (m rMsg) String() string {
	return fmt.Sprintf("{type %d sid %d ts %d len %d %x}", m.typ, m.sid, m.ts, len(m.data), head(string(m.data), 16))
}

// ---- writer

type rcsState struct {
	have, deltaOK bool
	ts, delta     uint32
	len           int
	typ           uint8
	sid           uint32
	ext           bool
	extval        uint32
	cur           *rMsg
	left          []byte
	off           int
}

// rWriter encodes messages as a conforming chunk stream.
type rWriter struct {
	r       *rand.Rand
	chunk   int
	st      map[uint32]*rcsState
	repeat  bool // repeat extended timestamps on continuation chunks
	out     []byte
	fmts    [4]int
	forms   [4]int
	ext     int
	conts   int
	maxfmt  int // largest header type used
	plain   bool
	deltaEx int
}

func newRWriter(r *rand.Rand) *rWriter {
	return &rWriter{r: r, chunk: 128, st: map[uint32]*rcsState{}, repeat: true, maxfmt: 3}
}

func (w *rWriter) basic(f int, csid uint32) {
	form := 1
	if csid >= 64 {
		form = 2
		if csid >= 320 || w.r.Intn(3) == 0 {
			form = 3
		}
	}
	w.forms[form]++
	switch form {
	case 1:
		w.out = append(w.out, byte(f<<6)|byte(csid))
	case 2:
		w.out = append(w.out, byte(f<<6), byte(csid-64))
	case 3:
		v := csid - 64
		w.out = append(w.out, byte(f<<6)|1, byte(v), byte(v>>8))
	}
}

func (w *rWriter) u24(v uint32) { w.out = append(w.out, byte(v>>16), byte(v>>8), byte(v)) }
func (w *rWriter) u32(v uint32) { w.out = binary.BigEndian.AppendUint32(w.out, v) }

// begin writes the header of m's first chunk; the message must not be empty of
// state: one message at a time per chunk stream.
func (w *rWriter) begin(csid uint32, m *rMsg) {
	s := w.st[csid]
	if s == nil {
		s = &rcsState{}
		w.st[csid] = s
	}
	if s.cur != nil {
		panic("harness: chunk stream busy")
	}
	m.csid = csid
	f := 0
	delta := m.ts - s.ts
	if s.have && s.sid == m.sid && delta < 1<<31 && !w.plain {
		max := 1
		if s.typ == m.typ && s.len == len(m.data) {
			max = 2
			if s.deltaOK && s.delta == delta {
				max = 3
			}
		}
		if max > w.maxfmt {
			max = w.maxfmt
		}
		f = max
		if w.r.Intn(3) == 0 {
			f = w.r.Intn(max + 1)
		}
	}
	w.fmts[f]++
	w.basic(f, csid)
	tv := m.ts
	if f > 0 {
		tv = delta
	}
	if f < 3 {
		t24 := tv
		s.ext = tv >= 0xffffff
		if s.ext {
			t24 = 0xffffff
		}
		s.extval = tv
		w.u24(t24)
	}
	if f < 2 {
		w.u24(uint32(len(m.data)))
		w.out = append(w.out, m.typ)
	}
	if f < 1 {
		w.out = binary.LittleEndian.AppendUint32(w.out, m.sid)
	}
	if s.ext {
		w.u32(s.extval)
		w.ext++
		if f > 0 {
			w.deltaEx++
		}
	}
	s.deltaOK = f > 0
	if f > 0 {
		s.delta = delta
	}
	s.have = true
	s.ts, s.len, s.typ, s.sid = m.ts, len(m.data), m.typ, m.sid
	s.cur, s.left, s.off = m, m.data, 0
	w.body(csid)
}

func (w *rWriter) body(csid uint32) (done bool) {
	s := w.st[csid]
	n := len(s.left)
	if n > w.chunk {
		n = w.chunk
	}
	w.out = append(w.out, s.left[:n]...)
	s.left = s.left[n:]
	s.off += n
	if len(s.left) == 0 {
		s.cur = nil
		return true
	}
	return false
}

// next writes the next chunk of the message in progress on csid.
func (w *rWriter) next(csid uint32) (done bool) {
	s := w.st[csid]
	w.conts++
	w.basic(3, csid)
	if s.ext {
		if w.repeat {
			w.u32(s.extval)
		} else {
			// A peer that does not repeat the field can only be told from one that does
			// by the payload: repeat it where the payload looks the same.
			n := min(len(s.left), w.chunk, 4)
			if bytes.Equal(s.left[:n], be32(s.extval)[:n]) {
				w.u32(s.extval)
			}
		}
	}
	return w.body(csid)
}

func (w *rWriter) busy(csid uint32) bool { s := w.st[csid]; return s != nil && s.cur != nil }

// put writes a whole message.
func (w *rWriter) put(csid uint32, m rMsg) *rMsg {
	w.begin(csid, &m)
	for w.busy(csid) {
		w.next(csid)
	}
	if m.typ == 1 && len(m.data) == 4 && m.sid == 0 {
		w.chunk = int(binary.BigEndian.Uint32(m.data))
	}
	return &m
}

func (w *rWriter) take() []byte {
	b := w.out
	w.out = nil
	return b
}

// ---- reader

// rReader is a strict incremental chunk stream decoder.
type rReader struct {
	r     io.Reader
	n     int
	chunk int
	st    map[uint32]*rcsState
	acc   map[uint32][]byte
	// onChunk, if set, is told about every chunk read
	onChunk func(f int, csid uint32, n int)
}

func newRReader(r io.Reader) *rReader {
	return &rReader{r: r, chunk: 128, st: map[uint32]*rcsState{}, acc: map[uint32][]byte{}}
}

func (d *rReader) take(n int) ([]byte, error) {
	b := make([]byte, n)
	k, err := io.ReadFull(d.r, b)
	d.n += k
	if err == io.EOF && n > 0 {
		err = io.ErrUnexpectedEOF
	}
	return b, err
}

var errProto = errors.New("not a conforming chunk stream")

// Next returns the next complete message; io.EOF only at a chunk boundary with
// no message in progress.
func (d *rReader) Next() (m rMsg, err error) {
	for {
		var b [1]byte
		k, err := io.ReadFull(d.r, b[:])
		d.n += k
		if err != nil {
			for cs, a := range d.acc {
				if a != nil {
					return m, fmt.Errorf("%w: stream ends inside a message on chunk stream %d", errProto, cs)
				}
			}
			return m, err
		}
		f := int(b[0] >> 6)
		csid := uint32(b[0] & 63)
		switch csid {
		case 0:
			x, err := d.take(1)
			if err != nil {
				return m, err
			}
			csid = 64 + uint32(x[0])
		case 1:
			x, err := d.take(2)
			if err != nil {
				return m, err
			}
			csid = 64 + uint32(x[0]) + uint32(x[1])<<8
		}
		s := d.st[csid]
		if s == nil {
			if f != 0 {
				return m, fmt.Errorf("%w: first chunk of chunk stream %d has header type %d", errProto, csid, f)
			}
			s = &rcsState{}
			d.st[csid] = s
		}
		fresh := d.acc[csid] == nil
		if !fresh && f != 3 {
			return m, fmt.Errorf("%w: header type %d inside a message on chunk stream %d", errProto, f, csid)
		}
		var t uint32
		if f < 3 {
			x, err := d.take([]int{11, 7, 3}[f])
			if err != nil {
				return m, err
			}
			t = uint32(x[0])<<16 | uint32(x[1])<<8 | uint32(x[2])
			if f < 2 {
				s.len = int(x[3])<<16 | int(x[4])<<8 | int(x[5])
				s.typ = x[6]
			}
			if f == 0 {
				s.sid = binary.LittleEndian.Uint32(x[7:])
			}
			s.ext = t == 0xffffff
		}
		if s.ext {
			x, err := d.take(4)
			if err != nil {
				return m, err
			}
			v := binary.BigEndian.Uint32(x)
			if f < 3 {
				if v < 0xffffff {
					return m, fmt.Errorf("%w: extended timestamp %d", errProto, v)
				}
				t = v
			} else if v != s.extval {
				return m, fmt.Errorf("%w: extended timestamp %d on a type 3 chunk, %d on the first", errProto, v, s.extval)
			}
			s.extval = v
		}
		switch {
		case f == 0:
			s.ts, s.deltaOK = t, false
		case f < 3:
			s.delta, s.deltaOK = t, true
			s.ts += t
		case fresh:
			if !s.deltaOK {
				return m, fmt.Errorf("%w: type 3 chunk starts a message right after a type 0 one", errProto)
			}
			s.ts += s.delta
		}
		n := s.len - len(d.acc[csid])
		if n > d.chunk {
			n = d.chunk
		}
		x, err := d.take(n)
		if err != nil {
			return m, err
		}
		if d.onChunk != nil {
			d.onChunk(f, csid, n)
		}
		a := d.acc[csid]
		if a == nil {
			a = make([]byte, 0, s.len)
		}
		a = append(a, x...)
		if len(a) < s.len {
			d.acc[csid] = a
			continue
		}
		d.acc[csid] = nil
		m = rMsg{typ: s.typ, sid: s.sid, ts: s.ts, data: a, csid: csid, end: d.n}
		if m.typ == 1 {
			if len(m.data) != 4 || m.data[0]&0x80 != 0 || binary.BigEndian.Uint32(m.data) == 0 {
				return m, fmt.Errorf("%w: set chunk size %x", errProto, m.data)
			}
			d.chunk = int(binary.BigEndian.Uint32(m.data))
		}
		if m.typ <= 6 && m.typ != 4 && (m.csid != 2 || m.sid != 0) {
			return m, fmt.Errorf("%w: control message %d on chunk stream %d, message stream %d", errProto, m.typ, m.csid, m.sid)
		}
		return m, nil
	}
}

// oDecodeChunks decodes a complete captured stream.
func oDecodeChunks(b []byte) (ms []rMsg, err error) {
	d := newRReader(bytes.NewReader(b))
	for {
		m, err := d.Next()
		if err == io.EOF {
			return ms, nil
		}
		if err != nil {
			return ms, fmt.Errorf("after %d messages, offset %d: %w", len(ms), d.n, err)
		}
		ms = append(ms, m)
	}
}

// ---- handshake

var (
	rKeyTail   = []byte{0xF0, 0xEE, 0xC2, 0x4A, 0x80, 0x68, 0xBE, 0xE8, 0x2E, 0x00, 0xD0, 0xD1, 0x02, 0x9E, 0x7E, 0x57, 0x6E, 0xEC, 0x5D, 0x2D, 0x29, 0x80, 0x6F, 0xAB, 0x93, 0xB8, 0xE6, 0x36, 0xCF, 0xEB, 0x31, 0xAE}
	rClientKey = []byte("Genuine Adobe Flash Player 001")
	rServerKey = []byte("Genuine Adobe Flash Media Server 001")
)

func rMAC(key, b []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(b)
	return h.Sum(nil)
}

func rFull(k []byte) []byte { return append(append([]byte(nil), k...), rKeyTail...) }

// rDigestPos is the offset of the digest in a 1536-byte C1/S1; layout 0 keeps
// the digest block first, layout 1 the key block.
func rDigestPos(b []byte, layout int) int {
	o := 8
	if layout == 1 {
		o = 772
	}
	return (int(b[o])+int(b[o+1])+int(b[o+2])+int(b[o+3]))%728 + o + 4
}

func rDigestOf(b []byte, pos int, key []byte) []byte {
	return rMAC(key, append(append([]byte(nil), b[:pos]...), b[pos+32:]...))
}

// rMake1 makes a C1 or S1; layout -1 means no digest.
func rMake1(r *rand.Rand, layout int, key []byte) []byte {
	b := make([]byte, 1536)
	r.Read(b[8:])
	binary.BigEndian.PutUint32(b, r.Uint32())
	if layout >= 0 {
		binary.BigEndian.PutUint32(b[4:], 0x80000702)
		if r.Intn(3) == 0 { // extreme digest offsets
			o := 8 + 764*layout
			for i := 0; i < 4; i++ {
				b[o+i] = []byte{0, 255, 182, 181, 128}[r.Intn(5)]
			}
		}
		p := rDigestPos(b, layout)
		copy(b[p:], rDigestOf(b, p, key))
	}
	return b
}

// rFind1 finds a valid digest in either layout.
func rFind1(b, key []byte) (digest []byte, layout int, ok bool) {
	for l := 0; l < 2; l++ {
		p := rDigestPos(b, l)
		if bytes.Equal(b[p:p+32], rDigestOf(b, p, key)) {
			return b[p : p+32], l, true
		}
	}
	return nil, -1, false
}

// rMake2 makes a digest-carrying C2 or S2 answering a peer's digest.
func rMake2(r *rand.Rand, fullkey, peerDigest []byte) []byte {
	b := make([]byte, 1536)
	r.Read(b)
	copy(b[1504:], rMAC(rMAC(fullkey, peerDigest), b[:1504]))
	return b
}

func rCheck2(b, fullkey, peerDigest []byte) bool {
	return bytes.Equal(b[1504:], rMAC(rMAC(fullkey, peerDigest), b[:1504]))
}

// rHandshakeClient is an independent client's handshake; it checks the answers.
func rHandshakeClient(r *rand.Rand, c io.ReadWriter, layout int) error {
	c1 := rMake1(r, layout, rClientKey)
	if _, err := c.Write(append([]byte{3}, c1...)); err != nil {
		return err
	}
	s := make([]byte, 1+1536*2)
	if _, err := io.ReadFull(c, s); err != nil {
		return err
	}
	if s[0] != 3 {
		return fmt.Errorf("S0 = %d", s[0])
	}
	s1, s2 := s[1:1537], s[1537:]
	sd, _, sok := rFind1(s1, rServerKey)
	if layout >= 0 {
		if !sok {
			return fmt.Errorf("S1 answering a digest C1 (layout %d) has no valid server digest", layout)
		}
		if !rCheck2(s2, rFull(rServerKey), c1[rDigestPos(c1, layout):][:32]) {
			return fmt.Errorf("S2 is not keyed by the C1 digest (layout %d)", layout)
		}
		_, err := c.Write(rMake2(r, rFull(rClientKey), sd))
		return err
	}
	if !bytes.Equal(s2, c1) {
		return fmt.Errorf("S2 differs from a plain C1")
	}
	_, err := c.Write(s1)
	return err
}

// rHandshakeServer is an independent server's; layout -1 answers plainly.
func rHandshakeServer(r *rand.Rand, c io.ReadWriter, layout int) error {
	b := make([]byte, 1537)
	if _, err := io.ReadFull(c, b); err != nil {
		return err
	}
	if b[0] != 3 {
		return fmt.Errorf("C0 = %d", b[0])
	}
	c1 := b[1:]
	cd, _, ok := rFind1(c1, rClientKey)
	if !ok {
		return fmt.Errorf("C1 has no valid client digest")
	}
	s1 := rMake1(r, layout, rServerKey)
	s2 := c1
	if layout >= 0 {
		s2 = rMake2(r, rFull(rServerKey), cd)
	}
	if _, err := c.Write(append(append([]byte{3}, s1...), s2...)); err != nil {
		return err
	}
	c2 := make([]byte, 1536)
	if _, err := io.ReadFull(c, c2); err != nil {
		return err
	}
	if layout >= 0 {
		if !rCheck2(c2, rFull(rClientKey), s1[rDigestPos(s1, layout):][:32]) {
			return fmt.Errorf("C2 is not keyed by the S1 digest (layout %d)", layout)
		}
	} else if !bytes.Equal(c2, s1) {
		return fmt.Errorf("C2 differs from a plain S1")
	}
	return nil
}

// ---- commands

func aS(s string) *aVal  { return &aVal{kind: aStr, s: s} }
func aN(f float64) *aVal { return &aVal{kind: aNum, f: f} }
func aO(kv ...interface{}) *aVal {
	v := &aVal{kind: aObj}
	for i := 0; i+1 < len(kv); i += 2 {
		v.kv = append(v.kv, aKV{kv[i].(string), kv[i+1].(*aVal)})
	}
	return v
}

var aNil = &aVal{kind: aNull}

func cmdData(vs ...*aVal) (b []byte) {
	for _, v := range vs {
		b = aEncode(b, v)
	}
	return
}

func (v *aVal) get(k string) *aVal {
	if v == nil {
		return nil
	}
	for _, e := range v.kv {
		if e.k == k {
			return e.v
		}
	}
	return nil
}

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// rCommand parses a command message.
func rCommand(m rMsg) (name string, vs []*aVal, err error) {
	b := m.data
	if m.typ == 17 {
		if len(b) == 0 || b[0] != 0 {
			return "", nil, fmt.Errorf("AMF3 command %x", head(string(b), 8))
		}
		b = b[1:]
	}
	if vs, err = aDecodeAll(b); err != nil {
		return
	}
	if len(vs) < 2 || vs[0].kind != aStr || vs[1].kind != aNum {
		return "", vs, fmt.Errorf("command %v", vs)
	}
	return vs[0].s, vs, nil
}
