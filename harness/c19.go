package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"time"

	"github.com/nareix/joy5/utils/bits"
	"github.com/nareix/joy5/utils/bits/pio"
)

func init() {
	register(&propDef{id: "C19", mul: 10,
		rule: "random sequences of bit fields are written and compared with an independent big-integer bit string, then read back through readers that split bytes arbitrarily; Exp-Golomb codes are produced by an independent encoder; byte primitives are compared with encoding/binary at every offset and length; scatter-list cuts are compared with cuts of the joined bytes. Non-trivial = at least two fields or a field crossing a byte; distinct by content",
		must: []string{"bit fields", "fields across 64-bit boundary", "golomb codes", "negative se", "byte primitives", "checked reads short", "vec cuts", "short read splits"},
		run:  runC19})
}

// bitStr builds a bit string most significant bit first.
type bitStr struct{ b []byte } // one byte per bit

func (s *bitStr) u(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		s.b = append(s.b, byte(v>>uint(i))&1)
	}
}

func (s *bitStr) ue(v uint64) {
	x := v + 1
	n := 0
	for x>>uint(n+1) != 0 {
		n++
	}
	s.u(0, n)
	s.u(x, n+1)
}

func (s *bitStr) se(v int64) {
	if v > 0 {
		s.ue(uint64(2*v - 1))
	} else {
		s.ue(uint64(-2 * v))
	}
}

func (s *bitStr) bytes() (out []byte) {
	for i, b := range s.b {
		if i%8 == 0 {
			out = append(out, 0)
		}
		out[i/8] |= b << uint(7-i%8)
	}
	return
}

func genFieldVal(c *C, n int) uint64 {
	m := ^uint64(0)
	if n < 64 {
		m = 1<<uint(n) - 1
	}
	switch c.R.Intn(5) {
	case 0:
		return m
	case 1:
		return 0
	case 2:
		return m & (1 << uint(n-1))
	case 3:
		return m & 1
	}
	return c.R.Uint64() & m
}

func runC19(x *Ctx) {
	fields := func(c *C, widths []int) {
		vals := make([]uint64, len(widths))
		var s bitStr
		var buf bytes.Buffer
		w := &bits.Writer{W: &buf}
		for i, n := range widths {
			vals[i] = genFieldVal(c, n)
			if len(s.b)%64+n > 64 {
				c.Count("fields across 64-bit boundary", 1)
			}
			s.u(vals[i], n)
			var err error
			if n <= 63 && c.R.Intn(2) == 0 {
				err = w.WriteBits(uint(vals[i]), n)
			} else {
				err = w.WriteBits64(vals[i], n)
			}
			if err != nil {
				c.Failf("write: %v", err)
			}
		}
		c.Desc("widths %v values %x", widths, vals)
		if err := w.FlushBits(); err != nil {
			c.Failf("flush: %v", err)
		}
		want := s.bytes()
		if !bytes.Equal(buf.Bytes(), want) {
			c.Failf("wrote %x, want %x", buf.Bytes(), want)
		}
		if err := w.FlushBits(); err != nil || buf.Len() != len(want) {
			c.Failf("a second flush wrote %d more bytes (%v)", buf.Len()-len(want), err)
		}
		mode := c.R.Intn(4)
		rd := &chopReader{b: append([]byte(nil), want...), r: c.R, mode: mode}
		if mode == 1 || mode == 2 {
			c.Count("short read splits", 1)
		}
		r := &bits.Reader{R: rd}
		used := 0
		for i, n := range widths {
			used += n
			var v uint64
			var err error
			if c.R.Intn(2) == 0 {
				var u uint
				u, err = r.ReadBits(n)
				v = uint64(u)
			} else {
				v, err = r.ReadBits64(n)
			}
			if err != nil {
				c.Failf("read of field %d (%d bits): %v (read mode %d)", i, n, err, mode)
			}
			if v != vals[i] {
				c.Failf("field %d (%d bits) read as %x, want %x (read mode %d)", i, n, v, vals[i], mode)
			}
			if took := len(want) - len(rd.b); took != (used+7)/8 {
				c.Failf("after %d bits %d bytes were taken from the source", used, took)
			}
		}
		// what is left is padding; asking for more than it holds must fail
		if v, err := r.ReadBits64(len(want)*8 - len(s.b) + 1 + c.R.Intn(8)); err == nil {
			c.Failf("reading past the end returned %x", v)
		}
		c.Count("bit fields", len(widths))
		c.Nontrivial(fmt.Sprint(widths, vals))
		c.State("bit alignments", len(s.b)%8)
		c.Sample("widths %v -> %x", widths, want)
	}
	// every width at every bit offset, followed by every alignment of a second
	x.Each("pairs", 64*64, func(c *C) {
		a, b := c.Idx/64+1, c.Idx%64+1
		fields(c, []int{a, b, 1 + c.R.Intn(64)})
	})
	x.Each("fields", x.N(4000, 200000), func(c *C) {
		n := 1 + c.R.Intn(30)
		ws := make([]int, n)
		for i := range ws {
			switch c.R.Intn(4) {
			case 0:
				ws[i] = 1 + c.R.Intn(64)
			case 1:
				ws[i] = 57 + c.R.Intn(8)
			default:
				ws[i] = 1 + c.R.Intn(16)
			}
		}
		fields(c, ws)
	})
	// byte access mixed with bit access
	x.Each("mixed", x.N(2000, 50000), func(c *C) {
		var s bitStr
		var buf bytes.Buffer
		w := &bits.Writer{W: &buf}
		type op struct {
			n int
			v uint64
			p []byte
		}
		var ops []op
		for i := 0; i < 1+c.R.Intn(12); i++ {
			if c.R.Intn(2) == 0 {
				p := genBytes(c.R, c.R.Intn(20))
				for _, b := range p {
					s.u(uint64(b), 8)
				}
				if n, err := w.Write(p); err != nil || n != len(p) {
					c.Failf("Write returned %d %v for %d bytes", n, err, len(p))
				}
				ops = append(ops, op{p: p})
			} else {
				n := 1 + c.R.Intn(64)
				v := genFieldVal(c, n)
				s.u(v, n)
				if err := w.WriteBits64(v, n); err != nil {
					c.Failf("%v", err)
				}
				ops = append(ops, op{n: n, v: v})
			}
		}
		w.FlushBits()
		c.Desc("%+v", ops)
		if !bytes.Equal(buf.Bytes(), s.bytes()) {
			c.Failf("wrote %x, want %x", buf.Bytes(), s.bytes())
		}
		r := &bits.Reader{R: &chopReader{b: buf.Bytes(), r: c.R, mode: c.R.Intn(4)}}
		for _, o := range ops {
			if o.n > 0 {
				if v, err := r.ReadBits64(o.n); err != nil || v != o.v {
					c.Failf("%d bits read as %x %v, want %x", o.n, v, err, o.v)
				}
				continue
			}
			p := make([]byte, len(o.p))
			if _, err := io.ReadFull(r, p); err != nil || !bytes.Equal(p, o.p) {
				c.Failf("bytes read as %x %v, want %x", p, err, o.p)
			}
		}
		c.Nontrivial(s.bytes())
	})
	// a failing sink is reported
	x.Each("sink", 200, func(c *C) {
		total := 1 + c.R.Intn(40)
		lim := c.R.Intn(total)
		fw := &failWriter{left: lim, err: io.ErrClosedPipe}
		w := &bits.Writer{W: fw}
		var err error
		for i := 0; i < total && err == nil; i++ {
			err = w.WriteBits64(uint64(i), 8)
		}
		if err == nil {
			err = w.FlushBits()
		}
		if err == nil {
			c.Failf("a failing sink (after %d of %d bytes) was not reported", lim, total)
		}
	})
	x.Each("golomb", x.N(3000, 100000), func(c *C) {
		var s bitStr
		type op struct {
			k, n int
			u    uint64
			i    int64
		}
		var ops []op
		for i := 0; i < 1+c.R.Intn(20); i++ {
			o := op{k: c.R.Intn(4)}
			switch o.k {
			case 0:
				o.u = uint64(c.R.Intn(2))
				s.u(o.u, 1)
			case 1:
				o.n = 1 + c.R.Intn(32)
				o.u = genFieldVal(c, o.n)
				s.u(o.u, o.n)
			case 2:
				o.u = c.R.Uint64() >> uint(32+c.R.Intn(32))
				if o.u == math.MaxUint32 {
					o.u--
				}
				if c.R.Intn(20) == 0 {
					o.u = math.MaxUint32 - 1
				}
				s.ue(o.u)
				c.Count("golomb codes", 1)
			case 3:
				o.i = int64(int32(c.R.Uint32())) >> uint(1+c.R.Intn(30))
				s.se(o.i)
				if o.i < 0 {
					c.Count("negative se", 1)
				}
				c.Count("golomb codes", 1)
			}
			ops = append(ops, o)
		}
		c.Desc("%+v", ops)
		r := &bits.GolombBitReader{R: &chopReader{b: s.bytes(), r: c.R, mode: c.R.Intn(4)}}
		for i, o := range ops {
			var v uint
			var err error
			want := uint(o.u)
			switch o.k {
			case 0:
				v, err = r.ReadBit()
			case 1:
				v, err = r.ReadBits(o.n)
			case 2:
				v, err = r.ReadExponentialGolombCode()
			case 3:
				v, err = r.ReadSE()
				want = uint(o.i)
			}
			if err != nil || v != want {
				c.Failf("code %d %+v read as %d (%d), %v", i, o, v, int(v), err)
			}
		}
		rest := len(s.bytes())*8 - len(s.b)
		if v, err := r.ReadBits(rest + 1); err == nil {
			c.Failf("reading past the end returned %x", v)
		}
		c.Nontrivial(s.bytes())
	})
	// small codes exhaustively
	x.Serial("golomb-all", 1, func(c *C) {
		for v := int64(-600); v <= 600; v++ {
			for off := 0; off < 8; off++ {
				var s bitStr
				s.u(0x55, off)
				s.se(v)
				s.ue(uint64(v + 600))
				r := &bits.GolombBitReader{R: bytes.NewReader(s.bytes())}
				r.ReadBits(off)
				if got, err := r.ReadSE(); err != nil || int(got) != int(v) {
					c.Failf("se %d at bit %d read as %d (%v)", v, off, int(got), err)
				}
				if got, err := r.ReadExponentialGolombCode(); err != nil || int(got) != int(v+600) {
					c.Failf("ue %d read as %d (%v)", v+600, got, err)
				}
				c.Count("golomb codes", 2)
			}
		}
		c.Nontrivial("all")
	})
	x.Each("golomb-end", x.N(300, 5000), func(c *C) { // random bytes end in an error
		b := genBytes(c.R, c.R.Intn(40))
		if c.R.Intn(4) == 0 {
			b = make([]byte, c.R.Intn(200))
		}
		r := &bits.GolombBitReader{R: &chopReader{b: b, r: c.R, mode: c.R.Intn(4)}}
		for i := 0; ; i++ {
			if _, err := r.ReadExponentialGolombCode(); err != nil {
				break
			}
			if i > len(b)*8 {
				c.Failf("more codes than bits")
			}
		}
	})

	// ---- byte primitives
	be := func(b []byte) uint64 {
		var v uint64
		for _, x := range b {
			v = v<<8 | uint64(x)
		}
		return v
	}
	sext := func(v uint64, n int) int64 { return int64(v<<uint(64-8*n)) >> uint(64-8*n) }
	x.Each("pio", x.N(3000, 60000), func(c *C) {
		b := genBytes(c.R, 8)
		switch c.R.Intn(6) {
		case 0:
			for i := range b {
				b[i] = 0xff
			}
		case 1:
			for i := range b {
				b[i] = 0
			}
			b[0] = 0x80
		case 2:
			b[0] |= 0x80
		case 3:
			b[0] &= 0x7f
		}
		orig := append([]byte(nil), b...)
		c.Desc("bytes %x", b)
		eq := func(name string, got, want uint64) {
			c.Count("byte primitives", 1)
			if got != want {
				c.Failf("%s(%x) = %#x, want %#x", name, b, got, want)
			}
		}
		eqi := func(name string, got, want int64) {
			c.Count("byte primitives", 1)
			if got != want {
				c.Failf("%s(%x) = %d, want %d", name, b, got, want)
			}
		}
		eq("U8", uint64(pio.U8(b)), uint64(b[0]))
		eq("U16BE", uint64(pio.U16BE(b)), be(b[:2]))
		eqi("I16BE", int64(pio.I16BE(b)), sext(be(b[:2]), 2))
		eq("U24BE", uint64(pio.U24BE(b)), be(b[:3]))
		eqi("I24BE", int64(pio.I24BE(b)), sext(be(b[:3]), 3))
		eq("U32BE", uint64(pio.U32BE(b)), be(b[:4]))
		eqi("I32BE", int64(pio.I32BE(b)), sext(be(b[:4]), 4))
		eq("U32LE", uint64(pio.U32LE(b)), uint64(binary.LittleEndian.Uint32(b)))
		eq("U40BE", pio.U40BE(b), be(b[:5]))
		eq("U48BE", pio.U48BE(b), be(b[:6]))
		eq("U64BE", pio.U64BE(b), be(b))
		eqi("I64BE", pio.I64BE(b), int64(be(b)))
		if !bytes.Equal(orig, b) {
			c.Failf("reading changed the bytes")
		}
		// writers: exactly the width is written
		put := func(name string, n int, f func(d []byte), want []byte) {
			c.Count("byte primitives", 1)
			d := bytes.Repeat([]byte{0xa5}, 12)
			f(d[2:])
			w := bytes.Repeat([]byte{0xa5}, 12)
			copy(w[2:], want[:n])
			if !bytes.Equal(d, w) {
				c.Failf("%s of %x wrote %x, want %x", name, want[:n], d, w)
			}
		}
		put("PutU8", 1, func(d []byte) { pio.PutU8(d, b[0]) }, b)
		put("PutU16BE", 2, func(d []byte) { pio.PutU16BE(d, uint16(be(b[:2]))) }, b)
		put("PutI16BE", 2, func(d []byte) { pio.PutI16BE(d, int16(be(b[:2]))) }, b)
		put("PutU24BE", 3, func(d []byte) { pio.PutU24BE(d, uint32(be(b[:3]))) }, b)
		put("PutI24BE", 3, func(d []byte) { pio.PutI24BE(d, int32(sext(be(b[:3]), 3))) }, b)
		put("PutU32BE", 4, func(d []byte) { pio.PutU32BE(d, uint32(be(b[:4]))) }, b)
		put("PutI32BE", 4, func(d []byte) { pio.PutI32BE(d, int32(be(b[:4]))) }, b)
		put("PutU32LE", 4, func(d []byte) { pio.PutU32LE(d, binary.LittleEndian.Uint32(b)) }, b)
		put("PutU40BE", 5, func(d []byte) { pio.PutU40BE(d, be(b[:5])) }, b)
		put("PutU48BE", 6, func(d []byte) { pio.PutU48BE(d, be(b[:6])) }, b)
		put("PutU64BE", 8, func(d []byte) { pio.PutU64BE(d, be(b)) }, b)
		put("PutI64BE", 8, func(d []byte) { pio.PutI64BE(d, int64(be(b))) }, b)
		// running writers advance by the width and match the checked readers
		wr := func(name string, n int, f func(d []byte, n *int)) {
			c.Count("byte primitives", 1)
			d := bytes.Repeat([]byte{0xa5}, 12)
			p := 2
			f(d, &p)
			w := bytes.Repeat([]byte{0xa5}, 12)
			copy(w[2:], b[:n])
			if !bytes.Equal(d, w) || p != 2+n {
				c.Failf("%s of %x wrote %x and advanced %d", name, b[:n], d, p-2)
			}
			p = 5
			f(nil, &p)
			if p != 5+n {
				c.Failf("%s without a buffer advanced %d, want %d", name, p-5, n)
			}
		}
		wr("WriteU8", 1, func(d []byte, n *int) { pio.WriteU8(d, n, b[0]) })
		wr("WriteU16BE", 2, func(d []byte, n *int) { pio.WriteU16BE(d, n, uint16(be(b[:2]))) })
		wr("WriteU24BE", 3, func(d []byte, n *int) { pio.WriteU24BE(d, n, uint32(be(b[:3]))) })
		wr("WriteI24BE", 3, func(d []byte, n *int) { pio.WriteI24BE(d, n, int32(sext(be(b[:3]), 3))) })
		wr("WriteU32BE", 4, func(d []byte, n *int) { pio.WriteU32BE(d, n, uint32(be(b[:4]))) })
		wr("WriteI32BE", 4, func(d []byte, n *int) { pio.WriteI32BE(d, n, int32(be(b[:4]))) })
		wr("WriteU32LE", 4, func(d []byte, n *int) { pio.WriteU32LE(d, n, binary.LittleEndian.Uint32(b)) })
		wr("WriteU64BE", 8, func(d []byte, n *int) { pio.WriteU64BE(d, n, be(b)) })
		wr("WriteI64BE", 8, func(d []byte, n *int) { pio.WriteI64BE(d, n, int64(be(b))) })
		k := c.R.Intn(9)
		wr("WriteString", k, func(d []byte, n *int) { pio.WriteString(d, n, string(b[:k])) })
		wr("WriteBytes", k, func(d []byte, n *int) { pio.WriteBytes(d, n, b[:k]) })
		// checked readers
		buf := genBytes(c.R, 16)
		rd := func(name string, n int, f func(b []byte, n *int) (interface{}, error), want func(b []byte) interface{}) {
			l := c.R.Intn(14)
			p := c.R.Intn(l + 3)
			at := p
			v, err := f(buf[:l:l], &p)
			if at+n > l {
				c.Count("checked reads short", 1)
				if err == nil {
					c.Failf("%s at %d of %d bytes did not fail", name, at, l)
				}
				if p > l && p != at {
					c.Failf("%s moved past the end on failure", name)
				}
				return
			}
			c.Count("byte primitives", 1)
			if err != nil || p != at+n {
				c.Failf("%s at %d of %d bytes: %v, advanced %d", name, at, l, err, p-at)
			}
			if w := want(buf[at : at+n]); fmt.Sprint(v) != fmt.Sprint(w) {
				c.Failf("%s of %x = %v, want %v", name, buf[at:at+n], v, w)
			}
		}
		rd("ReadU8", 1, func(b []byte, n *int) (interface{}, error) { return pio.ReadU8(b, n) }, func(b []byte) interface{} { return be(b) })
		rd("ReadU16BE", 2, func(b []byte, n *int) (interface{}, error) { return pio.ReadU16BE(b, n) }, func(b []byte) interface{} { return be(b) })
		rd("ReadU24BE", 3, func(b []byte, n *int) (interface{}, error) { return pio.ReadU24BE(b, n) }, func(b []byte) interface{} { return be(b) })
		rd("ReadI24BE", 3, func(b []byte, n *int) (interface{}, error) { return pio.ReadI24BE(b, n) }, func(b []byte) interface{} { return sext(be(b), 3) })
		rd("ReadU32BE", 4, func(b []byte, n *int) (interface{}, error) { return pio.ReadU32BE(b, n) }, func(b []byte) interface{} { return be(b) })
		rd("ReadI32BE", 4, func(b []byte, n *int) (interface{}, error) { return pio.ReadI32BE(b, n) }, func(b []byte) interface{} { return sext(be(b), 4) })
		rd("ReadU64BE", 8, func(b []byte, n *int) (interface{}, error) { return pio.ReadU64BE(b, n) }, func(b []byte) interface{} { return be(b) })
		rd("ReadI64BE", 8, func(b []byte, n *int) (interface{}, error) { return pio.ReadI64BE(b, n) }, func(b []byte) interface{} { return int64(be(b)) })
		kk := c.R.Intn(10)
		rd("ReadBytes", kk, func(b []byte, n *int) (interface{}, error) { return pio.ReadBytes(b, n, kk) }, func(b []byte) interface{} { return b })
		rd("ReadString", kk, func(b []byte, n *int) (interface{}, error) { return pio.ReadString(b, n, kk) }, func(b []byte) interface{} { return string(b) })
		// times
		t := time.Unix(0, c.R.Int63n(1<<62)-1<<61)
		tb := make([]byte, 8)
		pio.PutTime64(tb, t)
		if got := pio.Time64(tb); t.UnixNano() != 0 && !got.Equal(t) {
			c.Failf("time %v read back as %v", t, got)
		}
		pio.PutTime64(tb, time.Time{})
		if got := pio.Time64(tb); !got.IsZero() || be(tb) != 0 {
			c.Failf("zero time read back as %v", got)
		}
		c.Nontrivial(b)
	})
	// ---- scatter lists
	x.Each("vec", x.N(3000, 100000), func(c *C) {
		n := c.R.Intn(8)
		var in [][]byte
		var all []byte
		for i := 0; i < n; i++ {
			l := c.R.Intn(12)
			if c.R.Intn(4) == 0 {
				l = 0
			}
			b := genBytes(c.R, l)
			in = append(in, b)
			all = append(all, b...)
		}
		if pio.VecLen(in) != len(all) {
			c.Failf("VecLen = %d, want %d", pio.VecLen(in), len(all))
		}
		for s := 0; s <= len(all); s++ {
			for _, e := range []int{s, s + (len(all)-s)/2, len(all), s + c.R.Intn(len(all)-s+1), -1} {
				out := make([][]byte, len(in))
				k := pio.VecSliceTo(in, out, s, e)
				end := e
				if e < 0 {
					end = len(all)
				}
				var got []byte
				for _, b := range out[:k] {
					got = append(got, b...)
				}
				if !bytes.Equal(got, all[s:end]) {
					c.Desc("list %x", in)
					c.Failf("cut [%d:%d] = %x, want %x", s, e, got, all[s:end])
				}
				c.Count("vec cuts", 1)
			}
		}
		if n > 1 {
			c.Nontrivial(fmt.Sprint(in))
		}
	})
}
