package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"
)

func init() {
	register(&propDef{id: "C09", mul: 6,
		rule: "hostile AMF0/AMF3 inputs: random bytes, mutations of valid encodings, nesting bombs of every container kind up to 4 MB, forged counts and lengths; each parse is watched for panics, for the position running past the input and for bytes allocated (bound 1 MB + 256 x input). Conforming reference-free AMF3 from an independent encoder is parsed and compared. Non-trivial = the input parses beyond its first marker; distinct by bytes",
		must: []string{"hostile", "bombs", "amf3 values", "accepted", "rejected"},
		assume: []string{"AMF3 integers are compared for 0..2^28-1 only: the existing test suite pins the unsigned reading of larger ones",
			"quadratic parse time of objects with very many keys is not judged"},
		run: runC09})
}

// independent AMF3 encoder (no references: every string that would repeat is made unique)
type a3enc struct {
	b []byte
}

func (e *a3enc) u29(v int) {
	switch {
	case v < 1<<7:
		e.b = append(e.b, byte(v))
	case v < 1<<14:
		e.b = append(e.b, byte(v>>7)|0x80, byte(v)&0x7f)
	case v < 1<<21:
		e.b = append(e.b, byte(v>>14)|0x80, byte(v>>7)|0x80, byte(v)&0x7f)
	default:
		e.b = append(e.b, byte(v>>22)|0x80, byte(v>>15)|0x80, byte(v>>8)|0x80, byte(v))
	}
}

func (e *a3enc) str(s string) {
	e.u29(len(s)<<1 | 1)
	e.b = append(e.b, s...)
}

type a3val struct {
	kind int // 0 undef 1 null 2 false 3 true 4 int 5 double 6 string 7 xmldoc 8 date 9 array 10 object(dynamic) 11 xml 12 bytes 13 sealed 14 sealed and dynamic
	i    int
	f    float64
	s    string
	keys []string
	vals []*a3val
	cls  string
}

func (e *a3enc) val(v *a3val) {
	m := v.kind
	if m >= 13 {
		m = 10
	}
	e.b = append(e.b, byte(m))
	dbl := func(f float64) {
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], math.Float64bits(f))
		e.b = append(e.b, t[:]...)
	}
	switch v.kind {
	case 4:
		e.u29(v.i)
	case 5:
		dbl(v.f)
	case 6, 7, 11, 12:
		e.str(v.s)
	case 8:
		e.u29(1)
		dbl(v.f)
	case 9:
		e.u29(1) // dense length 0
		for i, k := range v.keys {
			e.str(k)
			e.val(v.vals[i])
		}
		e.str("")
	case 10:
		e.u29(0xb) // inline, inline traits, not externalizable, dynamic, 0 sealed
		e.str(v.cls)
		for i, k := range v.keys {
			e.str(k)
			e.val(v.vals[i])
		}
		e.str("")
	case 13:
		e.u29(len(v.keys)<<4 | 3)
		e.str(v.cls)
		for _, k := range v.keys {
			e.str(k)
		}
		for i := range v.keys {
			e.val(v.vals[i])
		}
	case 14: // the first v.i members are sealed
		e.u29(v.i<<4 | 0xb)
		e.str(v.cls)
		for _, k := range v.keys[:v.i] {
			e.str(k)
		}
		for i := range v.keys {
			if i >= v.i {
				e.str(v.keys[i])
			}
			e.val(v.vals[i])
		}
		e.str("")
	}
}

// a3FromAMF0 makes the AMF3 value that stands for v, and the AMF0 value it has to be converted to.
func a3FromAMF0(r *rand.Rand, v *aVal) (*a3val, *aVal) {
	switch v.kind {
	case aNum:
		if r.Intn(3) == 0 {
			n := r.Intn(1 << uint(1+r.Intn(28)))
			return &a3val{kind: 4, i: n}, &aVal{kind: aNum, f: float64(n)}
		}
		return &a3val{kind: 5, f: v.f}, v
	case aBool:
		if v.b {
			return &a3val{kind: 3}, v
		}
		return &a3val{kind: 2}, v
	case aStr:
		return &a3val{kind: []int{6, 6, 7, 11}[r.Intn(4)], s: v.s}, v
	case aDate:
		return &a3val{kind: 8, f: v.f}, v
	case aObj, aEcma:
		a, o := &a3val{kind: []int{9, 10, 13, 14}[r.Intn(4)]}, &aVal{kind: aObj}
		for _, e := range v.kv {
			x, y := a3FromAMF0(r, e.v)
			a.keys, a.vals = append(a.keys, e.k), append(a.vals, x)
			o.kv = append(o.kv, aKV{e.k, y})
		}
		if a.kind == 14 {
			a.i = r.Intn(len(a.keys) + 1)
		}
		return a, o
	case aStrict: // byte arrays have no AMF0 form
		return &a3val{kind: 12, s: string(genBytes(r, r.Intn(20)))}, &aVal{kind: aNull}
	}
	return &a3val{kind: r.Intn(2)}, &aVal{kind: aNull}
}

func genA3(r *rand.Rand, depth int) *a3val {
	k := r.Intn(15)
	if depth <= 0 && (k == 9 || k == 10 || k >= 13) {
		k = r.Intn(9)
	}
	v := &a3val{kind: k}
	switch k {
	case 4:
		v.i = r.Intn(1 << uint(1+r.Intn(28)))
	case 5:
		v.f = genNum(r)
		if v.f != v.f {
			v.f = 2
		}
	case 6, 7, 11, 12:
		n := genStrLen(r, r.Intn(30) == 0)
		v.s = string(genBytes(r, n))
	case 8:
		v.f = float64(r.Int63n(4102444800000))
		switch r.Intn(4) {
		case 0: // the whole range of ECMAScript dates
			v.f = float64(r.Int63n(2*8640000000000000+1) - 8640000000000000)
		case 1:
			v.f = -float64(r.Int63n(4102444800000))
		}
	case 9, 10, 13, 14:
		n := r.Intn(6)
		if k == 13 && r.Intn(10) == 0 {
			n = 20
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			key := genAscii(r, 1+r.Intn(10))
			if seen[key] {
				continue
			}
			seen[key] = true
			v.keys = append(v.keys, key)
			v.vals = append(v.vals, genA3(r, depth-1))
		}
		if k != 9 && r.Intn(2) == 0 {
			v.cls = genAscii(r, r.Intn(30))
		}
		if k == 14 {
			v.i = r.Intn(len(v.keys) + 1)
		}
	}
	return v
}

func a3Match(v *a3val, g interface{}) error {
	bad := func() error {
		return fmt.Errorf("kind %d (i=%d f=%v s=%.20q): parsed as %T %v", v.kind, v.i, v.f, v.s, g, g)
	}
	switch v.kind {
	case 0, 1:
		if g != nil {
			return bad()
		}
	case 2, 3:
		if b, ok := g.(bool); !ok || b != (v.kind == 3) {
			return bad()
		}
	case 4:
		if n, ok := g.(int); !ok || n != v.i {
			return bad()
		}
	case 5:
		if f, ok := g.(float64); !ok || !f64same(f, v.f) {
			return bad()
		}
	case 6, 7, 11:
		if s, ok := g.(string); !ok || s != v.s {
			return bad()
		}
	case 8:
		if t, ok := g.(time.Time); !ok || t.Unix()*1000+int64(t.Nanosecond()/1000000) != int64(v.f) {
			return bad()
		}
	case 12:
		if b, ok := g.([]byte); !ok || string(b) != v.s {
			return bad()
		}
	default:
		m, ok := g.(flvio.AMFMap)
		if !ok || len(m) != len(v.keys) {
			return bad()
		}
		for i := range m {
			if m[i].K != v.keys[i] {
				return fmt.Errorf("key %d is %q, want %q", i, m[i].K, v.keys[i])
			}
			if err := a3Match(v.vals[i], m[i].V); err != nil {
				return err
			}
		}
	}
	return nil
}

// parseHostile parses b with both parsers under the safety and allocation oracles.
func parseHostile(c *C, b []byte, measure bool) {
	in := append([]byte(nil), b...) // exact capacity: slices past the end fault
	for mode := 0; mode < 4; mode++ {
		var a0 uint64
		if measure {
			a0 = allocBytes()
		}
		var err error
		var vals []interface{}
		n := 0
		switch mode {
		case 0:
			vals, err = flvio.ParseAMFVals(in, false)
		case 1:
			vals, err = flvio.ParseAMFVals(in, true)
		case 2:
			_, err = flvio.ParseAMF0Val(in, &n)
		case 3:
			_, err = flvio.ParseAMF3Val(in, &n)
		}
		if measure {
			if d := allocBytes() - a0; d > 1<<20+256*uint64(len(in)) {
				c.Failf("parsing %d bytes (mode %d) allocated %d bytes: %x...", len(in), mode, d, head(string(in), 64))
			}
		}
		if n > len(in) {
			c.Failf("mode %d: position %d beyond the input's %d bytes: %x", mode, n, len(in), head(string(in), 200))
		}
		if err == nil {
			c.Count("accepted", 1)
			if len(vals) > 1 || n > 1 {
				c.Nontrivial(mode, string(in))
			}
		} else {
			_ = err.Error()
			c.Count("rejected", 1)
		}
	}
	if string(in) != string(b) {
		c.Failf("parsing changed its input")
	}
}

func runC09(x *Ctx) {
	// nesting bombs first: they can kill the process
	type bomb struct {
		name string
		unit []byte
		pre  []byte
	}
	bombs := []bomb{
		{"amf0 object", []byte{3, 0, 1, 'a'}, nil},
		{"amf0 ecma", []byte{8, 0, 0, 0, 1, 0, 1, 'a'}, nil},
		{"amf0 strict", []byte{10, 0, 0, 0, 1}, nil},
		{"amf0 strict/object", []byte{10, 0, 0, 0, 1, 3, 0, 1, 'a'}, nil},
		{"amf3 array", []byte{9, 1, 3, 'a'}, nil},
		{"amf3 object", []byte{10, 0xb, 1, 3, 'a'}, nil},
		{"amf3 sealed", []byte{10, 0x13, 1, 3, 'a'}, nil},
		{"amf3 sealed and dynamic", []byte{10, 0x1b, 1, 3, 'a'}, nil},
		{"amf0 ecma/object", []byte{8, 0, 0, 0, 0, 0, 1, 'a', 3, 0, 1, 'a'}, nil},
		{"amf0 all", []byte{8, 0, 0, 0, 0, 0, 1, 'a', 3, 0, 1, 'a', 10, 0, 0, 0, 1}, nil},
		{"amf3 all", []byte{9, 1, 3, 'a', 10, 0xb, 1, 3, 'a', 10, 0x13, 1, 3, 'a', 10, 0x1b, 1, 3, 'a'}, nil},
	}
	sizes := []int{1 << 10, 1 << 14, 1 << 17, 1 << 20, 4 << 20}
	x.Serial("bomb", len(bombs)*len(sizes), func(c *C) {
		bm, size := bombs[c.Idx%len(bombs)], sizes[c.Idx/len(bombs)]
		b := make([]byte, 0, size+16)
		for len(b) < size {
			b = append(b, bm.unit...)
		}
		c.Desc("%s repeated to %d bytes", bm.name, size)
		parseHostile(c, b, true)
		c.Count("bombs", 1)
		c.Sample("%s repeated to %d bytes", bm.name, size)
	})
	// forged counts: containers that claim as much as the checks let through
	x.Serial("counts", x.N(300, 2000), func(c *C) {
		size := 1 << uint(6+c.R.Intn(11))
		b := []byte{}
		kind := c.Idx % 5
		for len(b) < size {
			switch kind {
			case 0: // nested strict arrays each claiming the rest of the input
				v := uint32(size - 16)
				b = append(b, 10, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
			case 1: // sibling strict arrays claiming too much
				v := c.R.Uint32() >> uint(c.R.Intn(24))
				b = append(b, 10, byte(v>>24), byte(v>>16), byte(v>>8), byte(v), 5)
			case 2: // sealed AMF3 objects claiming up to 2^25 members
				e := &a3enc{b: b}
				e.b = append(e.b, 10)
				e.u29(c.R.Intn(1<<uint(1+c.R.Intn(24)))<<4 | 3)
				e.str("")
				b = e.b
				if c.R.Intn(2) == 0 {
					b = append(b, 3, 'k')
				}
			case 3: // strings and byte arrays claiming up to 2^28
				e := &a3enc{b: b}
				e.b = append(e.b, []byte{6, 12, 7, 11}[c.R.Intn(4)])
				e.u29(c.R.Intn(1<<uint(1+c.R.Intn(27)))<<1 | 1)
				b = append(e.b, genBytes(c.R, c.R.Intn(6))...)
			case 4:
				v := c.R.Uint32() >> uint(c.R.Intn(32))
				b = append(b, 12, byte(v>>24), byte(v>>16), byte(v>>8), byte(v), 'x')
			}
		}
		c.Desc("count forgery kind %d, %d bytes: %x", kind, len(b), head(string(b), 400))
		parseHostile(c, b, true)
		c.Count("forged", 1)
	})
	x.Serial("wide", x.N(60, 300), func(c *C) { // wide containers, memory stays linear
		n := 1 << uint(4+c.R.Intn(9))
		v := &aVal{kind: []aKind{aObj, aEcma, aStrict}[c.Idx%3]}
		for i := 0; i < n; i++ {
			e := &aVal{kind: []aKind{aNull, aBool, aNum, aStr, aStrict, aObj}[c.R.Intn(6)]}
			v.kv = append(v.kv, aKV{fmt.Sprint("k", i), e})
			v.arr = append(v.arr, e)
		}
		if v.kind != aStrict {
			v.arr = nil
		} else {
			v.kv = nil
		}
		parseHostile(c, aEncode(nil, v), true)
		c.Count("hostile", 1)
	})
	x.Serial("mutated", x.N(6000, 100000), func(c *C) {
		var b []byte
		if c.R.Intn(2) == 0 {
			for i := 0; i <= c.R.Intn(3); i++ {
				b = aEncode(b, genAVal(c.R, 4, false))
			}
		} else {
			e := &a3enc{}
			if c.R.Intn(2) == 0 {
				e.b = append(e.b, 0)
			}
			e.val(genA3(c.R, 4))
			b = e.b
		}
		b = mutate(c.R, b)
		c.Desc("%x", b)
		parseHostile(c, b, c.Idx%10 == 0)
		c.Count("hostile", 1)
		c.Sample("%x", head(string(b), 100))
	})
	x.Each("random", x.N(20000, 400000), func(c *C) {
		b := genBytes(c.R, c.R.Intn(80))
		for i := range b { // bias to markers and small lengths
			if c.R.Intn(3) > 0 {
				b[i] = byte(c.R.Intn(20))
			}
		}
		c.Desc("%x", b)
		parseHostile(c, b, false)
		c.Count("hostile", 1)
	})
	x.Each("cut", x.N(300, 3000), func(c *C) { // every truncation point
		e := &a3enc{}
		v3 := genA3(c.R, 3)
		e.val(v3)
		b0 := aEncode(nil, genAVal(c.R, 3, false))
		for _, b := range [][]byte{e.b, b0} {
			step := len(b)/400 + 1
			for i := 0; i < len(b); i += step {
				c.Desc("cut %d of %x", i, head(string(b), 500))
				parseHostile(c, b[:i], false)
				c.Count("hostile", 1)
			}
		}
		for i := 0; i < len(e.b); i += len(e.b)/400 + 1 {
			n := 0
			if _, err := flvio.ParseAMF3Val(append([]byte(nil), e.b[:i]...), &n); err == nil {
				c.Failf("AMF3 value cut at %d of %d parsed without an error: %x", i, len(e.b), e.b)
			}
		}
	})
	x.Each("amf3", x.N(8000, 100000), func(c *C) {
		v := genA3(c.R, 4)
		e := &a3enc{}
		e.val(v)
		c.Desc("%x", head(string(e.b), 600))
		tailLen := c.R.Intn(3)
		pre := amfPrefix(c.R)
		b := append(append(make([]byte, pre), e.b...), genBytes(c.R, tailLen)...)
		n := pre
		g, err := flvio.ParseAMF3Val(b, &n)
		if err != nil {
			c.Failf("valid AMF3 rejected: %v", err)
		}
		if n != pre+len(e.b) {
			c.Failf("consumed %d of %d bytes at %d", n-pre, len(e.b), pre)
		}
		if err := a3Match(v, g); err != nil {
			c.Failf("%v", err)
		}
		c.Count("amf3 values", 1)
		if v.kind >= 6 {
			c.Nontrivial(string(e.b))
		}
		c.Sample("%x", head(string(e.b), 60))
		// a message: several values behind a non-zero first marker
		if v.kind != 0 {
			v2 := genA3(c.R, 2)
			e.val(v2)
			arr, err := flvio.ParseAMFVals(e.b, true)
			if err != nil || len(arr) != 2 {
				c.Failf("two AMF3 values: %d, %v", len(arr), err)
			}
			if err := a3Match(v, arr[0]); err != nil {
				c.Failf("%v", err)
			}
			if err := a3Match(v2, arr[1]); err != nil {
				c.Failf("%v", err)
			}
		}
	})
}
