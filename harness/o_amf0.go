package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"
)

// Independent AMF0 model, encoder and decoder (written from the AMF0
// specification; shares nothing with flvio).

type aKind int

const (
	aNum aKind = iota
	aBool
	aStr
	aNull
	aUndef
	aObj
	aEcma
	aStrict
	aDate
)

type aKV struct {
	k string
	v *aVal
}

type aVal struct {
	kind aKind
	f    float64 // number, date (ms)
	b    bool
	s    string
	kv   []aKV
	arr  []*aVal
	long bool // encode the string as a long string whatever its length
	bb   byte // what true is encoded as, 0 for 1
	ecnt uint32
}

func (v *aVal) String() string {
	switch v.kind {
	case aNum:
		return fmt.Sprint(v.f)
	case aBool:
		return fmt.Sprint(v.b)
	case aStr:
		if len(v.s) > 40 {
			return fmt.Sprintf("str(%d)", len(v.s))
		}
		return fmt.Sprintf("%q", v.s)
	case aNull:
		return "null"
	case aUndef:
		return "undef"
	case aDate:
		return fmt.Sprintf("date(%v)", v.f)
	case aObj, aEcma:
		var s []string
		for _, e := range v.kv {
			s = append(s, fmt.Sprintf("%q:%v", head(e.k, 30), e.v))
		}
		n := "obj"
		if v.kind == aEcma {
			n = "ecma"
		}
		return n + "{" + strings.Join(s, ",") + "}"
	case aStrict:
		var s []string
		for _, e := range v.arr {
			s = append(s, e.String())
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return "?"
}

func aEncode(b []byte, v *aVal) []byte {
	u16 := func(n int) { b = append(b, byte(n>>8), byte(n)) }
	u32 := func(n uint32) { b = append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n)) }
	f64 := func(f float64) {
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], math.Float64bits(f))
		b = append(b, t[:]...)
	}
	pairs := func() {
		for _, e := range v.kv {
			u16(len(e.k))
			b = append(b, e.k...)
			b = aEncode(b, e.v)
		}
		b = append(b, 0, 0, 9)
	}
	switch v.kind {
	case aNum:
		b = append(b, 0)
		f64(v.f)
	case aBool:
		b = append(b, 1)
		if v.b && v.bb != 0 {
			b = append(b, v.bb)
		} else if v.b {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	case aStr:
		if v.long || len(v.s) > 65535 {
			b = append(b, 12)
			u32(uint32(len(v.s)))
		} else {
			b = append(b, 2)
			u16(len(v.s))
		}
		b = append(b, v.s...)
	case aObj:
		b = append(b, 3)
		pairs()
	case aNull:
		b = append(b, 5)
	case aUndef:
		b = append(b, 6)
	case aEcma:
		b = append(b, 8)
		u32(v.ecnt)
		pairs()
	case aStrict:
		b = append(b, 10)
		u32(uint32(len(v.arr)))
		for _, e := range v.arr {
			b = aEncode(b, e)
		}
	case aDate:
		b = append(b, 11)
		f64(v.f)
		b = append(b, 0, 0)
	}
	return b
}

type aDec struct {
	b []byte
	n int
}

func (d *aDec) take(n int) ([]byte, error) {
	if n < 0 || d.n+n > len(d.b) {
		return nil, fmt.Errorf("short at %d need %d", d.n, n)
	}
	r := d.b[d.n : d.n+n]
	d.n += n
	return r, nil
}

func (d *aDec) f64() (float64, error) {
	b, err := d.take(8)
	if err != nil {
		return 0, err
	}
	return math.Float64frombits(binary.BigEndian.Uint64(b)), nil
}

func (d *aDec) pairs() (kv []aKV, err error) {
	for {
		var b []byte
		if b, err = d.take(2); err != nil {
			return
		}
		n := int(b[0])<<8 | int(b[1])
		if n == 0 {
			if b, err = d.take(1); err != nil {
				return
			}
			if b[0] != 9 {
				err = fmt.Errorf("bad object end %d", b[0])
			}
			return
		}
		if b, err = d.take(n); err != nil {
			return
		}
		k := string(b)
		var v *aVal
		if v, err = d.val(); err != nil {
			return
		}
		kv = append(kv, aKV{k, v})
	}
}

func (d *aDec) val() (v *aVal, err error) {
	var b []byte
	if b, err = d.take(1); err != nil {
		return
	}
	v = &aVal{}
	switch b[0] {
	case 0:
		v.kind = aNum
		v.f, err = d.f64()
	case 1:
		v.kind = aBool
		if b, err = d.take(1); err != nil {
			return
		}
		v.b = b[0] != 0
	case 2:
		v.kind = aStr
		if b, err = d.take(2); err != nil {
			return
		}
		if b, err = d.take(int(b[0])<<8 | int(b[1])); err != nil {
			return
		}
		v.s = string(b)
	case 12:
		v.kind = aStr
		if b, err = d.take(4); err != nil {
			return
		}
		if b, err = d.take(int(binary.BigEndian.Uint32(b))); err != nil {
			return
		}
		v.s = string(b)
	case 3:
		v.kind = aObj
		v.kv, err = d.pairs()
	case 5:
		v.kind = aNull
	case 6:
		v.kind = aUndef
	case 8:
		v.kind = aEcma
		if b, err = d.take(4); err != nil {
			return
		}
		v.ecnt = binary.BigEndian.Uint32(b)
		v.kv, err = d.pairs()
	case 10:
		v.kind = aStrict
		if b, err = d.take(4); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(b))
		for i := 0; i < n; i++ {
			var e *aVal
			if e, err = d.val(); err != nil {
				return
			}
			v.arr = append(v.arr, e)
		}
	case 11:
		v.kind = aDate
		if v.f, err = d.f64(); err != nil {
			return
		}
		_, err = d.take(2)
	default:
		err = fmt.Errorf("marker %d at %d", b[0], d.n-1)
	}
	return
}

func aDecodeAll(b []byte) (vs []*aVal, err error) {
	d := &aDec{b: b}
	for d.n < len(b) {
		var v *aVal
		if v, err = d.val(); err != nil {
			return
		}
		vs = append(vs, v)
	}
	return
}

func f64same(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// aEqual compares as an AMF consumer would: null and undefined are both "no
// value", object and ECMA array are both ordered key/value maps.
func aEqual(a, b *aVal) bool {
	na, nb := a.kind, b.kind
	if na == aUndef {
		na = aNull
	}
	if nb == aUndef {
		nb = aNull
	}
	if na == aEcma {
		na = aObj
	}
	if nb == aEcma {
		nb = aObj
	}
	if na != nb {
		return false
	}
	switch na {
	case aNum, aDate:
		return f64same(a.f, b.f)
	case aBool:
		return a.b == b.b
	case aStr:
		return a.s == b.s
	case aObj:
		if len(a.kv) != len(b.kv) {
			return false
		}
		for i := range a.kv {
			if a.kv[i].k != b.kv[i].k || !aEqual(a.kv[i].v, b.kv[i].v) {
				return false
			}
		}
	case aStrict:
		if len(a.arr) != len(b.arr) {
			return false
		}
		for i := range a.arr {
			if !aEqual(a.arr[i], b.arr[i]) {
				return false
			}
		}
	}
	return true
}

func aEqualAll(a, b []*aVal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !aEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

// fromJoy converts a value returned by flvio's parsers.
func fromJoy(v interface{}) (*aVal, error) {
	switch t := v.(type) {
	case nil:
		return &aVal{kind: aNull}, nil
	case float64:
		return &aVal{kind: aNum, f: t}, nil
	case int: // AMF3 integers
		return &aVal{kind: aNum, f: float64(t)}, nil
	case bool:
		return &aVal{kind: aBool, b: t}, nil
	case string:
		return &aVal{kind: aStr, s: t}, nil
	case time.Time:
		ms := t.Unix()*1000 + int64(t.Nanosecond())/1000000
		return &aVal{kind: aDate, f: float64(ms)}, nil
	case flvio.AMFMap:
		r := &aVal{kind: aObj}
		for _, e := range t {
			x, err := fromJoy(e.V)
			if err != nil {
				return nil, err
			}
			r.kv = append(r.kv, aKV{e.K, x})
		}
		return r, nil
	case flvio.AMFECMAArray:
		r := &aVal{kind: aEcma}
		for _, e := range t {
			x, err := fromJoy(e.V)
			if err != nil {
				return nil, err
			}
			r.kv = append(r.kv, aKV{e.K, x})
		}
		return r, nil
	case flvio.AMFArray:
		r := &aVal{kind: aStrict}
		for _, e := range t {
			x, err := fromJoy(e)
			if err != nil {
				return nil, err
			}
			r.arr = append(r.arr, x)
		}
		return r, nil
	}
	return nil, fmt.Errorf("unexpected Go type %T", v)
}

func fromJoyAll(vs []interface{}) (r []*aVal, err error) {
	for _, v := range vs {
		var a *aVal
		if a, err = fromJoy(v); err != nil {
			return
		}
		r = append(r, a)
	}
	return
}

// toJoy converts a model value to what flvio's encoder accepts; numbers take a
// random Go numeric type that can represent them.
func toJoy(r *rand.Rand, v *aVal) interface{} {
	switch v.kind {
	case aNum:
		f := v.f
		if math.Abs(f) >= 1<<52 || f != math.Trunc(f) { // integers that floats hold exactly
			switch {
			case r.Intn(2) == 0:
			case f == math.Trunc(f) && f > 0 && f < 1<<64:
				if r.Intn(2) == 0 {
					return uint(f)
				}
				return uint64(f)
			case f == math.Trunc(f) && f < 0 && f >= -(1<<63):
				return int64(f)
			case float64(float32(f)) == f:
				return float32(f)
			}
		}
		if f == math.Trunc(f) && !(f == 0 && math.Signbit(f)) && math.Abs(f) < 1<<52 {
			i := int64(f)
			switch r.Intn(12) {
			case 0:
				return int(i)
			case 1:
				return i
			case 2:
				if i >= math.MinInt32 && i <= math.MaxInt32 {
					return int32(i)
				}
			case 3:
				if i >= 0 && i <= math.MaxUint32 {
					return uint32(i)
				}
			case 4:
				if i >= 0 && i <= 255 {
					return uint8(i)
				}
			case 5:
				if i >= 0 {
					return uint64(i)
				}
			case 6:
				if i >= -128 && i <= 127 {
					return int8(i)
				}
			case 7:
				if i >= -32768 && i <= 32767 {
					return int16(i)
				}
			case 8:
				if i >= 0 && i < 65536 {
					return uint16(i)
				}
			case 9:
				if i >= 0 {
					return uint(i)
				}
			case 10:
				if float64(float32(f)) == f {
					return float32(f)
				}
			}
		}
		return f
	case aBool:
		return v.b
	case aStr:
		return v.s
	case aNull, aUndef:
		return nil
	case aDate:
		ms := int64(v.f)
		t := time.Unix(ms/1000, (ms%1000)*1000000)
		if r.Intn(2) == 0 {
			t = t.UTC()
		}
		return t
	case aObj:
		m := flvio.AMFMap{}
		for _, e := range v.kv {
			m = append(m, flvio.AMFKv{K: e.k, V: toJoy(r, e.v)})
		}
		return m
	case aEcma:
		m := flvio.AMFECMAArray{}
		for _, e := range v.kv {
			m = append(m, flvio.AMFKv{K: e.k, V: toJoy(r, e.v)})
		}
		return m
	case aStrict:
		m := flvio.AMFArray{}
		for _, e := range v.arr {
			m = append(m, toJoy(r, e))
		}
		return m
	}
	panic("kind")
}

func genNum(r *rand.Rand) float64 {
	switch r.Intn(9) {
	case 0:
		return float64(r.Intn(256))
	case 1:
		return float64(r.Int31()) - float64(r.Int31())
	case 2:
		return r.NormFloat64() * 1e6
	case 3:
		return math.Float64frombits(r.Uint64())
	case 4:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, 1, -1, 255, 256, 65535, 65536, 4294967295, 4294967296, 0.5}[r.Intn(14)]
	case 5:
		return float64(r.Int63n(1 << 52))
	case 6:
		f := float64(r.Uint64() >> uint(r.Intn(24)))
		if r.Intn(2) == 0 {
			f = -f
		}
		return f
	}
	return float64(r.Intn(100000)) - 50000
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func genAscii(r *rand.Rand, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	return string(b)
}

func genStrLen(r *rand.Rand, big bool) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		if big {
			return []int{65534, 65535, 65536, 65537, 70000, 255, 256, 300, 32768}[r.Intn(9)]
		}
		return 255 + r.Intn(3)
	case 3:
		return 100 + r.Intn(400)
	}
	return 2 + r.Intn(20)
}

func genAVal(r *rand.Rand, depth int, big bool) *aVal {
	k := r.Intn(16)
	if depth <= 0 {
		k = r.Intn(10)
	}
	switch k {
	case 0, 1, 2:
		f := genNum(r)
		if f != f {
			f = 1
		}
		return &aVal{kind: aNum, f: f}
	case 3, 4:
		return &aVal{kind: aBool, b: r.Intn(2) == 0}
	case 5, 6, 7:
		n := genStrLen(r, big)
		if r.Intn(3) == 0 {
			return &aVal{kind: aStr, s: string(genBytes(r, n))}
		}
		return &aVal{kind: aStr, s: genAscii(r, n)}
	case 8:
		return &aVal{kind: aNull}
	case 9:
		ms := r.Int63n(4102444800000) // until 2100
		if r.Intn(4) == 0 {
			ms = -r.Int63n(2000000000000)
		}
		if r.Intn(8) == 0 { // the whole range of the format
			ms = r.Int63n(2*8640000000000000+1) - 8640000000000000
		}
		return &aVal{kind: aDate, f: float64(ms)}
	case 10, 11, 12:
		return &aVal{kind: aObj, kv: genKV(r, depth, big)}
	case 13, 14:
		v := &aVal{kind: aEcma, kv: genKV(r, depth, big)}
		v.ecnt = ecmaHint(r, len(v.kv))
		return v
	default:
		v := &aVal{kind: aStrict}
		n := r.Intn(6)
		for i := 0; i < n; i++ {
			v.arr = append(v.arr, genAVal(r, depth-1, big))
		}
		return v
	}
}

// ecmaHint is a count that encoders may write for n entries: it is only a hint.
func ecmaHint(r *rand.Rand, n int) uint32 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return uint32(r.Intn(n + 3))
	case 2:
		return uint32(n + 1)
	case 3:
		return r.Uint32()
	}
	return uint32(n)
}

func genKV(r *rand.Rand, depth int, big bool) (kv []aKV) {
	n := r.Intn(7)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		l := 1 + r.Intn(12)
		if r.Intn(20) == 0 {
			l = 250 + r.Intn(20)
		}
		k := genAscii(r, l)
		if seen[k] {
			continue
		}
		seen[k] = true
		kv = append(kv, aKV{k, genAVal(r, depth-1, big)})
	}
	return
}
