package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/nareix/joy5/format/flv/flvio"
)

func init() {
	register(&propDef{id: "C08", mul: 8,
		rule: "random AMF0 value trees (all kinds, all Go numeric types, boundary string lengths, nesting up to 64, random key order) are encoded by the code and decoded by an independent AMF0 decoder, and encoded by an independent encoder and parsed by the code, singly and as sequences behind other values; non-trivial = the tree has a container, a date or a string; distinct by encoded bytes",
		must: []string{"encoded", "parsed", "containers", "longstrings", "dates", "ecma"},
		run:  runC08})
}

func aStat(c *C, v *aVal) (nontriv bool) {
	switch v.kind {
	case aObj, aStrict:
		c.Count("containers", 1)
		nontriv = true
	case aEcma:
		c.Count("ecma", 1)
		nontriv = true
	case aDate:
		c.Count("dates", 1)
		nontriv = true
	case aStr:
		nontriv = true
		if len(v.s) > 65535 || v.long {
			c.Count("longstrings", 1)
		}
	}
	for _, e := range v.kv {
		aStat(c, e.v)
	}
	for _, e := range v.arr {
		aStat(c, e)
	}
	return
}

// checkEncode: code's encoder vs independent decoder.
func checkAMFEncode(c *C, vals []*aVal) {
	var in []interface{}
	for _, v := range vals {
		in = append(in, toJoy(c.R, v))
	}
	n := flvio.FillAMF0Vals(nil, in)
	const guard = 64
	buf := bytes.Repeat([]byte{0xa5}, n+guard)
	m := flvio.FillAMF0Vals(buf, in)
	if m != n {
		c.Failf("encoder: size computed without a buffer is %d, but it wrote %d bytes, for %v", n, m, vals)
	}
	for i := n; i < len(buf); i++ {
		if buf[i] != 0xa5 {
			c.Failf("encoder wrote beyond its announced size %d at %d for %v", n, i, vals)
		}
	}
	b := buf[:n]
	if b2 := flvio.FillAMF0ValsMalloc(in); !bytes.Equal(b, b2) {
		c.Failf("the allocating encoder differs from the in-place one for %v", vals)
	}
	if len(in) == 1 {
		if b3 := flvio.FillAMF0ValMalloc(in[0]); !bytes.Equal(b, b3) {
			c.Failf("the single-value encoder differs for %v", vals)
		}
	}
	if pre := amfPrefix(c.R); pre > 0 { // behind other content of the buffer
		pb := make([]byte, pre+len(b))
		at := pre
		for _, v := range in {
			flvio.FillAMF0Val(pb, &at, v)
		}
		if at != len(pb) || !bytes.Equal(pb[pre:], b) || bytes.Count(pb[:pre], []byte{0}) != pre {
			c.Failf("the encoder differs when it starts at offset %d of a buffer, for %v", pre, vals)
		}
		c.Count("at an offset", 1)
	}
	got, err := aDecodeAll(b)
	if err != nil {
		c.Failf("encoder output is not AMF0: %v\nvalues %v\nbytes %x", err, vals, head(string(b), 400))
	}
	if !aEqualAll(got, vals) {
		c.Failf("encoder output decodes to %v, want %v", got, vals)
	}
	c.Count("encoded", 1)
}

// checkParse: independent encoder vs code's parser.
func checkAMFParse(c *C, vals []*aVal) {
	var b []byte
	var ends []int
	for _, v := range vals {
		b = aEncode(b, v)
		ends = append(ends, len(b))
	}
	arr, err := flvio.ParseAMFVals(b, false)
	if err != nil {
		c.Failf("parser rejects valid AMF0 %v: %v", vals, err)
	}
	got, err := fromJoyAll(arr)
	if err != nil {
		c.Failf("parser returned %v for %v", err, vals)
	}
	if !aEqualAll(got, vals) {
		c.Failf("parser returned %v, want %v", got, vals)
	}
	// value by value: it must consume exactly each value's bytes
	pre := amfPrefix(c.R)
	n := pre
	pb := append(make([]byte, pre, pre+len(b)), b...)
	for i := range vals {
		v, err := flvio.ParseAMF0Val(pb, &n)
		if err != nil {
			c.Failf("value %d of %v: %v", i, vals, err)
		}
		if n != pre+ends[i] {
			c.Failf("value %d of %v: consumed up to %d, its encoding ends at %d", i, vals, n, pre+ends[i])
		}
		g, err := fromJoy(v)
		if err != nil || !aEqual(g, vals[i]) {
			c.Failf("value %d: got %v (%v), want %v", i, g, err, vals[i])
		}
	}
	// the AMF3-typed message form: a leading 0 byte selects AMF0
	arr3, err := flvio.ParseAMFVals(append([]byte{0}, b...), true)
	if err != nil {
		c.Failf("AMF3-typed message carrying AMF0 rejected: %v", err)
	}
	got, err = fromJoyAll(arr3)
	if err != nil || !aEqualAll(got, vals) {
		c.Failf("AMF3-typed message carrying AMF0: got %v (%v), want %v", got, err, vals)
	}
	// every truncation is an error (unless it ends between values), never a wrong value
	isEnd := map[int]bool{0: true}
	for _, e := range ends {
		isEnd[e] = true
	}
	step := 1
	if len(b) > 600 {
		step = len(b)/300 + 1
	}
	for cut := 0; cut < len(b); cut += step {
		a, err := flvio.ParseAMFVals(b[:cut], false)
		if isEnd[cut] {
			continue
		}
		if err == nil {
			g, _ := fromJoyAll(a)
			c.Failf("truncation at %d of %d of %v parsed without an error to %v", cut, len(b), vals, g)
		}
		c.Count("truncations", 1)
	}
	c.Count("parsed", 1)
}

func runC08(x *Ctx) {
	x.Each("tree", x.N(6000, 120000), func(c *C) {
		n := 1 + c.R.Intn(4)
		var vals []*aVal
		nt := false
		for i := 0; i < n; i++ {
			v := genAVal(c.R, 4, c.R.Intn(20) == 0)
			nt = aStat(c, v) || nt
			vals = append(vals, v)
		}
		c.Desc("%v", vals)
		checkAMFEncode(c, vals)
		pv := vals
		if c.R.Intn(3) == 0 { // forms only other encoders produce
			pv = append([]*aVal{}, vals...)
			pv = append(pv, &aVal{kind: aUndef}, &aVal{kind: aBool, b: true, bb: byte(c.R.Intn(256))}, &aVal{kind: aStr, s: genAscii(c.R, c.R.Intn(50)), long: true},
				&aVal{kind: aEcma, kv: genKV(c.R, 2, false), ecnt: c.R.Uint32()})
			c.R.Shuffle(len(pv), func(i, j int) { pv[i], pv[j] = pv[j], pv[i] })
			c.Count("longstrings", 1)
		}
		checkAMFParse(c, pv)
		if nt {
			c.Nontrivial(string(aEncode(nil, &aVal{kind: aStrict, arr: vals})))
		}
		c.Sample("%v", vals)
	})
	// every string length around the encoder's switch points and every depth
	lens := []int{}
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	for n := 65500; n <= 65560; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 1<<17, 1<<20)
	x.Each("strlen", len(lens), func(c *C) {
		v := &aVal{kind: aStr, s: genAscii(c.R, lens[c.Idx])}
		aStat(c, v)
		w := &aVal{kind: aObj, kv: []aKV{{"k", v}, {"z", &aVal{kind: aNum, f: 1}}}}
		checkAMFEncode(c, []*aVal{v, w})
		checkAMFParse(c, []*aVal{v, w})
		c.Nontrivial(lens[c.Idx])
	})
	x.Each("keylen", 90, func(c *C) {
		l := c.Idx + 1
		if c.Idx >= 60 {
			l = []int{250, 255, 256, 257, 511, 512, 1000, 4095, 4096, 20000, 32767, 32768, 65000, 65534, 65535}[(c.Idx-60)%15]
		}
		kind := aObj
		if c.Idx%2 == 1 {
			kind = aEcma
		}
		v := &aVal{kind: kind, kv: []aKV{{genAscii(c.R, l), &aVal{kind: aBool, b: true}}, {"t", &aVal{kind: aStr, s: "x"}}}}
		v.ecnt = 2
		aStat(c, v)
		checkAMFEncode(c, []*aVal{v})
		checkAMFParse(c, []*aVal{v})
		c.Nontrivial(l, kind)
	})
	x.Each("depth", 64*3, func(c *C) {
		d := c.Idx/3 + 1
		v := &aVal{kind: aNum, f: float64(d)}
		for i := 0; i < d; i++ {
			switch c.Idx % 3 {
			case 0:
				v = &aVal{kind: aStrict, arr: []*aVal{v, {kind: aNull}}}
			case 1:
				v = &aVal{kind: aObj, kv: []aKV{{"a", v}, {"b", &aVal{kind: aBool}}}}
			case 2:
				v = &aVal{kind: aEcma, kv: []aKV{{"a", v}, {"b", &aVal{kind: aBool}}}, ecnt: 2}
			}
		}
		aStat(c, v)
		checkAMFEncode(c, []*aVal{v})
		checkAMFParse(c, []*aVal{v})
		c.Nontrivial(d, c.Idx%3)
	})
	// ordered-map accessors used on every command object
	x.Each("map", x.N(400, 4000), func(c *C) {
		m := flvio.AMFMap{}
		type ent struct {
			k string
			v interface{}
		}
		var model []ent
		find := func(k string) int {
			for i := range model {
				if model[i].k == k {
					return i
				}
			}
			return -1
		}
		for op := 0; op < 60; op++ {
			k := fmt.Sprintf("k%d", c.R.Intn(8))
			switch c.R.Intn(3) {
			case 0, 1:
				var v interface{} = float64(c.R.Intn(1000))
				if c.R.Intn(3) == 0 {
					v = genAscii(c.R, 4)
				} else if c.R.Intn(3) == 0 {
					v = c.R.Intn(2) == 0
				} else if c.R.Intn(6) == 0 {
					v = nil
				}
				m = m.Set(k, v)
				if i := find(k); i >= 0 {
					model[i].v = v
				} else {
					model = append(model, ent{k, v})
				}
			case 2:
				m = m.Del(k)
				if i := find(k); i >= 0 {
					model = append(append([]ent{}, model[:i]...), model[i+1:]...)
				}
			}
			if len(m) != len(model) {
				c.Failf("map has %d entries, model %d", len(m), len(model))
			}
			for i := range model {
				if m[i].K != model[i].k || m[i].V != model[i].v {
					c.Failf("map entry %d is %v=%v, model %v=%v", i, m[i].K, m[i].V, model[i].k, model[i].v)
				}
			}
			for q := 0; q < 8; q++ {
				k := fmt.Sprintf("k%d", q)
				i := find(k)
				v, ok := m.GetV(k)
				if ok != (i >= 0) || (ok && v != model[i].v) {
					c.Failf("lookup of %q: %v %v", k, v, ok)
				}
				s, sok := m.GetString(k)
				f, fok := m.GetFloat64(k)
				b, bok := m.GetBool(k)
				var ws string
				var wf float64
				var wb, wsok, wfok, wbok bool
				if i >= 0 {
					ws, wsok = model[i].v.(string)
					wf, wfok = model[i].v.(float64)
					wb, wbok = model[i].v.(bool)
				}
				if s != ws || sok != wsok || f != wf || fok != wfok || b != wb || bok != wbok {
					c.Failf("typed lookup of %q in %v: string %v %v, number %v %v, bool %v %v", k, model, s, sok, f, fok, b, bok)
				}
			}
		}
		c.Count("mapops", 60)
		c.Nontrivial(c.Idx)
	})
}

// amfPrefix is how much of a buffer precedes a value: usually nothing.
func amfPrefix(r *rand.Rand) int {
	switch r.Intn(60) {
	case 0:
		return 65530 + r.Intn(20)
	case 1:
		return 1 + r.Intn(1000)
	}
	return 0
}
