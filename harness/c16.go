package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
)

func init() {
	register(&propDef{id: "C16", mul: 6,
		rule: "NAL unit lists of all sizes are joined by the library and by an independent writer (3- and 4-byte start codes mixed) and split again; arbitrary and mutated bytes are split under panic and aliasing monitors with an independent AVCC validator. Non-trivial = at least two units; distinct by content",
		must: []string{"avcc lists", "annexb lists", "mixed start codes", "hostile", "hostile avcc-shaped", "conversions", "ambiguous skipped"},
		run:  runC16})
	register(&propDef{id: "C17", mul: 5,
		rule: "sequence and picture parameter sets are produced by an independent bit writer from random field combinations (with emulation prevention) and the parsed fields compared with the model; decoder configuration records are built and parsed both ways against an independent codec; truncations and mutants run under panic and allocation monitors. Non-trivial = a distinct field combination; distinct by SPS bytes",
		must: []string{"sps", "sps cropped", "sps interlaced", "sps scaling lists", "sps chroma not 4:2:0", "sps with emulation bytes", "sps timing", "records", "pps", "hostile", "sps truncated"},
		run:  runC17})
	register(&propDef{id: "C18", mul: 8,
		rule: "all object types x sample-rate indexes x channel configurations are encoded by an independent bit writer, parsed, written and parsed again; ADTS headers are written for all rate/channel/length classes and compared with an independent ADTS reader and vice versa; short, mutated and random headers run under a panic monitor. Non-trivial = every configuration; distinct by bytes",
		must: []string{"configs", "escape object types", "adts written", "adts parsed", "adts with crc", "malformed adts", "malformed configs", "configs from fields"},
		run:  runC18})
}

// ---------------------------------------------------------------- C16

// oIsAVCC says whether b is a chain of 4-byte lengths that add up exactly.
func oIsAVCC(b []byte) (units [][]byte, ok bool) {
	if len(b) == 0 {
		return nil, false
	}
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, false
		}
		n := uint64(binary.BigEndian.Uint32(b))
		b = b[4:]
		if n > uint64(len(b)) {
			return nil, false
		}
		units = append(units, b[:n])
		b = b[n:]
	}
	return units, true
}

// oAnnexbSafe says whether the unit can be carried in Annex B unchanged.
func oAnnexbSafe(u []byte) bool {
	if len(u) == 0 || u[len(u)-1] == 0 {
		return false
	}
	for i := 0; i+2 < len(u); i++ {
		if u[i] == 0 && u[i+1] == 0 && u[i+2] <= 1 {
			return false
		}
	}
	return true
}

// emulate inserts emulation prevention bytes.
func emulate(b []byte) (out []byte) {
	z := 0
	for _, c := range b {
		if z >= 2 && c <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	return
}

func genNALU(c *C) []byte {
	n := 1 + c.R.Intn(40)
	switch c.R.Intn(10) {
	case 0:
		n = 1
	case 1:
		n = []int{253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 65535, 65536, 65537}[c.R.Intn(14)]
	case 2:
		n = 1 + c.R.Intn(3000)
	}
	u := make([]byte, n)
	for i := range u {
		switch c.R.Intn(3) {
		case 0:
			u[i] = byte(c.R.Intn(4))
		case 1:
			u[i] = 0
		default:
			u[i] = byte(c.R.Intn(256))
		}
	}
	u[0] = []byte{0x65, 0x41, 0x67, 0x68, 0x06, 0x09, 0x01, 0x21}[c.R.Intn(8)]
	return u
}

func annexbUnit(c *C) []byte {
	u := emulate(genNALU(c))
	if u[len(u)-1] == 0 {
		u = append(u, 0x80)
	}
	return u
}

func unitsEqual(a, b [][]byte) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("extra unit %d of %d bytes", i, len(a[i]))
		}
		if !bytes.Equal(a[i], b[i]) {
			return fmt.Sprintf("unit %d is %d bytes %x, want %d bytes %x", i, len(a[i]), head(string(a[i]), 16), len(b[i]), head(string(b[i]), 16))
		}
	}
	if len(a) < len(b) {
		return fmt.Sprintf("%d units, want %d", len(a), len(b))
	}
	return ""
}

// checkSlices checks that every piece the splitter returned lies in b.
func checkSlices(c *C, b []byte) (int, [][]byte) {
	infos, typ := h264.SplitNALUsRetInfo(b)
	var us [][]byte
	last := 0
	for i, f := range infos {
		if f.DataStart < 0 || f.End < f.DataStart || f.End > len(b) {
			c.Failf("unit %d spans [%d:%d] of %d bytes", i, f.DataStart, f.End, len(b))
		}
		if len(f.Data) != f.End-f.DataStart || (len(f.Data) > 0 && &f.Data[0] != &b[f.DataStart]) {
			c.Failf("unit %d is not the input's bytes [%d:%d]", i, f.DataStart, f.End)
		}
		if f.DataStart < last {
			c.Failf("unit %d at %d overlaps the previous one ending at %d", i, f.DataStart, last)
		}
		last = f.End
		us = append(us, f.Data)
	}
	s, t2 := h264.SplitNALUs(b)
	if t2 != typ || h264.CheckNALUsType(b) != typ {
		c.Failf("formats disagree: %d %d %d", typ, t2, h264.CheckNALUsType(b))
	}
	if d := unitsEqual(s, us); d != "" {
		c.Failf("SplitNALUs and SplitNALUsRetInfo disagree: %s", d)
	}
	return typ, us
}

func runC16(x *Ctx) {
	x.Each("avcc", x.N(4000, 100000), func(c *C) {
		var us [][]byte
		for i, n := 0, 1+c.R.Intn(7); i < n; i++ {
			us = append(us, genNALU(c))
		}
		var want []byte
		for _, u := range us {
			want = binary.BigEndian.AppendUint32(want, uint32(len(u)))
			want = append(want, u...)
		}
		c.Desc("avcc %x", head(string(want), 400))
		for _, b := range [][]byte{h264.JoinNALUsAVCC(us), h264.FillNALUsAVCC(us)} {
			if !bytes.Equal(b, want) {
				c.Failf("joined to %x, want %x", head(string(b), 64), head(string(want), 64))
			}
			typ, got := checkSlices(c, b)
			if typ != h264.NALU_AVCC {
				c.Failf("format %d, want AVCC", typ)
			}
			if d := unitsEqual(got, us); d != "" {
				c.Failf("%s", d)
			}
		}
		c.Count("avcc lists", 1)
		if len(us) > 1 {
			c.Nontrivial(want)
		}
		c.Sample("avcc of %d units, %d bytes", len(us), len(want))
	})
	x.Each("annexb", x.N(4000, 100000), func(c *C) {
		var us [][]byte
		for i, n := 0, 1+c.R.Intn(7); i < n; i++ {
			us = append(us, annexbUnit(c))
		}
		for _, u := range us {
			if !oAnnexbSafe(u) {
				c.Failf("harness: generated unit is not Annex B safe: %x", u)
			}
		}
		var mixed []byte
		all4 := c.R.Intn(3) == 0
		kinds := map[int]bool{}
		for _, u := range us {
			k := 3
			if all4 || c.R.Intn(2) == 0 {
				k = 4
				mixed = append(mixed, 0)
			}
			kinds[k] = true
			mixed = append(mixed, 0, 0, 1)
			mixed = append(mixed, u...)
		}
		var want3 []byte
		for _, u := range us {
			want3 = append(append(want3, 0, 0, 1), u...)
		}
		c.Desc("annexb %x", head(string(mixed), 400))
		for i, b := range [][]byte{h264.JoinNALUsAnnexb(us), h264.FillNALUsAnnexb(us), mixed} {
			if i < 2 && !bytes.Equal(b, want3) {
				// any start code length is a valid join
				norm, ok := oSplitAnnexb(b)
				if d := unitsEqual(norm, us); !ok || d != "" {
					c.Failf("join is not Annex B of the units: %s", d)
				}
			}
			if _, amb := oIsAVCC(b); amb {
				// the same bytes are well-formed AVCC: no reader can tell
				c.Count("ambiguous skipped", 1)
				continue
			}
			typ, got := checkSlices(c, b)
			if typ != h264.NALU_ANNEXB {
				c.Failf("format %d, want Annex B (form %d)", typ, i)
			}
			if d := unitsEqual(got, us); d != "" {
				c.Failf("form %d: %s", i, d)
			}
			// conversion to AVCC and back
			av := h264.JoinNALUsAVCC(got)
			typ, got2 := checkSlices(c, av)
			if d := unitsEqual(got2, us); typ != h264.NALU_AVCC || d != "" {
				c.Failf("after conversion to AVCC (format %d): %s", typ, d)
			}
			ab := h264.JoinNALUsAnnexb(got2)
			if norm, ok := oSplitAnnexb(ab); !ok || unitsEqual(norm, us) != "" {
				c.Failf("after conversion back to Annex B: %s", unitsEqual(norm, us))
			}
			c.Count("conversions", 1)
		}
		if len(kinds) == 2 {
			c.Count("mixed start codes", 1)
		}
		c.Count("annexb lists", 1)
		if len(us) > 1 {
			c.Nontrivial(mixed)
		}
	})
	x.Serial("ambiguous", 1, func(c *C) { // a known ambiguous form stays AVCC
		b := []byte{0, 0, 0, 1, 0x65}
		if _, amb := oIsAVCC(b); amb {
			c.Count("ambiguous skipped", 1)
			typ, us := checkSlices(c, b)
			if typ != h264.NALU_AVCC || len(us) != 1 || !bytes.Equal(us[0], []byte{0x65}) {
				c.Failf("format %d units %x", typ, us)
			}
		}
	})
	hostile := func(c *C, b []byte) {
		c.Desc("bytes %x", b)
		orig := append([]byte(nil), b...)
		typ, us := checkSlices(c, b[:len(b):len(b)])
		if !bytes.Equal(orig, b) {
			c.Failf("splitting changed its input")
		}
		want, isAVCC := oIsAVCC(b)
		if (typ == h264.NALU_AVCC) != isAVCC {
			c.Failf("reported format %d; lengths add up: %v", typ, isAVCC)
		}
		if isAVCC {
			c.Count("hostile avcc-shaped", 1)
			if d := unitsEqual(us, want); d != "" {
				c.Failf("%s", d)
			}
		}
		switch typ {
		case h264.NALU_RAW:
			if len(us) != 1 || !bytes.Equal(us[0], b) {
				c.Failf("raw data returned as %d units", len(us))
			}
		case h264.NALU_ANNEXB:
			if !bytes.Contains(b, []byte{0, 0, 1}) {
				c.Failf("Annex B reported without a start code")
			}
			for i, u := range us {
				if bytes.Contains(u, []byte{0, 0, 1}) {
					c.Failf("unit %d still holds a start code", i)
				}
			}
		case h264.NALU_AVCC:
		default:
			c.Failf("unknown format %d", typ)
		}
		c.State("formats", typ, len(us))
		c.Count("hostile", 1)
		c.Nontrivial(b)
	}
	x.Each("hostile", x.N(20000, 400000), func(c *C) {
		var b []byte
		switch c.R.Intn(4) {
		case 0: // dense in zeros and ones
			b = make([]byte, c.R.Intn(40))
			for i := range b {
				b[i] = []byte{0, 0, 0, 1, 2, 3, 0xff}[c.R.Intn(7)]
			}
		case 1:
			b = genBytes(c.R, c.R.Intn(64))
		default:
			var us [][]byte
			for i, n := 0, c.R.Intn(4); i < n; i++ {
				us = append(us, genBytes(c.R, c.R.Intn(20)))
			}
			if c.R.Intn(2) == 0 {
				b = h264.JoinNALUsAVCC(us)
			} else {
				b = h264.JoinNALUsAnnexb(us)
			}
			if c.R.Intn(4) > 0 {
				b = mutate(c.R, b)
			}
		}
		hostile(c, b)
	})
	// all byte strings of length <= 7 over {0,1,4}
	x.Serial("small", 1, func(c *C) {
		al := []byte{0, 1, 4}
		var rec func(b []byte, n int)
		rec = func(b []byte, n int) {
			hostile(c, b)
			if n == 0 {
				return
			}
			for _, a := range al {
				rec(append(append([]byte(nil), b...), a), n-1)
			}
		}
		rec(nil, 7)
	})
}

// oSplitAnnexb is the splitter of the specification's Annex B.
func oSplitAnnexb(b []byte) (us [][]byte, ok bool) {
	var starts, ends []int
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 {
			if len(starts) > 0 {
				ends = append(ends, i)
			} else {
				for _, c := range b[:i] {
					if c != 0 {
						return nil, false
					}
				}
			}
			starts = append(starts, i+3)
			i += 2
		}
	}
	if len(starts) == 0 {
		return nil, false
	}
	ends = append(ends, len(b))
	for i := range starts {
		u := b[starts[i]:ends[i]]
		for len(u) > 0 && u[len(u)-1] == 0 {
			u = u[:len(u)-1]
		}
		us = append(us, u)
	}
	return us, true
}

// ---------------------------------------------------------------- C17

type spsModel struct {
	profile, constraint, level, id   uint64
	chroma, sepPlane                 uint64
	scaling                          bool
	pocType                          uint64
	w, h                             uint64 // macroblocks, map units
	frameOnly                        uint64
	crop                             bool
	cl, cr, ct, cb                   uint64
	vui, timing                      bool
	units, scale                     uint64
	hasScalingLists, hasEmul, hasHRD bool
}

func isHighProfile(p uint64) bool {
	switch p {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		return true
	}
	return false
}

func genSPS(c *C, id uint64) (m spsModel, nal []byte, rbspBits int) {
	r := c.R
	m.profile = []uint64{66, 66, 77, 77, 88, 100, 100, 100, 110, 122, 244, 44, 118, 128, 83, 86, 138, 139, 134, 135}[r.Intn(20)]
	m.constraint = uint64(r.Intn(64)) << 2
	m.level = []uint64{10, 9, 11, 12, 13, 20, 21, 22, 30, 31, 32, 40, 41, 42, 50, 51, 52, 60, 62}[r.Intn(19)]
	m.id = id
	m.chroma = 1
	var s bitStr
	s.u(0x67, 8)
	s.u(m.profile, 8)
	s.u(m.constraint, 8)
	s.u(m.level, 8)
	s.ue(m.id)
	if isHighProfile(m.profile) {
		if r.Intn(2) == 0 {
			m.chroma = uint64(r.Intn(4))
		}
		s.ue(m.chroma)
		if m.chroma == 3 {
			m.sepPlane = uint64(r.Intn(2))
			s.u(m.sepPlane, 1)
		}
		s.ue(uint64(r.Intn(7)))
		s.ue(uint64(r.Intn(7)))
		s.u(uint64(r.Intn(2)), 1)
		if r.Intn(2) == 0 {
			s.u(1, 1)
			n := 8
			if m.chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				if r.Intn(2) == 0 {
					s.u(0, 1)
					continue
				}
				m.hasScalingLists = true
				s.u(1, 1)
				size := 16
				if i >= 6 {
					size = 64
				}
				last := 8
				next := 8
				for j := 0; j < size; j++ {
					if next != 0 {
						nv := 1 + r.Intn(255)
						if r.Intn(10) == 0 {
							nv = 0 // the rest repeats
						}
						d := nv - last
						for d > 127 {
							d -= 256
						}
						for d < -128 {
							d += 256
						}
						s.se(int64(d))
						next = nv
					}
					if next != 0 {
						last = next
					}
				}
			}
		} else {
			s.u(0, 1)
		}
	}
	s.ue(uint64(r.Intn(13)))
	m.pocType = uint64(r.Intn(3))
	s.ue(m.pocType)
	switch m.pocType {
	case 0:
		s.ue(uint64(r.Intn(13)))
	case 1:
		s.u(uint64(r.Intn(2)), 1)
		se := func() {
			switch r.Intn(3) {
			case 0:
				s.se(int64(int32(r.Uint32())) / 2)
			default:
				s.se(int64(r.Intn(9) - 4))
			}
		}
		se()
		se()
		n := r.Intn(4)
		if r.Intn(8) == 0 {
			n = 255
		}
		s.ue(uint64(n))
		for i := 0; i < n; i++ {
			se()
		}
	}
	s.ue(uint64(r.Intn(17)))
	s.u(uint64(r.Intn(2)), 1)
	m.w = 1 + uint64(r.Intn(256))
	m.h = 1 + uint64(r.Intn(256))
	m.frameOnly = uint64(r.Intn(2))
	if r.Intn(2) == 0 {
		m.frameOnly = 1
	}
	s.ue(m.w - 1)
	s.ue(m.h - 1)
	s.u(m.frameOnly, 1)
	if m.frameOnly == 0 {
		s.u(uint64(r.Intn(2)), 1)
	}
	s.u(uint64(r.Intn(2)), 1)
	ux, uy := m.cropUnits()
	if r.Intn(2) == 0 {
		m.crop = true
		s.u(1, 1)
		pick := func(total, unit uint64) (a, b uint64) {
			max := (total - 1) / unit // at least one sample stays
			if max > 0 && r.Intn(4) == 0 {
				max = uint64(r.Intn(int(max) + 1))
			} else if max > 8 {
				max = 8
			}
			a = uint64(r.Intn(int(max) + 1))
			b = uint64(r.Intn(int(max-a) + 1))
			return
		}
		m.cl, m.cr = pick(m.w*16, ux)
		m.ct, m.cb = pick((2-m.frameOnly)*m.h*16, uy)
		s.ue(m.cl)
		s.ue(m.cr)
		s.ue(m.ct)
		s.ue(m.cb)
	} else {
		s.u(0, 1)
	}
	rbspBits = len(s.b) + 1
	if r.Intn(3) > 0 {
		m.vui = true
		s.u(1, 1)
		if r.Intn(2) == 0 {
			s.u(1, 1)
			idc := uint64(r.Intn(17))
			if r.Intn(2) == 0 {
				idc = 255
			}
			s.u(idc, 8)
			if idc == 255 {
				s.u(uint64(r.Intn(65536)), 16)
				s.u(uint64(r.Intn(3)), 16)
			}
		} else {
			s.u(0, 1)
		}
		if r.Intn(2) == 0 {
			s.u(1, 1)
			s.u(uint64(r.Intn(2)), 1)
		} else {
			s.u(0, 1)
		}
		if r.Intn(2) == 0 {
			s.u(1, 1)
			s.u(uint64(r.Intn(8)), 3)
			s.u(uint64(r.Intn(2)), 1)
			if r.Intn(2) == 0 {
				s.u(1, 1)
				s.u(uint64(r.Intn(256)), 8)
				s.u(uint64(r.Intn(256)), 8)
				s.u(uint64(r.Intn(256)), 8)
			} else {
				s.u(0, 1)
			}
		} else {
			s.u(0, 1)
		}
		if r.Intn(2) == 0 {
			s.u(1, 1)
			s.ue(uint64(r.Intn(6)))
			s.ue(uint64(r.Intn(6)))
		} else {
			s.u(0, 1)
		}
		if r.Intn(3) > 0 {
			m.timing = true
			s.u(1, 1)
			switch r.Intn(4) {
			case 0:
				m.units, m.scale = 1001, []uint64{24000, 30000, 48000, 60000, 120000}[r.Intn(5)]
			case 1:
				m.units, m.scale = 1, 2*uint64(1+r.Intn(120))
			case 2:
				m.units, m.scale = uint64(1+r.Intn(100000)), uint64(1+r.Intn(10000000))
			case 3:
				m.units, m.scale = uint64(r.Uint32())|1, uint64(r.Uint32())|1
			}
			s.u(m.units, 32)
			s.u(m.scale, 32)
			s.u(uint64(r.Intn(2)), 1)
		} else {
			s.u(0, 1)
		}
		rbspBits = len(s.b)
		s.u(0, 2) // no HRD parameters
		s.u(uint64(r.Intn(2)), 1)
		if r.Intn(2) == 0 {
			s.u(1, 1)
			s.u(1, 1)
			for i := 0; i < 4; i++ {
				s.ue(uint64(r.Intn(4)))
			}
			s.ue(2)
			s.ue(4)
		} else {
			s.u(0, 1)
		}
	} else {
		s.u(0, 1)
	}
	s.u(1, 1)
	raw := s.bytes()
	nal = emulate(raw)
	m.hasEmul = len(nal) != len(raw)
	return
}

func (m spsModel) cropUnits() (x, y uint64) {
	ch := m.chroma
	if m.sepPlane == 1 {
		ch = 0
	}
	switch ch {
	case 1:
		x, y = 2, 2
	case 2:
		x, y = 2, 1
	default:
		x, y = 1, 1
	}
	y *= 2 - m.frameOnly
	return
}

func (m spsModel) size() (w, h uint64) {
	ux, uy := m.cropUnits()
	return m.w*16 - (m.cl+m.cr)*ux, (2-m.frameOnly)*m.h*16 - (m.ct+m.cb)*uy
}

func (m spsModel) fps() uint64 {
	if !m.timing {
		return 0
	}
	return m.scale / (2 * m.units)
}

func checkSPS(c *C, m spsModel, nal []byte) {
	c.Desc("sps %x %+v", nal, m)
	keep := append([]byte(nil), nal...)
	s, err := h264.ParseSPS(nal)
	if err != nil {
		c.Failf("conforming SPS: %v", err)
	}
	w, h := m.size()
	if uint64(s.ProfileIdc) != m.profile || uint64(s.LevelIdc) != m.level || uint64(s.Id) != m.id {
		c.Failf("profile %d level %d id %d, want %d %d %d", s.ProfileIdc, s.LevelIdc, s.Id, m.profile, m.level, m.id)
	}
	if uint64(s.Width) != w || uint64(s.Height) != h {
		c.Failf("size %dx%d, want %dx%d", s.Width, s.Height, w, h)
	}
	if uint64(s.FPS) != m.fps() {
		c.Failf("frame rate %d, want %d", s.FPS, m.fps())
	}
	if id, err := h264.ParseSPSId(nal); err != nil || uint64(id) != m.id {
		c.Failf("ParseSPSId = %d %v, want %d", id, err, m.id)
	}
	if !bytes.Equal(keep, nal) {
		c.Failf("parsing changed the SPS")
	}
	c.Count("sps", 1)
	if m.crop && m.cl+m.cr+m.ct+m.cb > 0 {
		c.Count("sps cropped", 1)
	}
	if m.frameOnly == 0 {
		c.Count("sps interlaced", 1)
	}
	if m.hasScalingLists {
		c.Count("sps scaling lists", 1)
	}
	if m.chroma != 1 {
		c.Count("sps chroma not 4:2:0", 1)
	}
	if m.hasEmul {
		c.Count("sps with emulation bytes", 1)
	}
	if m.timing {
		c.Count("sps timing", 1)
	}
	c.State("sps shapes", m.profile, m.chroma, m.sepPlane, m.hasScalingLists, m.pocType, m.frameOnly, m.crop, m.vui, m.timing, m.hasEmul)
	c.Nontrivial(nal)
}

func genPPS(c *C, id, spsid uint64) []byte {
	var s bitStr
	s.u(0x68, 8)
	s.ue(id)
	s.ue(spsid)
	s.u(uint64(c.R.Intn(2)), 1)
	s.u(0, 1)
	s.ue(0)
	s.ue(uint64(c.R.Intn(3)))
	s.ue(0)
	s.u(uint64(c.R.Intn(8)), 3)
	s.se(int64(c.R.Intn(20) - 10))
	s.se(0)
	s.se(int64(c.R.Intn(9) - 4))
	s.u(uint64(c.R.Intn(8)), 3)
	s.u(1, 1)
	return emulate(s.bytes())
}

func oRecord(spss, ppss [][]byte, lenSize byte) (b []byte) {
	b = append(b, 1, spss[0][1], spss[0][2], spss[0][3], 0xfc|lenSize, 0xe0|byte(len(spss)))
	for _, s := range spss {
		b = binary.BigEndian.AppendUint16(b, uint16(len(s)))
		b = append(b, s...)
	}
	b = append(b, byte(len(ppss)))
	for _, s := range ppss {
		b = binary.BigEndian.AppendUint16(b, uint16(len(s)))
		b = append(b, s...)
	}
	return
}

func oParseRecord(b []byte) (hdr []byte, spss, ppss [][]byte, err error) {
	if len(b) < 6 || b[0] != 1 || b[4]&0xfc != 0xfc || b[5]&0xe0 != 0xe0 {
		return nil, nil, nil, fmt.Errorf("bad record head %x", head(string(b), 6))
	}
	hdr = b[:5]
	get := func(n int) (out [][]byte) {
		for i := 0; i < n && err == nil; i++ {
			if len(b) < 2 || len(b)-2 < int(binary.BigEndian.Uint16(b)) {
				err = fmt.Errorf("truncated set")
				return
			}
			l := int(binary.BigEndian.Uint16(b))
			out = append(out, b[2:2+l])
			b = b[2+l:]
		}
		return
	}
	n := int(b[5] & 0x1f)
	b = b[6:]
	spss = get(n)
	if err == nil && len(b) == 0 {
		err = fmt.Errorf("no PPS count")
	}
	if err != nil {
		return
	}
	n = int(b[0])
	b = b[1:]
	ppss = get(n)
	return
}

func setEqual(a map[int][]byte, want map[int][]byte) string {
	for id, b := range want {
		if !bytes.Equal(a[id], b) {
			return fmt.Sprintf("set %d is %x, want %x", id, a[id], b)
		}
	}
	if len(a) != len(want) {
		return fmt.Sprintf("%d sets, want %d", len(a), len(want))
	}
	return ""
}

func runC17(x *Ctx) {
	x.Each("sps", x.N(20000, 400000), func(c *C) {
		id := uint64(c.R.Intn(32))
		m, nal, need := genSPS(c, id)
		checkSPS(c, m, nal)
		// a set cut before its last needed bit is an error
		for i := 0; i < 6; i++ {
			k := c.R.Intn(len(nal))
			if i == 0 {
				k = need/8 - 1
			}
			if k < 0 || k >= len(nal) {
				continue
			}
			raw := h264.RemoveH264orH265EmulationBytes(nal[:k])
			if len(raw)*8 >= need {
				continue
			}
			if s, err := h264.ParseSPS(nal[:k:k]); err == nil {
				c.Failf("SPS cut to %d of %d bytes (needs %d bits) parsed as %+v", k, len(nal), need, s)
			}
			c.Count("sps truncated", 1)
		}
		c.Sample("sps %x -> %+v", nal, m)
	})
	x.Each("pps", x.N(1, 1), func(c *C) {
		for id := uint64(0); id < 256; id++ {
			for sid := uint64(0); sid < 32; sid++ {
				nal := genPPS(c, id, sid)
				p, err := h264.ParsePPS(nal)
				if err != nil || uint64(p.Id) != id || uint64(p.SPSId) != sid {
					c.Desc("pps %x", nal)
					c.Failf("PPS %d/%d parsed as %+v %v", id, sid, p, err)
				}
				c.Count("pps", 1)
			}
		}
		c.Nontrivial("pps")
	})
	x.Each("record", x.N(3000, 60000), func(c *C) {
		nsps, npps := 1, 1
		switch c.R.Intn(4) {
		case 0:
			nsps, npps = 1+c.R.Intn(31), c.R.Intn(256)
			if nsps > 4 && c.R.Intn(4) > 0 {
				nsps = 1 + c.R.Intn(4)
				npps = c.R.Intn(5)
			}
		case 1:
			nsps, npps = 1+c.R.Intn(3), 1+c.R.Intn(3)
		}
		var spss, ppss [][]byte
		ms := map[int][]byte{}
		mp := map[int][]byte{}
		sizes := map[[2]int]bool{}
		ids := c.R.Perm(32)[:nsps]
		first := 32
		for _, id := range ids {
			m, nal, _ := genSPS(c, uint64(id))
			w, h := m.size()
			sizes[[2]int{int(w), int(h)}] = true
			spss = append(spss, nal)
			ms[id] = nal
			if id < first {
				first = id
			}
		}
		for _, id := range c.R.Perm(256)[:npps] {
			nal := genPPS(c, uint64(id), uint64(ids[c.R.Intn(len(ids))]))
			ppss = append(ppss, nal)
			mp[id] = nal
		}
		rec := oRecord(spss, ppss, []byte{3, 3, 1, 0}[c.R.Intn(4)])
		if c.R.Intn(4) == 0 && len(spss) > 0 { // high profile extension fields
			rec = append(rec, 0xfd, 0xf8, 0xf8, 0)
		}
		c.Desc("record %x", rec)
		cd, err := h264.FromDecoderConfig(rec)
		if err != nil {
			c.Failf("conforming record: %v", err)
		}
		if d := setEqual(cd.SPS, ms); d != "" {
			c.Failf("SPS: %s", d)
		}
		if d := setEqual(cd.PPS, mp); d != "" {
			c.Failf("PPS: %s", d)
		}
		if !sizes[[2]int{cd.W, cd.H}] {
			c.Failf("size %dx%d is none of the sets' %v", cd.W, cd.H, sizes)
		}
		// the parsed configuration is usable for writing
		if _, s2, p2, err := oParseRecord(cd.ConfigBytes); err != nil || len(s2) != nsps || len(p2) != npps {
			c.Failf("configuration bytes after parsing: %x: %v", cd.ConfigBytes, err)
		}
		build := func(what string, cd *h264.Codec) {
			cd.ToConfig()
			hdr, s2, p2, err := oParseRecord(cd.ConfigBytes)
			if err != nil {
				c.Failf("%s: %v in %x", what, err, cd.ConfigBytes)
			}
			if len(cd.ConfigBytes) != cd.Len() {
				c.Failf("%s: announced %d bytes, wrote %d", what, cd.Len(), len(cd.ConfigBytes))
			}
			got := map[int][]byte{}
			for _, s := range s2 {
				i, err := h264.ParseSPS(s)
				if err != nil {
					c.Failf("%s: %v", what, err)
				}
				got[int(i.Id)] = s
			}
			if d := setEqual(got, ms); d != "" || len(s2) != nsps {
				c.Failf("%s: SPS: %s", what, d)
			}
			gp := map[int][]byte{}
			for _, s := range p2 {
				i, _ := h264.ParsePPS(s)
				gp[int(i.Id)] = s
			}
			if d := setEqual(gp, mp); d != "" || len(p2) != npps {
				c.Failf("%s: PPS: %s", what, d)
			}
			if !bytes.Equal(hdr[1:4], s2[0][1:4]) {
				c.Failf("%s: header %x does not carry the first SPS's profile and level %x", what, hdr, s2[0][1:4])
			}
			if hdr[4]&3 != 3 {
				c.Failf("%s: length size %d", what, hdr[4]&3+1)
			}
			// nothing but the high profiles' extension may follow the sets
			rest := len(cd.ConfigBytes) - 7
			for _, s := range append(append([][]byte(nil), s2...), p2...) {
				rest -= 2 + len(s)
			}
			if rest != 0 {
				x := cd.ConfigBytes[len(cd.ConfigBytes)-rest:]
				if rest < 4 || x[0]&0xfc != 0xfc || x[1]&0xf8 != 0xf8 || x[2]&0xf8 != 0xf8 {
					c.Failf("%s: %x after the parameter sets", what, x)
				}
			}
		}
		build("rebuilt from a record", cd)
		nc := h264.NewCodec()
		all := append(append([][]byte(nil), spss...), ppss...)
		c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		for _, b := range all {
			scratch := append([]byte(nil), b...)
			nc.AddSPSPPS(scratch)
			for i := range scratch { // the caller may reuse its buffer
				scratch[i] = 0xee
			}
		}
		build("built from sets", nc)
		if !nc.Equal(*cd) {
			c.Failf("codecs with the same sets are not equal")
		}
		// equality tells different sets apart
		other := h264.FromOld(*nc)
		if !other.Equal(*nc) {
			c.Failf("copy is not equal")
		}
		_, nal, _ := genSPS(c, uint64(ids[0]))
		other.AddSPSPPS(nal)
		if bytes.Equal(nal, ms[ids[0]]) == false && other.Equal(*nc) {
			c.Failf("codecs with different sets are equal")
		}
		other = h264.FromOld(*nc)
		pid := uint64(c.R.Intn(256))
		if npps > 0 && c.R.Intn(2) == 0 {
			for id := range mp {
				pid = min(pid, uint64(id))
			}
		}
		nal = genPPS(c, pid, uint64(ids[0]))
		other.AddSPSPPS(nal)
		if !bytes.Equal(nal, mp[int(pid)]) && (other.Equal(*nc) || nc.Equal(*other)) {
			c.Failf("codecs with different picture parameter sets are equal")
		}
		// truncated records are errors
		base := oRecord(spss, ppss, 3)
		for k := range base {
			if len(base) > 300 && c.R.Intn(len(base)) >= 40 {
				continue
			}
			if cc, err := h264.FromDecoderConfig(base[:k:k]); err == nil {
				c.Failf("record cut to %d of %d bytes parsed as %d+%d sets", k, len(base), len(cc.SPS), len(cc.PPS))
			}
		}
		c.Count("records", 1)
		c.Nontrivial(rec)
	})
	x.Each("hostile", x.N(20000, 300000), func(c *C) {
		var b []byte
		_, nal, _ := genSPS(c, uint64(c.R.Intn(32)))
		switch c.R.Intn(4) {
		case 0:
			b = mutate(c.R, nal)
		case 1:
			b = mutate(c.R, oRecord([][]byte{nal}, [][]byte{genPPS(c, 0, 0)}, 3))
		case 2:
			b = genBytes(c.R, c.R.Intn(60))
		case 3:
			b = append(genBytes(c.R, 5), make([]byte, c.R.Intn(100))...)
			if len(b) > 0 {
				b[0] = 0x67
			}
		}
		c.Desc("bytes %x", b)
		keep := append([]byte(nil), b...)
		b = b[:len(b):len(b)]
		h264.ParseSPS(b)
		h264.ParseSPSId(b)
		h264.ParsePPS(b)
		h264.FromDecoderConfig(b)
		nc := h264.NewCodec()
		nc.AddSPSPPS(b)
		nc.ToConfig()
		h264.NALUType(b)
		h264.NALUTypeString(h264.NALUType(b))
		h264.IsDataNALU(b)
		if out := h264.RemoveH264orH265EmulationBytes(b); len(out) > len(b) {
			c.Failf("removing emulation bytes grew the data")
		}
		if !bytes.Equal(keep, b) {
			c.Failf("parsing changed its input")
		}
		c.Count("hostile", 1)
		c.Nontrivial(b)
	})
	x.Each("emulation", x.N(5000, 100000), func(c *C) {
		raw := make([]byte, c.R.Intn(60))
		for i := range raw {
			raw[i] = byte(c.R.Intn(5))
			if c.R.Intn(2) == 0 {
				raw[i] = 0
			}
		}
		esc := emulate(raw)
		c.Desc("raw %x escaped %x", raw, esc)
		if got := h264.RemoveH264orH265EmulationBytes(esc); !bytes.Equal(got, raw) {
			c.Failf("%x unescaped to %x, want %x", esc, got, raw)
		}
		c.Count("emulation", 1)
	})
}

// ---------------------------------------------------------------- C18

var oRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// channel layouts of the standard's channel configurations
var oLayouts = []aac.ChannelLayout{0,
	aac.CH_FRONT_CENTER,
	aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_BACK_CENTER,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_BACK_LEFT | aac.CH_BACK_RIGHT,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_BACK_LEFT | aac.CH_BACK_RIGHT | aac.CH_LOW_FREQ,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_SIDE_LEFT | aac.CH_SIDE_RIGHT | aac.CH_BACK_LEFT | aac.CH_BACK_RIGHT | aac.CH_LOW_FREQ,
}

var oChCount = []int{0, 1, 2, 3, 4, 5, 6, 8}

func oASC(s *bitStr, aot, sri, ch uint64) {
	if aot >= 32 {
		s.u(31, 5)
		s.u(aot-32, 6)
	} else {
		s.u(aot, 5)
	}
	s.u(sri, 4)
	s.u(ch, 4)
}

type oADTS struct {
	id, protAbsent, profile, sri, ch, frameLen, fullness, blocks int
}

func oParseADTS(b []byte) (a oADTS, err error) {
	if len(b) < 7 {
		return a, fmt.Errorf("short")
	}
	r := 0
	get := func(n int) (v int) {
		for i := 0; i < n; i++ {
			v = v<<1 | int(b[r/8]>>uint(7-r%8))&1
			r++
		}
		return
	}
	if get(12) != 0xfff {
		return a, fmt.Errorf("sync")
	}
	a.id = get(1)
	if get(2) != 0 {
		return a, fmt.Errorf("layer")
	}
	a.protAbsent = get(1)
	a.profile = get(2)
	a.sri = get(4)
	get(1)
	a.ch = get(3)
	get(4)
	a.frameLen = get(13)
	a.fullness = get(11)
	a.blocks = get(2)
	return
}

func runC18(x *Ctx) {
	x.Each("configs", 96, func(c *C) {
		aot := uint64(c.Idx)
		if aot == 0 || aot == 31 { // null and the escape value itself
			return
		}
		for sri := uint64(0); sri < 13; sri++ {
			for ch := uint64(0); ch < 8; ch++ {
				var s bitStr
				oASC(&s, aot, sri, ch)
				plain := s.bytes()
				s.u(c.R.Uint64()&0x1ffff, 17) // codec specific part
				b := s.bytes()
				c.Desc("aot %d rate index %d channels %d: %x", aot, sri, ch, b)
				cfg, err := aac.ParseMPEG4AudioConfigBytes(b)
				if err != nil {
					c.Failf("conforming configuration: %v", err)
				}
				if uint64(cfg.ObjectType) != aot || cfg.SampleRate != oRates[sri] || cfg.ChannelLayout != oLayouts[ch] ||
					uint64(cfg.SampleRateIndex) != sri || uint64(cfg.ChannelConfig) != ch {
					c.Failf("parsed as %+v", cfg)
				}
				if cfg.ChannelLayout.Count() != oChCount[ch] {
					c.Failf("%d channels, want %d", cfg.ChannelLayout.Count(), oChCount[ch])
				}
				var buf bytes.Buffer
				if err := aac.WriteMPEG4AudioConfig(&buf, cfg); err != nil {
					c.Failf("write: %v", err)
				}
				// the written bytes by the specification
				if !bytes.Equal(buf.Bytes(), plain) {
					c.Failf("written as %x, want %x", buf.Bytes(), plain)
				}
				cfg2, err := aac.ParseMPEG4AudioConfigBytes(buf.Bytes())
				if err != nil || cfg2 != cfg {
					c.Failf("written as %x and parsed back as %+v (%v), want %+v", buf.Bytes(), cfg2, err, cfg)
				}
				// from rate and layout only
				buf.Reset()
				err = aac.WriteMPEG4AudioConfig(&buf, aac.MPEG4AudioConfig{ObjectType: uint(aot), SampleRate: oRates[sri], ChannelLayout: oLayouts[ch]})
				cfg3, err2 := aac.ParseMPEG4AudioConfigBytes(buf.Bytes())
				if err != nil || err2 != nil || cfg3 != cfg {
					c.Failf("written from fields as %x, parsed as %+v (%v %v), want %+v", buf.Bytes(), cfg3, err, err2, cfg)
				}
				c.Count("configs from fields", 1)
				cc, err := aac.FromMPEG4AudioConfigBytes(b)
				if err != nil || cc.Config != cfg || !bytes.Equal(cc.ConfigBytes, b) {
					c.Failf("FromMPEG4AudioConfigBytes: %+v %v", cc, err)
				}
				// 1024 samples, to the nanosecond
				if d := aac.PacketDuration(cfg, genBytes(c.R, 5)); d < 0 || int64(d)*int64(oRates[sri])-1024e9 > int64(oRates[sri]) || 1024e9-int64(d)*int64(oRates[sri]) > int64(oRates[sri]) {
					c.Failf("a packet at %d Hz lasts %v", oRates[sri], d)
				}
				c.Count("configs", 1)
				if aot >= 32 {
					c.Count("escape object types", 1)
				}
				c.Nontrivial(aot, sri, ch)
				// every cut inside the three fields is an error
				for k := 0; k < len(plain); k++ {
					if cfg, err := aac.ParseMPEG4AudioConfigBytes(plain[:k:k]); err == nil {
						c.Failf("configuration cut to %d bytes parsed as %+v", k, cfg)
					}
					c.Count("malformed configs", 1)
				}
			}
		}
		// reserved rate indexes and channel configurations are errors
		for sri := uint64(0); sri < 15; sri++ {
			for ch := uint64(0); ch < 16; ch++ {
				if sri < 13 && ch < 8 {
					continue
				}
				if sri < 13 && ch > 8 {
					continue // later editions assign 11, 12 and 14
				}
				var s bitStr
				oASC(&s, aot, sri, ch)
				b := append(s.bytes(), 0, 0, 0)
				if cfg, err := aac.ParseMPEG4AudioConfigBytes(b); err == nil {
					c.Desc("%x", b)
					c.Failf("reserved rate index %d / channels %d parsed as %+v", sri, ch, cfg)
				}
				c.Count("malformed configs", 1)
			}
		}
		// a rate given in full: refused, or taken as it is
		for i := 0; i < 40; i++ {
			rate := uint64(1000 + c.R.Intn(95000))
			if i < 13 {
				rate = uint64(oRates[i])
			}
			if i > 30 {
				rate = 13 + c.R.Uint64()%(1<<24-13)
			}
			var s bitStr
			oASC(&s, aot, 15, 0)
			s.b = s.b[:len(s.b)-4]
			s.u(rate, 24)
			s.u(uint64(c.R.Intn(8)), 4)
			b := append(s.bytes(), 0, 0)
			if cfg, err := aac.ParseMPEG4AudioConfigBytes(b); err == nil && uint64(cfg.SampleRate) != rate {
				c.Desc("%x", b)
				c.Failf("rate %d parsed as %+v", rate, cfg)
			}
			c.Count("explicit rates", 1)
		}
	})
	x.Serial("object-types", 1, func(c *C) { // constants of the standard
		for _, p := range []struct {
			name      string
			got, want int
		}{{"AAC LC", aac.AOT_AAC_LC, 2}, {"SBR", aac.AOT_SBR, 5}, {"HVXC", aac.AOT_HVXC, 9}, {"TTSI", aac.AOT_TTSI, 12}, {"ER AAC LC", aac.AOT_ER_AAC_LC, 17},
			{"ER AAC LTP", aac.AOT_ER_AAC_LTP, 19}, {"ER AAC LD", aac.AOT_ER_AAC_LD, 23}, {"PS", aac.AOT_PS, 29}, {"escape", aac.AOT_ESCAPE, 31}, {"L1", aac.AOT_L1, 32}, {"ELD", aac.AOT_ER_AAC_ELD, 39}} {
			if p.got != p.want {
				c.Failf("object type %s is %d, the standard says %d", p.name, p.got, p.want)
			}
		}
		c.Nontrivial("aot")
	})
	x.Each("adts-write", 13*7, func(c *C) {
		sri, ch := c.Idx%13, 1+c.Idx/13
		for _, aot := range []uint{1, 2, 3, 4, 5, 6, 17, 23, 29, 34, 39, 42} {
			cfg := aac.MPEG4AudioConfig{ObjectType: aot, SampleRateIndex: uint(sri), ChannelConfig: uint(ch), SampleRate: oRates[sri], ChannelLayout: oLayouts[ch]}
			lens := []int{0, 1, 7, 8, 246, 247, 248, 249, 255, 256, 2040, 2041, 2042, 2047, 2048, 4088, 4089, 4095, 4096, 8183, 8184}
			for i := 0; i < c.X.N(10, 200); i++ {
				lens = append(lens, c.R.Intn(8185))
			}
			for _, l := range lens {
				blocks := 1 + c.R.Intn(4)
				h := genBytes(c.R, 9) // a buffer with old content
				guard := append([]byte(nil), h[7:]...)
				aac.FillADTSHeader(h, cfg, blocks*1024, l)
				c.Desc("aot %d sri %d ch %d len %d blocks %d: %x", aot, sri, ch, l, blocks, h[:7])
				if !bytes.Equal(h[7:], guard) {
					c.Failf("wrote past the 7 header bytes")
				}
				a, err := oParseADTS(h)
				if err != nil {
					c.Failf("independent reader: %v", err)
				}
				if a.protAbsent != 1 || a.sri != sri || a.ch != ch || a.frameLen != l+7 || a.blocks != blocks-1 {
					c.Failf("independent reader: %+v", a)
				}
				wantProf := int(aot) - 1
				if aot > 4 {
					wantProf = 1
				}
				if a.profile != wantProf {
					c.Failf("profile %d, want %d", a.profile, wantProf)
				}
				got, hl, fl, n, err := aac.ParseADTSHeader(append(h[:7:7], make([]byte, l)...))
				if err != nil || hl != 7 || fl != l+7 || n != blocks*1024 {
					c.Failf("parsed back: header %d frame %d samples %d: %v", hl, fl, n, err)
				}
				if got.SampleRate != oRates[sri] || got.ChannelLayout != oLayouts[ch] || int(got.ObjectType) != wantProf+1 {
					c.Failf("parsed back %+v", got)
				}
				c.Count("adts written", 1)
			}
		}
		c.Nontrivial(sri, ch)
	})
	x.Each("adts-read", x.N(20000, 500000), func(c *C) {
		var s bitStr
		id, pa, prof, sri, ch := c.R.Intn(2), c.R.Intn(2), c.R.Intn(4), c.R.Intn(16), c.R.Intn(8)
		fl := c.R.Intn(8192)
		if c.R.Intn(4) == 0 {
			fl = c.R.Intn(12)
		}
		if c.R.Intn(3) > 0 {
			sri, ch = c.R.Intn(13), 1+c.R.Intn(7)
		}
		blocks := c.R.Intn(4)
		sync, layer := uint64(0xfff), uint64(0)
		bad := ""
		switch c.R.Intn(12) {
		case 0:
			sync ^= 1 << uint(c.R.Intn(12))
			bad = "sync word"
		case 1:
			layer = 1 + uint64(c.R.Intn(3))
			bad = "layer"
		}
		s.u(sync, 12)
		s.u(uint64(id), 1)
		s.u(layer, 2)
		s.u(uint64(pa), 1)
		s.u(uint64(prof), 2)
		s.u(uint64(sri), 4)
		s.u(uint64(c.R.Intn(2)), 1)
		s.u(uint64(ch), 3)
		s.u(uint64(c.R.Intn(16)), 4)
		s.u(uint64(fl), 13)
		s.u(uint64(c.R.Intn(2048)), 11)
		s.u(uint64(blocks), 2)
		b := s.bytes()
		if pa == 0 {
			b = append(b, genBytes(c.R, 2)...)
		}
		hl := len(b)
		if sri > 12 {
			bad = "rate index"
		}
		if ch == 0 {
			bad = "no channels"
		}
		if fl < hl {
			bad = "frame length"
		}
		c.Desc("adts %x bad=%q", b, bad)
		cfg, gh, gf, gs, err := aac.ParseADTSHeader(b)
		if bad != "" {
			if err == nil {
				c.Failf("malformed header (%s) parsed as %+v", bad, cfg)
			}
			c.Count("malformed adts", 1)
			return
		}
		if err != nil {
			c.Failf("conforming header: %v", err)
		}
		if gh != hl || gf != fl || gs != (blocks+1)*1024 || cfg.SampleRate != oRates[sri] || cfg.ChannelLayout != oLayouts[ch] || int(cfg.ObjectType) != prof+1 {
			c.Failf("parsed as %+v header %d frame %d samples %d; want rate %d channels %d aot %d header %d frame %d samples %d", cfg, gh, gf, gs, oRates[sri], ch, prof+1, hl, fl, (blocks+1)*1024)
		}
		c.Count("adts parsed", 1)
		if pa == 0 {
			c.Count("adts with crc", 1)
		}
		for k := 0; k < 7; k++ {
			if _, _, _, _, err := aac.ParseADTSHeader(b[:k:k]); err == nil {
				c.Failf("header cut to %d bytes parsed", k)
			}
			c.Count("malformed adts", 1)
		}
		c.Nontrivial(b)
	})
	x.Each("hostile", x.N(10000, 200000), func(c *C) {
		b := genBytes(c.R, c.R.Intn(12))
		if c.R.Intn(2) == 0 && len(b) > 2 {
			b[0], b[1] = 0xff, 0xf0|byte(c.R.Intn(16))
		}
		c.Desc("%x", b)
		aac.ParseADTSHeader(b[:len(b):len(b)])
		if cfg, err := aac.ParseMPEG4AudioConfigBytes(b[:len(b):len(b)]); err == nil {
			var buf bytes.Buffer
			if cfg.ObjectType == 0 || cfg.ObjectType == 31 {
				return
			}
			if err := aac.WriteMPEG4AudioConfig(&buf, cfg); err != nil {
				c.Failf("write: %v", err)
			}
			if cfg2, err := aac.ParseMPEG4AudioConfigBytes(buf.Bytes()); err != nil || cfg2 != cfg {
				c.Failf("%+v rewritten as %+v (%v)", cfg, cfg2, err)
			}
		}
		if cc, err := aac.FromMPEG4AudioConfigBytes(b); err == nil && cc == nil {
			c.Failf("nil codec without error")
		}
		c.Count("hostile", 1)
	})
}
