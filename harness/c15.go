package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/nareix/joy5/format/mp4/mp4io"
)

// C15: MP4 box codec.  Random boxes of every modelled type are filled by
// reflection from a layout table written from ISO 14496-12/-14 (field order,
// widths, reserved bytes, presence conditions); the table, not the library,
// says which bytes they must become.

// boxLayout: fields in file order.  u8 u16 u24 u32 u64 i16 i32: integers;
// t32: seconds since 1904; f16/f32: 8.8 and 16.16 fixed point; zN: N reserved
// zero bytes; aN:type: array; bN: fixed bytes; rest: bytes to the end;
// box/boxes/unk: children; count: number of child boxes; list:T: entry count
// and entries; "@name" custom.
var boxLayout = map[string]struct{ tag, layout string }{
	"Movie":               {"moov", "box.Header box.MovieExtend boxes.Tracks unk"},
	"MovieHeader":         {"mvhd", "u8.Version u24.Flags t32.CreateTime t32.ModifyTime i32.TimeScale i32.Duration f32.PreferredRate f16.PreferredVolume z10 a9i32.Matrix t32.PreviewTime t32.PreviewDuration t32.PosterTime t32.SelectionTime t32.SelectionDuration t32.CurrentTime i32.NextTrackId"},
	"Track":               {"trak", "box.Header box.Media unk"},
	"TrackHeader":         {"tkhd", "u8.Version u24.Flags t32.CreateTime t32.ModifyTime i32.TrackId z4 i32.Duration z8 i16.Layer i16.AlternateGroup f16.Volume z2 a9i32.Matrix f32.TrackWidth f32.TrackHeight"},
	"HandlerRefer":        {"hdlr", "u8.Version u24.Flags b.Type b.SubType rest.Name"},
	"Media":               {"mdia", "box.Header box.Handler box.Info unk"},
	"MediaHeader":         {"mdhd", "u8.Version u24.Flags t32.CreateTime t32.ModifyTime i32.TimeScale i32.Duration i16.Language i16.Quality"},
	"MediaInfo":           {"minf", "box.Sound box.Video box.Data box.Sample unk"},
	"DataInfo":            {"dinf", "box.Refer unk"},
	"DataRefer":           {"dref", "u8.Version u24.Flags count box.Url unk"},
	"DataReferUrl":        {"url ", "u8.Version u24.Flags"},
	"SoundMediaInfo":      {"smhd", "u8.Version u24.Flags i16.Balance z2"},
	"VideoMediaInfo":      {"vmhd", "u8.Version u24.Flags i16.GraphicsMode a3i16.Opcolor"},
	"SampleTable":         {"stbl", "box.SampleDesc box.TimeToSample box.CompositionOffset box.SampleToChunk box.SyncSample box.ChunkOffset box.SampleSize unk"},
	"SampleDesc":          {"stsd", "u8.Version z3 count box.AVC1Desc box.MP4ADesc unk"},
	"MP4ADesc":            {"mp4a", "z6 i16.DataRefIdx i16.Version i16.RevisionLevel i32.Vendor i16.NumberOfChannels i16.SampleSize i16.CompressionId z2 f32.SampleRate box.Conf unk"},
	"AVC1Desc":            {"avc1", "z6 i16.DataRefIdx i16.Version i16.Revision i32.Vendor i32.TemporalQuality i32.SpatialQuality i16.Width i16.Height f32.HorizontalResolution f32.VorizontalResolution z4 i16.FrameCount b.CompressorName i16.Depth i16.ColorTableId box.Conf unk"},
	"AVC1Conf":            {"avcC", "rest.Data"},
	"ElemStreamDesc":      {"esds", "@esds"},
	"TimeToSample":        {"stts", "u8.Version u24.Flags list.Entries"},
	"SampleToChunk":       {"stsc", "u8.Version u24.Flags list.Entries"},
	"CompositionOffset":   {"ctts", "u8.Version u24.Flags list.Entries"},
	"SyncSample":          {"stss", "u8.Version u24.Flags list.Entries"},
	"ChunkOffset":         {"stco", "u8.Version u24.Flags list.Entries"},
	"SampleSize":          {"stsz", "u8.Version u24.Flags @stsz"},
	"MovieFrag":           {"moof", "box.Header boxes.Tracks unk"},
	"MovieFragHeader":     {"mfhd", "u8.Version u24.Flags u32.Seqnum"},
	"TrackFrag":           {"traf", "box.Header box.DecodeTime box.Run unk"},
	"TrackFragHeader":     {"tfhd", "u8.Version u24.Flags @tfhd"},
	"TrackFragDecodeTime": {"tfdt", "u8.Version u24.Flags @tfdt"},
	"TrackFragRun":        {"trun", "u8.Version u24.Flags @trun"},
	"MovieExtend":         {"mvex", "boxes.Tracks unk"},
	"TrackExtend":         {"trex", "u8.Version u24.Flags u32.TrackId u32.DefaultSampleDescIdx u32.DefaultSampleDuration u32.DefaultSampleSize u32.DefaultSampleFlags"},
}

var entryLayout = map[string]string{
	"TimeToSampleEntry":      "Count Duration",
	"SampleToChunkEntry":     "FirstChunk SamplesPerChunk SampleDescId",
	"CompositionOffsetEntry": "Count Offset",
}

var epoch1904 = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)

func boxNames() (r []string) {
	for k := range boxLayout {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func newBox(name string) mp4io.Atom {
	switch name {
	case "Movie":
		return &mp4io.Movie{}
	case "MovieHeader":
		return &mp4io.MovieHeader{}
	case "Track":
		return &mp4io.Track{}
	case "TrackHeader":
		return &mp4io.TrackHeader{}
	case "HandlerRefer":
		return &mp4io.HandlerRefer{}
	case "Media":
		return &mp4io.Media{}
	case "MediaHeader":
		return &mp4io.MediaHeader{}
	case "MediaInfo":
		return &mp4io.MediaInfo{}
	case "DataInfo":
		return &mp4io.DataInfo{}
	case "DataRefer":
		return &mp4io.DataRefer{}
	case "DataReferUrl":
		return &mp4io.DataReferUrl{}
	case "SoundMediaInfo":
		return &mp4io.SoundMediaInfo{}
	case "VideoMediaInfo":
		return &mp4io.VideoMediaInfo{}
	case "SampleTable":
		return &mp4io.SampleTable{}
	case "SampleDesc":
		return &mp4io.SampleDesc{}
	case "MP4ADesc":
		return &mp4io.MP4ADesc{}
	case "AVC1Desc":
		return &mp4io.AVC1Desc{}
	case "AVC1Conf":
		return &mp4io.AVC1Conf{}
	case "ElemStreamDesc":
		return &mp4io.ElemStreamDesc{}
	case "TimeToSample":
		return &mp4io.TimeToSample{}
	case "SampleToChunk":
		return &mp4io.SampleToChunk{}
	case "CompositionOffset":
		return &mp4io.CompositionOffset{}
	case "SyncSample":
		return &mp4io.SyncSample{}
	case "ChunkOffset":
		return &mp4io.ChunkOffset{}
	case "SampleSize":
		return &mp4io.SampleSize{}
	case "MovieFrag":
		return &mp4io.MovieFrag{}
	case "MovieFragHeader":
		return &mp4io.MovieFragHeader{}
	case "TrackFrag":
		return &mp4io.TrackFrag{}
	case "TrackFragHeader":
		return &mp4io.TrackFragHeader{}
	case "TrackFragDecodeTime":
		return &mp4io.TrackFragDecodeTime{}
	case "TrackFragRun":
		return &mp4io.TrackFragRun{}
	case "MovieExtend":
		return &mp4io.MovieExtend{}
	case "TrackExtend":
		return &mp4io.TrackExtend{}
	}
	panic(name)
}

func edgeU(r *rand.Rand, bits uint) uint64 {
	m := ^uint64(0) >> (64 - bits)
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return m >> 1
	case 3:
		return m>>1 + 1
	case 4:
		return uint64(r.Intn(300)) & m
	}
	return r.Uint64() & m
}

// boxGen fills boxes.
type boxGen struct {
	r     *rand.Rand
	boxes int
}

func (g *boxGen) unknown() *mp4io.Dummy {
	var tag [4]byte
	for {
		for i := range tag {
			tag[i] = byte(' ' + g.r.Intn(95))
		}
		if g.r.Intn(8) == 0 {
			g.r.Read(tag[:])
		}
		known := false
		for _, l := range boxLayout {
			known = known || l.tag == string(tag[:])
		}
		if !known {
			break
		}
	}
	n := []int{0, 0, 1, 7, 8, 30, 300}[g.r.Intn(7)]
	b := make([]byte, 8+n)
	binary.BigEndian.PutUint32(b, uint32(8+n))
	copy(b[4:], tag[:])
	g.r.Read(b[8:])
	g.boxes++
	return &mp4io.Dummy{Tag_: mp4io.StringToTag(string(tag[:])), Data: b}
}

func (g *boxGen) fill(name string) mp4io.Atom {
	a := newBox(name)
	v := reflect.ValueOf(a).Elem()
	r := g.r
	g.boxes++
	for _, tok := range strings.Fields(boxLayout[name].layout) {
		kind, fld, _ := strings.Cut(tok, ".")
		var f reflect.Value
		if fld != "" {
			f = v.FieldByName(fld)
		}
		switch {
		case kind == "u8":
			f.SetUint(edgeU(r, 8))
		case kind == "u24":
			f.SetUint(edgeU(r, 24))
		case kind == "u32":
			f.SetUint(edgeU(r, 32))
		case kind == "i16":
			f.SetInt(int64(int16(edgeU(r, 16))))
		case kind == "i32":
			f.SetInt(int64(int32(edgeU(r, 32))))
		case kind == "t32":
			f.Set(reflect.ValueOf(epoch1904.Add(time.Duration(edgeU(r, 32)) * time.Second)))
		case kind == "f32":
			f.SetFloat(float64(edgeU(r, 32)) / 65536)
		case kind == "f16":
			f.SetFloat(float64(edgeU(r, 16)) / 256)
		case kind[0] == 'a' && fld != "":
			for i := 0; i < f.Len(); i++ {
				f.Index(i).SetInt(int64(int32(edgeU(r, 32))))
				if f.Index(i).Kind() == reflect.Int16 {
					f.Index(i).SetInt(int64(int16(edgeU(r, 16))))
				}
			}
		case kind == "b":
			for i := 0; i < f.Len(); i++ {
				f.Index(i).SetUint(edgeU(r, 8))
			}
		case kind == "rest":
			f.SetBytes(genBytes(r, []int{0, 1, 5, 100}[r.Intn(4)]))
		case kind == "list":
			n := []int{0, 1, 2, 3, 17, 100}[r.Intn(6)]
			s := reflect.MakeSlice(f.Type(), n, n)
			for i := 0; i < n; i++ {
				e := s.Index(i)
				if e.Kind() == reflect.Struct {
					for j := 0; j < e.NumField(); j++ {
						e.Field(j).SetUint(edgeU(r, 32))
					}
				} else {
					e.SetUint(edgeU(r, 32))
				}
			}
			f.Set(s)
		case kind == "box":
			if r.Intn(3) != 0 {
				f.Set(reflect.ValueOf(g.fill(f.Type().Elem().Name())))
			}
		case kind == "boxes":
			for n := r.Intn(4); n > 0; n-- {
				f.Set(reflect.Append(f, reflect.ValueOf(g.fill(f.Type().Elem().Elem().Name()))))
			}
		case kind == "unk":
			if r.Intn(3) == 0 {
				f = v.FieldByName("Unknowns")
				for n := 1 + r.Intn(3); n > 0; n-- {
					f.Set(reflect.Append(f, reflect.ValueOf(mp4io.Atom(g.unknown()))))
				}
			}
		case kind[0] == '@':
			g.custom(a)
		}
	}
	return a
}

func (g *boxGen) custom(a mp4io.Atom) {
	r := g.r
	switch a := a.(type) {
	case *mp4io.ElemStreamDesc:
		a.TrackId = uint16(edgeU(r, 16))
		a.DecConfig = genBytes(r, []int{0, 1, 2, 5, 100, 127, 128, 300, 20000}[r.Intn(9)])
	case *mp4io.SampleSize:
		if r.Intn(2) == 0 {
			a.SampleSize = 1 + uint32(edgeU(r, 31))
			a.SampleCount = uint32(edgeU(r, 32))
		} else {
			for n := []int{0, 1, 2, 40}[r.Intn(4)]; n > 0; n-- {
				a.Entries = append(a.Entries, uint32(edgeU(r, 32)))
			}
		}
	case *mp4io.TrackFragHeader:
		for _, x := range []uint32{1, 2, 8, 0x10, 0x20, 0x10000, 0x20000} {
			a.Flags &^= x
			if r.Intn(2) == 0 {
				a.Flags |= x
			}
		}
		if a.Flags&1 != 0 {
			a.BaseDataOffset = edgeU(r, 64)
		}
		if a.Flags&2 != 0 {
			a.StsdId = uint32(edgeU(r, 32))
		}
		if a.Flags&8 != 0 {
			a.DefaultDuration = uint32(edgeU(r, 32))
		}
		if a.Flags&0x10 != 0 {
			a.DefaultSize = uint32(edgeU(r, 32))
		}
		if a.Flags&0x20 != 0 {
			a.DefaultFlags = uint32(edgeU(r, 32))
		}
	case *mp4io.TrackFragDecodeTime:
		a.Version = uint8(r.Intn(2))
		if a.Version == 0 {
			a.Time = epoch1904.Add(time.Duration(edgeU(r, 32)) * time.Second)
		} else {
			a.Time = time.Unix(epoch1904.Unix()+int64(edgeU(r, uint(1+r.Intn(55)))), 0).UTC()
		}
	case *mp4io.TrackFragRun:
		for _, x := range []uint32{1, 4, 0x100, 0x200, 0x400, 0x800} {
			a.Flags &^= x
			if r.Intn(2) == 0 {
				a.Flags |= x
			}
		}
		if a.Flags&1 != 0 {
			a.DataOffset = uint32(edgeU(r, 32))
		}
		if a.Flags&4 != 0 {
			a.FirstSampleFlags = uint32(edgeU(r, 32))
		}
		n := []int{0, 1, 2, 3, 30}[r.Intn(5)]
		if a.Flags&0xf00 == 0 {
			a.SampleCount = uint32(edgeU(r, 32))
			return
		}
		a.SampleCount = uint32(n)
		for ; n > 0; n-- {
			var e mp4io.TrackFragRunEntry
			if a.Flags&0x100 != 0 {
				e.Duration = uint32(edgeU(r, 32))
			}
			if a.Flags&0x200 != 0 {
				e.Size = uint32(edgeU(r, 32))
			}
			if a.Flags&0x400 != 0 {
				e.Flags = uint32(edgeU(r, 32))
			}
			if a.Flags&0x800 != 0 {
				e.Cts = uint32(edgeU(r, 32))
			}
			a.Entries = append(a.Entries, e)
		}
	default:
		panic(fmt.Sprintf("%T", a))
	}
}

func be(n int, v uint64) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func cat(bb ...[]byte) (r []byte) {
	for _, b := range bb {
		r = append(r, b...)
	}
	return
}

func oBox(tag string, body ...[]byte) []byte {
	b := cat(body...)
	return cat(be(4, uint64(8+len(b))), []byte(tag), b)
}

// encBox encodes a box from the layout table.  With a PRNG, children are put
// in random order and descriptor lengths take any of their legal forms.
func encBox(a mp4io.Atom, r *rand.Rand) []byte {
	if d, ok := a.(*mp4io.Dummy); ok {
		return d.Data
	}
	v := reflect.ValueOf(a).Elem()
	lay := boxLayout[v.Type().Name()]
	var head []byte
	var kids [][]byte
	countAt := -1
	for _, tok := range strings.Fields(lay.layout) {
		kind, fld, _ := strings.Cut(tok, ".")
		var f reflect.Value
		if fld != "" {
			f = v.FieldByName(fld)
		}
		switch {
		case kind == "u8":
			head = append(head, byte(f.Uint()))
		case kind == "u24":
			head = append(head, be(3, f.Uint())...)
		case kind == "u32":
			head = append(head, be(4, f.Uint())...)
		case kind == "i16":
			head = append(head, be(2, uint64(f.Int()))...)
		case kind == "i32":
			head = append(head, be(4, uint64(f.Int()))...)
		case kind == "t32":
			head = append(head, be(4, uint64(f.Interface().(time.Time).Unix()-epoch1904.Unix()))...)
		case kind == "f32":
			head = append(head, be(4, uint64(f.Float()*65536))...)
		case kind == "f16":
			head = append(head, be(2, uint64(f.Float()*256))...)
		case kind[0] == 'z':
			n, _ := strconv.Atoi(kind[1:])
			head = append(head, make([]byte, n)...)
		case kind[0] == 'a' && fld != "":
			w := 4
			if strings.HasSuffix(kind, "i16") {
				w = 2
			}
			for i := 0; i < f.Len(); i++ {
				head = append(head, be(w, uint64(f.Index(i).Int()))...)
			}
		case kind == "b":
			for i := 0; i < f.Len(); i++ {
				head = append(head, byte(f.Index(i).Uint()))
			}
		case kind == "rest":
			head = append(head, f.Bytes()...)
		case kind == "list":
			head = append(head, be(4, uint64(f.Len()))...)
			for i := 0; i < f.Len(); i++ {
				e := f.Index(i)
				if e.Kind() == reflect.Struct {
					for _, n := range strings.Fields(entryLayout[e.Type().Name()]) {
						head = append(head, be(4, e.FieldByName(n).Uint())...)
					}
				} else {
					head = append(head, be(4, e.Uint())...)
				}
			}
		case kind == "count":
			countAt = len(head)
			head = append(head, 0, 0, 0, 0)
		case kind == "box":
			if !f.IsNil() {
				kids = append(kids, encBox(f.Interface().(mp4io.Atom), r))
			}
		case kind == "boxes":
			for i := 0; i < f.Len(); i++ {
				kids = append(kids, encBox(f.Index(i).Interface().(mp4io.Atom), r))
			}
		case kind == "unk":
			for _, u := range v.FieldByName("Unknowns").Interface().([]mp4io.Atom) {
				kids = append(kids, encBox(u, r))
			}
		case kind[0] == '@':
			head = append(head, encCustom(a, r)...)
		}
	}
	if countAt >= 0 {
		copy(head[countAt:], be(4, uint64(len(kids))))
	}
	if r != nil { // order between different kinds of children is free
		idx := r.Perm(len(kids))
		sh := make([][]byte, len(kids))
		for i, j := range idx {
			sh[j] = kids[i]
		}
		// keep the relative order of boxes of one kind (tracks, unknowns)
		kids = stableKinds(kids, sh)
	}
	return oBox(lay.tag, append([][]byte{head}, kids...)...)
}

func kidKind(b []byte) string {
	t := string(b[4:8])
	for _, l := range boxLayout {
		if l.tag == t {
			return t
		}
	}
	return "?"
}

// stableKinds returns the children with the kinds in shuffled's order but the
// children of one kind in orig's order.
func stableKinds(orig, shuffled [][]byte) (r [][]byte) {
	q := map[string][][]byte{}
	for _, k := range orig {
		q[kidKind(k)] = append(q[kidKind(k)], k)
	}
	for _, k := range shuffled {
		kk := kidKind(k)
		r = append(r, q[kk][0])
		q[kk] = q[kk][1:]
	}
	return
}

// oDescr is one MPEG-4 descriptor with its length in 1 to 4 bytes.
func oDescr(tag byte, n int, body []byte) []byte {
	l := []byte{byte(len(body) & 0x7f)}
	for v := len(body) >> 7; v > 0 || len(l) < n; v >>= 7 {
		l = append([]byte{byte(v&0x7f) | 0x80}, l...)
	}
	return cat([]byte{tag}, l, body)
}

func oEsds(trackID uint16, cfg []byte, r *rand.Rand) []byte {
	n := func() int {
		if r == nil {
			return 4
		}
		return 1 + r.Intn(4)
	}
	dsi := oDescr(5, n(), cfg)
	dc := oDescr(4, n(), cat([]byte{0x40, 0x15}, be(3, 0), be(4, 200000), be(4, 0), dsi))
	es := oDescr(3, n(), cat(be(2, uint64(trackID)), []byte{0}, dc, oDescr(6, n(), []byte{2})))
	return cat(be(4, 0), es)
}

func encCustom(a mp4io.Atom, r *rand.Rand) []byte {
	switch a := a.(type) {
	case *mp4io.ElemStreamDesc:
		return oEsds(a.TrackId, a.DecConfig, r)
	case *mp4io.SampleSize:
		if a.SampleSize != 0 {
			return cat(be(4, uint64(a.SampleSize)), be(4, uint64(a.SampleCount)))
		}
		b := cat(be(4, 0), be(4, uint64(len(a.Entries))))
		for _, e := range a.Entries {
			b = append(b, be(4, uint64(e))...)
		}
		return b
	case *mp4io.TrackFragHeader:
		var b []byte
		if a.Flags&1 != 0 {
			b = append(b, be(8, a.BaseDataOffset)...)
		}
		for _, x := range []struct{ f, v uint32 }{{2, a.StsdId}, {8, a.DefaultDuration}, {0x10, a.DefaultSize}, {0x20, a.DefaultFlags}} {
			if a.Flags&x.f != 0 {
				b = append(b, be(4, uint64(x.v))...)
			}
		}
		return b
	case *mp4io.TrackFragDecodeTime:
		n := 4
		if a.Version != 0 {
			n = 8
		}
		return be(n, uint64(a.Time.Unix()-epoch1904.Unix()))
	case *mp4io.TrackFragRun:
		n := uint32(len(a.Entries))
		if a.Flags&0xf00 == 0 {
			n = a.SampleCount
		}
		b := be(4, uint64(n))
		if a.Flags&1 != 0 {
			b = append(b, be(4, uint64(a.DataOffset))...)
		}
		if a.Flags&4 != 0 {
			b = append(b, be(4, uint64(a.FirstSampleFlags))...)
		}
		for _, e := range a.Entries {
			for _, x := range []struct{ f, v uint32 }{{0x100, e.Duration}, {0x200, e.Size}, {0x400, e.Flags}, {0x800, e.Cts}} {
				if a.Flags&x.f != 0 {
					b = append(b, be(4, uint64(x.v))...)
				}
			}
		}
		return b
	}
	panic(fmt.Sprintf("%T", a))
}

var boxHead = map[string]int{"moov": 0, "trak": 0, "mdia": 0, "minf": 0, "dinf": 0, "dref": 8, "stbl": 0, "stsd": 8, "mp4a": 28, "avc1": 78, "moof": 0, "traf": 0, "mvex": 0}

// canonBox sorts children by kind (keeping the order within a kind), so that
// boxes that differ only in child order compare equal.
func canonBox(b []byte) ([]byte, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("box of %d bytes", len(b))
	}
	if n := int(binary.BigEndian.Uint32(b)); n != len(b) {
		return nil, fmt.Errorf("%q: size field %d, box has %d bytes", b[4:8], n, len(b))
	}
	h, ok := boxHead[string(b[4:8])]
	if !ok {
		return b, nil
	}
	if len(b) < 8+h {
		return nil, fmt.Errorf("%q: header cut short", b[4:8])
	}
	var kids [][]byte
	for p := 8 + h; p < len(b); {
		if len(b)-p < 8 {
			return nil, fmt.Errorf("%q: %d stray bytes", b[4:8], len(b)-p)
		}
		n := int(binary.BigEndian.Uint32(b[p:]))
		if n < 8 || n > len(b)-p {
			return nil, fmt.Errorf("%q: child of size %d in %d bytes", b[4:8], n, len(b)-p)
		}
		k, err := canonBox(b[p : p+n])
		if err != nil {
			return nil, fmt.Errorf("%q > %v", b[4:8], err)
		}
		kids = append(kids, k)
		p += n
	}
	sort.SliceStable(kids, func(i, j int) bool { return kidKind(kids[i]) < kidKind(kids[j]) })
	return cat(append([][]byte{b[:8+h]}, kids...)...), nil
}

// boxEq compares the modelled fields.
func boxEq(path string, a, b reflect.Value) error {
	if a.Type() != b.Type() {
		return fmt.Errorf("%s: %v and %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Errorf("%s: present on one side only", path)
			}
			return nil
		}
		return boxEq(path, a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := boxEq(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Struct:
		if t, ok := a.Interface().(time.Time); ok {
			if !t.Equal(b.Interface().(time.Time)) {
				return fmt.Errorf("%s: %v and %v", path, a, b)
			}
			return nil
		}
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.Name == "AtomPos" || !f.IsExported() {
				continue
			}
			if err := boxEq(path+"."+f.Name, a.Field(i), b.Field(i)); err != nil {
				return err
			}
		}
		return nil
	}
	if a.Interface() != b.Interface() {
		return fmt.Errorf("%s: %v and %v", path, a, b)
	}
	return nil
}

func boxesEqual(a, b mp4io.Atom) error { return boxEq("", reflect.ValueOf(a), reflect.ValueOf(b)) }

func shortHex(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x...(%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// marshalChecked marshals a into exactly Len bytes.
func marshalChecked(c *C, a mp4io.Atom) []byte {
	l := a.Len()
	if l < 0 || l > 1<<26 {
		c.Failf("%T: Len is %d", a, l)
	}
	b := make([]byte, l)
	n := a.Marshal(b[:l:l])
	if n != l {
		c.Failf("%T: Len says %d bytes, Marshal wrote %d", a, l, n)
	}
	if s := binary.BigEndian.Uint32(b); int(s) != l {
		c.Failf("%T: size field %d in a box of %d bytes", a, s, l)
	}
	return b
}

// walkBoxes checks positions and child lists of a parsed box.
func walkBoxes(c *C, a mp4io.Atom, file []byte, base int) int {
	off, size := a.Pos()
	off -= base
	if off < 0 || size < 8 || off+size > len(file) {
		c.Failf("%T: position %d+%d in %d bytes", a, off, size, len(file))
	}
	if int(binary.BigEndian.Uint32(file[off:])) != size || mp4io.Tag(binary.BigEndian.Uint32(file[off+4:])) != a.Tag() {
		c.Failf("%T: position %d+%d does not hold this box (%x)", a, off, size, file[off:off+8])
	}
	n := 1
	for _, k := range a.Children() {
		n += walkBoxes(c, k, file, base)
	}
	return n
}

func init() {
	register(&propDef{
		id:   "C15",
		mul:  8,
		rule: "boxes of at least one field or child, distinct by their bytes",
		assume: []string{
			"fixed-point fields hold multiples of their unit, times whole seconds, 24-bit fields values below 2^24",
			"a container holds at most one box of each kind the model holds singly",
			"esds descriptors other than ES/DecoderConfig/DecoderSpecific are written with their defaults",
		},
		must: []string{"boxes", "unknown boxes", "foreign boxes parsed", "files"},
		run: func(x *Ctx) {
			names := boxNames()
			x.Each("box-types", x.N(400, 20000)*len(names), func(c *C) {
				name := names[c.Idx%len(names)]
				g := &boxGen{r: c.R}
				a := g.fill(name)
				want := encBox(a, nil)
				c.Desc("%s %s", name, shortHex(want))
				got := marshalChecked(c, a)
				cg, err := canonBox(got)
				if err != nil {
					c.Failf("%s: %v", name, err)
				}
				cw, err := canonBox(want)
				if err != nil {
					c.Failf("oracle: %v", err)
				}
				if !bytes.Equal(cg, cw) {
					c.Failf("%s: marshals to %s, the layout says %s", name, shortHex(got), shortHex(want))
				}
				// back from the library's own bytes
				back := newBox(name)
				if _, err := back.Unmarshal(append([]byte(nil), got...), 100); err != nil {
					c.Failf("%s: does not parse its own bytes: %v", name, err)
				}
				if err := boxesEqual(a, back); err != nil {
					c.Failf("%s: own bytes parse to a different box: %v", name, err)
				}
				if n := walkBoxes(c, back, got, 100); n != g.boxes {
					c.Failf("%s: %d boxes listed, %d written", name, n, g.boxes)
				}
				mp4io.FprintAtom(io.Discard, back)
				// from another writer's bytes
				foreign := encBox(a, c.R)
				back = newBox(name)
				if _, err := back.Unmarshal(foreign, 0); err != nil {
					c.Failf("%s: does not parse a conforming box: %v: %s", name, err, shortHex(foreign))
				}
				if err := boxesEqual(a, back); err != nil {
					c.Failf("%s: a conforming box parses to a different one: %v: %s", name, err, shortHex(foreign))
				}
				again := marshalChecked(c, back)
				ca, err := canonBox(again)
				if err != nil || !bytes.Equal(ca, cw) {
					c.Failf("%s: re-writing a parsed box changes it: %s instead of %s", name, shortHex(again), shortHex(want))
				}
				c.Count("foreign boxes parsed", 1)
				c.Count("boxes", g.boxes)
				countUnknown(c, a)
				c.State("box types", name)
				c.State("box type and size class", name, len(want)/64)
				if len(want) > 8 {
					c.Nontrivial(want)
				}
				c.Sample("%s of %d bytes, %d boxes", name, len(want), g.boxes)
			})
			// whole files: the box list reader, positions and movie boxes
			x.Each("files", x.N(300, 6000), func(c *C) {
				var file []byte
				type ent struct {
					tag       string
					off, size int
					a         mp4io.Atom
				}
				var want []ent
				for n := 1 + c.R.Intn(6); n > 0; n-- {
					var body []byte
					e := ent{off: len(file)}
					g := &boxGen{r: c.R}
					switch c.R.Intn(4) {
					case 0:
						e.a = g.fill("Movie")
						body = encBox(e.a, c.R)
					case 1:
						e.a = g.fill("MovieFrag")
						body = encBox(e.a, c.R)
					default:
						body = oBox([]string{"ftyp", "free", "mdat", "wide", "uuid"}[c.R.Intn(5)], genBytes(c.R, c.R.Intn(200)))
					}
					e.tag = string(body[4:8])
					last := n == 1
					switch form := c.R.Intn(5); {
					case form == 0: // 64-bit size
						body = cat(be(4, 1), body[4:8], be(8, uint64(len(body)+8)), body[8:])
					case form == 1 && last: // to the end of the file
						body = cat(be(4, 0), body[4:])
					}
					e.size = len(body)
					file = append(file, body...)
					want = append(want, e)
				}
				c.Desc("%s", shortHex(file))
				atoms, err := mp4io.ReadFileAtoms(bytes.NewReader(file))
				if err != nil {
					c.Failf("conforming file: %v", err)
				}
				if len(atoms) != len(want) {
					c.Failf("%d boxes listed, the file has %d", len(atoms), len(want))
				}
				for i, a := range atoms {
					w := want[i]
					if a.Tag().String() != w.tag && w.tag != "uuid" {
						c.Failf("box %d: tag %v instead of %q", i, a.Tag(), w.tag)
					}
					if off, _ := a.Pos(); off != w.off {
						c.Failf("box %d (%s): offset %d instead of %d", i, w.tag, off, w.off)
					}
					if w.a != nil {
						if err := boxesEqual(w.a, a); err != nil {
							c.Failf("box %d (%s): %v", i, w.tag, err)
						}
						g, err := canonBox(marshalChecked(c, a))
						cw, _ := canonBox(encBox(w.a, nil))
						if err != nil || !bytes.Equal(g, cw) {
							c.Failf("box %d (%s): re-written differently", i, w.tag)
						}
					} else if _, size := a.Pos(); size != w.size {
						c.Failf("box %d (%s): size %d instead of %d", i, w.tag, size, w.size)
					}
				}
				c.Count("files", 1)
				c.Nontrivial(file)
			})
		},
	})
}

func countUnknown(c *C, a mp4io.Atom) {
	if _, ok := a.(*mp4io.Dummy); ok {
		c.Count("unknown boxes", 1)
	}
	for _, k := range a.Children() {
		countUnknown(c, k)
	}
}
