package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/rtmp"
)

func init() {
	register(&propDef{id: "C27",
		mul:    3,
		rule:   "generated packet sequences are written and read through URLs of every kind (FLV and MP4 files under odd names, HTTP-FLV, RTMP client and listener, RTSP) with all callbacks recorded, and unsupported, unparsable and refused URLs against a snapshot of the directory; files are parsed by independent parsers. Non-trivial = a case with packets or a refused URL; distinct by URL and content",
		assume: []string{"RTMP, RTSP and HTTP run over real loopback connections", "paths are absolute, inside a scratch directory"},
		must:   []string{"flv files", "mp4 files", "http", "http refused", "rtmp read", "rtmp written", "rtmp listened", "rtsp", "refused urls", "overwritten files", "escaped names", "rtmps", "full devices", "descriptor checks", "quiet"},
		run:    runC27})
}

// dirState is the whole content of a directory.
func dirState(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		h := ""
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s := sha256.Sum256(b)
			h = hex.EncodeToString(s[:8])
		}
		rel, _ := filepath.Rel(dir, p)
		out = append(out, fmt.Sprintf("%s %v %d %s %d", rel, fi.Mode(), fi.Size(), h, fi.ModTime().UnixNano()))
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

var scratchN int64

// scratch makes a directory of the case under the run's own one.
func (c *C) scratch() (dir string, remove func()) {
	base := os.Getenv("VH_TMP")
	if base == "" {
		c.Failf("no scratch directory")
	}
	dir = filepath.Join(base, "s", fmt.Sprint(atomic.AddInt64(&scratchN, 1)))
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Failf("scratch: %v", err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func genName(r *rand.Rand, ext string) string {
	stem := []string{"a", "movie", "with space", "per%cent", "q?mark", "hash#tag", "plus+", "ünïcode", "a.b.c", "UP", "日本", "semi;colon", "co:lon", "ba\\ck", "a&b=c", "'quote\"", ".mp4", ".flv", "x.mp4", "[br]", "-dash", "~t"}[r.Intn(22)]
	if stem[0] == '.' && ext == "" {
		stem = "p" + stem
	}
	return stem + ext
}

// fileURL writes a path as a URL.
func fileURL(r *rand.Rand, path string) string {
	u := url.URL{Path: path}
	if r.Intn(3) == 0 {
		u.Scheme = "file"
	}
	if r.Intn(8) == 0 {
		u.RawQuery = "x=1.mp4"
	}
	if r.Intn(8) == 0 {
		u.Fragment = "f.flv"
	}
	return u.String()
}

// opener records every callback.
type opener struct {
	format.URLOpener
	mu  sync.Mutex
	log []string
	flv *flv.Demuxer
	mux *flv.Muxer
	rc  *rtmp.Conn
	raw []net.Conn // what ReplaceRawConn made
	hdr int
}

type countedConn struct{ net.Conn }

func newOpener(r *rand.Rand, all bool) *opener {
	o := &opener{}
	add := func(s string) {
		o.mu.Lock()
		o.log = append(o.log, s)
		o.mu.Unlock()
	}
	set := func() bool { return all || r.Intn(2) == 0 }
	if set() {
		o.OnNewFlvDemuxer = func(d *flv.Demuxer) {
			add("flvdemuxer")
			o.flv = d
			d.LogHeaderEvent = func(uint8) { o.hdr++ }
		}
	}
	if set() {
		o.OnNewFlvMuxer = func(m *flv.Muxer) { add("flvmuxer"); o.mux = m; m.HasVideo = true }
	}
	if set() {
		o.OnNewRtmpConn = func(c *rtmp.Conn) { add("rtmpconn"); o.rc = c }
	}
	if set() {
		o.OnNewRtmpClient = func(*rtmp.Client) { add("rtmpclient") }
	}
	if set() {
		o.OnNewRtmpServer = func(*rtmp.Server) { add("rtmpserver") }
	}
	if set() {
		o.NewDialFunc = func() func(context.Context, string, string) (net.Conn, error) {
			add("dialfunc")
			return (&net.Dialer{}).DialContext
		}
	}
	if set() {
		o.ReplaceRawConn = func(nc net.Conn) net.Conn {
			add("rawconn")
			n := countedConn{nc}
			o.mu.Lock()
			o.raw = append(o.raw, n)
			o.mu.Unlock()
			return n
		}
	}
	return o
}

// calls checks the recorded callbacks against the ones that must have run.
func (o *opener) calls(c *C, what string, want ...string) {
	o.mu.Lock()
	got := append([]string(nil), o.log...)
	o.log = nil
	o.mu.Unlock()
	var w []string
	for _, s := range want {
		if map[string]bool{"flvdemuxer": o.OnNewFlvDemuxer != nil, "flvmuxer": o.OnNewFlvMuxer != nil, "rtmpconn": o.OnNewRtmpConn != nil, "rtmpclient": o.OnNewRtmpClient != nil, "rtmpserver": o.OnNewRtmpServer != nil, "dialfunc": o.NewDialFunc != nil, "rawconn": o.ReplaceRawConn != nil}[s] {
			w = append(w, s)
		}
	}
	sort.Strings(got)
	sort.Strings(w)
	if strings.Join(got, " ") != strings.Join(w, " ") {
		c.Failf("%s: callbacks %v, want %v", what, got, w)
	}
}

type codecStreamer struct {
	s   []interface{}
	err error
}

func (s codecStreamer) Streams() ([]interface{}, error) { return s.s, s.err }

func runC27(x *Ctx) {
	x.Each("flv", x.N(1500, 40000), func(c *C) {
		r := c.R
		dir, rm := c.scratch()
		defer rm()
		ext := ".flv"
		name := filepath.Join(dir, genName(r, ext))
		us := fileURL(r, name)
		pkts := genPackets(c, r.Intn(20), 20000)
		c.Desc("%s: %d packets", us, len(pkts))
		if r.Intn(3) == 0 { // something is there already
			os.WriteFile(name, genBytes(r, 100000), 0644)
			c.Count("overwritten files", 1)
		}
		var other []string
		for i := 0; i < 2; i++ {
			n := filepath.Join(dir, genName(r, []string{".flv", ".mp4", "", ".txt"}[r.Intn(4)]))
			if n != name {
				os.WriteFile(n, genBytes(r, 10), 0644)
				other = append(other, n)
			}
		}
		for _, n := range other {
			if strings.Contains(us, "%") && n != name {
				c.Count("escaped names", 1)
				break
			}
		}
		o := newOpener(r, r.Intn(2) == 0)
		var st av.Streamer
		if r.Intn(2) == 0 {
			st = codecStreamer{}
		}
		w, err := o.Create(us, st)
		if err != nil {
			c.Failf("Create: %v", err)
		}
		o.calls(c, "Create", "flvmuxer")
		if w.IsRemote || w.Rtmp != nil || w.NetConn != nil {
			c.Failf("a file writer with %+v", w)
		}
		for i, p := range pkts {
			if err := w.WritePacket(p); err != nil {
				c.Failf("write %d: %v", i, err)
			}
		}
		if err := w.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		c.released(name, "the writer")
		b, err := os.ReadFile(name)
		if err != nil {
			c.Failf("the file is missing: %v", err)
		}
		if ents, _ := os.ReadDir(dir); len(ents) > 1+len(other) {
			c.Failf("%d files in the directory, want %d: %v", len(ents), 1+len(other), ents)
		}
		for _, n := range other {
			if fi, err := os.Stat(n); err != nil || fi.Size() != 10 {
				c.Failf("another file was changed: %s %v", n, err)
			}
		}
		if len(pkts) > 0 {
			f, err := oParseFLV(b)
			if err != nil {
				c.Failf("independent parser: %v", err)
			}
			if len(f.tags) != len(pkts) {
				c.Failf("%d tags, %d packets", len(f.tags), len(pkts))
			}
			for i, t := range f.tags {
				if err := oTagMatches(t.typ, t.ts, t.body, pkts[i], false); err != nil {
					c.Failf("tag %d: %v", i, err)
				}
			}
			if o.OnNewFlvMuxer != nil && f.flags&1 == 0 {
				c.Failf("the callback's muxer is not the one used")
			}
		} else if len(b) != 0 {
			if _, err := oParseFLV(b); err != nil {
				c.Failf("independent parser: %v", err)
			}
		}
		before := dirState(dir)
		rd, err := o.Open(us)
		if err != nil {
			c.Failf("Open: %v", err)
		}
		o.calls(c, "Open", "flvdemuxer")
		if rd.IsRemote || rd.Rtmp != nil || rd.Flv == nil || (o.OnNewFlvDemuxer != nil && rd.Flv != o.flv) {
			c.Failf("a file reader with %+v", rd)
		}
		got, err := readAllPackets(rd.ReadPacket, len(pkts)+2)
		checkPackets(c, "read back", got, pkts)
		if err != io.EOF {
			c.Failf("end: %v", err)
		}
		if err := rd.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		c.released(name, "the reader")
		if d := dirState(dir); d != before {
			c.Failf("reading changed the directory:\n%s\n->\n%s", before, d)
		}
		if o.OnNewFlvDemuxer != nil && o.hdr != 1 && len(pkts) > 0 {
			c.Failf("header event %d times", o.hdr)
		}
		c.Count("flv files", 1)
		if len(pkts) > 0 {
			c.Nontrivial(us[len(dir):], string(b))
		}
		c.State("flv", len(pkts) > 0, strings.HasPrefix(us, "file:"), strings.Contains(us, "%"))
		c.Sample("%s: %d packets, %d bytes", us, len(pkts), len(b))
	})
	x.Each("mp4", x.N(800, 20000), func(c *C) {
		r := c.R
		dir, rm := c.scratch()
		defer rm()
		name := filepath.Join(dir, genName(r, ".mp4"))
		us := fileURL(r, name)
		ms := genCodecSet(c)
		order := genMP4Packets(c, ms, []int{0, 1, 2, 5, 40}[r.Intn(5)])
		c.Desc("%s: %d packets", us, len(order))
		if r.Intn(3) == 0 {
			os.WriteFile(name, genBytes(r, 200000), 0644)
			c.Count("overwritten files", 1)
		}
		st := codecStreamer{}
		for _, m := range ms {
			st.s = append(st.s, m.codec)
		}
		o := newOpener(r, r.Intn(2) == 0)
		w, err := o.Create(us, st)
		if err != nil {
			c.Failf("Create: %v", err)
		}
		o.calls(c, "Create")
		for i, p := range order {
			if err := w.WritePacket(p); err != nil {
				c.Failf("write %d: %v", i, err)
			}
		}
		if err := w.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		c.released(name, "the writer")
		b, err := os.ReadFile(name)
		if err != nil {
			c.Failf("the file is missing: %v", err)
		}
		checkMuxed(c, b, ms, len(ms))
		f, err := os.Open(name)
		if err != nil {
			c.Failf("%v", err)
		}
		defer f.Close()
		d := mp4.NewDemuxer(f)
		got, err := readAllPackets(d.ReadPacket, len(order)+2)
		if err != io.EOF || len(got) != len(order) {
			c.Failf("reading back gave %d of %d packets and %v", len(got), len(order), err)
		}
		if ents, _ := os.ReadDir(dir); len(ents) != 1 {
			c.Failf("%d files in the directory: %v", len(ents), ents)
		}
		// reading MP4 by URL is not offered, and must not harm the file
		before := dirState(dir)
		if rd, err := o.Open(us); err == nil || rd != nil {
			c.Failf("opened %s for reading: %v", us, err)
		}
		if s := dirState(dir); s != before {
			c.Failf("a refused Open changed the directory")
		}
		c.Count("mp4 files", 1)
		if len(order) > 0 {
			c.Nontrivial(us[len(dir):], string(b))
		}
		c.Sample("%s: %d packets, %d bytes", us, len(order), len(b))
	})
	// URLs that name nothing supported
	x.Each("refused", x.N(3000, 60000), func(c *C) {
		r := c.R
		dir, rm := c.scratch()
		defer rm()
		for i, n := 0, r.Intn(4); i < n; i++ {
			os.WriteFile(filepath.Join(dir, genName(r, []string{".flv", ".mp4", ".ts", "", ".FLV", ".flv.bak"}[r.Intn(6)])), genBytes(r, 50), 0644)
		}
		var us string
		create := r.Intn(2) == 0
		var st av.Streamer = codecStreamer{}
		name := ""
		kind := r.Intn(8)
		switch kind {
		case 0: // extension
			name = genName(r, []string{".ts", ".mkv", "", ".FLV", ".Mp4", ".flv2", ".mp4.tmp", ".", ".fl", ".mov", ".aac", ".h264", ".flv "}[r.Intn(13)])
			if e := filepath.Ext(name); e == ".flv" || e == ".mp4" {
				name += "x"
			}
			us = fileURL(r, filepath.Join(dir, name))
		case 1: // scheme
			name = genName(r, []string{".flv", ".mp4"}[r.Intn(2)])
			u := url.URL{Scheme: []string{"ftp", "hls", "rtmpt", "rtmpe", "sftp", "udp", "data", "flv", "s3"}[r.Intn(9)], Path: filepath.Join(dir, name), Host: []string{"", "127.0.0.1", "127.0.0.1:1"}[r.Intn(3)]}
			us = u.String()
		case 2: // not a URL
			name = []string{"a%zz.flv", "a%.flv", "a\x7f.flv", "a\n.flv", "%"}[r.Intn(5)]
			us = filepath.Join(dir, name)
			if r.Intn(2) == 0 {
				us = "http://[::1" + us
			}
			if r.Intn(4) == 0 {
				us = "rtmp://127.0.0.1:port" + filepath.Join(dir, "a.flv")
			}
		case 3: // writing where only reading is offered, and the reverse
			create = r.Intn(2) == 0
			name = genName(r, ".flv")
			u := url.URL{Scheme: []string{"http", "https", "rtsp"}[r.Intn(3)], Host: "127.0.0.1:1", Path: filepath.Join(dir, name)}
			if !create {
				u.Scheme = []string{"", "file", "http"}[r.Intn(3)]
				if u.Scheme == "" || u.Scheme == "file" {
					u.Host = ""
				}
				name = genName(r, []string{".mp4", ".ts"}[r.Intn(2)])
				u.Path = filepath.Join(dir, name)
			}
			us = u.String()
		case 4: // missing file or directory
			create = r.Intn(2) == 0
			if create {
				us = fileURL(r, filepath.Join(dir, "no", "such", genName(r, []string{".flv", ".mp4"}[r.Intn(2)])))
			} else {
				us = fileURL(r, filepath.Join(dir, "missing-"+genName(r, ".flv")))
			}
		case 5: // MP4 without streams
			create = true
			st = nil
			us = fileURL(r, filepath.Join(dir, genName(r, ".mp4")))
		case 6: // nobody listens
			u := url.URL{Scheme: []string{"rtmp", "rtmps", "rtsp", "http"}[r.Intn(4)], Host: "127.0.0.1:1", Path: filepath.Join(dir, genName(r, ".flv"))}
			create = u.Scheme[:4] == "rtmp" && r.Intn(2) == 0
			us = u.String()
		case 7: // nothing
			us = []string{"", "@", ".", "/", "file:", "file://", "@file:", dir, "rtmp:", "rtsp:", "http:", "?", "#a.flv", "a", "file:a.flv", "http:a.flv"}[r.Intn(16)]
			if us == "http:a.flv" || us == "rtmp:" || us == "rtsp:" || us == "http:" {
				create = false
			}
		}
		if !create && kind < 3 && r.Intn(6) == 0 {
			us = "@" + us
		}
		before := dirState(dir)
		c.Desc("create=%v %q in\n%s", create, us, before)
		o := newOpener(r, true)
		var err error
		c.within(30*time.Second, "the refusal", func() {
			if create {
				var w *format.Writer
				if w, err = o.Create(us, st); err == nil {
					c.Failf("created %q: %+v", us, w)
				}
				if w != nil {
					c.Failf("%q: a writer and %v", us, err)
				}
			} else {
				var rd *format.Reader
				if rd, err = o.Open(us); err == nil {
					c.Failf("opened %q: %+v", us, rd)
				}
				if rd != nil {
					c.Failf("%q: a reader and %v", us, err)
				}
			}
		})
		if d := dirState(dir); d != before {
			c.Failf("%q (create=%v, error %v) changed the directory:\n%s\n->\n%s", us, create, err, before, d)
		}
		for _, l := range o.log {
			if strings.HasPrefix(l, "flv") || l == "rtmpconn" {
				c.Failf("callback %s for %q", l, us)
			}
		}
		c.Count("refused urls", 1)
		c.Nontrivial(create, strings.ReplaceAll(us, dir, "DIR"), kind)
		c.State("refusals", kind, create)
		c.Sample("create=%v %q: %v", create, us, err)
	})
	// an error of the streamer
	x.Each("streamer", x.N(100, 1000), func(c *C) {
		r := c.R
		dir, rm := c.scratch()
		defer rm()
		o := newOpener(r, true)
		st := codecStreamer{err: errors.New("no streams yet")}
		if r.Intn(2) == 0 {
			st = codecStreamer{s: []interface{}{"unknown codec"}}
		}
		if w, err := o.Create(fileURL(r, filepath.Join(dir, "a.mp4")), st); err == nil || w != nil {
			c.Failf("created without streams: %v", w)
		}
		c.released(filepath.Join(dir, "a.mp4"), "the refused output")
		c.Nontrivial(c.Idx)
	})
	x.Each("full", x.N(100, 1000), fullDisk)
	x.Each("http", x.N(600, 8000), func(c *C) { httpFLV(c) })
	x.Each("rtmp", x.N(800, 12000), func(c *C) { openRTMP(c) })
	x.Each("rtmp-listen", x.N(400, 6000), func(c *C) { listenRTMP(c) })
	x.Each("rtsp", x.N(400, 6000), func(c *C) { openRTSP(c) })
	// a source or target that is quiet for a while stays open
	x.EachLim("quiet", 6, 6, defaultCaseLimit, func(c *C) {
		c.quiet = 17 * time.Second
		if x.Tier == "thorough" {
			c.quiet = 33 * time.Second
		}
		[]func(*C){httpFLV, openRTMP, openRTMP, listenRTMP, openRTSP, openRTSP}[c.Idx](c)
		c.Count("quiet", 1)
	})
}

// lull pauses once in a sequence of n steps.
func (c *C) lull(i, n int) {
	if c.quiet > 0 && i == n/2 {
		time.Sleep(c.quiet)
	}
}

// released checks that no descriptor of this process refers to a file.
func (c *C) released(name, what string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return
	}
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == name {
			c.Failf("%s is closed but its file is still open", what)
		}
	}
	c.Count("descriptor checks", 1)
}

// fullDisk writes to a device that takes nothing.
func fullDisk(c *C) {
	r := c.R
	dir, rm := c.scratch()
	defer rm()
	isMP4 := r.Intn(2) == 0
	name := filepath.Join(dir, map[bool]string{true: "a.mp4", false: "a.flv"}[isMP4])
	if err := os.Symlink("/dev/full", name); err != nil {
		c.Failf("harness: %v", err)
	}
	o := newOpener(r, r.Intn(2) == 0)
	var err error
	var w *format.Writer
	n := 0
	c.Desc("%s", filepath.Base(name))
	if isMP4 {
		ms := genCodecSet(c)
		order := genMP4Packets(c, ms, 1+r.Intn(40))
		st := codecStreamer{}
		for _, m := range ms {
			st.s = append(st.s, m.codec)
		}
		if w, err = o.Create(name, st); err == nil {
			for _, p := range order {
				if err = w.WritePacket(p); err != nil {
					break
				}
				n++
			}
		}
	} else if w, err = o.Create(name, nil); err == nil {
		for _, p := range genPackets(c, 1+r.Intn(10), 8000) {
			if err = w.WritePacket(p); err != nil {
				break
			}
			n++
		}
	}
	if w != nil {
		if cerr := w.Close(); err == nil {
			err = cerr
		}
	}
	if err == nil {
		c.Failf("%d packets were written to a full device and no call reported it", n)
	}
	c.Count("full devices", 1)
	c.Nontrivial(isMP4, c.Idx)
}

func httpFLV(c *C) {
	r := c.R
	file, want, _ := genForeignFLV(c, r.Intn(20), 3000)
	code := 200
	if r.Intn(4) == 0 && c.quiet == 0 {
		code = []int{404, 403, 500, 503, 401, 410}[r.Intn(6)]
	}
	endless := code == 200 && r.Intn(4) == 0
	path := "/live/" + genName(r, ".flv")
	u := url.URL{Scheme: "http", Path: path, RawQuery: []string{"", "token=a.mp4&x=%20"}[r.Intn(2)]}
	gone := make(chan bool, 1)
	l, err := getListener()
	if err != nil {
		c.X.Note("listen: %v", err)
		return
	}
	u.Host = l.Addr().String()
	var reqs int32
	hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		atomic.AddInt32(&reqs, 1)
		if q.Method != "GET" || q.URL.Path != path || q.URL.RawQuery != u.RawQuery {
			c.Count("bad requests", 1)
			w.WriteHeader(400)
			return
		}
		w.Header().Set("Content-Type", "video/x-flv")
		w.WriteHeader(code)
		rr := r2(c)
		f := w.(http.Flusher)
		b := file
		for i := 0; len(b) > 0; i++ {
			c.lull(i, 2)
			n := 1 + rr.Intn(len(b))
			if c.quiet > 0 && i == 0 {
				n = (len(b) + 1) / 2
			}
			w.Write(b[:n])
			f.Flush()
			b = b[n:]
		}
		if endless {
			select {
			case <-q.Context().Done():
				gone <- true
			case <-time.After(60 * time.Second):
			}
		}
	})}
	served := make(chan bool)
	go func() { hs.Serve(keepOpen{l}); close(served) }()
	defer func() {
		hs.Close()
		<-served
		l.Close()
	}()
	c.Desc("%s status %d, %d packets, endless %v", u.String(), code, len(want), endless)
	o := newOpener(r, r.Intn(2) == 0)
	c.within(40*time.Second, "HTTP-FLV", func() {
		rd, err := o.Open(u.String())
		if code != 200 {
			if err == nil {
				c.Failf("status %d was taken for a stream", code)
			}
			if rd != nil {
				c.Failf("a reader and %v", err)
			}
			o.calls(c, "Open")
			c.Count("http refused", 1)
			return
		}
		if err != nil {
			c.Failf("Open: %v", err)
		}
		o.calls(c, "Open", "flvdemuxer")
		if !rd.IsRemote || rd.Flv == nil || (o.flv != nil && rd.Flv != o.flv) {
			c.Failf("reader %+v", rd)
		}
		n := len(want) + 2
		if endless {
			n = len(want)
		}
		got, err := readAllPackets(rd.ReadPacket, n)
		checkPackets(c, "HTTP", got, want)
		if !endless && err != io.EOF {
			c.Failf("end: %v", err)
		}
		rd.Close()
		if endless {
			select {
			case <-gone:
			case <-time.After(30 * time.Second):
				c.Failf("the transfer goes on after Close")
			}
			c.Count("http closed", 1)
		}
		c.Count("http", 1)
	})
	if n := atomic.LoadInt32(&reqs); n != 1 {
		c.Failf("%d requests", n)
	}
	c.Nontrivial(u.Path, code, string(file))
}

// keepOpen keeps a pooled listener from being closed twice.
type keepOpen struct{ net.Listener }

func (c *C) playOrRead(pkts []av.Packet, sc *rtmp.Conn, nc net.Conn, g *gotTags) {
	defer nc.Close()
	if sc.Publishing {
		g.readLoop(sc, false, nil)
		return
	}
	for i, p := range pkts {
		c.lull(i, len(pkts))
		if err := sc.WritePacket(p); err != nil {
			return
		}
	}
	// the client reads to the end before the connection goes away
	nc.(*net.TCPConn).CloseWrite()
	<-sc.CloseNotify()
}

func openRTMP(c *C) {
	r := c.R
	publish := r.Intn(2) == 0
	if c.quiet > 0 {
		publish = c.Idx%2 == 0
	}
	pkts := genPackets(c, 1+r.Intn(30), 20000)
	l, err := getListener()
	if err != nil {
		c.X.Note("listen: %v", err)
		return
	}
	path := []string{"/app/s", "/a/b/c", "/live/x.flv", "/live/y.mp4", "/app/s?k=v&z=%25"}[r.Intn(5)]
	us := "rtmp://" + l.Addr().String() + path
	secure := publish && r.Intn(4) == 0
	if secure {
		us = "rtmps" + us[4:]
		c.Count("rtmps", 1)
	}
	g := &gotTags{}
	srv := rtmp.NewServer()
	var surl string
	srv.HandleConn = func(sc *rtmp.Conn, nc net.Conn) {
		surl = sc.URL.Path
		if sc.Publishing != publish {
			c.record("", "wrong direction", "")
		}
		c.playOrRead(pkts, sc, nc, g)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		l.(*net.TCPListener).SetDeadline(time.Now().Add(60 * time.Second))
		nc, err := l.Accept()
		if err != nil {
			c.record("", fmt.Sprintf("accept: %v", err), "")
			return
		}
		if secure {
			nc = tls.Server(nc, testTLS())
		}
		srv.HandleNetConn(nc)
	}()
	c.Desc("%s publish %v, %d packets", us, publish, len(pkts))
	o := newOpener(r, r.Intn(2) == 0)
	var want []av.Packet
	for _, p := range pkts {
		want = append(want, wantRead(p))
	}
	c.within(60*time.Second, "RTMP session", func() {
		if publish {
			w, err := o.Create(us, nil)
			if err != nil {
				c.Failf("Create: %v", err)
			}
			o.calls(c, "Create", "rtmpclient", "rtmpconn", "dialfunc", "rawconn")
			if !w.IsRemote || w.Rtmp == nil || w.NetConn == nil || (o.OnNewRtmpConn != nil && o.rc != w.Rtmp) || (o.ReplaceRawConn != nil && !secure && w.NetConn != o.raw[0]) {
				c.Failf("writer %+v", w)
			}
			for i, p := range pkts {
				c.lull(i, len(pkts))
				if err := w.WritePacket(p); err != nil {
					c.Failf("write %d: %v", i, err)
				}
			}
			if err := w.Close(); err != nil {
				c.Failf("Close: %v", err)
			}
			<-done
			checkPackets(c, "published", g.pkts, want)
			c.Count("rtmp written", 1)
			return
		}
		rd, err := o.Open(us)
		if err != nil {
			c.Failf("Open: %v", err)
		}
		o.calls(c, "Open", "rtmpclient", "rtmpconn", "dialfunc", "rawconn")
		if !rd.IsRemote || rd.Rtmp == nil || rd.NetConn == nil || (o.OnNewRtmpConn != nil && o.rc != rd.Rtmp) || (o.ReplaceRawConn != nil && rd.NetConn != o.raw[0]) {
			c.Failf("reader %+v", rd)
		}
		got, err := readAllPackets(rd.ReadPacket, len(pkts)+2)
		checkPackets(c, "played", got, want)
		if err != io.EOF {
			c.Failf("end: %v", err)
		}
		if err := rd.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		<-done
		c.Count("rtmp read", 1)
	})
	putListener(l)
	if p, _, _ := strings.Cut(path, "?"); surl != p {
		c.Failf("the server saw %q", surl)
	}
	c.Nontrivial(path, publish, len(pkts), c.Idx)
}

var ownAddrN int64

// ownAddr is a loopback address nobody else of this run listens on.
func ownAddr() string {
	n := atomic.AddInt64(&ownAddrN, 1)
	return fmt.Sprintf("127.%d.%d.%d:19350", 2+n>>16&127, n>>8&255, n&255)
}

// listenRTMP opens "@rtmp://", with other clients around the publisher.
func listenRTMP(c *C) {
	r := c.R
	pkts := genPackets(c, 1+r.Intn(30), 20000)
	addr := ownAddr()
	us := "@rtmp://" + addr + "/any"
	o := newOpener(r, r.Intn(2) == 0)
	early := r.Intn(4) // clients that are no publisher come first
	late := r.Intn(4) == 0
	c.Desc("%s: %d packets, early %d late %v", us, len(pkts), early, late)
	var want []av.Packet
	for _, p := range pkts {
		want = append(want, wantRead(p))
	}
	c.within(90*time.Second, "RTMP listener", func() {
		type opened struct {
			rd  *format.Reader
			err error
		}
		ch := make(chan opened, 1)
		go func() {
			rd, err := o.Open(us)
			ch <- opened{rd, err}
		}()
		dial := func() net.Conn {
			for i := 0; ; i++ {
				nc, err := net.DialTimeout("tcp", addr, 5*time.Second)
				if err == nil {
					return nc
				}
				if i == 1000 {
					c.Failf("nothing listens: %v", err)
				}
				select {
				case op := <-ch:
					ch <- op
					if op.err != nil {
						c.Failf("Open: %v", op.err)
					}
				case <-time.After(5 * time.Millisecond):
				}
			}
		}
		for i := 0; i < early; i++ {
			nc := dial()
			switch r.Intn(3) {
			case 0:
				nc.Close()
			case 1:
				nc.Write(genBytes(r, 100))
				defer nc.Close()
			case 2: // a player is turned away
				nc.SetDeadline(time.Now().Add(30 * time.Second))
				if rc, err := rtmp.NewClient().FromNetConn(nc, mustURL(us[1:]), rtmp.PrepareReading); err == nil {
					if _, err := rc.ReadPacket(); err == nil {
						c.Failf("a player was served")
					}
				}
				nc.Close()
				c.Count("players refused", 1)
			}
		}
		nc := dial()
		wrote := make(chan error, 1)
		go func() {
			pc, err := rtmp.NewClient().FromNetConn(nc, mustURL(us[1:]), rtmp.PrepareWriting)
			for i := 0; err == nil && i < len(pkts); i++ {
				c.lull(i, len(pkts))
				err = pc.WritePacket(pkts[i])
			}
			nc.(*net.TCPConn).CloseWrite()
			wrote <- err
		}()
		op := <-ch
		if op.err != nil {
			c.Failf("Open: %v", op.err)
		}
		rd := op.rd
		if !rd.IsRemote || rd.Rtmp == nil || rd.NetConn == nil || !rd.Rtmp.Publishing {
			c.Failf("reader %+v", rd)
		}
		if late { // the port is free again
			l2, err := net.Listen("tcp", addr)
			if err != nil {
				c.Failf("the port is still taken while reading: %v", err)
			}
			l2.Close()
		}
		got, err := readAllPackets(rd.ReadPacket, len(pkts)+2)
		if werr := <-wrote; werr != nil {
			c.Failf("publisher: %v", werr)
		}
		checkPackets(c, "received", got, want)
		if err != io.EOF {
			c.Failf("end: %v", err)
		}
		rd.Close()
		nc.Close()
		o.mu.Lock()
		log := strings.Join(o.log, " ")
		nraw := strings.Count(log, "rawconn")
		o.mu.Unlock()
		if o.OnNewRtmpServer != nil && strings.Count(log, "rtmpserver") != 1 || o.OnNewRtmpConn != nil && strings.Count(log, "rtmpconn") != 1 || strings.Contains(log, "rtmpclient") || strings.Contains(log, "dialfunc") || strings.Contains(log, "flv") {
			c.Failf("callbacks %s", log)
		}
		if o.OnNewRtmpConn != nil && o.rc != rd.Rtmp {
			c.Failf("the callback got another connection")
		}
		if o.ReplaceRawConn != nil && nraw < 1 {
			c.Failf("raw connection not replaced")
		}
	})
	c.Count("rtmp listened", 1)
	c.Nontrivial(early, late, len(pkts), c.Idx)
}

func openRTSP(c *C) {
	r := c.R
	t := genTrack(c, r.Intn(2) == 0)
	t.control = "track1"
	sdp := sdpHead(r, false) + t.sdpSection(r, c, false)
	var stream []byte
	var want []av.Packet
	for i, n := 0, 3+r.Intn(20); i < n; i++ {
		t.advance(r, false)
		bs, w := t.unit(c, 0, true)
		want = append(want, w...)
		stream = append(stream, bytes.Join(bs, nil)...)
	}
	srv, err := newRTSPServer()
	if err != nil {
		c.X.Note("listen: %v", err)
		return
	}
	srv.url = "rtsp://" + srv.host() + []string{"/a", "/a/b.flv", "/x.mp4"}[r.Intn(3)]
	defer srv.reset()
	o := newOpener(r, true)
	c.Desc("%s, %d packets", srv.url, len(want))
	var wg sync.WaitGroup
	c.Go(&wg, func() {
		if err := srv.accept(); err != nil {
			c.Failf("accept: %v", err)
		}
		if _, err := srv.negotiate(r2(c), sdp, 1, nil, func(q rtspReq) error { return nil }); err != nil {
			c.Failf("server: %v", err)
		}
		half := 0
		if c.quiet > 0 {
			half = len(stream) / 2
			writePieces(r2(c), srv.nc, stream[:half])
			c.lull(0, 0)
		}
		writePieces(r2(c), srv.nc, stream[half:])
		srv.nc.(*net.TCPConn).CloseWrite()
	})
	c.within(60*time.Second, "RTSP session", func() {
		rd, err := o.Open(srv.url)
		if err != nil {
			c.Failf("Open: %v", err)
		}
		if !rd.IsRemote {
			c.Failf("reader %+v", rd)
		}
		got, err := readAllPackets(rd.ReadPacket, len(want)+2)
		if err != io.EOF || len(got) != len(want) {
			c.Failf("%d packets of %d and %v", len(got), len(want), err)
		}
		for i := range got {
			if d := pktDiff(got[i], want[i]); d != "" {
				c.Failf("packet %d: %s", i, d)
			}
		}
		if err := rd.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		o.calls(c, "Open")
	})
	wg.Wait()
	c.Count("rtsp", 1)
	c.Nontrivial(srv.url, string(stream))
}
