package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// ---------------------------------------------------------------- registry

type propDef struct {
	id    string
	level string
	rule  string
	// assumptions recorded in the evidence
	assume []string
	run    func(x *Ctx)
	// counters that must be non-zero, or the run observed nothing
	must []string
	mul  int // quick sizes are multiplied by it
}

var props = map[string]*propDef{}

func register(p *propDef) {
	if p.level == "" {
		p.level = "exploration"
	}
	props[p.id] = p
}

func propIDs() (ids []string) {
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return
}

// ---------------------------------------------------------------- context

type violation struct {
	Sig    string `json:"sig"`
	Case   string `json:"case"`
	Msg    string `json:"msg"`
	Stack  string `json:"stack,omitempty"`
	Detail string `json:"detail,omitempty"`
}

type result struct {
	Evaluations int64              `json:"evaluations"`
	Distinct    int64              `json:"distinct"`
	Counts      map[string]int64   `json:"counts"`
	States      map[string]int     `json:"states"`
	Samples     []string           `json:"samples"`
	Violations  []violation        `json:"violations"`
	Done        bool               `json:"done"`
	Notes       []string           `json:"notes"`
	Extra       map[string]float64 `json:"extra,omitempty"`
}

// Ctx is one run of one property's workload.
type Ctx struct {
	T        *testing.T
	Prop     string
	Tier     string
	Seed     int64
	Thorough bool
	Only     string // "group/idx": replay only this case

	mu       sync.Mutex
	res      result
	distinct map[uint64]struct{}
	states   map[string]map[uint64]struct{}
	inflight map[*C]struct{}
	journal  *os.File
	lenient  func(msg string) bool // which failures count
	scale    float64               // of case numbers
	failedAt time.Time             // first failure
	samplesN map[string]int
}

// N picks a size by tier.
func (x *Ctx) N(quick, thorough int) (n int) {
	if x.scale > 0 {
		defer func() { n = max(1, int(float64(n)*x.scale)) }()
	}
	if x.Thorough {
		return thorough
	}
	if m := props[x.Prop].mul; m > 0 {
		quick = min(quick*m, max(quick, thorough))
	}
	return quick
}

func (x *Ctx) Note(f string, a ...interface{}) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.res.Notes = append(x.res.Notes, fmt.Sprintf(f, a...))
}

// C is one case.
type C struct {
	X     *Ctx
	Group string
	Idx   int
	R     *rand.Rand
	start time.Time
	limit time.Duration
	mu    sync.Mutex
	desc  string
	fails int32
	quiet time.Duration // a pause within a session
}

type failSentinel struct{}

func (c *C) ID() string { return fmt.Sprintf("%s/%d", c.Group, c.Idx) }

// Desc sets the description of the case's input, kept for the replay file.
func (c *C) Desc(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	c.mu.Lock()
	c.desc = s
	c.mu.Unlock()
}

// Failf records a violation and ends the case.
func (c *C) Failf(f string, a ...interface{}) {
	c.FailSig("", f, a...)
}

func (c *C) FailSig(sig, f string, a ...interface{}) {
	c.record(sig, fmt.Sprintf(f, a...), string(debug.Stack()))
	panic(failSentinel{})
}

func (c *C) record(sig, msg, stack string) {
	atomic.AddInt32(&c.fails, 1)
	c.mu.Lock()
	d := c.desc
	c.mu.Unlock()
	x := c.X
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.lenient != nil && !x.lenient(msg) {
		x.res.Counts["other failures"]++
		if len(x.res.Notes) < 20 {
			x.res.Notes = append(x.res.Notes, c.ID()+": "+head(msg, 300))
		}
		return
	}
	if sig == "" && x.failedAt.IsZero() {
		x.failedAt = time.Now()
	}
	if len(x.res.Violations) < 200 {
		x.res.Violations = append(x.res.Violations, violation{Sig: sig, Case: c.ID(), Msg: msg, Stack: stack, Detail: d})
	}
}

// Count adds to a measured counter of the evidence.
func (c *C) Count(name string, n int) {
	c.X.mu.Lock()
	c.X.res.Counts[name] += int64(n)
	c.X.mu.Unlock()
}

// Nontrivial marks the case (by a key describing its content) as non-trivial.
func (c *C) Nontrivial(key ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, c.Group, key)
	c.X.mu.Lock()
	c.X.distinct[h.Sum64()] = struct{}{}
	c.X.mu.Unlock()
}

// State records that an abstract state was observed.
func (c *C) State(space string, key ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, key...)
	c.X.mu.Lock()
	m := c.X.states[space]
	if m == nil {
		m = map[uint64]struct{}{}
		c.X.states[space] = m
	}
	m[h.Sum64()] = struct{}{}
	c.X.mu.Unlock()
}

// Sample keeps a few written-out cases per group.
func (c *C) Sample(f string, a ...interface{}) {
	c.X.mu.Lock()
	defer c.X.mu.Unlock()
	if c.X.samplesN[c.Group] >= 2 || len(c.X.res.Samples) >= 40 {
		return
	}
	c.X.samplesN[c.Group]++
	s := fmt.Sprintf(f, a...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.X.res.Samples = append(c.X.res.Samples, c.ID()+": "+s)
}

// Guard runs f, turning a panic into a recorded violation; true if f returned
// normally.
func (c *C) Guard(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			if _, is := r.(failSentinel); is {
				return
			}
			c.record("", fmt.Sprintf("panic: %v", r), string(debug.Stack()))
		}
	}()
	f()
	return true
}

// Go runs f on a goroutine under Guard.
func (c *C) Go(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		c.Guard(f)
	}()
}

func (x *Ctx) caseRand(group string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%d|%s|%d", x.Prop, x.Seed, group, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (x *Ctx) logJ(f string, a ...interface{}) {
	if x.journal != nil {
		fmt.Fprintf(x.journal, f+"\n", a...)
	}
}

const defaultCaseLimit = 120 * time.Second

func (x *Ctx) runCase(group string, idx int, limit time.Duration, f func(c *C)) {
	if x.Only != "" && x.Only != fmt.Sprintf("%s/%d", group, idx) {
		return
	}
	c := &C{X: x, Group: group, Idx: idx, R: x.caseRand(group, idx), start: time.Now(), limit: limit}
	x.mu.Lock()
	x.inflight[c] = struct{}{}
	x.res.Evaluations++
	stop := len(x.res.Violations) >= 20 || x.failedFor() > 30*time.Second
	x.mu.Unlock()
	if stop {
		x.mu.Lock()
		delete(x.inflight, c)
		x.res.Evaluations--
		x.mu.Unlock()
		return
	}
	x.logJ("S %s", c.ID())
	c.Guard(func() { f(c) })
	x.logJ("E %s", c.ID())
	x.mu.Lock()
	delete(x.inflight, c)
	x.mu.Unlock()
}

// failedFor is how long ago the first violation was seen.
func (x *Ctx) failedFor() time.Duration {
	if x.failedAt.IsZero() {
		return 0
	}
	return time.Since(x.failedAt)
}

// Each runs n cases of a group on all cores.
func (x *Ctx) Each(group string, n int, f func(c *C)) {
	x.EachLim(group, n, runtime.GOMAXPROCS(0), defaultCaseLimit, f)
}

// Serial runs n cases of a group one after another.
func (x *Ctx) Serial(group string, n int, f func(c *C)) {
	x.EachLim(group, n, 1, defaultCaseLimit, f)
}

func (x *Ctx) EachLim(group string, n, par int, limit time.Duration, f func(c *C)) {
	if os.Getenv("VH_VERBOSE") != "" {
		t0 := time.Now()
		defer func() { x.Note("group %s: %d cases in %v", group, n, time.Since(t0)) }()
	}
	var next int64 = -1
	var wg sync.WaitGroup
	if par > n {
		par = n
	}
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				x.runCase(group, i, limit, f)
			}
		}()
	}
	wg.Wait()
}

// Bubble runs f in a synctest bubble: virtual time, and a goroutine that can
// never run again is reported as a deadlock (logical, not by wall clock).
func (c *C) Bubble(f func()) {
	var p interface{}
	func() {
		defer func() { p = recover() }()
		synctest.Test(c.X.T, func(t *testing.T) {
			if c.Guard(f) {
				time.Sleep(1000 * time.Hour) // let sleeping goroutines finish
			}
		})
	}()
	if p != nil {
		if atomic.LoadInt32(&c.fails) > 0 {
			panic(failSentinel{}) // follows from a violation already recorded
		}
		buf := make([]byte, 1<<20)
		c.record("", fmt.Sprintf("stalled: %v", p), bubbleStacks(string(buf[:runtime.Stack(buf, true)])))
	}
	if atomic.LoadInt32(&c.fails) > 0 {
		panic(failSentinel{})
	}
}

// bubbleStacks keeps the goroutines that are stuck in a bubble.
func bubbleStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if l, _, _ := strings.Cut(g, "\n"); strings.Contains(l, "synctest bubble") && strings.Contains(l, "durable") {
			out = append(out, g)
		}
		if len(out) == 12 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

// ---------------------------------------------------------------- allocation oracle

func allocBytes() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func heapLive() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64() + s[1].Value.Uint64()
}

// ---------------------------------------------------------------- worker

func workerMain(t *testing.T) {
	id := os.Getenv("VH_PROP")
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	x := &Ctx{T: t, Prop: id, Tier: os.Getenv("VH_TIER"), Seed: seed, Only: os.Getenv("VH_ONLY")}
	x.Thorough = x.Tier == "thorough"
	x.res.Counts = map[string]int64{}
	x.distinct = map[uint64]struct{}{}
	x.states = map[string]map[uint64]struct{}{}
	x.inflight = map[*C]struct{}{}
	x.samplesN = map[string]int{}
	dir := os.Getenv("VH_DIR")
	if f, err := os.OpenFile(dir+"/journal", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644); err == nil {
		x.journal = f
	}
	debug.SetMaxStack(256 << 20)
	go x.watchdog(dir)
	p.run(x)
	x.finish(dir)
}

// finish ends the worker with what it has seen.
func (x *Ctx) finish(dir string) {
	x.mu.Lock()
	x.res.Distinct = int64(len(x.distinct))
	x.res.States = map[string]int{}
	for k, m := range x.states {
		x.res.States[k] = len(m)
	}
	x.res.Done = true
	x.mu.Unlock()
	x.writeResult(dir)
	os.Exit(0)
}

func (x *Ctx) writeResult(dir string) {
	x.mu.Lock()
	b, err := json.Marshal(&x.res)
	x.mu.Unlock()
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(dir+"/result.json", b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

const heapLimit = 6 << 30

func (x *Ctx) watchdog(dir string) {
	for {
		time.Sleep(50 * time.Millisecond)
		if h := heapLive(); h > heapLimit {
			x.mu.Lock()
			ids := x.inflightIDs()
			x.mu.Unlock()
			os.WriteFile(dir+"/oom", []byte(fmt.Sprintf("%d bytes live while running %s", h, ids)), 0644)
			os.Exit(97)
		}
		x.mu.Lock()
		failed := x.failedFor()
		x.mu.Unlock()
		if failed > 90*time.Second { // the violation is what matters
			x.finish(dir)
		}
		x.mu.Lock()
		var stuck *C
		for c := range x.inflight {
			if time.Since(c.start) > c.limit {
				if stuck == nil || c.start.Before(stuck.start) {
					stuck = c
				}
			}
		}
		x.mu.Unlock()
		if stuck != nil {
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			stuck.mu.Lock()
			d := stuck.desc
			stuck.mu.Unlock()
			x.mu.Lock()
			found := len(x.res.Violations) > 0
			x.mu.Unlock()
			if found {
				x.finish(dir)
			}
			os.WriteFile(dir+"/hang", []byte(stuck.ID()+"\n"+d+"\n"+string(buf)), 0644)
			os.Exit(98)
		}
	}
}

func (x *Ctx) inflightIDs() string {
	var ids []string
	for c := range x.inflight {
		c.mu.Lock()
		ids = append(ids, c.ID()+" "+c.desc)
		c.mu.Unlock()
	}
	sort.Strings(ids)
	return strings.Join(ids, "; ")
}
