package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type childEnd struct {
	res    *result
	code   int
	sig    string
	stderr string
	hang   string // case id
	hangTx string
	oom    string
	killed bool // by our own overall limit
	dir    string
}

func runChild(prop, tier, seed, only string, limit time.Duration) *childEnd {
	e := &childEnd{}
	dir, err := ioutil.TempDir(os.Getenv("VH_TMP"), "vh-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	e.dir = dir
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VH_WORKER=1", "VH_PROP="+prop, "VH_TIER="+tier, "VH_SEED="+seed,
		"VH_ONLY="+only, "VH_DIR="+dir, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66",
		"VH_SCRATCH="+dir+"/scratch", "TMPDIR="+dir+"/scratch")
	os.MkdirAll(dir+"/scratch", 0755)
	so, _ := os.Create(dir + "/stdout")
	se, _ := os.Create(dir + "/stderr")
	cmd.Stdout, cmd.Stderr = so, se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		e.killed = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // anything it left behind
	so.Close()
	se.Close()
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			e.sig = ws.Signal().String()
			e.code = -1
		} else {
			e.code = ws.ExitStatus()
		}
	} else if err != nil {
		e.code = -1
	}
	b, _ := ioutil.ReadFile(dir + "/stderr")
	if len(b) > 2<<20 {
		b = append(append([]byte(nil), b[:1<<20]...), b[len(b)-(1<<20):]...)
	}
	e.stderr = string(b)
	if b, err := ioutil.ReadFile(dir + "/result.json"); err == nil {
		r := &result{}
		if json.Unmarshal(b, r) == nil {
			e.res = r
		}
	}
	if b, err := ioutil.ReadFile(dir + "/hang"); err == nil {
		s := string(b)
		i := strings.IndexByte(s, '\n')
		e.hang, e.hangTx = s[:i], s
	}
	if b, err := ioutil.ReadFile(dir + "/oom"); err == nil {
		e.oom = string(b)
	}
	return e
}

// inflight cases from the journal of a worker that died.
func journalInflight(dir string) []string {
	b, err := ioutil.ReadFile(dir + "/journal")
	if err != nil {
		return nil
	}
	open := map[string]bool{}
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) < 3 {
			continue
		}
		id := string(l[2:])
		if l[0] == 'S' {
			open[id] = true
		} else {
			delete(open, id)
		}
	}
	var ids []string
	for id := range open {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

type knownFinding struct{ prop, sig, what string }

// known_findings.txt lines:
//
//	finding: property=<id> sig=<signature> <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(verifdir string) (out []knownFinding) {
	b, _ := ioutil.ReadFile(filepath.Join(verifdir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "sig="), f[2]})
	}
	return
}

func supervise(prop, tier, seed, verifdir string) int {
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	t0 := time.Now()
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 2 * time.Hour
	}
	if s := os.Getenv("VH_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	only := os.Getenv("VH_ONLY")
	e := runChild(prop, tier, seed, only, limit)
	defer func() { os.RemoveAll(e.dir) }()

	var viol []violation
	inconclusive := ""
	switch {
	case e.hang != "":
		// confirm: the same case alone, same limit
		e2 := runChild(prop, tier, seed, e.hang, limit)
		os.RemoveAll(e2.dir)
		if e2.hang != "" || e2.code == -1 {
			viol = append(viol, violation{Case: e.hang, Msg: "no termination: the case made no progress within its bound, twice", Detail: e.hangTx})
		} else {
			inconclusive = "case " + e.hang + " exceeded its bound once but not when repeated"
		}
	case e.oom != "":
		viol = append(viol, violation{Msg: "memory runaway: " + e.oom, Case: "oom"})
	case e.killed:
		inconclusive = "overall time limit reached"
	case e.res != nil && e.res.Done && e.code == 0:
		viol = e.res.Violations
		if only == "" && len(viol) == 0 {
			for _, m := range p.must {
				if e.res.Counts[m] == 0 {
					inconclusive = "nothing observed for " + m
				}
			}
			if e.res.Evaluations == 0 {
				inconclusive = "no case ran"
			}
		}
	case strings.Contains(e.stderr, "WARNING: DATA RACE"):
		i := strings.Index(e.stderr, "WARNING: DATA RACE")
		rep := e.stderr[i:]
		if strings.Contains(rep, "nareix/joy5") || strings.Contains(rep, "/repo/") {
			viol = append(viol, violation{Msg: "data race in the code under test", Case: strings.Join(journalInflight(e.dir), ","), Detail: rep})
		} else {
			inconclusive = "data race inside the harness:\n" + rep
		}
	case e.code == 3:
		inconclusive = "harness error: " + tail(e.stderr, 2000)
	case e.sig == "killed":
		inconclusive = "worker was killed from outside"
	default:
		// a panic in a goroutine of the code under test, stack overflow,
		// out of memory, concurrent map access, all goroutines asleep ...
		line := firstMatch(e.stderr, "fatal error:", "panic:", "runtime error", "throw")
		viol = append(viol, violation{Msg: "the process died: " + line, Case: strings.Join(journalInflight(e.dir), ","), Detail: head(e.stderr, 200000)})
	}

	known := loadKnown(verifdir)
	var unlisted []violation
	seenKnown := map[string]bool{}
	for _, v := range viol {
		match := false
		for _, k := range known {
			if k.prop == prop && k.sig != "" && k.sig == v.Sig {
				match = true
				seenKnown[k.sig] = true
			}
		}
		if !match {
			unlisted = append(unlisted, v)
		}
	}
	for _, k := range known {
		if k.prop == prop && seenKnown[k.sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		}
	}
	writeEvidence(verifdir, p, tier, seed, e, len(unlisted), time.Since(t0), inconclusive)

	if len(unlisted) > 0 {
		dir := filepath.Join(verifdir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, v := range unlisted {
			if i >= 5 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", prop, i))
			first := strings.SplitN(v.Case, ",", 2)[0]
			txt := fmt.Sprintf("property: %s\ncase: %s\nseed: %s tier: %s\nreplay: VERIF_SEED=%s VH_ONLY=%s sh check.sh %s %s\n\n%s\n\n%s\n\n%s\n",
				prop, v.Case, seed, tier, seed, first, prop, tier, v.Msg, v.Detail, v.Stack)
			ioutil.WriteFile(path, []byte(txt), 0644)
			fmt.Printf("%s: %s\n", v.Case, head(v.Msg, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s %s\n", prop, inconclusive)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", prop, tier, e.res.Evaluations, e.res.Distinct, time.Since(t0).Seconds())
	return 0
}

func writeEvidence(verifdir string, p *propDef, tier, seed string, e *childEnd, nviol int, wall time.Duration, inconclusive string) {
	cov := map[string]interface{}{"rule": p.rule}
	if e.res != nil {
		cov["evaluations"] = e.res.Evaluations
		cov["distinct_nontrivial"] = e.res.Distinct
		s := e.res.Samples
		if s == nil {
			s = []string{}
		}
		cov["samples"] = s
		cov["observed"] = e.res.Counts
		if len(e.res.States) > 0 {
			cov["distinct_states"] = e.res.States
		}
		if len(e.res.Notes) > 0 {
			cov["notes"] = e.res.Notes
		}
	} else {
		cov["evaluations"] = 0
		cov["distinct_nontrivial"] = 0
		cov["samples"] = []string{"the worker died before it could report"}
	}
	if inconclusive != "" {
		cov["inconclusive"] = head(inconclusive, 500)
	}
	n, _ := strconv.Atoi(seed)
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": n, "level": p.level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
	}
	if len(p.assume) > 0 {
		ev["assumptions"] = p.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifdir, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(verifdir, "evidence", p.id+".json"), append(b, '\n'), 0644)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstMatch(s string, pats ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range pats {
			if strings.Contains(l, p) {
				return l
			}
		}
	}
	return head(s, 200)
}
