package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	fMode     = flag.String("mode", "run", "run | worker | case | replay | list")
	fProp     = flag.String("prop", "", "property id")
	flSub     = flag.String("sub", "", "sub-check")
	fTier     = flag.String("tier", "quick", "quick | thorough")
	fSeed     = flag.Uint64("seed", 1, "seed")
	fShard    = flag.Int("shard", 0, "shard")
	fChecks   = flag.Int("checks", 0, "number of cases of this worker")
	fOut      = flag.String("out", "", "worker: stats file")
	fCur      = flag.String("cur", "", "worker: file naming the case in execution")
	fFile     = flag.String("file", "", "case/replay: input file")
	fEvidence = flag.String("evidence", "", "evidence file")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fKnown    = flag.String("known", "", "known findings file")
	fIso      = flag.Bool("iso", false, "worker: run every case in its own process")
	fShrink   = flag.Duration("shrink", 20*time.Second, "shrink time")
	fHang     = flag.Duration("hang", 60*time.Second, "a case running longer than this counts as not terminating")
	fScale    = flag.Float64("scale", 1, "scale the number of cases")
)

// realOut is the process's stdout; the code under test prints to os.Stdout, which is redirected.
var realOut = os.Stdout

func main() {
	testing.Init()
	flag.Parse()
	flag.Set("rapid.nofailfile", "true")
	debugLimits()
	slowDown(*fProp)
	switch *fMode {
	case "list":
		for _, p := range props {
			for _, s := range p.Subs {
				fmt.Println(p.ID, s.Name, s.Quick, s.Thorough)
			}
		}
	case "run":
		os.Exit(runProp())
	case "worker":
		silence()
		worker()
	case "case":
		silence()
		os.Exit(singleCase())
	case "replay":
		os.Exit(replay())
	case "secrets":
		if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
		os.Exit(secretsMode())
	case "compile", "parse":
		silence()
		os.Exit(compileMode())
	}
}

// slowDown: under the race detector (T01) everything takes several times as long.
func slowDown(prop string) {
	if strings.HasPrefix(prop, "T") {
		*fHang *= 4
		isoLimit *= 4
	}
}

func debugLimits() {
	runtime.GOMAXPROCS(runtime.NumCPU())
	debug.SetMaxStack(256 << 20)
}

// caseStart is the start of the case in execution (unix ns), 0 between cases.
var caseStart atomic.Int64

// watchdog ends the process when a case runs for too long or takes too much memory.
func watchdog() {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			s := caseStart.Load()
			if s == 0 {
				continue
			}
			if d := time.Since(time.Unix(0, s)); d > *fHang {
				os.Exit(exHang)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > isoMem {
				os.Exit(exHang)
			}
		}
	}()
}

func silence() {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	seedCrypto(*fSeed*1000003 + uint64(*fShard))
}

const (
	exHeld  = 0
	exFail  = 10 // oracle failed in-process
	exHang  = 11 // the case did not end, or used up its memory
	exError = 3
)

// singleCase: runs one replay-format case in this process. Exit 0 held, 10 failed (message on stdout); a crash of the
// code under test shows as exit 2 with a Go panic on stderr.
func singleCase() int {
	rp, s := loadReplay(*fFile)
	c := s.New()
	if err := json.Unmarshal(rp.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, "harness: bad case:", err)
		return exError
	}
	seedCrypto(hashBytes(compact(rp.Case)))
	watchdog()
	caseStart.Store(time.Now().UnixNano())
	msg, r := runCase(s, c)
	caseStart.Store(0)
	type out struct {
		Msg     string
		NonTriv bool
		Labels  []string
	}
	o := out{Msg: msg, NonTriv: r.nontrivial}
	for l := range r.labels {
		o.Labels = append(o.Labels, l)
	}
	realOut.Write(mustJSON(o))
	if msg != "" {
		return exFail
	}
	return exHeld
}

func loadReplay(file string) (*Replay, *Sub) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exError)
	}
	rp := new(Replay)
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exError)
	}
	p := findProp(rp.Property)
	if p == nil || p.sub(rp.Sub) == nil {
		fmt.Fprintln(os.Stderr, "unknown property or sub-check in", file)
		os.Exit(exError)
	}
	return rp, p.sub(rp.Sub)
}

func replay() int {
	rp, _ := loadReplay(*fFile)
	slowDown(rp.Property)
	msg, status := isolatedRun(rp, 300*time.Second)
	switch status {
	case isoHeld:
		fmt.Println("held:", *fFile)
		return 0
	case isoFail:
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", rp.Property, *fFile, msg)
		return 1
	}
	fmt.Println("inconclusive:", msg)
	return exError
}

type isoStatus int

const (
	isoHeld isoStatus = iota
	isoFail
	isoInconclusive
)

type isoOut struct {
	Msg     string
	NonTriv bool
	Labels  []string
}

// memory limit of an isolated process, so that a runaway case ends itself
const isoMem = 3 << 30

// isolatedRun runs one case in its own process. A Go panic / fatal error in it is a failure of the oracle
// (sub-checks that expect rejections run the code under test in a further process of their own).
func isolatedRun(rp *Replay, limit time.Duration) (string, isoStatus) {
	m, st, _ := isolatedRunFull(rp, limit)
	return m, st
}

func isolatedRunFull(rp *Replay, limit time.Duration) (string, isoStatus, *isoOut) {
	f, err := os.CreateTemp("", "case*.json")
	if err != nil {
		return err.Error(), isoInconclusive, nil
	}
	defer os.Remove(f.Name())
	f.Write(mustJSON(rp))
	f.Close()
	code, stdout, stderr, timedOut, err := runSelf(limit, "-mode", "case", "-file", f.Name(), "-seed", strconv.FormatUint(*fSeed, 10), "-hang", fHang.String())
	if err != nil {
		return err.Error(), isoInconclusive, nil
	}
	if code == exHang {
		return fmt.Sprintf("the case does not end within %v (or not within %d MB)", *fHang, isoMem>>20), isoFail, nil
	}
	if timedOut {
		return fmt.Sprintf("the case did not end within %v", limit), isoInconclusive, nil
	}
	var o isoOut
	switch {
	case code == exHeld || code == exFail:
		if json.Unmarshal([]byte(stdout), &o) != nil {
			return "unreadable output of the case process", isoInconclusive, nil
		}
		if code == exFail {
			return o.Msg, isoFail, &o
		}
		return "", isoHeld, &o
	case isGoCrash(code, stderr):
		return "the process crashed: " + clip(crashLine(stderr), 1500), isoFail, nil
	}
	return fmt.Sprintf("the case process ended with status %d: %s", code, clip(stderr, 400)), isoInconclusive, nil
}

func isGoCrash(code int, stderr string) bool {
	if code == 66 && strings.Contains(stderr, "WARNING: DATA RACE") {
		return true // the race detector ended the process
	}
	return code == 2 && (strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: all goroutines are asleep") || strings.Contains(stderr, "fatal error: concurrent map") || strings.Contains(stderr, "stack exceeds") || strings.Contains(stderr, "runtime error"))
}

func crashLine(stderr string) string {
	var out []string
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "WARNING: DATA RACE") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// runSelf runs this binary with the given arguments under a time and memory limit.
func runSelf(limit time.Duration, args ...string) (code int, stdout, stderr string, timedOut bool, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	self, err := os.Executable()
	if err != nil {
		return 0, "", "", false, err
	}
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMEMLIMIT=%d", isoMem*3/4), "GOTRACEBACK=single", "VERIF_AS_LIMIT=1")
	var so bytes.Buffer
	se := &headTail{}
	cmd.Stdout, cmd.Stderr = &so, se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 5 * time.Second
	e := cmd.Run()
	if ctx.Err() == context.DeadlineExceeded {
		return -1, so.String(), se.String(), true, nil
	}
	if e != nil {
		var ee *exec.ExitError
		if !errors.As(e, &ee) {
			return 0, "", "", false, e
		}
		return ee.ExitCode(), so.String(), se.String(), false, nil
	}
	return 0, so.String(), se.String(), false, nil
}

// headTail keeps the first 64 KiB written to it.
type headTail struct{ b bytes.Buffer }

func (h *headTail) Write(p []byte) (int, error) {
	if room := 64<<10 - h.b.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		h.b.Write(p[:room])
	}
	return len(p), nil
}
func (h *headTail) String() string { return h.b.String() }

type fatalStop struct{}

// tbImpl is the rapid.TB of a worker.
type tbImpl struct {
	failed bool
	log    strings.Builder
}

func (t *tbImpl) Helper()                   {}
func (t *tbImpl) Name() string              { return "verif" }
func (t *tbImpl) Logf(f string, a ...any)   { t.add(fmt.Sprintf(f, a...)) }
func (t *tbImpl) Log(a ...any)              { t.add(fmt.Sprint(a...)) }
func (t *tbImpl) Skipf(f string, a ...any)  { panic(fatalStop{}) }
func (t *tbImpl) Skip(a ...any)             { panic(fatalStop{}) }
func (t *tbImpl) SkipNow()                  { panic(fatalStop{}) }
func (t *tbImpl) Errorf(f string, a ...any) { t.failed = true; t.add(fmt.Sprintf(f, a...)) }
func (t *tbImpl) Error(a ...any)            { t.failed = true; t.add(fmt.Sprint(a...)) }
func (t *tbImpl) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(fatalStop{}) }
func (t *tbImpl) Fatal(a ...any)            { t.Error(a...); panic(fatalStop{}) }
func (t *tbImpl) FailNow()                  { t.failed = true; panic(fatalStop{}) }
func (t *tbImpl) Fail()                     { t.failed = true }
func (t *tbImpl) Failed() bool              { return t.failed }
func (t *tbImpl) add(s string) {
	if t.log.Len() < 1<<16 {
		t.log.WriteString(s + "\n")
	}
}

func subSeed(seed uint64, sub string, shard int) uint64 {
	h := hashBytes([]byte(fmt.Sprintf("%d/%s/%d", seed, sub, shard)))
	if h == 0 {
		h = 1
	}
	return h
}

var isoLimit = 120 * time.Second

func worker() {
	p := findProp(*fProp)
	s := p.sub(*flSub)
	st := &Stats{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var lastFail *Replay
	var curFile *os.File
	if *fCur != "" {
		curFile, _ = os.OpenFile(*fCur, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	}
	iso := *fIso || s.Isolated
	if !iso {
		watchdog()
	}
	failing := false
	prop := func(t *rapid.T) {
		c := s.Gen(t)
		raw := mustJSON(c)
		rp := &Replay{Property: p.ID, Sub: s.Name, Case: raw}
		var msg string
		var labels []string
		var nontriv bool
		if iso {
			m, status, o := isolatedRunFull(rp, isoLimit)
			if status == isoInconclusive {
				st.Err = m
				panic(fatalStop{})
			}
			msg = m
			if o != nil {
				labels, nontriv = o.Labels, o.NonTriv
			}
		} else {
			if curFile != nil {
				b := mustJSON(rp)
				curFile.WriteAt(b, 0)
				curFile.Truncate(int64(len(b)))
			}
			// the case is decoded from its serialised form, so that a replay sees exactly what ran here
			c2 := s.New()
			if err := json.Unmarshal(raw, c2); err != nil {
				st.Err = "undecodable case: " + err.Error()
				panic(fatalStop{})
			}
			var r *R
			seedCrypto(hashBytes(raw))
			caseStart.Store(time.Now().UnixNano())
			msg, r = runCase(s, c2)
			caseStart.Store(0)
			nontriv = r.nontrivial
			for l := range r.labels {
				labels = append(labels, l)
			}
		}
		if !failing {
			st.Evals++
			for _, l := range labels {
				st.Labels[l]++
			}
			if nontriv {
				h := hashBytes(raw)
				if !seen[h] {
					seen[h] = true
					if len(st.Samples) < 3 && len(raw) < 3000 && (len(seen) == 2 || len(seen) == 20 || len(seen) == 100) {
						st.Samples = append(st.Samples, string(raw))
					}
				}
			}
		}
		if msg != "" {
			failing = true
			rp.Message = msg
			lastFail = rp
			t.Fatalf("%s", clip(strings.SplitN(msg, "\n", 2)[0], 60))
		}
	}
	flag.Set("rapid.seed", strconv.FormatUint(subSeed(*fSeed, s.Name, *fShard), 10))
	flag.Set("rapid.checks", strconv.Itoa(*fChecks))
	flag.Set("rapid.shrinktime", fShrink.String())
	tb := &tbImpl{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(fatalStop); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	for h := range seen {
		st.NonTriv = append(st.NonTriv, h)
	}
	st.Fail = lastFail
	if lastFail == nil && st.Err == "" && tb.failed {
		st.Err = "rapid: " + clip(tb.log.String(), 2000)
	}
	if err := os.WriteFile(*fOut, mustJSON(st), 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exError)
	}
}

type subResult struct {
	evals   int
	nontriv map[uint64]bool
	labels  map[string]int
	samples []string
	wall    float64
}

func runProp() int {
	start := time.Now()
	p := findProp(*fProp)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		return exError
	}
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exError
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir) // of the workers and the processes they start

	known := loadKnown(*fKnown, p.ID)
	knownCases := map[string]bool{}
	violations := []*Replay{}
	var toolErrs []string

	// 1. listed findings: report each that still fails
	for _, k := range known {
		rp := k.Replay
		knownCases[string(compact(rp.Case))] = true
		if _, status := isolatedRun(&rp, 300*time.Second); status == isoFail {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		} else if status == isoInconclusive {
			toolErrs = append(toolErrs, "known finding inconclusive: "+k.What)
		}
	}

	// 2. generated search
	type job struct {
		s      *Sub
		shard  int
		checks int
	}
	var jobs []job
	ncpu := runtime.NumCPU()
	for i := range p.Subs {
		s := &p.Subs[i]
		if *flSub != "" && s.Name != *flSub {
			continue
		}
		n := s.Quick
		if *fTier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * *fScale)
		if n == 0 {
			continue
		}
		sh := 8
		if s.MaxShard > 0 && sh > s.MaxShard {
			sh = s.MaxShard
		}
		if n < sh {
			sh = n
		}
		for k := 0; k < sh; k++ {
			c := n / sh
			if k < n%sh {
				c++
			}
			jobs = append(jobs, job{s, k, c})
		}
	}
	results := map[string]*subResult{}
	for i := range p.Subs {
		results[p.Subs[i].Name] = &subResult{nontriv: map[uint64]bool{}, labels: map[string]int{}}
	}
	var mu sync.Mutex
	stop := false
	sem := make(chan struct{}, ncpu)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			if stop {
				mu.Unlock()
				return
			}
			mu.Unlock()
			t0 := time.Now()
			st, rp, terr := runWorker(dir, p.ID, j.s, j.shard, j.checks)
			mu.Lock()
			defer mu.Unlock()
			if st != nil {
				r := results[j.s.Name]
				r.evals += st.Evals
				for _, h := range st.NonTriv {
					r.nontriv[h] = true
				}
				for l, n := range st.Labels {
					r.labels[l] += n
				}
				r.samples = append(r.samples, st.Samples...)
				r.wall += time.Since(t0).Seconds()
			}
			if rp != nil {
				stop = true
				violations = append(violations, rp)
			}
			if terr != "" {
				toolErrs = append(toolErrs, j.s.Name+": "+terr)
			}
		}(j)
	}
	wg.Wait()

	// 3. report
	reported := 0
	names := map[string]bool{}
	for _, rp := range violations {
		if names[rp.Sub] {
			continue
		}
		names[rp.Sub] = true
		os.MkdirAll(*fReplays, 0o755)
		file := filepath.Join(*fReplays, strings.ReplaceAll(fmt.Sprintf("%s-%s.json", rp.Property, rp.Sub), " ", "_"))
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(file, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		fmt.Printf("  sub-check %s: %s\n  case: %s\n", rp.Sub, rp.Message, clip(string(rp.Case), 1500))
		reported++
	}
	writeEvidence(p, results, reported, time.Since(start).Seconds())
	if reported > 0 {
		return 1
	}
	if len(toolErrs) > 0 {
		for _, e := range toolErrs {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", e)
		}
		return exError
	}
	tot, nt := 0, 0
	for _, r := range results {
		tot += r.evals
		nt += len(r.nontriv)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, *fTier, *fSeed, tot, nt, time.Since(start).Seconds())
	return 0
}

func runWorker(dir, id string, s *Sub, shard, checks int) (*Stats, *Replay, string) {
	base := filepath.Join(dir, fmt.Sprintf("%s-%d", s.Name, shard))
	args := func(iso bool) []string {
		a := []string{"-mode", "worker", "-prop", id, "-sub", s.Name, "-seed", strconv.FormatUint(*fSeed, 10), "-shard", strconv.Itoa(shard),
			"-checks", strconv.Itoa(checks), "-out", base + ".stats", "-cur", base + ".cur", "-shrink", fShrink.String()}
		if iso {
			a = append(a, "-iso", "-hang", "5s")
		}
		return a
	}
	limit := 12 * time.Minute
	if *fTier == "thorough" {
		limit = 100 * time.Minute
	}
	code, _, stderr, timedOut, err := runSelf(limit, args(false)...)
	if err != nil {
		return nil, nil, err.Error()
	}
	if timedOut {
		// a single case that never ends is decided by running it alone
		if rp := readCur(base + ".cur"); rp != nil {
			return nil, nil, "worker ran out of time; case in execution: " + clip(string(rp.Case), 300)
		}
		return nil, nil, "worker ran out of time"
	}
	if code == 0 {
		b, err := os.ReadFile(base + ".stats")
		if err != nil {
			return nil, nil, err.Error()
		}
		st := new(Stats)
		if err := json.Unmarshal(b, st); err != nil {
			return nil, nil, err.Error()
		}
		if st.Fail != nil {
			return st, st.Fail, ""
		}
		return st, nil, st.Err
	}
	// the worker died: confirm on the case that was running, alone
	rp := readCur(base + ".cur")
	if rp == nil {
		return nil, nil, fmt.Sprintf("worker died (status %d): %s", code, clip(stderr, 500))
	}
	msg, status := isolatedRun(rp, isoLimit)
	if status != isoFail {
		return nil, nil, fmt.Sprintf("worker died (status %d) and its last case does not fail alone: %s / %s", code, clip(crashLine(stderr), 500), msg)
	}
	rp.Message = msg
	// try for a smaller one: the same shard with every case in its own process, bounded
	if checks > 400 {
		checks = 400
	}
	code, _, _, timedOut, err = runSelf(90*time.Second, args(true)...)
	if err == nil && !timedOut && code == 0 {
		if b, err := os.ReadFile(base + ".stats"); err == nil {
			st := new(Stats)
			if json.Unmarshal(b, st) == nil && st.Fail != nil {
				return st, st.Fail, ""
			}
		}
	}
	return nil, rp, ""
}

func readCur(f string) *Replay {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	rp := new(Replay)
	if json.Unmarshal(b, rp) != nil {
		return nil
	}
	return rp
}

func compact(b []byte) []byte {
	var o bytes.Buffer
	json.Compact(&o, b)
	return o.Bytes()
}

type knownFinding struct {
	Status   string `json:"status"`
	What     string `json:"what"`
	Replay   Replay `json:"replay"`
	Property string `json:"property"`
}

// loadKnown reads the known-findings file: JSON lines; lines starting with "fixed:" or "#" are records only.
func loadKnown(file, id string) (out []knownFinding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fmt.Fprintln(os.Stderr, "bad line in known findings:", err)
			continue
		}
		if k.Property == id {
			k.Replay.Property = id
			out = append(out, k)
		}
	}
	return
}

func writeEvidence(p *Prop, results map[string]*subResult, violations int, wall float64) {
	type ev struct {
		Property   string         `json:"property"`
		Tier       string         `json:"tier"`
		Seed       uint64         `json:"seed"`
		Level      string         `json:"level"`
		Coverage   map[string]any `json:"coverage"`
		Assume     []string       `json:"assumptions"`
		WallS      float64        `json:"wall_s"`
		Violations int            `json:"violations"`
	}
	evals, nt := 0, 0
	var rules []string
	var samples []any
	per := map[string]any{}
	for _, s := range p.Subs {
		r := results[s.Name]
		if r.evals == 0 {
			continue
		}
		evals += r.evals
		nt += len(r.nontriv)
		rules = append(rules, s.Name+": "+s.Rule)
		for i, x := range r.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"sub": s.Name, "case": json.RawMessage(x)})
		}
		per[s.Name] = map[string]any{"evaluations": r.evals, "distinct_nontrivial": len(r.nontriv), "classes": r.labels, "cpu_s": r.wall}
	}
	if samples == nil {
		samples = []any{}
	}
	e := ev{p.ID, *fTier, *fSeed, "exploration", map[string]any{
		"evaluations": evals, "distinct_nontrivial": nt, "rule": strings.Join(rules, " || "), "samples": samples, "per_subcheck": per,
	}, []string{"generated-input search: absence of a violation is not proved", "the reference models in /verif/harness/ref*.go are trusted"}, wall, violations}
	b, _ := json.MarshalIndent(e, "", " ")
	if *fEvidence != "" {
		os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
		os.WriteFile(*fEvidence, append(b, '\n'), 0o644)
	}
}

var _ = io.Discard
