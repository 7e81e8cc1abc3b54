// Package harness holds the property-based checks of athenz-authorizer.
//
// A check ("sub") is a pair of functions. Gen draws a plan, plain JSON data, from
// rapid's generators; Run executes the plan against the real library and compares
// what it observes with an oracle. Run never draws anything, so a saved plan is a
// complete reproduction that needs neither rapid nor a seed. Unless a sub says
// otherwise, Run executes inside a testing/synctest bubble: all clocks are virtual
// and sleeping costs nothing.
package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kpango/glg"
	"pgregory.net/rapid"
)

// Case is the recorder of one execution.
type Case struct {
	T      *testing.T
	labels map[string]int
	nt     bool
	mu     sync.Mutex
}

// Label counts a class the execution fell in.
func (c *Case) Label(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	c.labels[format]++
}

// NonTrivial marks the execution as non-trivial by the sub's rule.
func (c *Case) NonTrivial() { c.mu.Lock(); c.nt = true; c.mu.Unlock() }

// Sub is one generated-input search belonging to a property.
type Sub struct {
	Prop, Name      string
	Rule            string // how cases are made and what makes one non-trivial
	Quick, Thorough int    // number of cases per tier
	NoBubble        bool   // run on the real clock
	Race            bool   // needs the binary built with the race detector
	Shards          int    // preferred number of processes (0 = as many as fit)
	Shuffle         bool

	gen    func(*rapid.T) any
	decode func([]byte) (any, error)
	run    func(*Case, any) error
}

var registry []*Sub

func register[P any](s Sub, gen func(*rapid.T) P, run func(*Case, P) error) {
	s.gen = func(t *rapid.T) any { return gen(t) }
	s.decode = func(b []byte) (any, error) {
		var p P
		d := json.NewDecoder(bytes.NewReader(b))
		err := d.Decode(&p)
		return p, err
	}
	s.run = func(c *Case, p any) error { return run(c, p.(P)) }
	registry = append(registry, &s)
}

// Violation is what Run returns when the property is broken.
type Violation struct{ Msg string }

func (v *Violation) Error() string { return v.Msg }

func failf(format string, a ...any) error { return &Violation{fmt.Sprintf(format, a...)} }

// HarnessError means the check itself could not be carried out.
type HarnessError struct{ Msg string }

func (h *HarnessError) Error() string { return "harness: " + h.Msg }

func must[T any](v T, err error) T {
	if err != nil {
		panic(&HarnessError{err.Error()})
	}
	return v
}

// lib is must for calls into the library that have to succeed.
func lib[T any](v T, err error) T {
	if err != nil {
		panic(&Violation{"the library refused a valid configuration: " + err.Error()})
	}
	return v
}

func harnessf(format string, a ...any) { panic(&HarnessError{fmt.Sprintf(format, a...)}) }

// execute runs one plan and returns the violation, if any.
func execute(t *testing.T, s *Sub, plan any, c *Case) (err error) {
	body := func(bt *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				err = panicToError(r, debug.Stack())
			}
		}()
		c.T = bt
		err = s.run(c, plan)
	}
	if s.NoBubble {
		body(t)
		return err
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				switch {
				case strings.Contains(msg, "main bubble goroutine has exited"):
					// Goroutines outlived the case. The checks that claim
					// termination observe it themselves; elsewhere it is not
					// a verdict.
					c.Label("leftover-goroutines")
				case strings.Contains(msg, "deadlock"):
					err = failf("deadlock: every goroutine is blocked and no timer can wake one (%s)", msg)
				default:
					err = panicToError(r, debug.Stack())
				}
			}
		}()
		synctest.Test(t, body)
	}()
	return err
}

// panicToError attributes a panic: the first frame below the panic that belongs to
// the library makes it a violation, one that belongs to the harness an error.
func panicToError(r any, stack []byte) error {
	if h, ok := r.(*HarnessError); ok {
		return h
	}
	if v, ok := r.(*Violation); ok {
		return v
	}
	switch attribute(string(stack)) {
	case "library":
		return failf("panic in the library: %v\n%s", r, trimStack(string(stack)))
	default:
		return &HarnessError{fmt.Sprintf("panic outside the library: %v\n%s", r, stack)}
	}
}

const libPath = "github.com/yahoojapan/athenz-authorizer"

func attribute(stack string) string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") {
			start = i
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, libPath) {
			return "library"
		}
		if strings.HasPrefix(l, "verif/harness") {
			return "harness"
		}
	}
	return "unknown"
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, libPath) {
			out = append(out, "  "+l)
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- search ---------------------------------------------------------------

type failure struct {
	Sub    string          `json:"sub"`
	Prop   string          `json:"property"`
	Error  string          `json:"error"`
	Plan   json.RawMessage `json:"plan"`
	Repro  string          `json:"reproduced,omitempty"`
	Kind   string          `json:"kind"`
	Failed int             `json:"failing_executions"`
}

type result struct {
	Prop, Sub   string
	Rule        string
	Seed        uint64
	Shard       int
	Evaluations int
	NonTrivial  int // distinct and non-trivial
	NTHashes    []uint64
	Labels      map[string]int
	Samples     []json.RawMessage
	Failure     *failure
	Stopped     string
	WallS       float64
}

func mix(seed uint64, parts ...string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", seed)
	for _, p := range parts {
		h.Write([]byte{0})
		h.Write([]byte(p))
	}
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func hash64(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

var progress atomic.Int64 // execution counter for the watchdog

// watchdog ends the process with code 7 when one execution makes no progress.
func watchdog(outDir string, limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if p := progress.Load(); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > limit {
			buf := make([]byte, 8<<20)
			n := runtime.Stack(buf, true)
			os.WriteFile(filepath.Join(outDir, "hang.txt"), buf[:n], 0o644)
			fmt.Fprintf(os.Stderr, "WATCHDOG: one execution took over %v\n", limit)
			os.Exit(7)
		}
	}
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func quietLogs() { glg.Get().SetMode(glg.NONE) }

func findSub(prop, name string) *Sub {
	for _, s := range registry {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

func search(t *testing.T, s *Sub, seed uint64, shard, checks int, budget time.Duration, outDir string) result {
	res := result{Prop: s.Prop, Sub: s.Name, Rule: s.Rule, Seed: seed, Shard: shard, Labels: map[string]int{}}
	start := time.Now()
	cur := filepath.Join(outDir, "current.json")
	seen := map[uint64]bool{}
	var fail *failure
	var harnessErr error

	prop := func(rt *rapid.T) {
		if harnessErr != nil {
			return
		}
		plan := s.gen(rt)
		raw, err := json.Marshal(plan)
		if err != nil {
			harnessErr = err
			return
		}
		os.WriteFile(cur, raw, 0o644)
		// Run what a replay would run.
		rplan, err := s.decode(raw)
		if err != nil {
			harnessErr = err
			return
		}
		c := &Case{labels: map[string]int{}}
		progress.Add(1)
		err = execute(t, s, rplan, c)
		progress.Add(1)
		var he *HarnessError
		if errors.As(err, &he) {
			harnessErr = fmt.Errorf("%w\nplan: %s", he, clip(raw, 3000))
			return
		}
		if fail == nil {
			res.Evaluations++
			for l, n := range c.labels {
				if n > 0 {
					res.Labels[l]++
				}
			}
			if c.nt {
				h := hash64(raw)
				if !seen[h] {
					seen[h] = true
					res.NonTrivial++
					if len(res.Samples) < 3 && len(raw) < 4000 {
						res.Samples = append(res.Samples, raw)
					}
				}
			}
		}
		if err != nil {
			if fail == nil || len(raw) <= len(fail.Plan) {
				n := 0
				if fail != nil {
					n = fail.Failed
				}
				fail = &failure{Sub: s.Name, Prop: s.Prop, Error: err.Error(), Plan: raw, Kind: "oracle", Failed: n}
			}
			fail.Failed++
			writeJSON(filepath.Join(outDir, "failure.json"), fail)
			rt.Fatalf("%v", err)
		}
	}

	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	done, batch := 0, 20
	for b := 0; done < checks && harnessErr == nil && fail == nil; b++ {
		if time.Since(start) > budget {
			res.Stopped = "time budget"
			break
		}
		n := min(batch, checks-done)
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(mix(seed, s.Prop, s.Name, strconv.Itoa(shard), strconv.Itoa(b)), 10))
		q := &quietTB{TB: t}
		rapid.Check(q, prop)
		if q.failed && fail == nil && harnessErr == nil {
			harnessErr = fmt.Errorf("generation failed: %s", q.msg)
		}
		done += n
		batch = 100
	}
	if harnessErr != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", harnessErr)
		os.Exit(4)
	}
	if fail != nil {
		ok, n := 0, 5
		for i := 0; i < n; i++ {
			if rp, err := s.decode(fail.Plan); err == nil {
				c := &Case{labels: map[string]int{}}
				progress.Add(1)
				if execute(t, s, rp, c) != nil {
					ok++
				}
			}
		}
		fail.Repro = fmt.Sprintf("%d/%d", ok, n)
		res.Failure = fail
	}
	for h := range seen {
		res.NTHashes = append(res.NTHashes, h)
	}
	sort.Slice(res.NTHashes, func(i, j int) bool { return res.NTHashes[i] < res.NTHashes[j] })
	res.WallS = time.Since(start).Seconds()
	return res
}

// quietTB swallows rapid's reporting; verdicts are taken from the executions.
type quietTB struct {
	testing.TB
	failed bool
	msg    string
}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Logf(string, ...any)       {}
func (q *quietTB) Log(...any)                {}
func (q *quietTB) Errorf(f string, a ...any) { q.failed = true; q.msg += fmt.Sprintf(f, a...) }
func (q *quietTB) Error(...any)              { q.failed = true }
func (q *quietTB) Fatalf(string, ...any)     { q.failed = true }
func (q *quietTB) Fatal(...any)              { q.failed = true }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) FailNow()                  { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }
func (q *quietTB) Skip(...any)               {}
func (q *quietTB) Skipf(string, ...any)      {}
func (q *quietTB) SkipNow()                  {}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return append(append([]byte{}, b[:n]...), "..."...)
	}
	return b
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(4)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(4)
	}
	os.Rename(tmp, path)
}

func seedFromEnv() uint64 {
	v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		v = 1
	}
	return uint64(v)
}
