// Package pbt is the small driver every check binary uses: it runs a suite of
// (generator, oracle) pairs under rapid, keeps the case that is being executed
// on disk, records statistics, and turns the shrunk failure into a plain JSON
// replay file that is re-executed without rapid.
package pbt

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Str is a string that survives JSON even when it is not valid UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "hex:") {
		return json.Marshal(string(s))
	}
	return json.Marshal("hex:" + hex.EncodeToString([]byte(s)))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	if strings.HasPrefix(t, "hex:") {
		d, err := hex.DecodeString(t[4:])
		if err != nil {
			return err
		}
		*s = Str(d)
		return nil
	}
	*s = Str(t)
	return nil
}

// Stats collects what a run actually exercised.
type Stats struct {
	classes map[string]int
	nontriv bool
	seen    map[string]bool
	skipped int
}

// Class counts the current case under a label (once per case).
func (s *Stats) Class(label string) {
	if !s.seen[label] {
		s.seen[label] = true
		s.classes[label]++
	}
}

// ClassIf counts the case under label when cond holds.
func (s *Stats) ClassIf(cond bool, label string) {
	if cond {
		s.Class(label)
	}
}

// Add adds n to a plain counter.
func (s *Stats) Add(label string, n int) { s.classes[label] += n }

// NonTrivial marks the current case as non-trivial by the check's rule.
func (s *Stats) NonTrivial() { s.nontriv = true }

// Suite is one generator with its oracle.
type Suite struct {
	Name     string
	Quick    int
	Thorough int
	Rule     string
	// MaxShards bounds the number of processes (0: no bound).
	MaxShards int
	gen       func(*rapid.T) any
	decode    func([]byte) (any, error)
	check     func(any, *Stats) error
}

// S builds a Suite from typed functions.
func S[C any](name string, quick, thorough int, rule string, gen func(*rapid.T) C, check func(C, *Stats) error) Suite {
	return Suite{
		Name: name, Quick: quick, Thorough: thorough, Rule: rule,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		check: func(c any, st *Stats) error { return check(c.(C), st) },
	}
}

// HarnessError is raised (by panic) when the check itself, not the code under
// test, cannot proceed.
type HarnessError struct{ Err error }

// Must stops the run as an error of the check when err is not nil.
func Must(err error) {
	if err != nil {
		panic(HarnessError{err})
	}
}

// SkipError says that a case does not reach the property (for instance because
// a configuration could not be set up, which another property covers).
type SkipError struct{ Why string }

func (s *SkipError) Error() string { return "skipped: " + s.Why }

// Skip makes a SkipError.
func Skip(format string, a ...any) error { return &SkipError{fmt.Sprintf(format, a...)} }

// Try runs f and converts a panic of the code under test into an error.
func Try(what string, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("%s: panic: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

// PanicError tells a panic apart from an ordinary error.
type PanicError struct {
	Val   string
	Stack string
}

func (p *PanicError) Error() string { return "panic: " + p.Val + "\n" + p.Stack }

// Catch runs f; a panic of the code under test is returned as *PanicError.
func Catch(f func()) (pe *PanicError) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				panic(he)
			}
			pe = &PanicError{fmt.Sprint(r), trimStack(debug.Stack())}
		}
	}()
	f()
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "gosudachi") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type output struct {
	Suite       string            `json:"suite"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   string            `json:"violation,omitempty"`
	Flaky       bool              `json:"flaky,omitempty"`
	WallS       float64           `json:"wall_s"`
}

// Replay is the format of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Suite    string          `json:"suite"`
	Mode     string          `json:"mode"` // "case" or "shard"
	Reason   string          `json:"reason"`
	Seed     uint64          `json:"seed,omitempty"`
	Checks   int             `json:"checks,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
}

type tb struct {
	failed bool
	log    strings.Builder
}

type stopTB struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "pbt" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { panic("skip") }
func (t *tb) Skip(a ...any)             { panic("skip") }
func (t *tb) SkipNow()                  { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(stopTB{}) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(stopTB{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(stopTB{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var (
	caseStartCPU  atomic.Int64 // ns of process CPU when the current case began
	caseActive    atomic.Bool
	cpuLimit      = 60 * time.Second
	memLimit      = int64(3) << 30
	hangPath      string
	curCase       atomic.Pointer[[]byte]
	curSuite      string
	curProperty   string
	exitHang      = 7
	exitHarness   = 3
	exitViolation = 1
)

func processCPU() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		if !caseActive.Load() {
			continue
		}
		reason := ""
		if d := processCPU() - caseStartCPU.Load(); d > int64(cpuLimit) {
			reason = fmt.Sprintf("does not terminate: the case consumed more than %v of CPU time", cpuLimit)
		} else if rss() > memLimit {
			reason = fmt.Sprintf("memory blow-up: the case made the process exceed %d MiB", memLimit>>20)
		}
		if reason != "" {
			writeReplay(hangPath, reason)
			os.Exit(exitHang)
		}
	}
}

func writeReplay(path, reason string) {
	if path == "" {
		fmt.Println("REASON " + reason)
		return
	}
	r := Replay{Property: curProperty, Suite: curSuite, Mode: "case", Reason: reason}
	if p := curCase.Load(); p != nil {
		r.Case = *p
	}
	b, _ := json.MarshalIndent(r, "", " ")
	_ = os.WriteFile(path, b, 0644)
}

func runCheck(su *Suite, c any, st *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	caseStartCPU.Store(processCPU())
	caseActive.Store(true)
	defer caseActive.Store(false)
	err = su.check(c, st)
	if f := os.Getenv("VERIF_SLOW"); f != "" { // development: lists expensive cases
		if d := time.Duration(processCPU() - caseStartCPU.Load()); d > 2*time.Second {
			if w, e := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); e == nil {
				fmt.Fprintf(w, "%s %s %.1fs\n", curProperty, curSuite, d.Seconds())
				w.Close()
			}
		}
	}
	var sk *SkipError
	if errors.As(err, &sk) {
		st.Add("(skipped) "+firstLine(sk.Why), 1)
		st.skipped++
		st.nontriv = false
		return nil
	}
	return err
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 100 {
		s = s[:100]
	}
	return s
}

// TempDir is a scratch directory of this process.
var TempDir string

// CLIDir holds the command binaries built from /repo (when the check needs them).
var CLIDir string

// Main is the entry point of a check binary.
func Main(property string, suites ...Suite) {
	testing.Init()
	var (
		mode    = flag.String("mode", "run", "run|list|replay")
		sname   = flag.String("suite", "", "suite")
		seed    = flag.Uint64("seed", 1, "seed")
		checks  = flag.Int("checks", 100, "number of cases")
		outDir  = flag.String("out", "", "directory for the results")
		file    = flag.String("file", "", "replay file")
		cli     = flag.String("cli", os.Getenv("PBT_CLI"), "directory with the command binaries")
		timeout = flag.Duration("cpulimit", 60*time.Second, "CPU time after which a case counts as not terminating")
	)
	flag.Parse()
	cpuLimit = *timeout
	CLIDir = *cli
	curProperty = property
	if *mode == "list" {
		type l struct {
			Name      string `json:"name"`
			Quick     int    `json:"quick"`
			Thorough  int    `json:"thorough"`
			MaxShards int    `json:"max_shards"`
			Rule      string `json:"rule"`
		}
		var ls []l
		for _, s := range suites {
			ls = append(ls, l{s.Name, s.Quick, s.Thorough, s.MaxShards, s.Rule})
		}
		_ = json.NewEncoder(os.Stdout).Encode(ls)
		return
	}
	realStderr := os.Stderr
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stderr = devnull
	}
	TempDir, err = os.MkdirTemp(*outDir, "pbt")
	if err != nil {
		fmt.Fprintln(realStderr, err)
		os.Exit(exitHarness)
	}
	code := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(HarnessError); ok {
					fmt.Fprintf(realStderr, "harness error: %v\n", he.Err)
					code = exitHarness
					return
				}
				fmt.Fprintf(realStderr, "unexpected panic in the driver: %v\n%s\n", r, debug.Stack())
				code = exitHarness
			}
		}()
		if *mode == "replay" {
			code = replay(property, suites, *file, realStderr)
		} else {
			code = run(property, suites, *sname, *seed, *checks, *outDir, realStderr)
		}
	}()
	_ = os.RemoveAll(TempDir)
	os.Exit(code)
}

func find(suites []Suite, name string) *Suite {
	for i := range suites {
		if suites[i].Name == name {
			return &suites[i]
		}
	}
	panic(HarnessError{fmt.Errorf("no suite %q", name)})
}

func newStats() *Stats { return &Stats{classes: map[string]int{}, seen: map[string]bool{}} }

func replay(property string, suites []Suite, file string, stderr *os.File) int {
	b, err := os.ReadFile(file)
	Must(err)
	var r Replay
	Must(json.Unmarshal(b, &r))
	su := find(suites, r.Suite)
	curSuite = su.Name
	if r.Mode == "shard" {
		d, err := os.MkdirTemp("", "pbtshard")
		Must(err)
		defer os.RemoveAll(d)
		code := run(property, suites, r.Suite, r.Seed, r.Checks, d, stderr)
		if code == exitViolation {
			var o output
			if b, err := os.ReadFile(filepath.Join(d, "out.json")); err == nil {
				_ = json.Unmarshal(b, &o)
			}
			fmt.Println("REASON " + o.Violation)
		}
		return code
	}
	c, err := su.decode(r.Case)
	Must(err)
	raw := []byte(r.Case)
	curCase.Store(&raw)
	go watchdog()
	if err := runCheck(su, c, newStats()); err != nil {
		fmt.Println("REASON " + err.Error())
		return exitViolation
	}
	fmt.Println("the case passes")
	return 0
}

func run(property string, suites []Suite, name string, seed uint64, checks int, outDir string, stderr *os.File) int {
	start := time.Now()
	su := find(suites, name)
	curSuite = su.Name
	if seed == 0 {
		seed = 0x9E3779B97F4A7C15
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "25s")
	hangPath = filepath.Join(outDir, "hang.json")
	cur, err := os.Create(filepath.Join(outDir, "cur.json"))
	Must(err)
	defer cur.Close()
	go watchdog()

	o := output{Suite: su.Name, Classes: map[string]int{}}
	hashes := map[uint64]bool{}
	st := newStats()
	failing := false
	lastErr := ""
	firstFailure := []byte(nil)
	firstErr := ""
	nextSample := 1
	t := &tb{}
	var he *HarnessError
	prop := func(rt *rapid.T) {
		if he != nil {
			rt.Fatalf("stopped")
		}
		c0 := su.gen(rt)
		raw, err := json.Marshal(c0)
		if err != nil {
			he = &HarnessError{err}
			rt.Fatalf("stopped")
		}
		c, err := su.decode(raw)
		if err != nil {
			he = &HarnessError{err}
			rt.Fatalf("stopped")
		}
		curCase.Store(&raw)
		r := Replay{Property: property, Suite: su.Name, Mode: "case", Reason: "crash of the process", Case: raw}
		rb, _ := json.Marshal(r)
		_ = cur.Truncate(int64(len(rb)))
		_, _ = cur.WriteAt(rb, 0)

		cst := st
		if failing {
			cst = newStats()
		}
		cst.seen = map[string]bool{}
		cst.nontriv = false
		var cerr error
		func() {
			defer func() {
				if r := recover(); r != nil {
					if h, ok := r.(HarnessError); ok {
						he = &h
						return
					}
					panic(r)
				}
			}()
			cerr = runCheck(su, c, cst)
		}()
		if he != nil {
			rt.Fatalf("stopped")
		}
		if !failing {
			o.Evaluations++
			if cst.nontriv {
				h := fnv.New64a()
				h.Write([]byte(su.Name))
				h.Write(raw)
				hv := h.Sum64()
				if !hashes[hv] {
					hashes[hv] = true
					o.NonTrivial++
					if o.NonTrivial == nextSample && len(o.Samples) < 6 {
						nextSample *= 4
						if len(raw) <= 6000 {
							o.Samples = append(o.Samples, append(json.RawMessage(nil), raw...))
						} else {
							q, _ := json.Marshal(string(raw[:3000]) + "...(truncated)")
							o.Samples = append(o.Samples, q)
						}
					}
				}
			}
		}
		if cerr != nil {
			if !failing {
				firstFailure = append([]byte(nil), raw...)
				firstErr = cerr.Error()
				fb, _ := json.MarshalIndent(Replay{Property: property, Suite: su.Name, Mode: "case", Reason: firstErr, Case: firstFailure}, "", " ")
				_ = os.WriteFile(filepath.Join(outDir, "first.json"), fb, 0644)
			}
			failing = true
			lastErr = cerr.Error()
			writeReplay(filepath.Join(outDir, "violation.json"), lastErr)
			rt.Fatalf("property violated")
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); ok {
					return
				}
				panic(r)
			}
		}()
		rapid.Check(t, prop)
	}()
	if he != nil {
		panic(*he)
	}
	if !failing && st.skipped*2 > o.Evaluations {
		panic(HarnessError{fmt.Errorf("%d of %d cases were skipped: %v", st.skipped, o.Evaluations, st.classes)})
	}
	o.Classes = st.classes
	o.WallS = time.Since(start).Seconds()
	code := 0
	if failing {
		o.Violation = lastErr
		code = exitViolation
	} else if t.failed {
		panic(HarnessError{errors.New("rapid: " + t.log.String())})
	}
	hb := make([]byte, 0, 8*len(hashes))
	keys := make([]uint64, 0, len(hashes))
	for h := range hashes {
		keys = append(keys, h)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, h := range keys {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	Must(os.WriteFile(filepath.Join(outDir, "hashes.bin"), hb, 0644))
	b, err := json.Marshal(o)
	Must(err)
	Must(os.WriteFile(filepath.Join(outDir, "out.json"), b, 0644))
	return code
}
