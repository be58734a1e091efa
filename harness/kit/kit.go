// Package kit is the common driver of the property checks. A check is a
// program that lists one or more sub-checks; every sub-check owns a rapid
// generator for an explicit, JSON-serialisable case and an oracle that judges
// one case. The kit shards generation over worker processes, lets rapid shrink
// a failing case, writes it as a replay file, and writes the evidence file.
package kit

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what one case exercised.
type Obs struct {
	nontrivial bool
	labels     []string
	tag        string
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Label counts a class the case belongs to.
func (o *Obs) Label(format string, args ...any) {
	o.labels = append(o.labels, fmt.Sprintf(format, args...))
}

// Finding names the known defect class a failure of this case belongs to. The
// name only matters when it is listed in known_findings.json.
func (o *Obs) Finding(tag string) { o.tag = tag }

// Sub is one generated check of a property.
type Sub struct {
	Name     string
	Quick    int
	Thorough int
	// Env are extra environment settings; they force one process per sub.
	gen    func(*rapid.T) any
	run    func(any, *Obs) error
	decode func([]byte) (any, error)
	reduce func(any) []any
}

// Reducer is implemented by cases which can propose smaller versions of themselves.
type Reducer[T any] interface{ Smaller() []T }

// NewSub builds a sub-check for case type T.
func NewSub[T any](name string, quick, thorough int, gen func(*rapid.T) T, run func(T, *Obs) error) Sub {
	s := Sub{Name: name, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c any, o *Obs) error { return run(c.(T), o) },
		decode: func(b []byte) (any, error) {
			var c T
			err := json.Unmarshal(b, &c)
			return c, err
		}}
	var zero T
	if _, ok := any(zero).(Reducer[T]); ok {
		s.reduce = func(c any) []any {
			var out []any
			for _, v := range c.(Reducer[T]).Smaller() {
				out = append(out, v)
			}
			return out
		}
	}
	return s
}

// Check is one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Subs        []Sub
	// Workers overrides the number of worker processes (default: 8).
	Workers int
	// HangCPU is the CPU time in seconds after which a single case is held
	// to be non-terminating (default 60; cases take milliseconds).
	HangCPU int
}

type replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Finding  string          `json:"finding,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type subStat struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Known       map[string]int `json:"known"`
	Samples     []any          `json:"samples"`
}

type workerOut struct {
	Stats   map[string]*subStat `json:"stats"`
	Hashes  []uint64            `json:"hashes"`
	Failure *replay             `json:"failure"`
	Gen     string              `json:"gen"`
}

// known_findings.json
type finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Tag      string `json:"tag"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func outDir(sub string) string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = verifDir()
	}
	return filepath.Join(d, sub)
}

func loadFindings(id string) map[string]finding {
	res := map[string]finding{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return res
	}
	var all struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	for _, f := range all.Findings {
		if f.Status == "known" && f.Property == id && f.Tag != "" {
			res[f.Tag] = f
		}
	}
	return res
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// tb implements rapid.TB outside of go test.
type tb struct {
	name   string
	failed bool
	log    []string
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(f string, a ...any) {
	if len(t.log) < 200 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// ErrSkip is returned by an oracle for a case outside the property's domain
// (it counts as evaluated and trivial).
var ErrSkip = errors.New("outside the domain")

// HarnessError marks a failure of the harness itself (never a violation).
type HarnessError struct{ Err error }

func (h HarnessError) Error() string { return "harness: " + h.Err.Error() }

func runSafe(s *Sub, c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				err = he
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return s.run(c, o)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: case cannot be serialised:", err)
		os.Exit(3)
	}
	return b
}

func muteStdout() *os.File {
	real := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	return real
}

// worker runs its share of one property's cases.
func (c *Check) worker(idx, total int, tier string, seed uint64, out, journal string, scale float64) {
	muteStdout()
	known := loadFindings(c.ID)
	wo := workerOut{Stats: map[string]*subStat{}}
	seen := map[uint64]bool{}
	var jf *os.File
	if journal != "" {
		f, err := os.OpenFile(journal, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
		jf = f
	}
	for si := range c.Subs {
		s := &c.Subs[si]
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n)*scale + 0.5)
		share := n / total
		if idx < n%total {
			share++
		}
		if share == 0 {
			continue
		}
		st := &subStat{Labels: map[string]int{}, Known: map[string]int{}}
		wo.Stats[s.Name] = st
		var lastCase any
		var lastErr error
		var lastTag string
		failing := false
		prop := func(t *rapid.T) {
			cs := s.gen(t)
			js := mustJSON(cs)
			if jf != nil {
				hdr := fmt.Sprintf("%s\n%d\n", s.Name, len(js))
				jf.WriteAt(append([]byte(hdr), js...), 0)
			}
			o := &Obs{}
			err := runSafe(s, cs, o)
			if he, ok := err.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, he.Error())
				os.Exit(3)
			}
			if !failing {
				st.Evaluations++
				if err == ErrSkip {
					st.Labels["outside-domain"]++
				} else {
					for _, l := range o.labels {
						st.Labels[l]++
					}
					if o.nontrivial {
						h := hashStr(s.Name + string(js))
						if !seen[h] {
							seen[h] = true
							st.NonTrivial++
							if len(st.Samples) < 1 && len(js) < 6000 {
								st.Samples = append(st.Samples, json.RawMessage(js))
							}
						}
					}
				}
			}
			if err != nil && err != ErrSkip {
				if _, ok := known[o.tag]; ok && o.tag != "" {
					if !failing {
						st.Known[o.tag]++
					}
					return
				}
				failing = true
				lastCase, lastErr, lastTag = cs, err, o.tag
				t.Fatalf("violated")
			}
		}
		wseed := mix(mix(seed^hashStr(c.ID+s.Name)) + uint64(idx)*0x1234567)
		if wseed == 0 {
			wseed = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(share))
		flag.Set("rapid.seed", strconv.FormatUint(wseed, 10))
		t := &tb{name: c.ID + s.Name}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(t, prop)
		}()
		if t.failed {
			if lastCase == nil {
				fmt.Fprintln(os.Stderr, "harness: generator failed:", strings.Join(t.log, "\n"))
				os.Exit(3)
			}
			lastCase, lastErr, lastTag = s.minimise(lastCase, lastErr, lastTag, known)
			wo.Failure = &replay{Property: c.ID, Sub: s.Name, Error: lastErr.Error(), Finding: lastTag, Case: mustJSON(lastCase)}
			break
		}
	}
	for h := range seen {
		wo.Hashes = append(wo.Hashes, h)
	}
	wo.Gen = "done"
	b := mustJSON(wo)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// minimise greedily applies the case's own reductions after rapid's shrinking.
func (s *Sub) minimise(c any, err error, tag string, known map[string]finding) (any, error, string) {
	if s.reduce == nil {
		return c, err, tag
	}
	budget := 400
	start := time.Now()
	for progress := true; progress; {
		progress = false
		for _, d := range s.reduce(c) {
			budget--
			if budget < 0 || time.Since(start) > 15*time.Second {
				return c, err, tag
			}
			o := &Obs{}
			e := runSafe(s, d, o)
			if e == nil || e == ErrSkip {
				continue
			}
			if _, ok := e.(HarnessError); ok {
				continue
			}
			if _, ok := known[o.tag]; ok && o.tag != "" {
				continue
			}
			c, err, tag = d, e, o.tag
			progress = true
			break
		}
	}
	return c, err, tag
}

func (c *Check) sub(name string) *Sub {
	for i := range c.Subs {
		if c.Subs[i].Name == name {
			return &c.Subs[i]
		}
	}
	return nil
}

// replayFile runs one saved case, bypassing the generators. Exit 0: holds,
// 1: fails, 4: fails in a way listed as known.
func (c *Check) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	s := c.sub(r.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "harness: no sub-check", r.Sub)
		return 3
	}
	cs, err := s.decode(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot decode case:", err)
		return 3
	}
	real := muteStdout()
	o := &Obs{}
	e := runSafe(s, cs, o)
	if e == nil || e == ErrSkip {
		fmt.Fprintln(real, "holds")
		return 0
	}
	if _, ok := e.(HarnessError); ok {
		fmt.Fprintln(os.Stderr, e)
		return 3
	}
	if _, ok := loadFindings(c.ID)[o.tag]; ok && o.tag != "" {
		fmt.Fprintln(real, "known", o.tag)
		return 4
	}
	fmt.Fprintln(real, "FAILS:", e)
	return 1
}

type proc struct {
	cmd     *exec.Cmd
	out     string
	journal string
	errFile string
	done    chan struct{}
	err     error
	// watchdog state
	lastCase  string
	caseCPU   float64
	caseSince time.Time
	killed    string
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := strings.LastIndexByte(string(b), ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(string(b)[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func fingerprint(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	return strconv.FormatUint(hashStr(string(b)), 16)
}

func readJournal(path string) (string, []byte) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", nil
	}
	parts := strings.SplitN(string(b), "\n", 3)
	if len(parts) < 3 {
		return "", nil
	}
	n, err := strconv.Atoi(parts[1])
	if err != nil || n > len(parts[2]) {
		return "", nil
	}
	return parts[0], []byte(parts[2][:n])
}

const (
	wallStall = 240 * time.Second // no CPU progress for this long: blocked
)

// watch decides whether a process is stuck inside one case. It never judges
// by wall-clock speed: either one case has burnt hangCPU seconds of CPU time,
// or the whole process has been blocked with no CPU use for wallStall.
func (p *proc) watch(hangCPU float64) string {
	fp := fingerprint(p.journal)
	cpu := cpuSeconds(p.cmd.Process.Pid)
	now := time.Now()
	if fp != p.lastCase {
		p.lastCase, p.caseCPU, p.caseSince = fp, cpu, now
		return ""
	}
	if cpu-p.caseCPU > hangCPU {
		return "cpu"
	}
	if now.Sub(p.caseSince) > wallStall && cpu-p.caseCPU < 0.5 {
		return "blocked"
	}
	return ""
}

func start(args []string, env []string, out, journal, errFile string) (*proc, error) {
	p := &proc{out: out, journal: journal, errFile: errFile, done: make(chan struct{})}
	p.cmd = exec.Command(os.Args[0], args...)
	p.cmd.Env = append(os.Environ(), env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	ef, err := os.Create(errFile)
	if err != nil {
		return nil, err
	}
	p.cmd.Stderr = ef
	p.cmd.Stdout = ef
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	p.caseSince = time.Now()
	go func() {
		p.err = p.cmd.Wait()
		ef.Close()
		close(p.done)
	}()
	return p, nil
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return ee.ExitCode() // -1 when killed by a signal
	}
	return -2
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func isCodeCrash(stderr string) bool {
	if strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate memory") ||
		strings.Contains(stderr, "resource temporarily unavailable") || strings.Contains(stderr, "newosproc") {
		return false
	}
	if strings.Contains(stderr, "WARNING: DATA RACE") {
		return true
	}
	return strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "fatal error: ")
}

// Main is the entry point of a check program.
func Main(c *Check) {
	testing.Init()
	var (
		worker  = flag.Int("worker", -1, "worker index")
		workers = flag.Int("workers", 0, "number of workers")
		out     = flag.String("out", "", "worker output")
		journal = flag.String("journal", "", "worker journal")
		rep     = flag.String("replay", "", "replay one case")
		scale   = flag.Float64("scale", 1, "multiply case counts")
		only    = flag.String("sub", "", "run only this sub-check")
		tierF   = flag.String("tier", "", "quick or thorough")
	)
	flag.Parse()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	if *only != "" {
		s := c.sub(*only)
		if s == nil {
			fmt.Fprintln(os.Stderr, "no such sub-check")
			os.Exit(3)
		}
		c.Subs = []Sub{*s}
	}
	if c.HangCPU == 0 {
		c.HangCPU = 60
	}
	if *rep != "" {
		os.Exit(c.replayFile(*rep))
	}
	if *worker >= 0 {
		c.worker(*worker, *workers, tier, uint64(seed), *out, *journal, *scale)
		return
	}
	os.Exit(c.supervise(tier, seed, *workers, *scale, *only))
}

func (c *Check) isolated(tmp, path string) (code int, stderr string) {
	ef := filepath.Join(tmp, "isolated.err")
	j := filepath.Join(tmp, "isolated.journal")
	os.WriteFile(j, []byte("x"), 0o644)
	p, err := start([]string{"-replay", path}, nil, "", j, ef)
	if err != nil {
		return 3, err.Error()
	}
	for {
		select {
		case <-p.done:
			return exitCode(p.err), tail(ef, 20000)
		case <-time.After(200 * time.Millisecond):
			if w := p.watch(float64(c.HangCPU)); w != "" {
				p.cmd.Process.Kill()
				<-p.done
				return 98, "does not terminate (" + w + ")"
			}
		}
	}
}

func (c *Check) supervise(tier string, seed int64, nw int, scale float64, only string) int {
	begin := time.Now()
	if nw == 0 {
		nw = c.Workers
	}
	if nw == 0 {
		nw = 8
	}
	tmp, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	defer os.RemoveAll(tmp)
	os.MkdirAll(outDir("replays"), 0o755)
	os.MkdirAll(outDir("evidence"), 0o755)
	known := loadFindings(c.ID)

	violate := func(r *replay) int {
		name := filepath.Join(outDir("replays"), fmt.Sprintf("%s-%s-seed%d.json", c.ID, r.Sub, seed))
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(name, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 3
		}
		fmt.Printf("sub-check %s: %s\n", r.Sub, r.Error)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, name)
		return 1
	}

	// 1. saved regression cases
	corpus, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", c.ID, "*.json"))
	sort.Strings(corpus)
	corpusKnown := map[string]int{}
	corpusRun := 0
	for _, f := range corpus {
		if only != "" {
			b, _ := os.ReadFile(f)
			var r replay
			json.Unmarshal(b, &r)
			if r.Sub != only {
				continue
			}
		}
		code, stderr := c.isolated(tmp, f)
		corpusRun++
		switch {
		case code == 0:
		case code == 4:
			for tag := range known {
				if strings.Contains(stderr, "known "+tag) {
					corpusKnown[tag]++
				}
			}
		case code == 1 || code == 98 || isCodeCrash(stderr):
			b, _ := os.ReadFile(f)
			var r replay
			json.Unmarshal(b, &r)
			r.Error = stderr
			rc := violate(&r)
			c.evidence(tier, seed, begin, nil, corpusRun, nil, 1, nw)
			return rc
		default:
			fmt.Fprintf(os.Stderr, "harness: regression case %s: exit %d\n%s\n", f, code, stderr)
			return 3
		}
	}

	// 2. generated cases
	var procs []*proc
	for i := 0; i < nw; i++ {
		o := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
		j := filepath.Join(tmp, fmt.Sprintf("w%d.journal", i))
		e := filepath.Join(tmp, fmt.Sprintf("w%d.err", i))
		args := []string{"-worker", strconv.Itoa(i), "-workers", strconv.Itoa(nw), "-out", o, "-journal", j,
			"-tier", tier, "-scale", strconv.FormatFloat(scale, 'g', -1, 64)}
		if only != "" {
			args = append(args, "-sub", only)
		}
		p, err := start(args, nil, o, j, e)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 3
		}
		procs = append(procs, p)
	}
	killAll := func() {
		for _, p := range procs {
			p.cmd.Process.Kill()
		}
		for _, p := range procs {
			<-p.done
		}
	}
	var outs []*workerOut
	alive := append([]*proc{}, procs...)
	for len(alive) > 0 {
		time.Sleep(20 * time.Millisecond)
		var next []*proc
		for _, p := range alive {
			select {
			case <-p.done:
			default:
				if w := p.watch(float64(c.HangCPU)); w != "" {
					p.cmd.Process.Kill()
					<-p.done
					p.killed = w
				} else {
					next = append(next, p)
					continue
				}
			}
			code := exitCode(p.err)
			if code == 0 && p.killed == "" {
				b, err := os.ReadFile(p.out)
				var wo workerOut
				if err != nil || json.Unmarshal(b, &wo) != nil {
					killAll()
					fmt.Fprintln(os.Stderr, "harness: worker wrote no result")
					return 3
				}
				if wo.Failure != nil {
					killAll()
					rc := violate(wo.Failure)
					outs = append(outs, &wo)
					c.evidence(tier, seed, begin, outs, corpusRun, nil, 1, nw)
					return rc
				}
				outs = append(outs, &wo)
				continue
			}
			stderr := tail(p.errFile, 20000)
			name, js := readJournal(p.journal)
			if code == 3 || name == "" {
				killAll()
				fmt.Fprintf(os.Stderr, "harness: worker failed (exit %d)\n%s\n", code, stderr)
				return 3
			}
			// the code under test crashed or hung: confirm in isolation
			killAll()
			r := &replay{Property: c.ID, Sub: name, Case: js}
			path := filepath.Join(tmp, "crash.json")
			b, _ := json.Marshal(r)
			os.WriteFile(path, b, 0o644)
			if p.killed != "" {
				ic, _ := c.isolated(tmp, path)
				if ic == 98 {
					r.Error = fmt.Sprintf("does not terminate: one case used more than %d s of CPU time or blocked forever (%s)", c.HangCPU, p.killed)
					return violate(r)
				}
				if ic == 1 {
					r.Error = "fails on isolated re-run"
					return violate(r)
				}
				fmt.Fprintf(os.Stderr, "harness: worker stuck (%s), not reproduced in isolation (exit %d)\n", p.killed, ic)
				return 3
			}
			if isCodeCrash(stderr) {
				r.Error = "the process crashed:\n" + stderr
				for k := 0; k < 5; k++ {
					ic, ierr := c.isolated(tmp, path)
					if (ic != 0 && ic != 3 && ic != 4 && isCodeCrash(ierr)) || ic == 1 {
						r.Error = "the process crashes:\n" + ierr
						break
					}
				}
				if len(r.Error) > 4000 {
					r.Error = r.Error[:4000]
				}
				return violate(r)
			}
			fmt.Fprintf(os.Stderr, "harness: worker died (exit %d: %v)\n%s\n", code, p.err, stderr)
			return 3
		}
		alive = next
	}
	knownTotal := map[string]int{}
	for t, n := range corpusKnown {
		knownTotal[t] += n
	}
	for _, o := range outs {
		for _, s := range o.Stats {
			for t, n := range s.Known {
				knownTotal[t] += n
			}
		}
	}
	var tags []string
	for t := range known {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	for _, t := range tags {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases this run)\n", c.ID, known[t].What, knownTotal[t])
	}
	tot, nt := c.evidence(tier, seed, begin, outs, corpusRun, knownTotal, 0, nw)
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %d regression cases, %.1fs\n", c.ID, tot, nt, corpusRun, time.Since(begin).Seconds())
	return 0
}

func (c *Check) evidence(tier string, seed int64, begin time.Time, outs []*workerOut, corpusRun int, known map[string]int, violations, nw int) (int, int) {
	hashes := map[uint64]bool{}
	evals := 0
	subs := map[string]any{}
	var samples []any
	for _, s := range c.Subs {
		ev, nt := 0, 0
		labels := map[string]int{}
		got := false
		for _, o := range outs {
			st := o.Stats[s.Name]
			if st == nil {
				continue
			}
			ev += st.Evaluations
			nt += st.NonTrivial
			for l, n := range st.Labels {
				labels[l] += n
			}
			if !got && len(st.Samples) > 0 {
				samples = append(samples, map[string]any{"sub": s.Name, "case": st.Samples[0]})
				got = true
			}
		}
		evals += ev
		subs[s.Name] = map[string]any{"evaluations": ev, "nontrivial": nt, "labels": labels}
	}
	for _, o := range outs {
		for _, h := range o.Hashes {
			hashes[h] = true
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         evals + corpusRun,
		"distinct_nontrivial": len(hashes),
		"rule":                c.Rule,
		"samples":             samples,
		"sub_checks":          subs,
		"regression_cases":    corpusRun,
		"known_finding_cases": known,
		"worker_processes":    nw,
		"exhaustive":          false,
	}
	ev := map[string]any{
		"property":    c.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": c.Assumptions,
		"wall_s":      time.Since(begin).Seconds(),
		"violations":  violations,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(filepath.Join(outDir("evidence"), c.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	return evals, len(hashes)
}

// Goroutines returns the current number of goroutines.
func Goroutines() int { return runtime.NumGoroutine() }

// Repeats reports random choices that occur more often one shortly after the
// other than independent draws would: keys are the draws, all equally likely
// out of exp(logTotal).
func Repeats(keys []string, logTotal float64) error {
	q := math.Exp(-logTotal)
	for lag := 1; lag <= 8 && lag < len(keys); lag++ {
		n, eq := float64(len(keys)-lag), 0.0
		for i := lag; i < len(keys); i++ {
			if keys[i] == keys[i-lag] {
				eq++
			}
		}
		// overlapping pairs of independent uniform draws are pairwise independent
		if sd := math.Sqrt(n * q * (1 - q)); eq > n*q+8*sd+4 {
			return fmt.Errorf("%v of %v random choices are equal to the %d. before, expected %.3g", eq, n, lag, n*q)
		}
	}
	if n := float64(len(keys)); n*n*q < 1e-10 {
		seen := map[string]int{}
		for i, k := range keys {
			if j, ok := seen[k]; ok {
				return fmt.Errorf("random choices %d and %d are the same", j, i)
			}
			seen[k] = i
		}
	}
	return nil
}

// LogChoose is the logarithm of the number of ways to choose k of n.
func LogChoose(n, k int) float64 {
	a, _ := math.Lgamma(float64(n + 1))
	b, _ := math.Lgamma(float64(k + 1))
	c, _ := math.Lgamma(float64(n - k + 1))
	return a - b - c
}
