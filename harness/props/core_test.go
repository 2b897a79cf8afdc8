package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Parts: a generator of plain-data scenarios and a run function with the oracle.

type part struct {
	prop, name string
	rule       string
	quick      int // cases per shard
	thorough   int
	race       bool // also executed by the -race build
	raceDiv    int
	gen        func(*rapid.T) any
	run        func(*C, any)
	decode     func([]byte) (any, error)
}

var parts []*part

type option func(*part)

// inRace also executes the part in the -race binary.
func inRace(p *part) { p.race = true }

// inRaceSome is inRace with one n-th of the cases.
func inRaceSome(n int) option {
	return func(p *part) { p.race, p.raceDiv = true, n }
}

func register[S any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) S, run func(*C, S), opts ...option) {
	p := &part{
		prop: prop, name: name, rule: rule, quick: quick, thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c *C, s any) { run(c, s.(S)) },
		decode: func(b []byte) (any, error) {
			var s S
			err := json.Unmarshal(b, &s)
			return s, err
		},
	}
	for _, o := range opts {
		o(p)
	}
	parts = append(parts, p)
}

// C is the context of one case.
type C struct {
	T          *testing.T
	mu         sync.Mutex
	nontrivial bool
	labels     []string
	known      map[string]bool
	cleanups   []func()
}

type failure struct{ msg string }

// Failf reports that the property does not hold on this case.
func (c *C) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// NonTrivial marks the case as non-trivial by the part's rule.
func (c *C) NonTrivial() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nontrivial = true
}

// Label counts the case under a class of the generator's distribution.
func (c *C) Label(l string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.labels = append(c.labels, l)
}

// Known notes that the listed finding showed itself on this case.
func (c *C) Known(id string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.known == nil {
		c.known = map[string]bool{}
	}
	c.known[id] = true
}

func (c *C) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// TempDir is a scratch directory removed at the end of the case.
func (c *C) TempDir() string {
	d, err := os.MkdirTemp(scratchRoot, "case-")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// harnessError is a failure of the harness itself, not of the code under test.
type harnessError struct{ msg string }

// guard runs f and turns a panic of the code under test into an error.
func guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure, harnessError:
				panic(r)
			default:
				err = fmt.Errorf("panic: %v\n%s", v, trimStack(debug.Stack()))
			}
		}
	}()
	f()
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "anivanovic/gotit") {
			out = append(out, l)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// runOne executes one case and returns the violation, if any.
func (p *part) runOne(t *testing.T, s any) (c *C, viol string) {
	c = &C{T: t}
	defer func() {
		for i := len(c.cleanups) - 1; i >= 0; i-- {
			c.cleanups[i]()
		}
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				viol = v.msg
			case harnessError:
				fatalHarness(v.msg)
			default:
				viol = fmt.Sprintf("panic: %v\n%s", v, debug.Stack())
			}
		}
	}()
	p.run(c, s)
	return c, ""
}

func fatalHarness(msg string) {
	fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", msg)
	os.Exit(98)
}

// ---------------------------------------------------------------------------
// Results

type partResult struct {
	Part        string         `json:"part"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Known       map[string]int `json:"known"`
}

type result struct {
	Property  string        `json:"property"`
	Parts     []*partResult `json:"parts"`
	Violation *violation    `json:"violation,omitempty"`
	WallS     float64       `json:"wall_s"`
}

type violation struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message"`
	Scenario json.RawMessage `json:"scenario"`
	First    json.RawMessage `json:"first,omitempty"` // the failing scenario before shrinking
}

var (
	scratchRoot  string
	currentFile  string
	caseStarted  atomic.Int64 // unix nanos, 0 = no case running
	watchdogSecs = 90
)

// shrinkLimit is how long after the first failure of a part cases are still run
// to find a smaller one.
const shrinkLimit = 30 * time.Second

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fatalHarness("marshal: " + err.Error())
	}
	return b
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func TestMain(m *testing.M) {
	flag.Parse()
	var err error
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	scratchRoot, err = os.MkdirTemp(base, "gotit-props-")
	if err != nil {
		fatalHarness(err.Error())
	}
	currentFile = os.Getenv("VERIF_CURRENT")
	watchdogSecs = envInt("VERIF_WATCHDOG", watchdogSecs)
	go watchdog()
	go memoryWatchdog()
	code := m.Run()
	fmt.Fprintf(os.Stderr, "largest heap: %d MB\n", heapMost.Load()>>20)
	os.RemoveAll(scratchRoot)
	os.Exit(code)
}

// watchdog ends the process when one case runs far beyond anything it can
// legitimately need; the driver then replays that case to tell a hang of the
// code under test from a starved machine.
func watchdog() {
	for {
		time.Sleep(time.Second)
		st := caseStarted.Load()
		if st != 0 && time.Since(time.Unix(0, st)) > time.Duration(watchdogSecs)*time.Second {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			fmt.Fprintln(os.Stderr, "VERIF-WATCHDOG: case did not end")
			os.Exit(97)
		}
	}
}

// memoryWatchdog ends the process when its heap grows far beyond what any case
// needs, before the machine runs out of memory; the driver replays the case.
func memoryWatchdog() {
	limit := uint64(envInt("VERIF_HEAP_MB", 3000)) << 20
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(s)
		heapMost.Store(max(heapMost.Load(), s[0].Value.Uint64()))
		if s[0].Value.Uint64() > limit {
			fmt.Fprintf(os.Stderr, "VERIF-WATCHDOG: %d bytes on the heap\n", s[0].Value.Uint64())
			os.Exit(95)
		}
	}
}

var heapMost atomic.Uint64

// TestProperty is driven by run.py through environment variables.
func TestProperty(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP not set")
	}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		replay(t, f)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	seed := envInt("VERIF_RAPID_SEED", 1)
	if seed == 0 {
		seed = 1
	}
	only := os.Getenv("VERIF_PART")
	race := os.Getenv("VERIF_RACE") == "1"
	scale := envInt("VERIF_SCALE_PCT", 100)
	must(flag.Set("rapid.seed", strconv.Itoa(seed)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", envDefault("VERIF_SHRINK", "25s")))

	start := time.Now()
	res := &result{Property: prop}
	var mu sync.Mutex
	write := func() {
		mu.Lock()
		defer mu.Unlock()
		res.WallS = time.Since(start).Seconds()
		out := os.Getenv("VERIF_OUT")
		if out == "" {
			return
		}
		if err := os.WriteFile(out, mustJSON(res), 0o644); err != nil {
			fatalHarness(err.Error())
		}
	}
	n := 0
	byName := map[string]*partResult{}
	seenBy := map[string]map[uint64]bool{}
	budget := time.Duration(envInt("VERIF_BUDGET_S", 0)) * time.Second
	for round := 0; (round == 0 || time.Since(start) < budget) && res.Violation == nil; round++ {
		must(flag.Set("rapid.seed", strconv.Itoa((seed+round*7919)%2147483646+1)))
		for _, p := range parts {
			if round > 0 && time.Since(start) >= budget {
				break
			}
			if p.prop != prop || (only != "" && p.name != only) || (race && !p.race) {
				continue
			}
			n++
			checks := p.quick
			if tier == "thorough" {
				checks = p.thorough
			}
			checks = checks * scale / 100
			if race && p.raceDiv > 1 {
				checks /= p.raceDiv
			}
			if round > 0 {
				checks /= 4 // further rounds, as long as there is time
			}
			if checks < 1 {
				checks = 1
			}
			must(flag.Set("rapid.checks", strconv.Itoa(checks)))
			pr, seen := byName[p.name], seenBy[p.name]
			if pr == nil {
				pr = &partResult{Part: p.name, Rule: p.rule, Labels: map[string]int{}, Known: map[string]int{}}
				res.Parts = append(res.Parts, pr)
				seen = map[uint64]bool{}
				byName[p.name], seenBy[p.name] = pr, seen
			}
			var viol *violation
			var failed time.Time
			t.Run(p.name, func(t *testing.T) {
				rapid.Check(t, func(rt *rapid.T) {
					if viol != nil && time.Since(failed) > shrinkLimit {
						return // rapid looks at the time only between its passes
					}
					s := p.gen(rt)
					enc := mustJSON(s)
					setCurrent(p, enc)
					caseStarted.Store(time.Now().UnixNano())
					c, msg := p.runOne(t, s)
					caseStarted.Store(0)
					if msg != "" {
						first := json.RawMessage(enc)
						if viol != nil {
							first = viol.First
						} else {
							failed = time.Now()
						}
						viol = &violation{Property: prop, Part: p.name, Message: msg, Scenario: enc, First: first}
						rt.Fatalf("%s", msg)
					}
					pr.Evaluations++
					for _, l := range c.labels {
						pr.Labels[l]++
					}
					for k := range c.known {
						pr.Known[k]++
					}
					if c.nontrivial {
						pr.Nontrivial++
						h := fnv.New64a()
						h.Write(enc)
						if v := h.Sum64(); !seen[v] {
							seen[v] = true
							pr.Hashes = append(pr.Hashes, strconv.FormatUint(v, 36))
							if len(pr.Samples) < 3 {
								pr.Samples = append(pr.Samples, sample(enc))
							}
						}
					}
				})
			})
			if viol != nil {
				res.Violation = viol
				break
			}
			write()
		}
		if n == 0 {
			break
		}
	}
	if n == 0 && !race {
		fatalHarness("no parts for property " + prop)
	}
	write()
}

func sample(enc []byte) any {
	if len(enc) <= 700 {
		return json.RawMessage(enc)
	}
	return string(enc[:700]) + "..."
}

func setCurrent(p *part, enc []byte) {
	if currentFile == "" {
		return
	}
	b := mustJSON(violation{Property: p.prop, Part: p.name, Scenario: enc})
	if err := os.WriteFile(currentFile, b, 0o644); err != nil {
		fatalHarness(err.Error())
	}
}

func replay(t *testing.T, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalHarness(err.Error())
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatalHarness(err.Error())
	}
	for _, p := range parts {
		if p.prop == v.Property && p.name == v.Part {
			s, err := p.decode(v.Scenario)
			if err != nil {
				fmt.Println("VERIF-REPLAY: undecodable")
				os.Exit(96)
			}
			// one run, or up to VERIF_REPEAT runs until one fails
			end := time.Now().Add(time.Duration(envInt("VERIF_REPEAT_S", 30)) * time.Second)
			for i := 0; i < envInt("VERIF_REPEAT", 1) && (i == 0 || time.Now().Before(end)); i++ {
				caseStarted.Store(time.Now().UnixNano())
				_, msg := p.runOne(t, s)
				caseStarted.Store(0)
				if msg != "" {
					fmt.Println("VERIF-REPLAY: fails\n" + msg)
					t.Fail()
					return
				}
			}
			fmt.Println("VERIF-REPLAY: passes")
			return
		}
	}
	fatalHarness("replay: no part " + v.Property + "/" + v.Part)
}

func must(err error) {
	if err != nil {
		fatalHarness(err.Error())
	}
}

func envDefault(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// ---------------------------------------------------------------------------
// Bytes: byte strings that survive JSON and stay readable.

type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	printable := true
	for _, c := range b {
		if c < 0x20 || c > 0x7e || c == '~' {
			printable = false
			break
		}
	}
	if printable {
		return json.Marshal(string(b))
	}
	return json.Marshal(fmt.Sprintf("~%x", []byte(b)))
}

func (b *Bytes) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "~") {
		var out []byte
		if len(s) > 1 {
			if _, err := fmt.Sscanf(s[1:], "%x", &out); err != nil {
				return err
			}
		}
		*b = out
		return nil
	}
	*b = []byte(s)
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// listTree returns every path under root, relative, directories with a slash.
func listTree(root string) []string {
	var out []string
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			panic(harnessError{err.Error()})
		}
		rel, _ := filepath.Rel(root, p)
		if rel == "." {
			return nil
		}
		if info.IsDir() {
			rel += "/"
		}
		out = append(out, rel)
		return nil
	})
	sort.Strings(out)
	return out
}

func short(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%q", b)
}
