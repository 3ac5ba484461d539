// Command gseverif runs the runtime monitors of one property of go-ego/gse
// against the code in /repo and writes what they observed as JSON.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Kind is a family of generated cases of a property.
type Kind struct {
	Name            string
	Quick, Thorough int  // number of cases
	Serial          bool // needs the process for itself (package-level state)
	Indexed         bool // the low 12 bits of a case's seed are its number
	Run             func(t *T)
}

// hugeTexts is a kind in which the first text of a case is huge.
func hugeTexts(quick, size int, run func(t *T, lower bool)) Kind {
	return Kind{Name: "huge texts", Quick: quick, Thorough: 8 * quick, Run: func(t *T) {
		t.huge = size
		run(t, true)
	}}
}

// everyChar is a kind whose cases together hold every character of Unicode that
// is assigned or may be soon: the words of a case are made of size
// consecutive ones, and all of those stand in its first texts.
func everyChar(run func(t *T, lower bool)) Kind { return everyChars(64, run) }

func everyChars(size int, run func(t *T, lower bool)) Kind {
	n := (len(sweepRunes) + size - 1) / size
	return Kind{Name: "every character", Quick: n, Thorough: 4 * n, Indexed: true, Run: func(t *T) {
		i := int(t.seed&sweepMask) % n * size
		t.sweep = sweepRunes[i:min(i+size, len(sweepRunes))]
		run(t, true)
		t.Count("characters of Unicode put into texts", len(t.sweep))
	}}
}

const sweepMask = 4095

var sweepRunes = func() []rune {
	var l []rune
	for _, r := range [][2]rune{{1, 0xd7ff}, {0xe000, 0x323af}, {0xe0000, 0xe01ef}, {0xfff80, 0x10007f}, {0x10ff80, 0x10ffff}} {
		for c := r[0]; c <= r[1]; c++ {
			l = append(l, c)
		}
	}
	return l
}()

// Prop is a property with its monitors.
type Prop struct {
	ID    string
	Rule  string // how cases are made, what makes one non-trivial
	Kinds []Kind
	Known func(k *Knowns) // re-checks the known findings
	Slow  int             // factor for the limits of the watchdog, 0 is 1
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// embedKinds are the kinds of the build with embedded dictionaries, by property.
var embedKinds map[string]Kind

// Violation is one refutation of the property.
type Violation struct {
	Kind    string `json:"kind"`
	Seed    string `json:"seed"`
	Message string `json:"message"`
}

// Result is what a run observed.
type Result struct {
	Property   string           `json:"property"`
	Evals      int64            `json:"evaluations"`
	Distinct   int64            `json:"distinct_nontrivial"`
	Rule       string           `json:"rule"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []any            `json:"samples"`
	Violations []Violation      `json:"violations"`
	Known      []KnownResult    `json:"known"`
	Errors     []string         `json:"errors"`
	Slowest    string           `json:"slowest"` // the case that took the most processor time
}

// KnownResult tells whether a recorded finding still fails.
type KnownResult struct {
	ID    string `json:"id"`
	Fails bool   `json:"fails"`
	What  string `json:"what"`
}

// Knowns collects them.
type Knowns struct{ list []KnownResult }

// Add records a finding.
func (k *Knowns) Add(id string, fails bool, what string) {
	k.list = append(k.list, KnownResult{id, fails, what})
}

var (
	resMu    sync.Mutex
	res      = &Result{Counters: map[string]int64{}}
	distinct = map[uint64]bool{}
	stop     atomic.Bool
	tier     string
	tmpDir   string
	repoDir  string
	maxViol  = 5
)

// T is the context of one case.
type T struct {
	*rand.Rand
	kind     string
	seed     int64
	counters map[string]int64
	base     uint64 // identity of the setting of the case
	sig      uint64 // identity of the current evaluation
	nontriv  bool
	anyNon   bool
	evals    int64
	replay   bool
	huge     int    // if set, texts of about that many bytes
	sweep    []rune // if set, the characters of the case
	sample   any
	mu       sync.Mutex
	doing    []string // the latest steps, for reports of crashes and hangs
}

// Doing records the step that is made now.
func (t *T) Doing(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 500 {
		s = s[:500] + "…"
	}
	t.mu.Lock()
	if len(t.doing) >= 40 {
		t.doing = t.doing[1:]
	}
	t.doing = append(t.doing, s)
	t.mu.Unlock()
}

func (t *T) steps() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.doing) == 0 {
		return ""
	}
	return "; steps: " + strings.Join(t.doing, "; ")
}

type abort struct{}

// Fatalf reports a violation and ends the case.
func (t *T) Fatalf(format string, a ...any) {
	t.report(fmt.Sprintf(format, a...))
	panic(abort{})
}

func (t *T) report(msg string) {
	if len(msg) > 6000 {
		msg = msg[:6000] + "…"
	}
	resMu.Lock()
	defer resMu.Unlock()
	if len(res.Violations) < maxViol {
		res.Violations = append(res.Violations, Violation{t.kind, seedText(t.seed), msg})
	}
	if len(res.Violations) >= maxViol {
		stop.Store(true)
	}
}

// Count adds to a counter of the evidence.
func (t *T) Count(name string, n int) { t.counters[name] += int64(n) }

func mix(seed uint64, vals []any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, seed)
	for _, v := range vals {
		fmt.Fprintf(h, "|%v", v)
	}
	return h.Sum64()
}

// Base mixes values into the identity of all following evaluations.
func (t *T) Base(vals ...any) { t.base = mix(t.base, vals); t.sig = mix(t.sig, vals) }

// Sig mixes values into the identity of the current evaluation.
func (t *T) Sig(vals ...any) { t.sig = mix(t.sig, vals) }

// Nontrivial marks the current evaluation as exercising the property.
func (t *T) Nontrivial() { t.nontriv = true }

// Eval ends one evaluation inside the case (a case may hold several).
func (t *T) Eval() {
	t.evals++
	if t.nontriv {
		t.anyNon = true
		resMu.Lock()
		distinct[t.sig] = true
		resMu.Unlock()
	}
	t.nontriv, t.sig = false, t.base
}

// Sample offers a written-out case for the evidence.
func (t *T) Sample(v any) {
	if t.sample == nil {
		t.sample = v
	}
}

func seedText(s int64) string { return strconv.FormatUint(uint64(s), 16) }

func caseSeed(seed int64, prop, kind string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, kind, i)
	return int64(h.Sum64())
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// ---- watchdog -------------------------------------------------------------

type running struct {
	t    *T
	cpu  time.Duration // its share of the processor time since it began
	seen bool
}

var (
	runMu  sync.Mutex
	runNow = map[*T]*running{}

	slowCase time.Duration // of the slowest case
	slowName string
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// The verdict "does not terminate" is based on processor time, not on wall
// time: cases take milliseconds to a few seconds of it, so one that has had
// many times that is in an endless loop however loaded the machine is. The
// time the process uses is divided evenly among the cases that run at the
// moment. A case that has used none for minutes is blocked.
var (
	hangCPU  = 160 * time.Second
	idleWall = 150 * time.Second
)

func watchdog(finish func()) {
	var lastCPU, seenCPU time.Duration
	blockedSince := time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		cpu := cpuTime()
		runMu.Lock()
		var most *running
		n := len(runNow)
		for _, r := range runNow {
			if r.seen { // not for the tick it began in
				r.cpu += (cpu - seenCPU) / time.Duration(min(n, runtime.GOMAXPROCS(0)))
			}
			r.seen = true
			if most == nil || r.cpu > most.cpu {
				most = r
			}
		}
		runMu.Unlock()
		seenCPU = cpu
		if most == nil {
			blockedSince = time.Now()
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 10<<30 {
			most.t.report(fmt.Sprintf("memory: the heap holds %d MB while this case runs (it and %d others)%s", ms.HeapAlloc>>20, n-1, most.t.steps()))
			finish()
		}
		if most.cpu > hangCPU {
			most.t.report("does not terminate: still running after " + most.cpu.String() + " of processor time" + most.t.steps() + "\n" + gseStacks())
			finish()
		}
		if cpu-lastCPU > 50*time.Millisecond {
			lastCPU, blockedSince = cpu, time.Now()
		} else if time.Since(blockedSince) > idleWall {
			most.t.report("does not terminate: blocked without using processor time" + most.t.steps() + "\n" + gseStacks())
			finish()
		}
	}
}

func gseStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/go-ego/gse") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// ---- running --------------------------------------------------------------

// libFault is what a helper without a T panics with when the library failed.
type libFault string

// libPanic tells whether a panic came out of the library rather than out of
// the harness: a gse (or trie) frame lies between the panic and the first
// harness frame.
func libPanic(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "gseverif") {
			return false
		}
		if strings.HasPrefix(l, "github.com/go-ego/gse") || strings.HasPrefix(l, "github.com/vcaesar/cedar") {
			return true
		}
	}
	return false
}

func runCase(k *Kind, seed int64, replay bool) {
	t := &T{Rand: rand.New(rand.NewSource(seed)), kind: k.Name, seed: seed,
		counters: map[string]int64{}, replay: replay}
	runMu.Lock()
	run := &running{t: t}
	runNow[t] = run
	runMu.Unlock()
	defer func() {
		runMu.Lock()
		delete(runNow, t)
		if run.cpu > slowCase {
			slowCase = run.cpu
			slowName = fmt.Sprintf("%s:%s %.1f s", k.Name, seedText(seed), run.cpu.Seconds())
		}
		runMu.Unlock()
		r := recover()
		if r != nil {
			if _, ok := r.(abort); !ok {
				st := string(debug.Stack())
				if f, ok := r.(libFault); ok {
					t.report(string(f) + t.steps())
				} else if libPanic(st) {
					t.report(fmt.Sprintf("panic: %v%s\n%s", r, t.steps(), trimStack(st)))
				} else {
					resMu.Lock()
					res.Errors = append(res.Errors, fmt.Sprintf("harness panic in %s:%s: %v\n%s", k.Name, seedText(seed), r, st))
					resMu.Unlock()
					stop.Store(true)
				}
			}
		}
		if t.evals == 0 {
			t.Eval()
		}
		resMu.Lock()
		res.Evals += t.evals
		for c, n := range t.counters {
			res.Counters[c] += n
		}
		res.Counters["cases of "+k.Name]++
		if t.sample != nil && t.anyNon && countKind(k.Name) < 2 {
			res.Samples = append(res.Samples, map[string]any{"kind": k.Name, "seed": seedText(seed), "case": t.sample})
		}
		resMu.Unlock()
	}()
	k.Run(t)
}

func countKind(kind string) int {
	n := 0
	for _, s := range res.Samples {
		if s.(map[string]any)["kind"] == kind {
			n++
		}
	}
	return n
}

func trimStack(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if len(st) > 2500 {
		st = st[:2500]
	}
	return st
}

func main() {
	var (
		prop   = flag.String("prop", "", "property")
		seed   = flag.Int64("seed", 1, "seed")
		out    = flag.String("out", "", "result file")
		replay = flag.String("replay", "", "kind:seed")
		only   = flag.String("kind", "", "only this kind")
		scale  = flag.Float64("scale", 1, "multiply the number of cases")
		procs  = flag.Int("procs", 0, "workers")
	)
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&tmpDir, "tmp", os.TempDir(), "scratch directory")
	flag.StringVar(&repoDir, "repo", "/repo", "the repository (for its data files)")
	flag.Parse()
	log.SetOutput(io.Discard)

	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	res.Property, res.Rule = p.ID, p.Rule
	if k, ok := embedKinds[p.ID]; ok {
		p.Kinds = []Kind{k} // the others run in the usual build
		p.Known = nil
	}
	if k, ok := ownProcess(p); ok {
		p.Kinds = append(p.Kinds, k)
	}
	if p.Slow > 0 {
		hangCPU *= time.Duration(p.Slow)
	}
	if tier == "thorough" { // more cases, so the slowest is slower
		hangCPU *= 3
	}

	var once sync.Once
	finish := func() {
		once.Do(func() {
			resMu.Lock()
			defer resMu.Unlock()
			runMu.Lock()
			res.Slowest = slowName
			runMu.Unlock()
			res.Distinct = int64(len(distinct))
			b, err := json.MarshalIndent(res, "", " ")
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			if *out != "" {
				if err := os.WriteFile(*out, b, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
			} else {
				os.Stdout.Write(append(b, '\n'))
			}
			os.Exit(0)
		})
		select {}
	}
	go watchdog(finish)

	if *replay != "" {
		i := strings.LastIndex(*replay, ":")
		s, err := strconv.ParseUint((*replay)[i+1:], 16, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for k := range p.Kinds {
			if p.Kinds[k].Name == (*replay)[:i] {
				runCase(&p.Kinds[k], int64(s), true)
			}
		}
		finish()
	}

	type job struct {
		k    *Kind
		seed int64
	}
	var par, ser []job
	for i := range p.Kinds {
		k := &p.Kinds[i]
		if *only != "" && k.Name != *only {
			continue
		}
		n := k.Quick
		if tier == "thorough" {
			n = k.Thorough
		}
		n = int(float64(n) * *scale)
		if n == 0 && k.Quick > 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			jb := job{k, caseSeed(*seed, p.ID, k.Name, j)}
			if k.Indexed {
				jb.seed = jb.seed&^sweepMask | int64(j%(sweepMask+1))
			}
			if k.Serial {
				ser = append(ser, jb)
			} else {
				par = append(par, jb)
			}
		}
	}
	w := runtime.GOMAXPROCS(0)
	if *procs > 0 {
		w = *procs
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if !stop.Load() {
					runCase(j.k, j.seed, false)
				}
			}
		}()
	}
	for _, j := range par {
		jobs <- j
	}
	close(jobs)
	wg.Wait()
	for _, j := range ser {
		if !stop.Load() {
			runCase(j.k, j.seed, false)
		}
	}
	if p.Known != nil {
		k := &Knowns{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.Errors = append(res.Errors, fmt.Sprint("known finding: ", r))
				}
			}()
			p.Known(k)
		}()
		sort.Slice(k.list, func(i, j int) bool { return k.list[i].ID < k.list[j].ID })
		res.Known = k.list
	}
	finish()
}
