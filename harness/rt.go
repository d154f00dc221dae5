package main

// Runtime of the harness: cases, verdicts, evidence counters.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Viol is one observed violation.
type Viol struct {
	Part   string   `json:"part"`
	Case   int      `json:"case"`
	Msg    string   `json:"msg"`
	Ops    []string `json:"ops,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Known  string   `json:"known,omitempty"` // key in known_findings, if it is listed
}

// Run is the state of one check run (one property).
type Run struct {
	Prop string
	Tier string
	Seed uint64

	onlyPart string // replay
	onlyCase int

	mu         sync.Mutex
	evals      int64
	sigs       map[uint64]struct{}
	counters   map[string]int64
	samples    []any
	samplesPer map[string]int
	viols      []Viol
	inflight   map[string]int
	notes      []string
	known      map[string]bool

	stop    atomic.Bool
	beat    atomic.Int64
	started time.Time
}

// Result is what a child process hands to its parent.
type Result struct {
	Evals    int64            `json:"evals"`
	Distinct int64            `json:"distinct"`
	Counters map[string]int64 `json:"counters"`
	Samples  []any            `json:"samples"`
	Viols    []Viol           `json:"viols"`
	Notes    []string         `json:"notes"`
}

func newRun(prop, tier string, seed uint64) *Run {
	r := &Run{Prop: prop, Tier: tier, Seed: seed, onlyCase: -1,
		sigs: map[uint64]struct{}{}, counters: map[string]int64{},
		samplesPer: map[string]int{}, inflight: map[string]int{}, known: map[string]bool{}, started: time.Now()}
	r.Beat()
	return r
}

func (r *Run) Beat() { r.beat.Add(1) }

// N picks the number of cases for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Max keeps the largest value seen under a name.
func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.counters[name] {
		r.counters[name] = n
	}
	r.mu.Unlock()
}

func (r *Run) Note(f string, a ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Sig registers a distinct non-trivial case by signature.
func (r *Run) Sig(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	r.mu.Lock()
	r.sigs[h.Sum64()] = struct{}{}
	r.mu.Unlock()
}

// Sample keeps up to max samples per kind.
func (r *Run) Sample(kind string, max int, v any) {
	r.mu.Lock()
	if r.samplesPer[kind] < max {
		r.samplesPer[kind]++
		r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
	}
	r.mu.Unlock()
}

func (r *Run) addViol(v Viol) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viols) < 20 {
		r.viols = append(r.viols, v)
	}
	if v.Known == "" {
		r.stop.Store(true)
	}
}

func (r *Run) Evals(n int64) {
	r.mu.Lock()
	r.evals += n
	r.mu.Unlock()
}

func (r *Run) result() Result {
	r.mu.Lock()
	defer r.mu.Unlock()
	return Result{Evals: r.evals, Distinct: int64(len(r.sigs)), Counters: r.counters,
		Samples: r.samples, Viols: r.viols, Notes: r.notes}
}

func (r *Run) writeResult(path string) {
	b, err := json.Marshal(r.result())
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: marshal:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// K is one case.
type K struct {
	*Run
	Part string
	Idx  int
	R    *rand.Rand

	opmu sync.Mutex
	ops  []string
}

type failT struct{ msg string }

// Fail records a violation and abandons the case (case goroutine only).
func (k *K) Fail(f string, a ...any) { panic(failT{fmt.Sprintf(f, a...)}) }

// Report records a violation from any goroutine and goes on.
func (k *K) Report(f string, a ...any) {
	k.opmu.Lock()
	ops := append([]string(nil), k.ops...)
	k.opmu.Unlock()
	k.addViol(Viol{Part: k.Part, Case: k.Idx, Msg: fmt.Sprintf(f, a...), Ops: tail(ops, 60)})
}

// ReportKnown records an occurrence of a listed finding (a violation if it is not listed).
func (k *K) ReportKnown(key, f string, a ...any) {
	v := Viol{Part: k.Part, Case: k.Idx, Msg: fmt.Sprintf(f, a...)}
	if k.known[key] {
		v.Known = key
		k.mu.Lock()
		for _, w := range k.viols {
			if w.Known == key {
				k.mu.Unlock()
				return
			}
		}
		k.mu.Unlock()
	}
	k.opmu.Lock()
	v.Ops = tail(append([]string(nil), k.ops...), 60)
	k.opmu.Unlock()
	k.addViol(v)
}

func (k *K) Op(f string, a ...any) {
	k.opmu.Lock()
	k.ops = append(k.ops, fmt.Sprintf(f, a...))
	k.opmu.Unlock()
	k.Beat()
}

func (k *K) Ops() []string {
	k.opmu.Lock()
	defer k.opmu.Unlock()
	return append([]string(nil), k.ops...)
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return append([]string{fmt.Sprintf("... %d earlier", len(s)-n)}, s[len(s)-n:]...)
	}
	return s
}

func mix(a, b uint64) uint64 {
	x := a ^ (b+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Run) newCase(part string, i int) *K {
	s1 := mix(mix(r.Seed, hashStr(r.Prop+"/"+part)), uint64(i))
	return &K{Run: r, Part: part, Idx: i, R: rand.New(rand.NewPCG(s1, mix(s1, 7)))}
}

// Cases runs n cases of a part on par workers; each gets its own PRNG, derived from
// the seed, the property, the part and its number only.
func (r *Run) Cases(part string, n, par int, f func(*K)) {
	if r.onlyPart != "" && r.onlyPart != part {
		return
	}
	first := 0
	if r.onlyPart != "" && r.onlyCase >= 0 {
		first, n = r.onlyCase, r.onlyCase+1
	}
	if par < 1 {
		par = 1
	}
	var next atomic.Int64
	next.Store(int64(first))
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= n {
					return
				}
				r.oneCase(part, i, f)
			}
		}()
	}
	wg.Wait()
}

func (r *Run) oneCase(part string, i int, f func(*K)) {
	k := r.newCase(part, i)
	key := fmt.Sprintf("%s#%d", part, i)
	r.mu.Lock()
	r.inflight[key] = 1
	r.evals++
	r.counters["cases:"+part]++
	r.mu.Unlock()
	r.Beat()
	defer func() {
		if e := recover(); e != nil {
			if ft, ok := e.(failT); ok {
				r.addViol(Viol{Part: part, Case: i, Msg: ft.msg, Ops: tail(k.Ops(), 60)})
			} else {
				st := string(debug.Stack())
				if trypoFrame(st) {
					r.addViol(Viol{Part: part, Case: i, Msg: fmt.Sprintf("panic in the code under test: %v", e), Ops: tail(k.Ops(), 60), Detail: st})
				} else {
					fmt.Fprintf(os.Stderr, "HARNESS-PANIC case %s: %v\n%s\n", key, e, st)
					os.Exit(3)
				}
			}
		}
		r.mu.Lock()
		delete(r.inflight, key)
		r.mu.Unlock()
		r.Beat()
	}()
	f(k)
}

// trypoFrame tells whether a stack goes through the code under test.
func trypoFrame(st string) bool {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "trypo/") || strings.HasPrefix(l, "created by trypo/") {
			return true
		}
	}
	return false
}

// watchdog ends the process when nothing has happened for a long time.
func (r *Run) watchdog(limit time.Duration, resPath string) {
	last := r.beat.Load()
	lastT := time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		b := r.beat.Load()
		if b != last {
			last, lastT = b, time.Now()
			continue
		}
		if time.Since(lastT) < limit {
			continue
		}
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		d := string(buf)
		r.mu.Lock()
		var in []string
		for c := range r.inflight {
			in = append(in, c)
		}
		r.mu.Unlock()
		sort.Strings(in)
		if stuckInTrypo(d) {
			part, ci := "", -1
			if len(in) > 0 {
				if j := strings.LastIndex(in[0], "#"); j > 0 {
					part = in[0][:j]
					fmt.Sscanf(in[0][j+1:], "%d", &ci)
				}
			}
			if len(d) > 200000 {
				d = d[:200000]
			}
			r.addViol(Viol{Part: part, Case: ci, Msg: fmt.Sprintf("no progress for %v while goroutines are stuck or spinning inside the code under test (cases in flight: %v)", limit, in), Detail: d})
			r.writeResult(resPath)
			os.Exit(0)
		}
		fmt.Fprintf(os.Stderr, "HARNESS-STALL no progress for %v, cases %v\n%s\n", limit, in, d)
		os.Exit(4)
	}
}

// stuckInTrypo: some goroutine is running, blocked on a lock, or blocked on a
// channel inside the code under test (as opposed to only inside the harness).
func stuckInTrypo(dump string) bool {
	for _, g := range strings.Split(dump, "\n\n") {
		lines := strings.Split(g, "\n")
		if len(lines) == 0 || !strings.HasPrefix(lines[0], "goroutine ") {
			continue
		}
		if strings.Contains(lines[0], "IO wait") {
			continue
		}
		body := lines[1:]
		has := false
		for _, l := range body {
			if strings.HasPrefix(l, "trypo/") {
				has = true
				break
			}
		}
		if has {
			return true
		}
	}
	return false
}
