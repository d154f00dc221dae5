package main

// vh: the monitoring harness. "vh check -prop ID" runs one check: it starts itself
// again as a child that runs the workload (so that a crash of the code under test
// is observed, not suffered), judges the outcome and writes the evidence.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Prop is a registered check.
type Prop struct {
	ID     string
	Level  string
	Rule   string
	Run    func(*Run)
	Race   bool // needs the race-detector build
	Assume []string
	// Min is the least number of distinct non-trivial cases a run must observe.
	Min int64
	// VLimit limits the address space (kB) of the (non-race) child.
	VLimit uint64
	Stall  time.Duration
	Svc    bool // needs the built service binary
	Svcx   bool // needs the service binary that takes its configuration from the environment
}

var props = map[string]*Prop{}

func reg(p *Prop) { props[p.ID] = p }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|child ...")
		os.Exit(3)
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	res := fs.String("res", "", "result file (child)")
	part := fs.String("part", "", "replay: part")
	cs := fs.Int("case", -1, "replay: case")
	verif := fs.String("verif", "/verif", "")
	tmp := fs.String("tmp", os.TempDir(), "")
	racebin := fs.String("racebin", "", "race-detector build of this program")
	svc := fs.String("svc", "", "built service binary")
	svcx := fs.String("svcx", "", "built service binary with configuration from the environment")
	fs.Parse(os.Args[2:])
	svcBin, svcxBin = *svc, *svcx
	scratch = *tmp
	p := props[*prop]
	if p == nil && os.Args[1] != "list" {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id, p := range props {
			if *part == "race" && !p.Race {
				continue
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "needs":
		if p.Race {
			fmt.Println("race")
		}
		if p.Svc {
			fmt.Println("svc")
		}
		if p.Svcx {
			fmt.Println("svcx")
		}
	case "child":
		child(p, *tier, *seed, *res, *part, *cs, *verif)
	case "apihelper":
		apiHelper()
	case "fdhelper":
		fdHelper()
	case "check":
		os.Exit(parent(p, *tier, *seed, *part, *cs, *verif, *tmp, *racebin))
	}
}

var svcBin, svcxBin, scratch string

func loadKnown(verif, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C17 key=... <what fails>
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) >= 3 && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func child(p *Prop, tier string, seed uint64, res, part string, cs int, verif string) {
	r := newRun(p.ID, tier, seed)
	r.onlyPart, r.onlyCase = part, cs
	for k := range loadKnown(verif, p.ID) {
		r.known[k] = true
	}
	if p.VLimit > 0 {
		lim := &syscall.Rlimit{Cur: p.VLimit * 1024, Max: p.VLimit * 1024}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	st := p.Stall
	if st == 0 {
		st = 90 * time.Second
	}
	curRun = r
	go r.watchdog(st, res)
	p.Run(r)
	r.writeResult(res)
	os.Exit(0)
}

var curRun *Run

func parent(p *Prop, tier string, seed uint64, part string, cs int, verif, tmp, racebin string) int {
	start := time.Now()
	dir, err := os.MkdirTemp(tmp, "vh-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	res := filepath.Join(dir, "result.json")
	bin, _ := os.Executable()
	if p.Race {
		bin = racebin
	}
	args := []string{"child", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-res", res, "-verif", verif, "-tmp", dir, "-svc", svcBin, "-svcx", svcxBin}
	if part != "" {
		args = append(args, "-part", part, "-case", strconv.Itoa(cs))
	}
	cmd := exec.Command(bin, args...)
	var out, errb capBuf
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(dir, "race"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	lim := 840 * time.Second
	if tier == "thorough" {
		lim = 6 * time.Hour
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "start:", err)
		return 3
	}
	timer := time.AfterFunc(lim, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	timer.Stop()

	var rs Result
	b, rerr := os.ReadFile(res)
	if rerr == nil {
		rerr = json.Unmarshal(b, &rs)
	}
	stderr := errb.String()
	if rerr != nil {
		// The child died. If the code under test brought it down, that is a violation.
		if st := crashInTrypo(stderr); st != "" {
			rs.Viols = append(rs.Viols, Viol{Part: "crash", Case: -1, Msg: "the process running the code under test crashed: " + firstLine(st), Detail: st})
		} else {
			fmt.Fprintf(os.Stderr, "check %s: child failed (%v) without a result\n%s\n", p.ID, werr, tailStr(stderr, 12000))
			return 3
		}
	} else if werr != nil {
		fmt.Fprintf(os.Stderr, "check %s: child failed after its result: %v\n%s\n", p.ID, werr, tailStr(stderr, 4000))
		return 3
	}
	races := raceReports(dir)
	if rs.Counters == nil {
		rs.Counters = map[string]int64{}
	}
	if p.Race {
		rs.Counters["race_reports_in_code_under_test"] = int64(len(races))
		for _, t := range races {
			rs.Viols = append(rs.Viols, Viol{Part: "race", Case: -1, Msg: "data race: " + raceTitle(t), Detail: t})
		}
	}

	known := loadKnown(verif, p.ID)
	code := 0
	var nv int
	knownSeen := map[string]bool{}
	for i, v := range rs.Viols {
		if v.Known != "" {
			if !knownSeen[v.Known] {
				knownSeen[v.Known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, known[v.Known], v.Msg)
			}
			continue
		}
		nv++
		rp := writeReplay(verif, p.ID, tier, seed, i, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		fmt.Printf("  %s case %s#%d: %s\n", p.ID, v.Part, v.Case, v.Msg)
		for _, o := range v.Ops {
			fmt.Printf("    %s\n", o)
		}
		if v.Detail != "" {
			fmt.Println(tailStr(v.Detail, 3000))
		}
		code = 1
	}
	if part == "" {
		writeEvidence(verif, p, tier, seed, rs, nv, time.Since(start))
	}
	for _, n := range rs.Notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n",
		p.ID, tier, seed, rs.Evals, rs.Distinct, nv, time.Since(start).Seconds())
	if code == 0 && part == "" && rs.Distinct < p.Min {
		fmt.Fprintf(os.Stderr, "check %s observed too little: %d distinct non-trivial cases, wanted %d\n", p.ID, rs.Distinct, p.Min)
		return 2
	}
	return code
}

// capBuf keeps the beginning and the end of a stream.
type capBuf struct {
	head, tail bytes.Buffer
}

func (b *capBuf) Write(p []byte) (int, error) {
	n := len(p)
	if room := (1 << 20) - b.head.Len(); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		b.head.Write(p[:room])
		p = p[room:]
	}
	b.tail.Write(p)
	if b.tail.Len() > 2<<20 {
		b.tail.Next(b.tail.Len() - 1<<20)
	}
	return n, nil
}
func (b *capBuf) String() string { return b.head.String() + b.tail.String() }

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// crashInTrypo returns the crash report if a Go panic or fatal error happened on a
// goroutine running (or started by) the code under test.
func crashInTrypo(s string) string {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: out of memory", "unexpected fault address", "SIGSEGV"} {
		if j := strings.Index(s, m); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 || strings.Contains(s, "HARNESS-PANIC") || strings.Contains(s, "HARNESS-STALL") {
		return ""
	}
	rep := s[i:]
	if strings.HasPrefix(rep, "panic: "+codeEnded) {
		return tailStr(rep, 20000)
	}
	// the failing goroutine is the first one printed
	gs := strings.Split(rep, "\n\n")
	lim := 2
	if strings.Contains(gs[0], "all goroutines are asleep") || strings.Contains(gs[0], "out of memory") || strings.Contains(gs[0], "stack overflow") || strings.Contains(gs[0], "concurrent map") {
		lim = len(gs)
	}
	for j := 0; j < len(gs) && j <= lim; j++ {
		// a reply of a node that cannot be encoded changed while it was encoded
		reply := j == 0 && strings.Contains(gs[j], "net/rpc.(*service).call(") && strings.Contains(gs[j], "encoding/gob.(*Encoder)") && strings.Contains(gs[j], "main.(*codec)")
		if reply || trypoFrame(gs[j]) {
			if len(rep) > 20000 {
				rep = rep[:20000]
			}
			return rep
		}
	}
	return ""
}

// raceReports returns the deduplicated reports that involve the code under test.
func raceReports(dir string) []string {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	var out []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			if !raceInTrypo(blk) {
				continue
			}
			key := raceTitle(blk)
			if seen[key] {
				continue
			}
			seen[key] = true
			out = append(out, strings.TrimSpace(blk))
		}
	}
	return out
}

// raceStacks returns the two access stacks (function names) of a report.
func raceStacks(blk string) [][]string {
	var st [][]string
	var cur []string
	on := false
	for _, l := range strings.Split(blk, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at "), strings.HasPrefix(t, "Write at "), strings.HasPrefix(t, "Previous read"), strings.HasPrefix(t, "Previous write"), strings.HasPrefix(t, "Atomic "), strings.HasPrefix(t, "Previous atomic"):
			on, cur = true, nil
		case t == "":
			if on {
				st = append(st, cur)
			}
			on = false
		case strings.HasPrefix(t, "Goroutine "):
			on = false
		default:
			if on && strings.Contains(t, "(") && !strings.HasPrefix(t, "/") {
				fn := t
				if i := strings.LastIndex(fn, "("); i > 0 {
					fn = fn[:i]
				}
				cur = append(cur, fn)
			}
		}
	}
	return st
}

// raceInTrypo: at least one access runs in the code under test, and none is the
// harness's own direct access made outside of it.
func raceInTrypo(blk string) bool {
	st := raceStacks(blk)
	any := false
	for _, s := range st {
		for _, f := range s {
			if strings.HasPrefix(f, "trypo/") {
				any = true
			}
		}
	}
	return any
}

func raceTitle(blk string) string {
	var parts []string
	for _, s := range raceStacks(blk) {
		f := "?"
		for _, x := range s {
			if strings.HasPrefix(x, "trypo/") {
				f = x
				break
			}
			if f == "?" {
				f = x
			}
		}
		parts = append(parts, f)
	}
	sort.Strings(parts)
	return strings.Join(parts, " <-> ")
}

func writeReplay(verif, id, tier string, seed uint64, i int, v Viol) string {
	dir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", id, tier, seed, i))
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "seed": seed, "part": v.Part, "case": v.Case,
		"msg": v.Msg, "ops": v.Ops, "detail": v.Detail,
		"replay_cmd": fmt.Sprintf("/verif/run.sh %s --replay %s", id, p)}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func writeEvidence(verif string, p *Prop, tier string, seed uint64, rs Result, nv int, wall time.Duration) {
	cov := map[string]any{"evaluations": rs.Evals, "distinct_nontrivial": rs.Distinct, "rule": p.Rule, "samples": rs.Samples}
	if rs.Samples == nil {
		cov["samples"] = []any{}
	}
	cov["observed"] = rs.Counters
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{"the run decides only the executions it produced (Go " + runtime.Version() + ", loopback network)"}, p.Assume...),
		"wall_s":      float64(int(wall.Seconds()*100)) / 100, "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0o644)
}
