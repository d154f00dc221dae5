package main

// C33: the program itself (cmd/service): clusters of real processes, each with its own
// node, API and event loop, and the program as shipped.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
)

// procCfg is read by svccfg/zz_verif_env.go, which is built into package cfg.
type procCfg struct {
	RPC, API     Addr
	All          []Addr
	LoopMS       int
	StepMS       int
	Skip         map[string]int
	Fast, Acc    int
	Internal     int
	SplitMin     int
	MergeMax     int
	Threshold    int
	LogLocalOnly bool
}

type proc struct {
	cfg  procCfg
	cmd  *exec.Cmd
	out  capBuf
	mu   sync.Mutex
	end  chan struct{}
	code int
	api  *apiFix
	rpc  string
}

type lockW struct {
	mu *sync.Mutex
	b  *capBuf
}

func (l lockW) Write(p []byte) (int, error) { l.mu.Lock(); defer l.mu.Unlock(); return l.b.Write(p) }

func (p *proc) log() string { p.mu.Lock(); defer p.mu.Unlock(); return p.out.String() }

func spawn(bin string, c *procCfg) *proc {
	p := &proc{cmd: exec.Command(bin), end: make(chan struct{})}
	w := lockW{&p.mu, &p.out}
	p.cmd.Stdout, p.cmd.Stderr = w, w
	p.cmd.Env = []string{"PATH=/usr/bin:/bin", "TERM=dumb", "HOME=" + scratch}
	if c != nil {
		p.cfg = *c
		b, _ := json.Marshal(c)
		p.cmd.Env = append(p.cmd.Env, "VERIF_SVC_CFG="+string(b))
		p.rpc = c.RPC.ToStr()
		p.api = &apiFix{url: "http://" + c.API.ToStr(), cl: &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}}
	}
	p.cmd.Dir = scratch
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.end)
	}()
	return p
}

func (p *proc) ended() bool {
	select {
	case <-p.end:
		return true
	default:
		return false
	}
}

func (p *proc) kill() { p.cmd.Process.Kill(); <-p.end }

// up waits until the API answers and the node accepts connections.
func (p *proc) up(k *K) {
	t0 := time.Now()
	for {
		r, err := p.api.cl.Get(p.api.url + "/")
		if err == nil {
			r.Body.Close()
			c, e := net.DialTimeout("tcp", p.rpc, 5*time.Second)
			if e == nil {
				c.Close()
				return
			}
			k.Fail("the API of a process answers, its node accepts no connection: %v\n%s", e, tailStr(p.log(), 2000))
		}
		if p.ended() {
			k.Fail("a process ended by itself with code %d:\n%s", p.code, tailStr(p.log(), 4000))
		}
		if time.Since(t0) > 40*time.Second {
			k.Fail("a process does not answer on its API address after 40 s (%v)\n%s", err, tailStr(p.log(), 2000))
		}
		time.Sleep(15 * time.Millisecond)
		k.Beat()
	}
}

type procNet struct {
	k     *K
	procs []*proc
	led   *ledger
	nss   []string
	vg    *VG
}

func newProcNet(k *K, n int, mod func(*procCfg)) *procNet {
	pn := &procNet{k: k, nss: []string{"a", "", "b b/ü"}[:1+k.R.IntN(3)]}
	pn.vg = newVG(k.R, 1+k.R.IntN(6), []string{"gauss", "clusters", "positive"}[k.R.IntN(3)])
	pn.led = &ledger{reg: newReg(), ns: map[uint64]string{}, acked: map[uint64]bool{}, refused: map[uint64]bool{}, drained: map[uint64]int{}}
	var all []Addr
	var cs []*procCfg
	for i := 0; i < n; i++ {
		c := &procCfg{RPC: toAddr("127.0.0.1", freePort()), API: toAddr("127.0.0.1", freePort()), LoopMS: 1 + k.R.IntN(20), StepMS: 1 + k.R.IntN(10),
			Skip: map[string]int{}, Fast: 1 + k.R.IntN(8), Acc: 1 + k.R.IntN(4), Internal: 1 + k.R.IntN(10), SplitMin: 4 + k.R.IntN(20), MergeMax: 1 + k.R.IntN(4),
			Threshold: []int{5, 20, 1000}[k.R.IntN(3)], LogLocalOnly: k.R.IntN(2) == 0}
		for _, t := range []string{"expire", "memtrim", "fast", "accurate", "internal", "split", "merge", "balance"} {
			c.Skip[t] = 1 + k.R.IntN(4)
		}
		all = append(all, c.RPC)
		cs = append(cs, c)
	}
	for i, c := range cs {
		c.All = append(c.All, all[i:]...)
		c.All = append(c.All, all[:i]...)
		if mod != nil {
			mod(c)
		}
		pn.procs = append(pn.procs, spawn(svcxBin, c))
	}
	return pn
}

func (pn *procNet) close() {
	for _, p := range pn.procs {
		if p != nil {
			p.kill()
		}
	}
}

func (pn *procNet) alive() {
	for i, p := range pn.procs {
		if p != nil && p.ended() {
			pn.k.Fail("process %d ended by itself with code %d:\n%s", i, p.code, tailStr(p.log(), 4000))
		}
	}
}

// clients puts points through the APIs (and drains some) from several clients at once.
func (pn *procNet) clients(nc, nops int, drains bool) {
	k := pn.k
	var wg sync.WaitGroup
	for ci := 0; ci < nc; ci++ {
		seed := k.R.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 3))
			vg := newVG(r, pn.vg.Dim, pn.vg.Fam)
			for i := 0; i < nops; i++ {
				k.Beat()
				var p *proc
				for p == nil {
					p = pn.procs[r.IntN(len(pn.procs))]
				}
				ns := pn.nss[r.IntN(len(pn.nss))]
				switch op := r.IntN(10); {
				case op < 7:
					dp := pn.led.fresh(r, ns, vg.Vec())
					st, err := p.api.put(ns, r.IntN(2) == 0, dp)
					if err != nil {
						k.Report("put: %v", err)
						return
					}
					if st != 200 && st != 500 {
						k.Report("put was answered %d", st)
					}
					if pn.led.reg.get(&pn.led.mu, idOf(dp)); st == 500 && !dp.ExpireEnabled {
						k.Report("an unexpired point of the dimension in use was refused")
					}
					pn.led.result(idOf(dp), st == 200)
				default:
					drain := drains && op == 9
					st, out, _, err := p.api.query(ns, r.IntN(2) == 0, vg.Vec(), 1+r.IntN(6), drain)
					if err != nil || st != 200 {
						k.Report("query: %d %v", st, err)
						return
					}
					if drain {
						pn.led.took(k, ns, out)
					} else {
						pn.led.read(k, ns, out)
					}
				}
				k.Count("requests_to_processes", 1)
			}
		}()
	}
	wg.Wait()
}

func (g *Reg) get(mu *sync.Mutex, id uint64) DP { mu.Lock(); defer mu.Unlock(); return g.dps[id] }

// drainAll drains everything through the APIs; with points under way several rounds are
// needed. Every acknowledged point has to come exactly once.
func (pn *procNet) drainAll() int {
	k, l := pn.k, pn.led
	left := func() (ids []uint64) {
		now := time.Now()
		l.mu.Lock()
		defer l.mu.Unlock()
		for id := range l.acked {
			d := l.reg.dps[id]
			if l.drained[id] == 0 && !(d.ExpireEnabled && d.Expires.Before(now)) {
				ids = append(ids, id)
			}
		}
		return
	}
	last, at := -1, time.Now()
	for {
		ids := left()
		if len(ids) != last {
			last, at = len(ids), time.Now()
		}
		if len(ids) == 0 {
			break
		}
		if time.Since(at) > 15*time.Second {
			k.Fail("%d acknowledged points cannot be drained any more, for instance %s of namespace %q", len(ids), sid(ids[0]), l.ns[ids[0]])
		}
		for _, ns := range pn.nss {
			for _, p := range pn.procs {
				if p == nil {
					continue
				}
				st, out, _, err := p.api.query(ns, k.R.IntN(2) == 0, pn.vg.Vec(), 1000, true)
				if err != nil || st != 200 {
					k.Fail("draining query: %d %v", st, err)
				}
				l.took(k, ns, out)
			}
		}
		k.Beat()
		pn.alive()
	}
	// some more, for points that exist twice
	for i := 0; i < 5; i++ {
		for _, ns := range pn.nss {
			for _, p := range pn.procs {
				if p != nil {
					if _, out, _, err := p.api.query(ns, false, pn.vg.Vec(), 1000, true); err == nil {
						l.took(k, ns, out)
					}
				}
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	n := 0
	l.mu.Lock()
	defer l.mu.Unlock()
	for id, x := range l.drained {
		if x > 1 {
			k.Fail("%s of namespace %q was put once and drained %d times", sid(id), l.ns[id], x)
		}
		if l.refused[id] {
			k.Fail("%s was refused and came back from a drain", sid(id))
		}
		n++
	}
	return n
}

// processCase: everything moves; at the end each point is there once.
func processCase(k *K) {
	if svcxBin == "" {
		return
	}
	n := 1 + k.R.IntN(4)
	pn := newProcNet(k, n, nil)
	defer pn.close()
	for _, p := range pn.procs {
		p.up(k)
	}
	k.Op("%d processes, namespaces %q, dim %d", n, pn.nss, pn.vg.Dim)
	pn.clients(2+k.R.IntN(3), 30+k.R.IntN(80), true)
	time.Sleep(time.Duration(k.R.IntN(300)) * time.Millisecond)
	pn.alive()
	got := pn.drainAll()
	pn.alive()
	k.Count("processes", int64(n))
	k.Count("points_drained_exactly_once", int64(got))
	k.Sig(fmt.Sprint("move", n, len(pn.nss), got))
	k.Sample("processes", 3, map[string]any{"processes": n, "namespaces": len(pn.nss), "acknowledged": len(pn.led.acked), "drained": got})
}

var procLogLine = regexp.MustCompile(`\[([^\]]+)\] namespaces:\s*(\d+) \| centroids:\s*(\d+) \| dps:\s*(\d+) \|`)

// stored reads what a process stores.
func (p *proc) stored(k *K, ns string) map[uint64]DP {
	m := map[uint64]DP{}
	var err error
	cl := kmrpc.KMeansClient(p.rpc, ns, &err)
	cs, _ := cl.NearestCentroids(make([]float64, p.dim(ns)), 100000, false)
	if err != nil {
		if strings.Contains(err.Error(), "namespace not found") {
			return m
		}
		k.Fail("reading a process: %v", err)
	}
	for _, d := range centroidsDPs(cs) {
		if _, dup := m[idOf(d)]; dup {
			k.Fail("%s is stored twice in one process", sid(idOf(d)))
		}
		m[idOf(d)] = d
	}
	return m
}

func (p *proc) dim(ns string) int {
	return len(kmrpc.KMeansClient(p.rpc, ns, nil).Vec())
}

// killCase: nothing moves between processes; one is killed and started again.
func killCase(k *K) {
	if svcxBin == "" {
		return
	}
	n := 2 + k.R.IntN(3)
	pn := newProcNet(k, n, func(c *procCfg) {
		c.Skip["fast"], c.Skip["accurate"], c.Skip["balance"] = 1001, 1001, 1001
	})
	defer pn.close()
	for _, p := range pn.procs {
		p.up(k)
	}
	l := pn.led
	// seeds on every process, so that the APIs spread what is put
	for _, p := range pn.procs {
		for _, ns := range pn.nss {
			dp := l.reg.New(k.R, pn.vg.Vec(), "plain")
			l.ns[idOf(dp)] = ns
			ok := kmrpc.KMeansClient(p.rpc, ns, nil).AddDataPoint(dp)
			if !ok {
				k.Fail("insert into a process refused")
			}
			l.result(idOf(dp), true)
		}
	}
	pn.clients(2, 20+k.R.IntN(40), false)
	account := func(what string, lost map[uint64]bool) map[uint64]int {
		where := map[uint64]int{}
		for i, p := range pn.procs {
			if p == nil {
				continue
			}
			for _, ns := range pn.nss {
				for id, d := range p.stored(k, ns) {
					if w, dup := where[id]; dup {
						k.Fail("%s: %s is stored in processes %d and %d", what, sid(id), w, i)
					}
					if e := l.reg.same(d); e != "" {
						k.Fail("%s: %s", what, e)
					}
					if l.ns[id] != ns {
						k.Fail("%s: %s of namespace %q is in %q", what, sid(id), l.ns[id], ns)
					}
					where[id] = i
				}
			}
		}
		now := time.Now()
		for id := range l.acked {
			d := l.reg.dps[id]
			if _, ok := where[id]; !ok && !lost[id] && !(d.ExpireEnabled && d.Expires.Before(now)) {
				k.Fail("%s: %s, put into namespace %q, is not stored in any process", what, sid(id), l.ns[id])
			}
		}
		for id := range where {
			if l.refused[id] {
				k.Fail("%s: %s was refused and is stored", what, sid(id))
			}
		}
		return where
	}
	where := account("after the puts", nil)
	// what the shipped logger prints is what is stored
	seen := pn.checkLogs(where)
	v := k.R.IntN(n)
	lost := map[uint64]bool{}
	for id, i := range where {
		if i == v {
			lost[id] = true
		}
	}
	// requests are under way while it is killed
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var asked, failed atomic.Int64
	for x := 0; x < 2; x++ {
		seed := k.R.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 9))
			for {
				select {
				case <-stop:
					return
				default:
				}
				i := r.IntN(n)
				if i == v {
					continue
				}
				ns := pn.nss[r.IntN(len(pn.nss))]
				st, out, _, err := pn.procs[i].api.query(ns, r.IntN(2) == 0, newVG(r, pn.vg.Dim, "gauss").Vec(), 5, false)
				asked.Add(1)
				if err != nil || st != 200 {
					failed.Add(1)
					k.Report("while another process was killed a query was answered %d (%v)", st, err)
					return
				}
				l.read(k, ns, out)
			}
		}()
	}
	time.Sleep(time.Duration(k.R.IntN(30)) * time.Millisecond)
	vc := pn.procs[v].cfg
	pn.procs[v].kill()
	old := pn.procs[v]
	pn.procs[v] = nil
	time.Sleep(time.Duration(k.R.IntN(60)) * time.Millisecond)
	close(stop)
	wg.Wait()
	k.Op("process %d of %d killed, it held %d points", v, n, len(lost))
	pn.alive()
	account("after a process was killed", lost)
	// the others answer for everything they have, and take more
	for i, p := range pn.procs {
		if p == nil {
			continue
		}
		for _, ns := range pn.nss {
			have := 0
			now := time.Now()
			for id, w := range where {
				d := l.reg.dps[id]
				if w != v && l.ns[id] == ns && !d.ExpireEnabled {
					have++
				}
				_ = now
			}
			st, out, _, err := p.api.query(ns, k.R.IntN(2) == 0, pn.vg.Vec(), 100000, false)
			if st != 200 || err != nil {
				k.Fail("a query after process %d was killed was answered %d (%v)", v, st, err)
			}
			plain := 0
			for _, d := range out {
				if !d.ExpireEnabled {
					plain++
				}
			}
			if plain != have {
				k.Fail("after process %d was killed, process %d finds %d of the %d points of namespace %q the others hold", v, i, plain, have, ns)
			}
		}
	}
	pn.clients(2, 10+k.R.IntN(10), false)
	account("after further puts", lost)
	// it comes back, empty, and takes part again
	pn.procs[v] = spawn(svcxBin, &vc)
	pn.procs[v].up(k)
	for _, ns := range pn.nss {
		if m := pn.procs[v].stored(k, ns); len(m) != 0 {
			k.Fail("a restarted process holds %d points of namespace %q", len(m), ns)
		}
		dp := l.reg.New(k.R, pn.vg.Vec(), "plain")
		l.ns[idOf(dp)] = ns
		if st, err := pn.procs[v].api.put(ns, true, dp); st != 200 || err != nil {
			k.Fail("a put through a restarted process was answered %d (%v)", st, err)
		}
		l.result(idOf(dp), true)
		dp = l.reg.New(k.R, pn.vg.Vec(), "plain")
		l.ns[idOf(dp)] = ns
		if !kmrpc.KMeansClient(pn.procs[v].rpc, ns, nil).AddDataPoint(dp) {
			k.Fail("an insert into a restarted process was refused")
		}
		l.result(idOf(dp), true)
	}
	pn.clients(2, 10+k.R.IntN(20), false)
	w2 := account("after the restart", lost)
	part := 0
	for _, i := range w2 {
		if i == v {
			part++
		}
	}
	// all of it is drained through the restarted process alone
	for id := range lost {
		delete(l.acked, id)
	}
	got := pn.drainAll()
	_ = old
	pn.alive()
	k.Count("processes_killed", 1)
	k.Count("points_lost_with_their_process", int64(len(lost)))
	k.Count("points_of_survivors_kept", int64(len(where)-len(lost)))
	k.Count("queries_beside_a_kill", asked.Load())
	k.Count("log_lines_compared", int64(seen))
	k.Sig(fmt.Sprint("kill", n, v, len(where), len(lost), part, got))
	k.Sample("kill", 3, map[string]any{"processes": n, "killed_held": len(lost), "others_held": len(where) - len(lost), "on_restarted": part, "drained": got})
}

// checkLogs: within some time every process logs the numbers stored by itself (and by
// the others, if it is configured to).
func (pn *procNet) checkLogs(where map[uint64]int) int {
	k := pn.k
	byAddr := map[string]int{}
	var want [][3]int
	num := func(i int) [3]int {
		m := kmrpc.KMeansClient(pn.procs[i].rpc, "", nil).Meta()
		t := [3]int{len(m.DPs), 0, 0}
		for _, x := range m.Centroids {
			t[1] += x
		}
		for _, x := range m.DPs {
			t[2] += x
		}
		return t
	}
	for i, p := range pn.procs {
		byAddr[p.rpc] = i
		want = append(want, num(i))
	}
	n := 0
	for i, p := range pn.procs {
		need := map[int]bool{i: true}
		if !p.cfg.LogLocalOnly {
			for j := range pn.procs {
				need[j] = true
			}
		}
		base := len(p.log())
		at := time.Now()
		for len(need) > 0 {
			if time.Since(at) > 20*time.Second {
				var l []int
				for j := range need {
					l = append(l, j)
				}
				k.Fail("process %d has not logged the numbers of processes %v (%v) for 20 s; its log ends:\n%s", i, l, want, tailStr(p.log(), 1500))
			}
			time.Sleep(10 * time.Millisecond)
			k.Beat()
			lg := p.log()
			if base > len(lg) {
				base = 0
			}
			for _, m := range procLogLine.FindAllStringSubmatch(lg[base:], -1) {
				j, ok := byAddr[m[1]]
				if !ok {
					k.Fail("process %d logs an address %q that is not configured", i, m[1])
				}
				if p.cfg.LogLocalOnly && j != i {
					k.Fail("process %d is to log its own numbers only and logs those of %d", i, j)
				}
				a, _ := strconv.Atoi(m[2])
				b, _ := strconv.Atoi(m[3])
				c, _ := strconv.Atoi(m[4])
				if [3]int{a, b, c} == want[j] {
					if need[j] {
						n++
					}
					delete(need, j)
				}
			}
			for j := range want { // maintenance may go on splitting and merging
				want[j] = num(j)
			}
		}
	}
	return n
}

// busyAddrCase: a process that cannot have its addresses ends with a failure.
func busyAddrCase(k *K) {
	if svcxBin == "" {
		return
	}
	c := &procCfg{RPC: toAddr("127.0.0.1", freePort()), API: toAddr("127.0.0.1", freePort()), LoopMS: 5, StepMS: 5, Skip: map[string]int{}, Threshold: 100, LogLocalOnly: true}
	what := k.R.IntN(2)
	ad := []Addr{c.RPC, c.API}[what]
	ln, err := net.Listen("tcp", ad.ToStr())
	if err != nil {
		return
	}
	defer ln.Close()
	c.All = []Addr{c.RPC}
	p := spawn(svcxBin, c)
	defer p.kill()
	select {
	case <-p.end:
		if p.code == 0 {
			k.Fail("a process whose %s address is taken ended without a failure", []string{"node", "API"}[what])
		}
	case <-time.After(30 * time.Second):
		k.Fail("a process whose %s address is taken still runs after 30 s:\n%s", []string{"node", "API"}[what], tailStr(p.log(), 2000))
	}
	k.Count("starts_refused", 1)
	k.Sig(fmt.Sprint("busy", what, k.Idx))
}

// shippedCase: the program as it is, for one round of its event loop.
func shippedCase(k *K) {
	if svcBin == "" || !portFree("3500") || !portFree("3501") {
		k.Count("service_not_started_ports_in_use", 1)
		return
	}
	p := spawn(svcBin, nil)
	defer p.kill()
	p.rpc = "localhost:3500"
	p.api = &apiFix{url: "http://localhost:3501", cl: &http.Client{Timeout: 60 * time.Second}}
	p.up(k)
	reg := newReg()
	r := k.R
	t0 := time.Now()
	held := map[string]map[uint64]bool{"big": {}, "small": {}}
	gone := 0
	for i := 0; i < 1500; i++ {
		ns := "big"
		if i%5 == 4 {
			ns = "small"
		}
		v := newVG(r, 4, "gauss").Vec()
		dp := reg.New(r, v, "plain")
		if i%50 == 10 {
			o := reg.dps[idOf(dp)]
			o.ExpireEnabled, o.Expires = true, time.Now().Add(3*time.Second)
			reg.dps[idOf(dp)] = o
			dp.ExpireEnabled, dp.Expires = true, o.Expires
			gone++
		} else {
			held[ns][idOf(dp)] = true
		}
		if st, err := p.api.put(ns, i%2 == 0, dp); st != 200 || err != nil {
			k.Fail("the program as shipped answered a put %d (%v)", st, err)
		}
		k.Beat()
	}
	shippedRanking(k, p, reg, t0)
	num := func(ns string) (dps, cents int) {
		m := kmrpc.KMeansClient(p.rpc, "", nil).Meta()
		return m.DPs[ns], m.Centroids[ns]
	}
	// every task runs in the first round of the event loop, a step of 5 s each
	for time.Since(t0) < 62*time.Second {
		time.Sleep(200 * time.Millisecond)
		k.Beat()
		if p.ended() {
			k.Fail("the program as shipped ended by itself with code %d:\n%s", p.code, tailStr(p.log(), 4000))
		}
		q := newVG(r, 4, "gauss").Vec()
		ns := []string{"big", "small"}[r.IntN(2)]
		st, out, _, err := p.api.query(ns, r.IntN(2) == 0, q, 5, false)
		if st != 200 || err != nil {
			k.Fail("the program as shipped answered a query %d (%v)", st, err)
		}
		for _, d := range out {
			if e := reg.same(d); e != "" {
				k.Fail("the program as shipped: %s", e)
			}
		}
		k.Count("service_requests", 1)
	}
	for ns, m := range held {
		d, c := num(ns)
		if d != len(m) {
			k.Fail("after a round of its event loop the program holds %d points in %q, %d are due (%d more have expired)", d, ns, len(m), gone)
		}
		if ns == "big" && c < 2 {
			k.Fail("a centroid of %d points was not split in a round of the event loop (the configured limit is 1000)", d)
		}
		if ns == "small" && c != 1 {
			k.Fail("%d points are in %d centroids, although the configured limit is 1000", d, c)
		}
		_, out, _, err := p.api.query(ns, true, []float64{1, 0, 0, 0}, 100000, true)
		if err != nil || len(out) != len(m) {
			k.Fail("draining %q returns %d of %d points (%v)", ns, len(out), len(m), err)
		}
		for _, x := range out {
			if !m[idOf(x)] {
				k.Fail("draining %q returns %s, which is not due there (or a second time)", ns, sid(idOf(x)))
			}
			delete(m, idOf(x))
		}
	}
	lg := p.log()
	if !procLogLine.MatchString(lg) {
		k.Fail("the program as shipped logs no numbers:\n%s", tailStr(lg, 1500))
	}
	for _, l := range procLogLine.FindAllStringSubmatch(lg, -1) {
		if l[1] != "localhost:3500" {
			k.Fail("the program as shipped logs an address %q", l[1])
		}
	}
	k.Count("shipped_rounds", 1)
	k.Sig("shipped")
}

// shippedRanking: the program as shipped searches by cosine similarity: the nearest in
// a query, the farthest for a redistribution.
func shippedRanking(k *K, p *proc, rg *Reg, t0 time.Time) {
	var dps []DP
	vg := newVG(k.R, 4, "gauss")
	for i := 0; i < 60; i++ {
		dp := rg.New(k.R, vg.Vec(), "plain")
		for j := range dp.Vec { // lengths which a search by distance would go by
			dp.Vec[j] *= float64(1 + i%7*40)
		}
		rg.dps[idOf(dp)] = dp
		if st, err := p.api.put("rank", i%2 == 0, dp); st != 200 || err != nil {
			k.Fail("the program as shipped answered a put %d (%v)", st, err)
		}
		dps = append(dps, dp)
	}
	pos := func(d DP) int {
		for i := range dps {
			if idOf(dps[i]) == idOf(d) {
				return i
			}
		}
		return -1
	}
	q := vg.Vec()
	_, out, _, err := p.api.query("rank", true, q, 12, false)
	if err != nil || len(out) != 12 {
		k.Fail("the program as shipped answers a query for 12 of 60 points with %d (%v)", len(out), err)
	}
	by := append([]DP(nil), dps...)
	sort.SliceStable(by, func(i, j int) bool { return refCos(by[i].Vec, q) > refCos(by[j].Vec, q) })
	for i, d := range out {
		if pos(d) < 0 || math.Abs(refCos(d.Vec, q)-refCos(by[i].Vec, q)) > 1e-9 {
			k.Fail("the program as shipped: result %d of a query has cosine similarity %v, the one due there %v", i, refCos(d.Vec, q), refCos(by[i].Vec, q))
		}
	}
	mean := make([]float64, 4)
	for _, d := range dps {
		for j, x := range d.Vec {
			mean[j] += x / float64(len(dps))
		}
	}
	sort.SliceStable(by, func(i, j int) bool { return refCos(by[i].Vec, mean) < refCos(by[j].Vec, mean) })
	worst := kmrpc.KMeansClient(p.rpc, "rank", nil).DrainOrdered(6)
	if time.Since(t0) > 8*time.Second {
		return // points may be under way already
	}
	if len(worst) != 6 {
		k.Fail("the program as shipped gives up %d of 6 worst fits", len(worst))
	}
	for _, d := range worst {
		if pos(d) < 0 || refCos(d.Vec, mean) > refCos(by[5].Vec, mean)+1e-9 {
			k.Fail("the program as shipped gives up a point with cosine similarity %v to the centroid, there are 6 with at most %v", refCos(d.Vec, mean), refCos(by[5].Vec, mean))
		}
	}
	k.Count("shipped_rankings", 2)
}

func init() {
	reg(&Prop{ID: "C33", Level: "exploration", Min: 15, Svc: true, Svcx: true, Stall: 180 * time.Second,
		Assume: []string{"the processes of the cluster parts get their addresses, intervals and limits through an additional file in package cfg (an overlay); the program as shipped is run unchanged", "what is only in the memory of a killed process is lost with it"},
		Rule:   "1-4 processes of cmd/service with event loops at millisecond intervals, concurrent clients of all APIs, everything drained in the end; a process killed with requests under way and started again; taken addresses; the unchanged program for one full round of its event loop; distinct by processes, points and outcomes",
		Run: func(r *Run) {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { defer wg.Done(); r.Cases("shipped", 1, 1, shippedCase) }()
			r.Cases("processes", r.N(24, 600), 3, processCase)
			r.Cases("kill", r.N(24, 600), 3, killCase)
			r.Cases("busy address", r.N(6, 60), 3, busyAddrCase)
			wg.Wait()
		}})
}
