package main

// C23: the event loop's schedule.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// derefArgs: the arguments of an observed call as a value.
func derefArgs(ev *Ev) any {
	v := reflect.ValueOf(ev.Args)
	for v.Kind() == reflect.Pointer && !v.IsNil() {
		v = v.Elem()
	}
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

// loopTasks: the tasks a loop triggers on its own node, by RPC method, except load
// balancing and metadata.
var loopTasks = []string{"Expire", "MemTrim", "MergeCentroids", "SplitCentroids", "DistributeDataPointsInternal", "DistributeDataPointsFast", "DistributeDataPointsAccurate"}

func taskInterval(s *eventloop.EventLoopTaskSkipConfig, m string) int {
	switch m {
	case "Expire":
		return s.Expire
	case "MemTrim":
		return s.MemTrim
	case "MergeCentroids":
		return s.MergeCentroids
	case "SplitCentroids":
		return s.SplitCentroids
	case "DistributeDataPointsInternal":
		return s.DistributeDataPointsInternal
	case "DistributeDataPointsFast":
		return s.DistributeDataPointsFast
	case "DistributeDataPointsAccurate":
		return s.DistributeDataPointsAccurate
	case "LoadBalancing":
		return s.LoadBalancing
	case "Meta":
		return s.Meta
	}
	panic(m)
}

// due: whether a task of interval s runs in iteration i (counted from 0).
func due(s, i int) bool {
	if s < 1 {
		s = 1
	}
	return s <= 1000 && i%s == 0
}

// dueCount: how often it has run after n iterations.
func dueCount(s, n int) int {
	if s < 1 {
		s = 1
	}
	if s > 1000 {
		return 0
	}
	return (n + s - 1) / s
}

// taskNS: the namespace an observed task call was for.
func taskNS(ev *Ev) string {
	switch a := derefArgs(ev).(type) {
	case string:
		return a
	case kmrpc.SplitCentroidsArgs:
		return a.NameSpace
	case kmrpc.MergeCentroidsArgs:
		return a.NameSpace
	case kmrpc.DistribDPArgs:
		return a.NameSpace
	case kmrpc.DistribDPIArgs:
		return a.NameSpace
	case kmrpc.StealCentroidArgs:
		return a.NameSpace
	}
	return fmt.Sprintf("?%T", ev.Args)
}

func isLoopTask(m string) bool {
	for _, t := range loopTasks {
		if t == m {
			return true
		}
	}
	return false
}

var loopNS = []string{"", "ns", "a b", "ü/*\"'", "second", strings.Repeat("long", 100)}

// someNS picks up to n of loopNS, and sometimes many more.
func someNS(k *K, n int) []string {
	var out []string
	for _, j := range k.R.Perm(len(loopNS))[:n] {
		out = append(out, loopNS[j])
	}
	if k.R.IntN(12) == 0 {
		extra := 10 + k.R.IntN(40)
		if k.R.IntN(8) == 0 {
			extra = 50 + k.R.IntN(250)
		}
		for i := extra; i > 0; i-- {
			out = append(out, fmt.Sprintf("extra %d", i))
		}
	}
	return out
}

type loopEnv struct {
	k     *K
	nodes []*Node
	c     *eventloop.EventLoopConfig
	ls    *loopSet
	holds []map[string]bool
	reg   *Reg
}

// loopN: an amount of datapoints to move, usually a few.
func loopN(k *K, n int) int {
	if k.R.IntN(8) == 0 {
		return []int{10, 100, 1001, 5000, 1 << 20, 1<<31 + 7, math.MaxInt64}[k.R.IntN(7)]
	}
	return k.R.IntN(n)
}

// newLoopEnv: nodes with some namespaces; node 0 is the local one.
func newLoopEnv(k *K, maxNodes, maxPts int) *loopEnv {
	cfg := pickCfg(k)
	e := &loopEnv{k: k, ls: newLoopSet(k), reg: newReg()}
	n := 1 + k.R.IntN(maxNodes)
	vg := newVG(k.R, 3, "gauss")
	var all []Addr
	for i := 0; i < n; i++ {
		nd := newNode(cfg)
		e.nodes = append(e.nodes, nd)
		all = append(all, nd.A())
		h := map[string]bool{}
		for _, ns := range someNS(k, k.R.IntN(4)) {
			for p := 0; p < 1+k.R.IntN(maxPts); p++ {
				if !(&serverB{s: nd.Srv, ns: ns}).Add(e.reg.New(k.R, vg.Vec(), "plain")) {
					k.Fail("insert refused")
				}
			}
			h[ns] = true
		}
		e.holds = append(e.holds, h)
	}
	switch k.R.IntN(6) {
	case 0:
		all = all[1:] // the local node is not listed
	case 1:
		all = append(all, addrOf(deadAddr()))
	}
	k.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	e.c = &eventloop.EventLoopConfig{LocalAddr: e.nodes[0].A(), RemoteAddrs: all,
		DistributeDataPointsFastN: loopN(k, 4), DistributeDataPointsAccurateN: loopN(k, 3), DistributeDataPointsInternalN: loopN(k, 4),
		SplitCentroidsMin: k.R.IntN(10), SplitCentroidsMax: 10 + k.R.IntN(1000),
		MergeCentroidsMin: -1 + k.R.IntN(3), MergeCentroidsMax: 1 + k.R.IntN(5), LogLocalOnly: k.R.IntN(2) == 0}
	return e
}

func (e *loopEnv) close() {
	for _, n := range e.nodes {
		n.Close()
	}
}

func (e *loopEnv) namespaces(i int) map[string]bool {
	m := map[string]bool{}
	for _, ns := range e.nodes[i].Srv.Table.Namespaces() {
		m[ns] = true
	}
	return m
}

func anyInterval(k *K) int {
	return []int{1, 1, 2, 3, 4, 5, 7, 1 + k.R.IntN(12), 1000, 1001, 1002, math.MaxInt64, 0, -1, -3, math.MinInt64}[k.R.IntN(16)]
}

func (e *loopEnv) intervals(f func() int) {
	e.c.TaskSkip = eventloop.EventLoopTaskSkipConfig{Expire: f(), MemTrim: f(), DistributeDataPointsFast: f(), DistributeDataPointsAccurate: f(),
		DistributeDataPointsInternal: f(), SplitCentroids: f(), MergeCentroids: f(), LoadBalancing: f(), Meta: f()}
}

// quiet waits (a while) until only the loop itself runs and all requests were answered.
func (e *loopEnv) quiet(loops int) {
	for t := 0; t < 400; t++ {
		n, _ := e.ls.live()
		busy := int64(0)
		for _, nd := range e.nodes {
			busy += nd.busy.Load()
		}
		if n <= loops && busy == 0 {
			return
		}
		time.Sleep(time.Millisecond << min(t/8, 4))
	}
}

// strictCase: the loop pauses at every metadata report (interval 1), what was
// triggered in between is compared with the schedule.
func strictCase(k *K) {
	e := newLoopEnv(k, 4, 12)
	defer e.close()
	e.intervals(func() int { return anyInterval(k) })
	e.c.TaskSkip.Meta = []int{1, 1, 0, -4}[k.R.IntN(4)]
	want := e.c.TaskSkip // the loop may change its own copy
	cfg := *e.c
	K := 3 + k.R.IntN(14)
	F := 0 // with faults in the first F iterations
	if k.Part == "failing" {
		F = 1 + k.R.IntN(8)
		K = F + 3 + k.R.IntN(6)
		if k.R.IntN(2) == 0 {
			e.c.TaskSkip.LoadBalancing = 1
			want = e.c.TaskSkip
		}
	}
	k.Op("%d nodes, %d remote addresses, intervals %+v, %d iterations, with faults in the first %d", len(e.nodes), len(cfg.RemoteAddrs), want, K, F)
	for _, n := range e.nodes {
		n.SetTrace(true)
	}
	type pause struct {
		upTo  []int // events per node so far
		nss   []map[string]bool
		sizes []map[string]int
	}
	var ps []pause
	var stop func()
	var started sync.WaitGroup
	started.Add(1)
	log := &memLogger{}
	over := 0
	var logMu sync.Mutex
	var logs []string // what was reported to the logger
	var logN []int    // reports before each pause
	log.onT = func(s string) {
		started.Wait()
		logMu.Lock()
		logs = append(logs, s)
		logMu.Unlock()
	}
	log.onM = func(eventloop.MetaData) {
		started.Wait()
		k.Beat()
		e.quiet(1)
		if len(ps) > K {
			over++
			return
		}
		var p pause
		for i, n := range e.nodes {
			p.upTo = append(p.upTo, len(n.Events()))
			p.nss = append(p.nss, e.namespaces(i))
		}
		ps = append(ps, p)
		logMu.Lock()
		logN = append(logN, len(logs))
		logMu.Unlock()
		if len(ps) == K+1 {
			stop()
		}
	}
	if F > 0 {
		recover := e.faults()
		onM := log.onM
		log.onM = func(m eventloop.MetaData) {
			started.Wait()
			if len(ps) == F {
				e.quiet(1)
				recover()
			}
			onM(m)
		}
	}
	e.c.L = log
	stop = e.ls.start(e.c)
	started.Done()
	e.ls.wait()
	if len(ps) != K+1 || over > 0 {
		k.Fail("with interval %d the metadata task ran in %d of the first %d iterations (%d after the loop was stopped)", want.Meta, len(ps), K+1, over)
	}
	tail := 0
	for i, n := range e.nodes {
		tail += len(n.Events()) - ps[K].upTo[i]
	}
	if tail > 0 {
		k.Fail("%d calls were made after the loop was stopped", tail)
	}
	evs := make([][]*Ev, len(e.nodes))
	for i, n := range e.nodes {
		evs[i] = n.Events()
	}
	listed := map[int]bool{}
	for _, a := range cfg.RemoteAddrs {
		for i, n := range e.nodes {
			if n.A() == a {
				listed[i] = true
			}
		}
	}
	for it := F; it < K; it++ {
		before, after := ps[it], ps[it+1]
		for i := range e.nodes {
			calls := evs[i][before.upTo[i]:after.upTo[i]]
			byTask := map[string]map[string]int{}
			for _, ev := range calls {
				if !isLoopTask(ev.Method) && ev.Method != "StealCentroid" {
					continue
				}
				if i != 0 {
					k.Fail("iteration %d: the loop of node 0 called %s on node %d", it, ev.Method, i)
				}
				ns := taskNS(ev)
				if byTask[ev.Method] == nil {
					byTask[ev.Method] = map[string]int{}
				}
				byTask[ev.Method][ns]++
				e.checkArgs(ev, &cfg, before.nss, after.nss, it)
			}
			if i != 0 {
				continue
			}
			for _, t := range loopTasks {
				s := taskInterval(&want, t)
				d := due(s, it)
				for ns, c := range byTask[t] {
					if !d {
						k.Fail("iteration %d: %s (interval %d) ran although it is not due", it, t, s)
					}
					if !after.nss[0][ns] && !before.nss[0][ns] {
						k.Fail("iteration %d: %s ran for namespace %.20q, which the local node does not have", it, t, ns)
					}
					if c != 1 {
						k.Fail("iteration %d: %s ran %d times for namespace %.20q", it, t, c, ns)
					}
				}
				if d {
					for ns := range before.nss[0] {
						if byTask[t][ns] == 0 {
							k.Fail("iteration %d: %s (interval %d) is due but did not run for namespace %.20q", it, t, s, ns)
						}
					}
					k.Count("due:"+t, int64(len(before.nss[0])))
				} else {
					k.Count("not_due:"+t, int64(len(before.nss[0])))
				}
			}
		}
		// Every task which ran has been reported, with its namespace.
		ran := map[string]int{}
		for i := range e.nodes {
			for _, ev := range evs[i][before.upTo[i]:after.upTo[i]] {
				for _, t := range loopTasks {
					if ev.Method == t {
						ran[taskNS(ev)]++
					}
				}
			}
		}
		for ns, c := range ran {
			reports := 0
			for _, s := range logs[logN[it]:logN[it+1]] {
				if strings.Contains(s, ns) || strconv.Quote(ns) != `"`+ns+`"` {
					reports++
				}
			}
			if reports < c {
				k.Fail("iteration %d: %d tasks ran for namespace %.20q, but the logger got %d reports naming it", it, c, ns, reports)
			}
			k.Count("task_reports", int64(reports))
		}
		// load balancing looks at the sizes of the namespaces of the listed nodes
		probes := 0
		holders := 0
		for i := range e.nodes {
			for _, ev := range evs[i][before.upTo[i]:after.upTo[i]] {
				if ev.Method == "LenDP" || ev.Method == "StealCentroid" {
					probes++
				}
			}
			if listed[i] {
				holders += len(before.nss[i])
			}
		}
		if d := due(want.LoadBalancing, it); !d && probes > 0 {
			k.Fail("iteration %d: load balancing (interval %d) ran although it is not due", it, want.LoadBalancing)
		} else if d && holders > 0 {
			if probes == 0 {
				k.Fail("iteration %d: load balancing (interval %d) is due but did not run", it, want.LoadBalancing)
			}
			k.Count("due:LoadBalancing", 1)
		}
		k.Sig(fmt.Sprint(len(e.nodes), it, want, len(before.nss[0])))
	}
	k.Count("iterations_judged", int64(K-F))
	k.Count("iterations_with_faults", int64(F))
	k.Sample("strict", 2, map[string]any{"nodes": len(e.nodes), "iterations": K, "intervals": fmt.Sprintf("%+v", want), "calls_on_local_node": len(evs[0])})
}

// faults makes calls on the nodes fail until the function it returns is called, which
// brings back everything that was lost.
func (e *loopEnv) faults() func() {
	k := e.k
	var mu sync.Mutex
	over := false
	rng := rand.New(rand.NewPCG(k.R.Uint64(), 3))
	oftenM := []string{"LenDP", "Namespaces", "Meta", "StealCentroid", "LenDP"}[k.R.IntN(5)]
	oftenA := []string{"request", "reply", "partial", "gone", "forget", ""}[k.R.IntN(6)]
	for _, n := range e.nodes {
		n.SetHook(func(ev *Ev) Act {
			mu.Lock()
			defer mu.Unlock()
			if over {
				return Act{}
			}
			what := []string{"", "", "", "", "request", "reply", "partial", "gone", "forget", "refuse", "back"}[rng.IntN(11)]
			if ev.Method == oftenM && rng.IntN(4) > 0 {
				what = oftenA
			}
			if what != "" {
				k.Count("loop_faults:"+what, 1)
			}
			switch what {
			case "request":
				return Act{CutReq: true}
			case "reply":
				return Act{CutReply: true}
			case "partial":
				return Act{PartReply: true}
			case "gone":
				if n == e.nodes[0] && rng.IntN(4) > 0 {
					return Act{}
				}
				n.Down()
				return Act{CutReq: true}
			case "refuse":
				n.refuse.Store(true)
			case "back":
				for _, x := range e.nodes {
					x.refuse.Store(false)
					e.up(x)
				}
			case "forget":
				for _, x := range e.nodes {
					if x == n || rng.IntN(2) == 0 {
						x.Srv.Table.Reset()
					}
				}
			}
			return Act{}
		})
	}
	return func() {
		mu.Lock()
		defer mu.Unlock()
		over = true
		for _, n := range e.nodes {
			n.refuse.Store(false)
			e.up(n)
		}
		for i, h := range e.holds {
			for ns := range h {
				b := &serverB{s: e.nodes[i].Srv, ns: ns}
				if !b.Add(e.reg.New(k.R, []float64{1, k.R.NormFloat64(), 3}, "plain")) {
					k.Report("insert refused after the faults")
				}
			}
		}
	}
}

func (e *loopEnv) up(n *Node) {
	n.mu.Lock()
	down := n.isDown
	n.mu.Unlock()
	if down && !n.Up() {
		panic("a node's address is taken")
	}
}

// checkArgs: the configured arguments are handed on.
func (e *loopEnv) checkArgs(ev *Ev, c *eventloop.EventLoopConfig, nssB, nssA []map[string]bool, it int) {
	k := e.k
	bad := func(want string) {
		k.Fail("iteration %d: %s was called with %+v, configured is %s", it, ev.Method, derefArgs(ev), want)
	}
	switch a := derefArgs(ev).(type) {
	case kmrpc.SplitCentroidsArgs: // also the type merging uses
		mn, mx := c.SplitCentroidsMin, c.SplitCentroidsMax
		if ev.Method == "MergeCentroids" {
			mn, mx = c.MergeCentroidsMin, c.MergeCentroidsMax
		}
		if a.DPRangeMin != mn || a.DPRangeMax != mx {
			bad(fmt.Sprintf("%d..%d", mn, mx))
		}
	case kmrpc.MergeCentroidsArgs:
		if a.DPRangeMin != c.MergeCentroidsMin || a.DPRangeMax != c.MergeCentroidsMax {
			bad(fmt.Sprintf("%d..%d", c.MergeCentroidsMin, c.MergeCentroidsMax))
		}
	case kmrpc.DistribDPIArgs:
		if a.N != c.DistributeDataPointsInternalN {
			bad(fmt.Sprint(c.DistributeDataPointsInternalN))
		}
	case kmrpc.DistribDPArgs:
		n := c.DistributeDataPointsFastN
		if ev.Method == "DistributeDataPointsAccurate" {
			n = c.DistributeDataPointsAccurateN
		}
		if a.N != n {
			bad(fmt.Sprintf("n=%d", n))
		}
		has := map[string]int{}
		for _, s := range a.AddrOptions {
			has[s]++
		}
		for _, ad := range c.RemoteAddrs {
			s := ad.ToStr()
			for i, n := range e.nodes {
				if n.A() != ad {
					continue
				}
				if nssB[i][a.NameSpace] && has[s] != 1 {
					bad(fmt.Sprintf("to include node %d (%s), which has namespace %.20q", i, s, a.NameSpace))
				}
				if !nssB[i][a.NameSpace] && !nssA[i][a.NameSpace] && has[s] != 0 {
					bad(fmt.Sprintf("not to include node %d (%s), which does not have namespace %.20q", i, s, a.NameSpace))
				}
				delete(has, s)
			}
		}
		for s := range has {
			if has[s] > 0 {
				bad("not to include " + s + ", which is none of the remote addresses with this namespace")
			}
		}
	}
}

// freeRun: intervals of all tasks (metadata included) against the number of
// iterations, which is counted by a task of interval 1.
func freeRun(k *K) {
	e := newLoopEnv(k, 2, 3)
	defer e.close()
	// one namespace on the local node only, never distributed
	for _, n := range e.nodes {
		n.Srv.Table.Reset()
	}
	(&serverB{s: e.nodes[0].Srv, ns: "x"}).Add(e.reg.New(k.R, []float64{1, 2}, "plain"))
	long := k.Idx < 2
	e.c.RemoteAddrs = nil
	for _, n := range e.nodes {
		e.c.RemoteAddrs = append(e.c.RemoteAddrs, n.A())
	}
	K := 20 + k.R.IntN(60)
	iv := func() int { return []int{1, 2, 3, 5, 10, 19, 20, 21, 40, 1001}[k.R.IntN(10)] }
	if long {
		K = 2105
		iv = func() int { return []int{7, 100, 499, 500, 999, 1000, 1000, 1001, 1002}[k.R.IntN(9)] }
		e.c.RemoteAddrs = []Addr{e.nodes[0].A()}
	}
	e.intervals(iv)
	e.c.DistributeDataPointsFastN, e.c.DistributeDataPointsAccurateN, e.c.DistributeDataPointsInternalN = 0, 0, 0
	clock := []string{"DistributeDataPointsFast", "DistributeDataPointsAccurate"}[k.R.IntN(2)] // these are waited for by the loop
	if clock == "DistributeDataPointsFast" {
		e.c.TaskSkip.DistributeDataPointsFast = 1
	} else {
		e.c.TaskSkip.DistributeDataPointsAccurate = 1
	}
	want := e.c.TaskSkip
	k.Op("intervals %+v, %d iterations counted by %s", want, K, clock)
	log := &memLogger{}
	e.c.L = log
	var mu sync.Mutex
	ticks := 0
	lens := 0
	counts := map[string]int{}
	var stop func()
	var started sync.WaitGroup
	started.Add(1)
	first := true
	for _, n := range e.nodes {
		n.SetHook(func(ev *Ev) Act {
			started.Wait()
			if ev.Method == clock {
				// tasks that are not waited for
				e.quietish(long)
			}
			mu.Lock()
			defer mu.Unlock()
			k.Beat()
			if ev.Method == "LenDP" && n == e.nodes[0] {
				lens++
			}
			if !isLoopTask(ev.Method) {
				return Act{}
			}
			if n != e.nodes[0] {
				k.Report("%s was called on another node", ev.Method)
			}
			counts[ev.Method]++
			if ev.Method != clock {
				return Act{}
			}
			ticks++
			_, metas := log.counts()
			chk := func(name string, s, got int) {
				if lo, hi := dueCount(s, ticks-1), dueCount(s, ticks); first && (got < lo || got > hi) {
					first = false
					k.Report("after %d iterations the task %s (interval %d) ran %d times, want %d or %d", ticks, name, s, got, lo, hi)
				}
			}
			chk("metadata", want.Meta, metas)
			chk("load balancing", want.LoadBalancing, lens)
			if !long || ticks%50 == 0 {
				for _, t := range loopTasks {
					chk(t, taskInterval(&want, t), counts[t])
				}
			}
			if ticks == K {
				stop()
			}
			return Act{}
		})
	}
	stop = e.ls.start(e.c)
	started.Done()
	e.ls.wait()
	mu.Lock()
	defer mu.Unlock()
	if ticks != K {
		k.Fail("the loop was stopped in iteration %d but %s ran %d times", K, clock, ticks)
	}
	for _, t := range loopTasks {
		s := taskInterval(&want, t)
		if got := counts[t]; got < dueCount(s, K-1) || got > dueCount(s, K) {
			k.Fail("in %d iterations %s (interval %d) ran %d times, want %d", K, t, s, got, dueCount(s, K))
		}
	}
	k.Count("iterations_counted", int64(K))
	k.Max("longest_run_iterations", int64(K))
	k.Sig(fmt.Sprint("free", K, want))
}

// farCase: the schedule over very many iterations. The logger counts them (metadata has
// interval 1). With an unreachable local node an iteration is nearly free.
func farCase(k *K) {
	dead := k.Idx%2 == 0
	nd := newNode(newCfg(mCos, 0, 0))
	defer nd.Close()
	(&serverB{s: nd.Srv, ns: "x"}).Add(newReg().New(k.R, []float64{1, 2}, "plain"))
	log := &memLogger{}
	c := &eventloop.EventLoopConfig{LocalAddr: nd.A(), RemoteAddrs: []Addr{nd.A()}, LogLocalOnly: true, TaskSkip: neverSkip(), L: log}
	K := k.N(6000, 70000)
	if dead {
		c.LocalAddr = addrOf(deadAddr())
		K = k.N(35000, 1200000)
	}
	iv := func() int { return []int{7, 11, 13, 17, 64, 97, 100, 499, 500, 512, 997, 999, 1000}[k.R.IntN(13)] }
	c.TaskSkip.Meta = 1
	c.TaskSkip.LoadBalancing = iv()
	if !dead {
		c.TaskSkip.DistributeDataPointsFast, c.TaskSkip.DistributeDataPointsAccurate = iv(), iv()
		c.TaskSkip.Expire, c.TaskSkip.MemTrim = iv(), iv()
	}
	want := c.TaskSkip
	k.Op("intervals %+v, %d iterations", want, K)
	var mu sync.Mutex
	ran := map[string]int{}
	bad := false
	n := 0 // metadata reports
	nd.SetHook(func(ev *Ev) Act {
		mu.Lock()
		defer mu.Unlock()
		m := ev.Method
		if m == "LenDP" {
			m = "LoadBalancing"
		}
		if m != "LoadBalancing" && !isLoopTask(m) {
			return Act{}
		}
		if at := dueCount(taskInterval(&want, m), n); ran[m] != at-1 && m != "Expire" && m != "MemTrim" && !bad {
			bad = true // (the other two are not waited for)
			k.Report("iteration %d: %s, of interval %d, runs for the %dth time; it is due for the %dth", n-1, m, taskInterval(&want, m), ran[m]+1, at)
		}
		ran[m]++
		return Act{}
	})
	ls := newLoopSet(k)
	var stop func()
	var started sync.WaitGroup
	started.Add(1)
	log.onM = func(eventloop.MetaData) {
		started.Wait()
		mu.Lock()
		defer mu.Unlock()
		n++
		if n&255 == 0 {
			k.Beat()
		}
		if n == K+1 {
			stop()
		}
	}
	stop = ls.start(c)
	started.Done()
	ls.wait()
	mu.Lock()
	defer mu.Unlock()
	for _, m := range []string{"LoadBalancing", "DistributeDataPointsFast", "DistributeDataPointsAccurate", "Expire", "MemTrim"} {
		if w := dueCount(taskInterval(&want, m), K); ran[m] != w && (!dead || m == "LoadBalancing") {
			k.Fail("in %d iterations %s, of interval %d, ran %d times, due were %d", K, m, taskInterval(&want, m), ran[m], w)
		}
	}
	k.Count("iterations_counted", int64(K))
	k.Max("longest_run_iterations", int64(K))
	k.Sig(fmt.Sprint("far", K, want))
}

// quietish waits until nothing the loop started in the background is under way.
func (e *loopEnv) quietish(long bool) {
	if long {
		for t := 0; t < 100; t++ {
			n := int64(0)
			for _, nd := range e.nodes {
				n += nd.busy.Load()
			}
			if n == 0 {
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
		return
	}
	e.quiet(1)
}

// stopCase: nothing is started after the loop was stopped, wherever it is.
func stopCase(k *K) {
	e := newLoopEnv(k, 2, 5)
	defer e.close()
	(&serverB{s: e.nodes[0].Srv, ns: "x"}).Add(e.reg.New(k.R, []float64{1, 2}, "plain"))
	e.intervals(func() int { return 1 })
	const step = 150 * time.Millisecond
	var stopped atomic.Bool
	var late atomic.Int64
	var lateWhat atomic.Value
	note := func(s string) {
		if stopped.Load() {
			late.Add(1)
			lateWhat.Store(s)
		}
	}
	for _, n := range e.nodes {
		n.SetHook(func(ev *Ev) Act { note(ev.Method); return Act{} })
	}
	log := &memLogger{}
	log.onT = func(s string) { note("task " + s) }
	e.c.L = log
	mode := k.Idx % 5
	switch mode {
	case 0: // in the first wait of the loop
		e.c.TimeoutLoop = step
		t0 := time.Now()
		stop := e.ls.start(e.c)
		time.Sleep(time.Duration(k.R.IntN(60)) * time.Millisecond)
		stop()
		if time.Since(t0) < step {
			stopped.Store(true)
		}
		log.onM = func(eventloop.MetaData) { note("metadata") }
	case 1: // in the wait before a step
		at := make(chan time.Time, 100)
		var n atomic.Int64
		e.c.TimeoutStep = step
		log.onM = func(eventloop.MetaData) {
			note("metadata")
			if n.Add(1) == 1 {
				e.c.L.LogTask("")
				at <- time.Now()
			}
		}
		stop := e.ls.start(e.c)
		t0 := <-at
		time.Sleep(time.Duration(k.R.IntN(60)) * time.Millisecond)
		stop()
		if time.Since(t0) < step {
			stopped.Store(true)
		}
	case 2: // within a task
		var stop func()
		var rdy sync.WaitGroup
		rdy.Add(1)
		m := int64(1 + k.R.IntN(4))
		var n atomic.Int64
		log.onM = func(eventloop.MetaData) {
			rdy.Wait()
			if stopped.Load() {
				note("metadata")
				return
			}
			if n.Add(1) == m {
				e.quiet(1)
				stop()
				stopped.Store(true)
			}
		}
		stop = e.ls.start(e.c)
		rdy.Done()
	case 3: // at once, and more than once, from several sides
		e.c.TimeoutLoop = step
		t0 := time.Now()
		stop := e.ls.start(e.c)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); stop(); stop() }()
		}
		wg.Wait()
		if time.Since(t0) < step {
			stopped.Store(true)
		}
	case 4: // in the wait before the next iteration
		at := make(chan time.Time, 100)
		var n atomic.Int64
		e.c.TimeoutLoop = step
		log.onM = func(eventloop.MetaData) {
			note("metadata")
			if n.Add(1) == 2 {
				at <- time.Now()
			}
		}
		e.intervals(func() int { return 1001 })
		e.c.TaskSkip.Meta = 1
		stop := e.ls.start(e.c)
		t0 := <-at
		time.Sleep(time.Duration(10+k.R.IntN(50)) * time.Millisecond)
		stop()
		if time.Since(t0) < step {
			stopped.Store(true)
		}
	}
	e.ls.wait()
	if stopped.Load() {
		k.Count("stops_judged", 1)
	}
	if n := late.Load(); n > 0 {
		k.Fail("%d things were started after the loop had been stopped (mode %d), the last: %v", n, mode, lateWhat.Load())
	}
	k.Sig(fmt.Sprint("stop", mode, k.Idx))
}

// hostileLoop: no configuration makes the loop crash.
func hostileLoop(k *K) {
	e := newLoopEnv(k, 3, 20)
	defer e.close()
	e.intervals(func() int { return []int{1, 1, 1, 2, hInt(k.R)}[k.R.IntN(5)] })
	c := e.c
	for _, p := range []*int{&c.DistributeDataPointsFastN, &c.DistributeDataPointsAccurateN, &c.DistributeDataPointsInternalN, &c.SplitCentroidsMin, &c.SplitCentroidsMax, &c.MergeCentroidsMin, &c.MergeCentroidsMax} {
		if k.R.IntN(2) == 0 {
			*p = hInt(k.R)
		}
	}
	bad := func() Addr {
		return []Addr{{}, {IP: "", Port: "x"}, {IP: "127.0.0.1", Port: ""}, addrOf(deadAddr()), {IP: "[", Port: ":"}}[k.R.IntN(5)]
	}
	switch k.R.IntN(6) {
	case 0:
		c.LocalAddr = bad()
	case 1:
		c.RemoteAddrs = nil
	case 2:
		c.RemoteAddrs = append(c.RemoteAddrs, bad(), bad(), c.LocalAddr, c.LocalAddr)
	case 3:
		c.RemoteAddrs = []Addr{bad()}
	case 4:
		e.nodes[k.R.IntN(len(e.nodes))].Down()
	}
	c.TimeoutLoop = []time.Duration{0, -1, math.MinInt64, time.Millisecond}[k.R.IntN(4)]
	c.TimeoutStep = []time.Duration{0, -1, math.MinInt64, 100 * time.Microsecond}[k.R.IntN(4)]
	k.Op("config %+v", *c)
	log := &memLogger{}
	c.L = log
	if k.R.IntN(6) == 0 {
		c.L = nil // the default logger
	}
	var calls atomic.Int64
	for _, n := range e.nodes {
		n.SetHook(func(*Ev) Act { calls.Add(1); k.Beat(); return Act{} })
	}
	stop := e.ls.start(c)
	for t := 0; t < 60; t++ {
		time.Sleep(time.Millisecond)
		if _, m := log.counts(); m > 5 || calls.Load() > 60 {
			break
		}
	}
	stop()
	e.ls.wait()
	k.Count("hostile_configs", 1)
	k.Count("calls_under_hostile_configs", calls.Load())
	k.Sig(fmt.Sprintf("%v %v %v", c.TaskSkip, len(c.RemoteAddrs), c.L == nil))
}

func sortedKeys[V any](m map[string]V) (r []string) {
	for s := range m {
		r = append(r, s)
	}
	sort.Strings(r)
	return
}

func init() {
	reg(&Prop{ID: "C23", Level: "exploration", Min: 150, VLimit: 16 << 20,
		Rule: "real event loops against recording nodes; strict: random intervals (also below 1 and above 1000), namespaces, arguments and addresses, the loop pauses in its logger at every iteration and the calls since the last pause are compared with the schedule; counted: up to 2105 iterations with all tasks, 35000 (thorough: 1.2 million) with some; failing: calls fail, nodes go away, forget and come back, judged afterwards; stops at chosen places; hostile configurations; distinct by (nodes, iteration, intervals)",
		Run: func(r *Run) {
			var wg sync.WaitGroup
			part := func(name string, n, par int, f func(*K)) {
				wg.Add(1)
				go func() { defer wg.Done(); r.Cases(name, n, par, f) }()
			}
			part("far", r.N(2, 8), 1, farCase)
			part("counted", r.N(24, 400), 3, freeRun)
			part("strict", r.N(120, 3000), 2, strictCase)
			part("failing", r.N(60, 1500), 2, strictCase)
			part("stop", r.N(40, 600), 5, stopCase)
			part("config", r.N(150, 4000), 2, hostileLoop)
			wg.Wait()
		}})
}
