package main

// C27: namespaces, counts and metadata agree with what is stored.

import (
	"bytes"
	"fmt"
	"log"
	"math/rand/v2"
	"os"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// stored: what a node really holds, read from its managers.
type stored struct{ dps, cents map[string]int }

func storedOn(k *K, n *Node, nss []string) stored {
	s := stored{map[string]int{}, map[string]int{}}
	for _, ns := range nss {
		n.Srv.Table.Access(ns, func(cm *CM) {
			t := 0
			for _, c := range cm.Centroids {
				t += len(c.DataPoints)
			}
			s.dps[ns], s.cents[ns] = t, len(cm.Centroids)
		})
	}
	return s
}

func sameCounts(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func shortCounts(m map[string]int) string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%.12q:%d", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// judgeReports compares everything a node reports with what it holds.
func judgeReports(k *K, n *Node, nss []string, what string) stored {
	st := storedOn(k, n, nss)
	var err error
	cl := func(ns string) interface {
		Namespaces() []string
		LenDP() int
		Meta() kmrpc.MetaResp
	} {
		return kmrpc.KMeansClient(n.Addr, ns, &err)
	}
	seen := map[string]int{}
	for _, ns := range cl("").Namespaces() {
		seen[ns]++
	}
	if err != nil {
		k.Fail("%s: listing the namespaces failed: %v", what, err)
	}
	want := map[string]int{}
	for ns := range st.dps {
		want[ns] = 1
	}
	if !sameCounts(seen, want) {
		k.Fail("%s: listed namespaces %s, held %s", what, shortCounts(seen), shortCounts(want))
	}
	meta := cl("").Meta()
	if err != nil {
		k.Fail("%s: the metadata report failed: %v", what, err)
	}
	if !sameCounts(meta.DPs, st.dps) {
		k.Fail("%s: reported points {%s}, stored {%s}", what, shortCounts(meta.DPs), shortCounts(st.dps))
	}
	if !sameCounts(meta.Centroids, st.cents) {
		k.Fail("%s: reported centroids {%s}, held {%s}", what, shortCounts(meta.Centroids), shortCounts(st.cents))
	}
	for _, ns := range nss {
		err = nil
		got := cl(ns).LenDP()
		w, ok := st.dps[ns]
		if got != w {
			k.Fail("%s: count of namespace %.20q reported as %d, stored %d", what, ns, got, w)
		}
		if (err == nil) != ok {
			k.Fail("%s: count of namespace %.20q: error %v, namespace exists: %v", what, ns, err, ok)
		}
	}
	k.Count("reports_compared", int64(2+len(nss)))
	for ns, x := range st.dps {
		if x == 0 {
			k.Count("empty_namespaces_reported", 1)
		}
		if st.cents[ns] > 1 {
			k.Count("namespaces_with_several_centroids", 1)
		}
	}
	return st
}

type metaFix struct {
	k     *K
	cfg   cmCfg
	nodes []*Node
	nss   []string
	reg   *Reg
	rmu   sync.Mutex
	dim   map[string]int
}

func newMetaFix(k *K, maxN int) *metaFix {
	f := &metaFix{k: k, cfg: pickCfg(k), reg: newReg(), dim: map[string]int{}}
	for i := 1 + k.R.IntN(maxN); i > 0; i-- {
		f.nodes = append(f.nodes, newNode(f.cfg))
	}
	f.nss = someNS(k, 1+k.R.IntN(4))
	for _, ns := range f.nss {
		f.dim[ns] = 1 + k.R.IntN(4)
	}
	return f
}

// probe: the names in use and others.
func (f *metaFix) probe() []string {
	out := append([]string{"never used"}, loopNS...)
	for _, ns := range f.nss {
		if !slices.Contains(out, ns) {
			out = append(out, ns)
		}
	}
	return out
}

func (f *metaFix) Close() {
	for _, n := range f.nodes {
		n.Close()
	}
}

func (f *metaFix) dp(r *rand.Rand, ns string) DP {
	v := make([]float64, f.dim[ns])
	for i := range v {
		v[i] = r.NormFloat64() * 10
	}
	cls := []string{"plain", "plain", "plain", "live", "expired", "zero"}[r.IntN(6)]
	f.rmu.Lock()
	defer f.rmu.Unlock()
	dp := f.reg.New(r, v, cls)
	if r.IntN(25) == 0 {
		dp.Vec = append(cloneVec(dp.Vec), 1)
	}
	return dp
}

// op runs some operation on some node; usable from several goroutines.
func (f *metaFix) op(r *rand.Rand) string {
	n := f.nodes[r.IntN(len(f.nodes))]
	ns := f.nss[r.IntN(len(f.nss))]
	var err error
	cl := kmrpc.KMeansClient(n.Addr, ns, &err)
	q := make([]float64, f.dim[ns])
	for i := range q {
		q[i] = r.NormFloat64() * 10
	}
	var addrs []string
	for _, j := range r.Perm(len(f.nodes)) {
		addrs = append(addrs, f.nodes[j].Addr)
	}
	a := r.IntN(24)
	switch {
	case a < 8:
		for i := r.IntN(6); i >= 0; i-- {
			cl.AddDataPoint(f.dp(r, ns))
		}
	case a == 8:
		cl.DrainUnordered(r.IntN(6))
	case a == 9:
		cl.DrainOrdered(r.IntN(6))
	case a == 10:
		cl.DrainUnordered(1 << 20) // leaves the namespace empty
	case a == 11:
		cl.Expire()
	case a == 12:
		cl.MemTrim()
	case a == 13:
		cl.MoveVector()
	case a == 14:
		cl.DistributeDataPointsInternal(r.IntN(5))
	case a == 15:
		cl.DistributeDataPointsFast(addrs, r.IntN(5))
	case a == 16:
		cl.DistributeDataPointsAccurate(addrs, r.IntN(5))
	case a == 17:
		cl.KNNLookup(q, r.IntN(4), true)
	case a == 18:
		cl.NearestCentroids(q, 1+r.IntN(2), true)
	case a == 19, a == 20:
		cl.SplitCentroids(r.IntN(3), 1000)
	case a == 21:
		cl.MergeCentroids(-1+r.IntN(2), 2+r.IntN(4))
	case a == 22:
		cl.StealCentroids(addrs[0], 1+r.IntN(20))
	default:
		cl.KNNLookup(q, r.IntN(4), false)
	}
	return fmt.Sprint(a)
}

func metaSeqCase(k *K) {
	f := newMetaFix(k, 3)
	defer f.Close()
	probe := f.probe()
	steps := 10 + k.R.IntN(50)
	if len(f.nss) > 6 {
		steps += 150
		k.Count("nodes_with_many_namespaces", int64(len(f.nodes)))
	}
	sig := ""
	for i := 0; i < steps; i++ {
		f.op(k.R)
		k.Beat()
		if k.R.IntN(3) == 0 || i == steps-1 {
			for j, n := range f.nodes {
				st := judgeReports(k, n, probe, fmt.Sprintf("node %d after %d operations", j, i+1))
				sig += fmt.Sprint(len(st.dps), st.dps, st.cents, ";")
			}
		}
	}
	if k.R.IntN(10) == 0 {
		f.nodes[0].Srv.Table.Reset()
		judgeReports(k, f.nodes[0], probe, "after a reset")
	}
	k.Sig(sig)
	k.Sample("reports", 3, map[string]any{"nodes": len(f.nodes), "steps": steps, "points_and_centroids": trimS(sig, 300)})
}

// metaConcCase: the same after concurrent operations ended.
func metaConcCase(k *K) {
	f := newMetaFix(k, 3)
	defer f.Close()
	probe := f.probe()
	for round := 0; round < 2; round++ {
		var wg sync.WaitGroup
		for g := 2 + k.R.IntN(5); g > 0; g-- {
			r := rand.New(rand.NewPCG(k.R.Uint64(), 3))
			n := 5 + k.R.IntN(20)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					f.op(r)
					k.Beat()
				}
			}()
		}
		wg.Wait()
		sig := ""
		for j, n := range f.nodes {
			st := judgeReports(k, n, probe, fmt.Sprintf("node %d after concurrent operations ended", j))
			sig += fmt.Sprint(st.dps, st.cents)
		}
		k.Sig(sig)
	}
}

// metaMomentCase: a report given while one client changes a namespace tells numbers of
// points and centroids that it had, together, at a moment during the request; a
// namespace that existed is listed.
func metaMomentCase(k *K) {
	f := newMetaFix(k, 1)
	defer f.Close()
	n, ns := f.nodes[0], f.nss[0]
	type state struct{ dps, cents int }
	var mu sync.Mutex
	states := []state{{-1, -1}} // -1: the namespace does not exist
	started := 0                // operations started; len(states)-1 have ended
	done := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-done:
					return
				default:
				}
				k.Beat()
				mu.Lock()
				lo := len(states) - 1
				existed := states[lo].dps >= 0
				mu.Unlock()
				var err error
				cl := kmrpc.KMeansClient(n.Addr, ns, &err)
				got, what := state{-1, -1}, ""
				if (i+g)%3 == 0 {
					what = "the list of namespaces"
					if !existed {
						continue
					}
					found := false
					for _, x := range cl.Namespaces() {
						found = found || x == ns
					}
					if err != nil || !found {
						k.Report("%s, asked for while it is changed, lacks %.20q (error %v)", what, ns, err)
						return
					}
					k.Count("lists_during_operations", 1)
					continue
				} else if (i+g)%3 == 1 {
					what = "the count"
					if l := cl.LenDP(); err == nil {
						got.dps = l
					}
				} else {
					what = "the metadata"
					m := cl.Meta()
					if err != nil {
						k.Report("%s report failed: %v", what, err)
						return
					}
					if x, ok := m.DPs[ns]; ok {
						got.dps = x
					}
					if x, ok := m.Centroids[ns]; ok {
						got.cents = x
					}
				}
				mu.Lock()
				hi := started
				mu.Unlock()
				// operations that have started may have had their effect: wait for them
				for ended := false; !ended; {
					mu.Lock()
					ended = len(states)-1 >= hi
					mu.Unlock()
					if !ended {
						time.Sleep(50 * time.Microsecond)
					}
				}
				mu.Lock()
				win := append([]state(nil), states[lo:min(hi+1, len(states))]...)
				mu.Unlock()
				ok := false
				for _, s := range win {
					ok = ok || s == got || what == "the count" && s.dps == got.dps
				}
				if !ok {
					k.Report("%s of a namespace that one client changes is (points, centroids) %v; during the request it had %v", what, got, win)
					return
				}
				k.Count("reports_during_operations", 1)
				if len(win) > 1 {
					k.Count("reports_overlapping_an_operation", 1)
				}
			}
		}()
	}
	q := func() []float64 {
		v := make([]float64, f.dim[ns])
		for i := range v {
			v[i] = k.R.NormFloat64() * 10
		}
		return v
	}
	sig := ""
	for i := 0; i < k.N(60, 200); i++ {
		k.Beat()
		cl := kmrpc.KMeansClient(n.Addr, ns, nil)
		mu.Lock()
		started++
		mu.Unlock()
		switch a := k.R.IntN(14); {
		case a < 6:
			cl.AddDataPoint(f.reg.New(k.R, q(), "plain"))
		case a == 6:
			cl.DrainUnordered(1 + k.R.IntN(8))
		case a == 7:
			cl.MemTrim()
		case a == 8:
			cl.NearestCentroids(q(), 1+k.R.IntN(2), true)
		case a == 9, a == 10:
			cl.SplitCentroids(1, 1000)
		case a == 11:
			cl.MergeCentroids(-1, 2+k.R.IntN(6))
		case a == 12:
			cl.KNNLookup(q(), k.R.IntN(6), true)
		default:
			cl.DistributeDataPointsInternal(k.R.IntN(5))
		}
		st := storedOn(k, n, []string{ns})
		s := state{-1, -1}
		if x, ok := st.dps[ns]; ok {
			s = state{x, st.cents[ns]}
		}
		mu.Lock()
		states = append(states, s)
		mu.Unlock()
		sig += fmt.Sprint(s)
	}
	close(done)
	wg.Wait()
	k.Sig(sig)
}

// metaLoopCase: what the event loop hands to its logger.
func metaLoopCase(k *K) {
	f := newMetaFix(k, 5)
	defer f.Close()
	for i := k.R.IntN(60); i > 0; i-- {
		f.op(k.R)
	}
	var all []Addr
	for _, n := range f.nodes {
		all = append(all, n.A())
	}
	dead := addrOf(deadAddr())
	c := &eventloop.EventLoopConfig{LocalAddr: f.nodes[0].A(), LogLocalOnly: k.R.IntN(2) == 0}
	downIdx := -1
	switch k.R.IntN(7) {
	case 0:
		all = append(all, dead)
	case 1:
		if len(all) > 1 {
			all = all[1:]
		}
	case 2:
		all = append(all, all[k.R.IntN(len(all))]) // listed twice
	case 3:
		all = nil
	case 4:
		downIdx = k.R.IntN(len(f.nodes))
		f.nodes[downIdx].Down()
	case 5:
		c.LocalAddr = dead
	}
	k.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	c.RemoteAddrs = append([]Addr(nil), all...)
	c.TaskSkip = neverSkip()
	c.TaskSkip.Meta = 1
	want := map[Addr]bool{}
	if c.LogLocalOnly {
		want[c.LocalAddr] = true
	} else {
		for _, a := range all {
			want[a] = true
		}
	}
	k.Op("%d nodes, %d addresses, local only: %v, node down: %d, local dead: %v", len(f.nodes), len(all), c.LogLocalOnly, downIdx, c.LocalAddr == dead)
	ls := newLoopSet(k)
	lg := &memLogger{}
	var stop func()
	var rdy sync.WaitGroup
	rdy.Add(1)
	reports := 0
	limit := 2 + k.R.IntN(6)
	if k.Idx%50 == 23 {
		limit = 600 + k.R.IntN(1500) // a loop that has run for a while
	}
	lg.onM = func(m eventloop.MetaData) {
		rdy.Wait()
		k.Beat()
		reports++
		if len(m.Items) != len(want) {
			k.Report("report %d has %d nodes, %d are configured", reports, len(m.Items), len(want))
			stop()
			return
		}
		for a, it := range m.Items {
			if !want[a] {
				k.Report("report %d has the node %v, which is not configured", reports, a)
			}
			st := stored{}
			for i, n := range f.nodes {
				if n.A() == a && i != downIdx {
					st = storedOn(k, n, f.nss)
				}
			}
			if !sameCounts(it.LenDP, st.dps) || !sameCounts(it.LenCentroids, st.cents) {
				k.Report("report %d for node %v: points {%s} centroids {%s}, stored {%s} {%s}", reports, a, shortCounts(it.LenDP), shortCounts(it.LenCentroids), shortCounts(st.dps), shortCounts(st.cents))
			}
			k.Count("node_reports", 1)
			if st.dps == nil {
				k.Count("unreachable_node_reports", 1)
			}
		}
		k.Sig(fmt.Sprint(len(all), c.LogLocalOnly, downIdx, len(want), reports, m.Items))
		if reports >= limit {
			stop()
			return
		}
		for i := k.R.IntN(8); i > 0 && (reports < 10 || reports%50 == 0); i-- {
			f.op(k.R)
		}
	}
	c.L = lg
	stop = ls.start(c)
	rdy.Done()
	ls.wait()
	if reports != limit && len(k.Run.viols) == 0 {
		k.Fail("%d reports, %d expected", reports, limit)
	}
	k.Count("loop_reports", int64(reports))
}

func neverSkip() eventloop.EventLoopTaskSkipConfig {
	const never = 1001
	return eventloop.EventLoopTaskSkipConfig{Expire: never, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never,
		DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: never, Meta: never}
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var logLine = regexp.MustCompile(`\[([^\]]*)\] namespaces:\s*(\d+) \| centroids:\s*(\d+) \| dps:\s*(\d+) \|`)

// defaultLoggerCase: the numbers the built-in logger prints.
func defaultLoggerCase(k *K) {
	f := newMetaFix(k, 4)
	defer f.Close()
	for i := 10 + k.R.IntN(60); i > 0; i-- {
		f.op(k.R)
	}
	// the tasks that make it print must not change anything: trimming is enough
	for _, n := range f.nodes {
		for _, ns := range f.nss {
			(&serverB{s: n.Srv, ns: ns}).Expire()
		}
	}
	var buf lockedBuf
	old, flags := log.Writer(), log.Flags()
	log.SetOutput(&buf)
	log.SetFlags(0)
	so := os.Stdout
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	defer func() { os.Stdout.Close(); os.Stdout = so; log.SetOutput(old); log.SetFlags(flags) }()
	var all []Addr
	for _, n := range f.nodes {
		all = append(all, n.A())
	}
	c := &eventloop.EventLoopConfig{LocalAddr: f.nodes[0].A(), RemoteAddrs: all, LogLocalOnly: k.R.IntN(2) == 0, TaskSkip: neverSkip()}
	c.TaskSkip.Meta, c.TaskSkip.MemTrim = 1, 1
	// MemTrim drops nothing but spare capacity and empty centroids: take the numbers after one
	for _, n := range f.nodes {
		for _, ns := range f.nss {
			(&serverB{s: n.Srv, ns: ns}).MemTrim()
		}
	}
	wanted := func() map[string][3]int {
		want := map[string][3]int{}
		for i, n := range f.nodes {
			if c.LogLocalOnly && i > 0 {
				continue
			}
			s := storedOn(k, n, f.nss)
			w := [3]int{len(s.dps), 0, 0}
			for ns := range s.dps {
				w[1] += s.cents[ns]
				w[2] += s.dps[ns]
			}
			want[n.Addr] = w
		}
		return want
	}
	want := wanted()
	hasLocal := want[c.LocalAddr.ToStr()][0] > 0
	ls := newLoopSet(k)
	stop := ls.start(c)
	await := func(done func() bool, lim time.Duration) bool {
		for t0 := time.Now(); time.Since(t0) < lim; {
			if done() {
				return true
			}
			k.Beat()
			sleepMs(10)
		}
		return false
	}
	stranger := false
	printed := func(s string) (addrs []string, got [][3]int) {
		for _, l := range strings.Split(s[:strings.LastIndex(s, "\n")+1], "\n") {
			m := logLine.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			if _, ok := want[m[1]]; !ok && !stranger {
				stranger = true
				k.Report("the built-in logger printed the node %s, which is not to be monitored: %q", m[1], l)
			}
			var g [3]int
			for i := range g {
				g[i], _ = strconv.Atoi(m[2+i])
			}
			addrs, got = append(addrs, m[1]), append(got, g)
		}
		return
	}
	await(func() bool { return !hasLocal || strings.Count(buf.String(), "\n") >= 3*len(want) }, 2*time.Second)
	upTo := len(buf.String())
	// then some of it changes
	for i, n := range f.nodes {
		if i > 0 && k.R.IntN(2) == 0 {
			n.Srv.Table.Reset()
			continue
		}
		for ns := range storedOn(k, n, f.nss).dps {
			b := &serverB{s: n.Srv, ns: ns}
			for j := k.R.IntN(3); j > 0; j-- {
				f.rmu.Lock()
				dp := f.reg.New(k.R, make([]float64, f.dim[ns]), "plain")
				f.rmu.Unlock()
				b.Add(dp)
			}
			b.MemTrim()
		}
	}
	want2 := wanted()
	var missing string
	if hasLocal && upTo > 0 {
		at := upTo
		seen := map[string]bool{}
		last := map[string][3]int{}
		if !await(func() bool {
			b := buf.String()
			addrs, got := printed(b[at:])
			at = len(b)
			for i, a := range addrs {
				seen[a] = seen[a] || got[i] == want2[a]
				last[a] = got[i]
			}
			missing = ""
			for a, w := range want2 {
				if !seen[a] {
					missing = fmt.Sprintf("node %s has %v namespaces, centroids and points, which was never printed; last printed %v", a, w, last[a])
				}
			}
			return missing == ""
		}, 20*time.Second) {
			stop()
			ls.wait()
			k.Fail("built-in logger, 20 s after what is stored changed: %s", missing)
		}
		k.Count("log_changes_seen", 1)
	}
	stop()
	ls.wait()
	seen := map[string]bool{}
	addrs, got := printed(buf.String()[:upTo])
	for i, a := range addrs {
		if w := want[a]; got[i] != w {
			k.Fail("the built-in logger printed %d namespaces, %d centroids, %d points for node %s, which has %v", got[i][0], got[i][1], got[i][2], a, w)
		}
		seen[a] = true
	}
	if hasLocal && len(seen) != len(want) && len(addrs) > 0 {
		k.Fail("the built-in logger printed %d of %d monitored nodes", len(seen), len(want))
	}
	k.Count("log_lines_compared", int64(len(addrs)))
	k.Sig(fmt.Sprint(want, want2))
}

func init() {
	reg(&Prop{ID: "C27", Level: "exploration", Min: 200,
		Assume: []string{"what is stored is read from the centroid managers behind the node's table"},
		Rule:   "namespaces, counts and metadata of 1-3 nodes with 1-4 namespaces compared with the managers' content after random operations (also concurrent ones that ended); metadata handed to the event loop's logger compared for local-only and network-wide configurations with dead, unlisted and repeated addresses; lines of the built-in logger parsed; distinct by reported numbers",
		Run: func(r *Run) {
			r.Cases("sequential", r.N(150, 6000), 6, metaSeqCase)
			r.Cases("concurrent", r.N(60, 2500), 3, metaConcCase)
			r.Cases("moment", r.N(80, 2500), 4, metaMomentCase)
			r.Cases("loop", r.N(200, 8000), 6, metaLoopCase)
			r.Cases("builtin logger", r.N(16, 100), 1, defaultLoggerCase)
		}})
}
func sleepMs(n int) { time.Sleep(time.Duration(n) * time.Millisecond) }
