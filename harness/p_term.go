package main

// C32: every operation ends, whatever it overlaps with, and a node that waits for
// another one stays usable.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// no call and no operation for this long, with nothing being delayed, is a deadlock
const termQuiet = 25 * time.Second

// stacks of the goroutines inside the code under test.
func trypoStacks() string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "\ntrypo/") {
			out = append(out, g)
		}
	}
	return tailStr(strings.Join(out, "\n\n"), 12000)
}

// awaitProgress waits for done while something keeps happening, but not for ever.
func awaitProgress(k *K, done <-chan struct{}, progress func() int64, limit int64, what string) {
	last, at := progress(), time.Now()
	first := last
	for {
		select {
		case <-done:
			return
		case <-time.After(20 * time.Millisecond):
		}
		p := progress()
		if p != last {
			last, at = p, time.Now()
			k.Beat()
		}
		if time.Since(at) > termQuiet {
			k.Fail("%s: nothing has happened for %v, and it has not ended\n%s", what, termQuiet, trypoStacks())
		}
		if p-first > limit {
			k.Fail("%s: has not ended after %d calls\n%s", what, p-first, trypoStacks())
		}
	}
}

// crossCase: operations between nodes, in circles, all at once.
func crossCase(k *K) {
	cfg := newCfg([]Metric{mCos, mCos, mEuc}[k.R.IntN(3)], []int{0, 3, 8, 1000}[k.R.IntN(4)], k.R.IntN(4))
	// search functions that take their time, so that namespaces are busy
	var slowOn atomic.Bool
	pause := time.Duration(k.R.IntN(3)) * 500 * time.Microsecond
	slow := func(f searchFn) searchFn {
		return func(t []float64, vs func() ([]float64, bool), n int) []int {
			if slowOn.Load() && pause > 0 {
				time.Sleep(pause)
			}
			return f(t, vs, n)
		}
	}
	cfg.knn, cfg.kfn = slow(cfg.knn), slow(cfg.kfn)
	nn := 1 + k.R.IntN(4)
	c := newCluster(k, nn, cfg, pickNS(k), []string{"gauss", "clusters", "axis", "positive"}[k.R.IntN(4)], 1+k.R.IntN(5))
	defer c.Close()
	dead := deadAddr()
	per := 0
	for _, st := range c.St {
		if k.R.IntN(6) == 0 {
			continue // no namespace
		}
		for i := 3 + k.R.IntN(25); i > 0; i-- {
			st.B.Add(c.Reg.New(k.R, c.VG.Vec(), []string{"plain", "live"}[k.R.IntN(2)]))
			per++
		}
		if k.R.IntN(5) == 0 {
			st.B.DrainU(100) // centroids without points
		}
	}
	var inside, calls, opsDone atomic.Int64
	d := time.Duration(1+k.R.IntN(6)) * time.Millisecond
	cutP := []uint64{0, 0, 60}[k.R.IntN(3)]
	var ctr atomic.Uint64
	s0 := k.R.Uint64()
	for _, nd := range c.Nodes {
		nd.SetHook(func(ev *Ev) Act {
			calls.Add(1)
			x := mix(s0, ctr.Add(1))
			a := Act{}
			if x%4 == 0 {
				a.Delay = d
			}
			if mix(x, 1)%1000 < cutP {
				a.CutReply = true
			}
			if mix(x, 2)%1000 < cutP {
				a.CutReq = true
			}
			return a
		})
	}
	type op struct {
		name string
		f    func()
	}
	node := func() string { return c.Nodes[k.R.IntN(nn)].Addr }
	targets := func() (a []string) {
		for _, n := range c.Nodes {
			if k.R.IntN(4) > 0 {
				a = append(a, n.Addr)
			}
		}
		if k.R.IntN(4) == 0 {
			a = append(a, dead)
		}
		if len(a) > 0 && k.R.IntN(4) == 0 {
			a = append(a, a[0])
		}
		return
	}
	limits := []int{1, 5, 1000, math.MaxInt}
	mk := func() op {
		to, ns := node(), c.NS
		cl := kmrpc.KMeansClient(to, ns, nil)
		who := c.nameOf(to)
		v := c.VG.Vec()
		switch x := k.R.IntN(24); {
		case x < 7:
			from, l := node(), limits[k.R.IntN(len(limits))]
			return op{fmt.Sprintf("%s steals %d from %s", who, l, c.nameOf(from)), func() { cl.StealCentroids(from, l) }}
		case x < 12:
			t, n := targets(), limits[k.R.IntN(len(limits))]
			return op{fmt.Sprintf("%s distributes %d fast to %d", who, n, len(t)), func() { cl.DistributeDataPointsFast(t, n) }}
		case x < 17:
			t, n := targets(), []int{1, 5, 20}[k.R.IntN(3)]
			return op{fmt.Sprintf("%s distributes %d accurately to %d", who, n, len(t)), func() { cl.DistributeDataPointsAccurate(t, n) }}
		case x < 18:
			n := limits[k.R.IntN(len(limits))]
			return op{who + " internal", func() { cl.DistributeDataPointsInternal(n) }}
		case x < 19:
			return op{who + " split", func() { cl.SplitCentroids(-1, math.MaxInt) }}
		case x < 20:
			return op{who + " merge", func() { cl.MergeCentroids(-1, math.MaxInt) }}
		case x < 21:
			return op{who + " meta", func() { cl.Meta(); cl.Namespaces() }}
		case x < 22:
			n, dr := limits[k.R.IntN(len(limits))], k.R.IntN(4) == 0
			return op{who + " lookup", func() { cl.KNNLookup(v, n, dr) }}
		case x < 23:
			return op{who + " trim", func() { cl.MemTrim(); cl.Expire() }}
		default:
			kind, ad := kinds3[k.R.IntN(3)], c.addrs()
			dp := c.Reg.New(k.R, v, "plain")
			return op{"put " + kind, func() {
				(&Cluster{K: k, Cfg: cfg, NS: ns}).putQuiet(kind, ad, dp)
				(&Cluster{K: k, Cfg: cfg, NS: ns}).getQuiet(kind, ad, v, 5, false)
			}}
		}
	}
	ng := 2 + k.R.IntN(7)
	var plan [][]op
	for i := 0; i < ng; i++ {
		var l []op
		for j := 1 + k.R.IntN(3); j > 0; j-- {
			l = append(l, mk())
		}
		plan = append(plan, l)
	}
	if nn > 1 && k.R.IntN(2) == 0 { // a circle for certain
		a := k.R.IntN(4)
		for i, n := range c.Nodes {
			next := c.Nodes[(i+1)%nn].Addr
			cl := kmrpc.KMeansClient(n.Addr, c.NS, nil)
			f := []func(){func() { cl.StealCentroids(next, 1000) }, func() { cl.DistributeDataPointsFast([]string{next}, 1000) }, func() { cl.DistributeDataPointsAccurate([]string{next}, 20) }}
			plan = append(plan, []op{{fmt.Sprintf("circle %d/%d", a, i), f[(a+i*(a/3))%3]}})
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var maxIn atomic.Int64
	for gi, l := range plan {
		for _, o := range l {
			k.Op("g%d: %s", gi, o.name)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range l {
				n := inside.Add(1)
				for m := maxIn.Load(); n > m && !maxIn.CompareAndSwap(m, n); m = maxIn.Load() {
				}
				o.f()
				inside.Add(-1)
				opsDone.Add(1)
			}
		}()
	}
	slowOn.Store(true)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(start)
	awaitProgress(k, done, func() int64 { return calls.Load() + opsDone.Load() }, 400000, "operations between nodes")
	slowOn.Store(false)
	for _, nd := range c.Nodes {
		nd.SetHook(nil)
	}
	// nothing is left locked
	after := make(chan struct{})
	go func() {
		defer close(after)
		for _, nd := range c.Nodes {
			cl := kmrpc.KMeansClient(nd.Addr, c.NS, nil)
			cl.LenDP()
			cl.KNNLookup(make([]float64, c.VG.Dim), 3, false)
			cl.MoveVector()
			kmrpc.KMeansClient(nd.Addr, "another", nil).AddDataPoint(DP{Vec: []float64{1}})
			calls.Add(1)
		}
	}()
	awaitProgress(k, after, calls.Load, 1<<40, "ordinary operations after those between nodes")
	k.Count("operations_between_nodes_ended", opsDone.Load())
	k.Count("remote_calls", calls.Load())
	k.Max("operations_at_the_same_time", maxIn.Load())
	var names []string
	for _, l := range plan {
		for _, o := range l {
			names = append(names, o.name)
		}
	}
	if maxIn.Load() > 1 {
		k.Sig(strings.Join(names, ";"))
	}
	k.Sample("cross", 3, map[string]any{"nodes": nn, "points": per, "operations": names, "remote_calls": calls.Load(), "at_once": maxIn.Load()})
}

// waitCase: while a node's operation waits for another node, the node serves.
func waitCase(k *K) {
	cfg := pickCfg(k)
	c := newCluster(k, 2, cfg, pickNS(k), []string{"gauss", "positive"}[k.R.IntN(2)], 1+k.R.IntN(4))
	defer c.Close()
	for _, st := range c.St {
		for i := 0; i < 6+k.R.IntN(10); i++ {
			st.B.Add(c.Reg.New(k.R, c.VG.Vec(), "plain"))
		}
	}
	a, b := c.Nodes[0], c.Nodes[1]
	w := kmrpc.KMeansClient(a.Addr, c.NS, nil) // the one that waits
	ops := []struct {
		name  string
		meths []string
		f     func()
	}{
		{"fast redistribution", []string{"Vec", "AddDataPoint"}, func() { w.DistributeDataPointsFast([]string{b.Addr}, 3) }},
		{"accurate redistribution", []string{"NearestCentroidVec", "AddDataPoint"}, func() { w.DistributeDataPointsAccurate([]string{b.Addr}, 3) }},
		{"steal", []string{"NearestCentroids", "LenDP"}, func() { w.StealCentroids(b.Addr, 4) }},
	}
	o := ops[k.R.IntN(len(ops))]
	meth := o.meths[k.R.IntN(len(o.meths))]
	rel := make(chan struct{})
	var once sync.Once
	release := func() { once.Do(func() { close(rel) }) }
	defer release()
	hung := make(chan struct{})
	var hOnce sync.Once
	b.SetHook(func(ev *Ev) Act {
		if ev.Method == meth {
			hOnce.Do(func() { close(hung) })
			<-rel
		}
		return Act{}
	})
	done := make(chan struct{})
	go func() { defer close(done); o.f() }()
	select {
	case <-hung:
	case <-done:
		k.Count("did_not_call", 1) // e.g. all points were accepted without that call
		return
	case <-time.After(termQuiet):
		k.Fail("%s neither ended nor called %s on the other node", o.name, meth)
	}
	// the same namespace, and one that does not exist
	var names []string
	for i := 1 + k.R.IntN(5); i > 0; i-- {
		var f func()
		cl := kmrpc.KMeansClient(a.Addr, c.NS, nil)
		v := c.VG.Vec()
		dp := c.Reg.New(k.R, v, "plain")
		x := k.R.IntN(9)
		names = append(names, []string{"insert", "lookup", "drain", "count", "vector", "split", "trim", "metadata", "nearest"}[x])
		f = []func(){
			func() { cl.AddDataPoint(dp) }, func() { cl.KNNLookup(v, 3, false) }, func() { cl.DrainUnordered(1) },
			func() { cl.LenDP() }, func() { cl.Vec() }, func() { cl.SplitCentroids(1, 100) },
			func() { cl.MemTrim() }, func() { cl.Meta() }, func() { cl.NearestCentroids(v, 1, false) }}[x]
		fin := make(chan struct{})
		go func() { defer close(fin); f() }()
		select {
		case <-fin:
		case <-time.After(termQuiet):
			k.Fail("%s on a node has not ended in %v; its %s of the same namespace waits for %s on another node\n%s", names[len(names)-1], termQuiet, o.name, meth, trypoStacks())
		}
		k.Beat()
	}
	release()
	select {
	case <-done:
	case <-time.After(termQuiet):
		k.Fail("%s has not ended %v after the other node answered\n%s", o.name, termQuiet, trypoStacks())
	}
	k.Count("operations_beside_a_waiting_one", int64(len(names)))
	k.Sig(fmt.Sprint(o.name, meth, names))
}

// endlessCase: operations with limits beyond everything, one after the other.
func endlessCase(k *K) {
	st := newStore(k, storeOpts{})
	defer st.B.Close()
	huge := []int{math.MaxInt, math.MaxInt - 1, 1 << 40, 1 << 31, 1000000, 0, -1, math.MinInt}
	n := func() int { return huge[k.R.IntN(len(huge))] }
	shape := snapB(st.B).shape()
	var names []string
	for i := 3 + k.R.IntN(10); i > 0; i-- {
		v := st.VG.Vec()
		var f func()
		name, a, b := "", n(), n()
		dr := k.R.IntN(2) == 0
		dp := st.newDP("plain")
		switch k.R.IntN(11) {
		case 0:
			name, f = "lookup", func() { st.B.KNN(v, a, dr) }
		case 1:
			name, f = "drain", func() { st.B.DrainU(a) }
		case 2:
			name, f = "ordered drain", func() { st.B.DrainO(a) }
		case 3, 4:
			name, f = "internal redistribution", func() { st.B.DistInternal(a) }
		case 5:
			name, f = "split", func() { st.B.Split(a, b) }
		case 6:
			name, f = "merge", func() { st.B.Merge(a, b) }
		case 7:
			name, f = "nearest centroids", func() { st.B.NearestC(v, a, dr) }
		case 8:
			name, f = "trim", func() { st.B.MemTrim(); st.B.Expire(); st.B.MoveVector() }
		default:
			name, f = "insert", func() { st.B.Add(dp) }
		}
		if k.R.IntN(4) == 0 {
			st.flipExpired(k.R.Float64())
		}
		k.Op("%s %d %d", name, a, b)
		names = append(names, name)
		fin := make(chan struct{})
		var pan any
		go func() {
			defer close(fin)
			defer func() { pan = recover() }()
			f()
		}()
		select {
		case <-fin:
			if pan != nil {
				k.Fail("%s (%d, %d) panicked: %v", name, a, b, pan)
			}
		case <-time.After(termQuiet):
			k.Fail("%s (%d, %d) has not ended in %v\n%s", name, a, b, termQuiet, trypoStacks())
		}
	}
	k.Count("operations_without_bounds", int64(len(names)))
	k.Sig(shape + strings.Join(names, ";"))
}

// loopsProgressCase: event loops of several nodes beside clients; each loop goes on.
func loopsProgressCase(k *K) {
	cfg := newCfg(mCos, []int{0, 3, 8}[k.R.IntN(3)], 0)
	nn := 1 + k.R.IntN(4)
	c := newCluster(k, nn, cfg, pickNS(k), "gauss", 3)
	defer c.Close()
	for _, st := range c.St {
		for i := k.R.IntN(30); i > 0; i-- {
			st.B.Add(c.Reg.New(k.R, c.VG.Vec(), "live"))
		}
	}
	all := c.addrs()
	if k.R.IntN(3) == 0 {
		all = append(all, addrOf(deadAddr()))
	}
	var calls atomic.Int64
	for _, nd := range c.Nodes {
		nd.SetHook(func(ev *Ev) Act { calls.Add(1); return Act{} })
	}
	ls := newLoopSet(k)
	want := int64(4 + k.R.IntN(5))
	var iters []*atomic.Int64
	for i := range c.Nodes {
		for x := 0; x < 1+k.R.IntN(2); x++ {
			it := &atomic.Int64{}
			iters = append(iters, it)
			ec := busyLoop(c.Nodes[i].A(), all, &memLogger{onM: func(eventloop.MetaData) { it.Add(1) }}, k.R)
			ec.TaskSkip.Meta = 1
			ls.start(ec)
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var ops atomic.Int64
	for ci := 0; ci < 2; ci++ {
		seed := k.R.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 1))
			for {
				select {
				case <-stop:
					return
				default:
				}
				cl := kmrpc.KMeansClient(c.Nodes[r.IntN(nn)].Addr, c.NS, nil)
				v := []float64{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
				switch r.IntN(4) {
				case 0:
					if ops.Load() < 400 {
						cl.AddDataPoint(DP{Vec: v, Payload: []byte("12345678")})
					}
				case 1:
					cl.KNNLookup(v, 5, r.IntN(2) == 0)
				case 2:
					cl.StealCentroids(c.Nodes[r.IntN(nn)].Addr, 3)
				default:
					cl.LenDP()
				}
				ops.Add(1)
				time.Sleep(time.Millisecond)
			}
		}()
	}
	low := func() int64 {
		m := int64(math.MaxInt64)
		for _, it := range iters {
			m = min(m, it.Load())
		}
		return m
	}
	// each loop is watched on its own: one that stands still while others go on is stuck, too
	last, at := make([]int64, len(iters)), make([]time.Time, len(iters))
	for i := range at {
		at[i] = time.Now()
	}
	for low() < want {
		time.Sleep(5 * time.Millisecond)
		k.Beat()
		for i, it := range iters {
			if x := it.Load(); x != last[i] || x >= want {
				last[i], at[i] = x, time.Now()
			}
			if time.Since(at[i]) > 2*termQuiet {
				k.Fail("event loop %d has made no further pass for %v (others: %d passes at least)\n%s", i, 2*termQuiet, low(), trypoStacks())
			}
		}
	}
	close(stop)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	awaitProgress(k, done, func() int64 { return calls.Load() + ops.Load() }, 1<<40, "client operations beside event loops")
	ls.stop()
	var total int64
	for _, it := range iters {
		total += it.Load()
	}
	k.Count("event_loop_passes", total)
	k.Count("client_operations_beside_loops", ops.Load())
	k.Sig(fmt.Sprint("loops", nn, len(iters), total, k.Idx))
}

func init() {
	reg(&Prop{ID: "C32", Level: "exploration", Min: 150, Stall: 120 * time.Second,
		Assume: []string{"peers answer or hang up; an operation counts as stuck when no call and no operation happened for 25 s"},
		Rule:   "redistributions, steals, lookups, puts of 1-4 nodes among each other at the same time (circles, to themselves, repeated and dead addresses, cut connections, slow search functions, limits up to the largest integer); operations on a node whose operation on the same namespace is held waiting for another node; single operations without bounds; event loops beside clients; distinct by plan (and more than one operation at a time)",
		Run: func(r *Run) {
			r.Cases("circles", r.N(600, 10000), 8, crossCase)
			r.Cases("beside", r.N(150, 3000), 16, waitCase)
			r.Cases("unbounded", r.N(400, 20000), 8, endlessCase)
			r.Cases("loops", r.N(60, 600), 4, loopsProgressCase)
		}})
}
