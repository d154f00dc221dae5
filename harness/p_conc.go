package main

// C16: conservation of points in a cluster under concurrent rebalancing.

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// ledger is what the clients of a case know.
type ledger struct {
	mu      sync.Mutex
	reg     *Reg
	ns      map[uint64]string
	acked   map[uint64]bool
	refused map[uint64]bool
	drained map[uint64]int
}

func (l *ledger) fresh(r *rand.Rand, ns string, v []float64) DP {
	l.mu.Lock()
	defer l.mu.Unlock()
	class := "live"
	if r.IntN(15) == 0 {
		class = "expired"
	}
	dp := l.reg.New(r, v, class)
	if r.IntN(12) == 0 { // expires while the case runs
		id := idOf(dp)
		o := l.reg.dps[id]
		o.ExpireEnabled, o.Expires = true, time.Now().Add(time.Duration(r.IntN(60))*time.Millisecond)
		l.reg.dps[id] = o
		dp.ExpireEnabled, dp.Expires = true, o.Expires
	}
	l.ns[idOf(dp)] = ns
	return dp
}

func (l *ledger) result(id uint64, ok bool) {
	l.mu.Lock()
	if ok {
		l.acked[id] = true
	} else {
		l.refused[id] = true
	}
	l.mu.Unlock()
}

func (l *ledger) took(k *K, ns string, dps []DP) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, d := range dps {
		if e := l.reg.same(d); e != "" {
			k.Report("a drain returned an altered point: %s", e)
		}
		id := idOf(d)
		if l.ns[id] != ns {
			k.Report("a drain of namespace %.20q returned a point of namespace %.20q", ns, l.ns[id])
		}
		l.drained[id]++
	}
}

// read checks content only.
func (l *ledger) read(k *K, ns string, dps []DP) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, d := range dps {
		if e := l.reg.same(d); e != "" {
			k.Report("a query returned an altered point: %s", e)
		} else if l.ns[idOf(d)] != ns {
			k.Report("a query of namespace %.20q returned a point of namespace %.20q", ns, l.ns[idOf(d)])
		}
	}
}

func concCase(loops bool) func(*K) {
	return func(k *K) {
		metric := mCos
		if k.R.IntN(4) == 0 {
			metric = mEuc
		}
		cfg := newCfg(metric, []int{0, 2, 3, 5, 8, 20}[k.R.IntN(6)], k.R.IntN(5))
		nn := 2 + k.R.IntN(4)
		nss := []string{pickNS(k), "other"}[:1+k.R.IntN(2)]
		if len(nss) == 2 && nss[0] == nss[1] {
			nss = nss[:1]
		}
		c := newCluster(k, nn, cfg, nss[0], []string{"gauss", "clusters", "positive", "axis", "mixed"}[k.R.IntN(5)], 0)
		defer c.Close()
		dim := c.VG.Dim
		l := &ledger{reg: c.Reg, ns: map[uint64]string{}, acked: map[uint64]bool{}, refused: map[uint64]bool{}, drained: map[uint64]int{}}
		// a node that refuses connections, and an address nothing listens on
		ref := newNode(cfg)
		ref.refuse.Store(true)
		defer ref.Close()
		dead := deadAddr()
		for _, nd := range c.Nodes {
			for _, ns := range nss {
				if k.R.IntN(4) == 0 {
					continue
				}
				for i := logInt(k.R, 40); i > 0; i-- {
					dp := l.fresh(k.R, ns, c.VG.Vec())
					l.result(idOf(dp), kmrpc.KMeansClient(nd.Addr, ns, nil).AddDataPoint(dp))
				}
			}
		}
		// delays at the nodes
		prob := []uint64{0, 0, 20, 100, 400}[k.R.IntN(5)]
		maxD := []uint64{200, 1000, 3000}[k.R.IntN(3)]
		var ctr atomic.Uint64
		s0 := k.R.Uint64()
		var inflight, maxIn atomic.Int64
		for _, nd := range c.Nodes {
			nd.SetHook(func(ev *Ev) Act {
				x := mix(s0, ctr.Add(1))
				n := inflight.Add(1)
				for m := maxIn.Load(); n > m && !maxIn.CompareAndSwap(m, n); m = maxIn.Load() {
				}
				var a Act
				if x%1000 < prob {
					a.Delay = time.Duration(mix(x, 1)%maxD) * time.Microsecond
				}
				if mix(x, 2)%1000 < prob {
					a.ReplyDelay = time.Duration(mix(x, 3)%maxD) * time.Microsecond
				}
				return a
			})
			nd.SetOnDone(func(ev *Ev) { inflight.Add(-1) })
		}
		ls := newLoopSet(k)
		if loops {
			all := c.addrs()
			if k.R.IntN(2) == 0 {
				all = append(all, addrOf(dead))
			}
			if k.R.IntN(3) == 0 {
				all = append(all, ref.A())
			}
			if k.R.IntN(3) == 0 {
				all = append(all, all[k.R.IntN(len(all))])
			}
			for i := range c.Nodes {
				for x := 0; x < 1+k.R.IntN(2); x++ {
					ec := busyLoop(c.Nodes[i].A(), all, &memLogger{}, k.R)
					ec.SplitCentroidsMin = 2 + k.R.IntN(6)
					ls.start(ec)
				}
			}
		}
		nc := 2 + k.R.IntN(5)
		nops := 8 + k.R.IntN(25)
		if loops {
			nops = 15 + k.R.IntN(40)
		}
		var wg sync.WaitGroup
		seeds := make([]uint64, nc)
		for i := range seeds {
			seeds[i] = k.R.Uint64()
		}
		start := time.Now()
		for ci := 0; ci < nc; ci++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seeds[ci], 5))
				vg := newVG(r, dim, []string{"gauss", "clusters", "positive", "axis"}[r.IntN(4)])
				pl := func() []string {
					var a []string
					for _, n := range c.Nodes {
						if r.IntN(5) > 0 {
							a = append(a, n.Addr)
						}
					}
					if r.IntN(4) == 0 {
						a = append(a, dead)
					}
					if r.IntN(6) == 0 {
						a = append(a, ref.Addr)
					}
					if len(a) > 0 && r.IntN(4) == 0 {
						a = append(a, a[r.IntN(len(a))])
					}
					if r.IntN(15) == 0 {
						a = nil
					}
					r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
					return a
				}
				toA := func(s []string) (r []Addr) {
					for _, x := range s {
						r = append(r, addrOf(x))
					}
					return
				}
				for i := 0; i < nops; i++ {
					ns := nss[r.IntN(len(nss))]
					cc := &Cluster{K: k, Cfg: cfg, NS: ns}
					nd := c.Nodes[r.IntN(nn)]
					var err error
					cl := kmrpc.KMeansClient(nd.Addr, ns, &err)
					cl.CentroidFactory = cfg.newCentroid
					op := r.IntN(30)
					k.Beat()
					switch {
					case op < 5:
						dp := l.fresh(r, ns, vg.Vec())
						ok := cl.AddDataPoint(dp)
						l.result(idOf(dp), ok)
						k.Op("c%d add %s to %s in %.10q: %v", ci, sid(idOf(dp)), c.nameOf(nd.Addr), ns, ok)
					case op < 9:
						dp := l.fresh(r, ns, vg.Vec())
						kind := kinds3[r.IntN(3)]
						ok := cc.putQuiet(kind, toA(pl()), dp)
						l.result(idOf(dp), ok)
						k.Op("c%d put %s %s in %.10q: %v", ci, kind, sid(idOf(dp)), ns, ok)
					case op < 10:
						l.took(k, ns, cl.KNNLookup(vg.Vec(), 1+r.IntN(4), true))
					case op < 11:
						l.took(k, ns, cl.DrainUnordered(1+r.IntN(3)))
					case op < 12:
						l.took(k, ns, cl.DrainOrdered(1+r.IntN(3)))
					case op < 13:
						if r.IntN(4) == 0 {
							cs, _ := cl.NearestCentroids(vg.Vec(), 1, true)
							l.took(k, ns, centroidsDPs(cs))
						} else {
							cs, _ := cl.NearestCentroids(vg.Vec(), 2, false)
							l.read(k, ns, centroidsDPs(cs))
						}
					case op < 15:
						kind := kinds3[r.IntN(3)]
						drain := r.IntN(2) == 0
						out := cc.getQuiet(kind, toA(pl()), vg.Vec(), 1+r.IntN(6), drain)
						if drain {
							l.took(k, ns, out)
						} else {
							l.read(k, ns, out)
						}
						k.Op("c%d get %s drain %v: %d", ci, kind, drain, len(out))
					case op < 18:
						a, n := pl(), 1+r.IntN(12)
						cl.DistributeDataPointsFast(a, n)
						k.Op("c%d distribute fast %d from %s to %d addresses (%v)", ci, n, c.nameOf(nd.Addr), len(a), err)
					case op < 21:
						a, n := pl(), 1+r.IntN(6)
						cl.DistributeDataPointsAccurate(a, n)
						k.Op("c%d distribute accurate %d from %s to %d addresses (%v)", ci, n, c.nameOf(nd.Addr), len(a), err)
					case op < 24:
						from := c.Nodes[r.IntN(nn)].Addr
						if r.IntN(12) == 0 {
							from = dead
						}
						n, ok := cl.StealCentroids(from, 1+r.IntN(15))
						k.Op("c%d steal %s from %s: %d %v (%v)", ci, c.nameOf(nd.Addr), c.nameOf(from), n, ok, err)
					case op < 25:
						cl.DistributeDataPointsInternal(1 + r.IntN(8))
					case op < 26:
						cl.SplitCentroids(1+r.IntN(5), 1000)
					case op < 27:
						cl.MergeCentroids(-1, 1+r.IntN(6))
					case op < 28:
						cl.MemTrim()
					case op < 29:
						cl.Expire()
					default:
						cl.MoveVector()
						l.read(k, ns, cl.KNNLookup(vg.Vec(), 3, false))
					}
				}
			}()
		}
		wg.Wait()
		if loops { // let the loops run on their own for a while
			if d := 30*time.Millisecond - time.Since(start); d > 0 {
				time.Sleep(d)
			}
			time.Sleep(time.Duration(k.R.IntN(60)) * time.Millisecond)
			ls.stop()
		}
		for _, nd := range c.Nodes {
			nd.SetHook(nil)
			nd.SetOnDone(nil)
		}
		// the final account
		at := time.Now()
		stored := map[uint64][]string{}
		shape := ""
		for i, nd := range c.Nodes {
			for _, ns := range nss {
				s := snapB(&clientB{node: nd, ns: ns})
				shape += s.shape() + "|"
				for _, x := range s.Cs {
					for j, id := range x.IDs {
						stored[id] = append(stored[id], fmt.Sprintf("node %d", i))
						if e := c.Reg.same(x.DPs[j]); e != "" {
							k.Fail("at rest, node %d stores an altered point: %s", i, e)
						}
						if l.ns[id] != ns {
							k.Fail("at rest, node %d stores in namespace %.20q a point of %.20q", i, ns, l.ns[id])
						}
					}
				}
			}
			for _, ns := range nd.Srv.Table.Namespaces() {
				known := false
				for _, x := range nss {
					known = known || x == ns
				}
				if !known {
					k.Fail("at rest, node %d has a namespace %.20q nobody used", i, ns)
				}
			}
		}
		lost := 0
		for id := range l.acked {
			n := len(stored[id]) + l.drained[id]
			dp := c.Reg.dps[id]
			expired := dp.ExpireEnabled && dp.Expires.Before(at)
			switch {
			case n > 1:
				k.Fail("at rest, %s was stored once but exists %d times: stored on %v, returned by %d drains", sid(id), n, stored[id], l.drained[id])
			case n == 0 && !expired:
				lost++
				k.Fail("at rest, %s (acknowledged, unexpired) is on no node and was returned by no drain", sid(id))
			}
			k.Count("acknowledged_points_accounted", 1)
		}
		for id := range l.refused {
			if len(stored[id])+l.drained[id] > 0 {
				k.Fail("at rest, %s exists (%v) although its insert was reported as failed", sid(id), stored[id])
			}
		}
		for id := range stored {
			if !l.acked[id] {
				k.Fail("at rest, %s is stored but nobody inserted it", sid(id))
			}
		}
		calls := int64(0)
		for _, nd := range c.Nodes {
			calls += nd.calls.Load()
		}
		k.Count("remote_calls", calls)
		k.Max("most_calls_in_flight", maxIn.Load())
		k.Sig(fmt.Sprint(loops, shape, len(l.acked), len(l.drained)))
		k.Sample(fmt.Sprint("loops=", loops), 1, map[string]any{"nodes": nn, "acked": len(l.acked), "drained": len(l.drained), "calls": calls, "final": string(trunc([]byte(shape), 300)), "ops": tail(k.Ops(), 8)})
	}
}

var _ = eventloop.EventLoopConfig{}

func init() {
	reg(&Prop{ID: "C16", Level: "exploration", Min: 100,
		Assume: []string{"no fault is injected here (see C17); replies are only delayed"},
		Rule:   "2-6 concurrent clients (and event loops on every node) on 2-5 nodes with delayed requests and replies; the account of every acknowledged point at rest; distinct by final placement",
		Run: func(r *Run) {
			r.Cases("clients", r.N(700, 12000), 8, concCase(false))
			r.Cases("equal", r.N(300, 6000), 8, twinCluster)
			r.Cases("loops", r.N(150, 3000), 4, concCase(true))
		}})
}
