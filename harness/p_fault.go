package main

// C17: no data loss when remote calls of a redistribution or a steal fail.

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
)

// faultPt names one remote call of a scenario and what goes wrong with it.
type faultPt struct {
	node int
	meth string
	nth  int
	kind string
}

func (f faultPt) String() string {
	if f.kind == "" {
		return fmt.Sprintf("%s/%d at node %d", f.meth, f.nth, f.node)
	}
	return fmt.Sprintf("%s of call %d of %s at node %d", f.kind, f.nth, f.meth, f.node)
}

// kinds of faults of a single call
var faultKinds = []string{"request lost", "reply lost", "reply truncated", "refusing from here on", "down from here on"}

func actOf(kind string) Act {
	switch kind {
	case "request lost":
		return Act{CutReq: true}
	case "reply lost":
		return Act{CutReply: true}
	case "reply truncated":
		return Act{PartReply: true}
	}
	return Act{}
}

// stealDrain: a NearestCentroids call that drains.
func stealDrain(ev *Ev) bool {
	switch a := ev.Args.(type) {
	case *kmrpc.NearestCentroidArgs:
		return a.Drain
	case kmrpc.NearestCentroidArgs:
		return a.Drain
	}
	return false
}

// cutIDs: points in the reply of a draining NearestCentroids call.
func replyIDs(ev *Ev) (ids []uint64) {
	if p, ok := ev.Reply.(*[]*Centroid); ok {
		for _, c := range *p {
			if c != nil {
				for _, d := range c.DataPoints {
					ids = append(ids, idOf(d))
				}
			}
		}
	}
	return
}

type fOp struct {
	kind  string // fast, accurate, steal
	src   int
	from  int // steal
	addrs []int
	n     int
}

type fScen struct {
	k     *K
	c     *Cluster
	stub  *stubNode
	stubN *Node
	op    fOp
	reg   *Reg
	acked map[uint64]int
	dead  string
	cut   map[uint64]bool // in a lost reply of a draining NearestCentroids call
	cutMu sync.Mutex
}

// build makes the scenario of a seed: always the same data, nodes and operation.
func buildScen(k *K, seed uint64) *fScen {
	r := rand.New(rand.NewPCG(seed, 11))
	kk := &K{Run: k.Run, Part: k.Part, Idx: k.Idx, R: r}
	metric := mCos
	if r.IntN(5) == 0 {
		metric = mEuc
	}
	cfg := newCfg(metric, []int{0, 3, 6}[r.IntN(3)], 0)
	c := newCluster(kk, 2+r.IntN(3), cfg, "ns", []string{"gauss", "clusters", "positive"}[r.IntN(3)], 0)
	s := &fScen{k: k, c: c, acked: map[uint64]int{}, cut: map[uint64]bool{}, dead: deadAddr()}
	for i, st := range c.St {
		if i > 0 && r.IntN(8) == 0 {
			continue // namespace unknown there
		}
		if i > 0 && r.IntN(10) == 0 {
			// another dimension: refuses the points
			v := make([]float64, c.VG.Dim+1)
			v[0] = 1
			st.B.Add(c.Reg.New(r, v, "live"))
			continue
		}
		sz := []int{}
		for j := 0; j < 1+r.IntN(4); j++ {
			sz = append(sz, r.IntN(6))
		}
		if i == 0 {
			sz[0] += 2
		}
		st.populate(sz, false)
	}
	s.stub = &stubNode{vec: c.VG.Vec()}
	s.stub.accept.Store(r.IntN(2) == 0)
	s.stubN = newStub(s.stub)
	o := fOp{kind: []string{"fast", "accurate", "steal"}[r.IntN(3)]}
	switch o.kind {
	case "steal":
		o.from = 0
		o.src = 1 + r.IntN(len(c.Nodes)-1)
		if r.IntN(8) == 0 {
			o.src = 0
		}
		o.n = 1 + r.IntN(12)
	default:
		for i := range c.Nodes {
			if i > 0 || r.IntN(3) == 0 {
				o.addrs = append(o.addrs, i)
			}
		}
		if r.IntN(3) == 0 {
			o.addrs = append(o.addrs, -1)
		}
		if r.IntN(3) == 0 {
			o.addrs = append(o.addrs, -2)
		}
		if r.IntN(4) == 0 {
			o.addrs = append(o.addrs, o.addrs[r.IntN(len(o.addrs))])
		}
		r.Shuffle(len(o.addrs), func(i, j int) { o.addrs[i], o.addrs[j] = o.addrs[j], o.addrs[i] })
		o.n = 1 + r.IntN(7)
	}
	s.op = o
	for i, n := range s.c.snap().N {
		_ = i
		for id, x := range n.ids() {
			s.acked[id] += x
		}
	}
	return s
}

func (s *fScen) close() { s.c.Close(); s.stubN.Close() }

func (s *fScen) nodes() []*Node { return append(append([]*Node{}, s.c.Nodes...), s.stubN) }

func (s *fScen) run() error {
	o := s.op
	var err error
	cl := kmrpc.KMeansClient(s.c.Nodes[o.src].Addr, "ns", &err)
	switch o.kind {
	case "steal":
		cl.StealCentroids(s.c.Nodes[o.from].Addr, o.n)
	default:
		var a []string
		for _, i := range o.addrs {
			switch i {
			case -1:
				a = append(a, s.stubN.Addr)
			case -2:
				a = append(a, s.dead)
			default:
				a = append(a, s.c.Nodes[i].Addr)
			}
		}
		if o.kind == "fast" {
			kmrpc.KMeansClient(s.c.Nodes[0].Addr, "ns", &err).DistributeDataPointsFast(a, o.n)
		} else {
			kmrpc.KMeansClient(s.c.Nodes[0].Addr, "ns", &err).DistributeDataPointsAccurate(a, o.n)
		}
	}
	return err
}

// inject installs the faults; trig counts the ones that happened.
func (s *fScen) inject(fs []faultPt) (trig *atomic.Int64) {
	trig = &atomic.Int64{}
	for i, nd := range s.nodes() {
		var mu sync.Mutex
		seen := map[string]int{}
		nd.SetHook(func(ev *Ev) Act {
			mu.Lock()
			seen[ev.Method]++
			n := seen[ev.Method]
			mu.Unlock()
			for _, f := range fs {
				if f.node != i || f.meth != ev.Method || f.nth != n {
					continue
				}
				trig.Add(1)
				switch f.kind {
				case "refusing from here on":
					nd.refuse.Store(true)
				case "down from here on":
					nd.refuse.Store(true)
					nd.Down()
					return Act{CutReq: true}
				}
				return actOf(f.kind)
			}
			return Act{}
		})
		nd.SetOnDone(s.onDone)
	}
	return
}

func (s *fScen) onDone(ev *Ev) {
	if ev.Cut != "reply" || ev.Method != "NearestCentroids" || !stealDrain(ev) {
		return
	}
	s.cutMu.Lock()
	for _, id := range replyIDs(ev) {
		s.cut[id] = true
	}
	s.cutMu.Unlock()
}

// dryRun lists the remote calls of the scenario.
func dryRun(k *K, seed uint64) (pts []faultPt, o fOp, nn int) {
	s := buildScen(k, seed)
	defer s.close()
	var mu sync.Mutex
	for i, nd := range s.nodes() {
		seen := map[string]int{}
		nd.SetHook(func(ev *Ev) Act {
			mu.Lock()
			seen[ev.Method]++
			pts = append(pts, faultPt{node: i, meth: ev.Method, nth: seen[ev.Method]})
			mu.Unlock()
			return Act{}
		})
	}
	s.run()
	for _, nd := range s.nodes() {
		nd.SetHook(nil)
	}
	s.judge("without faults")
	sort.Slice(pts, func(i, j int) bool {
		a, b := pts[i], pts[j]
		return fmt.Sprint(a.node, a.meth, a.nth+1000) < fmt.Sprint(b.node, b.meth, b.nth+1000)
	})
	return pts, s.op, len(s.c.Nodes)
}

// judge: every point acknowledged before is stored on a node afterwards.
func (s *fScen) judge(what string) {
	k := s.k
	// requests whose connection was cut may still be executing
	for i, nd := range s.c.Nodes {
		for t := 0; nd.busy.Load() > 0; t++ {
			if t > 3000 {
				k.Fail("node %d still executes requests a minute after all clients ended", i)
			}
			time.Sleep(time.Millisecond << min(t, 4))
		}
	}
	for _, nd := range s.nodes() {
		nd.SetHook(nil)
		nd.SetOnDone(nil)
	}
	now := s.c.snap().ids()
	s.cutMu.Lock()
	defer s.cutMu.Unlock()
	taken := s.stub.ids()
	var lost, known []uint64
	for id := range s.acked {
		if now[id] > 0 || taken[id] {
			continue
		}
		if s.cut[id] {
			known = append(known, id)
		} else {
			lost = append(lost, id)
		}
	}
	k.Count("points_accounted", int64(len(s.acked)))
	if len(lost) > 0 {
		k.Op("%s n=%d src=%d from=%d addrs=%v (-1: stub, -2: dead), %d nodes", s.op.kind, s.op.n, s.op.src, s.op.from, s.op.addrs, len(s.c.Nodes))
		k.Fail("%s, %s: %d acknowledged points are on no node any more: %s", s.op.kind, what, len(lost), sids(lost))
	}
	if len(known) > 0 {
		k.Count("known_finding_occurrences", 1)
		k.ReportKnown("steal-reply-cut", "a steal lost %d points", len(known))
	}
	for i, n := range s.c.snap().N {
		for _, x := range n.Cs {
			for _, d := range x.DPs {
				if e := s.c.Reg.same(d); e != "" {
					k.Fail("%s, %s: node %d stores an altered point: %s", s.op.kind, what, i, e)
				}
			}
		}
	}
}

func enumCase(k *K) {
	seed := k.R.Uint64()
	pts, op, nn := dryRun(k, seed)
	one := func(fs []faultPt, pre func(*fScen), what string) {
		s := buildScen(k, seed)
		defer s.close()
		trig := s.inject(fs)
		if pre != nil {
			pre(s)
		}
		s.run()
		s.judge(what)
		k.Count("faulted_runs", 1)
		k.Count("faults_injected", trig.Load())
		if pre == nil && trig.Load() == 0 {
			k.Count("faults_not_reached", 1)
		} else {
			k.Sig(fmt.Sprint(seed, what))
		}
		k.Beat()
	}
	for _, p := range pts {
		k.Count("call_sites:"+op.kind+":"+p.meth, 1)
		for _, kind := range faultKinds {
			p.kind = kind
			one([]faultPt{p}, nil, p.String())
		}
	}
	// nodes that are down, or refuse, from the beginning
	for m := 1; m < 1<<nn; m++ {
		for _, kind := range []string{"down", "refusing"} {
			one(nil, func(s *fScen) {
				for i, nd := range s.c.Nodes {
					if m>>i&1 == 1 && i != s.op.src {
						if kind == "down" {
							nd.Down()
						} else {
							nd.refuse.Store(true)
						}
					}
				}
			}, fmt.Sprintf("nodes %b %s", m, kind))
		}
	}
	// several faults at once
	for i := 0; i < k.N(10, 60) && len(pts) > 1; i++ {
		var fs []faultPt
		for j := 0; j < 2+k.R.IntN(3); j++ {
			p := pts[k.R.IntN(len(pts))]
			p.kind = faultKinds[k.R.IntN(len(faultKinds))]
			fs = append(fs, p)
		}
		one(fs, nil, fmt.Sprint(fs))
	}
	k.Sample(op.kind, 1, fmt.Sprintf("%s n=%d over %d nodes, addresses %v: %d remote calls %v", op.kind, op.n, nn, op.addrs, len(pts), pts[:min(len(pts), 8)]))
}

// chaosCase: concurrent clients (and event loops) while calls fail at random; nodes
// also go down and come back, in cases without steals.
func chaosCase(k *K) {
	cfg := newCfg([]Metric{mCos, mCos, mEuc}[k.R.IntN(3)], []int{0, 3, 8}[k.R.IntN(3)], 0)
	nn := 2 + k.R.IntN(4)
	c := newCluster(k, nn, cfg, pickNS(k), []string{"gauss", "clusters", "positive"}[k.R.IntN(3)], 0)
	defer c.Close()
	s := &fScen{k: k, c: c, acked: map[uint64]int{}, cut: map[uint64]bool{}, stub: &stubNode{vec: c.VG.Vec()}}
	s.stubN = newStub(s.stub)
	defer s.stubN.Close()
	steals := k.R.IntN(2) == 0
	loops := k.R.IntN(2) == 0
	for i, st := range c.St {
		if i == 0 || k.R.IntN(5) > 0 {
			st.populate(randSizes(k, 5, 10), false)
		}
	}
	for id, n := range c.snap().ids() {
		s.acked[id] += n
	}
	prob := []uint64{10, 50, 200}[k.R.IntN(3)]
	var ctr atomic.Uint64
	var faults atomic.Int64
	s0 := k.R.Uint64()
	for _, nd := range c.Nodes {
		nd.SetHook(func(ev *Ev) Act {
			x := mix(s0, ctr.Add(1))
			a := Act{}
			if x%1000 < prob {
				faults.Add(1)
				// the reply of an insert by a client is its acknowledgement: any may fail
				a = actOf(faultKinds[mix(x, 1)%3])
			}
			if mix(x, 4)%20 == 0 {
				a.Delay = time.Duration(mix(x, 5)%1000) * time.Microsecond
			}
			return a
		})
		nd.SetOnDone(s.onDone)
	}
	ls := newLoopSet(k)
	if loops {
		for i := range c.Nodes {
			ec := busyLoop(c.Nodes[i].A(), append(c.addrs(), addrOf(deadAddr())), &memLogger{}, k.R)
			if !steals {
				ec.TaskSkip.LoadBalancing = 2000
			}
			ls.start(ec)
		}
	}
	var done atomic.Bool
	var wg, bg sync.WaitGroup
	if !steals {
		bg.Add(1)
		br := rand.New(rand.NewPCG(k.R.Uint64(), 3))
		go func() {
			defer bg.Done()
			for !done.Load() {
				nd := c.Nodes[br.IntN(nn)]
				nd.Down()
				faults.Add(1)
				time.Sleep(time.Duration(br.IntN(3000)) * time.Microsecond)
				if !nd.Up() {
					k.Count("could_not_listen_again", 1)
				}
				time.Sleep(time.Duration(br.IntN(4000)) * time.Microsecond)
			}
		}()
	}
	var mu sync.Mutex
	for ci := 0; ci < 1+k.R.IntN(4); ci++ {
		r := rand.New(rand.NewPCG(k.R.Uint64(), 9))
		wg.Add(1)
		go func() {
			defer wg.Done()
			vg := newVG(r, c.VG.Dim, "gauss")
			for i := 0; i < 10+r.IntN(20); i++ {
				k.Beat()
				var err error
				j := r.IntN(nn)
				cl := kmrpc.KMeansClient(c.Nodes[j].Addr, c.NS, &err)
				a := c.strs()
				if r.IntN(3) == 0 {
					a = append(a, s.stubN.Addr)
				}
				r.Shuffle(len(a), func(x, y int) { a[x], a[y] = a[y], a[x] })
				a = a[:r.IntN(len(a))+1]
				switch op := r.IntN(10); {
				case op < 2:
					mu.Lock()
					dp := c.Reg.New(r, vg.Vec(), "live")
					mu.Unlock()
					if cl.AddDataPoint(dp) {
						mu.Lock()
						s.acked[idOf(dp)]++
						mu.Unlock()
					}
				case op < 5:
					cl.DistributeDataPointsFast(a, 1+r.IntN(8))
				case op < 7:
					cl.DistributeDataPointsAccurate(a, 1+r.IntN(5))
				case op < 9:
					if steals {
						cl.StealCentroids(c.Nodes[r.IntN(nn)].Addr, 1+r.IntN(8))
					}
				case op < 10:
					cl.DistributeDataPointsInternal(3)
					cl.MemTrim()
				}
			}
		}()
	}
	wg.Wait()
	ls.stop()
	done.Store(true)
	bg.Wait()
	s.op = fOp{kind: fmt.Sprintf("chaos (steals %v, loops %v)", steals, loops)}
	s.judge(fmt.Sprintf("%d faults", faults.Load()))
	k.Count("faults_injected", faults.Load())
	k.Count("chaos_runs", 1)
	k.Sig(fmt.Sprint("chaos", steals, loops, c.snap().shape(), faults.Load()))
}

func init() {
	reg(&Prop{ID: "C17", Level: "fault_enumeration", Min: 300,
		Assume: []string{"faults: a call's request lost, its reply lost or truncated, the node refusing or gone from that call on, or from the start; a node that loses its memory is not considered", "points in the lost reply of a draining NearestCentroids call of a steal are a listed finding"},
		Rule:   "scenarios (data, addresses, one redistribution or steal) derived from the seed; in each, every remote call observed in a fault-free run is made to fail in each of 5 ways, every subset of nodes is down or refusing, plus several faults at once; and concurrent chaos runs; distinct by (scenario, fault)",
		Run: func(r *Run) {
			r.Cases("enum", r.N(160, 2500), 8, enumCase)
			r.Cases("chaos", r.N(400, 8000), 6, chaosCase)
		}})
}
