package main

// C37: a node that takes its time.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"trypo/core/nodes"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// slowTwin: nodes whose data lie in clearly different directions; node 0 also holds
// points that belong to the others.
func slowTwin(k *K, seed, base uint64, n int, cfg cmCfg) (*Cluster, [][]float64) {
	r := rand.New(rand.NewPCG(seed, 7))
	c := &Cluster{K: k, Cfg: cfg, NS: "slow", Reg: newReg(), VG: newVG(r, n, "gauss")}
	c.Reg.base = base
	vec := func(dir int) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = r.NormFloat64() * 0.3
		}
		v[dir] += 20 + r.Float64()
		return v
	}
	for i := 0; i < n; i++ {
		st := c.addNode()
		st.B.Add(c.Reg.New(r, vec(i), "plain"))
		st.B.With(func(cm *CM) {
			for j := 1 + r.IntN(3); j > 0; j-- {
				x := cfg.newCentroid(vec(i))
				for p := 2 + r.IntN(5); p > 0; p-- {
					x.AddDataPoint(c.Reg.New(r, vec(i), "plain"))
				}
				if i == 0 && j == 1 {
					for d := 1; d < n; d++ {
						x.AddDataPoint(c.Reg.New(r, vec(d), "plain"))
					}
				}
				cm.Centroids = append(cm.Centroids, x)
			}
			cm.MoveVector()
		})
	}
	var qs [][]float64
	for i := 0; i < n; i++ {
		qs = append(qs, vec(i))
	}
	return c, qs
}

type slowOp struct {
	name string
	rand bool // where points end up, or which are found, is random
	f    func(c *Cluster, q []float64, target int, dp DP) string
}

func idList(ds []DP) string {
	var s []string
	for _, d := range ds {
		s = append(s, sid(idOf(d)))
	}
	return strings.Join(s, " ")
}

func slowOps() (ops []slowOp) {
	for _, kind := range kinds3 {
		ops = append(ops, slowOp{"put " + kind, kind == "rand", func(c *Cluster, q []float64, t int, dp DP) string {
			return fmt.Sprint(c.putQuiet(kind, c.addrs(), dp))
		}})
		for _, drain := range []bool{false, true} {
			for _, many := range []bool{false, true} {
				ops = append(ops, slowOp{fmt.Sprintf("get %s drain=%v many=%v", kind, drain, many), kind == "rand", func(c *Cluster, q []float64, t int, dp DP) string {
					n := 1 + t
					if many {
						n = 1000
					}
					out := c.getQuiet(kind, c.addrs(), q, n, drain)
					if kind == "rand" {
						return fmt.Sprint(len(out))
					}
					return idList(out)
				}})
			}
		}
	}
	for _, kind := range []string{"fast", "accurate"} {
		ops = append(ops, slowOp{"rank " + kind, false, func(c *Cluster, q []float64, t int, dp DP) string {
			f := nodes.BestFitNodesFast
			if kind == "accurate" {
				f = nodes.BestFitNodesAccurate
			}
			s := ""
			for _, a := range f(nodes.BestFitNodesArgs{AddrOpts: c.addrs(), Namespace: c.NS, Vec: q, KNNSearchFunc: c.Cfg.knn}) {
				s += c.nameOf(a.ToStr()) + " "
			}
			return s
		}})
		ops = append(ops, slowOp{"distribute " + kind, false, func(c *Cluster, q []float64, t int, dp DP) string {
			var err error
			cl := kmrpc.KMeansClient(c.Nodes[0].Addr, c.NS, &err)
			if kind == "fast" {
				cl.DistributeDataPointsFast(c.strs(), 1000)
			} else {
				cl.DistributeDataPointsAccurate(c.strs(), 1000)
			}
			return fmt.Sprint(err)
		}})
	}
	ops = append(ops, slowOp{"steal", false, func(c *Cluster, q []float64, t int, dp DP) string {
		var err error
		n, ok := kmrpc.KMeansClient(c.Nodes[(t+1)%len(c.Nodes)].Addr, c.NS, &err).StealCentroids(c.Nodes[t].Addr, 1000)
		return fmt.Sprint(n, ok, err)
	}})
	for _, o := range rops() {
		ops = append(ops, slowOp{"client " + o.name, false, func(c *Cluster, q []float64, t int, dp DP) string {
			var err error
			_, d := o.call(c.Nodes[t].Addr, c.NS, q, c.Nodes[(t+1)%len(c.Nodes)].Addr, &err)
			return fmt.Sprint(d, " ", err)
		}})
	}
	return
}

// nodeHolds: the points of a node (which centroid a redistributed one is in may depend on
// the order in which they are moved).
func nodeHolds(s *Snap, count bool) string {
	out := ""
	if count {
		out = fmt.Sprint(len(s.Cs), " centroids ")
	}
	return out + sids(sortedIDs(s.ids()))
}

// slowCase runs one operation on two clusters that hold the same, one of which has a
// node that answers late.
func slowCase(k *K) {
	ops := slowOps()
	op := ops[k.Idx%len(ops)]
	cfg := newCfg([]Metric{mCos, mCos, mEuc}[k.R.IntN(3)], 0, 0)
	n := 2 + k.R.IntN(3)
	seed, t := k.R.Uint64(), k.R.IntN(n)
	if strings.HasPrefix(op.name, "distribute") {
		t = 1 + k.R.IntN(n-1)
	}
	base := newReg().base
	prompt, qs := slowTwin(k, seed, base, n, cfg)
	defer prompt.Close()
	slow, _ := slowTwin(k, seed, base, n, cfg)
	defer slow.Close()
	dp := prompt.Reg.New(k.R, qs[t], "plain")
	slow.Reg.dps[idOf(dp)] = prompt.Reg.dps[idOf(dp)]
	state := func(c *Cluster) string {
		var s []string
		ids := addIDsSnap(c.snap().N...)
		for id, x := range ids {
			if x != 1 {
				k.Fail("%s: %s is stored %d times", op.name, sid(id), x)
			}
		}
		if op.rand {
			return fmt.Sprint(len(ids), " points")
		}
		for _, x := range c.snap().N {
			s = append(s, nodeHolds(x, !strings.Contains(strings.ToLower(op.name), "distribute")))
		}
		return strings.Join(s, " / ")
	}
	if a, b := state(prompt), state(slow); a != b {
		panic("twins differ: " + a + " / " + b)
	}
	want := op.f(prompt, cloneVec(qs[t]), t, cloneDP(dp))
	wantS := state(prompt)

	d := []time.Duration{1500, 6000, 11000, 31000, 31000}[k.R.IntN(5)] * time.Millisecond
	if k.Tier == "thorough" {
		d = []time.Duration{6, 31, 62, 125}[k.R.IntN(4)] * time.Second
	}
	after := k.R.IntN(2) == 0   // the call is carried out, then its reply takes long
	which := int64(k.R.IntN(3)) // calls let through first
	if k.R.IntN(2) == 0 {
		which = 0
	}
	var calls, late atomic.Int64
	for i, nd := range slow.Nodes {
		if i != t {
			continue
		}
		nd.SetHook(func(ev *Ev) Act {
			if calls.Add(1) != which+1 {
				return Act{}
			}
			late.Add(1)
			k.Op("the call %s on node %d takes %v (before it: %v)", ev.Method, t, d, !after)
			if after {
				return Act{ReplyDelay: d}
			}
			return Act{Delay: d}
		})
	}
	k.Op("%s on %d nodes, node %d slow", op.name, n, t)
	done := make(chan string, 1)
	t0 := time.Now()
	go func() { done <- op.f(slow, cloneVec(qs[t]), t, cloneDP(dp)) }()
	var got string
	for ok := false; !ok; {
		select {
		case got = <-done:
			ok = true
		case <-time.After(time.Second):
			if time.Since(t0) < 5*d+30*time.Second {
				k.Beat()
			}
		}
	}
	if late.Load() > 0 {
		k.Count("late_calls", late.Load())
		k.Max("longest_delay_ms", d.Milliseconds())
		k.Count("late:"+op.name, 1)
	}
	if got != want {
		k.Fail("%s gives %q while node %d is slow (%v), otherwise %q", op.name, trimS(got, 300), t, d, trimS(want, 300))
	}
	if s := state(slow); s != wantS {
		k.Op("with a prompt node: %.900s", wantS)
		k.Op("with a slow node: %.900s", s)
		k.Fail("%s leaves other data while node %d is slow (%v)", op.name, t, d)
	}
	k.Sig(fmt.Sprint(op.name, which, after, d, late.Load()))
}

// busyCase: real listeners, whose namespace is in use for long.
func busyCase(k *K) {
	ops := rops()
	op := ops[k.Idx%len(ops)]
	d := []time.Duration{1500, 6000, 11000, 31000, 31000}[k.R.IntN(5)] * time.Millisecond
	if k.Tier == "thorough" {
		d = []time.Duration{6, 31, 62, 125}[k.R.IntN(4)] * time.Second
	}
	cfg := newCfg(mCos, 0, 0)
	seed := k.R.Uint64()
	base := newReg().base
	run := func(busy bool) (string, string) {
		c, qs := slowTwin(k, seed, base, 2, cfg)
		defer c.Close()
		// the same data behind real listeners
		var real []string
		for i := range c.Nodes {
			addr := "127.0.0.1:" + freePort()
			srv := kmrpc.NewKMeansServer(addr, cfg.newCM)
			srv.Table = c.Nodes[i].Srv.Table
			stop, err := kmrpc.StartListen(srv)
			if err != nil {
				k.Fail("StartListen on a free address: %v", err)
			}
			defer stop()
			real = append(real, addr)
		}
		held, quit := make(chan struct{}), make(chan struct{})
		if busy {
			go c.Nodes[0].Srv.Table.Access(c.NS, func(*CM) {
				close(held)
				<-quit
			})
			<-held
		}
		var s string
		done := make(chan struct{})
		go func() {
			var err error
			_, desc := op.call(real[0], c.NS, qs[0], real[1], &err)
			s = fmt.Sprint(desc, " ", err)
			close(done)
		}()
		t0 := time.Now()
		for open := busy; open || !isDone(done); time.Sleep(50 * time.Millisecond) {
			if open && time.Since(t0) > d {
				open = false
				close(quit)
			}
			if time.Since(t0) < d+60*time.Second {
				k.Beat()
			}
		}
		var st []string
		for _, x := range c.snap().N {
			st = append(st, nodeHolds(x, !strings.Contains(strings.ToLower(op.name), "distribute")))
		}
		return s, strings.Join(st, " / ")
	}
	want, wantS := run(false)
	k.Op("%s on a namespace in use for %v", op.name, d)
	got, gotS := run(true)
	if got != want {
		k.Fail("%s gives %q after the namespace was in use for %v, otherwise %q", op.name, trimS(got, 300), d, trimS(want, 300))
	}
	if gotS != wantS {
		k.Fail("%s leaves other data after the namespace was in use for %v: %.300s, otherwise %.300s", op.name, d, gotS, wantS)
	}
	k.Count("busy_calls", 1)
	k.Sig(fmt.Sprint("busy", op.name, d))
}

func isDone(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// rankCase: the order in which nodes are asked.
func rankCase(k *K) {
	c, conds := mixedCluster(k, pickCfg(k), 7)
	defer c.Close()
	addrs := c.addrs()
	for i := k.R.IntN(3); i > 0; i-- {
		addrs = append(addrs, addrOf(deadAddr()))
	}
	for k.R.IntN(3) == 0 {
		addrs = append(addrs, addrs[k.R.IntN(len(addrs))])
	}
	k.R.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
	if k.R.IntN(30) == 0 {
		addrs = nil
	}
	given := append([]Addr(nil), addrs...)
	q := c.VG.Vec()
	before := deepCSnap(c)
	m := c.Cfg.metric
	tol := 10 * scoreTol(m, c.scale()+maxAbs(q))
	for _, kind := range []string{"fast", "accurate"} {
		f := nodes.BestFitNodesFast
		if kind == "accurate" {
			f = nodes.BestFitNodesAccurate
		}
		score := map[string]float64{}
		for i, nd := range c.Nodes {
			if conds[i] == ncDown || conds[i] == ncRefuse || !before.N[i].Exists {
				continue
			}
			s := math.Inf(-1)
			if kind == "fast" {
				if v := before.N[i].Vec; len(v) == len(q) {
					s = m.Sim(q, v)
				}
			} else {
				for _, x := range before.N[i].Cs {
					if len(x.Vec) == len(q) {
						s = math.Max(s, m.Sim(q, x.Vec))
					}
				}
			}
			if !math.IsInf(s, -1) {
				score[nd.Addr] = s
			}
		}
		out := f(nodes.BestFitNodesArgs{AddrOpts: addrs, Namespace: c.NS, Vec: cloneVec(q), KNNSearchFunc: c.Cfg.knn})
		var want []float64
		left := map[string]int{}
		for _, a := range given {
			if s, ok := score[a.ToStr()]; ok {
				want = append(want, s)
				left[a.ToStr()]++
			}
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(want)))
		if len(out) != len(want) {
			k.Fail("ranking (%s) of %d addresses gives %d, %d have data of that dimension", kind, len(given), len(out), len(want))
		}
		for i, a := range out {
			s, ok := score[a.ToStr()]
			if !ok || left[a.ToStr()] == 0 {
				k.Fail("ranking (%s) gives %s, which is dead, has no data of that dimension, or was not asked for so often", kind, c.nameOf(a.ToStr()))
			}
			left[a.ToStr()]--
			if math.Abs(s-want[i]) > tol {
				k.Fail("ranking (%s): place %d goes to %s with similarity %.12g, it should be one with %.12g", kind, i, c.nameOf(a.ToStr()), s, want[i])
			}
		}
		for i := range given {
			if addrs[i] != given[i] {
				k.Fail("ranking (%s) changed the addresses it was given", kind)
			}
		}
		k.Count("ranked_nodes", int64(len(out)))
		k.Sig(fmt.Sprint(kind, len(given), conds, len(out)))
	}
	if a, b := addIDsSnap(before.N...), addIDsSnap(c.snap().N...); len(diffIDs(a, b))+len(diffIDs(b, a)) > 0 {
		k.Fail("ranking nodes changed what is stored")
	}
}

func init() {
	reg(&Prop{ID: "C37", Level: "exploration", Min: 60,
		Assume: []string{"a call takes 1.5 to 31 s (thorough: 6 to 125 s); one call per operation is that slow"},
		Rule:   "every put, query, ranking, redistribution, steal and client call on two clusters with equal data, one with a node that takes long over one of its calls (before or after carrying it out), or on a namespace in use for that long; distinct by operation, call, delay",
		Run: func(r *Run) {
			n := len(slowOps())
			done := make(chan struct{})
			go func() {
				r.Cases("busy", r.N(len(rops()), 4*len(rops())), 100, busyCase)
				close(done)
			}()
			r.Cases("slow", r.N(3*n, 12*n), 200, slowCase)
			<-done
			r.Count("operations_of_the_list", int64(n))
		}})
	reg(&Prop{ID: "C38", Level: "exploration", Min: 200,
		Assume: []string{"no other operation beside the ranking; ties in any order"},
		Rule:   "fast and accurate ranking of 1-40 nodes in mixed conditions (no namespace, empty, other dimension, down, refusing), dead and repeated addresses; distinct by conditions and outcome",
		Run: func(r *Run) {
			r.Cases("rank", r.N(1500, 30000), 8, rankCase)
		}})
}
