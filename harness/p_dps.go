package main

// C19 (puts go to the best-fit node) and C20 (cluster queries).

import (
	"fmt"
	"math"
	"sort"
	"sync"
	"sync/atomic"

	kmrpc "trypo/pkg/kmeans/rpc"
)

// stubNode answers like a node that refuses every point.
type stubNode struct {
	vec    []float64
	asked  atomic.Int64
	accept atomic.Bool
	got    atomic.Int64
	mu     sync.Mutex
	took   map[uint64]bool
}

// ids: the points it accepted.
func (s *stubNode) ids() map[uint64]bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[uint64]bool{}
	for id := range s.took {
		m[id] = true
	}
	return m
}

func (s *stubNode) Vec(ns string, r *[]float64) error { *r = s.vec; return nil }
func (s *stubNode) NearestCentroidVec(a kmrpc.NearestCentroidVecArgs, r *[]float64) error {
	*r = s.vec
	return nil
}
func (s *stubNode) AddDataPoint(a kmrpc.AddDataPointArgs, r *bool) error {
	s.asked.Add(1)
	if s.accept.Load() {
		s.got.Add(1)
		s.mu.Lock()
		if s.took == nil {
			s.took = map[uint64]bool{}
		}
		s.took[idOf(a.DP)] = true
		s.mu.Unlock()
		*r = true
	}
	return nil
}
func (s *stubNode) KNNLookup(a kmrpc.KNNLookupArgs, r *[]DP) error { return nil }

// nodeScores: what a node's mean / nearest centroid scores against q; ok=false if it
// has nothing comparable.
func nodeScore(s *Snap, kind string, q []float64, m Metric) (float64, bool) {
	if !s.Exists || len(q) == 0 {
		return 0, false
	}
	if kind == "fast" {
		if len(s.Vec) != len(q) {
			return 0, false
		}
		return m.Sim(q, s.Vec), true
	}
	best, ok := math.Inf(-1), false
	for _, c := range s.Cs {
		if len(c.Vec) == len(q) {
			best, ok = math.Max(best, m.Sim(q, c.Vec)), true
		}
	}
	return best, ok
}

// takes: whether a node would store a point of this dimension.
func takes(s *Snap, dim int) bool {
	if !s.Exists || len(s.Cs) == 0 {
		return true
	}
	for _, c := range s.Cs {
		if len(c.Vec) == dim {
			return true
		}
	}
	return false
}

func scoreTol(m Metric, scale float64) float64 {
	if m.Name == "euc" {
		return 1e-9 * (scale + 1e-9)
	}
	return 1e-10
}

func putCase(k *K) {
	c, conds := mixedCluster(k, pickCfg(k), 6)
	defer c.Close()
	addrs := c.addrs()
	var stubs []*stubNode
	refusing := k.R.IntN(3)
	if k.Idx%12 == 5 { // many that do not take it before one that does
		refusing = 17 + k.R.IntN(24)
	}
	for i := 0; i < refusing; i++ {
		s := &stubNode{vec: c.VG.Vec()}
		n := newStub(s)
		defer n.Close()
		stubs = append(stubs, s)
		addrs = append(addrs, n.A())
	}
	k.Max("refusing_nodes", int64(refusing))
	if k.R.IntN(3) == 0 {
		addrs = append(addrs, addrOf(deadAddr()))
	}
	sig := fmt.Sprint(conds, len(stubs))
	for i := 0; i < 8; i++ {
		if k.R.IntN(4) == 0 {
			addrs = append(addrs, addrs[k.R.IntN(len(addrs))])
		}
		k.R.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
		use := addrs
		if k.R.IntN(12) == 0 {
			use = addrs[:k.R.IntN(len(addrs)+1)]
		}
		inUse := map[Addr]bool{}
		for _, a := range use {
			inUse[a] = true
		}
		dp := c.St[0].newDP("live")
		if k.R.IntN(3) == 0 { // near a stored point or a stub
			if len(stubs) > 0 {
				dp.Vec = cloneVec(stubs[0].vec)
				c.Reg.dps[idOf(dp)] = cloneDP(dp)
			}
		}
		kind := kinds3[k.R.IntN(3)]
		pre := c.snap()
		ok := c.put(kind, use, dp)
		post := c.snap()
		a, b := pre.ids(), post.ids()
		at := -1
		n := 0
		for j, s := range post.N {
			if x := s.ids()[idOf(dp)]; x > 0 {
				at, n = j, n+x
			}
		}
		if ok && n != 1 || !ok && n != 0 {
			k.Fail("put %s reported %v, the point is stored %d times", kind, ok, n)
		}
		for id := range b {
			if a[id] != b[id] && id != idOf(dp) {
				k.Fail("put %s changed where other points are", kind)
			}
		}
		if len(filterOut(diffIDs(a, b), pre.expired())) > 0 {
			k.Fail("put %s removed points", kind)
		}
		best, have := math.Inf(-1), false
		eligible := map[int]float64{}
		for j, cd := range conds {
			if cd == ncDown || cd == ncRefuse || !inUse[c.Nodes[j].A()] || !takes(pre.N[j], len(dp.Vec)) {
				continue
			}
			if kind == "rand" {
				eligible[j], have = 0, true
				continue
			}
			if sc, o := nodeScore(pre.N[j], kind, dp.Vec, c.Cfg.metric); o {
				eligible[j], have = sc, true
				best = math.Max(best, sc)
			}
		}
		if have != ok {
			k.Fail("put %s of %v: %v, but nodes that could take it: %v (%s)", kind, trim5(dp.Vec), ok, eligible, pre.shape())
		}
		if ok {
			sc, in := eligible[at]
			if !in {
				k.Fail("put %s stored the point on node %d, which is none of the nodes asked for", kind, at)
			}
			if kind != "rand" && sc < best-scoreTol(c.Cfg.metric, c.scale()) {
				k.Fail("put %s chose node %d (similarity %v), the best is %v: %v", kind, at, sc, best, eligible)
			}
		}
		c.contentOK(post, "put "+kind)
		k.Count(fmt.Sprintf("puts:%s:%v", kind, ok), 1)
		k.Count("eligible_nodes", int64(len(eligible)))
		sig += fmt.Sprint(kind[:1], len(eligible), at)
	}
	for _, s := range stubs {
		k.Count("refusals_by_stubs", s.asked.Load())
	}
	k.Sig(sig)
	k.Sample("puts", 1, tail(k.Ops(), 10))
}

// randPutCase: random puts reach every accepting node; each is stored once.
func randPutCase(k *K) {
	cfg := pickCfg(k)
	nn := someNodes(k, 2, 5)
	c := newCluster(k, nn, cfg, pickNS(k), "gauss", 2)
	defer c.Close()
	addrs := c.addrs()
	for i := 0; i < k.R.IntN(3); i++ {
		if k.R.IntN(2) == 0 {
			addrs = append(addrs, addrOf(deadAddr()))
		} else {
			s := newStub(&stubNode{vec: []float64{1, 1}})
			defer s.Close()
			addrs = append(addrs, s.A())
		}
	}
	for _, st := range c.St {
		if k.R.IntN(2) == 0 {
			st.populate([]int{2}, false)
		}
	}
	for _, perm := range []int{0, 1} {
		_ = perm
		hit := map[int]int{}
		for i := 0; i < 400 && len(hit) < nn; i++ {
			dp := c.St[0].newDP("plain")
			if !c.putQuiet("rand", addrs, dp) {
				k.Fail("a random put over %d accepting nodes failed", nn)
			}
			n := 0
			for j, st := range c.St {
				if x := snapB(st.B).ids()[idOf(dp)]; x > 0 {
					hit[j]++
					n += x
				}
			}
			if n != 1 {
				k.Fail("a random put stored the point %d times", n)
			}
		}
		k.Op("random puts hit %v", hit)
		if len(hit) < nn {
			k.Fail("400 random puts only ever chose the nodes %v of %d", hit, nn)
		}
		k.R.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
	}
	k.Sig(fmt.Sprint("rand", nn, len(addrs), k.Idx))
}

// ---- C20 ----

func getCase(k *K) {
	c, conds := mixedCluster(k, pickCfg(k), 6)
	defer c.Close()
	addrs := c.addrs()
	if k.R.IntN(4) == 0 {
		addrs = append(addrs, addrOf(deadAddr()))
	}
	if k.R.IntN(5) == 0 {
		s := newStub(&stubNode{vec: c.VG.Vec()})
		defer s.Close()
		addrs = append(addrs, s.A())
	}
	sig := fmt.Sprint(conds)
	for i := 0; i < 8; i++ {
		if k.R.IntN(4) == 0 {
			addrs = append(addrs, addrs[k.R.IntN(len(addrs))])
		}
		if k.R.IntN(6) == 0 {
			c.St[k.R.IntN(len(c.St))].flipExpired(0.3)
		}
		k.R.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
		use := addrs
		if k.R.IntN(12) == 0 {
			use = addrs[:k.R.IntN(len(addrs)+1)]
		}
		kind := kinds3[k.R.IntN(3)]
		drain := k.R.IntN(3) == 0
		q := c.VG.Vec()
		sig += getStep(k, c, conds, use, kind, drain, q, func(n int) []DP { return c.get(kind, use, q, n, drain) })
	}
	k.Sig(sig)
	k.Sample("gets", 1, tail(k.Ops(), 10))
}

// bigGetCase: queries for thousands of points.
func bigGetCase(k *K) {
	c := newCluster(k, 1+k.R.IntN(3), newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], 0, 0), pickNS(k), "gauss", 2+k.R.IntN(3))
	defer c.Close()
	for i, st := range c.St {
		var sizes []int
		switch {
		case i == 0 && k.Idx%2 == 0:
			sizes = []int{300 + logInt(k.R, 5000), k.R.IntN(300)}
			if k.Idx == 0 {
				sizes[0] = 4400 + k.R.IntN(800)
			}
		case i == 0:
			for j := 300 + k.R.IntN(700); j > 0; j-- {
				sizes = append(sizes, k.R.IntN(4))
			}
		default:
			sizes = []int{300 + logInt(k.R, 1500), k.R.IntN(300)}
		}
		k.Beat()
		st.populate(sizes, false)
	}
	sig := ""
	for i := 0; i < 4; i++ {
		kind, q := kinds3[k.R.IntN(3)], c.VG.Vec()
		k.Beat()
		sig += getStep(k, c, make([]int, len(c.Nodes)), c.addrs(), kind, i > 1, q, func(n int) []DP { return c.get(kind, c.addrs(), q, n, i > 1) })
	}
	k.Sig("big " + sig)
}

// getStep makes one cluster query (get) and judges it.
func getStep(k *K, c *Cluster, conds []int, use []Addr, kind string, drain bool, q []float64, get func(n int) []DP) string {
	inUse := map[Addr]bool{}
	for _, a := range use {
		inUse[a] = true
	}
	var pre CSnap
	avail := map[int]int{}
	total := 0
	type ns struct {
		j int
		s float64
	}
	var order []ns
	for _, st := range c.St {
		pre.N = append(pre.N, deepSnap(st.B))
	}
	for j, cd := range conds {
		s := pre.N[j]
		if cd == ncDown || cd == ncRefuse || !inUse[c.Nodes[j].A()] || !s.Exists {
			continue
		}
		sc, o := 0., true
		if kind != "rand" {
			sc, o = nodeScore(s, kind, q, c.Cfg.metric)
		}
		if !o {
			continue
		}
		order = append(order, ns{j, sc})
		for _, x := range s.Cs {
			if len(x.Vec) != len(q) {
				continue
			}
			for t := range x.DPs {
				if !x.Exp[t] {
					avail[j]++
					total++
				}
			}
		}
	}
	sort.SliceStable(order, func(a, b int) bool { return order[a].s > order[b].s })
	n := []int{0, -1, 1, 1, 2, 1 + logInt(k.R, total+3), 1 + logInt(k.R, total+3), total, total + 1, max(1, total-1), 1 << 20}[k.R.IntN(11)]
	if n <= 0 && k.R.IntN(2) == 0 {
		n = 1
	}
	out := get(n)
	post := c.snap()
	want := min(max(n, 0), total)
	if len(out) != want {
		k.Fail("get %s n=%d returned %d points; the nodes asked hold %d (%v), so %d are due", kind, n, len(out), total, avail, want)
	}
	ret := addIDs(nil, out)
	if d := dupIDs(ret); len(d) > 0 {
		k.Fail("get %s returned points twice: %s", kind, sids(d))
	}
	exp := pre.expired()
	by := map[int][]DP{}
	var visit []int
	at := pre.where()
	for _, dp := range out {
		if e := c.Reg.same(dp); e != "" {
			k.Fail("get %s returned an altered point: %s", kind, e)
		}
		j, o := at[idOf(dp)]
		if !o {
			k.Fail("get %s returned a point no node held", kind)
		}
		if exp[idOf(dp)] {
			k.Fail("get %s returned an expired point", kind)
		}
		if len(by[j]) == 0 {
			visit = append(visit, j)
		} else if visit[len(visit)-1] != j {
			k.Fail("get %s mixes points of different nodes: %v", kind, visit)
		}
		by[j] = append(by[j], dp)
	}
	// which nodes contributed what
	tol := scoreTol(c.Cfg.metric, c.scale())
	left := want
	score := map[int]float64{}
	for _, o := range order {
		score[o.j] = o.s
	}
	for vi, j := range visit {
		// nodes better than this one by more than the tolerance, holding points,
		// must have come before
		if kind != "rand" {
			for _, o := range order {
				if avail[o.j] > 0 && o.s > score[j]+tol {
					found := false
					for _, w := range visit[:vi] {
						found = found || w == o.j
					}
					if !found {
						k.Fail("get %s took from node %d (similarity %v) before node %d (similarity %v)", kind, j, score[j], o.j, o.s)
					}
				}
			}
		}
		x := min(left, avail[j])
		if len(by[j]) != x {
			k.Fail("get %s took %d points from node %d, a query there for the remaining %d returns %d", kind, len(by[j]), j, left, x)
		}
		twin := cloneCM(c.Cfg, pre.N[j])
		exptd := twin.KNNLookup(cloneVec(q), left, drain)
		if e := sameDPs(exptd, by[j], true); e != "" {
			k.Fail("get %s: node %d contributed other points than a query there for %d returns: %s", kind, j, left, e)
		}
		left -= x
	}
	for _, id := range diffIDs(pre.ids(), post.ids()) {
		if !exp[id] && !(drain && ret[id] > 0) {
			k.Fail("get %s (drain=%v) removed %s without returning it", kind, drain, sid(id))
		}
	}
	if drain {
		b := post.ids()
		for id := range ret {
			if b[id] > 0 {
				k.Fail("draining get %s left %s in place", kind, sid(id))
			}
		}
	}
	if len(diffIDs(post.ids(), pre.ids())) > 0 {
		k.Fail("get %s made points appear", kind)
	}
	k.Count(fmt.Sprintf("gets:%s", kind), 1)
	k.Count("points_returned", int64(len(out)))
	if len(visit) > 1 {
		k.Count("gets_from_several_nodes", 1)
	}
	return fmt.Sprint(kind[:1], n, drain, visit, len(out))
}

func init() {
	reg(&Prop{ID: "C19", Level: "exploration", Min: 150,
		Rule: "puts over clusters of 1-6 nodes in varied conditions (normal, no namespace, empty, other dimension, down, closing connections), stub nodes that refuse, repeated and dead addresses; chosen node judged against similarities computed from the recorded state; distinct by conditions and outcomes",
		Run: func(r *Run) {
			r.Cases("puts", r.N(1200, 30000), 8, putCase)
			r.Cases("equal", r.N(300, 6000), 8, twinCluster)
			r.Cases("rand", r.N(40, 600), 8, randPutCase)
		}})
	reg(&Prop{ID: "C20", Level: "exploration", Min: 150,
		Rule: "cluster queries over clusters in varied conditions, repeated and dead addresses, every n from -1 past the number held, drain on and off, expired points mixed in; judged against similarities from the recorded state and a direct query on a twin of each node; distinct by conditions and outcomes",
		Run: func(r *Run) {
			r.Cases("gets", r.N(1500, 30000), 8, getCase)
			r.Cases("big", r.N(6, 120), 6, bigGetCase)
			r.Cases("equal", r.N(300, 6000), 8, twinCluster)
		}})
}
