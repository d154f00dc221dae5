package main

// C28: repeated redistribution of well-separated groups.

import (
	"fmt"
	"sync"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// groups: well-separated groups of points. Directions are orthogonal, so the groups are
// apart both by angle and by distance.
type groups struct {
	k    *K
	n    int
	dim  int
	perm []int
	sign []float64
	reg  *Reg
	of   map[uint64]int
	// lengths of the vectors of a group vary if only angles count
	angles bool
}

func newGroups(k *K, n int, angles bool) *groups {
	g := &groups{k: k, n: n, dim: n + k.R.IntN(4), reg: newReg(), of: map[uint64]int{}, angles: angles}
	g.perm = k.R.Perm(g.dim)
	for i := 0; i < n; i++ {
		g.sign = append(g.sign, []float64{1, -1}[k.R.IntN(2)])
	}
	return g
}

func (g *groups) dp(grp int) DP {
	v := make([]float64, g.dim)
	v[g.perm[grp]] = 100 * g.sign[grp]
	for i := range v {
		v[i] += g.k.R.NormFloat64() * 2
	}
	if g.angles {
		f := 0.5 + g.k.R.Float64()
		for i := range v {
			v[i] *= f
		}
	}
	dp := g.reg.New(g.k.R, v, []string{"plain", "live"}[g.k.R.IntN(2)])
	g.of[idOf(dp)] = grp
	return dp
}

// mixed draws the groups of the points of one store: predominantly own.
func (g *groups) mixed(own, size int) (r []int, foreign int) {
	foreign = g.k.R.IntN(size*3/10 + 1)
	if g.k.R.IntN(5) == 0 {
		foreign = 0
	}
	for i := 0; i < foreign; i++ {
		x := g.k.R.IntN(g.n - 1)
		if x >= own {
			x++
		}
		r = append(r, x)
	}
	for len(r) < size {
		r = append(r, own)
	}
	g.k.R.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return
}

func convInternalCase(k *K) {
	cfg := pickCfg(k)
	cfg.threshold = 1 << 30
	g := newGroups(k, 2+k.R.IntN(5), cfg.metric.Name != "euc")
	var b Backend
	switch k.R.IntN(3) {
	case 0:
		b = &localB{cm: cfg.newCM(make([]float64, g.dim))}
	case 1:
		b = &serverB{s: newKMServer("", cfg.newCM), ns: "ns"}
	default:
		nd := newNode(cfg)
		defer nd.Close()
		b = &clientB{node: nd, ns: "ns"}
	}
	first := g.dp(0)
	if !b.Add(first) {
		k.Fail("insert refused")
	}
	perGroup := 1
	if k.R.IntN(3) == 0 {
		perGroup = 2 + k.R.IntN(2)
	}
	var owner []int
	minSize, maxForeign, total, misplaced := 1<<30, 0, 0, 0
	b.With(func(cm *CM) {
		cm.Centroids = nil
		for i := 0; i < g.n*perGroup; i++ {
			owner = append(owner, i%g.n)
		}
		k.R.Shuffle(len(owner), func(i, j int) { owner[i], owner[j] = owner[j], owner[i] })
		for _, o := range owner {
			size := 4 + k.R.IntN(40)
			gs, f := g.mixed(o, size)
			c := cfg.newCentroid(g.dp(gs[0]).Vec)
			for _, x := range gs {
				if !c.AddDataPoint(g.dp(x)) {
					panic(failT{"a centroid refused a point"})
				}
			}
			cm.Centroids = append(cm.Centroids, c)
			minSize, maxForeign = min(minSize, size-f), max(maxForeign, f)
			total += size
			misplaced += f
		}
		cm.MoveVector()
	})
	C := len(owner)
	portion := 1 + k.R.IntN(max(1, minSize/4))
	n := C * portion
	rounds := 2*((maxForeign+portion-1)/portion) + 2
	k.Op("%s, %s: %d groups, centroids of groups %v, %d of %d points misplaced; %d rounds of %d", b.Name(), cfg.metric.Name, g.n, owner, misplaced, total, rounds, n)
	place := func() (map[uint64]int, int) {
		m := map[uint64]int{}
		wrong := 0
		for ci, c := range snapB(b).Cs {
			for _, dp := range c.DPs {
				id := idOf(dp)
				if _, dup := m[id]; dup {
					k.Fail("point %s is held twice", sid(id))
				}
				m[id] = ci
				if ci >= len(owner) || owner[ci] != g.of[id] {
					wrong++
				}
			}
		}
		return m, wrong
	}
	was := -1
	used := rounds
	for r := 0; r < rounds; r++ {
		b.DistInternal(n)
		m, w := place()
		if len(m) != total {
			k.Fail("%d points after a round, %d before", len(m), total)
		}
		if was >= 0 && w > was {
			k.Fail("round %d moved points away from the centroid of their group: %d misplaced, %d before", r, w, was)
		}
		was = w
		if w == 0 {
			used = r + 1
			break
		}
	}
	if was != 0 {
		k.Fail("after %d rounds of %d %d of %d points are still not in a centroid of their group (%d were misplaced at first)", rounds, n, was, total, misplaced)
	}
	k.Max("rounds_needed", int64(used))
	before, _ := place()
	for r := 0; r < 2+k.R.IntN(4); r++ {
		b.DistInternal(1 + k.R.IntN(n))
		m, w := place()
		if w > 0 || len(m) != total {
			k.Fail("a further round took %d points out of the centroids of their groups (%d points, %d before)", w, len(m), total)
		}
		if perGroup == 1 {
			for id, c := range m {
				if before[id] != c {
					k.Fail("a further round moved point %s from centroid %d to %d", sid(id), before[id], c)
				}
			}
		}
		k.Count("stable_rounds", 1)
	}
	k.Count("misplaced_points_brought_home", int64(misplaced))
	k.Sig(fmt.Sprint(g.n, owner, misplaced, total, portion))
	k.Sample("internal", 3, map[string]any{"groups": g.n, "centroids": C, "points": total, "misplaced": misplaced, "portion": portion, "rounds_needed": used})
}

type convNet struct {
	g       *groups
	cfg     cmCfg
	nodes   []*Node
	total   int
	foreign int // most misplaced points in one store
	onNode  int // most misplaced points on one node
	minOwn  int
	wrong0  int
	cents   []int // centroids per node
}

// newConvNet: one node per group, each centroid predominantly of the node's group. With
// separate, misplaced points may also have centroids of their own.
func newConvNet(k *K, separate bool) *convNet {
	cfg := newCfg(mCos, 1<<30, k.R.IntN(5))
	g := newGroups(k, 2+k.R.IntN(4), true)
	cn := &convNet{g: g, cfg: cfg, minOwn: 1 << 30}
	for o := 0; o < g.n; o++ {
		nd := newNode(cfg)
		cn.nodes = append(cn.nodes, nd)
		b := &serverB{s: nd.Srv, ns: "ns"}
		if !b.Add(g.dp(o)) {
			k.Fail("insert refused")
		}
		b.With(func(cm *CM) {
			cm.Centroids = nil
			nc := 1 + k.R.IntN(4)
			was := cn.wrong0
			add := func(gs []int, f int) {
				c := cfg.newCentroid(g.dp(gs[0]).Vec)
				for _, x := range gs {
					if !c.AddDataPoint(g.dp(x)) {
						panic(failT{"a centroid refused a point"})
					}
				}
				cm.Centroids = append(cm.Centroids, c)
				cn.total += len(gs)
				cn.foreign = max(cn.foreign, f)
				cn.wrong0 += f
			}
			for i := 0; i < nc; i++ {
				size := 4 + k.R.IntN(30)
				gs, f := g.mixed(o, size)
				cn.minOwn = min(cn.minOwn, size-f)
				add(gs, f)
			}
			if separate && nc >= 3 && k.R.IntN(2) == 0 {
				x := (o + 1 + k.R.IntN(g.n-1)) % g.n
				var gs []int
				for i := k.R.IntN(6); i >= 0; i-- {
					gs = append(gs, x)
				}
				add(gs, len(gs))
			}
			k.R.Shuffle(len(cm.Centroids), func(i, j int) { cm.Centroids[i], cm.Centroids[j] = cm.Centroids[j], cm.Centroids[i] })
			cn.onNode = max(cn.onNode, cn.wrong0-was)
			cn.cents = append(cn.cents, len(cm.Centroids))
			cm.MoveVector()
		})
	}
	return cn
}

func (cn *convNet) Close() {
	for _, n := range cn.nodes {
		n.Close()
	}
}

func (cn *convNet) place(k *K) (map[uint64]int, int) {
	m := map[uint64]int{}
	wrong := 0
	for i, nd := range cn.nodes {
		for id, c := range snapB(&serverB{s: nd.Srv, ns: "ns"}).ids() {
			if _, dup := m[id]; dup || c > 1 {
				k.Fail("point %s is held twice", sid(id))
			}
			m[id] = i
			if cn.g.of[id] != i {
				wrong++
			}
		}
	}
	return m, wrong
}

func convNodesCase(k *K) {
	kind := []string{"fast", "accurate"}[k.R.IntN(2)]
	cn := newConvNet(k, kind == "fast")
	defer cn.Close()
	portion := 1 + k.R.IntN(max(1, cn.minOwn/4))
	var addrs []string
	for _, nd := range cn.nodes {
		addrs = append(addrs, nd.Addr)
	}
	par := k.R.IntN(3) == 0
	round := func() {
		var wg sync.WaitGroup
		for _, i := range k.R.Perm(len(cn.nodes)) {
			as := append([]string(nil), addrs...)
			k.R.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
			f := func() {
				cl := kmrpc.KMeansClient(cn.nodes[i].Addr, "ns", nil)
				if kind == "fast" {
					cl.DistributeDataPointsFast(as, portion*cn.cents[i])
				} else {
					cl.DistributeDataPointsAccurate(as, portion*cn.cents[i])
				}
			}
			if par {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			} else {
				f()
			}
			k.Beat()
		}
		wg.Wait()
	}
	rounds := 2*((cn.foreign+portion-1)/portion) + 3
	k.Op("%s, %d nodes, %d of %d points misplaced; %d rounds of %d per centroid, at the same time: %v", kind, len(addrs), cn.wrong0, cn.total, rounds, portion, par)
	was, used := -1, rounds
	for r := 0; r < rounds; r++ {
		round()
		m, w := cn.place(k)
		if len(m) != cn.total {
			k.Fail("%d points after a round, %d before", len(m), cn.total)
		}
		was = w
		if w == 0 {
			used = r + 1
			break
		}
	}
	if was != 0 {
		k.Fail("after %d rounds (%s, %d points per centroid each) %d of %d points are still not on the node of their group (%d were misplaced at first)", rounds, kind, portion, was, cn.total, cn.wrong0)
	}
	k.Max("between_node_rounds_needed", int64(used))
	before, _ := cn.place(k)
	for r := 0; r < 2; r++ {
		round()
		m, _ := cn.place(k)
		for id, c := range m {
			if before[id] != c {
				k.Fail("a further round (%s) moved point %s of group %d from node %d to %d", kind, sid(id), cn.g.of[id], before[id], c)
			}
		}
		if len(m) != cn.total {
			k.Fail("%d points after a further round, %d before", len(m), cn.total)
		}
		k.Count("stable_rounds_between_nodes", 1)
	}
	k.Count("misplaced_points_brought_home", int64(cn.wrong0))
	k.Sig(fmt.Sprint(kind, par, len(addrs), cn.wrong0, cn.total, portion))
	k.Sample("nodes", 3, map[string]any{"kind": kind, "nodes": len(addrs), "points": cn.total, "misplaced": cn.wrong0, "portion": portion, "rounds_needed": used, "at_once": par})
}

// convLoopCase: the same done by the nodes' event loops.
func convLoopCase(k *K) {
	fast := k.R.IntN(2) == 0
	cn := newConvNet(k, fast)
	defer cn.Close()
	portion := 1 + k.R.IntN(max(1, cn.minOwn/4))
	var all []Addr
	for _, nd := range cn.nodes {
		all = append(all, nd.A())
	}
	// internal passes may gather what is misplaced on a node in one centroid
	rounds := 2*((cn.onNode+portion-1)/portion) + 3
	ls := newLoopSet(k)
	iters := make([]int, len(all))
	var mu sync.Mutex
	done := make(chan struct{})
	left := len(all)
	for i, nd := range cn.nodes {
		c := &eventloop.EventLoopConfig{LocalAddr: nd.A(), RemoteAddrs: all, LogLocalOnly: true, TaskSkip: neverSkip()}
		c.TaskSkip.Meta = 1
		if fast {
			c.TaskSkip.DistributeDataPointsFast, c.DistributeDataPointsFastN = 1, portion*cn.cents[i]
		} else {
			c.TaskSkip.DistributeDataPointsAccurate, c.DistributeDataPointsAccurateN = 1, portion*cn.cents[i]
		}
		if fast { // (a centroid of its own for misplaced points would hold them against the accurate variant)
			c.TaskSkip.DistributeDataPointsInternal, c.DistributeDataPointsInternalN = 1+k.R.IntN(3), portion*cn.cents[i]
		}
		if k.R.IntN(2) == 0 {
			c.TaskSkip.MemTrim = 1 + k.R.IntN(3)
		}
		c.L = &memLogger{onM: func(eventloop.MetaData) {
			k.Beat()
			mu.Lock()
			defer mu.Unlock()
			iters[i]++
			if iters[i] == rounds+1 {
				if left--; left == 0 {
					close(done)
				}
			}
		}}
		ls.start(c)
	}
	k.Op("event loops on %d nodes (fast %v), %d of %d points misplaced, %d per centroid and pass, %d passes", len(all), fast, cn.wrong0, cn.total, portion, rounds)
	<-done
	ls.stop()
	m, w := cn.place(k)
	if len(m) != cn.total {
		k.Fail("%d points after the event loops ended, %d before", len(m), cn.total)
	}
	if w > 0 {
		k.Fail("after %d passes of the event loops %d of %d points are still not on the node of their group (%d were misplaced at first)", rounds, w, cn.total, cn.wrong0)
	}
	k.Count("event_loop_networks", 1)
	k.Count("misplaced_points_brought_home", int64(cn.wrong0))
	k.Sig(fmt.Sprint("loop", fast, len(all), cn.wrong0, cn.total, portion))
}

func init() {
	reg(&Prop{ID: "C28", Level: "exploration", Min: 100,
		Assume: []string{"groups lie along orthogonal directions with 2 % noise; at most 30 % of a centroid is misplaced; a round moves at least one point per centroid and at most a quarter of the points a centroid holds of its own group", "between nodes similarity is always cosine, so those parts use cosine nodes"},
		Rule:   "2-6 groups, 1-3 centroids per group / one node per group with 1-4 centroids, up to 30 % misplaced; internal, fast and accurate rounds (one node after the other, all at once, by event loops) until every point is home, within twice the number of rounds the portions need; then further rounds; distinct by group layout",
		Run: func(r *Run) {
			r.Cases("internal", r.N(300, 15000), 8, convInternalCase)
			r.Cases("nodes", r.N(80, 4000), 4, convNodesCase)
			r.Cases("event loops", r.N(30, 1000), 3, convLoopCase)
		}})
}
