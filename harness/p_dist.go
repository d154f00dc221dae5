package main

// C18 (where redistributed points go) and C28 (repeated redistribution converges).

import (
	"fmt"
	"math"
	"sort"
	"sync"

	"trypo/pkg/kmeans/common"
)

// vecState is what the candidates offered at one moment: per node the mean (fast) or
// the centroid vectors (accurate).
type vecState struct {
	mean []float64
	cs   [][]float64
}

func nodeVecs(n *Node, ns string) (vecState, bool) {
	var v vecState
	ok := n.Srv.Table.Access(ns, func(cm *CM) {
		v.mean = cloneVec(cm.Vec())
		for _, c := range cm.Centroids {
			v.cs = append(v.cs, cloneVec(c.Vec()))
		}
	})
	return v, ok
}

func (v vecState) score(kind string, q []float64) (float64, bool) {
	if kind == "fast" {
		if len(v.mean) != len(q) || len(q) == 0 {
			return 0, false
		}
		return refCos(q, v.mean), true
	}
	best, ok := math.Inf(-1), false
	for _, c := range v.cs {
		if len(c) == len(q) && len(q) > 0 {
			best, ok = math.Max(best, refCos(q, c)), true
		}
	}
	return best, ok
}

// betweenCase: one fast or accurate redistribution over TCP. The vectors every node
// has when a point arrives anywhere are recorded, so each receiver can be judged
// against what the others offered at that time.
func betweenCase(k *K) {
	cfg := newCfg(mCos, []int{0, 3, 5, 8, 50}[k.R.IntN(5)], 0)
	fam := []string{"gauss", "clusters", "positive", "antipodal", "axis", "mixed"}[k.R.IntN(6)]
	nn := someNodes(k, 2, 5)
	c := newCluster(k, nn, cfg, pickNS(k), fam, 0)
	defer c.Close()
	for i, st := range c.St {
		st.Live = "plain"
		if i == 0 || k.R.IntN(6) > 0 {
			st.populate(randSizes(k, 5, 10), false)
		}
		if k.R.IntN(12) == 0 && i > 0 {
			c.Nodes[i].Down()
		}
	}
	var stubs []*stubNode
	var stubNodes []*Node
	for i := 0; i < k.R.IntN(3); i++ {
		s := &stubNode{vec: c.VG.Vec()}
		s.accept.Store(k.R.IntN(3) == 0)
		n := newStub(s)
		defer n.Close()
		stubs, stubNodes = append(stubs, s), append(stubNodes, n)
	}
	for round := 0; round < 3; round++ {
		src := 0
		pre := deepCSnap(c)
		if pre.N[src].total() == 0 {
			return
		}
		addrs := []string{}
		inAddr := map[string]bool{}
		for i, n := range c.Nodes {
			if i == src && k.R.IntN(3) == 0 {
				continue
			}
			if k.R.IntN(8) > 0 {
				addrs = append(addrs, n.Addr)
			}
		}
		for _, n := range stubNodes {
			addrs = append(addrs, n.Addr)
		}
		if k.R.IntN(4) == 0 {
			addrs = append(addrs, deadAddr())
		}
		if len(addrs) > 0 && k.R.IntN(4) == 0 {
			addrs = append(addrs, addrs[k.R.IntN(len(addrs))])
		}
		k.R.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
		for _, a := range addrs {
			inAddr[a] = true
		}
		kind := []string{"fast", "accurate"}[k.R.IntN(2)]
		n := []int{1, 1 + k.R.IntN(4), pre.N[src].total(), pre.N[src].total() + 3, 1 + logInt(k.R, pre.N[src].total())}[k.R.IntN(5)]

		// history of vectors per node since the start, and the attempts per point
		var mu sync.Mutex
		hist := make([][]vecState, nn)
		record := func() {
			for i, nd := range c.Nodes {
				if v, ok := nodeVecs(nd, c.NS); ok {
					hist[i] = append(hist[i], v)
				}
			}
		}
		type att struct {
			node int // -1-i: stub i
			ok   bool
			lo   []int // index into hist at the time
		}
		attempts := map[uint64][]att{}
		var order []uint64
		record()
		for i, nd := range append(append([]*Node{}, c.Nodes...), stubNodes...) {
			nd.SetHook(func(ev *Ev) Act {
				if _, ok := asAdd(ev); ok {
					mu.Lock()
					record()
					mu.Unlock()
				}
				return Act{}
			})
			nd.SetOnDone(func(ev *Ev) {
				a, ok := asAdd(ev)
				if !ok {
					return
				}
				took := false
				if p, o := ev.Reply.(*bool); o {
					took = *p
				}
				mu.Lock()
				defer mu.Unlock()
				x := att{node: i, ok: took}
				if i >= nn {
					x.node = -1 - (i - nn)
				}
				for j := range hist {
					x.lo = append(x.lo, len(hist[j]))
				}
				id := idOf(a.DP)
				if len(attempts[id]) == 0 {
					order = append(order, id)
				}
				attempts[id] = append(attempts[id], x)
				record()
			})
		}
		accepted0 := make([]int64, len(stubs))
		for i, s := range stubs {
			accepted0[i] = s.got.Load()
		}
		err := c.distribute(kind, src, addrs, n)
		for _, nd := range append(append([]*Node{}, c.Nodes...), stubNodes...) {
			nd.SetHook(nil)
			nd.SetOnDone(nil)
		}
		if err != nil {
			k.Fail("distribute %s: %v", kind, err)
		}
		post := c.snap()
		where := post.where()
		srcIDs := pre.N[src].ids()
		// other nodes only gained points of the source
		for j := range c.Nodes {
			if j == src {
				continue
			}
			if l := diffIDs(pre.N[j].ids(), post.N[j].ids()); len(l) > 0 {
				k.Fail("distribute %s from node %d removed points from node %d", kind, src, j)
			}
			for _, id := range diffIDs(post.N[j].ids(), pre.N[j].ids()) {
				if srcIDs[id] == 0 {
					k.Fail("distribute %s: node %d got a point node %d did not have", kind, j, src)
				}
			}
		}
		if len(order) > n {
			k.Fail("distribute %s of at most %d points offered %d points", kind, n, len(order))
		}
		left := diffIDs(srcIDs, post.N[src].ids())
		moved := map[uint64]bool{}
		for _, id := range order {
			moved[id] = true
		}
		for _, id := range left {
			if !moved[id] {
				k.Fail("distribute %s: %s left node %d but was never offered to anyone", kind, sid(id), src)
			}
		}
		const tol = 1e-10
		for id, as := range attempts {
			dp := c.Reg.dps[id]
			last := as[len(as)-1]
			// who finally took it
			dest := -100
			for _, a := range as {
				if a.ok {
					dest = a.node
					if a.node != last.node {
						k.Fail("distribute %s: %s was offered on after node %d took it", kind, sid(id), a.node)
					}
				}
			}
			if dest >= 0 && where[id] != dest {
				k.Fail("%s was accepted by node %d but is stored on node %d", sid(id), dest, where[id])
			}
			if dest == -100 {
				if w, ok := where[id]; !ok || w != src {
					k.Fail("nobody took %s, yet it is not back on its node", sid(id))
				}
			}
			// score interval of a candidate up to the moment of the last attempt
			iv := func(j int) (lo, hi float64, ok bool) {
				lo, hi = math.Inf(1), math.Inf(-1)
				for _, v := range hist[j][:min(last.lo[j], len(hist[j]))] {
					if s, o := v.score(kind, dp.Vec); o {
						lo, hi, ok = math.Min(lo, s), math.Max(hi, s), true
					}
				}
				return
			}
			dhi := math.Inf(-1)
			switch {
			case dest >= 0:
				_, dhi, _ = iv(dest)
			case dest > -100:
				dhi = refCos(dp.Vec, stubs[-1-dest].vec)
			}
			for j, nd := range c.Nodes {
				if !inAddr[nd.Addr] || j == dest || !nodeUp(nd) || !takes(pre.N[j], len(dp.Vec)) {
					continue
				}
				lo, _, ok := iv(j)
				if ok && lo > dhi+tol {
					k.Fail("distribute %s: %s went to %d (similarity at most %v) although node %d (similarity at least %v) would take it", kind, sid(id), dest, dhi, j, lo)
				}
			}
			for si, s := range stubs {
				if -1-si == dest || !s.accept.Load() || len(s.vec) != len(dp.Vec) {
					continue
				}
				if sc := refCos(dp.Vec, s.vec); sc > dhi+tol {
					k.Fail("distribute %s: %s went to %d (similarity at most %v) although an accepting node offered %v", kind, sid(id), dest, dhi, sc)
				}
			}
			// nobody better that refuses may have been skipped in favour of a worse one
			// that accepts without being asked: asking is not required by the property.
			k.Count("points_judged:"+kind, 1)
			if len(as) > 1 {
				k.Count("points_refused_then_passed_on", 1)
			}
			if dest == src {
				k.Count("points_taken_by_their_own_node", 1)
			}
		}
		// the points chosen: per centroid, the worst fits
		for _, x := range pre.N[src].Cs {
			worst := math.Inf(-1) // best similarity among the chosen
			rest := math.Inf(1)
			nm := 0
			for i, id := range x.IDs {
				s := refCos(x.Vec, x.DPs[i].Vec)
				if moved[id] {
					nm++
					worst = math.Max(worst, s)
				}
			}
			for i, id := range x.IDs {
				if !moved[id] {
					rest = math.Min(rest, refCos(x.Vec, x.DPs[i].Vec))
				}
			}
			if nm > 0 && nm < len(x.IDs) {
				k.Count("centroids_with_choice", 1)
				if rest < worst-tol && anyEligible(c, stubs, addrs, pre, kind) {
					k.Fail("distribute %s: a centroid gave up a point of similarity %v to it while keeping one of similarity %v", kind, worst, rest)
				}
			}
		}
		got := 0
		for i, s := range stubs {
			got += int(s.got.Load() - accepted0[i])
		}
		for id, as := range attempts { // accepted by stubs: gone from the cluster
			for _, a := range as {
				if a.ok && a.node < 0 {
					delete(c.Reg.dps, id)
				}
			}
		}
		k.Sig(fmt.Sprint(kind, n, len(addrs), len(order), len(left), pre.shape(), got))
	}
	k.Sample("between", 1, tail(k.Ops(), 8))
}

func nodeUp(n *Node) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return !n.isDown
}

// anyEligible: every drained point is offered to somebody.
func anyEligible(c *Cluster, stubs []*stubNode, addrs []string, pre *CSnap, kind string) bool {
	if len(stubs) > 0 {
		return true
	}
	for j, n := range c.Nodes {
		for _, a := range addrs {
			if a == n.Addr && nodeUp(n) && pre.N[j].Exists {
				if kind == "fast" && len(pre.N[j].Vec) == c.VG.Dim {
					return true
				}
				for _, x := range pre.N[j].Cs {
					if len(x.Vec) == c.VG.Dim {
						return true
					}
				}
			}
		}
	}
	return false
}

func deepCSnap(c *Cluster) *CSnap {
	s := &CSnap{}
	for _, st := range c.St {
		s.N = append(s.N, deepSnap(st.B))
	}
	return s
}

// wrapRecv records what a real receiver is offered.
type wrapRecv struct {
	in   common.DataPointReceiver
	refu bool
	on   func(dp DP, f func() bool) bool
}

func (w *wrapRecv) Vec() []float64 { return w.in.Vec() }
func (w *wrapRecv) AddDataPoint(dp DP) bool {
	return w.on(dp, func() bool { return !w.refu && w.in.AddDataPoint(dp) })
}

// localCase: redistribution to receivers in the same process.
func localDistCase(k *K) {
	cfg := newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], []int{0, 5, 20}[k.R.IntN(3)], 0)
	fam := []string{"gauss", "clusters", "positive", "ints", "axis", "mixed"}[k.R.IntN(6)]
	st := newStore(k, storeOpts{backend: "local", live: "plain", fam: fam, cfg: &cfg, maxC: 6, maxN: 15})
	cm := st.B.(*localB).cm
	if len(cm.Centroids) == 0 {
		return
	}
	tol := scoreTol(cfg.metric, st.Scale)
	var recv []common.DataPointReceiver
	var inner []common.DataPointReceiver
	single := k.R.IntN(2) == 0
	var src *Centroid
	if single {
		src = cm.Centroids[k.R.IntN(len(cm.Centroids))]
		if src.LenDP() == 0 {
			return
		}
	}
	type off struct {
		to, best int
		gap      float64
		ok       bool
	}
	offers := map[uint64][]off{}
	var seq []uint64
	mk := func(r common.DataPointReceiver, refuse bool) {
		idx := len(inner)
		inner = append(inner, r)
		recv = append(recv, &wrapRecv{in: r, refu: refuse, on: func(dp DP, f func() bool) bool {
			best, bs, my := -1, math.Inf(-1), math.Inf(-1)
			for i, x := range inner {
				v := x.Vec()
				if len(v) != len(dp.Vec) {
					continue
				}
				s := cfg.metric.Sim(dp.Vec, v)
				if s > bs {
					best, bs = i, s
				}
				if i == idx {
					my = s
				}
			}
			ok := f()
			if len(offers[idOf(dp)]) == 0 {
				seq = append(seq, idOf(dp))
			}
			offers[idOf(dp)] = append(offers[idOf(dp)], off{idx, best, bs - my, ok})
			return ok
		}})
	}
	nr := 1 + k.R.IntN(6)
	for i := 0; i < nr; i++ {
		switch k.R.IntN(5) {
		case 0, 1:
			mk(cm.Centroids[k.R.IntN(len(cm.Centroids))], false)
		case 2:
			x := cfg.newCentroid(st.VG.Vec())
			mk(x, k.R.IntN(4) == 0)
		case 3:
			o := cfg.newCM(st.VG.Vec())
			o.AddDataPoint(st.newDP("plain"))
			mk(o, k.R.IntN(4) == 0)
		case 4:
			mk(&stubRecv{vec: st.VG.Vec(), mode: k.R.IntN(2)}, false)
		}
	}
	pre := deepSnap(st.B)
	var preSrc SC
	n := st.pickN(pre.total())
	if single {
		preSrc = snapC(src)
		n = 1 + k.R.IntN(src.LenDP()+2)
		src.DistributeDataPoints(n, recv)
	} else {
		cm.DistributeDataPoints(n, recv)
	}
	k.Op("distribute n=%d to %d receivers, %s", n, nr, cfg.metric.Name)
	post := snapB(st.B)
	if len(seq) > max(n, 0) {
		k.Fail("redistribution of at most %d points offered %d", n, len(seq))
	}
	for id, os := range offers {
		asked := map[int]bool{}
		for _, o := range os {
			// better receivers must have been asked before
			if o.gap > tol && !asked[o.best] {
				k.Fail("%s was offered to receiver %d although receiver %d is more similar by %v", sid(id), o.to, o.best, o.gap)
			}
			asked[o.to] = true
		}
		k.Count("offers", int64(len(os)))
	}
	// points nobody took are back in their centroid
	preOwn, postOwn := owner(pre), owner(post)
	for id, os := range offers {
		accepted := false
		for _, o := range os {
			accepted = accepted || o.ok
		}
		if accepted { // moved: it may then have been offered on from where it went
			continue
		}
		i, in := postOwn[id]
		if !in || post.Cs[i].P != ownerP(cm, pre, preOwn[id]) {
			k.Fail("nobody took %s, and it is not back in its centroid", sid(id))
		}
		k.Count("put_back", 1)
	}
	if single {
		// exactly the worst fits are offered
		type fit struct {
			id uint64
			s  float64
		}
		var fs []fit
		for i, id := range preSrc.IDs {
			fs = append(fs, fit{id, cfg.metric.Sim(preSrc.Vec, preSrc.DPs[i].Vec)})
		}
		sort.Slice(fs, func(a, b int) bool { return fs[a].s < fs[b].s })
		m := min(n, len(fs))
		if m < len(fs) && fs[m].s-fs[m-1].s < tol {
			k.Count("ties", 1)
		} else {
			comparable := false
			for _, r := range inner {
				comparable = comparable || len(r.Vec()) == st.VG.Dim
			}
			for i := 0; i < m; i++ {
				if comparable && len(offers[fs[i].id]) == 0 {
					k.Fail("the %d worst fits are to be moved; %s (rank %d) was not offered to any receiver", m, sid(fs[i].id), i)
				}
			}
			for _, f := range fs[m:] {
				if len(offers[f.id]) > 0 {
					k.Fail("%s was moved though %d points fit worse", sid(f.id), m)
				}
			}
			k.Count("worst_fit_sets_checked", 1)
		}
	} else {
		for _, x := range pre.Cs {
			worst, rest, nm := math.Inf(-1), math.Inf(1), 0
			for i, id := range x.IDs {
				s := cfg.metric.Sim(x.Vec, x.DPs[i].Vec)
				if len(offers[id]) > 0 && preOwn[id] >= 0 {
					nm++
					worst = math.Max(worst, s)
				} else {
					rest = math.Min(rest, s)
				}
			}
			_ = nm
			// centroids that are receivers themselves may take points before giving
			// some away; then their worst fits are not those of before
			isRecv := false
			for _, r := range inner {
				if c, o := r.(*Centroid); o {
					for i := range pre.Cs {
						if ownerP(cm, pre, i) == c {
							isRecv = true
						}
					}
				}
			}
			if !isRecv && nm > 0 && rest < worst-tol {
				k.Fail("a centroid gave up a point of similarity %v to it while keeping one of similarity %v", worst, rest)
			}
		}
	}
	k.Sig(fmt.Sprint("local", single, nr, n, len(seq), pre.shape()))
	k.Sample("local", 1, tail(k.Ops(), 4))
}

// ownerP: the centroid that was at index i before (redistribution keeps centroids).
func ownerP(cm *CM, pre *Snap, i int) *Centroid {
	if i < 0 || i >= len(cm.Centroids) {
		return nil
	}
	return cm.Centroids[i]
}

// internalCase: internal redistribution of a single point at a time, where the
// outcome is fully determined.
func internalOneCase(k *K) {
	cfg := newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], 0, 0)
	bn := []string{"local", "server", "client"}[k.R.IntN(3)]
	maxC, maxN := 6, 10
	if k.R.IntN(25) == 0 {
		maxC, maxN = 250, 3
	}
	st := newStore(k, storeOpts{backend: bn, live: "plain", fam: []string{"gauss", "clusters", "positive"}[k.R.IntN(3)], cfg: &cfg, maxC: maxC, maxN: maxN})
	defer st.B.Close()
	tol := scoreTol(cfg.metric, st.Scale)
	for i := 0; i < 5; i++ {
		pre := deepSnap(st.B)
		st.B.DistInternal(1)
		k.Op("internal redistribution of 1")
		post := deepSnap(st.B)
		if len(pre.Cs) != len(post.Cs) {
			k.Fail("internal redistribution changed the number of centroids")
		}
		preOwn, postOwn := owner(pre), owner(post)
		var mv []uint64
		for id, j := range preOwn {
			if postOwn[id] != j {
				mv = append(mv, id)
			}
		}
		if len(mv) > 1 {
			k.Fail("internal redistribution of one point moved %d", len(mv))
		}
		for _, id := range mv {
			from, to := preOwn[id], postOwn[id]
			dp := st.Reg.dps[id]
			// receivers as the point is offered: its own centroid without it
			var own [][]float64
			for _, d := range pre.Cs[from].DPs {
				if idOf(d) != id {
					own = append(own, d.Vec)
				}
			}
			for j, x := range pre.Cs {
				v := x.Vec
				if j == from && len(own) > 0 {
					v = refMean(own)
				}
				if j != to && cfg.metric.Sim(dp.Vec, v) > cfg.metric.Sim(dp.Vec, pre.Cs[to].Vec)+tol*10 {
					k.Fail("%s moved from centroid %d to %d, but %d is more similar", sid(id), from, to, j)
				}
			}
			for t, d := range pre.Cs[from].DPs {
				if cfg.metric.Sim(d.Vec, pre.Cs[from].Vec) < cfg.metric.Sim(dp.Vec, pre.Cs[from].Vec)-tol {
					k.Fail("%s was moved though %s fits centroid %d worse", sid(id), sid(pre.Cs[from].IDs[t]), from)
				}
			}
			k.Count("internal_moves", 1)
		}
		k.Sig(fmt.Sprint("int", pre.shape(), post.shape()))
	}
}

func init() {
	reg(&Prop{ID: "C18", Level: "exploration", Min: 150,
		Assume: []string{"between nodes, similarity is cosine (the redistribution has no other); a receiver is judged against the vectors the candidates had at any time from the start of the redistribution to the point's arrival"},
		Rule:   "redistributions (fast, accurate over TCP among 2-5 nodes and stub nodes that refuse or accept, with self, repeated, dead and down addresses; local to centroids, managers and stubs; internal) judged per point against recorded vectors; distinct by shape and outcome",
		Run: func(r *Run) {
			r.Cases("between", r.N(2500, 40000), 8, betweenCase)
			r.Cases("equal", r.N(300, 6000), 8, twinCluster)
			r.Cases("local", r.N(10000, 200000), 8, localDistCase)
			r.Cases("internal", r.N(3000, 60000), 8, internalOneCase)
		}})
}
