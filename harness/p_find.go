package main

// C31: what is placed well is found. Groups of points, each held by one node in
// centroids of its own; queries for up to a group's size of points have to return
// points of the group only, and the truly nearest ones of the whole cluster if the
// group is in one centroid.

import (
	"fmt"
	"math"
	"sort"

	"trypo/core/dps"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type findNet struct {
	k     *K
	g     *groups
	cfg   cmCfg
	ns    string
	nodes []*Node
	home  []int // group -> node
	parts []int // group -> number of centroids
	have  map[uint64]DP
	size  []int
}

// member makes a point of a group.
func (f *findNet) put(grp int, d DP) { f.have[idOf(d)] = d; f.size[grp]++ }

func newFindNet(k *K) *findNet {
	cfg := newCfg(mCos, 1<<30, k.R.IntN(5))
	if k.R.IntN(3) == 0 {
		cfg = newCfg(mEuc, 1<<30, k.R.IntN(5))
	}
	f := &findNet{k: k, cfg: cfg, ns: pickNS(k), have: map[uint64]DP{}}
	f.g = newGroups(k, 2+k.R.IntN(6), cfg.metric.Name != "euc")
	nn := 1 + k.R.IntN(min(4, f.g.n))
	f.home, f.parts, f.size = make([]int, f.g.n), make([]int, f.g.n), make([]int, f.g.n)
	for i := range f.home {
		f.home[i] = k.R.IntN(nn)
		if i < nn { // every node has one
			f.home[i] = i
		}
		f.parts[i] = 1
		// (by distance, the mean of a node says little about its groups if they have
		// different weights in it)
		if k.R.IntN(4) == 0 && cfg.metric.Name != "euc" {
			f.parts[i] = 2 + k.R.IntN(3)
		}
	}
	for i := 0; i < nn; i++ {
		nd := newNode(cfg)
		f.nodes = append(f.nodes, nd)
		b := &serverB{s: nd.Srv, ns: f.ns}
		var cs []*Centroid
		for grp, h := range f.home {
			if h != i {
				continue
			}
			for p := 0; p < f.parts[grp]; p++ {
				d := f.g.dp(grp)
				c := cfg.newCentroid(d.Vec)
				for j := k.R.IntN(12); j >= 0; j-- {
					if !c.AddDataPoint(d) {
						k.Fail("a centroid refused a point")
					}
					f.put(grp, d)
					d = f.g.dp(grp)
				}
				cs = append(cs, c)
			}
		}
		first := f.g.dp(0)
		if !b.Add(first) {
			k.Fail("insert refused")
		}
		b.With(func(cm *CM) {
			k.R.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			cm.Centroids = cs
			cm.MoveVector()
		})
	}
	return f
}

func (f *findNet) Close() {
	for _, n := range f.nodes {
		n.Close()
	}
}

func (f *findNet) addrs() (r []Addr) {
	for _, n := range f.nodes {
		r = append(r, n.A())
	}
	if f.k.R.IntN(4) == 0 {
		r = append(r, addrOf(deadAddr()))
	}
	if f.k.R.IntN(4) == 0 {
		r = append(r, r[f.k.R.IntN(len(r))])
	}
	f.k.R.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return
}

// placed: every point of a group is on the group's node, with its own kind only.
func (f *findNet) placed(what string) {
	n := 0
	for i, nd := range f.nodes {
		for ci, c := range snapB(&serverB{s: nd.Srv, ns: f.ns}).Cs {
			grp := -1
			for _, d := range c.DPs {
				g, ok := f.g.of[idOf(d)]
				if _, in := f.have[idOf(d)]; !ok || !in {
					f.k.Fail("after %s node %d holds %s, which is not stored (any more)", what, i, sid(idOf(d)))
				}
				n++
				if f.home[g] != i {
					f.k.Fail("after %s a point of group %d is on node %d instead of %d", what, g, i, f.home[g])
				}
				if grp >= 0 && grp != g {
					f.k.Fail("after %s centroid %d of node %d holds points of groups %d and %d", what, ci, i, grp, g)
				}
				grp = g
			}
		}
	}
	if n != len(f.have) {
		f.k.Fail("after %s %d points are stored, %d are due", what, n, len(f.have))
	}
}

// move has two nodes exchange all they have, or a group go to another node.
func (f *findNet) move(grp int) {
	k := f.k
	a, b := f.home[grp], k.R.IntN(len(f.nodes))
	if a == b {
		return
	}
	var da, db []*Centroid
	sa, sb := &serverB{s: f.nodes[a].Srv, ns: f.ns}, &serverB{s: f.nodes[b].Srv, ns: f.ns}
	sa.With(func(cm *CM) { da = cm.Centroids })
	sb.With(func(cm *CM) { db = cm.Centroids })
	if k.R.IntN(2) == 0 {
		da, db = db, da
		for g, h := range f.home {
			if h == a {
				f.home[g] = b
			} else if h == b {
				f.home[g] = a
			}
		}
		k.Op("nodes %d and %d exchange what they have", a, b)
	} else {
		var stay, go_ []*Centroid
		for _, c := range da {
			if len(c.DataPoints) > 0 && f.g.of[idOf(c.DataPoints[0])] == grp {
				go_ = append(go_, c)
			} else if len(c.DataPoints) > 0 {
				// (an emptied centroid could be one of the group's, and would be asked
				// for it)
				stay = append(stay, c)
			}
		}
		left := 0
		for _, c := range stay {
			left += len(c.DataPoints)
		}
		// (an emptied node's vector says nothing)
		if len(go_) == 0 || left == 0 {
			return
		}
		da, db = stay, append(append([]*Centroid(nil), db...), go_...)
		f.home[grp] = b
		k.Op("group %d moves from node %d to %d", grp, a, b)
	}
	sa.With(func(cm *CM) { cm.Centroids = da; cm.MoveVector() })
	sb.With(func(cm *CM) { cm.Centroids = db; cm.MoveVector() })
	k.Count("moves_between_nodes", 1)
}

func findCase(k *K) {
	f := newFindNet(k)
	defer f.Close()
	k.Op("%s, groups on nodes %v in %v centroids", f.cfg.metric.Name, f.home, f.parts)
	f.placed("set-up")
	queries, exact, deep := 0, 0, 0
	for step := 0; step < 10+k.R.IntN(25); step++ {
		k.Beat()
		grp := k.R.IntN(f.g.n)
		switch op := k.R.IntN(20); {
		case op < 5: // data arrives
			d := f.g.dp(grp)
			kind := []string{"fast", "accurate"}[k.R.IntN(2)]
			if f.size[grp] == 0 {
				continue // nothing that would attract it
			}
			if !putFns[kind](dps.PutDataPointArgs{AddrOptions: f.addrs(), Namespace: f.ns, DataPoint: d, KNNSearchFunc: f.cfg.knn}) {
				k.Fail("put %s refused", kind)
			}
			f.put(grp, d)
			k.Op("put %s into group %d", kind, grp)
			f.placed("put " + kind)
		case op < 7: // maintenance that has nothing to improve
			nd := f.nodes[k.R.IntN(len(f.nodes))]
			cl := kmrpc.KMeansClient(nd.Addr, f.ns, nil)
			what := ""
			switch k.R.IntN(6) {
			case 0:
				what = "memtrim"
				cl.MemTrim()
			case 1:
				what = "expire"
				cl.Expire()
			case 2:
				what = "move vector"
				cl.MoveVector()
			case 3:
				what = "internal redistribution"
				cl.DistributeDataPointsInternal(1 + k.R.IntN(10))
			default:
				// (between nodes similarity is always cosine)
				if f.cfg.metric.Name == "euc" {
					continue
				}
				n := 1 + k.R.IntN(6)
				var as []string
				for _, a := range f.addrs() {
					as = append(as, a.ToStr())
				}
				// an emptied centroid's vector says nothing
				small := false
				for _, c := range snapB(&serverB{s: nd.Srv, ns: f.ns}).Cs {
					small = small || len(c.DPs) <= n
				}
				if small {
					continue
				}
				if k.R.IntN(2) == 0 {
					what = "fast redistribution"
					cl.DistributeDataPointsFast(as, n)
				} else {
					what = "accurate redistribution"
					cl.DistributeDataPointsAccurate(as, n)
				}
			}
			k.Op("%s", what)
			f.placed(what)
		case op < 8: // groups change their nodes
			f.move(grp)
			f.placed("a move")
		default: // it is searched for
			if f.size[grp] == 0 {
				continue
			}
			q := cloneVec(f.g.dp(grp).Vec)
			if k.R.IntN(4) == 0 { // one of the stored points itself
				ids := map[uint64]int{}
				for id := range f.have {
					if f.g.of[id] == grp {
						ids[id] = 1
					}
				}
				q = cloneVec(f.have[sortedIDs(ids)[k.R.IntN(len(ids))]].Vec)
			}
			n := 1 + k.R.IntN(f.size[grp])
			if k.R.IntN(3) == 0 {
				n = f.size[grp]
			}
			drain := k.R.IntN(6) == 0
			kind := []string{"fast", "accurate"}[k.R.IntN(2)]
			out := getFns[kind](dps.GetDataPointsArgs{AddrOptions: f.addrs(), Namespace: f.ns, QueryVec: cloneVec(q), N: n, Drain: drain, KNNSearchFunc: f.cfg.knn})
			k.Op("get %s group %d (%d points, %d centroids, node %d) n=%d drain=%v -> %d", kind, grp, f.size[grp], f.parts[grp], f.home[grp], n, drain, len(out))
			queries++
			if len(out) != n {
				k.Fail("a query for %d of the %d points of a group returned %d", n, f.size[grp], len(out))
			}
			seen := map[uint64]bool{}
			var sc []float64
			for i, d := range out {
				id := idOf(d)
				o, ok := f.have[id]
				if !ok || seen[id] {
					k.Fail("result %d, %s, is not stored or a repetition", i, sid(id))
				}
				seen[id] = true
				if e := dpDiff(o, d); e != "" {
					k.Fail("result %d: %s", i, e)
				}
				if f.g.of[id] != grp {
					k.Fail("a query (%s) for %d points near group %d, which has %d points, returned a point of group %d at position %d", kind, n, grp, f.size[grp], f.g.of[id], i)
				}
				sc = append(sc, f.score(q, d.Vec))
			}
			if f.parts[grp] == 1 {
				exact++
				if n > 1 {
					deep++
				}
				// the truly nearest of everything the cluster holds
				var all []float64
				for _, d := range f.have {
					all = append(all, f.score(q, d.Vec))
				}
				sort.Sort(sort.Reverse(sort.Float64Slice(all)))
				for i := range sc {
					if math.Abs(sc[i]-all[i]) > 1e-9*(1+math.Abs(all[i])) {
						k.Fail("result %d of %d (%s, group %d) scores %g, the truly %d. best of all %d points in the cluster scores %g", i, n, kind, grp, sc[i], i+1, len(all), all[i])
					}
				}
			}
			if drain {
				for id := range seen {
					delete(f.have, id)
				}
				f.size[grp] -= len(seen)
				f.placed("drain")
				if f.size[grp] == 0 {
					k.Count("groups_emptied", 1)
				}
			}
		}
		// a group may lose centroids to drains: only its count matters then
	}
	k.Count("queries", int64(queries))
	k.Count("queries_against_brute_force", int64(exact))
	if deep > 0 {
		k.Sig(fmt.Sprint(f.cfg.metric.Name, f.home, f.parts, f.size, queries))
		k.Sample("find", 3, map[string]any{"metric": f.cfg.metric.Name, "group_on_node": f.home, "centroids_per_group": f.parts, "points_per_group": f.size, "queries": queries, "compared_with_brute_force": exact})
	}
}

func (f *findNet) score(q, v []float64) float64 {
	if f.cfg.metric.Name == "euc" {
		return -refEuc(q, v)
	}
	return refCos(q, v)
}

func init() {
	reg(&Prop{ID: "C31", Level: "exploration", Min: 100,
		Assume: []string{"groups lie along orthogonal directions with 2 % noise, and each centroid holds one group only"},
		Rule:   "2-7 groups on 1-4 nodes in 1-4 centroids each; points put by the cluster functions, maintenance with nothing to improve, queries near a group for up to its size of points (cosine and Euclidean, fast and accurate, with drains), compared with a brute-force ranking of the whole cluster; distinct by layout and sizes of cases in which a query for several points was compared",
		Run: func(r *Run) {
			r.Cases("find", r.N(1500, 30000), 8, findCase)
		}})
}
