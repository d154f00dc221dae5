package main

// C36: what a steal takes.

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// pointGroups: the points of each centroid that has any, as one string per centroid.
func pointGroups(s *Snap) map[string]int {
	g := map[string]int{}
	for i, c := range s.Cs {
		if len(c.IDs) == 0 {
			continue
		}
		ids := append([]uint64(nil), c.IDs...)
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
		g[fmt.Sprint(ids)] = i
	}
	return g
}

func stealCase(k *K) {
	cfg := pickCfg(k)
	if k.R.IntN(2) == 0 {
		cfg = newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], 0, 0)
	}
	c := newCluster(k, 2, cfg, pickNS(k), "", 0)
	defer c.Close()
	src, dst := c.St[0], c.St[1]
	maxC, maxN := 12, 12
	switch x := k.R.IntN(40); {
	case x < 4:
		maxC, maxN = 60, 4
	case x == 4:
		maxC, maxN = 500, 2
	case x < 8:
		maxC, maxN = 40, 80
	}
	src.populate(randSizes(k, maxC, maxN), false)
	has := "no namespace"
	switch k.R.IntN(6) {
	case 0:
	case 1:
		has = "centroids without points"
		dst.populate(randSizes(k, 3, 3), false)
		dst.B.DrainU(100)
	case 2:
		has = "another dimension"
		v := append(c.VG.Vec(), 1)
		if !dst.B.Add(c.Reg.New(k.R, v, "plain")) {
			k.Fail("insert refused")
		}
	default:
		has = "points"
		dst.populate(randSizes(k, 6, 8), false)
	}
	for round := 1 + k.R.IntN(3); round > 0; round-- {
		a, b := deepSnap(src.B), deepSnap(dst.B)
		total := a.total()
		limit := 1 + logInt(k.R, total+5)
		switch k.R.IntN(10) {
		case 0:
			limit = []int{0, -1, -1000, math.MinInt}[k.R.IntN(4)]
		case 1:
			limit = []int{total, total - 1, total + 1, 1 << 30, math.MaxInt}[k.R.IntN(5)]
		}
		n, ok, err := c.steal(1, c.Nodes[0].Addr, limit)
		what := fmt.Sprintf("steal of %d of %s (thief with %s)", limit, a.shape(), has)
		a2, b2 := deepSnap(src.B), deepSnap(dst.B)
		if err != nil || !ok {
			k.Fail("%s: reports ok=%v, error %v", what, ok, err)
		}
		if got := b2.total() - b.total(); got != n || total-a2.total() != n {
			k.Fail("%s: reports %d, %d left and %d arrived", what, n, total-a2.total(), got)
		}
		q := a.Vec
		if b.Exists {
			q = b.Vec
		}
		// whole centroids, the others as they were
		ga, gb, ga2, gb2 := pointGroups(a), pointGroups(b), pointGroups(a2), pointGroups(b2)
		var moved, left []SC
		for g, i := range ga {
			_, here := ga2[g]
			_, there := gb2[g]
			switch {
			case here == there:
				k.Fail("%s: the centroid of %s is on both nodes or on none, or was changed", what, sids(a.Cs[i].IDs))
			case there:
				moved = append(moved, a.Cs[i])
			default:
				left = append(left, a.Cs[i])
			}
		}
		for g, i := range gb {
			if _, there := gb2[g]; !there {
				k.Fail("%s: the thief's own centroid of %s was changed", what, sids(b.Cs[i].IDs))
			}
		}
		if len(ga2)+len(gb2) != len(ga)+len(gb) {
			k.Fail("%s: %d+%d centroids with points before, %d+%d after", what, len(ga), len(gb), len(ga2), len(gb2))
		}
		// the most similar ones, and enough of them
		m := cfg.metric
		tol := 10 * m.Tol(c.scale()+maxAbs(q))
		worst := math.Inf(1)
		for _, x := range moved {
			if len(x.Vec) != len(q) {
				k.Fail("%s: took a centroid of %d dimensions", what, len(x.Vec))
			}
			worst = math.Min(worst, m.Sim(q, x.Vec))
		}
		match := 0
		for _, x := range a.Cs {
			if len(x.Vec) == len(q) {
				match += len(x.IDs)
			}
		}
		for _, x := range left {
			if len(x.Vec) != len(q) {
				continue
			}
			if s := m.Sim(q, x.Vec); len(moved) > 0 && s > worst+tol {
				k.Fail("%s: took a centroid with similarity %.12g to the thief's vector and left one with %.12g", what, worst, s)
			}
		}
		if want := max(0, min(limit, match)); n < want {
			k.Fail("%s: %d points moved, %d of that dimension were there", what, n, match)
		}
		least := n
		for _, x := range moved {
			if m.Sim(q, x.Vec) <= worst+tol {
				least = min(least, n-len(x.IDs))
			}
		}
		if len(moved) > 0 && least >= limit {
			k.Fail("%s: went on after %d points", what, least)
		}
		c.contentOK(&CSnap{N: []*Snap{a2, b2}}, what)
		for j, s := range []*Snap{a2, b2} {
			checkNSMean(k, s, 1e-7*c.scale(), fmt.Sprintf("%s (node %d)", what, j))
			checkMeans(k, s, 1e-7*c.scale(), what)
		}
		k.Count("centroids_stolen", int64(len(moved)))
		k.Count("points_stolen", int64(n))
		k.Max("most_centroids_in_one_steal", int64(len(moved)))
		k.Count("steals_by_thief_with_"+strings.ReplaceAll(has, " ", "_"), 1)
		k.Sig(fmt.Sprint(has, limit, a.shape(), n))
		if has == "another dimension" && n > 0 {
			k.Fail("%s: %d points moved", what, n)
		}
		if b2.Exists && b2.total() > 0 && has != "another dimension" {
			has = "points"
		}
	}
}

func init() {
	reg(&Prop{ID: "C36", Level: "exploration", Min: 200,
		Assume: []string{"no other operation on the two namespaces during a steal (C16, C32), no faults (C17, C26)", "stored points do not expire during the case"},
		Rule:   "steals of random and extreme amounts between two nodes over TCP, from up to 500 centroids, thief with points, with empty centroids, with another dimension or without the namespace; distinct by sizes, amount and outcome",
		Run: func(r *Run) {
			r.Cases("steal", r.N(2500, 50000), 8, stealCase)
		}})
}
