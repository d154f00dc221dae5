package main

// Monitors for the sequential store properties C01-C10 and C30.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"trypo/pkg/kmeans/common"
)

// ---- backends and case set-up ----

func newBackend(k *K, cfg cmCfg, name string) Backend {
	switch name {
	case "local":
		return &localB{cfg.newCM(nil)}
	case "server":
		return &serverB{s: newServer(cfg), ns: pickNS(k)}
	case "client":
		return &clientB{node: newNode(cfg), ns: pickNS(k)}
	}
	panic(name)
}

func pickNS(k *K) string {
	return []string{"ns", "", "a b", "Ünïcödé/#%", "ns\x00x", strings.Repeat("n", 300)}[k.R.IntN(6)]
}

// pickBackend: mostly local (fast), some through the node's handlers and TCP.
func pickBackend(k *K) string {
	switch k.R.IntN(8) {
	case 0, 1:
		return "server"
	case 2:
		return "client"
	}
	return "local"
}

func pickCfg(k *K) cmCfg {
	m := mCos
	if k.R.IntN(4) == 0 {
		m = mEuc
	}
	return newCfg(m, []int{0, 0, 2, 3, 4, 5, 8, 10, 50, 100, 10000}[k.R.IntN(11)], []int{0, 1, 10, 100}[k.R.IntN(4)])
}

type storeOpts struct {
	backend string // "" = any
	live    string
	fam     string
	maxC    int
	maxN    int
	noPop   bool
	cfg     *cmCfg
	expP    float64
}

func newStore(k *K, o storeOpts) *Store {
	cfg := pickCfg(k)
	if o.cfg != nil {
		cfg = *o.cfg
	}
	bn := o.backend
	if bn == "" {
		bn = pickBackend(k)
	}
	st := &Store{K: k, Cfg: cfg, Reg: newReg(), VG: newVG(k.R, 0, o.fam), Live: o.live}
	st.Scale = st.VG.Scale
	for _, c := range st.VG.centers {
		st.Scale = math.Max(st.Scale, maxAbs(c))
	}
	if st.Live == "" {
		st.Live = "live"
	}
	st.B = newBackend(k, cfg, bn)
	maxC, maxN := o.maxC, o.maxN
	if maxC == 0 {
		maxC = 9
	}
	if maxN == 0 {
		maxN = 30
		if k.R.IntN(12) == 0 {
			maxN = 300
		}
		if k.R.IntN(60) == 0 {
			maxN, maxC = 1500, 3
		}
		switch x := k.R.IntN(1000); {
		case o.maxC > 0:
		case x < 4:
			maxC, maxN = 60+k.R.IntN(400), 2+k.R.IntN(5)
		case x == 4:
			maxC, maxN = 1, 12000
		}
	}
	if !o.noPop && k.R.IntN(5) > 0 {
		st.populate(randSizes(k, maxC, maxN), false)
	} else {
		k.Op("start empty (%s, dim %d, %s, %s, threshold %d)", st.VG.Fam, st.VG.Dim, st.B.Name(), cfg.metric.Name, cfg.threshold)
		n := 1 + logInt(k.R, 60)
		for i := 0; i < n; i++ {
			dp := st.newDP(st.Live)
			if !st.B.Add(dp) {
				k.Fail("insert %d of an unexpired point into a fresh namespace was refused", i)
			}
		}
		k.Op("insert %d points", n)
	}
	if o.expP > 0 {
		st.flipExpired(o.expP)
	}
	return st
}

var allOps = []wop{{"add", 6}, {"drainU", 2}, {"drainO", 2}, {"expire", 1}, {"trim", 2}, {"moveV", 1}, {"distI", 3}, {"knn", 4}, {"nearC", 2}, {"nearCV", 1}, {"split", 3}, {"merge", 3}, {"len", 1}}

func reweigh(m map[string]int) []wop {
	r := make([]wop, len(allOps))
	copy(r, allOps)
	for i := range r {
		if w, ok := m[r[i].kind]; ok {
			r[i].w = w
		}
	}
	return r
}

// runSeq is the common workload: an operation sequence judged by monitors.
func runSeq(k *K, o storeOpts, w []wop, maxOps int, mons ...Monitor) *Store {
	// now and then a long history of one small namespace
	long := k.Part == "seq" && k.Idx%1000 == 613
	if long {
		o.backend, o.maxC, o.maxN = "local", 4, 20
		w = append(append([]wop(nil), w...), wop{"add", 25})
	}
	st := newStore(k, o)
	defer st.B.Close()
	n := 3 + k.R.IntN(maxOps)
	if long {
		n = 2500 + k.R.IntN(2500)
		k.Count("long_histories", 1)
	}
	kinds := ""
	for i := 0; i < n; i++ {
		if o.live != "plain" && k.R.IntN(9) == 0 {
			st.flipExpired([]float64{0.1, 0.3, 0.7}[k.R.IntN(3)])
		}
		op := st.genOp(w)
		if long && i%25 == 0 && st.B.Len() > 150 {
			op = &OpR{Kind: "drainU", N: 100}
		}
		if cb, ok := st.B.(*clientB); ok {
			cb.err = nil
		}
		_, post := st.step(op, mons...)
		if _, ok := st.B.(*localB); !ok && op.Err != nil {
			k.Fail("%s on an existing namespace returned an error: %v", op.Kind, op.Err)
		}
		if !long {
			kinds += op.Kind + " "
		}
		k.Count("op:"+op.Kind, 1)
		k.Max("max_points_in_store", int64(post.total()))
		k.Max("max_centroids", int64(len(post.Cs)))
	}
	st.keptOK()
	k.Count("ops", int64(n))
	fs := snapB(st.B)
	k.Sig(fmt.Sprintf("%s %s %d %s %s", st.B.Name(), st.VG.Fam, st.VG.Dim, kinds, fs.shape()))
	k.Sample(k.Part, 2, map[string]any{"backend": st.B.Name(), "metric": st.Cfg.metric.Name, "threshold": st.Cfg.threshold, "dim": st.VG.Dim, "family": st.VG.Fam, "ops": tail(k.Ops(), 25), "final_centroid_sizes": fs.shape()})
	return st
}

// ---- monitors ----

func isMaint(kind string) bool {
	switch kind {
	case "expire", "trim", "moveV", "distI", "split", "merge":
		return true
	}
	return false
}

// monConserve (C01).
func monConserve(st *Store, pre, post *Snap, o *OpR) {
	k := st.K
	a, b := pre.ids(), post.ids()
	if d := dupIDs(b); len(d) > 0 && len(dupIDs(a)) == 0 {
		k.Fail("%s duplicated points %s", o, sids(d))
	}
	st.contentOK(post, o.String())
	if !isMaint(o.Kind) {
		return
	}
	exp := pre.expired()
	if lost := filterOut(diffIDs(a, b), exp); len(lost) > 0 {
		k.Fail("%s lost unexpired points %s (centroid sizes %s-> %s)", o, sids(lost), pre.shape(), post.shape())
	}
	if got := diffIDs(b, a); len(got) > 0 {
		k.Fail("%s made points appear: %s", o, sids(got))
	}
}

// monAdd (C02).
func monAdd(st *Store, pre, post *Snap, o *OpR) {
	if o.Kind != "add" {
		return
	}
	k := st.K
	a, b := pre.ids(), post.ids()
	id := idOf(o.DP)
	dimOK := len(pre.Cs) == 0
	for _, c := range pre.Cs {
		if len(c.Vec) == len(o.DP.Vec) {
			dimOK = true
		}
	}
	want := dimOK && !isExpired(o.DP) && finite(o.DP.Vec)
	stored := b[id] - a[id]
	if o.OK != (stored == 1) || stored > 1 || stored < 0 {
		k.Fail("%s: reported %v but the point is stored %d times afterwards", o, o.OK, b[id])
	}
	if o.OK != want {
		k.Fail("%s: reported %v, want %v (expired=%v, dimension fits=%v, finite=%v)", o, o.OK, want, isExpired(o.DP), dimOK, finite(o.DP.Vec))
	}
	if lost := filterOut(diffIDs(a, b), pre.expired()); len(lost) > 0 {
		k.Fail("%s removed other points %s", o, sids(lost))
	}
	for _, x := range diffIDs(b, a) {
		if x != id {
			k.Fail("%s made another point appear: %s", o, sid(x))
		}
	}
	st.contentOK(post, o.String())
	k.Count(fmt.Sprintf("adds:%s:%v", o.DPClass, o.OK), 1)
}

// monExpiry (C03).
func monExpiry(st *Store, pre, post *Snap, o *OpR) {
	k := st.K
	exp := pre.expired()
	if o.Kind == "add" && o.OK && isExpired(o.DP) {
		k.Fail("%s: an expired point was accepted", o)
	}
	if o.Kind == "add" && post.ids()[idOf(o.DP)] > 0 && isExpired(o.DP) {
		k.Fail("%s: an expired point was stored", o)
	}
	if o.Kind == "knn" || o.Kind == "drainU" || o.Kind == "drainO" {
		for _, d := range o.Out {
			if isExpired(d) || exp[idOf(d)] {
				k.Fail("%s returned expired point %s", o, sid(idOf(d)))
			}
		}
	}
	if o.Kind == "expire" || o.Kind == "trim" {
		if n := post.nExpired(); n > 0 {
			k.Fail("%s left %d expired points (before: %s, after: %s)", o, n, pre.shape(), post.shape())
		}
	}
	k.Count("expired_seen", int64(len(exp)))
	// nothing unexpired disappears, except what is returned
	a, b := pre.ids(), addIDs(post.ids(), o.Out)
	if o.Kind == "nearC" && o.Drain {
		if st.B.Name() == "local" {
			b = addIDs(b, centroidsDPs(o.OutC))
		} else {
			return
		}
	}
	if lost := filterOut(diffIDs(a, b), exp); len(lost) > 0 {
		k.Fail("%s made unexpired points disappear: %s (before: %s, after: %s)", o, sids(lost), pre.shape(), post.shape())
	}
}

// monKNNCount (C04).
func monKNNCount(st *Store, pre, post *Snap, o *OpR) {
	if o.Kind != "knn" {
		return
	}
	k := st.K
	live := map[uint64]bool{}
	for _, c := range pre.Cs {
		for i, id := range c.IDs {
			if !c.Exp[i] && len(c.DPs[i].Vec) == len(o.Vec) {
				live[id] = true
			}
		}
	}
	want := o.N
	if want < 0 {
		want = 0
	}
	if want > len(live) {
		want = len(live)
	}
	if len(o.Out) != want {
		k.Fail("%s returned %d points, want min(k, available)=%d (centroids: %s)", o, len(o.Out), want, pre.shape())
	}
	seen := map[uint64]bool{}
	for _, d := range o.Out {
		id := idOf(d)
		if seen[id] {
			k.Fail("%s returned %s twice", o, sid(id))
		}
		seen[id] = true
		if !live[id] {
			k.Fail("%s returned %s, which is not an available stored point", o, sid(id))
		}
	}
	st.outOK(o.Out, o.String())
	k.Count("queries", 1)
	k.Count("points_returned", int64(len(o.Out)))
	if o.N > len(live) {
		k.Count("queries_k_above_available", 1)
	}
}

// monKNNRank (C05).
func monKNNRank(st *Store, pre, post *Snap, o *OpR) {
	if o.Kind != "knn" || len(o.Out) == 0 {
		return
	}
	checkRank(st.K, pre, o.Vec, o.N, o.Out, st.Cfg.metric, st.Scale+maxAbs(o.Vec), o.String())
}

// checkRank judges the order of a query result against the state before it.
func checkRank(k *K, pre *Snap, q []float64, n int, out []DP, m Metric, scale float64, what string) {
	tol := m.Tol(scale)
	at := map[uint64]int{}
	vec := map[uint64][]float64{}
	liveIn := make([]map[uint64]float64, len(pre.Cs))
	for ci, c := range pre.Cs {
		liveIn[ci] = map[uint64]float64{}
		for i, id := range c.IDs {
			if c.Exp[i] || len(c.DPs[i].Vec) != len(q) {
				continue
			}
			at[id] = ci
			vec[id] = c.DPs[i].Vec
			liveIn[ci][id] = m.Sim(q, c.DPs[i].Vec)
		}
	}
	used := map[int]int{}
	lastC := -1
	var order []int
	var prev float64
	for i, d := range out {
		id := idOf(d)
		ci, ok := at[id]
		if !ok {
			k.Fail("%s returned %s, which is not an available stored point", what, sid(id))
		}
		if ci != lastC {
			if used[ci] > 0 {
				k.Fail("%s: results of one centroid are not contiguous (position %d)", what, i)
			}
			order = append(order, ci)
			lastC = ci
		} else {
			if s := liveIn[ci][id]; s > prev+tol {
				k.Fail("%s: position %d is more similar to the query (%.12g) than the one before it (%.12g) from the same centroid (%s)", what, i, s, prev, m.Name)
			}
		}
		prev = liveIn[ci][id]
		used[ci]++
	}
	// centroid order
	for i := 1; i < len(order); i++ {
		a, b := pre.Cs[order[i-1]], pre.Cs[order[i]]
		if sa, sb := m.Sim(q, a.Vec), m.Sim(q, b.Vec); sb > sa+tol {
			k.Fail("%s: points of a centroid with similarity %.12g come before those of one with %.12g", what, sa, sb)
		}
		if used[order[i-1]] != len(liveIn[order[i-1]]) {
			k.Fail("%s: went on to a farther centroid with %d of %d points of the nearer one returned", what, used[order[i-1]], len(liveIn[order[i-1]]))
		}
	}
	last := order[len(order)-1]
	ls := m.Sim(q, pre.Cs[last].Vec)
	for ci, c := range pre.Cs {
		if len(liveIn[ci]) == 0 || used[ci] > 0 {
			continue
		}
		if s := m.Sim(q, c.Vec); s > ls+tol {
			k.Fail("%s: skipped a centroid with similarity %.12g and %d points, but used one with %.12g", what, s, len(liveIn[ci]), ls)
		}
	}
	// best points within the last centroid
	ret := map[uint64]bool{}
	worst := math.Inf(1)
	for _, d := range out {
		id := idOf(d)
		ret[id] = true
		if at[id] == last {
			worst = math.Min(worst, liveIn[last][id])
		}
	}
	for id, s := range liveIn[last] {
		if !ret[id] && s > worst+tol {
			k.Fail("%s: left out %s (similarity %.12g) but returned one with %.12g from the same centroid (%s)", what, sid(id), s, worst, m.Name)
		}
	}
	k.Count("ranked_results", int64(len(out)))
	k.Count("ranked_groups", int64(len(order)))
	k.Max("max_groups_in_one_result", int64(len(order)))
}

// monNear (C05): the centroids a query for whole centroids (or for the nearest centroid's
// vector) gives.
func monNear(st *Store, pre, post *Snap, o *OpR) {
	if o.Kind != "nearC" && o.Kind != "nearCV" {
		return
	}
	if len(pre.expired()) > 0 || len(post.expired()) > 0 {
		return // (the vectors may move first)
	}
	k, m := st.K, st.Cfg.metric
	tol := m.Tol(st.Scale + maxAbs(o.Vec))
	var sims []float64
	for _, c := range pre.Cs {
		if len(c.Vec) == len(o.Vec) {
			sims = append(sims, m.Sim(o.Vec, c.Vec))
		}
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(sims)))
	same := func(a, b []float64) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
				return false
			}
		}
		return true
	}
	if o.Kind == "nearCV" {
		if len(sims) == 0 {
			if len(o.OutV) > 0 {
				k.Fail("%s: a vector of no centroid, none has %d dimensions", o, len(o.Vec))
			}
			return
		}
		found := false
		for _, c := range pre.Cs {
			found = found || same(c.Vec, o.OutV)
		}
		if !found {
			k.Fail("%s: %v is the vector of no centroid", o, trim5(o.OutV))
		}
		if s := m.Sim(o.Vec, o.OutV); s < sims[0]-tol {
			k.Fail("%s: the vector of a centroid with similarity %.12g, the nearest has %.12g", o, s, sims[0])
		}
		k.Count("nearest_vectors", 1)
		return
	}
	// The client leaves out centroids without points, and makes new ones of the points.
	_, remote := st.B.(*clientB)
	want := max(0, min(o.N, len(sims)))
	if len(o.OutC) > want || len(o.OutC) < want && !remote {
		k.Fail("%s: %d centroids, %d of %d match the vector", o, len(o.OutC), len(sims), len(pre.Cs))
	}
	live := func(c SC) (n int) {
		for _, e := range c.Exp {
			if !e {
				n++
			}
		}
		return
	}
	used := make([]bool, len(pre.Cs))
	last := math.Inf(1)
	for i, c := range o.OutC {
		ids := addIDs(nil, c.DataPoints)
		at := -1
		for j, x := range pre.Cs {
			if used[j] || !remote && !same(x.Vec, c.Vec()) {
				continue
			}
			n := 0
			for e, id := range x.IDs {
				if ids[id] > 0 {
					n++
				} else if !x.Exp[e] {
					n = -1
					break
				}
			}
			if n == len(c.DataPoints) {
				at = j
				break
			}
		}
		if at < 0 {
			k.Fail("%s: number %d (%d points) is none of the centroids stored, or one twice", o, i, len(c.DataPoints))
		}
		used[at] = true
		s := m.Sim(o.Vec, pre.Cs[at].Vec)
		if s > last+tol {
			k.Fail("%s: number %d of the centroids has similarity %.12g, the one before it %.12g", o, i, s, last)
		}
		last = s
		if s < sims[want-1]-tol {
			k.Fail("%s: a centroid with similarity %.12g, number %d of the nearest has %.12g", o, s, want, sims[want-1])
		}
	}
	for j, c := range pre.Cs {
		if want > 0 && !used[j] && len(c.Vec) == len(o.Vec) && live(c) > 0 && m.Sim(o.Vec, c.Vec) > sims[want-1]+tol {
			k.Fail("%s: a centroid with similarity %.12g and %d points is missing, number %d of the nearest has %.12g",
				o, m.Sim(o.Vec, c.Vec), live(c), want, sims[want-1])
		}
	}
	if remote {
		k.Count("nearest_centroids", int64(len(o.OutC)))
		return
	}
	if o.Drain && len(post.Cs) != len(pre.Cs)-len(o.OutC) {
		k.Fail("%s: %d centroids before, %d after", o, len(pre.Cs), len(post.Cs))
	}
	k.Count("nearest_centroids", int64(len(o.OutC)))
}

// monDrain (C06).
func monDrain(st *Store, pre, post *Snap, o *OpR) {
	k := st.K
	a, b := pre.ids(), post.ids()
	exp := pre.expired()
	switch o.Kind {
	case "drainU", "drainO", "knn":
		st.outOK(o.Out, o.String())
		if o.Kind == "knn" && !o.Drain {
			break
		}
		ret := addIDs(nil, o.Out)
		if d := dupIDs(ret); len(d) > 0 {
			k.Fail("%s returned points twice: %s", o, sids(d))
		}
		gone := diffIDs(a, b)
		for id := range ret {
			if a[id] == 0 {
				k.Fail("%s returned %s, which was not stored", o, sid(id))
			}
			if b[id] > 0 {
				k.Fail("%s returned %s but it is still stored", o, sid(id))
			}
		}
		for _, id := range gone {
			if ret[id] == 0 && !exp[id] {
				k.Fail("%s removed %s without returning it", o, sid(id))
			}
		}
		if x := diffIDs(b, a); len(x) > 0 {
			k.Fail("%s made points appear: %s", o, sids(x))
		}
		k.Count("drained", int64(len(o.Out)))
		st.contentOK(post, o.String())
		return
	case "nearC":
		out := centroidsDPs(o.OutC)
		st.outOK(out, o.String())
		if !o.Drain {
			break
		}
		ret := addIDs(nil, out)
		if d := dupIDs(ret); len(d) > 0 {
			k.Fail("%s returned points twice: %s", o, sids(d))
		}
		for id := range ret {
			if a[id] == 0 || b[id] > 0 {
				k.Fail("%s returned %s, stored before: %d, after: %d", o, sid(id), a[id], b[id])
			}
		}
		for _, id := range diffIDs(a, b) {
			if ret[id] == 0 && !exp[id] {
				k.Fail("%s removed %s without returning it", o, sid(id))
			}
		}
		if x := diffIDs(b, a); len(x) > 0 {
			k.Fail("%s made points appear: %s", o, sids(x))
		}
		k.Count("drained", int64(len(out)))
		return
	case "nearCV", "len", "vec":
	default:
		return
	}
	// a read
	if lost := filterOut(diffIDs(a, b), exp); len(lost) > 0 {
		k.Fail("%s (a read) removed unexpired points %s", o, sids(lost))
	}
	if x := diffIDs(b, a); len(x) > 0 {
		k.Fail("%s (a read) made points appear: %s", o, sids(x))
	}
	if d := dupIDs(b); len(d) > 0 {
		k.Fail("%s (a read) duplicated points: %s", o, sids(d))
	}
	if len(pre.Cs) != len(post.Cs) {
		k.Fail("%s (a read) changed the number of centroids from %d to %d", o, len(pre.Cs), len(post.Cs))
	}
	sameGrouping(k, pre, post, exp, o.String()+" (a read)")
	st.contentOK(post, o.String())
	k.Count("reads", 1)
}

// sameGrouping: the partition of unexpired points into centroids is unchanged.
func sameGrouping(k *K, pre, post *Snap, exp map[uint64]bool, what string) {
	if a, b := partition(pre, exp), partition(post, exp); a != b {
		k.Fail("%s changed which points are stored together", what)
	}
}

func partition(s *Snap, exp map[uint64]bool) string {
	var gs []string
	for _, c := range s.Cs {
		ids := filterOut(c.IDs, exp)
		if len(ids) == 0 {
			continue
		}
		ids = append([]uint64(nil), ids...)
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		gs = append(gs, fmt.Sprint(ids))
	}
	sort.Strings(gs)
	return strings.Join(gs, ";")
}

// monBulk (C07).
func monBulk(st *Store, pre, post *Snap, o *OpR) {
	if o.Kind != "drainU" && o.Kind != "drainO" {
		return
	}
	k := st.K
	exp := pre.nExpired()
	total := pre.total()
	n := o.N
	if n < 0 {
		n = 0
	}
	if len(o.Out) > n {
		k.Fail("%s returned %d points, more than asked for", o, len(o.Out))
	}
	if exp > 0 {
		return
	}
	want := n
	if want > total {
		want = total
	}
	if len(o.Out) != want {
		k.Fail("%s returned %d points, want min(n, stored)=%d (centroids: %s)", o, len(o.Out), want, pre.shape())
	}
	ret := map[uint64]bool{}
	for _, d := range o.Out {
		ret[idOf(d)] = true
	}
	rem := make([]int, len(pre.Cs))
	max := 0
	for i, c := range pre.Cs {
		for _, id := range c.IDs {
			if ret[id] {
				rem[i]++
			}
		}
		if rem[i] > max {
			max = rem[i]
		}
	}
	for i, c := range pre.Cs {
		if rem[i] < len(c.IDs) && rem[i] < max-1 {
			k.Fail("%s took %v points from centroids of sizes %s: not even", o, rem, pre.shape())
		}
	}
	k.Count("bulk_drains", 1)
	if o.Kind == "drainO" {
		m := st.Cfg.metric
		tol := m.Tol(st.Scale)
		for ci, c := range pre.Cs {
			best, worstKept := math.Inf(-1), math.Inf(1)
			for i, id := range c.IDs {
				s := m.Sim(c.Vec, c.DPs[i].Vec)
				if ret[id] {
					best = math.Max(best, s)
				} else {
					worstKept = math.Min(worstKept, s)
				}
			}
			if best > worstKept+tol {
				k.Fail("%s took a point with similarity %.12g from centroid %d but left one with %.12g (%s)", o, best, ci, worstKept, m.Name)
			}
			if rem[ci] > 0 && rem[ci] < len(c.IDs) {
				k.Count("ordered_partial_centroids", 1)
			}
		}
	}
}

// monMean (C08).
func monMean(st *Store, pre, post *Snap, o *OpR) {
	checkMeans(st.K, post, st.tol(), o.String())
}

func checkMeans(k *K, s *Snap, tol float64, what string) {
	for i, c := range s.Cs {
		if len(c.IDs) == 0 {
			continue
		}
		vs := make([][]float64, len(c.DPs))
		for j, d := range c.DPs {
			vs[j] = d.Vec
		}
		m := refMean(vs)
		if !near(m, c.Vec, tol) {
			k.Fail("after %s: centroid %d (%d points) has vector %v, the mean of its points is %v", what, i, len(c.IDs), c.Vec, m)
		}
		k.Count("means_checked", 1)
	}
}

// monNSMean (C09).
func monNSMean(st *Store, pre, post *Snap, o *OpR) {
	checkNSMean(st.K, post, st.tol(), o.String())
}

func checkNSMean(k *K, s *Snap, tol float64, what string) {
	if !s.Exists {
		return
	}
	for _, x := range s.Vec {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			k.Fail("after %s: the namespace vector is not finite: %v", what, s.Vec)
		}
	}
	if len(s.Cs) == 0 {
		k.Count("no_centroids", 1)
		return
	}
	vs := make([][]float64, len(s.Cs))
	for j, c := range s.Cs {
		vs[j] = c.Vec
		if len(c.Vec) != len(s.Cs[0].Vec) {
			return
		}
	}
	m := refMean(vs)
	if !near(m, s.Vec, tol) {
		k.Fail("after %s: the namespace vector is %v, the mean of its %d centroids is %v", what, s.Vec, len(s.Cs), m)
	}
	k.Count("means_checked", 1)
}

// monStruct (C10).
func monStruct(st *Store, pre, post *Snap, o *OpR) {
	k := st.K
	if pre.nExpired() > 0 {
		return
	}
	switch o.Kind {
	case "split":
		checkSplit(k, pre, post, func(c SC) bool { return len(c.IDs) > o.Min && len(c.IDs) < o.Mx }, o.String())
	case "merge":
		checkMerge(k, pre, post, func(n int) bool { return n > o.Min && n < o.Mx }, st.Cfg.metric, st.Scale, o.String())
	case "add":
		checkAutoSplit(st, pre, post, o)
	}
}

func owner(s *Snap) map[uint64]int {
	m := map[uint64]int{}
	for i, c := range s.Cs {
		for _, id := range c.IDs {
			m[id] = i
		}
	}
	return m
}

func checkSplit(k *K, pre, post *Snap, pred func(SC) bool, what string) {
	ow := owner(pre)
	parts := make([][]int, len(pre.Cs))
	empties := 0
	for _, c := range post.Cs {
		if len(c.IDs) == 0 {
			empties++
			continue
		}
		o := ow[c.IDs[0]]
		for _, id := range c.IDs {
			if ow[id] != o {
				k.Fail("%s mixed points of different centroids", what)
			}
		}
		parts[o] = append(parts[o], len(c.IDs))
	}
	pe := 0
	for i, c := range pre.Cs {
		n := len(c.IDs)
		if n == 0 {
			pe++
			continue
		}
		if pred(c) && n >= 2 {
			if len(parts[i]) != 2 || abs(parts[i][0]-parts[i][1]) > 1 || parts[i][0]+parts[i][1] != n {
				k.Fail("%s: a centroid of %d points that satisfies the condition became %v", what, n, parts[i])
			}
			k.Count("splits", 1)
		} else if len(parts[i]) != 1 || parts[i][0] != n {
			k.Fail("%s: a centroid of %d points that is not to be split became %v", what, n, parts[i])
		} else {
			k.Count("left_unsplit", 1)
		}
	}
	if empties != pe {
		k.Fail("%s: number of empty centroids changed from %d to %d", what, pe, empties)
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func checkMerge(k *K, pre, post *Snap, pred func(int) bool, m Metric, scale float64, what string) {
	// every old centroid is inside one new one
	now := owner(post)
	for _, c := range pre.Cs {
		for _, id := range c.IDs {
			if x, ok := now[id]; ok && x != now[c.IDs[0]] {
				k.Fail("%s took a centroid apart", what)
			}
		}
	}
	if len(post.Cs) > 1 {
		for _, c := range post.Cs {
			if pred(len(c.IDs)) {
				k.Fail("%s: a centroid with %d points still satisfies the condition, with %d centroids left (before: %s, after: %s)", what, len(c.IDs), len(post.Cs), pre.shape(), post.shape())
			}
		}
	}
	if len(pre.Cs) > 0 && len(post.Cs) == 0 {
		k.Fail("%s left no centroid", what)
	}
	cands := []int{}
	for i, c := range pre.Cs {
		if pred(len(c.IDs)) {
			cands = append(cands, i)
		}
	}
	if len(cands) == 0 {
		if len(pre.Cs) != len(post.Cs) || partition(pre, nil) != partition(post, nil) {
			k.Fail("%s changed something although no centroid satisfies the condition", what)
		}
		return
	}
	k.Count("merges", int64(len(pre.Cs)-len(post.Cs)))
	if len(cands) != 1 || len(pre.Cs) < 2 {
		return
	}
	// one candidate: it absorbs its nearest ones, in order, until it stops satisfying.
	c := pre.Cs[cands[0]]
	if len(c.IDs) == 0 {
		return
	}
	home := now[c.IDs[0]]
	absorbed := map[int]bool{}
	size := len(c.IDs)
	worst := math.Inf(1)
	worstN := 0
	gone := map[*Centroid]bool{}
	for _, x := range post.Cs {
		gone[x.P] = true
	}
	for i, x := range pre.Cs {
		if i == cands[0] {
			continue
		}
		if len(x.IDs) > 0 {
			if now[x.IDs[0]] == home {
				absorbed[i] = true
			}
		}
		if len(x.IDs) == 0 {
			return // whether an empty centroid was absorbed cannot be told apart
		}
		if absorbed[i] {
			size += len(x.IDs)
			if s := m.Sim(c.Vec, x.Vec); s < worst {
				worst, worstN = s, len(x.IDs)
			}
		}
	}
	tol := m.Tol(scale)
	for i, x := range pre.Cs {
		if i == cands[0] || absorbed[i] {
			continue
		}
		if s := m.Sim(c.Vec, x.Vec); s > worst+tol {
			k.Fail("%s: absorbed a centroid with similarity %.12g but not one with %.12g", what, worst, s)
		}
	}
	ties := 0
	for i := range pre.Cs {
		if i != cands[0] && absorbed[i] && m.Sim(c.Vec, pre.Cs[i].Vec) <= worst+2*tol {
			ties++
		}
	}
	if ties == 1 && !pred(size-worstN) && len(absorbed) > 0 {
		k.Fail("%s: went on absorbing after the condition was no longer satisfied (sizes before %s, after %s)", what, pre.shape(), post.shape())
	}
	k.Count("single_candidate_merges_judged", 1)
}

func checkAutoSplit(st *Store, pre, post *Snap, o *OpR) {
	k := st.K
	t := st.Cfg.threshold
	if !o.OK {
		return
	}
	id := idOf(o.DP)
	po := owner(post)
	ow := owner(pre)
	// partition changes only by a split of the centroid that received the point
	if len(pre.Cs) == 0 {
		if len(post.Cs) != 1 {
			k.Fail("%s into an empty namespace made %d centroids", o, len(post.Cs))
		}
		return
	}
	switch len(post.Cs) - len(pre.Cs) {
	case 0:
		for _, c := range pre.Cs {
			for _, x := range c.IDs {
				if po[x] != po[c.IDs[0]] {
					k.Fail("%s regrouped points without a split", o)
				}
			}
		}
		if t >= 2 && len(post.Cs[po[id]].IDs) >= t {
			k.Fail("%s: the receiving centroid now has %d points, the threshold is %d, and it was not split", o, len(post.Cs[po[id]].IDs), t)
		}
	case 1:
		if t < 2 {
			k.Fail("%s split a centroid although the threshold %d disables it", o, t)
		}
		split := map[int]map[int]int{}
		for x, pi := range po {
			src, ok := ow[x]
			if !ok {
				continue
			}
			if split[src] == nil {
				split[src] = map[int]int{}
			}
			split[src][pi]++
		}
		n := 0
		for src, m := range split {
			if len(m) > 1 {
				n++
				if len(pre.Cs[src].IDs)+1 < t {
					k.Fail("%s split a centroid of %d points, below the threshold %d", o, len(pre.Cs[src].IDs)+1, t)
				}
				if len(pre.Cs[src].IDs)+1 == t {
					var sz []int
					for pi := range m {
						sz = append(sz, len(post.Cs[pi].IDs))
					}
					if len(sz) == 2 && abs(sz[0]-sz[1]) > 1 {
						k.Fail("%s split a centroid of %d points unevenly: %v", o, t, sz)
					}
				}
			}
		}
		if n > 1 {
			k.Fail("%s split %d centroids", o, n)
		}
		k.Count("auto_splits", 1)
	default:
		k.Fail("%s changed the number of centroids from %d to %d", o, len(pre.Cs), len(post.Cs))
	}
}

// monTrim (C30).
func monTrim(st *Store, pre, post *Snap, o *OpR) {
	if o.Kind != "trim" {
		return
	}
	k := st.K
	exp := pre.expired()
	for i, c := range post.Cs {
		if len(c.IDs) == 0 {
			k.Fail("after trimming, centroid %d has no points (before: %s)", i, pre.shape())
		}
		if c.Cap != len(c.IDs) {
			k.Fail("after trimming, centroid %d stores %d points with capacity %d", i, len(c.IDs), c.Cap)
		}
	}
	if n := post.nExpired(); n > 0 {
		k.Fail("after trimming, %d expired points are left", n)
	}
	a, b := pre.ids(), post.ids()
	if lost := filterOut(diffIDs(a, b), exp); len(lost) > 0 {
		k.Fail("trimming lost unexpired points %s", sids(lost))
	}
	if x := diffIDs(b, a); len(x) > 0 {
		k.Fail("trimming made points appear: %s", sids(x))
	}
	sameGrouping(k, pre, post, exp, "trimming")
	st.contentOK(post, "trim")
	k.Count("trims", 1)
	k.Count("centroids_trimmed_away", int64(len(pre.Cs)-len(post.Cs)))
}

// ---- registration ----

const seqRule = "a case is an operation sequence on one namespace (local manager, node handlers or RPC client), starting from a generated population (sizes, dimension, vector family with ties/zeros/opposites, expired points), every random choice from the case's PRNG; cases count as distinct by backend, vector family, dimension, sequence of operation kinds and final centroid sizes"

func init() {
	reg(&Prop{ID: "C01", Level: "exploration", Rule: seqRule + "; non-trivial: at least three operations ran on a non-empty store", Min: 100, Run: runC01})
	reg(&Prop{ID: "C03", Level: "exploration", Rule: seqRule, Min: 100, Run: runC03})
	reg(&Prop{ID: "C05", Level: "exploration", Rule: seqRule, Min: 100, Run: func(r *Run) {
		w := reweigh(map[string]int{"knn": 30})
		r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{}, w, 25, monKNNRank) })
		r.Cases("big", r.N(16, 240), 8, bigCase("live", 0.3, []string{"knn"}, monKNNRank))
		r.Cases("big-centroids", r.N(8, 120), 8, bigCase("live", 0.3, []string{"nearC", "nearCV"}, monNear))
		r.Cases("wide", r.N(600, 12000), 8, func(k *K) {
			runSeq(k, storeOpts{maxC: 60, maxN: 12}, w, 12, monKNNRank)
		})
		r.Cases("centroids", r.N(1500, 30000), 8, func(k *K) {
			o := storeOpts{live: "plain"}
			if k.R.IntN(3) == 0 {
				o = storeOpts{maxC: 60, maxN: 12, live: "plain"}
			}
			runSeq(k, o, reweigh(map[string]int{"nearC": 20, "nearCV": 10, "add": 10}), 25, monKNNRank, monNear)
		})
	}})
	reg(&Prop{ID: "C07", Level: "exploration", Rule: seqRule, Min: 100, Run: func(r *Run) {
		w := reweigh(map[string]int{"drainU": 14, "drainO": 20, "add": 10, "expire": 3})
		r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{live: "plain"}, w, 20, monBulk) })
		r.Cases("expired", r.N(500, 10000), 8, func(k *K) { runSeq(k, storeOpts{}, w, 20, monBulk) })
		r.Cases("equal", r.N(600, 12000), 8, twinSeq)
		r.Cases("big", r.N(16, 240), 8, bigCase("plain", 0, []string{"drainU", "drainO"}, monBulk))
		r.Cases("odd-n", r.N(300, 5000), 8, func(k *K) {
			st := newStore(k, storeOpts{live: "plain"})
			defer st.B.Close()
			for _, n := range []int{0, -1, -1000, 0} {
				for _, kind := range []string{"drainU", "drainO"} {
					st.step(&OpR{Kind: kind, N: n}, monBulk, monDrain)
				}
			}
			k.Sig(fmt.Sprintf("odd %s", snapB(st.B).shape()))
		})
	}})
	reg(&Prop{ID: "C08", Level: "exploration", Rule: seqRule, Min: 100, Run: runC08})
	reg(&Prop{ID: "C10", Level: "exploration", Rule: seqRule, Min: 100, Run: runC10})
	reg(&Prop{ID: "C30", Level: "exploration", Rule: seqRule, Min: 100, Run: func(r *Run) {
		w := reweigh(map[string]int{"trim": 20})
		r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{}, w, 25, monTrim) })
		r.Cases("adds", r.N(800, 16000), 8, func(k *K) {
			// growth patterns that leave spare capacity
			st := newStore(k, storeOpts{noPop: true})
			defer st.B.Close()
			for i := 0; i < 4; i++ {
				n := 1 + logInt(k.R, 200)
				for j := 0; j < n; j++ {
					st.B.Add(st.newDP("live"))
				}
				if k.R.IntN(2) == 0 {
					st.flipExpired(0.3)
				}
				st.step(&OpR{Kind: "trim"}, monTrim)
			}
			k.Sig("adds " + snapB(st.B).shape())
		})
		r.Cases("centroid", r.N(1500, 20000), 8, centroidTrimCase)
		r.Cases("big", r.N(12, 240), 8, bigCase("live", 0.5, []string{"trim", "drainU", "trim", "expire"}, monTrim))
		r.Cases("released", r.N(250, 5000), 4, releaseCase)
	}})
}

func runC01(r *Run) {
	w := reweigh(map[string]int{"split": 6, "merge": 8, "trim": 5, "distI": 6, "expire": 3, "moveV": 2})
	r.Cases("seq", r.N(5000, 100000), 8, func(k *K) { runSeq(k, storeOpts{}, w, 25, monConserve) })
	r.Cases("extreme", r.N(1500, 30000), 8, func(k *K) { runSeq(k, storeOpts{fam: "extreme"}, w, 25, monConserve) })
	r.Cases("receivers", r.N(3000, 60000), 8, receiversCase)
	r.Cases("equal", r.N(1500, 30000), 8, twinSeq)
	r.Cases("big", r.N(12, 240), 8, bigCase("live", 0.3, []string{"distI", "split", "trim", "expire", "moveV"}, monConserve))
}

func runC03(r *Run) {
	w := reweigh(map[string]int{"expire": 5, "trim": 4, "knn": 8, "drainU": 4, "drainO": 4})
	r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{expP: 0.3}, w, 25, monExpiry) })
	r.Cases("big", r.N(6, 60), 6, func(k *K) {
		st := newStore(k, storeOpts{noPop: true})
		defer st.B.Close()
		st.populate([]int{6000 + k.R.IntN(6000), 1 + k.R.IntN(50)}, false)
		st.flipExpired(0.1 + 0.9*k.R.Float64())
		kind := []string{"expire", "trim", "drainU", "knn"}[k.R.IntN(4)]
		st.step(&OpR{Kind: kind, N: 20000, Vec: st.VG.Vec(), Drain: k.R.IntN(2) == 0}, monExpiry)
		st.step(&OpR{Kind: "expire"}, monExpiry)
		k.Sig(fmt.Sprint("big", kind, snapB(st.B).shape()))
	})
	r.Cases("patterns", r.N(1500, 30000), 8, func(k *K) {
		st := newStore(k, storeOpts{maxC: 5, maxN: 12})
		defer st.B.Close()
		pat := k.R.IntN(7)
		q := k.R.Uint64()
		st.flipIdx(func(ci, i, n int) bool {
			switch pat {
			case 0:
				return i == 0
			case 1:
				return i == n-1
			case 2:
				return i%2 == 0
			case 3:
				return i < n/2
			case 4:
				return true
			case 5:
				return ci%2 == 0
			}
			return q>>(uint(ci*7+i)%64)&1 == 1
		})
		tot := snapB(st.B).total()
		kinds := []string{"knn", "drainU", "drainO", "expire", "trim", "distI", "merge", "split", "nearC"}
		kind := kinds[k.R.IntN(len(kinds))]
		op := &OpR{Kind: kind, N: []int{1, 2, tot / 2, tot, tot + 3}[k.R.IntN(5)], Vec: st.VG.Vec(), Drain: k.R.IntN(2) == 0, Min: -1, Mx: []int{3, 8, 1 << 30}[k.R.IntN(3)]}
		st.step(op, monExpiry)
		st.step(&OpR{Kind: "knn", N: tot + 1, Vec: st.VG.Vec()}, monExpiry)
		st.step(&OpR{Kind: []string{"expire", "trim"}[k.R.IntN(2)]}, monExpiry)
		k.Sig(fmt.Sprintf("pat%d %s %s", pat, kind, snapB(st.B).shape()))
	})
	r.Cases("receivers", r.N(800, 16000), 8, receiversCase)
	r.Cases("centroid", r.N(1500, 20000), 8, centroidExpiryCase)
	r.Cases("handoff", r.N(60, 1500), 4, expiryHandoffCase)
	r.Cases("clock", r.N(1200, 30000), 8, clockCase)
}

func runC08(r *Run) {
	r.Cases("seq", r.N(5000, 100000), 8, func(k *K) { runSeq(k, storeOpts{}, allOps, 30, monMean) })
	w := reweigh(map[string]int{"drainU": 10, "drainO": 6, "knn": 10, "trim": 6, "add": 12})
	r.Cases("churn", r.N(1000, 20000), 8, func(k *K) { runSeq(k, storeOpts{maxC: 3, maxN: 8}, w, 40, monMean) })
	r.Cases("centroid", r.N(1500, 30000), 8, centroidMeanCase)
	r.Cases("big", r.N(12, 240), 8, bigCase("live", 0.3, []string{"drainU", "drainO", "knn", "distI", "split", "expire", "trim"}, monMean))
}

func runC10(r *Run) {
	w := reweigh(map[string]int{"split": 14, "merge": 14, "add": 16, "knn": 2, "distI": 4})
	r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{live: "plain"}, w, 25, monStruct) })
	r.Cases("grow", r.N(600, 10000), 8, func(k *K) {
		// insert-only: no centroid at or above the threshold, ever
		cfg := newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], []int{0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 25}[k.R.IntN(11)], k.R.IntN(4))
		st := newStore(k, storeOpts{live: "plain", noPop: true, cfg: &cfg})
		defer st.B.Close()
		n := 5 + logInt(k.R, 250)
		for i := 0; i < n; i++ {
			_, post := st.step(&OpR{Kind: "add", DP: st.newDP("plain"), DPClass: "plain"}, monStruct)
			for _, c := range post.Cs {
				if cfg.threshold >= 2 && len(c.IDs) >= cfg.threshold {
					k.Fail("a centroid grown by inserts alone has %d points, threshold %d", len(c.IDs), cfg.threshold)
				}
			}
			if cfg.threshold < 2 && len(post.Cs) != 1 {
				k.Fail("threshold %d must disable splitting, but there are %d centroids", cfg.threshold, len(post.Cs))
			}
		}
		k.Sig(fmt.Sprintf("grow t%d %s", cfg.threshold, snapB(st.B).shape()))
	})
	r.Cases("many", r.N(6, 60), 6, func(k *K) {
		// inserts alone, up to thousands of centroids or points in one
		cfg := newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], []int{2, 3 + k.R.IntN(3), 2, 200 + k.R.IntN(1500), 3, 10000}[k.Idx%6], 3)
		cm := cfg.newCM([]float64{0, 0})
		reg, vg := newReg(), newVG(k.R, 2, "gauss")
		n := 1200 + k.R.IntN(1500)
		if cfg.threshold > 100 {
			n = 2*cfg.threshold + k.R.IntN(300)
			if cfg.threshold == 10000 {
				n = 10000 + k.R.IntN(10)
			}
		}
		for i := 0; i < n; i++ {
			if i%500 == 0 {
				k.Beat()
			}
			nc := len(cm.Centroids)
			if !cm.AddDataPoint(reg.New(k.R, vg.Vec(), "plain")) {
				k.Fail("insert %d of an unexpired point refused", i)
			}
			if d := len(cm.Centroids) - nc; d < 0 || d > 1 {
				k.Fail("insert %d changed the number of centroids by %d", i, d)
			}
			if i%97 == 0 || i > n-20 || cfg.threshold == 10000 && i > 9990 {
				for _, c := range cm.Centroids {
					if c.LenDP() >= cfg.threshold {
						k.Fail("after insert %d: a centroid grown by inserts alone has %d points, threshold %d (%d centroids)", i, c.LenDP(), cfg.threshold, len(cm.Centroids))
					}
				}
			}
		}
		tot := 0
		for _, c := range cm.Centroids {
			tot += c.LenDP()
			if c.LenDP() < cfg.threshold/2 {
				k.Fail("inserts alone left a centroid of %d points, threshold %d: splits halve", c.LenDP(), cfg.threshold)
			}
		}
		if tot != n {
			k.Fail("%d points after %d inserts", tot, n)
		}
		k.Count("inserts_into_many", int64(n))
		k.Sig(fmt.Sprintf("many t%d n%d c%d", cfg.threshold, n, len(cm.Centroids)))
	})
	r.Cases("big", r.N(16, 240), 8, bigCase("plain", 0, []string{"merge", "split"}, monStruct, monConserve))
	r.Cases("pred", r.N(1500, 30000), 8, predCase)
}

// predCase: local splits and merges with arbitrary conditions.
func predCase(k *K) {
	st := newStore(k, storeOpts{backend: "local", live: "plain", maxC: 12, maxN: 20})
	cm := st.B.(*localB).cm
	for i := 0; i < 3; i++ {
		pre := snapCM(cm)
		mod, rem := 1+k.R.IntN(4), 0
		rem = k.R.IntN(mod)
		if k.R.IntN(2) == 0 {
			pick := map[*Centroid]bool{}
			for _, c := range cm.Centroids {
				pick[c] = k.R.IntN(2) == 0
			}
			cm.SplitCentroids(func(c *Centroid) bool { return pick[c] })
			post := snapCM(cm)
			checkSplit(k, pre, post, func(c SC) bool { return pick[c.P] }, "split of chosen centroids")
		} else {
			f := func(n int) bool { return n%mod == rem }
			if k.R.IntN(3) == 0 {
				lim := k.R.IntN(25)
				f = func(n int) bool { return n < lim }
			}
			cm.MergeCentroids(func(c *Centroid) bool { return f(c.LenDP()) })
			post := snapCM(cm)
			checkMerge(k, pre, post, f, st.Cfg.metric, st.Scale, fmt.Sprintf("merge while n%%%d==%d", mod, rem))
		}
		post := snapCM(cm)
		if len(diffIDs(pre.ids(), post.ids())) > 0 {
			k.Fail("split/merge lost points")
		}
		k.Op("pred op -> %s", post.shape())
	}
	k.Sig("pred " + snapCM(cm).shape())
}

// ---- receivers: local redistribution to other receivers ----

// stubRecv accepts, refuses or accepts some, and remembers what it got.
type stubRecv struct {
	vec    []float64
	mode   int // 0 accept, 1 refuse, 2 alternate, 3 refuse after two
	calls  int
	got    []DP
	asked  int
	onCall func(dp DP)
}

func (s *stubRecv) Vec() []float64 { return s.vec }
func (s *stubRecv) AddDataPoint(dp DP) bool {
	s.calls++
	s.asked++
	if s.onCall != nil {
		s.onCall(dp)
	}
	ok := true
	switch s.mode {
	case 1:
		ok = false
	case 2:
		ok = s.calls%2 == 1
	case 3:
		ok = s.calls <= 2
	}
	if isExpired(dp) {
		ok = false
	}
	if ok {
		s.got = append(s.got, dp)
	}
	return ok
}

// receiversCase: DistributeDataPoints to managers, centroids and stubs. Judges
// conservation (C01) and that expired points are not handed over (C03).
func receiversCase(k *K) {
	st := newStore(k, storeOpts{backend: "local", expP: []float64{0, 0, 0.2}[k.R.IntN(3)], maxC: 6})
	cm := st.B.(*localB).cm
	var recv []common.DataPointReceiver
	var stubs []*stubRecv
	var cms []*CM
	var cs []*Centroid
	nr := k.R.IntN(6)
	for i := 0; i < nr; i++ {
		switch k.R.IntN(6) {
		case 0:
			c := st.Cfg.newCentroid(st.VG.Vec())
			cs = append(cs, c)
			recv = append(recv, c)
		case 1:
			o := st.Cfg.newCM(st.VG.Vec())
			if k.R.IntN(2) == 0 {
				o.AddDataPoint(st.newDP("live"))
			}
			cms = append(cms, o)
			recv = append(recv, o)
		case 2: // its own centroid
			if len(cm.Centroids) > 0 {
				recv = append(recv, cm.Centroids[k.R.IntN(len(cm.Centroids))])
			}
		case 3: // another dimension
			c := st.Cfg.newCentroid(make([]float64, st.VG.Dim+1))
			cs = append(cs, c)
			recv = append(recv, c)
		default:
			s := &stubRecv{vec: st.VG.Vec(), mode: k.R.IntN(4)}
			s.onCall = func(dp DP) {
				if isExpired(dp) {
					k.Fail("an expired point was handed to a receiver")
				}
			}
			stubs = append(stubs, s)
			recv = append(recv, s)
		}
	}
	if len(recv) == 0 && k.R.IntN(2) == 0 {
		recv = nil
	}
	all := func() (map[uint64]int, map[uint64]bool) {
		m := snapCM(cm).ids()
		exp := snapCM(cm).expired()
		for _, o := range cms {
			s := snapCM(o)
			for id, n := range s.ids() {
				m[id] += n
			}
			for id := range s.expired() {
				exp[id] = true
			}
		}
		for _, c := range cs {
			for _, dp := range c.DataPoints {
				m[idOf(dp)]++
				if e := st.Reg.same(dp); e != "" {
					k.Fail("redistributed point altered: %s", e)
				}
			}
		}
		for _, s := range stubs {
			for _, dp := range s.got {
				m[idOf(dp)]++
				if e := st.Reg.same(dp); e != "" {
					k.Fail("redistributed point altered: %s", e)
				}
			}
		}
		return m, exp
	}
	for i := 0; i < 3; i++ {
		a, exp := all()
		srcN := snapCM(cm).total()
		n := st.pickN(srcN)
		what := fmt.Sprintf("distribute(%d of %d) to %d receivers", n, srcN, len(recv))
		if k.R.IntN(4) == 0 && len(cm.Centroids) > 0 {
			ci := k.R.IntN(len(cm.Centroids))
			cm.Centroids[ci].DistributeDataPoints(n, recv)
			what = "centroid " + what
		} else {
			cm.DistributeDataPoints(n, recv)
		}
		k.Op("%s", what)
		b, _ := all()
		st.contentOK(snapCM(cm), what)
		if lost := filterOut(diffIDs(a, b), exp); len(lost) > 0 {
			k.Fail("%s lost unexpired points %s", what, sids(lost))
		}
		if got := diffIDs(b, a); len(got) > 0 {
			k.Fail("%s duplicated points %s", what, sids(got))
		}
	}
	k.Count("redistributions", 3)
	k.Sig(fmt.Sprintf("recv %d %d %d %d %s", nr, len(stubs), len(cms), len(cs), snapCM(cm).shape()))
	k.Sample("receivers", 1, map[string]any{"ops": tail(k.Ops(), 10), "receivers": len(recv)})
}

// ---- single centroids ----

func newCentroidCase(k *K) (*Store, *Centroid) {
	cfg := pickCfg(k)
	st := &Store{K: k, Cfg: cfg, Reg: newReg(), VG: newVG(k.R, 0, ""), Live: "live", Scale: 1}
	st.Scale = st.VG.Scale
	c := cfg.newCentroid(st.VG.Vec())
	st.Scale = math.Max(st.Scale, maxAbs(c.Vec()))
	n := logInt(k.R, 60)
	for i := 0; i < n; i++ {
		dp := st.newDP("live")
		if !c.AddDataPoint(dp) {
			k.Fail("centroid refused an unexpired point of its dimension")
		}
	}
	k.Op("centroid with %d points", n)
	return st, c
}

func (st *Store) flipC(c *Centroid, p float64) {
	for i := range c.DataPoints {
		if st.K.R.Float64() < p {
			id := idOf(c.DataPoints[i])
			o := st.Reg.dps[id]
			o.Expires, o.ExpireEnabled = longPast, true
			st.Reg.dps[id] = o
			c.DataPoints[i].Expires, c.DataPoints[i].ExpireEnabled = longPast, true
		}
	}
}

// centroidStep runs one random operation directly on a centroid.
func centroidStep(st *Store, c *Centroid) (kind string, out []DP, pre, post SC) {
	k := st.K
	pre = snapC(c)
	n := st.pickN(c.LenDP())
	switch k.R.IntN(10) {
	case 0, 8, 9:
		kind = "add"
		dp := st.newDP([]string{"live", "live", "expired"}[k.R.IntN(3)])
		ok := c.AddDataPoint(dp)
		if ok == isExpired(dp) {
			k.Fail("centroid.add of an expired=%v point returned %v", isExpired(dp), ok)
		}
	case 1:
		kind = "drainU"
		out = c.DrainUnordered(n)
	case 2:
		kind = "drainO"
		out = c.DrainOrdered(n)
	case 3:
		kind = "expire"
		c.Expire()
	case 4:
		kind = "trim"
		c.MemTrim()
	case 5:
		kind = "moveV"
		c.MoveVector()
	case 6:
		kind = "knn"
		out = c.KNNLookup(st.VG.Vec(), n, false)
	case 7:
		kind = "knnDrain"
		out = c.KNNLookup(st.VG.Vec(), n, true)
	}
	post = snapC(c)
	if len(out) > 0 {
		st.keep(&OpR{Kind: "drainU", N: n, Out: out})
	}
	k.Op("centroid.%s(%d) -> %d", kind, n, len(out))
	return
}

func centroidMeanCase(k *K) {
	st, c := newCentroidCase(k)
	sig := ""
	for i := 0; i < 3+k.R.IntN(20); i++ {
		if k.R.IntN(6) == 0 {
			st.flipC(c, 0.4)
		}
		kind, _, _, post := centroidStep(st, c)
		checkMeans(k, &Snap{Cs: []SC{post}}, st.tol(), "centroid "+kind)
		sig += kind
	}
	k.Sig("c " + sig)
}

func centroidExpiryCase(k *K) {
	st, c := newCentroidCase(k)
	sig := ""
	for i := 0; i < 3+k.R.IntN(12); i++ {
		if k.R.IntN(3) == 0 {
			st.flipC(c, []float64{0.2, 0.6, 1}[k.R.IntN(3)])
		}
		kind, out, pre, post := centroidStep(st, c)
		sig += kind
		a, b := (&Snap{Cs: []SC{pre}}), (&Snap{Cs: []SC{post}})
		exp := a.expired()
		for _, d := range out {
			if exp[idOf(d)] || isExpired(d) {
				k.Fail("centroid.%s returned an expired point", kind)
			}
		}
		if (kind == "expire" || kind == "trim") && b.nExpired() > 0 {
			k.Fail("centroid.%s left %d expired points of %d", kind, b.nExpired(), len(pre.IDs))
		}
		if lost := filterOut(diffIDs(a.ids(), addIDs(b.ids(), out)), exp); len(lost) > 0 {
			k.Fail("centroid.%s made unexpired points disappear: %s", kind, sids(lost))
		}
		for _, id := range diffIDs(b.ids(), a.ids()) {
			if isExpired(st.Reg.dps[id]) {
				k.Fail("centroid.%s stored an expired point", kind)
			}
		}
	}
	k.Sig("ce " + sig)
}

func centroidTrimCase(k *K) {
	st, c := newCentroidCase(k)
	if k.R.IntN(2) == 0 {
		st.flipC(c, 0.4)
	}
	for i := 0; i < k.R.IntN(5); i++ {
		centroidStep(st, c)
	}
	pre := &Snap{Cs: []SC{snapC(c)}}
	c.MemTrim()
	post := &Snap{Cs: []SC{snapC(c)}}
	if cap(c.DataPoints) != len(c.DataPoints) {
		k.Fail("after trimming a centroid: %d points, capacity %d", len(c.DataPoints), cap(c.DataPoints))
	}
	if post.nExpired() > 0 {
		k.Fail("after trimming a centroid: %d expired points left", post.nExpired())
	}
	if partition(pre, pre.expired()) != partition(post, nil) {
		k.Fail("trimming a centroid changed its points")
	}
	k.Sig(fmt.Sprintf("ct %s %s", pre.shape(), post.shape()))
	k.Count("trims", 1)
}

func newServer(cfg cmCfg) *KMServer { return newKMServer("", cfg.newCM) }
