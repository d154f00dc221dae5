package main

// C25 (remote calls equal local ones) and C26 (errors of remote calls).

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"trypo/pkg/kmeans/centroid"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// ---- twins ----

// cloneCM rebuilds a manager in the state of a snapshot.
func cloneCM(cfg cmCfg, s *Snap) *CM {
	cm := cfg.newCM(cloneVec(s.Vec))
	cm.Centroids = make([]*Centroid, 0, len(s.Cs))
	for _, c := range s.Cs {
		x := cfg.newCentroid(cloneVec(c.Vec))
		x.DataPoints = make([]DP, 0, c.Cap)
		for _, dp := range c.DPs {
			x.DataPoints = append(x.DataPoints, cloneDP(dp))
		}
		cm.Centroids = append(cm.Centroids, x)
	}
	return cm
}

// deepSnap is a snapshot that shares nothing with the store.
func deepSnap(b Backend) *Snap {
	s := &Snap{}
	b.With(func(cm *CM) {
		s = snapCM(cm)
		for i := range s.Cs {
			s.Cs[i].P = nil
			for j := range s.Cs[i].DPs {
				s.Cs[i].DPs[j] = cloneDP(s.Cs[i].DPs[j])
			}
		}
	})
	return s
}

func closeTo(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == b[i] || math.IsNaN(a[i]) && math.IsNaN(b[i]) || math.Abs(a[i]-b[i]) <= tol {
			continue
		}
		return false
	}
	return true
}

// sameState compares two recorded states; "" if equal.
func sameState(a, b *Snap, tol float64) string {
	if a.Exists != b.Exists {
		return fmt.Sprintf("namespace exists: %v against %v", a.Exists, b.Exists)
	}
	if !closeTo(a.Vec, b.Vec, tol) {
		return fmt.Sprintf("vector %v against %v", trim5(a.Vec), trim5(b.Vec))
	}
	if len(a.Cs) != len(b.Cs) {
		return fmt.Sprintf("%d centroids against %d", len(a.Cs), len(b.Cs))
	}
	for i := range a.Cs {
		if e := sameDPs(a.Cs[i].DPs, b.Cs[i].DPs, true); e != "" {
			return fmt.Sprintf("centroid %d: %s", i, e)
		}
		if !closeTo(a.Cs[i].Vec, b.Cs[i].Vec, tol) {
			return fmt.Sprintf("centroid %d: vector %v against %v", i, trim5(a.Cs[i].Vec), trim5(b.Cs[i].Vec))
		}
	}
	return ""
}

func sameDPs(a, b []DP, ordered bool) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d points against %d", len(a), len(b))
	}
	if !ordered {
		a, b = append([]DP(nil), a...), append([]DP(nil), b...)
		sort.SliceStable(a, func(i, j int) bool { return string(a[i].Payload) < string(a[j].Payload) })
		sort.SliceStable(b, func(i, j int) bool { return string(b[i].Payload) < string(b[j].Payload) })
	}
	for i := range a {
		if e := dpDiff(a[i], b[i]); e != "" {
			return fmt.Sprintf("point %d: %s", i, e)
		}
	}
	return ""
}

func liveDPs(d []DP) (r []DP) {
	for _, x := range d {
		if !isExpired(x) {
			r = append(r, x)
		}
	}
	return
}

// sameResult compares the results of the same operation; "" if equal.
func sameResult(loc, rem *OpR, tol float64) string {
	if loc.OK != rem.OK {
		return fmt.Sprintf("result %v locally, %v remotely", loc.OK, rem.OK)
	}
	if loc.Len != rem.Len {
		return fmt.Sprintf("count %d locally, %d remotely", loc.Len, rem.Len)
	}
	ordered := loc.Kind == "knn"
	if e := sameDPs(loc.Out, rem.Out, ordered); e != "" {
		return "local against remote result: " + e
	}
	if !closeTo(loc.OutV, rem.OutV, tol) {
		return fmt.Sprintf("vector %v locally, %v remotely", trim5(loc.OutV), trim5(rem.OutV))
	}
	if loc.Kind == "nearC" {
		var want [][]DP
		opt := 0
		for _, c := range loc.OutC {
			if d := liveDPs(c.DataPoints); len(d) > 0 {
				want = append(want, d)
			} else if len(c.DataPoints) > 0 {
				opt++ // only expired points: may or may not come along
			}
		}
		var got [][]DP
		for _, c := range rem.OutC {
			if c == nil {
				return "a nil centroid was returned"
			}
			if d := liveDPs(c.DataPoints); len(d) > 0 {
				got = append(got, d)
			} else {
				opt--
			}
		}
		if opt < 0 {
			return "an empty centroid was returned"
		}
		if len(want) != len(got) {
			return fmt.Sprintf("%d non-empty centroids locally, %d remotely", len(want), len(got))
		}
		for i := range want {
			if e := sameDPs(want[i], got[i], true); e != "" {
				return fmt.Sprintf("fetched centroid %d: %s", i, e)
			}
		}
	}
	return ""
}

// usable exercises a centroid fetched from a node.
func usableCentroid(k *K, c *Centroid, dim int, tol float64) {
	live := liveDPs(c.DataPoints)
	if len(live) == 0 || dim == 0 {
		return
	}
	var vs [][]float64
	for _, d := range live {
		vs = append(vs, d.Vec)
	}
	fin := true
	for _, v := range vs {
		for _, x := range v {
			fin = fin && math.Abs(x) < 1e100 // means and products stay finite
		}
	}
	if !fin {
		return
	}
	if len(live) == len(c.DataPoints) && !closeTo(c.Vec(), refMean(vs), tol) {
		k.Fail("a centroid fetched remotely has vector %v, the mean of its points is %v", trim5(c.Vec()), trim5(refMean(vs)))
	}
	if out := c.KNNLookup(live[0].Vec, 2, false); len(out) != min(2, len(live)) {
		k.Fail("a centroid fetched remotely answers a query for 2 with %d of %d points", len(out), len(live))
	}
	x := DP{Vec: cloneVec(live[0].Vec), Payload: []byte("12345678")}
	if !c.AddDataPoint(x) {
		k.Fail("a centroid fetched remotely refuses a point of its dimension")
	}
	if out := c.DrainOrdered(len(live) + 5); len(out) != len(live)+1 {
		k.Fail("a centroid fetched remotely drains %d of %d points", len(out), len(live)+1)
	}
	k.Count("fetched_centroids_used", 1)
}

// oddDP: points with unusual but storable contents.
func oddDP(k *K, reg *Reg, vg *VG) DP {
	dp := cloneDP(reg.New(k.R, vg.Vec(), "live"))
	switch k.R.IntN(7) {
	case 0:
		dp.Payload = append(dp.Payload, make([]byte, 200000+k.R.IntN(300000))...)
	case 1:
		dp.Expires = time.Date(2900, 5, 6, 7, 8, 9, 123456789, time.FixedZone("odd", 3600*5+30*60))
		dp.ExpireEnabled = true
	case 2:
		dp.Expires = time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC)
		dp.ExpireEnabled = false
	case 3:
		for i := range dp.Vec {
			dp.Vec[i] = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 1e300, -1e-300}[k.R.IntN(5)]
		}
	case 4:
		if len(dp.Vec) > 0 {
			dp.Vec[k.R.IntN(len(dp.Vec))] = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[k.R.IntN(3)]
		}
	case 5:
		dp.Expires = time.Now().Add(250 * 365 * 24 * time.Hour).In(time.Local) // with a monotonic reading
		dp.ExpireEnabled = true
	}
	reg.dps[idOf(dp)] = cloneDP(dp)
	return dp
}

func sameNames(a, b []string) bool {
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	return fmt.Sprintf("%q", a) == fmt.Sprintf("%q", b)
}

func twinCase(odd bool) func(*K) {
	return func(k *K) {
		cfg := pickCfg(k)
		if k.R.IntN(3) > 0 {
			cfg.threshold = 2 + k.R.IntN(12)
		}
		dim := 0
		if odd {
			dim = []int{1, 2, 3, 3, 700}[k.R.IntN(5)]
		}
		st := &Store{K: k, Cfg: cfg, Reg: newReg(), VG: newVG(k.R, dim, ""), Live: "live", Scale: 1}
		st.Scale = st.VG.Scale
		for _, c := range st.VG.centers {
			st.Scale = math.Max(st.Scale, maxAbs(c))
		}
		cb := &clientB{node: newNode(cfg), ns: pickNS(k), keep: k.Idx%2 == 0}
		st.B = cb
		defer cb.Close()
		maxC := 6
		if !odd && k.R.IntN(3) > 0 {
			st.populate(randSizes(k, maxC, 25), false)
		} else {
			for i := 0; i < 1+k.R.IntN(15); i++ {
				dp := st.newDP("live")
				if odd && k.R.IntN(3) == 0 {
					dp = oddDP(k, st.Reg, st.VG)
				}
				st.B.Add(dp)
			}
		}
		if k.R.IntN(3) == 0 {
			st.flipExpired(0.2)
		}
		sig := ""
		type given struct {
			what      string
			out, copy []DP
			v, vcopy  []float64
		}
		var kept []given
		var others []string
		var lists [][2][]string
		for i := 0; i < 4+k.R.IntN(16); i++ {
			w := allOps
			o := st.genOp(append([]wop{{"vec", 1}}, w...))
			if o.Kind == "add" && odd && k.R.IntN(2) == 0 {
				o.DP = oddDP(k, st.Reg, st.VG)
				o.DPClass = "odd"
			}
			if o.Kind == "knn" && k.R.IntN(15) == 0 {
				o.Vec = append(o.Vec, 1) // another dimension
			}
			if (o.Kind == "knn" || o.Kind == "drainU" || o.Kind == "drainO" || o.Kind == "distI" || o.Kind == "nearC") && k.R.IntN(20) == 0 {
				o.N = []int{-1, -5, 0, 1 << 20, math.MaxInt32}[k.R.IntN(5)]
			}
			pre := deepSnap(cb)
			st.exec(o)
			post := deepSnap(cb)
			if cb.err != nil {
				k.Fail("%s on an existing namespace reports the error %v", o.Kind, cb.err)
			}
			tol := 1e-9 * (st.Scale + 1)
			tries := 1
			if o.Kind == "distI" || o.Kind == "drainU" || o.Kind == "drainO" {
				tries = 150 // the order centroids are visited in is not determined
			}
			var why string
			for t := 0; t < tries; t++ {
				lb := &localB{cloneCM(cfg, pre)}
				ls := *st
				lk := *k
				_ = lk
				ls.B = lb
				lo := *o
				lo.OK, lo.Out, lo.OutC, lo.OutV, lo.Len = false, nil, nil, nil, 0
				lo.DP = cloneDP(o.DP)
				execQuiet(lb, &lo)
				why = sameState(deepSnap(lb), post, tol)
				if why == "" {
					why = sameResult(&lo, o, tol)
				} else {
					why = "state after the local against the remote operation: " + why
				}
				if why == "" {
					break
				}
				if o.Kind == "distI" && t > 2 && len(pre.Cs) > 4 {
					why = "" // too many possible orders to decide
					k.Count("internal_distributions_not_compared", 1)
					break
				}
			}
			if why != "" {
				k.Fail("%s: %s", o.String(), why)
			}
			if len(o.Out) > 0 || len(o.OutV) > 0 {
				g := given{what: o.String(), out: o.Out, v: o.OutV, vcopy: cloneVec(o.OutV)}
				for _, d := range o.Out {
					g.copy = append(g.copy, cloneDP(d))
				}
				kept = append(kept, g)
			}
			if k.R.IntN(8) == 0 { // the list of namespaces, while they grow in number
				for j := k.R.IntN(4); j > 0; j-- {
					x := fmt.Sprintf("other %d", len(others))
					kmrpc.KMeansClient(cb.node.Addr, x, nil).AddDataPoint(DP{Vec: []float64{1}})
					others = append(others, x)
				}
				ns := cb.c().Namespaces()
				want := append([]string{cb.ns}, others...)
				if !sameNames(ns, want) {
					k.Fail("namespaces listed: %q, there are %q", ns, want)
				}
				lists = append(lists, [2][]string{ns, append([]string(nil), ns...)})
			}
			if o.Kind == "nearC" {
				for _, c := range o.OutC {
					usableCentroid(k, c, st.VG.Dim, tol*100)
				}
			}
			k.Count("twin:"+o.Kind, 1)
			sig += " " + o.Kind
		}
		for _, l := range lists {
			if strings.Join(l[0], "|") != strings.Join(l[1], "|") {
				k.Fail("a list of namespaces returned earlier has changed: %q was %q", l[0], l[1])
			}
		}
		for _, g := range kept {
			if e := sameDPs(g.copy, g.out, true); e != "" {
				k.Fail("what %s returned has changed by the end of the case (one client for all calls: %v): %s", g.what, cb.keep, e)
			}
			if !floatBits(g.v, g.vcopy) {
				k.Fail("the vector that %s returned has changed by the end of the case (one client for all calls: %v)", g.what, cb.keep)
			}
		}
		k.Count("results_kept", int64(len(kept)))
		k.Sig(sig + deepSnap(cb).shape())
		k.Sample(fmt.Sprintf("twin odd=%v", odd), 1, tail(k.Ops(), 12))
	}
}

func execQuiet(b Backend, o *OpR) {
	st := &Store{K: &K{Run: curRunOrNew()}, B: b}
	st.exec(o)
}

func curRunOrNew() *Run {
	if curRun != nil {
		return curRun
	}
	return newRun("", "", 0)
}

// dupPayloadCase: points without identifying payloads, zero dimensions, nil fields.
func plainDPCase(k *K) {
	cfg := pickCfg(k)
	cb := &clientB{node: newNode(cfg), ns: pickNS(k)}
	defer cb.Close()
	dim := k.R.IntN(3)
	v := func() []float64 {
		x := make([]float64, dim)
		for i := range x {
			x[i] = float64(k.R.IntN(5) - 2)
		}
		if dim == 0 && k.R.IntN(2) == 0 {
			return nil
		}
		return x
	}
	loc := cfg.newCM(nil)
	locInit := false
	for i := 0; i < 2+k.R.IntN(8); i++ {
		dp := DP{Vec: v()}
		if k.R.IntN(2) == 0 {
			dp.Payload = []byte{}
		}
		if k.R.IntN(3) == 0 {
			dp.Payload = []byte{0}
		}
		if !locInit {
			loc = cfg.newCM(dp.Vec)
			locInit = true
		}
		a, b := loc.AddDataPoint(cloneDP(dp)), cb.Add(cloneDP(dp))
		if a != b {
			k.Fail("insert of %v: %v locally, %v remotely", dp, a, b)
		}
	}
	ls := deepSnap(&localB{loc})
	if e := sameState(ls, deepSnap(cb), 1e-9); e != "" {
		k.Fail("same inserts, different state: %s", e)
	}
	for i := 0; i < 4; i++ {
		q, n, d := v(), k.R.IntN(8), k.R.IntN(2) == 0
		a, b := loc.KNNLookup(cloneVec(q), n, d), cb.KNN(cloneVec(q), n, d)
		if e := sameDPs(a, b, true); e != "" {
			k.Fail("query %v n=%d drain=%v: local against remote: %s", q, n, d, e)
		}
		ac, _ := loc.NearestCentroids(cloneVec(q), 3, false)
		bc, _ := cb.NearestC(cloneVec(q), 3, false)
		ne := 0
		for _, c := range ac {
			if len(c.DataPoints) > 0 {
				ne++
			}
		}
		if ne != len(bc) {
			k.Fail("nearest centroids: %d non-empty locally, %d remotely", ne, len(bc))
		}
		if loc.LenDP() != cb.Len() {
			k.Fail("count: %d locally, %d remotely", loc.LenDP(), cb.Len())
		}
	}
	if e := sameState(deepSnap(&localB{loc}), deepSnap(cb), 1e-9); e != "" {
		k.Fail("same operations, different state: %s", e)
	}
	k.Sig(fmt.Sprint("plain", dim, loc.LenDP(), len(loc.Centroids)))
}

// ---- C26 ----

// rop is one client operation with a way to tell whether its results are zero.
type rop struct {
	name string
	call func(addr, ns string, vec []float64, other string, err *error) (zero bool, desc string)
	// needsNS: fails on an unknown namespace
	needsNS bool
}

func rops() []rop {
	cl := func(addr, ns string, err *error) interface {
		Namespaces() []string
	} {
		return kmrpc.KMeansClient(addr, ns, err)
	}
	_ = cl
	d := func(x any, zero bool) (bool, string) { return zero, fmt.Sprint(x) }
	return []rop{
		{"Namespaces", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).Namespaces()
			return d(x, len(x) == 0)
		}, false},
		{"Vec", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).Vec()
			return d(x, len(x) == 0)
		}, true},
		{"DrainUnordered", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).DrainUnordered(2)
			return d(len(x), len(x) == 0)
		}, true},
		{"DrainOrdered", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).DrainOrdered(2)
			return d(len(x), len(x) == 0)
		}, true},
		{"Expire", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			kmrpc.KMeansClient(a, ns, e).Expire()
			return true, ""
		}, true},
		{"LenDP", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).LenDP()
			return d(x, x == 0)
		}, true},
		{"MemTrim", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			kmrpc.KMeansClient(a, ns, e).MemTrim()
			return true, ""
		}, true},
		{"MoveVector", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).MoveVector()
			return d(x, !x)
		}, true},
		{"DistributeDataPointsFast", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			kmrpc.KMeansClient(a, ns, e).DistributeDataPointsFast([]string{o}, 2)
			return true, ""
		}, true},
		{"DistributeDataPointsAccurate", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			kmrpc.KMeansClient(a, ns, e).DistributeDataPointsAccurate([]string{o}, 2)
			return true, ""
		}, true},
		{"DistributeDataPointsInternal", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			kmrpc.KMeansClient(a, ns, e).DistributeDataPointsInternal(2)
			return true, ""
		}, true},
		{"KNNLookup", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).KNNLookup(v, 3, false)
			return d(len(x), len(x) == 0)
		}, true},
		{"KNNLookup(drain)", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).KNNLookup(v, 3, true)
			return d(len(x), len(x) == 0)
		}, true},
		{"NearestCentroids", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x, ok := kmrpc.KMeansClient(a, ns, e).NearestCentroids(v, 3, false)
			return d(fmt.Sprint(len(x), ok), len(x) == 0 && !ok)
		}, true},
		{"NearestCentroids(drain)", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x, ok := kmrpc.KMeansClient(a, ns, e).NearestCentroids(v, 1, true)
			return d(fmt.Sprint(len(x), ok), len(x) == 0 && !ok)
		}, true},
		{"NearestCentroidVec", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).NearestCentroidVec(v)
			return d(x, len(x) == 0)
		}, true},
		{"SplitCentroids", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			kmrpc.KMeansClient(a, ns, e).SplitCentroids(1, 100)
			return true, ""
		}, true},
		{"MergeCentroids", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			kmrpc.KMeansClient(a, ns, e).MergeCentroids(-1, 3)
			return true, ""
		}, true},
		{"Meta", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).Meta()
			return d(x, len(x.DPs) == 0 && len(x.Centroids) == 0)
		}, false},
		{"AddDataPoint", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			x := kmrpc.KMeansClient(a, ns, e).AddDataPoint(DP{Vec: cloneVec(v), Payload: []byte("12345678")})
			return d(x, !x)
		}, false},
		{"StealCentroids", func(a, ns string, v []float64, o string, e *error) (bool, string) {
			n, ok := kmrpc.KMeansClient(a, ns, e).StealCentroids(o, 2)
			return d(fmt.Sprint(n, ok), n == 0 && !ok)
		}, false},
	}
}

var _ = centroid.NewCentroidArgs{}

// allNS lists what a node holds: namespace -> (points, centroids).
func nsDump(n *Node) map[string][2]int {
	m := map[string][2]int{}
	for _, ns := range n.Srv.Table.Namespaces() {
		n.Srv.Table.Access(ns, func(cm *CM) {
			t := 0
			for _, c := range cm.Centroids {
				t += len(c.DataPoints)
			}
			m[ns] = [2]int{t, len(cm.Centroids)}
		})
	}
	return m
}

func errorsCase(k *K) {
	cfg := pickCfg(k)
	cfg.threshold = 5 + k.R.IntN(10)
	c := newCluster(k, 2, cfg, pickNS(k), "gauss", 1+k.R.IntN(4))
	defer c.Close()
	for _, st := range c.St {
		st.Live = "plain"
		st.populate([]int{3 + k.R.IntN(4), 3 + k.R.IntN(4), 3}, false)
	}
	a, other := c.Nodes[0].Addr, c.Nodes[1].Addr
	unknown := c.NS + []string{"x", "é", strings.Repeat("u", 200), " "}[k.R.IntN(4)]
	ops := rops()
	k.R.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	var err error // reused by all calls
	for _, o := range ops {
		v := c.VG.Vec()
		// 1. carried out
		other2 := other
		pre, pre1 := deepSnap(c.St[0].B), deepSnap(c.St[1].B)
		if o.name == "StealCentroids" {
			k.Op("%s on an existing namespace", o.name)
			n, ok := kmrpc.KMeansClient(a, c.NS, &err).StealCentroids(other, 1+k.R.IntN(8))
			got := deepSnap(c.St[0].B).total() - pre.total()
			if err != nil || !ok || n != got {
				k.Fail("steal from a node with the namespace reports %d moved, ok=%v, err=%v; %d arrived", n, ok, err, got)
			}
			_ = pre1
		} else {
			_, desc := o.call(a, c.NS, v, other2, &err)
			k.Op("%s on an existing namespace -> %s %v", o.name, desc, err)
			if err != nil {
				k.Fail("%s on an existing namespace of a reachable node reports the error %v", o.name, err)
			}
		}
		// 2. unknown namespace
		dump := fmt.Sprint(nsDump(c.Nodes[0]), nsDump(c.Nodes[1]))
		if o.needsNS {
			err = nil
			zero, desc := o.call(a, unknown, v, other, &err)
			k.Op("%s on an unknown namespace -> %s %v", o.name, desc, err)
			if err == nil {
				k.Fail("%s on an unknown namespace reports no error", o.name)
			}
			if !strings.Contains(err.Error(), unknown) {
				k.Fail("%s on the unknown namespace %q: the error %q does not name it", o.name, unknown, err)
			}
			if !zero {
				k.Fail("%s on an unknown namespace returns %s", o.name, desc)
			}
			if d := fmt.Sprint(nsDump(c.Nodes[0]), nsDump(c.Nodes[1])); d != dump {
				k.Fail("%s on an unknown namespace changed the nodes from %s to %s", o.name, dump, d)
			}
		}
		if o.name == "StealCentroids" {
			for _, ns := range []string{unknown + "1", c.NS} { // local node without / with the namespace
				if ns == c.NS {
					// source without the namespace
					kmrpc.KMeansClient(a, c.NS+"q", nil).AddDataPoint(DP{Vec: []float64{1}, Payload: []byte("12345678")})
					ns = c.NS + "q"
				}
				limit := []int{3, 1, 0, -2, 1000}[k.R.IntN(5)]
				n, ok := kmrpc.KMeansClient(a, ns, &err).StealCentroids(other, limit)
				k.Op("steal of up to %d of an unknown namespace -> %d %v %v", limit, n, ok, err)
				if ok || n != 0 {
					k.Fail("a steal from a node without the namespace reports success (%d, %v)", n, ok)
				}
			}
			for _, ns := range []string{unknown + "2", c.NS} {
				n, ok := kmrpc.KMeansClient(a, ns, &err).StealCentroids(deadAddr(), []int{3, 1, 0, -2, 1000}[k.R.IntN(5)])
				if ok || n != 0 {
					k.Fail("a steal from an unreachable node reports success (%d, %v)", n, ok)
				}
			}
			if len(diffIDs(pre.ids(), addIDsSnap(deepSnap(c.St[0].B), deepSnap(c.St[1].B)))) > 0 {
				k.Fail("failed steals lost points")
			}
		}
		// 3. unreachable: nothing listens / closed at once / cut
		err = nil
		zero, desc := o.call(deadAddr(), c.NS, v, other, &err)
		if err == nil || !zero {
			k.Fail("%s on an unreachable node reports error %v and returns %s", o.name, err, desc)
		}
		c.Nodes[0].refuse.Store(true)
		err = nil
		zero, desc = o.call(a, c.NS, v, other, &err)
		c.Nodes[0].refuse.Store(false)
		if err == nil || !zero {
			k.Fail("%s on a node closing connections reports error %v and returns %s", o.name, err, desc)
		}
		for _, mode := range []string{"request", "reply", "partial reply"} {
			first := true
			c.Nodes[0].SetHook(func(ev *Ev) Act {
				if !first {
					return Act{}
				}
				first = false
				return Act{CutReq: mode == "request", CutReply: mode == "reply", PartReply: mode == "partial reply"}
			})
			err = nil
			zero, desc = o.call(a, c.NS, v, other, &err)
			c.Nodes[0].SetHook(nil)
			k.Op("%s with the connection cut (%s) -> %s %v", o.name, mode, desc, err)
			if err == nil || !zero {
				k.Fail("%s whose %s is cut reports error %v and returns %s", o.name, mode, err, desc)
			}
		}
		// 4. and it works again, with the error of before cleared
		if !snapB(c.St[0].B).Exists || snapB(c.St[0].B).total() < 4 {
			c.St[0].populate([]int{3, 4}, false)
		}
		if snapB(c.St[1].B).total() < 6 {
			c.St[1].populate([]int{3, 4, 5}, false)
		}
		if _, desc := o.call(a, c.NS, v, other, &err); err != nil {
			k.Fail("%s after the node recovered reports %v (%s)", o.name, err, desc)
		}
		// 5. without an error variable
		o.call(deadAddr(), c.NS, v, other, nil)
		o.call(a, unknown+"3", v, other, nil)
		k.Count("operations_probed", 1)
		k.Sig(fmt.Sprint(o.name, c.NS, unknown))
	}
	k.Sample("errors", 1, tail(k.Ops(), 16))
}

func addIDsSnap(ss ...*Snap) map[uint64]int {
	m := map[uint64]int{}
	for _, s := range ss {
		for id, n := range s.ids() {
			m[id] += n
		}
	}
	return m
}

// createCase: which operations create namespaces, on nodes with and without others.
func createCase(k *K) {
	cfg := pickCfg(k)
	nd := newNode(cfg)
	defer nd.Close()
	src := newNode(cfg)
	defer src.Close()
	var err error
	v := []float64{1, 2}
	dp := func() DP { return DP{Vec: cloneVec(v), Payload: []byte("abcdefgh")} }
	for _, o := range rops() {
		o.call(nd.Addr, "q", v, src.Addr, &err)
		if o.needsNS && err == nil {
			k.Fail("%s on an empty node reports no error", o.name)
		}
		if o.name == "AddDataPoint" {
			if err != nil || len(nd.Srv.Table.Namespaces()) != 1 {
				k.Fail("insert into an empty node: error %v, namespaces %q", err, nd.Srv.Table.Namespaces())
			}
			break
		}
		if ns := nd.Srv.Table.Namespaces(); len(ns) != 0 {
			k.Fail("%s created the namespaces %q on an empty node", o.name, ns)
		}
	}
	// an insert that is refused is not an error, but false
	bad := DP{Vec: []float64{1, 2, 3}, Payload: []byte("abcdefgh")}
	if ok := kmrpc.KMeansClient(nd.Addr, "q", &err).AddDataPoint(bad); ok || err != nil {
		k.Fail("insert of another dimension: %v, error %v", ok, err)
	}
	exp := dp()
	exp.ExpireEnabled = true
	if ok := kmrpc.KMeansClient(nd.Addr, "q", &err).AddDataPoint(exp); ok || err != nil {
		k.Fail("insert of an expired point: %v, error %v", ok, err)
	}
	// steal creates the namespace at the receiver
	for i := 0; i < 3; i++ {
		if !kmrpc.KMeansClient(src.Addr, "s", &err).AddDataPoint(dp()) {
			k.Fail("insert refused")
		}
	}
	n, ok := kmrpc.KMeansClient(nd.Addr, "s", &err).StealCentroids(src.Addr, 100)
	if n != 3 || !ok || err != nil {
		k.Fail("steal of everything (3 points): %d, %v, %v", n, ok, err)
	}
	if got := nsDump(nd)["s"][0]; got != 3 {
		k.Fail("steal reports 3 moved points, %d arrived", got)
	}
	// source now empty: still success, nothing moved
	n, ok = kmrpc.KMeansClient(nd.Addr, "s", &err).StealCentroids(src.Addr, 100)
	if n != 0 || !ok || err != nil {
		k.Fail("steal from a node whose namespace is empty: %d, %v, %v", n, ok, err)
	}
	k.Sig(fmt.Sprint("create", k.Idx%20))
}

// stealCutCase: a steal whose source fails midway.
func stealCutCase(k *K) {
	cfg := pickCfg(k)
	c := newCluster(k, 2, cfg, pickNS(k), "gauss", 2)
	defer c.Close()
	c.St[1].Live = "plain"
	c.St[1].populate(randSizes(k, 8, 6), false)
	if k.R.IntN(2) == 0 {
		c.St[0].Live = "plain"
		c.St[0].populate(randSizes(k, 3, 6), false)
	}
	total := snapB(c.St[1].B).total()
	if total == 0 {
		return
	}
	// cut the request number j
	j, seen := k.R.IntN(8), 0
	cut := false
	c.Nodes[1].SetHook(func(ev *Ev) Act {
		seen++
		if seen-1 == j {
			cut = true
			return Act{CutReq: true}
		}
		return Act{}
	})
	pre := c.snap()
	limit := 1 + k.R.IntN(total+3)
	n, ok, err := c.steal(0, c.Nodes[1].Addr, limit)
	c.Nodes[1].SetHook(nil)
	post := c.snap()
	moved := post.N[0].total() - pre.N[0].total()
	if err != nil {
		k.Fail("the stealing node is reachable but the call reports %v", err)
	}
	if n != moved {
		k.Fail("the steal reports %d moved points, %d arrived", n, moved)
	}
	if ok == cut {
		k.Fail("a steal whose source failed at request %d (failed: %v) reports success=%v", j, cut, ok)
	}
	if x := diffIDs(pre.ids(), post.ids()); len(x) > 0 {
		k.Fail("points lost: %s", sids(x))
	}
	k.Count(fmt.Sprintf("steals_cut:%v", cut), 1)
	k.Sig(fmt.Sprint("cut", j, cut, limit, total, n))
}

func init() {
	reg(&Prop{ID: "C25", Level: "exploration", Min: 200,
		Rule: "every operation through the RPC client against the same operation on a local manager rebuilt in the state the node had just before; results and resulting states compared bit for bit (mean vectors up to rounding); distinct by operation sequence and final shape",
		Run: func(r *Run) {
			r.Cases("twin", r.N(2500, 40000), 8, twinCase(false))
			r.Cases("odd", r.N(500, 6000), 8, twinCase(true))
			r.Cases("plain", r.N(800, 10000), 8, plainDPCase)
			r.Cases("equal", r.N(500, 10000), 8, twinSeq)
		}})
	reg(&Prop{ID: "C26", Level: "exploration", Min: 100,
		Rule: "every client operation on existing and unknown namespaces, dead addresses, nodes closing connections, connections cut before execution, before the reply and within it; distinct by (operation, namespaces)",
		Run: func(r *Run) {
			r.Cases("errors", r.N(200, 3000), 8, errorsCase)
			r.Cases("create", r.N(20, 200), 4, createCase)
			r.Cases("stealcut", r.N(800, 10000), 8, stealCutCase)
		}})
}
