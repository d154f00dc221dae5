package main

// Sequential operation sequences on the data of one namespace, with the state
// recorded before and after every operation and monitors judging each step.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

type CM = centroidmanager.CentroidManager
type Centroid = centroid.Centroid
type KMServer = kmrpc.KMeansServer

type searchFn = func(targetVec []float64, vecs func() ([]float64, bool), k int) []int

type cmCfg struct {
	metric    Metric
	threshold int
	initCap   int
	knn, kfn  searchFn
}

func newCfg(metric Metric, threshold, initCap int) cmCfg {
	c := cmCfg{metric: metric, threshold: threshold, initCap: initCap}
	if metric.Name == "euc" {
		c.knn, c.kfn = searchutils.KNNEuc, searchutils.KFNEuc
	} else {
		c.knn, c.kfn = searchutils.KNNCos, searchutils.KFNCos
	}
	return c
}

func (c cmCfg) newCM(vec []float64) *CM {
	cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: vec, InitCap: c.initCap, CentroidDPThreshold: c.threshold,
		KNNSearchFunc: c.knn, KFNSearchFunc: c.kfn})
	if !ok {
		panic(failT{"NewCentroidManager refused valid arguments"})
	}
	return &cm
}

func (c cmCfg) newCentroid(vec []float64) *Centroid {
	x, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: vec, InitCap: c.initCap, KNNSearchFunc: c.knn, KFNSearchFunc: c.kfn})
	if !ok {
		panic(failT{"NewCentroid refused valid arguments"})
	}
	return &x
}

// ---- backends: the same operations, issued in three ways ----

type Backend interface {
	Name() string
	With(f func(*CM)) bool // direct access to the stored state
	Add(dp DP) bool
	DrainU(n int) []DP
	DrainO(n int) []DP
	Expire()
	Len() int
	MemTrim()
	MoveVector() bool
	DistInternal(n int)
	KNN(vec []float64, k int, drain bool) []DP
	NearestC(vec []float64, n int, drain bool) ([]*Centroid, bool)
	NearestCV(vec []float64) []float64
	Split(min, max int)
	Merge(min, max int)
	Vec() []float64
	Close()
}

type localB struct{ cm *CM }

func (b *localB) Name() string                        { return "local" }
func (b *localB) With(f func(*CM)) bool               { f(b.cm); return true }
func (b *localB) Add(dp DP) bool                      { return b.cm.AddDataPoint(dp) }
func (b *localB) DrainU(n int) []DP                   { return b.cm.DrainUnordered(n) }
func (b *localB) DrainO(n int) []DP                   { return b.cm.DrainOrdered(n) }
func (b *localB) Expire()                             { b.cm.Expire() }
func (b *localB) Len() int                            { return b.cm.LenDP() }
func (b *localB) MemTrim()                            { b.cm.MemTrim() }
func (b *localB) MoveVector() bool                    { return b.cm.MoveVector() }
func (b *localB) DistInternal(n int)                  { b.cm.DistributeDataPointsInternal(n) }
func (b *localB) KNN(v []float64, k int, d bool) []DP { return b.cm.KNNLookup(v, k, d) }
func (b *localB) NearestC(v []float64, n int, d bool) ([]*Centroid, bool) {
	return b.cm.NearestCentroids(v, n, d)
}
func (b *localB) NearestCV(v []float64) []float64 {
	cs, _ := b.cm.NearestCentroids(v, 1, false)
	if len(cs) == 0 {
		return nil
	}
	return cs[0].Vec()
}
func rangePred(min, max int) func(*Centroid) bool {
	return func(c *Centroid) bool { return c.LenDP() > min && c.LenDP() < max }
}
func (b *localB) Split(min, max int) { b.cm.SplitCentroids(rangePred(min, max)) }
func (b *localB) Merge(min, max int) { b.cm.MergeCentroids(rangePred(min, max)) }
func (b *localB) Vec() []float64     { return b.cm.Vec() }
func (b *localB) Close()             {}

// serverB calls the handlers of a node in process.
type serverB struct {
	s  *KMServer
	ns string
	e  error
}

func (b *serverB) Name() string          { return "server" }
func (b *serverB) With(f func(*CM)) bool { return b.s.Table.Access(b.ns, f) }
func (b *serverB) Add(dp DP) bool {
	var r bool
	b.e = b.s.AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: b.ns, DP: dp}, &r)
	return r
}
func (b *serverB) DrainU(n int) (r []DP) {
	b.e = b.s.DrainUnordered(kmrpc.DrainArgs{NameSpace: b.ns, N: n}, &r)
	return
}
func (b *serverB) DrainO(n int) (r []DP) {
	b.e = b.s.DrainOrdered(kmrpc.DrainArgs{NameSpace: b.ns, N: n, Ordered: true}, &r)
	return
}
func (b *serverB) Expire()              { var x int; b.e = b.s.Expire(b.ns, &x) }
func (b *serverB) Len() (r int)         { b.e = b.s.LenDP(b.ns, &r); return }
func (b *serverB) MemTrim()             { var x int; b.e = b.s.MemTrim(b.ns, &x) }
func (b *serverB) MoveVector() (r bool) { b.e = b.s.MoveVector(b.ns, &r); return }
func (b *serverB) DistInternal(n int) {
	var x int
	b.e = b.s.DistributeDataPointsInternal(kmrpc.DistribDPIArgs{NameSpace: b.ns, N: n}, &x)
}
func (b *serverB) KNN(v []float64, k int, d bool) (r []DP) {
	b.e = b.s.KNNLookup(kmrpc.KNNLookupArgs{NameSpace: b.ns, Vec: v, K: k, Drain: d}, &r)
	return
}
func (b *serverB) NearestC(v []float64, n int, d bool) (r []*Centroid, ok bool) {
	b.e = b.s.NearestCentroids(kmrpc.NearestCentroidArgs{NameSpace: b.ns, Vec: v, N: n, Drain: d}, &r)
	return r, len(r) > 0
}
func (b *serverB) NearestCV(v []float64) (r []float64) {
	b.e = b.s.NearestCentroidVec(kmrpc.NearestCentroidVecArgs{NameSpace: b.ns, Vec: v}, &r)
	return
}
func (b *serverB) Split(min, max int) {
	var x int
	b.e = b.s.SplitCentroids(kmrpc.SplitCentroidsArgs{NameSpace: b.ns, DPRangeMin: min, DPRangeMax: max}, &x)
}
func (b *serverB) Merge(min, max int) {
	var x int
	b.e = b.s.MergeCentroids(kmrpc.SplitCentroidsArgs{NameSpace: b.ns, DPRangeMin: min, DPRangeMax: max}, &x)
}
func (b *serverB) Vec() (r []float64) { b.e = b.s.Vec(b.ns, &r); return }
func (b *serverB) Close()             {}

// clientB goes through the RPC client over TCP.
type clientB struct {
	node *Node
	ns   string
	err  error
	keep bool // one client for all calls
	one  nodeClient
}

type nodeClient interface {
	AddDataPoint(DP) bool
	DrainUnordered(int) []DP
	DrainOrdered(int) []DP
	Expire()
	LenDP() int
	MemTrim()
	MoveVector() bool
	DistributeDataPointsInternal(int)
	KNNLookup([]float64, int, bool) []DP
	NearestCentroids([]float64, int, bool) ([]*Centroid, bool)
	NearestCentroidVec([]float64) []float64
	SplitCentroids(int, int)
	MergeCentroids(int, int)
	Vec() []float64
	Namespaces() []string
}

func (b *clientB) c() nodeClient {
	if !b.keep {
		return kmrpc.KMeansClient(b.node.Addr, b.ns, &b.err)
	}
	if b.one == nil {
		b.one = kmrpc.KMeansClient(b.node.Addr, b.ns, &b.err)
	}
	return b.one
}

func (b *clientB) Name() string          { return "client" }
func (b *clientB) With(f func(*CM)) bool { return b.node.Srv.Table.Access(b.ns, f) }
func (b *clientB) Add(dp DP) bool {
	b.err = nil
	return b.c().AddDataPoint(dp)
}
func (b *clientB) DrainU(n int) []DP {
	b.err = nil
	return b.c().DrainUnordered(n)
}
func (b *clientB) DrainO(n int) []DP {
	b.err = nil
	return b.c().DrainOrdered(n)
}
func (b *clientB) Expire() { b.err = nil; b.c().Expire() }
func (b *clientB) Len() int {
	b.err = nil
	return b.c().LenDP()
}
func (b *clientB) MemTrim() { b.err = nil; b.c().MemTrim() }
func (b *clientB) MoveVector() bool {
	b.err = nil
	return b.c().MoveVector()
}
func (b *clientB) DistInternal(n int) {
	b.err = nil
	b.c().DistributeDataPointsInternal(n)
}
func (b *clientB) KNN(v []float64, k int, d bool) []DP {
	b.err = nil
	return b.c().KNNLookup(v, k, d)
}
func (b *clientB) NearestC(v []float64, n int, d bool) ([]*Centroid, bool) {
	b.err = nil
	return b.c().NearestCentroids(v, n, d)
}
func (b *clientB) NearestCV(v []float64) []float64 {
	b.err = nil
	return b.c().NearestCentroidVec(v)
}
func (b *clientB) Split(min, max int) {
	b.err = nil
	b.c().SplitCentroids(min, max)
}
func (b *clientB) Merge(min, max int) {
	b.err = nil
	b.c().MergeCentroids(min, max)
}
func (b *clientB) Vec() []float64 {
	b.err = nil
	return b.c().Vec()
}
func (b *clientB) Close() { b.node.Close() }

// ---- snapshots ----

type SC struct {
	P   *Centroid
	Vec []float64
	IDs []uint64
	DPs []DP
	Exp []bool
	Cap int
}

type Snap struct {
	Exists bool
	Cs     []SC
	Vec    []float64
}

func snapCM(cm *CM) *Snap {
	s := &Snap{Exists: true, Vec: cloneVec(cm.Vec())}
	for _, c := range cm.Centroids {
		s.Cs = append(s.Cs, snapC(c))
	}
	return s
}

func snapC(c *Centroid) SC {
	x := SC{P: c, Vec: cloneVec(c.Vec()), Cap: cap(c.DataPoints)}
	for _, dp := range c.DataPoints {
		x.IDs = append(x.IDs, idOf(dp))
		x.DPs = append(x.DPs, dp)
		x.Exp = append(x.Exp, isExpired(dp))
	}
	return x
}

func snapB(b Backend) *Snap {
	s := &Snap{}
	b.With(func(cm *CM) { s = snapCM(cm) })
	return s
}

func (s *Snap) ids() map[uint64]int {
	m := map[uint64]int{}
	for _, c := range s.Cs {
		for _, id := range c.IDs {
			m[id]++
		}
	}
	return m
}

func (s *Snap) total() int {
	n := 0
	for _, c := range s.Cs {
		n += len(c.IDs)
	}
	return n
}

func (s *Snap) nExpired() int {
	n := 0
	for _, c := range s.Cs {
		n += c.nExp()
	}
	return n
}

func (c SC) nExp() int {
	n := 0
	for _, e := range c.Exp {
		if e {
			n++
		}
	}
	return n
}

func (s *Snap) shape() string {
	var b strings.Builder
	for _, c := range s.Cs {
		fmt.Fprintf(&b, "%d", len(c.IDs))
		if e := c.nExp(); e > 0 {
			fmt.Fprintf(&b, "(%dx)", e)
		}
		b.WriteByte(' ')
	}
	return b.String()
}

// expiredIn: ids expired in the snapshot.
func (s *Snap) expired() map[uint64]bool {
	m := map[uint64]bool{}
	for _, c := range s.Cs {
		for i, id := range c.IDs {
			if c.Exp[i] {
				m[id] = true
			}
		}
	}
	return m
}

// ---- operations ----

type OpR struct {
	Kind    string
	N       int
	Min, Mx int
	Vec     []float64
	Drain   bool
	DP      DP
	DPClass string
	Pred    func(*Centroid) bool

	OK   bool
	Out  []DP
	OutC []*Centroid
	OutV []float64
	Len  int
	Err  error
}

func (o *OpR) String() string {
	switch o.Kind {
	case "add":
		return fmt.Sprintf("add %s %s dim=%d -> %v", sid(idOf(o.DP)), o.DPClass, len(o.DP.Vec), o.OK)
	case "drainU", "drainO":
		return fmt.Sprintf("%s(%d) -> %d", o.Kind, o.N, len(o.Out))
	case "knn":
		return fmt.Sprintf("knn(k=%d drain=%v dim=%d) -> %d", o.N, o.Drain, len(o.Vec), len(o.Out))
	case "nearC":
		return fmt.Sprintf("nearestCentroids(n=%d drain=%v) -> %d", o.N, o.Drain, len(o.OutC))
	case "split", "merge":
		return fmt.Sprintf("%s(%d,%d)", o.Kind, o.Min, o.Mx)
	case "distI":
		return fmt.Sprintf("distributeInternal(%d)", o.N)
	case "len":
		return fmt.Sprintf("len -> %d", o.Len)
	}
	return o.Kind
}

// Store is one store under test plus its reference knowledge.
type Store struct {
	K     *K
	B     Backend
	Cfg   cmCfg
	Reg   *Reg
	VG    *VG
	Scale float64 // largest component ever used
	Live  string  // class of points added ("live" or "plain")
	Maxn  int

	lastV []float64 // vector of the last point made by newDP
	kept  []keptOut
}

// keptOut is a batch of points an operation returned, with a copy of what they
// were like then: they belong to the caller and must not change any more.
type keptOut struct {
	got, want []DP
	what      string
}

func (st *Store) keep(o *OpR) {
	if len(st.kept) >= 12 {
		st.keptOK()
	}
	add := func(got []DP) {
		if len(got) == 0 {
			return
		}
		w := make([]DP, len(got))
		for i, d := range got {
			w[i] = cloneDP(d)
		}
		st.kept = append(st.kept, keptOut{got, w, o.String()})
	}
	switch o.Kind {
	case "drainU", "drainO":
		add(o.Out)
	case "knn":
		add(o.Out)
	case "nearC":
		if o.Drain {
			for _, c := range o.OutC {
				if c != nil {
					add(c.DataPoints)
				}
			}
		}
	}
}

// keptOK: what operations returned earlier is still what they returned.
func (st *Store) keptOK() {
	for _, x := range st.kept {
		for i := range x.got {
			a, b := x.want[i], x.got[i]
			if idOf(a) != idOf(b) {
				st.K.Fail("points returned by %q changed afterwards: #%d was %s and became %s", x.what, i, sid(idOf(a)), sid(idOf(b)))
			}
			if e := dpDiff(a, b); e != "" {
				st.K.Fail("points returned by %q changed afterwards: %s", x.what, e)
			}
		}
		st.K.Count("returned_points_rechecked", int64(len(x.got)))
	}
	st.kept = nil
}

func (st *Store) tol() float64 { return 1e-7 * (st.Scale + 1e-12) }

func (st *Store) newDP(class string) DP {
	v := st.VG.Vec()
	st.Scale = math.Max(st.Scale, maxAbs(v))
	if len(st.lastV) == st.VG.Dim && st.K.R.IntN(10) == 0 {
		// the very slice of the point before, as callers may share one
		dp := st.Reg.New(st.K.R, st.lastV, class)
		dp.Vec = st.lastV
		return dp
	}
	dp := st.Reg.New(st.K.R, v, class)
	st.lastV = dp.Vec
	return dp
}

// populate builds an arbitrary shape: nc centroids with the given sizes, points
// assigned at random, through exported API and fields only.
func (st *Store) populate(sizes []int, clustered bool) {
	k := st.K
	ok := st.B.With(func(cm *CM) {})
	if !ok { // create the namespace with one point, then clear it
		dp := st.newDP("plain")
		if !st.B.Add(dp) {
			k.Fail("first insert into an unused namespace was refused")
		}
		delete(st.Reg.dps, idOf(dp))
	}
	st.B.With(func(cm *CM) {
		cs := make([]*Centroid, 0, len(sizes))
		for _, n := range sizes {
			c := st.Cfg.newCentroid(st.VG.Vec())
			for j := 0; j < n; j++ {
				dp := st.newDP(st.Live)
				if !c.AddDataPoint(dp) {
					k.Fail("centroid refused an unexpired point of its dimension")
				}
			}
			cs = append(cs, c)
		}
		cm.Centroids = cs
		cm.MoveVector()
	})
	k.Op("populate %v (%s, dim %d, %s)", sizes, st.VG.Fam, st.VG.Dim, st.B.Name())
}

func randSizes(k *K, maxC, maxN int) []int {
	nc := 1 + logInt(k.R, maxC-1)
	s := make([]int, nc)
	for i := range s {
		s[i] = logInt(k.R, maxN)
	}
	return s
}

// flipExpired makes some stored points expired, in place.
func (st *Store) flipExpired(p float64) int {
	n := 0
	st.B.With(func(cm *CM) {
		for _, c := range cm.Centroids {
			pp := p
			if st.K.R.IntN(8) == 0 {
				pp = 1 // whole centroid
			}
			for i := range c.DataPoints {
				if st.K.R.Float64() < pp {
					id := idOf(c.DataPoints[i])
					o := st.Reg.dps[id]
					o.Expires, o.ExpireEnabled = longPast, true
					st.Reg.dps[id] = o
					c.DataPoints[i].Expires, c.DataPoints[i].ExpireEnabled = longPast, true
					n++
				}
			}
		}
	})
	st.K.Op("flip %d points to expired", n)
	return n
}

// flipSome makes the points chosen by pick expired.
func (st *Store) flipIdx(pick func(ci, i, n int) bool) {
	st.B.With(func(cm *CM) {
		for ci, c := range cm.Centroids {
			for i := range c.DataPoints {
				if pick(ci, i, len(c.DataPoints)) {
					id := idOf(c.DataPoints[i])
					o := st.Reg.dps[id]
					o.Expires, o.ExpireEnabled = longPast, true
					st.Reg.dps[id] = o
					c.DataPoints[i].Expires, c.DataPoints[i].ExpireEnabled = longPast, true
				}
			}
		}
	})
}

func (st *Store) pickN(total int) int {
	r := st.K.R
	switch r.IntN(8) {
	case 0:
		return total
	case 1:
		return total + 1 + r.IntN(5)
	case 2:
		return total - 1
	case 3:
		return 0
	default:
		return 1 + logInt(r, total+2)
	}
}

// genOp draws an operation; weights maps kind -> weight.
func (st *Store) genOp(w []wop) *OpR {
	r := st.K.R
	tot := 0
	for _, x := range w {
		tot += x.w
	}
	j := r.IntN(tot)
	kind := ""
	for _, x := range w {
		if j < x.w {
			kind = x.kind
			break
		}
		j -= x.w
	}
	total, maxc := 0, 0
	st.B.With(func(cm *CM) {
		for _, c := range cm.Centroids {
			total += c.LenDP()
			if c.LenDP() > maxc {
				maxc = c.LenDP()
			}
		}
	})
	o := &OpR{Kind: kind}
	switch kind {
	case "add":
		o.DPClass = st.Live
		if st.Live == "live" {
			switch r.IntN(10) {
			case 0:
				o.DPClass = "expired"
			case 1:
				o.DPClass = "zero"
			case 2:
				o.DPClass = "offpast"
			}
		}
		o.DP = st.newDP(o.DPClass)
		if st.Live == "live" && r.IntN(12) == 0 {
			o.DP = st.Reg.New(r, make([]float64, st.VG.Dim+1+r.IntN(2)), "plain")
			o.DPClass = "wrongdim"
		}
		if st.VG.Fam == "extreme" && r.IntN(6) == 0 {
			v := st.VG.Vec()
			v[r.IntN(len(v))] = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.IntN(3)]
			o.DP = st.Reg.New(r, v, "plain")
			o.DPClass = "nonfinite"
		}
	case "drainU", "drainO":
		o.N = st.pickN(total)
		if r.IntN(3) > 0 && o.N > 6 {
			o.N = 1 + r.IntN(6)
		}
	case "distI":
		o.N = st.pickN(total)
	case "knn":
		o.Vec = st.VG.Vec()
		o.N = st.pickN(total)
		o.Drain = false
		if r.IntN(3) == 0 {
			o.Drain = true
			if r.IntN(3) > 0 && o.N > 6 {
				o.N = 1 + r.IntN(6)
			}
		}
	case "nearC":
		o.Vec = st.VG.Vec()
		o.N = 1 + r.IntN(3)
		o.Drain = r.IntN(3) == 0
		if !o.Drain && r.IntN(3) == 0 {
			o.N = r.IntN(20)
		}
	case "nearCV":
		o.Vec = st.VG.Vec()
	case "split":
		o.Min = []int{-1, 0, 1, 2, 3, r.IntN(maxc + 1)}[r.IntN(6)]
		o.Mx = []int{1 << 30, maxc, maxc + 1, o.Min + 2 + r.IntN(5)}[r.IntN(4)]
	case "merge":
		o.Min = []int{-1, -1, 0, 0, 1, r.IntN(maxc + 1)}[r.IntN(6)]
		o.Mx = []int{2, 3, 5, 1 + r.IntN(maxc+1), maxc + 1}[r.IntN(5)]
		if r.IntN(15) == 0 {
			o.Mx = 1 << 30
		}
	}
	return o
}

type wop struct {
	kind string
	w    int
}

func (st *Store) exec(o *OpR) {
	b := st.B
	switch o.Kind {
	case "add":
		o.OK = b.Add(o.DP)
	case "drainU":
		o.Out = b.DrainU(o.N)
	case "drainO":
		o.Out = b.DrainO(o.N)
	case "expire":
		b.Expire()
	case "trim":
		b.MemTrim()
	case "moveV":
		o.OK = b.MoveVector()
	case "distI":
		b.DistInternal(o.N)
	case "knn":
		o.Out = b.KNN(cloneVec(o.Vec), o.N, o.Drain)
	case "nearC":
		o.OutC, o.OK = b.NearestC(cloneVec(o.Vec), o.N, o.Drain)
	case "nearCV":
		o.OutV = b.NearestCV(cloneVec(o.Vec))
	case "split":
		b.Split(o.Min, o.Mx)
	case "merge":
		b.Merge(o.Min, o.Mx)
	case "len":
		o.Len = b.Len()
	case "vec":
		o.OutV = b.Vec()
	default:
		panic("op " + o.Kind)
	}
	if cb, ok := b.(*clientB); ok {
		o.Err = cb.err
	}
	if sb, ok := b.(*serverB); ok {
		o.Err = sb.e
	}
	st.K.Op("%s", o.String())
}

type Monitor func(st *Store, pre, post *Snap, o *OpR)

func (st *Store) step(o *OpR, mons ...Monitor) (pre, post *Snap) {
	pre = snapB(st.B)
	st.exec(o)
	st.keep(o)
	post = snapB(st.B)
	for _, m := range mons {
		m(st, pre, post, o)
	}
	return
}

// ---- set helpers ----

func diffIDs(a, b map[uint64]int) (onlyA []uint64) {
	for id, n := range a {
		if n > b[id] {
			onlyA = append(onlyA, id)
		}
	}
	sort.Slice(onlyA, func(i, j int) bool { return onlyA[i] < onlyA[j] })
	return
}

func addIDs(m map[uint64]int, dps []DP) map[uint64]int {
	r := map[uint64]int{}
	for k, v := range m {
		r[k] = v
	}
	for _, d := range dps {
		r[idOf(d)]++
	}
	return r
}

func dupIDs(m map[uint64]int) (d []uint64) {
	for id, n := range m {
		if n > 1 {
			d = append(d, id)
		}
	}
	return
}

func filterOut(ids []uint64, drop map[uint64]bool) (r []uint64) {
	for _, id := range ids {
		if !drop[id] {
			r = append(r, id)
		}
	}
	return
}

// contentOK: every stored point is bit-identical to what was inserted.
func (st *Store) contentOK(s *Snap, what string) {
	for _, c := range s.Cs {
		for _, dp := range c.DPs {
			if e := st.Reg.same(dp); e != "" {
				st.K.Fail("%s: stored point altered: %s", what, e)
			}
		}
	}
}

func (st *Store) outOK(out []DP, what string) {
	for _, dp := range out {
		if e := st.Reg.same(dp); e != "" {
			st.K.Fail("%s returned an altered point: %s", what, e)
		}
	}
}

func centroidsDPs(cs []*Centroid) (r []DP) {
	for _, c := range cs {
		if c != nil {
			r = append(r, c.DataPoints...)
		}
	}
	return
}
