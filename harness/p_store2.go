package main

// C02, C04, C06, C09: store monitors plus node and cluster level parts.

import (
	"fmt"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func newKMServer(addr string, f func([]float64) *CM) *KMServer { return kmrpc.NewKMeansServer(addr, f) }

func init() {
	reg(&Prop{ID: "C04", Level: "exploration", Rule: seqRule, Min: 100, Run: func(r *Run) {
		w := reweigh(map[string]int{"knn": 30})
		r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{}, w, 25, monKNNCount) })
		r.Cases("extreme", r.N(1200, 24000), 8, func(k *K) { runSeq(k, storeOpts{fam: "extreme"}, w, 25, monKNNCount) })
		r.Cases("uneven", r.N(1500, 30000), 8, func(k *K) {
			// many empty / expired / zero-mean centroids around few points
			st := newStore(k, storeOpts{maxC: 25, maxN: 3})
			defer st.B.Close()
			if k.R.IntN(2) == 0 {
				st.flipExpired(0.5)
			}
			tot := snapB(st.B).total()
			for _, kk := range []int{0, 1, 2, 3, tot / 2, tot - 1, tot, tot + 1, 2*tot + 3} {
				if kk < 0 {
					continue
				}
				st.step(&OpR{Kind: "knn", N: kk, Vec: st.VG.Vec()}, monKNNCount)
			}
			k.Sig("uneven " + snapB(st.B).shape())
		})
		r.Cases("equal", r.N(800, 16000), 8, twinSeq)
		r.Cases("big", r.N(16, 240), 8, bigCase("live", 0.3, []string{"knn"}, monKNNCount))
		r.Cases("centroid", r.N(1000, 20000), 8, func(k *K) {
			st, c := newCentroidCase(k)
			st.flipC(c, []float64{0, 0.3, 0.7}[k.R.IntN(3)])
			pre := &Snap{Exists: true, Cs: []SC{snapC(c)}}
			for i := 0; i < 4; i++ {
				o := &OpR{Kind: "knn", N: st.pickN(len(pre.Cs[0].IDs)), Vec: st.VG.Vec(), Drain: k.R.IntN(4) == 0}
				o.Out = c.KNNLookup(cloneVec(o.Vec), o.N, o.Drain)
				post := &Snap{Exists: true, Cs: []SC{snapC(c)}}
				monKNNCount(st, pre, post, o)
				pre = post
			}
			k.Sig("c " + pre.shape())
		})
	}})
	reg(&Prop{ID: "C06", Level: "exploration", Rule: seqRule, Min: 100, Run: func(r *Run) {
		w := reweigh(map[string]int{"knn": 12, "drainU": 6, "drainO": 6, "nearC": 8, "nearCV": 3, "len": 2, "add": 8})
		r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{}, w, 25, monDrain) })
		r.Cases("extreme", r.N(1200, 24000), 8, func(k *K) { runSeq(k, storeOpts{fam: "extreme"}, w, 25, monDrain) })
		r.Cases("centroid", r.N(1500, 30000), 8, centroidDrainCase)
		r.Cases("cluster", r.N(150, 3000), 4, clusterDrainCase)
		r.Cases("equal", r.N(1000, 20000), 8, twinSeq)
		r.Cases("equal-nodes", r.N(150, 3000), 8, twinCluster)
		r.Cases("big", r.N(16, 240), 8, bigCase("live", 0.3, []string{"knn", "drainU", "drainO", "nearC", "len", "nearCV"}, monDrain))
	}})
	reg(&Prop{ID: "C02", Level: "exploration", Rule: seqRule, Min: 100, Run: func(r *Run) {
		w := reweigh(map[string]int{"add": 40, "trim": 4, "drainU": 4})
		r.Cases("seq", r.N(4000, 80000), 8, func(k *K) { runSeq(k, storeOpts{}, w, 25, monAdd) })
		r.Cases("extreme", r.N(1200, 24000), 8, func(k *K) { runSeq(k, storeOpts{fam: "extreme"}, w, 25, monAdd) })
		r.Cases("first", r.N(1500, 30000), 8, firstInsertCase)
		r.Cases("equal", r.N(1000, 20000), 8, twinSeq)
		r.Cases("equal-nodes", r.N(200, 4000), 8, twinCluster)
		r.Cases("cluster", r.N(250, 5000), 4, clusterAddCase)
		r.Cases("cut", r.N(250, 5000), 4, cutAddCase)
	}})
	reg(&Prop{ID: "C09", Level: "exploration", Rule: seqRule, Min: 100, Run: func(r *Run) {
		r.Cases("seq", r.N(5000, 100000), 8, func(k *K) { runSeq(k, storeOpts{}, allOps, 30, monNSMean) })
		w := reweigh(map[string]int{"nearC": 10, "drainU": 6, "trim": 6, "merge": 8})
		r.Cases("big", r.N(12, 240), 8, bigCase("live", 0.3, []string{"drainU", "nearC", "knn", "distI", "split", "expire", "trim"}, monNSMean))
		r.Cases("shrink", r.N(1500, 30000), 8, func(k *K) { runSeq(k, storeOpts{maxC: 5, maxN: 6}, w, 30, monNSMean) })
		r.Cases("grow", r.N(800, 16000), 8, func(k *K) {
			st := newStore(k, storeOpts{noPop: true})
			defer st.B.Close()
			for i := 0; i < 10+k.R.IntN(60); i++ {
				st.step(&OpR{Kind: "add", DP: st.newDP("live")}, monNSMean)
			}
			k.Sig("grow " + snapB(st.B).shape())
		})
		r.Cases("receivers", r.N(800, 16000), 8, nsMeanReceivers)
		r.Cases("steal", r.N(120, 2500), 4, nsMeanSteal)
	}})
}

func centroidDrainCase(k *K) {
	st, c := newCentroidCase(k)
	sig := ""
	for i := 0; i < 3+k.R.IntN(12); i++ {
		if k.R.IntN(5) == 0 {
			st.flipC(c, 0.3)
		}
		kind, out, p, q := centroidStep(st, c)
		sig += kind
		pre, post := &Snap{Cs: []SC{p}}, &Snap{Cs: []SC{q}}
		a, b, exp := pre.ids(), post.ids(), pre.expired()
		ret := addIDs(nil, out)
		if d := dupIDs(ret); len(d) > 0 {
			k.Fail("centroid.%s returned points twice: %s", kind, sids(d))
		}
		drains := kind == "drainU" || kind == "drainO" || kind == "knnDrain"
		for id := range ret {
			if a[id] == 0 {
				k.Fail("centroid.%s returned a point it did not hold", kind)
			}
			if drains && b[id] > 0 {
				k.Fail("centroid.%s returned %s but still holds it", kind, sid(id))
			}
		}
		if kind != "add" {
			for _, id := range diffIDs(a, b) {
				if !exp[id] && !(drains && ret[id] > 0) {
					k.Fail("centroid.%s removed %s without returning it", kind, sid(id))
				}
			}
			if x := diffIDs(b, a); len(x) > 0 {
				k.Fail("centroid.%s made points appear", kind)
			}
		}
		st.outOK(out, "centroid."+kind)
		st.contentOK(post, "centroid."+kind)
	}
	st.keptOK()
	k.Sig("cd " + sig)
}

// firstInsertCase: the very first insert into a namespace, of any kind.
func firstInsertCase(k *K) {
	cfg := pickCfg(k)
	st := &Store{K: k, Cfg: cfg, Reg: newReg(), VG: newVG(k.R, 0, ""), Live: "live"}
	st.B = newBackend(k, cfg, []string{"local", "server", "server", "client"}[k.R.IntN(4)])
	defer st.B.Close()
	cls := []string{"live", "expired", "zero", "offpast", "future", "plain"}
	sig := st.B.Name()
	for i := 0; i < 1+k.R.IntN(4); i++ {
		c := cls[k.R.IntN(len(cls))]
		o := &OpR{Kind: "add", DPClass: c, DP: st.newDP(c)}
		if k.R.IntN(5) == 0 {
			o.DP = st.Reg.New(k.R, make([]float64, st.VG.Dim+1), c)
		}
		_, post := st.step(o, monAdd)
		sig += fmt.Sprintf("%s%d%v", c, len(o.DP.Vec)-st.VG.Dim, o.OK)
		if o.Err != nil {
			k.Fail("insert returned an error: %v", o.Err)
		}
		if k.R.IntN(4) == 0 && post.total() > 0 {
			// empty the namespace again: what may be inserted next?
			st.step(&OpR{Kind: "drainU", N: post.total()})
			if k.R.IntN(2) == 0 {
				st.step(&OpR{Kind: "trim"})
			}
		}
	}
	k.Sig("first " + sig)
	k.Sample("first", 2, k.Ops())
}

func nsMeanReceivers(k *K) {
	st := newStore(k, storeOpts{backend: "local", maxC: 6})
	cm := st.B.(*localB).cm
	cm2 := st.Cfg.newCM(nil)
	for i := 0; i < k.R.IntN(10); i++ {
		cm2.AddDataPoint(st.newDP("live"))
	}
	for i := 0; i < 3; i++ {
		n := st.pickN(snapCM(cm).total())
		recv := mkRecv(k, cm2, cm)
		cm.DistributeDataPoints(n, recv)
		k.Op("distribute(%d) to %d receivers", n, len(recv))
		checkNSMean(k, snapCM(cm), st.tol(), "distribute (source)")
		checkNSMean(k, snapCM(cm2), st.tol(), "distribute (receiver)")
	}
	k.Sig("recv " + snapCM(cm).shape() + "|" + snapCM(cm2).shape())
}
