package main

// Cluster-level parts of C02, C03, C06 and C09.

import (
	"fmt"
	"sync/atomic"

	"trypo/pkg/kmeans/common"
)

// clusterAddCase (C02): puts through the dps functions.
func clusterAddCase(k *K) {
	c, conds := mixedCluster(k, pickCfg(k), 5)
	defer c.Close()
	sig := fmt.Sprint(conds)
	for i := 0; i < 4; i++ {
		cls := []string{"live", "live", "live", "expired", "zero", "offpast"}[k.R.IntN(6)]
		var dp DP
		if k.R.IntN(8) == 0 {
			v := make([]float64, c.VG.Dim+2)
			v[0] = 1
			dp = c.Reg.New(k.R, v, cls)
		} else {
			dp = c.St[0].newDP(cls)
		}
		kind := kinds3[k.R.IntN(3)]
		addrs := c.addrs()
		k.R.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
		if k.R.IntN(5) == 0 {
			addrs = append(addrs, addrs[0])
		}
		pre := c.snap()
		ok := c.put(kind, addrs, dp)
		post := c.snap()
		a, b := pre.ids(), post.ids()
		stored := b[idOf(dp)]
		if (ok && stored != 1) || (!ok && stored != 0) {
			k.Fail("put %s reported %v but the point is stored %d times", kind, ok, stored)
		}
		if ok && isExpired(dp) {
			k.Fail("put %s accepted an expired point", kind)
		}
		want := false
		for j, cd := range conds {
			s := pre.N[j]
			if cd == ncDown || cd == ncRefuse || isExpired(dp) {
				continue
			}
			fits := !s.Exists || len(s.Cs) == 0
			for _, x := range s.Cs {
				if len(x.Vec) == len(dp.Vec) {
					fits = true
				}
			}
			switch kind {
			case "rand":
				want = want || fits
			case "fast":
				want = want || (s.Exists && fits && len(s.Vec) == len(dp.Vec))
			case "accurate":
				want = want || (s.Exists && len(s.Cs) > 0 && fits)
			}
		}
		if want && !ok {
			k.Fail("put %s of an unexpired point failed although a node could take it (%v, %s)", kind, conds, pre.shape())
		}
		if lost := filterOut(diffIDs(a, b), pre.expired()); len(lost) > 0 {
			k.Fail("put %s removed other points %s", kind, sids(lost))
		}
		for _, x := range diffIDs(b, a) {
			if x != idOf(dp) {
				k.Fail("put %s made another point appear", kind)
			}
		}
		c.contentOK(post, "put "+kind)
		sig += fmt.Sprint(kind, cls, ok)
		k.Count(fmt.Sprintf("puts:%s:%v", kind, ok), 1)
	}
	k.Sig(sig)
}

// cutAddCase (C02): inserts while connections to the nodes break, before a call
// was executed, or after it was but before the reply arrived. A point is never
// stored on one node twice, what is reported as accepted is stored, and what is
// reported as refused is not unless a reply to the insert got lost.
func cutAddCase(k *K) {
	c, conds := mixedCluster(k, pickCfg(k), 4)
	defer c.Close()
	sig := fmt.Sprint(conds)
	kinds := []string{"request lost", "reply lost", "reply truncated"}
	for i := 0; i < 4; i++ {
		dp := c.St[0].newDP([]string{"live", "live", "live", "expired"}[k.R.IntN(4)])
		id := idOf(dp)
		// the calls to cut: each node's next insert with some probability
		var cut atomic.Int64 // replies lost after execution
		var hit atomic.Int64
		for _, n := range c.Nodes {
			what, left := kinds[k.R.IntN(3)], new(atomic.Int64)
			left.Store([]int64{0, 1, 1, 3}[k.R.IntN(4)])
			n.SetHook(func(ev *Ev) Act {
				if ev.Method != "AddDataPoint" || left.Add(-1) < 0 {
					return Act{}
				}
				hit.Add(1)
				if what != "request lost" {
					cut.Add(1)
				}
				return actOf(what)
			})
		}
		pre := c.snap()
		kind, ok := "client", false
		if k.R.IntN(2) == 0 {
			cb := c.St[k.R.IntN(len(c.St))].B
			ok = cb.Add(dp)
			k.Op("client insert %s -> %v", sid(id), ok)
		} else {
			kind = kinds3[k.R.IntN(3)]
			addrs := c.addrs()
			k.R.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
			ok = c.put(kind, addrs, dp)
		}
		for _, n := range c.Nodes {
			n.SetHook(nil)
		}
		post := c.snap()
		tot := 0
		for j, s := range post.N {
			m := s.ids()[id]
			tot += m
			if m > 1 {
				k.Fail("insert (%s) with broken connections stored the point %d times on node %d", kind, m, j)
			}
		}
		switch {
		case ok && tot == 0:
			k.Fail("insert (%s) with broken connections reported success but the point is nowhere", kind)
		case ok && tot > 1 && cut.Load() == 0, ok && tot > 1+int(cut.Load()):
			k.Fail("insert (%s) stored the point %d times (replies lost: %d)", kind, tot, cut.Load())
		case !ok && tot > int(cut.Load()):
			k.Fail("insert (%s) reported failure but the point is stored %d times (replies lost: %d)", kind, tot, cut.Load())
		case ok && isExpired(dp):
			k.Fail("insert (%s) accepted an expired point", kind)
		}
		a, b := pre.ids(), post.ids()
		if lost := filterOut(diffIDs(a, b), pre.expired()); len(lost) > 0 {
			k.Fail("insert (%s) removed other points %s", kind, sids(lost))
		}
		for _, x := range diffIDs(b, a) {
			if x != id {
				k.Fail("insert (%s) made another point appear", kind)
			}
		}
		c.contentOK(post, "insert "+kind)
		k.Count("connections_cut", hit.Load())
		k.Count("replies_lost", cut.Load())
		sig += fmt.Sprint(kind, ok, tot, cut.Load())
	}
	k.Sig(sig)
	k.Sample("cut", 2, k.Ops())
}

// clusterDrainCase (C06).
func clusterDrainCase(k *K) {
	c, conds := mixedCluster(k, pickCfg(k), 5)
	defer c.Close()
	sig := fmt.Sprint(conds)
	for i := 0; i < 4; i++ {
		if k.R.IntN(4) == 0 {
			c.St[k.R.IntN(len(c.St))].flipExpired(0.3)
		}
		kind := kinds3[k.R.IntN(3)]
		drain := k.R.IntN(3) > 0
		pre := c.snap()
		n := 1 + logInt(k.R, pre.total()+2)
		out := c.get(kind, c.addrs(), c.VG.Vec(), n, drain)
		post := c.snap()
		a, b, exp := pre.ids(), post.ids(), pre.expired()
		ret := addIDs(nil, out)
		if d := dupIDs(ret); len(d) > 0 {
			k.Fail("get %s returned points twice: %s", kind, sids(d))
		}
		for id := range ret {
			if a[id] == 0 {
				k.Fail("get %s returned a point that was not stored", kind)
			}
			if drain && b[id] > 0 {
				k.Fail("draining get %s returned %s but it is still stored", kind, sid(id))
			}
		}
		for _, id := range diffIDs(a, b) {
			if exp[id] || (drain && ret[id] > 0) {
				continue
			}
			k.Fail("get %s (drain=%v) removed %s without returning it", kind, drain, sid(id))
		}
		if x := diffIDs(b, a); len(x) > 0 {
			k.Fail("get %s made points appear", kind)
		}
		for _, st := range c.St {
			st.outOK(out, "get "+kind)
		}
		c.contentOK(post, "get "+kind)
		sig += fmt.Sprint(kind, drain, len(out))
		k.Count("cluster_gets", 1)
	}
	k.Sig(sig)
}

// expiryHandoffCase (C03): redistribution between nodes never hands expired points over.
func expiryHandoffCase(k *K) {
	c := newCluster(k, 2+k.R.IntN(3), pickCfg(k), pickNS(k), "", 0)
	defer c.Close()
	for i, st := range c.St {
		if i == 0 || k.R.IntN(4) > 0 {
			st.populate(randSizes(k, 4, 12), false)
		}
	}
	sig := c.snap().shape()
	for round := 0; round < 3; round++ {
		for i := range c.St {
			if k.R.IntN(2) == 0 {
				c.St[i].flipExpired([]float64{0.2, 0.6}[k.R.IntN(2)])
			}
		}
		src := k.R.IntN(len(c.Nodes))
		for _, n := range c.Nodes {
			n.SetTrace(true)
		}
		pre := c.snap()
		if !pre.N[src].Exists {
			continue
		}
		kind := []string{"fast", "accurate", "steal"}[k.R.IntN(3)]
		other := (src + 1 + k.R.IntN(len(c.Nodes)-1)) % len(c.Nodes)
		if kind == "steal" {
			c.steal(other, c.Nodes[src].Addr, 1+k.R.IntN(20))
		} else {
			c.distribute(kind, src, c.strs(), 1+k.R.IntN(pre.N[src].total()+2))
		}
		post := c.snap()
		for ni, n := range c.Nodes {
			for _, ev := range n.Events() {
				if a, ok := asAdd(ev); ok {
					k.Count("handed_over", 1)
					if isExpired(a.DP) {
						k.Fail("%s handed the expired point %s to node %d", kind, sid(idOf(a.DP)), ni)
					}
				}
			}
			n.SetTrace(false)
		}
		was := pre.where()
		for i, s := range post.N {
			for id := range s.expired() {
				if was[id] != i {
					k.Fail("%s moved the expired point %s to node %d", kind, sid(id), i)
				}
			}
		}
		if lost := filterOut(diffIDs(pre.ids(), post.ids()), pre.expired()); len(lost) > 0 {
			k.Fail("%s made unexpired points disappear: %s", kind, sids(lost))
		}
		sig += " " + kind + post.shape()
	}
	k.Sig(sig)
}

// mkRecv: receivers for a local redistribution whose managers keep their mean.
func mkRecv(k *K, cm2, cm *CM) []common.DataPointReceiver {
	var r []common.DataPointReceiver
	for i := 0; i < 1+k.R.IntN(4); i++ {
		switch k.R.IntN(4) {
		case 0:
			r = append(r, cm2)
		case 1:
			r = append(r, cm)
		case 2:
			if len(cm.Centroids) > 0 {
				r = append(r, cm.Centroids[k.R.IntN(len(cm.Centroids))])
			}
		case 3:
			v := cloneVec(cm.Vec())
			for j := range v {
				v[j] += k.R.NormFloat64()
			}
			r = append(r, &stubRecv{vec: v, mode: k.R.IntN(4)})
		}
	}
	return r
}

// nsMeanSteal (C09): stealing keeps the means of both nodes.
func nsMeanSteal(k *K) {
	c := newCluster(k, 2, pickCfg(k), pickNS(k), "", 0)
	defer c.Close()
	c.St[1].populate(randSizes(k, 6, 8), false)
	if k.R.IntN(3) > 0 {
		c.St[0].populate(randSizes(k, 6, 8), false)
	}
	if k.R.IntN(3) == 0 {
		c.St[1].flipExpired(0.3)
	}
	sig := c.snap().shape()
	for i := 0; i < 3; i++ {
		to := k.R.IntN(2)
		switch k.R.IntN(4) {
		case 0:
			if snapB(c.St[to].B).Exists {
				c.distribute([]string{"fast", "accurate"}[k.R.IntN(2)], to, c.strs(), 1+k.R.IntN(10))
			}
		default:
			c.steal(to, c.Nodes[1-to].Addr, 1+k.R.IntN(15))
		}
		s := c.snap()
		for j, n := range s.N {
			checkNSMean(k, n, 1e-7*c.scale(), fmt.Sprintf("steal/distribute (node %d)", j))
			// the node reports what it stores
			if n.Exists {
				if v := c.St[j].B.Vec(); !near(v, n.Vec, 1e-12*c.scale()) {
					k.Fail("node %d reports vector %v, holds %v", j, v, n.Vec)
				}
			}
		}
		sig += " " + s.shape()
	}
	k.Sig(sig)
}
