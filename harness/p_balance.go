package main

// C24: load balancing.

import (
	"fmt"
	"sync"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type stealEv struct {
	ns    string
	from  int // node index, -1: unknown address
	limit int
	got   int // as replied
	ok    bool
	raw   string
}

// balanceCase: passes of load balancing on node 0, judged against the sizes before each.
func balanceCase(k *K) {
	cfg := pickCfg(k)
	n := 1 + k.R.IntN(5)
	crowd := k.Idx % 20
	if crowd == 7 { // many nodes
		n = 17 + k.R.IntN(8)
	}
	var nodes []*Node
	defer func() {
		for _, nd := range nodes {
			nd.Close()
		}
	}()
	var all []Addr
	reg := newReg()
	for i := 0; i < n; i++ {
		nd := newNode(cfg)
		nodes = append(nodes, nd)
		all = append(all, nd.A())
	}
	nss := []string{"a", "b", ""}[:1+k.R.IntN(3)]
	scale := []int{3, 20, 60, 200, 200}[k.R.IntN(5)]
	style := k.R.IntN(7)
	switch crowd {
	case 7:
		nss = nss[:1]
		scale = 200
	case 13: // many namespaces
		for i := 17 + k.R.IntN(16); i > 0; i-- {
			nss = append(nss, fmt.Sprint("ns", i))
		}
		scale = 60
	}
	k.Max("nodes", int64(n))
	k.Max("namespaces", int64(len(nss)))
	for j, ns := range nss {
		vg := newVG(k.R, 2+j, "gauss")
		for i, nd := range nodes {
			sz := 0
			switch (style + j) % 7 {
			case 0: // anything
				sz = logInt(k.R, scale*2)
			case 1: // local holds nothing
				if i > 0 {
					sz = k.R.IntN(scale + 1)
				}
			case 2: // one big source
				sz = k.R.IntN(scale/6 + 1)
				if i == n-1 {
					sz = 4 * scale
				}
			case 3: // a single holder
				if i == n-1 {
					sz = 2 * scale
				}
			case 4: // all equal, local around 60 % of them
				sz = scale
				if i == 0 {
					sz = scale*6/10 + k.R.IntN(7) - 3
				}
			case 5: // near the boundaries
				sz = scale
				if i == 0 {
					sz = k.R.IntN(scale/3 + 1)
				}
				if i == 1 {
					sz = 3*scale + k.R.IntN(scale)
				}
			case 6:
				sz = 1 + k.R.IntN(3)
				if k.R.IntN(2) == 0 {
					sz = scale + k.R.IntN(scale)
				}
			}
			nsEmpty := sz <= 0 && k.R.IntN(3) == 0
			if sz <= 0 && !nsEmpty {
				continue
			}
			b := &serverB{s: nd.Srv, ns: ns}
			st := &Store{K: k, B: b, Cfg: cfg, Reg: reg, VG: vg, Live: "plain"}
			if nsEmpty {
				b.Add(st.newDP("plain"))
				b.DrainU(1)
				continue
			}
			fillNode(k, st, sz)
		}
	}
	switch k.R.IntN(8) {
	case 0:
		all = append(all, addrOf(deadAddr()))
	case 1:
		if n > 1 {
			nodes[n-1].Down()
		}
	case 2:
		if n > 1 {
			all = append([]Addr{}, all[1:]...) // the local node is not listed
		}
	}
	// a node that reports its size but gives nothing away must not keep the others
	// from being used
	bad := -1
	if n > 2 && k.R.IntN(5) == 0 {
		bad = 1 + k.R.IntN(n-1)
		nodes[bad].SetHook(func(ev *Ev) Act { return Act{CutReq: ev.Method == "NearestCentroids"} })
		k.Count("with_a_source_that_fails", 1)
	}
	k.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	idx := func(addr string) int {
		for i, nd := range nodes {
			if nd.Addr == addr {
				return i
			}
		}
		return -1
	}
	listed := func(i int) bool {
		for _, a := range all {
			if a == nodes[i].A() {
				return true
			}
		}
		return false
	}
	c := &eventloop.EventLoopConfig{LocalAddr: nodes[0].A(), RemoteAddrs: all, LogLocalOnly: true}
	const never = 1001
	c.TaskSkip = eventloop.EventLoopTaskSkipConfig{Expire: never, MemTrim: never, DistributeDataPointsFast: never, DistributeDataPointsAccurate: never,
		DistributeDataPointsInternal: never, SplitCentroids: never, MergeCentroids: never, LoadBalancing: 1, Meta: 1}
	var mu sync.Mutex
	var steals []*stealEv
	for i, nd := range nodes {
		nd.SetOnDone(func(ev *Ev) {
			switch ev.Method {
			case "AddDataPoint", "DrainUnordered", "DrainOrdered", "DistributeDataPointsFast", "DistributeDataPointsAccurate":
				k.Report("load balancing of node 0 led to the call %s on node %d", ev.Method, i)
			case "KNNLookup":
				if a, ok := derefArgs(ev).(kmrpc.KNNLookupArgs); ok && a.Drain {
					k.Report("load balancing of node 0 led to a draining query on node %d", i)
				}
			case "NearestCentroids":
				if a, ok := derefArgs(ev).(kmrpc.NearestCentroidArgs); ok && a.Drain && i == 0 {
					k.Report("load balancing drained the local node")
				}
			case "StealCentroid":
				a, ok := derefArgs(ev).(kmrpc.StealCentroidArgs)
				if !ok {
					return
				}
				s := &stealEv{ns: a.NameSpace, from: idx(a.FromAddr), limit: a.TransferDPLimit, raw: a.FromAddr}
				switch r := ev.Reply.(type) {
				case *kmrpc.StealCentroidsResp:
					s.got, s.ok = r.TransferredN, r.OK
				case kmrpc.StealCentroidsResp:
					s.got, s.ok = r.TransferredN, r.OK
				}
				if i != 0 {
					k.Report("load balancing of node 0 made node %d steal", i)
				}
				mu.Lock()
				steals = append(steals, s)
				mu.Unlock()
			}
		})
	}
	sizes := func() map[string][]int { // -1: does not have the namespace
		m := map[string][]int{}
		for _, ns := range nss {
			var r []int
			for _, nd := range nodes {
				s := snapB(&serverB{s: nd.Srv, ns: ns})
				if !s.Exists {
					r = append(r, -1)
				} else {
					r = append(r, s.total())
				}
			}
			m[ns] = r
		}
		return m
	}
	idsNow := func(ns string) map[uint64]int {
		m := map[uint64]int{}
		for _, nd := range nodes {
			for id, x := range snapB(&serverB{s: nd.Srv, ns: ns}).ids() {
				m[id] += x
			}
		}
		return m
	}
	allIDs := map[string]map[uint64]int{}
	for _, ns := range nss {
		allIDs[ns] = idsNow(ns)
	}
	ls := newLoopSet(k)
	log := &memLogger{}
	c.L = log
	var stop func()
	var rdy sync.WaitGroup
	rdy.Add(1)
	passes := 1 + k.R.IntN(4)
	var pre map[string][]int
	first := sizes()
	k.Op("sizes %v (-1: no namespace), %d addresses, %d passes", first, len(all), passes)
	np := 0
	up := make([]bool, n)
	for i, nd := range nodes {
		up[i] = nodeUp(nd)
	}
	log.onM = func(eventloop.MetaData) {
		rdy.Wait()
		k.Beat()
		if np > passes {
			return
		}
		post := sizes()
		mu.Lock()
		ss := steals
		steals = nil
		mu.Unlock()
		if pre != nil {
			judgePass(k, pre, post, ss, listed, up, len(all), nss, bad)
		} else if len(ss) > 0 {
			k.Report("stealing before the first pass")
		}
		pre = post
		np++
		if np > passes {
			stop()
		}
	}
	c.TaskSkip.Meta = 1
	stop = ls.start(c)
	rdy.Done()
	ls.wait()
	for _, ns := range nss {
		if now := idsNow(ns); len(diffIDs(allIDs[ns], now))+len(diffIDs(now, allIDs[ns])) > 0 {
			k.Fail("the points of namespace %q were not conserved: lost %s, appeared %s", ns, sids(diffIDs(allIDs[ns], now)), sids(diffIDs(now, allIDs[ns])))
		}
	}
	k.Sig(fmt.Sprint(first, len(all), up))
	k.Count("passes", int64(passes))
	k.Sample("balance", 3, map[string]any{"sizes_before": fmt.Sprint(first), "sizes_after": fmt.Sprint(pre), "passes": passes, "addresses": len(all)})
}

// fillNode stores sz points in small centroids.
func fillNode(k *K, st *Store, sz int) {
	per := 1 + k.R.IntN(8)
	var szs []int
	for sz > 0 {
		m := min(sz, 1+k.R.IntN(per))
		szs = append(szs, m)
		sz -= m
	}
	st.populate(szs, false)
}

// judgePass decides one pass of load balancing on node 0.
func judgePass(k *K, pre, post map[string][]int, ss []*stealEv, listed func(int) bool, up []bool, nAddrs int, nss []string, bad int) {
	known := map[string]bool{}
	for _, ns := range nss {
		known[ns] = true
	}
	for _, s := range ss {
		if !known[s.ns] {
			k.Report("a steal for the unknown namespace %q", s.ns)
			return
		}
	}
	for _, ns := range nss {
		sz := pre[ns]
		total, cnt := 0, 0
		for i, x := range sz {
			if listed(i) && up[i] && x >= 0 {
				total += x
				cnt++
			}
		}
		var mine []*stealEv
		for _, s := range ss {
			if s.ns == ns {
				mine = append(mine, s)
			}
		}
		what := fmt.Sprintf("namespace %q, sizes %v before and %v after", ns, sz, post[ns])
		// sizes change as reported, and only towards the local node
		local := max(sz[0], 0)
		if !listed(0) || !up[0] {
			local = 0
		}
		if cnt == 0 {
			if len(mine) > 0 {
				k.Report("%s: stealing although no listed node has the namespace", what)
			}
			continue
		}
		mean := total / cnt
		margin := int(float64(mean) * 0.4)
		got := make([]int, len(sz))
		cur := local
		curOf := append([]int(nil), sz...)
		for _, s := range mine {
			d := fmt.Sprintf("%s: steal of %d from node %d (%s)", what, s.limit, s.from, s.raw)
			if s.from <= 0 || !listed(s.from) || sz[s.from] < 0 {
				k.Report("%s: not another listed node with the namespace", d)
				return
			}
			if cur > mean-margin {
				k.Report("%s: the local node holds %d, the average is %d", d, cur, mean)
				return
			}
			if lim := (mean - cur) / nAddrs / 3; s.limit > lim || s.limit < 1 {
				k.Report("%s: the fair fraction is %d (average %d, local %d, %d addresses)", d, lim, mean, cur, nAddrs)
				return
			}
			if curOf[s.from]-s.limit < mean+margin && cnt != 1 {
				k.Report("%s: the source holds %d and would not stay above the average %d by 40%%", d, curOf[s.from], mean)
				return
			}
			cur += s.got
			curOf[s.from] -= s.got
			got[s.from] += s.got
			k.Count("steals", 1)
			k.Count("points_stolen", int64(s.got))
			if s.got > s.limit {
				k.Count("steals_overshooting_by_whole_centroids", 1)
			}
		}
		sum := 0
		for i := range sz {
			if i == 0 {
				continue
			}
			if max(post[ns][i], 0) != max(sz[i], 0)-got[i] {
				k.Report("%s: node %d changed by %d, the steals reported %d", what, i, max(post[ns][i], 0)-max(sz[i], 0), -got[i])
				return
			}
			sum += got[i]
		}
		if max(post[ns][0], 0) != max(sz[0], 0)+sum {
			k.Report("%s: the local node changed by %d, the steals reported %d", what, max(post[ns][0], 0)-max(sz[0], 0), sum)
			return
		}
		// whoever was a source all along must have been used
		if !up[0] {
			continue
		}
		t0, t1 := (mean-local)/nAddrs/3, (mean-cur)/nAddrs/3
		for i := range sz {
			if i == 0 || i == bad || !listed(i) || !up[i] || sz[i] < 0 || got[i] > 0 {
				continue
			}
			if cur > mean-margin || t1 < 1 {
				continue
			}
			if sz[i]-t0 >= mean+margin || cnt == 1 {
				k.Report("%s: node %d is a source (average %d, fraction %d) but nothing moved from it to the local node", what, i, mean, t1)
				return
			}
		}
		if len(mine) == 0 {
			k.Count("passes_without_need", 1)
		} else {
			k.Count("passes_moving_data", 1)
		}
	}
}

func init() {
	reg(&Prop{ID: "C24", Level: "exploration", Min: 100,
		Assume: []string{"the fair fraction of the deficit is a third of deficit / number of addresses (integer arithmetic, as documented in the code)", "no other traffic during a pass"},
		Rule:   "event loops with only load balancing enabled on 1-5 nodes with random and boundary sizes in 1-3 namespaces; steal requests (source, limit, namespace) and sizes of every pass judged against the sizes before it; distinct by sizes",
		Run: func(r *Run) {
			r.Cases("balance", r.N(500, 20000), 4, balanceCase)
		}})
}
