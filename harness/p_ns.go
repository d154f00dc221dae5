package main

// C15: namespaces are isolated from each other.

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

var nsNames = []string{"", "a", "aa", "aaa", "a\x00", "a\x00b", "A", "ä", "a b", "%s%d", "a.b", "a/b", "日本語", "\xff\xfe", "0", " ", strings.Repeat("a", 4000), strings.Repeat("a", 4001)}

// similarNames: names that a careless comparison, normalisation, truncation or hash
// would take for the same one.
func similarNames(r *rand.Rand) []string {
	switch r.IntN(8) {
	case 0: // equal CRC-32, 32 bit FNV-1 or FNV-1a, djb2 or other polynomial hashes
		return [][]string{{"plumless", "buckeroo"}, {"costarring", "liquid"}, {"declinate", "macallums"}, {"altarage", "zinke"}, {"creamwove", "quists"}, {"hetairas", "mentioner"}, {"Aa", "BB"}, {"AaAa", "BBBB", "AaBB"}}[r.IntN(8)]
	case 1:
		return []string{"1", "01", "1.0", "+1", "1 ", "\"1\""}
	case 2: // composed, decomposed, and other letters that look or fold the same
		return []string{"\u00e9", "e\u0301", "\u00c9", "K", "\u212a", "k", "\u017f", "s"}
	}
	// one name of any length and what it becomes when cut, padded or folded
	n := []int{1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 1024}[r.IntN(17)]
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcXYZ019_-/."[r.IntN(13)]
	}
	x := string(b)
	all := []string{x, x + "b", x + "c", x + x, x + " ", " " + x, x + "\x00", x + "\n", x + "/", strings.ToUpper(x) + "u", strings.ToLower(x) + "u", x[:n-1], x[1:], x + "%20", "/" + x}
	seen := map[string]bool{}
	var out []string
	for _, i := range r.Perm(len(all)) {
		if !seen[all[i]] {
			seen[all[i]] = true
			out = append(out, all[i])
		}
	}
	if out = out[:min(6, len(out))]; !slices.Contains(out, x) {
		out[0] = x
	}
	return out
}

// nsState is a comparable rendering of everything a node holds in a namespace.
func nsState(n *Node, ns string) string {
	var b strings.Builder
	ok := n.Srv.Table.Access(ns, func(cm *CM) {
		fmt.Fprintf(&b, "%x ", cm.Vec())
		for _, c := range cm.Centroids {
			fmt.Fprintf(&b, "[%x:", c.Vec())
			for _, dp := range c.DataPoints {
				fmt.Fprintf(&b, " %d/%d/%v", idOf(dp), len(dp.Payload), dp.ExpireEnabled)
			}
			b.WriteString("]")
		}
	})
	if !ok {
		return "absent"
	}
	return b.String()
}

// nsCase: several namespaces on several nodes; one operation on one of them at a
// time; nothing in the others may change, and nothing of them may be returned.
func nsCase(k *K) {
	cfg := pickCfg(k)
	nn := 1 + k.R.IntN(3)
	var nodes []*Node
	for i := 0; i < nn; i++ {
		nodes = append(nodes, newNode(cfg))
	}
	defer func() {
		for _, n := range nodes {
			n.Close()
		}
	}()
	names := append([]string(nil), nsNames...)
	k.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:2+k.R.IntN(5)]
	if k.R.IntN(2) == 0 {
		names = similarNames(k.R)
		k.Count("similar_names", 1)
	}
	cs := make([]*Cluster, len(names))
	same := k.R.IntN(2) == 0 // same dimension and vectors in all namespaces
	vg0 := newVG(k.R, 0, "")
	for i, ns := range names {
		vg := vg0
		if !same {
			vg = newVG(k.R, 0, "")
		}
		c := &Cluster{K: k, Cfg: cfg, NS: ns, Reg: newReg(), VG: vg, Nodes: nodes}
		for _, n := range nodes {
			st := &Store{K: k, B: &clientB{node: n, ns: ns}, Cfg: cfg, Reg: c.Reg, VG: vg, Live: "live", Scale: vg.Scale}
			c.St = append(c.St, st)
			if k.R.IntN(4) > 0 {
				st.populate(randSizes(k, 4, 10), false)
			}
		}
		cs[i] = c
	}
	// now and then hundreds of further namespaces, of one point each
	var crowd []string
	crowdState := map[string]string{}
	if k.Idx%30 == 7 {
		reg, vg := newReg(), newVG(k.R, 2, "gauss")
		n := 40 + k.R.IntN(320)
		if k.Idx == 7 {
			n += 2000
		}
		for i := 0; i < n; i++ {
			ns := fmt.Sprintf("crowd-%d", i)
			b := &clientB{node: nodes[0], ns: ns}
			if !b.Add(reg.New(k.R, vg.Vec(), "plain")) {
				k.Fail("insert of an unexpired point into namespace %q (number %d on its node) refused", ns, i+len(names))
			}
			crowd = append(crowd, ns)
			crowdState[ns] = nsState(nodes[0], ns)
		}
		k.Count("crowd_namespaces", int64(len(crowd)))
	}
	sig := fmt.Sprint(len(names), nn, same)
	for op := 0; op < 8+k.R.IntN(8); op++ {
		x := k.R.IntN(len(names))
		c := cs[x]
		before := map[[2]int]string{}
		for i := range names {
			for j, n := range nodes {
				if i != x {
					before[[2]int{i, j}] = nsState(n, names[i])
				}
			}
		}
		had := snapIDs(c)
		j := k.R.IntN(nn)
		var out []DP
		what := ""
		switch k.R.IntN(9) {
		case 0:
			kind := kinds3[k.R.IntN(3)]
			what = "put " + kind
			dp := c.St[0].newDP("live")
			had[idOf(dp)] = 1
			c.put(kind, c.addrs(), dp)
		case 1:
			kind := kinds3[k.R.IntN(3)]
			d := k.R.IntN(2) == 0
			what = fmt.Sprintf("get %s drain=%v", kind, d)
			out = c.get(kind, c.addrs(), c.VG.Vec(), 1+k.R.IntN(40), d)
		case 2:
			kind := []string{"fast", "accurate", "internal"}[k.R.IntN(3)]
			what = "distribute " + kind
			c.distribute(kind, j, c.strs(), 1+k.R.IntN(20))
		case 3:
			what = "steal"
			c.steal(j, nodes[k.R.IntN(nn)].Addr, 1+k.R.IntN(10))
		default:
			o := c.St[j].genOp(allOps)
			if o.Kind == "add" {
				had[idOf(o.DP)] = 1
			}
			what = o.Kind
			c.St[j].exec(o)
			out = append(o.Out, centroidsDPs(o.OutC)...)
			if o.Kind == "len" && snapB(c.St[j].B).Exists && o.Len != snapB(c.St[j].B).total() {
				k.Fail("namespace %.20q: count %d, holds %d", names[x], o.Len, snapB(c.St[j].B).total())
			}
		}
		for _, dp := range out {
			if had[idOf(dp)] == 0 {
				k.Fail("%s on namespace %.20q returned a point that was not in it", what, names[x])
			}
		}
		for key, s := range before {
			if a := nsState(nodes[key[1]], names[key[0]]); a != s {
				k.Op("before: %.300s", s)
				k.Op("after: %.300s", a)
				k.Fail("%s on namespace %.20q changed namespace %.20q of node %d", what, names[x], names[key[0]], key[1])
			}
		}
		for id := range snapIDs(c) {
			if had[id] == 0 {
				k.Fail("%s on namespace %.20q: it now holds a point of another namespace", what, names[x])
			}
		}
		sig += what
		k.Count("operations", 1)
	}
	for _, ns := range crowd {
		if a := nsState(nodes[0], ns); a != crowdState[ns] {
			k.Fail("namespace %q changed although no operation named it", ns)
		}
	}
	// listing
	for j, n := range nodes {
		var want []string
		if j == 0 {
			want = append(want, crowd...)
		}
		for i, ns := range names {
			if nsState(n, ns) != "absent" {
				want = append(want, ns)
			}
			_ = i
		}
		got := kmrpc.KMeansClient(n.Addr, "", nil).Namespaces()
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "|") != strings.Join(got, "|") {
			k.Fail("node %d lists namespaces %.80q, holds %.80q", j, got, want)
		}
	}
	k.Sig(sig)
	k.Sample("namespaces", 1, map[string]any{"names": fmt.Sprintf("%.40q", names), "ops": tail(k.Ops(), 8)})
}

func snapIDs(c *Cluster) map[uint64]int { return c.snap().ids() }

// loopNSCase: event loops running over several namespaces keep every point in its
// namespace.
func loopNSCase(k *K) {
	cfg := newCfg(mCos, 3+k.R.IntN(10), 0)
	nn := 2 + k.R.IntN(2)
	names := append([]string(nil), nsNames...)
	k.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:2+k.R.IntN(3)]
	var nodes []*Node
	var addrs []Addr
	for i := 0; i < nn; i++ {
		nodes = append(nodes, newNode(cfg))
		addrs = append(addrs, nodes[i].A())
	}
	defer func() {
		for _, n := range nodes {
			n.Close()
		}
	}()
	vg := newVG(k.R, 3, "gauss")
	home := map[uint64]string{}
	for _, ns := range names {
		reg := newReg()
		for i, n := range nodes {
			st := &Store{K: k, B: &clientB{node: n, ns: ns}, Cfg: cfg, Reg: reg, VG: vg, Live: "plain"}
			if i == 0 || k.R.IntN(2) == 0 {
				st.populate([]int{10 + k.R.IntN(30), 10, k.R.IntN(10)}, false)
			}
		}
		for id := range reg.dps {
			home[id] = ns
		}
	}
	lg := &memLogger{}
	ls := newLoopSet(k)
	for _, a := range addrs {
		c := busyLoop(a, addrs, lg, k.R)
		c.TimeoutLoop, c.TimeoutStep = 0, 0
		ls.start(c)
	}
	deadline := time.Now().Add(1500 * time.Millisecond)
	for time.Now().Before(deadline) {
		if t, _ := lg.counts(); t > 400 {
			break
		}
		time.Sleep(5 * time.Millisecond)
		k.Beat()
	}
	ls.stop()
	seen := map[uint64]int{}
	moved := int64(0)
	for _, n := range nodes {
		for _, ns := range n.Srv.Table.Namespaces() {
			n.Srv.Table.Access(ns, func(cm *CM) {
				for _, c := range cm.Centroids {
					for _, dp := range c.DataPoints {
						id := idOf(dp)
						seen[id]++
						if home[id] != ns || home[id] == "" && ns != "" {
							k.Report("a point of namespace %.20q is in namespace %.20q after the event loops ran", home[id], ns)
						}
					}
				}
			})
		}
		moved += n.calls.Load()
	}
	for id := range home {
		if seen[id] != 1 {
			k.Fail("a point of namespace %.20q is stored %d times after the event loops ran", home[id], seen[id])
		}
	}
	t, _ := lg.counts()
	k.Count("eventloop_tasks", int64(t))
	k.Count("rpc_calls", moved)
	k.Sig(fmt.Sprint("loop", len(names), nn, k.Idx))
}

// stuckCase: one namespace is stuck inside an operation; every operation on others
// must complete.
func stuckCase(k *K) {
	base := newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], 5+k.R.IntN(20), 0)
	block := make(chan struct{})
	var armed atomic.Bool
	var inside atomic.Int64
	var relOnce sync.Once
	release := func() { relOnce.Do(func() { close(block) }) }
	defer release()
	hold := func(f searchFn) searchFn {
		return func(t []float64, vs func() ([]float64, bool), n int) []int {
			if armed.Load() {
				inside.Add(1)
				<-block
			}
			return f(t, vs, n)
		}
	}
	slow := base
	slow.knn, slow.kfn = hold(base.knn), hold(base.kfn)
	// namespaces whose vectors have dimension 7 get the search functions that block
	factory := func(v []float64) *CM {
		if len(v) == 7 {
			return slow.newCM(v)
		}
		return base.newCM(v)
	}
	n0, n1 := newNodeF(factory), newNodeF(factory)
	defer n0.Close()
	defer n1.Close()
	stuckNS := nsNames[k.R.IntN(len(nsNames))]
	okNS := nsNames[k.R.IntN(len(nsNames))]
	for okNS == stuckNS {
		okNS = nsNames[k.R.IntN(len(nsNames))]
	}
	reg := newReg()
	vg7, vg := newVG(k.R, 7, "gauss"), newVG(k.R, 3, "gauss")
	for _, n := range []*Node{n0, n1} {
		for i := 0; i < 12; i++ {
			if !(&clientB{node: n, ns: stuckNS}).Add(reg.New(k.R, vg7.Vec(), "plain")) || !(&clientB{node: n, ns: okNS}).Add(reg.New(k.R, vg.Vec(), "plain")) {
				k.Fail("insert of an unexpired point refused")
			}
		}
	}
	armed.Store(true)
	var err error
	v7 := vg7.Vec()
	cl := func(n *Node, ns string) func() { return nil }
	_ = cl
	stickers := []struct {
		name string
		f    func()
	}{
		{"query", func() { kmrpc.KMeansClient(n0.Addr, stuckNS, nil).KNNLookup(v7, 2, false) }},
		{"draining query", func() { kmrpc.KMeansClient(n0.Addr, stuckNS, nil).KNNLookup(v7, 2, true) }},
		{"insert", func() {
			kmrpc.KMeansClient(n0.Addr, stuckNS, nil).AddDataPoint(DP{Vec: v7, Payload: []byte("12345678")})
		}},
		{"drain", func() { kmrpc.KMeansClient(n0.Addr, stuckNS, nil).DrainOrdered(3) }},
		{"internal redistribution", func() { kmrpc.KMeansClient(n0.Addr, stuckNS, nil).DistributeDataPointsInternal(3) }},
		{"fast redistribution", func() {
			kmrpc.KMeansClient(n0.Addr, stuckNS, nil).DistributeDataPointsFast([]string{n0.Addr, n1.Addr}, 3)
		}},
		{"accurate redistribution", func() {
			kmrpc.KMeansClient(n0.Addr, stuckNS, nil).DistributeDataPointsAccurate([]string{n1.Addr}, 3)
		}},
		{"merge", func() { kmrpc.KMeansClient(n0.Addr, stuckNS, nil).MergeCentroids(-1, 1000) }},
		{"steal from a stuck node", func() { kmrpc.KMeansClient(n1.Addr, stuckNS, nil).StealCentroids(n0.Addr, 3) }},
		{"nearest centroids", func() { kmrpc.KMeansClient(n0.Addr, stuckNS, nil).NearestCentroids(v7, 1, true) }},
	}
	s := stickers[k.R.IntN(len(stickers))]
	extra := stickers[k.R.IntN(len(stickers))]
	var wg sync.WaitGroup
	for _, x := range []func(){s.f, extra.f} {
		wg.Add(1)
		go func() { defer wg.Done(); x() }()
	}
	for i := 0; inside.Load() == 0; i++ {
		if i > 2000 {
			k.Count("never_stuck", 1)
			release()
			wg.Wait()
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	// a report of the whole node has to wait for the stuck namespace; nobody else has to
	for i := k.R.IntN(3); i > 0; i-- {
		wg.Add(1)
		go func() { defer wg.Done(); kmrpc.KMeansClient(n0.Addr, "", nil).Meta() }()
		k.Count("reports_waiting_for_a_stuck_namespace", 1)
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(time.Duration(k.R.IntN(3)) * time.Millisecond)
	k.Op("namespace %.20q is stuck in: %s, %s", stuckNS, s.name, extra.name)
	v := vg.Vec()
	add := func(ns string) func() {
		dp := reg.New(k.R, vg.Vec(), "plain")
		return func() {
			if !kmrpc.KMeansClient(n0.Addr, ns, &err).AddDataPoint(dp) || err != nil {
				k.Report("insert into namespace %.20q failed while another namespace was stuck (%v)", ns, err)
			}
		}
	}
	c := &Cluster{K: k, Cfg: base, NS: okNS, Reg: reg, VG: vg, Nodes: []*Node{n0, n1}}
	ops := []struct {
		name string
		f    func()
	}{
		{"insert", add(okNS)},
		{"insert creating a namespace", add("created")},
		{"query", func() {
			have := (&clientB{node: n0, ns: okNS}).Len()
			if got := len(kmrpc.KMeansClient(n0.Addr, okNS, &err).KNNLookup(v, 2, false)); got != min(2, have) {
				k.Report("query for 2 on namespace %.20q holding %d returned %d while another was stuck (%v)", okNS, have, got, err)
			}
		}},
		{"draining query", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).KNNLookup(v, 2, true) }},
		{"drain unordered", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).DrainUnordered(1) }},
		{"drain ordered", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).DrainOrdered(1) }},
		{"expire", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).Expire() }},
		{"count", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).LenDP() }},
		{"trim", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).MemTrim() }},
		{"vector", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).Vec() }},
		{"move vector", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).MoveVector() }},
		{"split", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).SplitCentroids(2, 100) }},
		{"merge", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).MergeCentroids(-1, 3) }},
		{"nearest centroids", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).NearestCentroids(v, 2, false) }},
		{"nearest centroid vector", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).NearestCentroidVec(v) }},
		{"internal redistribution", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).DistributeDataPointsInternal(3) }},
		{"fast redistribution", func() {
			kmrpc.KMeansClient(n0.Addr, okNS, &err).DistributeDataPointsFast([]string{n1.Addr, n0.Addr}, 3)
		}},
		{"accurate redistribution", func() {
			kmrpc.KMeansClient(n0.Addr, okNS, &err).DistributeDataPointsAccurate([]string{n1.Addr, n0.Addr}, 3)
		}},
		{"steal", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).StealCentroids(n1.Addr, 3) }},
		{"be stolen from", func() { kmrpc.KMeansClient(n1.Addr, okNS, &err).StealCentroids(n0.Addr, 3) }},
		{"list namespaces", func() { kmrpc.KMeansClient(n0.Addr, okNS, &err).Namespaces() }},
		{"operation on an unknown namespace", func() { var e error; kmrpc.KMeansClient(n0.Addr, "unknown", &e).LenDP() }},
		{"put fast", func() { c.putQuiet("fast", c.addrs(), DP{Vec: v, Payload: []byte("12345678")}) }},
		{"put accurate", func() { c.putQuiet("accurate", c.addrs(), DP{Vec: v, Payload: []byte("12345678")}) }},
		{"get accurate", func() { c.getQuiet("accurate", c.addrs(), v, 3, false) }},
	}
	k.R.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, o := range ops {
		done := make(chan struct{})
		err = nil
		go func() { defer close(done); o.f() }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			k.Fail("%q on namespace %.20q did not complete in 20 s while namespace %.20q was stuck in: %s / %s", o.name, okNS, stuckNS, s.name, extra.name)
		}
		if err != nil {
			k.Fail("%q on namespace %.20q failed while another was stuck: %v", o.name, okNS, err)
		}
		k.Op("%s completed", o.name)
		k.Count("operations_beside_a_stuck_namespace", 1)
		k.Sig(fmt.Sprint("stuck", s.name, extra.name, o.name))
	}
	release()
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(60 * time.Second):
		k.Fail("the stuck operations (%s, %s) did not end 60 s after being released", s.name, extra.name)
	}
}

// hungRemoteCase: a redistribution of one namespace waits for a remote that never
// answers; operations on other namespaces of the node complete.
func hungRemoteCase(k *K) {
	cfg := pickCfg(k)
	n0, n1 := newNode(cfg), newNode(cfg)
	defer n0.Close()
	defer n1.Close()
	reg := newReg()
	vg := newVG(k.R, 3, "gauss")
	for _, ns := range []string{"x", "y"} {
		for _, n := range []*Node{n0, n1} {
			for i := 0; i < 5; i++ {
				(&clientB{node: n, ns: ns}).Add(reg.New(k.R, vg.Vec(), "plain"))
			}
		}
	}
	meth := []string{"Vec", "AddDataPoint", "NearestCentroidVec", "NearestCentroids"}[k.R.IntN(4)]
	rel := make(chan struct{})
	var hung atomic.Bool
	n1.SetHook(func(ev *Ev) Act {
		if ev.Method == meth {
			hung.Store(true)
			<-rel
		}
		return Act{}
	})
	done := make(chan struct{})
	go func() {
		defer close(done)
		cl := kmrpc.KMeansClient(n0.Addr, "x", nil)
		switch meth {
		case "Vec", "AddDataPoint":
			cl.DistributeDataPointsFast([]string{n1.Addr}, 3)
		case "NearestCentroidVec":
			cl.DistributeDataPointsAccurate([]string{n1.Addr}, 3)
		default:
			cl.StealCentroids(n1.Addr, 4)
		}
	}()
	for i := 0; !hung.Load(); i++ {
		if i > 2000 {
			close(rel)
			k.Count("never_hung", 1)
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	fin := make(chan string, 1)
	go func() {
		var err error
		cl := kmrpc.KMeansClient(n0.Addr, "y", &err)
		ok := cl.AddDataPoint(reg.New(k.R, vg.Vec(), "plain"))
		out := cl.KNNLookup(vg.Vec(), 3, false)
		cl.SplitCentroids(1, 100)
		cl.DrainOrdered(1)
		cl.MemTrim()
		cl.Namespaces()
		if !ok || len(out) != 3 || err != nil {
			fin <- fmt.Sprintf("insert %v, query %d of 3, error %v", ok, len(out), err)
			return
		}
		fin <- ""
	}()
	select {
	case e := <-fin:
		if e != "" {
			close(rel)
			k.Fail("operations on another namespace failed while a redistribution waited for a remote: %s", e)
		}
	case <-time.After(20 * time.Second):
		k.Fail("operations on another namespace did not complete in 20 s while a redistribution waited for %s of a remote", meth)
	}
	close(rel)
	<-done
	k.Sig("hung " + meth + fmt.Sprint(k.Idx%30))
	k.Count("hung_remotes", 1)
}

var _ = eventloop.EventLoopConfig{}

func init() {
	reg(&Prop{ID: "C15", Level: "exploration", Min: 150,
		Rule: "operations on one of several namespaces (names that are empty, long, non-ASCII, prefixes of each other) with full state of all others compared before and after, on 1-3 nodes; event loops over several namespaces; every operation beside a namespace stuck in its search function or in a remote call; distinct by operation sequence / (stuck operation, other operation)",
		Run: func(r *Run) {
			r.Cases("ns", r.N(700, 15000), 8, nsCase)
			r.Cases("stuck", r.N(80, 1500), 16, stuckCase)
			r.Cases("hung", r.N(60, 600), 16, hungRemoteCase)
			r.Cases("loops", r.N(24, 300), 2, loopNSCase)
		}})
}
