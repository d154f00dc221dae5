package main

// C14: concurrent histories of node operations, checked for linearizability
// against "a namespace is a set of points, absent until created".

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	kmrpc "trypo/pkg/kmeans/rpc"
)

type linIn struct {
	kind string
	bits uint64 // points added / drained
	n    int
}

type linOut struct {
	absent bool // failed with the namespace error
	ok     bool
	set    uint64
	count  int
}

type linState struct {
	exists bool
	set    uint64
}

func linStep(s linState, in linIn, out linOut) (bool, linState) {
	minN := func(n int) int {
		if n < 0 {
			n = 0
		}
		if c := bits.OnesCount64(s.set); n > c {
			n = c
		}
		return n
	}
	switch in.kind {
	case "add":
		if !out.ok || out.absent {
			return false, s
		}
		return true, linState{true, s.set | in.bits}
	case "create":
		return true, linState{true, s.set}
	case "names":
		return out.ok == s.exists, s
	case "meta":
		if !out.ok {
			return !s.exists, s
		}
		return s.exists && out.count == bits.OnesCount64(s.set), s
	}
	if out.absent {
		return !s.exists, s
	}
	if !s.exists {
		return false, s
	}
	switch in.kind {
	case "maint":
		return true, s
	case "len":
		return out.count == bits.OnesCount64(s.set), s
	case "knn":
		return out.set&^s.set == 0 && bits.OnesCount64(out.set) == minN(in.n), s
	case "knnDrain", "drainU", "drainO":
		return out.set&^s.set == 0 && bits.OnesCount64(out.set) == minN(in.n), linState{true, s.set &^ out.set}
	case "nearC":
		return out.set&^s.set == 0, s
	case "nearCDrain":
		return out.set&^s.set == 0, linState{true, s.set &^ out.set}
	}
	panic("lin kind " + in.kind)
}

var linModel = porcupine.Model{
	Init: func() any { return linState{} },
	Step: func(st, in, out any) (bool, any) { return linStepAny(st, in, out) },
	DescribeOperation: func(in, out any) string {
		i, o := in.(linIn), out.(linOut)
		return fmt.Sprintf("%s n=%d bits=%x -> absent=%v ok=%v set=%x count=%d", i.kind, i.n, i.bits, o.absent, o.ok, o.set, o.count)
	},
}

func linStepAny(st, in, out any) (bool, any) {
	ok, s := linStep(st.(linState), in.(linIn), out.(linOut))
	return ok, s
}

// hist is the history of one namespace on one node.
type hist struct {
	mu  sync.Mutex
	ops []porcupine.Operation
}

func (h *hist) add(client int, in linIn, call int64, out linOut, ret int64) {
	h.mu.Lock()
	h.ops = append(h.ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: out, Return: ret})
	h.mu.Unlock()
}

func (h *hist) String() string {
	h.mu.Lock()
	defer h.mu.Unlock()
	o := append([]porcupine.Operation(nil), h.ops...)
	sort.Slice(o, func(i, j int) bool { return o[i].Call < o[j].Call })
	var b strings.Builder
	for _, x := range o {
		fmt.Fprintf(&b, "  [%8dus %8dus] c%d %s\n", x.Call/1000, x.Return/1000, x.ClientId, linModel.DescribeOperation(x.Input, x.Output))
	}
	return b.String()
}

func (h *hist) overlaps() int {
	n := 0
	for i := range h.ops {
		for j := 0; j < i; j++ {
			if h.ops[i].Call < h.ops[j].Return && h.ops[j].Call < h.ops[i].Return {
				n++
			}
		}
	}
	return n
}

var linBase = time.Now()

func nowNs() int64 { return int64(time.Since(linBase)) }

// linCase is the set-up of one history: one or two nodes, one namespace.
type linCase struct {
	k     *K
	ns    string
	reg   *Reg
	vg    *VG
	bit   map[uint64]uint64 // id -> bit
	bmu   sync.Mutex
	nodes []*Node
	h     []*hist
	tcp   bool
	slow  bool
	bad   atomic.Pointer[string]
}

func (lc *linCase) fail(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	lc.bad.CompareAndSwap(nil, &s)
}

func (lc *linCase) mask(dps []DP) uint64 {
	var m uint64
	lc.bmu.Lock()
	defer lc.bmu.Unlock()
	for _, dp := range dps {
		b, ok := lc.bit[idOf(dp)]
		if !ok {
			lc.fail("a result contains a point that was never inserted")
			continue
		}
		if m&b != 0 {
			lc.fail("a result contains %s twice", sid(idOf(dp)))
		}
		m |= b
		if e := lc.reg.same(dp); e != "" {
			lc.fail("a result contains an altered point: %s", e)
		}
	}
	return m
}

func (lc *linCase) one(id uint64) uint64 {
	lc.bmu.Lock()
	defer lc.bmu.Unlock()
	return lc.bit[id]
}

// absent tells a namespace error from success; other errors are unexpected.
func (lc *linCase) absent(err error) bool {
	if err == nil {
		return false
	}
	if !strings.Contains(err.Error(), "namespace not found") {
		lc.fail("unexpected error: %v", err)
	}
	return true
}

func sleepSome(r uint64, max time.Duration) {
	if r%3 == 0 {
		return
	}
	time.Sleep(time.Duration(r % uint64(max)))
}

// slowCfg wraps the search function so that operations holding a lock take long
// enough for others to queue up.
func slowCfg(cfg cmCfg, seed uint64) cmCfg {
	var ctr atomic.Uint64
	base, kbase := cfg.knn, cfg.kfn
	cfg.knn = func(t []float64, g func() ([]float64, bool), n int) []int {
		x := mix(seed, ctr.Add(1))
		r := base(t, g, n)
		if x%4 == 0 {
			time.Sleep(time.Duration(1000+x%1500) * time.Microsecond)
		}
		return r
	}
	cfg.kfn = func(t []float64, g func() ([]float64, bool), n int) []int {
		x := mix(seed, ctr.Add(1))
		r := kbase(t, g, n)
		if x%4 == 0 {
			time.Sleep(time.Duration(1000+x%1500) * time.Microsecond)
		}
		return r
	}
	return cfg
}

type linStep1 struct {
	kind string
	node int
	n    int
	dp   DP
	vec  []float64
	wait time.Duration
	via  bool // through the client over TCP
}

// newLin prepares nodes; prefill points are inserted sequentially first.
func newLin(k *K, nNodes int, slow bool) *linCase {
	lc := &linCase{k: k, ns: pickNS(k), reg: newReg(), vg: newVG(k.R, 1+k.R.IntN(3), famsPlain[k.R.IntN(3)]), bit: map[uint64]uint64{}, slow: slow}
	cfg := pickCfg(k)
	cfg.threshold = 2 + k.R.IntN(8)
	fseed := k.R.Uint64()
	if slow {
		cfg = slowCfg(cfg, k.R.Uint64())
	}
	var fctr atomic.Uint64
	for i := 0; i < nNodes; i++ {
		n := newNodeF(func(v []float64) *CM {
			x := mix(fseed, fctr.Add(1))
			sleepSome(x, 2*time.Millisecond)
			cm := cfg.newCM(v)
			sleepSome(x>>20, 2*time.Millisecond)
			return cm
		})
		lc.nodes = append(lc.nodes, n)
		lc.h = append(lc.h, &hist{})
	}
	return lc
}

func (lc *linCase) newDP() DP {
	if len(lc.bit) >= 60 {
		return DP{}
	}
	dp := lc.reg.New(lc.k.R, lc.vg.Vec(), "live")
	lc.bit[idOf(dp)] = 1 << uint(len(lc.bit))
	return dp
}

func (lc *linCase) close() {
	for _, n := range lc.nodes {
		n.Close()
	}
}

func (lc *linCase) do(client int, s linStep1) {
	if s.wait > 0 {
		time.Sleep(s.wait)
	}
	n := lc.nodes[s.node]
	var b Backend
	var errp func() error
	if s.via {
		c := &clientB{node: n, ns: lc.ns}
		b, errp = c, func() error { return c.err }
	} else {
		c := &serverB{s: n.Srv, ns: lc.ns}
		b, errp = c, func() error { return c.e }
	}
	in := linIn{kind: s.kind, n: s.n}
	var out linOut
	t0 := nowNs()
	var t1 int64
	switch s.kind {
	case "add":
		in.bits = lc.one(idOf(s.dp))
		out.ok = b.Add(cloneDP(s.dp))
		t1 = nowNs()
		if e := errp(); e != nil {
			lc.fail("insert failed with %v", e)
		}
	case "knn", "knnDrain":
		r := b.KNN(s.vec, s.n, s.kind == "knnDrain")
		t1 = nowNs()
		out.set = lc.mask(r)
	case "drainU":
		r := b.DrainU(s.n)
		t1 = nowNs()
		out.set = lc.mask(r)
	case "drainO":
		r := b.DrainO(s.n)
		t1 = nowNs()
		out.set = lc.mask(r)
	case "nearC", "nearCDrain":
		r, _ := b.NearestC(s.vec, s.n, s.kind == "nearCDrain")
		t1 = nowNs()
		out.set = lc.mask(centroidsDPs(r))
	case "len":
		out.count = b.Len()
		t1 = nowNs()
	case "names":
		var ns []string
		if s.via {
			var e error
			ns = kmrpc.KMeansClient(n.Addr, "", &e).Namespaces()
			if e != nil {
				lc.fail("Namespaces failed with %v", e)
			}
		} else {
			n.Srv.Namespaces(0, &ns)
		}
		t1 = nowNs()
		for _, x := range ns {
			out.ok = out.ok || x == lc.ns
		}
	case "meta":
		var m kmrpc.MetaResp
		if s.via {
			var e error
			m = kmrpc.KMeansClient(n.Addr, "", &e).Meta()
			if e != nil {
				lc.fail("Meta failed with %v", e)
			}
		} else {
			n.Srv.Meta(0, &m)
		}
		t1 = nowNs()
		out.count, out.ok = m.DPs[lc.ns], false
		_, out.ok = m.DPs[lc.ns]
	case "split":
		b.Split(-1, 1<<30)
	case "merge":
		b.Merge(-1, 4)
	case "expire":
		b.Expire()
	case "trim":
		b.MemTrim()
	case "moveV":
		b.MoveVector()
	case "distI":
		b.DistInternal(s.n)
	case "steal":
		lc.doSteal(client, s)
		return
	case "distF", "distA":
		lc.doDist(client, s)
		return
	}
	if t1 == 0 {
		t1 = nowNs()
		in.kind = "maint"
	}
	if s.kind != "add" && s.kind != "names" && s.kind != "meta" {
		out.absent = lc.absent(errp())
	}
	lc.h[s.node].add(client, in, t0, out, t1)
}

type stamped struct {
	ev         *Ev
	call, done int64
	caller     int
}

// traced calls between nodes, with the times at the receiving node.
var linTrace sync.Map // *Ev -> *stamped

// doSteal steals from the other node; the calls it makes there are found in the trace.
func (lc *linCase) doSteal(client int, s linStep1) {
	other := 1 - s.node
	t0 := nowNs()
	var r kmrpc.StealCentroidsResp
	args := kmrpc.StealCentroidArgs{FromAddr: lc.nodes[other].Addr, NameSpace: lc.ns, TransferDPLimit: s.n}
	var err error
	if s.via {
		r.TransferredN, r.OK = kmrpc.KMeansClient(lc.nodes[s.node].Addr, lc.ns, &err).StealCentroids(args.FromAddr, s.n)
	} else {
		err = lc.nodes[s.node].Srv.StealCentroid(args, &r)
	}
	t1 := nowNs()
	if err != nil {
		lc.fail("steal failed: %v", err)
	}
	lc.h[s.node].mu.Lock()
	lc.h[s.node].ops = append(lc.h[s.node].ops, porcupine.Operation{ClientId: client, Input: linIn{kind: "STEAL", n: s.n}, Call: t0, Output: linOut{ok: r.OK, count: r.TransferredN}, Return: t1})
	lc.h[s.node].mu.Unlock()
}

func (lc *linCase) doDist(client int, s linStep1) {
	t0 := nowNs()
	addrs := []string{lc.nodes[0].Addr}
	if len(lc.nodes) > 1 {
		addrs = []string{lc.nodes[1-s.node].Addr}
		if s.wait%2 == 0 {
			addrs = append(addrs, lc.nodes[s.node].Addr)
		}
	}
	var err error
	if s.via {
		cl := kmrpc.KMeansClient(lc.nodes[s.node].Addr, lc.ns, &err)
		if s.kind == "distF" {
			cl.DistributeDataPointsFast(addrs, s.n)
		} else {
			cl.DistributeDataPointsAccurate(addrs, s.n)
		}
	} else {
		var x int
		args := kmrpc.DistribDPArgs{NameSpace: lc.ns, N: s.n, AddrOptions: addrs}
		if s.kind == "distF" {
			err = lc.nodes[s.node].Srv.DistributeDataPointsFast(args, &x)
		} else {
			err = lc.nodes[s.node].Srv.DistributeDataPointsAccurate(args, &x)
		}
	}
	t1 := nowNs()
	if err != nil {
		lc.fail("distribute failed: %v", err)
	}
	lc.h[s.node].mu.Lock()
	lc.h[s.node].ops = append(lc.h[s.node].ops, porcupine.Operation{ClientId: client, Input: linIn{kind: "DIST", n: s.n}, Call: t0, Output: linOut{}, Return: t1})
	lc.h[s.node].mu.Unlock()
}

// check judges every node's history.
func (lc *linCase) check() {
	k := lc.k
	if p := lc.bad.Load(); p != nil {
		k.Fail("%s\n%s", *p, lc.dump())
	}
	for i, h := range lc.h {
		k.Count("ops", int64(len(h.ops)))
		k.Count("overlapping_pairs", int64(h.overlaps()))
		res := porcupine.CheckOperationsTimeout(linModel, h.ops, 20*time.Second)
		k.Beat()
		switch res {
		case porcupine.Illegal:
			k.Fail("the history of namespace %q on node %d has no sequential explanation:\n%s", lc.ns, i, h.String())
		case porcupine.Unknown:
			k.Count("inconclusive_histories", 1)
		default:
			k.Count("linearizable_histories", 1)
		}
	}
}

func (lc *linCase) dump() string {
	s := ""
	for i, h := range lc.h {
		s += fmt.Sprintf("node %d:\n%s", i, h.String())
	}
	return s
}

func (lc *linCase) sig() string {
	var b strings.Builder
	for _, h := range lc.h {
		o := append([]porcupine.Operation(nil), h.ops...)
		sort.Slice(o, func(i, j int) bool { return o[i].Return < o[j].Return })
		for _, x := range o {
			out := x.Output.(linOut)
			fmt.Fprintf(&b, "%d%s%d%v%d ", x.ClientId, x.Input.(linIn).kind, bits.OnesCount64(out.set), out.absent, out.count)
		}
		b.WriteByte('|')
	}
	return b.String()
}

// final reads every node's content and appends it to the history as a last read.
func (lc *linCase) final() {
	for i, n := range lc.nodes {
		t0 := nowNs()
		var set uint64
		var dps []DP
		ex := n.Srv.Table.Access(lc.ns, func(cm *CM) {
			for _, c := range cm.Centroids {
				dps = append(dps, c.DataPoints...)
			}
		})
		if ex {
			set = lc.mask(dps)
		}
		lc.h[i].add(99, linIn{kind: "knn", n: len(dps)}, t0, linOut{absent: !ex, set: set}, nowNs())
		if ex {
			lc.h[i].add(99, linIn{kind: "len"}, t0, linOut{count: len(dps)}, nowNs())
		}
	}
}

type wkind struct {
	kind string
	w    int
}

func pickKind(k *K, w []wkind) string {
	t := 0
	for _, x := range w {
		t += x.w
	}
	j := k.R.IntN(t)
	for _, x := range w {
		if j < x.w {
			return x.kind
		}
		j -= x.w
	}
	return ""
}

// plan draws the steps of one client.
func (lc *linCase) plan(n int, w []wkind) []linStep1 {
	k := lc.k
	var p []linStep1
	for i := 0; i < n; i++ {
		s := linStep1{kind: pickKind(k, w), node: k.R.IntN(len(lc.nodes)), n: 1 + k.R.IntN(4), vec: lc.vg.Vec(), via: lc.tcp && k.R.IntN(3) > 0}
		if k.R.IntN(3) == 0 {
			s.wait = time.Duration(k.R.IntN(1500)) * time.Microsecond
		}
		switch s.kind {
		case "add":
			s.dp = lc.newDP()
			if s.dp.Payload == nil {
				s.kind = "len"
			}
		case "steal":
			s.n = 1 + k.R.IntN(8)
		case "nearC", "nearCDrain":
			s.n = 1 + k.R.IntN(2)
		case "knn":
			s.n = 1 + k.R.IntN(20)
		}
		p = append(p, s)
	}
	return p
}

func (lc *linCase) prefill(node, n int) {
	for i := 0; i < n; i++ {
		dp := lc.newDP()
		t0 := nowNs()
		var ok bool
		if err := lc.nodes[node].Srv.AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: lc.ns, DP: cloneDP(dp)}, &ok); err != nil || !ok {
			lc.k.Fail("prefill insert refused (%v)", err)
		}
		lc.h[node].add(98, linIn{kind: "add", bits: lc.bit[idOf(dp)]}, t0, linOut{ok: ok}, nowNs())
	}
}

func (lc *linCase) run(plans [][]linStep1) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for c, p := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, s := range p {
				lc.do(c, s)
				lc.k.Beat()
			}
		}()
	}
	close(start)
	wg.Wait()
}

var linMix = []wkind{{"add", 30}, {"knn", 8}, {"knnDrain", 10}, {"drainU", 8}, {"drainO", 6}, {"nearC", 4}, {"nearCDrain", 4},
	{"len", 8}, {"names", 2}, {"meta", 4}, {"split", 3}, {"merge", 3}, {"expire", 2}, {"trim", 2}, {"moveV", 2}, {"distI", 4}}
var linFirst = []wkind{{"add", 60}, {"knn", 6}, {"len", 8}, {"names", 5}, {"meta", 5}, {"knnDrain", 6}, {"trim", 3}, {"merge", 2}, {"drainU", 3}}
var linDrain = []wkind{{"add", 20}, {"knnDrain", 25}, {"drainU", 25}, {"drainO", 12}, {"nearCDrain", 8}, {"len", 6}, {"split", 4}, {"merge", 4}, {"distI", 4}}

func linRun(part string, w []wkind, slow bool) func(*K) {
	return func(k *K) {
		lc := newLin(k, 1, slow)
		defer lc.close()
		lc.tcp = k.R.IntN(2) == 0
		pre := 0
		if part != "first" {
			pre = k.R.IntN(15)
		}
		lc.prefill(0, pre)
		nc := 3 + k.R.IntN(4)
		per := 3 + k.R.IntN(5)
		if part == "first" {
			per = 1 + k.R.IntN(4)
			nc = 2 + k.R.IntN(5)
		}
		var plans [][]linStep1
		for i := 0; i < nc; i++ {
			plans = append(plans, lc.plan(per, w))
		}
		if part == "first" { // creators race at once
			for i := range plans {
				plans[i][0].wait = 0
			}
		}
		lc.run(plans)
		lc.final()
		lc.check()
		k.Sig(lc.sig())
		k.Sample(part, 1, strings.Split(lc.h[0].String(), "\n"))
	}
}

// linPair: two nodes, with stealing and redistribution between them. The calls a
// steal or redistribution makes on the nodes are taken from the RPC trace and are
// steps of the receiving node's own history.
func linPair(k *K) {
	lc := newLin(k, 2, k.R.IntN(2) == 0)
	defer lc.close()
	lc.tcp = true
	dist := k.R.IntN(2) == 0 // both namespaces exist: redistribution is in the mix
	lc.prefill(0, 4+k.R.IntN(12))
	if dist {
		lc.prefill(1, 2+k.R.IntN(6))
	}
	type tev struct {
		node       int
		ev         *Ev
		call, done int64
	}
	var tmu sync.Mutex
	tm := map[*Ev]*tev{}
	for i, n := range lc.nodes {
		n.SetHook(func(ev *Ev) Act {
			tmu.Lock()
			tm[ev] = &tev{node: i, ev: ev, call: nowNs()}
			tmu.Unlock()
			return Act{}
		})
		n.SetOnDone(func(ev *Ev) {
			t := nowNs()
			tmu.Lock()
			tm[ev].done = t
			tmu.Unlock()
		})
	}
	w := []wkind{{"add", 25}, {"knn", 6}, {"knnDrain", 8}, {"drainU", 5}, {"len", 6}, {"meta", 4}, {"split", 3}, {"merge", 3}, {"steal", 14}}
	if dist {
		w = append(w, wkind{"distF", 7}, wkind{"distA", 7})
	}
	nc := 2 + k.R.IntN(3)
	var plans [][]linStep1
	for i := 0; i < nc; i++ {
		p := lc.plan(2+k.R.IntN(4), w)
		for j := range p {
			// the trace must only hold calls made between nodes
			p[j].via = false
		}
		plans = append(plans, p)
	}
	lc.run(plans)
	lc.final()

	// Rewrite the composite steps. With several composite steps in flight a traced
	// call cannot be attributed to one of them, and need not be: it is a step of its
	// own on the node it ran on; what it moved arrives at the other node between its
	// end and the end of the last composite step.
	var last int64
	comps := [2][]porcupine.Operation{}
	for i, h := range lc.h {
		var keep []porcupine.Operation
		for _, o := range h.ops {
			if kd := o.Input.(linIn).kind; kd == "STEAL" || kd == "DIST" {
				comps[i] = append(comps[i], o)
				if o.Return > last {
					last = o.Return
				}
				continue
			}
			keep = append(keep, o)
		}
		h.ops = keep
	}
	evs := make([]*tev, 0, len(tm))
	for _, t := range tm {
		evs = append(evs, t)
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].call < evs[j].call })
	addsBy := map[uint64][]*tev{} // id -> traced inserts
	client := 1000
	moved := 0
	for _, t := range evs {
		client++
		switch t.ev.Method {
		case "NearestCentroids":
			cs := replyCentroids(t.ev.Reply)
			set := lc.mask(centroidsDPs(cs))
			ab := t.ev.Err != ""
			lc.h[t.node].add(client, linIn{kind: "nearCDrain", n: 1}, t.call, linOut{absent: ab, set: set}, t.done)
			// they arrive on the other node before the steal that asked for them ends
			end := int64(0)
			for _, c := range comps[1-t.node] {
				if c.Input.(linIn).kind == "STEAL" && c.Call <= t.call && t.done <= c.Return && c.Return > end {
					end = c.Return
				}
			}
			if end == 0 {
				k.Fail("a centroid was drained from node %d outside of any steal", t.node)
			}
			for _, id := range dpIDs(centroidsDPs(cs)) {
				client++
				moved++
				lc.h[1-t.node].add(client, linIn{kind: "add", bits: lc.one(id)}, t.done, linOut{ok: true}, end)
			}
			if !ab {
				client++
				lc.h[1-t.node].add(client, linIn{kind: "create"}, t.call, linOut{ok: true}, end)
			}
		case "Vec":
			// a steal into an unused namespace creates it
			if t.ev.Err == "" && t.ev.Reply != nil {
				for _, c := range comps[1-t.node] {
					if c.Input.(linIn).kind == "STEAL" && c.Call <= t.call && t.done <= c.Return {
						client++
						lc.h[1-t.node].add(client, linIn{kind: "create"}, t.call, linOut{ok: true}, c.Return)
						break
					}
				}
			}
		case "AddDataPoint":
			a, _ := asAdd(t.ev)
			okp, _ := t.ev.Reply.(*bool)
			if okp == nil || !*okp {
				k.Fail("node %d refused a redistributed point", t.node)
			}
			id := idOf(a.DP)
			addsBy[id] = append(addsBy[id], t)
			lc.h[t.node].add(client, linIn{kind: "add", bits: lc.one(id)}, t.call, linOut{ok: true}, t.done)
			moved++
		}
	}
	// the drains of the redistributions: every traced insert of a point means it was
	// drained before, by a redistribution running at the time
	for id, ts := range addsBy {
		for _, t := range ts {
			var src = -1
			var call int64
			cand := 0
			for i := range comps {
				for _, c := range comps[i] {
					if c.Input.(linIn).kind == "DIST" && c.Call <= t.call && t.done <= c.Return {
						cand++
						src, call = i, c.Call
					}
				}
			}
			if cand == 0 {
				k.Fail("node %d received %s outside of any redistribution", t.node, sid(id))
			}
			if cand > 1 {
				// several redistributions overlap: attribution is ambiguous; skip this history
				k.Count("ambiguous_histories", 1)
				return
			}
			client++
			lc.h[src].add(client, linIn{kind: "nearCDrain", n: 1}, call, linOut{set: lc.one(id)}, t.call)
		}
	}
	k.Count("points_moved_between_nodes", int64(moved))
	lc.check()
	k.Sig(lc.sig())
	k.Sample("pair", 1, strings.Split(lc.dump(), "\n"))
}

func replyCentroids(x any) []*Centroid {
	switch r := x.(type) {
	case *[]*Centroid:
		return *r
	case []*Centroid:
		return r
	}
	return nil
}

func dpIDs(dps []DP) (r []uint64) {
	for _, d := range dps {
		r = append(r, idOf(d))
	}
	return
}

func init() {
	reg(&Prop{ID: "C14", Level: "exploration", Min: 200,
		Rule: "short histories of 2-6 concurrent clients on one namespace (direct handler calls and RPC over TCP), with delays injected in the namespace factory and the search functions; checked with porcupine against a set model; distinct by (order of completion, client, operation, result)",
		Run: func(r *Run) {
			r.Cases("first", r.N(900, 20000), 24, linRun("first", linFirst, false))
			r.Cases("fast", r.N(1500, 40000), 8, linRun("fast", linMix, false))
			r.Cases("slow", r.N(700, 15000), 32, linRun("slow", linMix, true))
			r.Cases("drains", r.N(700, 15000), 32, linRun("drains", linDrain, true))
			r.Cases("pair", r.N(500, 10000), 24, linPair)
		}})
}
