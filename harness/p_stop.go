package main

// C29: stopping a node, and what calls leave behind.

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/rpc"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/dps"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// labelled counts all goroutines carrying the label of the set.
func (ls *loopSet) labelled() (int, string) {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	n := 0
	var txt []string
	for _, blk := range strings.Split(b.String(), "\n\n") {
		if !strings.Contains(blk, "\""+ls.label+"\"") {
			continue
		}
		c := 1
		fmt.Sscanf(strings.TrimSpace(blk[strings.LastIndex(blk[:strings.Index(blk, "@")+1], "\n")+1:]), "%d @", &c)
		n += c
		txt = append(txt, blk)
	}
	return n, trimS(strings.Join(txt, "\n\n"), 1500)
}

func trimS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// settle waits until exactly want goroutines of the set are left.
func (ls *loopSet) settle(want int, what string) {
	t0 := time.Now()
	for d := time.Millisecond; ; d = min(2*d, 50*time.Millisecond) {
		n, txt := ls.labelled()
		if n == want {
			return
		}
		if time.Since(t0) > 12*time.Second {
			ls.k.Fail("%s: %d goroutines are left 12 s later, %d expected: %s", what, n, want, txt)
		}
		time.Sleep(d)
	}
}

func countFDs() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(d)
}

// sn is a node started with the real StartListen.
type sn struct {
	k    *K
	ls   *loopSet
	addr string
	srv  *KMServer
	stop func()
}

func newSN(k *K, cfg cmCfg) *sn {
	addr := "127.0.0.1:" + freePort()
	s := &sn{k: k, ls: newLoopSet(k), addr: addr, srv: kmrpc.NewKMeansServer(addr, cfg.newCM)}
	return s
}

func (s *sn) start(what string) {
	var err error
	s.ls.do(func() { s.stop, err = kmrpc.StartListen(s.srv) })
	if err != nil {
		s.k.Fail("%s: listening on %s failed: %v", what, s.addr, err)
	}
	if s.stop == nil {
		s.k.Fail("%s: no stop function", what)
	}
}

func (s *sn) ids(nss ...string) map[uint64]int {
	m := map[uint64]int{}
	for _, ns := range nss {
		sp := snapB(&serverB{s: s.srv, ns: ns})
		for id, x := range sp.ids() {
			m[id] += x
		}
	}
	return m
}

type openConn struct {
	kind string
	c    net.Conn
	rc   *rpc.Client
	call *rpc.Call
}

func nodeStopCase(k *K) {
	cfg := pickCfg(k)
	s := newSN(k, cfg)
	reg := newReg()
	vg := newVG(k.R, 2, "gauss")
	bystander := newSN(k, cfg)
	bystander.start("a second node")
	defer bystander.stop()
	var bc *rpc.Client
	if c, err := net.Dial("tcp", bystander.addr); err == nil {
		bc = rpc.NewClient(c)
		defer bc.Close()
	}
	var rmu sync.Mutex
	newDP := func() DP { rmu.Lock(); defer rmu.Unlock(); return reg.New(k.R, vg.Vec(), "plain") }
	s.start("first start")
	addOK := func(addr, what string) uint64 {
		dp := newDP()
		var err error
		if !kmrpc.KMeansClient(addr, "ns", &err).AddDataPoint(dp) || err != nil {
			k.Fail("%s: insert into a running node refused (%v)", what, err)
		}
		return idOf(dp)
	}
	stored := map[uint64]bool{}
	rounds := 1 + k.R.IntN(4)
	shape := ""
	for round := 0; round < rounds; round++ {
		what := fmt.Sprintf("round %d", round)
		stored[addOK(s.addr, what)] = true
		var old []*openConn
		dial := func() net.Conn {
			c, err := net.Dial("tcp", s.addr)
			if err != nil {
				k.Fail("%s: cannot connect to the running node: %v", what, err)
			}
			return c
		}
		// a call that stays in execution until released
		release := make(chan struct{})
		var held sync.WaitGroup
		if k.R.IntN(2) == 0 {
			in := make(chan struct{})
			held.Add(1)
			go func() {
				defer held.Done()
				s.srv.Table.Access("ns", func(*CM) { close(in); <-release })
			}()
			<-in
			for i := k.R.IntN(3); i >= 0; i-- {
				o := &openConn{kind: "in flight", c: dial()}
				o.rc = rpc.NewClient(o.c)
				var n int
				o.call = o.rc.Go("KMeansServer.LenDP", "ns", &n, make(chan *rpc.Call, 1))
				old = append(old, o)
			}
		}
		for i := k.R.IntN(4); i > 0; i-- {
			old = append(old, &openConn{kind: "idle", c: dial()})
		}
		for i := k.R.IntN(4); i > 0; i-- {
			o := &openConn{kind: "used", c: dial()}
			o.rc = rpc.NewClient(o.c)
			var r []string
			if err := o.rc.Call("KMeansServer.Namespaces", 0, &r); err != nil {
				k.Fail("%s: call failed on a running node: %v", what, err)
			}
			old = append(old, o)
		}
		for i := k.R.IntN(3); i > 0; i-- {
			o := &openConn{kind: "half a request", c: dial()}
			o.c.Write([]byte{0x20, 0xff, 0x81}[:1+k.R.IntN(3)])
			old = append(old, o)
		}
		for i := k.R.IntN(3); i > 0; i-- {
			c := dial() // opened and closed by the client
			c.Close()
		}
		// traffic while it is stopped
		var stopped atomic.Bool
		quit := make(chan struct{})
		var bg sync.WaitGroup
		var late []uint64
		var lateMu sync.Mutex
		load := k.R.IntN(4)
		for i := 0; i < load; i++ {
			bg.Add(1)
			go func() {
				defer bg.Done()
				for {
					select {
					case <-quit:
						return
					default:
					}
					dp := newDP()
					after := stopped.Load()
					var err error
					ok := kmrpc.KMeansClient(s.addr, "bg", &err).AddDataPoint(dp)
					if after {
						lateMu.Lock()
						late = append(late, idOf(dp))
						lateMu.Unlock()
						if ok || err == nil {
							k.Report("%s: an insert started after the node was stopped succeeded (%v, error %v)", what, ok, err)
						}
						k.Count("calls_after_stop", 1)
					}
				}
			}()
		}
		if load > 0 {
			time.Sleep(time.Duration(k.R.IntN(3000)) * time.Microsecond)
		}
		kinds := map[string]int{}
		for _, o := range old {
			kinds[o.kind]++
		}
		k.Op("%s: stop with connections %v and %d background callers", what, kinds, load)
		shape += fmt.Sprint(kinds, load, ";")
		s.stop()
		stopped.Store(true)
		// nothing listens any more
		for i := 0; i < 3; i++ {
			if c, err := net.DialTimeout("tcp", s.addr, 2*time.Second); err == nil {
				c.Close()
				k.Fail("%s: the stopped node accepts a connection", what)
			}
		}
		twice := k.R.IntN(3) == 0
		if twice && k.R.IntN(2) == 0 {
			s.stop()
		}
		firstStop := s.stop
		// restart at once, connections of before still there
		again := k.R.IntN(3) > 0
		if load > 0 {
			time.Sleep(time.Duration(k.R.IntN(2000)) * time.Microsecond)
			close(quit)
			bg.Wait()
		} else {
			close(quit)
		}
		if again {
			s.start(what + ": listening again at once on the address of a stopped node")
			if twice {
				firstStop()
				if n, err := addNs(s.addr, "after", newDP()); !n {
					k.Fail("%s: stopping the stopped node again stopped its successor (%v)", what, err)
				}
			}
			k.Count("restarts_at_once", 1)
		}
		// connections of before are not served
		pre := map[uint64]bool{}
		for _, o := range old {
			if o.call != nil {
				select {
				case c := <-o.call.Done:
					if c.Error == nil {
						k.Fail("%s: a call in flight when the node was stopped was answered afterwards", what)
					}
				case <-time.After(10 * time.Second):
					k.Fail("%s: a call in flight when the node was stopped is still not answered 10 s later", what)
				}
			} else if o.rc != nil {
				dp := newDP()
				pre[idOf(dp)] = true
				var ok bool
				call := o.rc.Go("KMeansServer.AddDataPoint", kmrpc.AddDataPointArgs{NameSpace: "old", DP: dp}, &ok, make(chan *rpc.Call, 1))
				select {
				case c := <-call.Done:
					if c.Error == nil {
						k.Fail("%s: a connection opened before the node was stopped is still served (insert answered %v)", what, ok)
					}
				case <-time.After(10 * time.Second):
					k.Fail("%s: a connection opened before the node was stopped is still open 10 s later", what)
				}
				o.rc.Close()
			} else {
				o.c.SetReadDeadline(time.Now().Add(10 * time.Second))
				if _, err := io.ReadAll(o.c); err != nil && isTimeout(err) {
					k.Fail("%s: a connection (%s) opened before the node was stopped is still open 10 s later", what, o.kind)
				}
			}
			o.c.Close()
			k.Count("connections_cut:"+o.kind, 1)
		}
		close(release)
		held.Wait()
		if !again {
			s.ls.settle(0, what+": after the node was stopped and its callers were gone")
			k.Count("stops_checked_for_goroutines", 1)
			s.start(what + ": listening again on the address of a stopped node")
		} else {
			s.ls.settle(1, what+": after the node was stopped and started again")
		}
		ids := s.ids("ns", "bg", "old")
		for id := range pre {
			if ids[id] > 0 {
				k.Fail("%s: an insert sent on a connection opened before the stop was executed afterwards", what)
			}
		}
		for _, id := range late {
			if ids[id] > 0 {
				k.Fail("%s: an insert sent to the stopped node was executed", what)
			}
		}
		for id := range stored {
			if ids[id] != 1 {
				k.Fail("%s: a point stored before the stop is held %d times after the restart", what, ids[id])
			}
		}
		stored[addOK(s.addr, what+": after the restart")] = true
		if bc != nil {
			var r []string
			if err := bc.Call("KMeansServer.Namespaces", 0, &r); err != nil {
				k.Fail("%s: stopping one node cut a connection of another: %v", what, err)
			}
		}
	}
	s.stop()
	s.ls.settle(0, "after the last stop")
	k.Sig(shape)
	k.Sample("stop", 3, map[string]any{"rounds": shape})
}

func addNs(addr, ns string, dp DP) (bool, error) {
	var err error
	ok := kmrpc.KMeansClient(addr, ns, &err).AddDataPoint(dp)
	return ok && err == nil, err
}

func isTimeout(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}

// inUseCase: addresses that cannot be listened on.
func inUseCase(k *K) {
	cfg := pickCfg(k)
	reg := newReg()
	vg := newVG(k.R, 2, "gauss")
	s := newSN(k, cfg)
	s.start("first start")
	defer s.stop()
	dp := reg.New(k.R, vg.Vec(), "plain")
	if ok, err := addNs(s.addr, "ns", dp); !ok {
		k.Fail("insert refused: %v", err)
	}
	c0, _ := net.Dial("tcp", s.addr)
	rc := rpc.NewClient(c0)
	defer rc.Close()
	ln := listenFixed()
	defer ln.Close()
	bad := []string{s.addr, s.addr, ln.Addr().String(), "127.0.0.1:99999", "127.0.0.1", "no port", "127.0.0.1:-1", "192.0.2.1:11000"}
	for i := 0; i < 6; i++ {
		a := bad[k.R.IntN(len(bad))]
		ls := newLoopSet(k)
		var stop func()
		var err error
		ls.do(func() { stop, err = kmrpc.StartListen(kmrpc.NewKMeansServer(a, cfg.newCM)) })
		k.Op("StartListen on %q -> %v", a, err)
		if err == nil {
			if stop != nil {
				stop()
			}
			k.Fail("starting a node on %q (in use or impossible) reported no error", a)
		}
		ls.settle(0, fmt.Sprintf("after starting a node on %q failed", a))
		k.Count("failed_starts", 1)
		k.Sig(fmt.Sprint("inuse", a == s.addr, a == ln.Addr().String(), len(a)))
		var n int
		if err := rc.Call("KMeansServer.LenDP", "ns", &n); err != nil || n != 1 {
			k.Fail("the failed start of another node on %q disturbed the running one: %d, %v", a, n, err)
		}
		var e error
		if got := kmrpc.KMeansClient(s.addr, "ns", &e).LenDP(); got != 1 || e != nil {
			k.Fail("the failed start of another node on %q disturbed the running one: %d, %v", a, got, e)
		}
	}
}

// leakTargets: what a call can meet.
type leakEnv struct {
	k    *K
	s    *sn
	tn   *Node // traced node with faults
	addr map[string]string
	cls  []func()
	reg  *Reg
	vg   *VG
	cfg  cmCfg
	tset *loopSet
}

var leakTargets = []string{"ok", "no namespace", "dead", "malformed", "closes", "cut request", "cut reply", "part reply", "no service", "garbage"}

func newLeakEnv(k *K) *leakEnv {
	cfg := pickCfg(k)
	e := &leakEnv{k: k, s: newSN(k, cfg), reg: newReg(), vg: newVG(k.R, 2, "gauss"), addr: map[string]string{}, cfg: cfg}
	e.s.start("start")
	e.cls = append(e.cls, e.s.stop)
	e.addr["ok"], e.addr["no namespace"] = e.s.addr, e.s.addr
	e.addr["dead"] = deadAddr()
	e.addr["malformed"] = "127.0.0.1:99999"
	for _, f := range []string{"closes", "cut request", "cut reply", "part reply", "no service"} {
		n := newNode(cfg)
		e.cls = append(e.cls, n.Close)
		e.addr[f] = n.Addr
		switch f {
		case "closes":
			n.refuse.Store(true)
		case "cut request":
			n.SetHook(func(*Ev) Act { return Act{CutReq: true} })
		case "cut reply":
			n.SetHook(func(*Ev) Act { return Act{CutReply: true} })
		case "part reply":
			n.SetHook(func(*Ev) Act { return Act{PartReply: true} })
		}
		if f != "no service" {
			for i := 0; i < 5; i++ {
				(&serverB{s: n.Srv, ns: "ns"}).Add(e.reg.New(k.R, e.vg.Vec(), "plain"))
			}
		}
	}
	// a peer speaking something else, and one without the service
	ln := listenFixed()
	e.addr["garbage"] = ln.Addr().String()
	e.cls = append(e.cls, func() { ln.Close() })
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				// not a peer that stays silent for ever: it hangs up
				c.Read(make([]byte, 1))
				c.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
				c.Close()
			}()
		}
	}()
	e.tset = newLoopSet(k)
	ln2 := listenFixed()
	e.addr["no service"] = ln2.Addr().String()
	e.cls = append(e.cls, func() { ln2.Close() })
	go func() {
		h := rpc.NewServer()
		for {
			c, err := ln2.Accept()
			if err != nil {
				return
			}
			go h.ServeConn(c)
		}
	}()
	for _, ns := range []string{"ns", "other"} {
		for i := 0; i < 20; i++ {
			if !(&serverB{s: e.s.srv, ns: ns}).Add(e.reg.New(k.R, e.vg.Vec(), "plain")) {
				k.Fail("insert refused")
			}
		}
	}
	return e
}

func (e *leakEnv) Close() {
	for i := len(e.cls) - 1; i >= 0; i-- {
		e.cls[i]()
	}
}

func (e *leakEnv) mixStrs() []string {
	var r []string
	for i := e.k.R.IntN(7); i >= 0; i-- {
		r = append(r, e.addr[leakTargets[e.k.R.IntN(len(leakTargets))]])
	}
	return r
}

func (e *leakEnv) mixAddrs() []Addr {
	var r []Addr
	for _, s := range e.mixStrs() {
		r = append(r, addrOf(s))
	}
	return r
}

type leakOp struct {
	name string
	f    func(e *leakEnv, addr, ns string) error
}

var leakOps = func() []leakOp {
	var r []leakOp
	m := func(name string, f func(e *leakEnv, addr, ns string, err *error)) {
		r = append(r, leakOp{name, func(e *leakEnv, addr, ns string) error {
			var err error
			f(e, addr, ns, &err)
			return err
		}})
	}
	cl := kmrpc.KMeansClient
	m("Namespaces", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).Namespaces() })
	m("Vec", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).Vec() })
	m("AddDataPoint", func(e *leakEnv, a, ns string, err *error) {
		cl(a, ns, err).AddDataPoint(DP{Vec: []float64{1, 2, 3}[:2+len(ns)%2]})
	})
	m("DrainUnordered", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).DrainUnordered(1) })
	m("DrainOrdered", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).DrainOrdered(1) })
	m("Expire", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).Expire() })
	m("LenDP", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).LenDP() })
	m("MemTrim", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).MemTrim() })
	m("MoveVector", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).MoveVector() })
	m("DistributeDataPointsFast", func(e *leakEnv, a, ns string, err *error) {
		cl(a, ns, err).DistributeDataPointsFast(e.mixStrs(), e.k.R.IntN(4))
	})
	m("DistributeDataPointsAccurate", func(e *leakEnv, a, ns string, err *error) {
		cl(a, ns, err).DistributeDataPointsAccurate(e.mixStrs(), e.k.R.IntN(4))
	})
	m("DistributeDataPointsInternal", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).DistributeDataPointsInternal(1) })
	m("KNNLookup", func(e *leakEnv, a, ns string, err *error) {
		cl(a, ns, err).KNNLookup([]float64{1, 1}, 1+e.k.R.IntN(3), e.k.R.IntN(3) == 0)
	})
	m("NearestCentroids", func(e *leakEnv, a, ns string, err *error) {
		cl(a, ns, err).NearestCentroids([]float64{1, 1}, 1, e.k.R.IntN(3) == 0)
	})
	m("NearestCentroidVec", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).NearestCentroidVec([]float64{1, 1}) })
	m("SplitCentroids", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).SplitCentroids(2, 100) })
	m("MergeCentroids", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).MergeCentroids(0, 3) })
	m("StealCentroids", func(e *leakEnv, a, ns string, err *error) {
		cl(a, ns, err).StealCentroids(e.addr[leakTargets[e.k.R.IntN(len(leakTargets))]], e.k.R.IntN(5))
	})
	m("Meta", func(e *leakEnv, a, ns string, err *error) { cl(a, ns, err).Meta() })
	for _, kd := range kinds3 {
		m("Put "+kd, func(e *leakEnv, a, ns string, err *error) {
			knn := e.cfg.knn
			putFns[kd](dps.PutDataPointArgs{AddrOptions: append(e.mixAddrs(), addrOf(a)), Namespace: ns, DataPoint: DP{Vec: []float64{1, 2}}, KNNSearchFunc: knn})
		})
		m("Get "+kd, func(e *leakEnv, a, ns string, err *error) {
			knn := e.cfg.knn
			getFns[kd](dps.GetDataPointsArgs{AddrOptions: append(e.mixAddrs(), addrOf(a)), Namespace: ns, QueryVec: []float64{1, 2}, N: e.k.R.IntN(4), Drain: e.k.R.IntN(2) == 0, KNNSearchFunc: knn})
		})
	}
	return r
}()

// leakCase: one client method against one kind of peer, many times.
func leakCase(k *K) {
	op := leakOps[k.Idx%len(leakOps)]
	tgt := leakTargets[(k.Idx/len(leakOps))%len(leakTargets)]
	e := newLeakEnv(k)
	defer e.Close()
	ns := "ns"
	if tgt == "no namespace" {
		ns = "absent"
	}
	cls := newLoopSet(k)
	call := func() error {
		var err error
		cls.do(func() { err = op.f(e, e.addr[tgt], ns) })
		k.Beat()
		return err
	}
	settleAll := func(fd0 int, what string) {
		cls.settle(0, what+": on the calling side")
		e.s.ls.settle(1, what+": on the node")
		for t := time.Now(); fd0 > 0; {
			n := countFDs()
			if n <= fd0 {
				break
			}
			if time.Since(t) > 12*time.Second {
				k.Fail("%s: %d file descriptors are open 12 s later, %d were before", what, n, fd0)
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	call() // whatever is set up once
	settleAll(0, "after one call of "+op.name)
	time.Sleep(2 * time.Millisecond)
	fd0 := countFDs()
	n := 4 + k.R.IntN(8)
	par := 1 + k.R.IntN(2)*3
	k.Op("%d calls of %s against %s (namespace %s), %d at a time", n, op.name, tgt, ns, par)
	fails := 0
	if par == 1 {
		for i := 0; i < n; i++ {
			if call() != nil {
				fails++
			}
		}
	} else {
		// the generator is not shared: one PRNG user at a time
		var mu sync.Mutex
		var wg sync.WaitGroup
		if strings.HasPrefix(op.name, "Distribute") || strings.HasPrefix(op.name, "Put") || strings.HasPrefix(op.name, "Get") || op.name == "StealCentroids" || op.name == "KNNLookup" || op.name == "NearestCentroids" {
			mu.Lock()
			for i := 0; i < n; i++ {
				if call() != nil {
					fails++
				}
			}
			mu.Unlock()
		} else {
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if call() != nil {
						mu.Lock()
						fails++
						mu.Unlock()
					}
				}()
				if i%par == par-1 {
					wg.Wait()
				}
			}
			wg.Wait()
		}
	}
	settleAll(fd0, fmt.Sprintf("after %d calls of %s against a peer of kind %q (%d failed)", n, op.name, tgt, fails))
	k.Count("calls:"+tgt, int64(n))
	k.Count("failed_calls:"+tgt, int64(fails))
	k.Count("settled_checks", 1)
	k.Sig(op.name + "/" + tgt)
	k.Sample("leak", 3, map[string]any{"method": op.name, "peer": tgt, "calls": n, "failed": fails})
}

// heapCase: many calls leave no objects behind on either side.
// heapGrowth runs blocks of n calls and fails if every block leaves about as many heap
// objects behind as it has calls. It returns the smallest growth.
func heapGrowth(k *K, what string, n int, settle, call func()) int64 {
	objs := func() int64 {
		settle()
		runtime.GC()
		runtime.GC()
		var st runtime.MemStats
		runtime.ReadMemStats(&st)
		return int64(st.HeapObjects)
	}
	loop := func() {
		for i := 0; i < n; i++ {
			call()
			if i%50 == 0 {
				k.Beat()
			}
		}
	}
	loop()
	best := int64(1 << 60)
	prev := objs()
	var ds []int64
	for t := 0; t < 4; t++ { // a leak grows every time
		loop()
		o := objs()
		ds = append(ds, o-prev)
		best = min(best, o-prev)
		prev = o
	}
	k.Op("%s: objects left by %d calls, four times: %v", what, n, ds)
	if best > int64(n)*3/4 {
		k.Fail("%s: %d calls leave %v heap objects behind (each of 4 times)", what, n, ds)
	}
	return best
}

func heapCase(k *K) {
	cfg := pickCfg(k)
	s := newSN(k, cfg)
	s.start("start")
	defer s.stop()
	vg := newVG(k.R, 3, "gauss")
	reg := newReg()
	for i := 0; i < 50; i++ {
		(&serverB{s: s.srv, ns: "ns"}).Add(reg.New(k.R, vg.Vec(), "plain"))
	}
	dead := deadAddr()
	methods := []func(addr, ns string){
		func(a, ns string) { kmrpc.KMeansClient(a, ns, nil).Namespaces() },
		func(a, ns string) { kmrpc.KMeansClient(a, ns, nil).LenDP() },
		func(a, ns string) { kmrpc.KMeansClient(a, ns, nil).KNNLookup([]float64{1, 2, 3}, 2, false) },
		func(a, ns string) { kmrpc.KMeansClient(a, ns, nil).Meta() },
		func(a, ns string) { kmrpc.KMeansClient(a, ns, nil).NearestCentroids([]float64{1, 2, 3}, 1, false) },
		func(a, ns string) { kmrpc.KMeansClient(a, ns, nil).StealCentroids(dead, 1) },
		func(a, ns string) { kmrpc.KMeansClient(a, ns, nil).DrainUnordered(0) },
		func(a, ns string) { kmrpc.KMeansClient(a, "absent", nil).Expire() },
		func(a, ns string) { kmrpc.KMeansClient(dead, ns, nil).Vec() },
		func(a, ns string) {
			dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: []Addr{addrOf(a), addrOf(dead)}, Namespace: ns, QueryVec: []float64{1, 2, 3}, N: 2, KNNSearchFunc: cfg.knn})
		},
	}
	m := methods[k.Idx%len(methods)]
	best := heapGrowth(k, fmt.Sprintf("method %d", k.Idx%len(methods)), 400, func() { s.ls.settle(1, "between calls") }, func() { m(s.addr, "ns") })
	k.Max("heap_objects_left_by_400_calls", best)
	k.Count("calls:heap", 5*400)
	k.Sig(fmt.Sprint("heap", k.Idx%len(methods)))
}

func init() {
	reg(&Prop{ID: "C29", Level: "exploration", Min: 200,
		Assume: []string{"the loopback address space is the sandbox's own (nothing else takes the port of a stopped node)", "peers that accept and never answer are not part of the leak grid (calls have no timeout)"},
		Rule:   "stop: real StartListen nodes with idle, used, half-written and in-flight connections and background callers, stopped and restarted 1-4 times, dials, old connections, goroutines (by profiler label) and stored points observed; in use: starts on addresses that cannot be listened on; leak: every client and distribution method x 10 kinds of peer, goroutines of both sides and file descriptors counted before and after; heap: live heap objects after repeated blocks of 400 calls; distinct by connection mix / (method, peer)",
		Run: func(r *Run) {
			r.Cases("heap", r.N(10, 60), 1, heapCase)
			r.Cases("leak", r.N(len(leakOps)*len(leakTargets), 10*len(leakOps)*len(leakTargets)), 1, leakCase)
			r.Cases("stop", r.N(120, 4000), 6, nodeStopCase)
			r.Cases("in use", r.N(24, 400), 4, inUseCase)
		}})
}
