package main

// C22: no request takes a node or the API down.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/rpc"
	"os"
	"os/exec"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"trypo/core/dps"
	"trypo/core/eventloop"

	"trypo/pkg/kmeans/centroidmanager"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func totalAlloc() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// svcFactory makes managers the way the service program does.
func svcFactory(threshold int) func([]float64) *CM {
	return func(vec []float64) *CM {
		cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, InitCap: 100, CentroidDPThreshold: threshold,
			KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos})
		if !ok {
			panic("cmSpawner failed to spawn.")
		}
		return &cm
	}
}

var hostileInts = []int{math.MinInt64, math.MinInt64 + 1, -1 << 40, -1000, -1, 0, 1, 3, 1 << 20, 10_000_000, math.MaxInt32, math.MaxInt32 + 1, 1e15, math.MaxInt64 - 1, math.MaxInt64}

func hInt(r *rand.Rand) int { return hostileInts[r.IntN(len(hostileInts))] }

// hVec: a vector of any dimension with any components.
func hVec(r *rand.Rand, dim int) []float64 {
	n := []int{0, 0, 1, dim, dim, dim, dim - 1, dim + 1, 3000}[r.IntN(9)]
	if r.IntN(12) == 0 {
		return nil
	}
	v := make([]float64, max(n, 0))
	for i := range v {
		v[i] = r.NormFloat64()
		if r.IntN(3) == 0 {
			v[i] = []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e200, math.NaN(), math.Inf(1), math.Inf(-1)}[r.IntN(9)]
		}
	}
	if r.IntN(5) == 0 {
		for i := range v {
			v[i] = 0
		}
	}
	return v
}

var badAddrs = []string{"", ":", "127.0.0.1", "127.0.0.1:", "127.0.0.1:0", "127.0.0.1:99999", "127.0.0.1:-1", "[::1", "127.0.0.1:1:2", "\x00", "127.0.0.1:1", "127.0.0.1:2", strings.Repeat("9", 300) + ":1"}

// within runs one request and fails the case if it does not come back.
func within(k *K, what string, d time.Duration, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(d):
		k.Fail("a request did not come back in %v: %s", d, what)
	}
}

type hNode struct {
	addr string
	srv  *KMServer
	stop func()
}

// startHNode starts a node the way the service does.
func startHNode(addr string, f func([]float64) *CM) *hNode {
	if addr == "" {
		ln := listenFixed()
		addr = ln.Addr().String()
		ln.Close()
	}
	n := &hNode{addr: addr, srv: newKMServer(addr, f)}
	var err error
	for i := 0; i < 200; i++ {
		if n.stop, err = kmrpc.StartListen(n.srv); err == nil {
			return n
		}
		time.Sleep(10 * time.Millisecond)
	}
	panic(fmt.Sprintf("harness: cannot start a node on %s: %v", addr, err))
}

func (n *hNode) ids(ns string) map[uint64]int { return snapB(&serverB{s: n.srv, ns: ns}).ids() }

type hFix struct {
	nodes []*hNode
	api   *apiFix
}

var theH *hFix
var hOnce sync.Once

func hostileFix() *hFix {
	hOnce.Do(func() {
		h := &hFix{}
		var as []Addr
		for i := 0; i < 2; i++ {
			n := startHNode("", svcFactory(6))
			h.nodes = append(h.nodes, n)
			as = append(as, addrOf(n.addr))
		}
		h.api = startAPI(append(as, addrOf(deadAddr())))
		theH = h
	})
	return theH
}

// hostileCase: a sequence of hostile requests; what the nodes do is judged after each.
func hostileCase(k *K) {
	h := hostileFix()
	for _, n := range h.nodes {
		n.srv.Table.Reset()
		n.srv.CentroidManagerFactoryFunc = svcFactory([]int{0, 2, 6, 10000}[k.R.IntN(4)])
	}
	reg := newReg()
	vg := newVG(k.R, 3, "gauss")
	// control: never named by a hostile request; target: every point accounted for
	control := func() (s string) {
		for _, n := range h.nodes {
			s += nsStateSrv(n.srv, "control") + "|"
		}
		return
	}
	target := map[uint64]bool{}
	for _, n := range h.nodes {
		for i := 0; i < 3+k.R.IntN(20); i++ {
			(&serverB{s: n.srv, ns: "control"}).Add(reg.New(k.R, vg.Vec(), "live"))
		}
		for i := 0; i < k.R.IntN(25); i++ {
			dp := reg.New(k.R, vg.Vec(), "live")
			(&serverB{s: n.srv, ns: "target"}).Add(dp)
			target[idOf(dp)] = true
		}
	}
	c0 := control()
	pl := func() []string {
		var a []string
		for i := 0; i < k.R.IntN(6); i++ {
			switch k.R.IntN(3) {
			case 0:
				a = append(a, badAddrs[k.R.IntN(len(badAddrs))])
			default:
				a = append(a, h.nodes[k.R.IntN(2)].addr)
			}
		}
		if k.R.IntN(8) == 0 && len(a) > 0 {
			for i := 0; i < 30; i++ {
				a = append(a, a[0])
			}
		}
		return a
	}
	for i := 0; i < 14; i++ {
		ns := []string{"target", "target", "target", "weird", "weird", "unknown", strings.Repeat("n", 3000), "\x00"}[k.R.IntN(8)]
		n := h.nodes[k.R.IntN(2)]
		var err error
		cl := kmrpc.KMeansClient(n.addr, ns, &err)
		var req func()
		var desc string
		var out []DP
		slack := uint64(0)
		gone := map[uint64]bool{} // returned by a drain
		took := func(d []DP) {
			for _, x := range d {
				gone[idOf(x)] = true
			}
		}
		v := hVec(k.R, 3)
		x, y := hInt(k.R), hInt(k.R)
		drain := k.R.IntN(3) == 0
		vd := fmt.Sprintf("vector of %d %v", len(v), trim5(v))
		switch k.R.IntN(19) {
		case 0, 1:
			dp := reg.New(k.R, v, "live")
			desc = "insert " + vd
			req = func() {
				if cl.AddDataPoint(dp) && ns == "target" {
					target[idOf(dp)] = true
				}
			}
		case 2, 3:
			desc = fmt.Sprintf("query k=%d drain=%v %s", x, drain, vd)
			req = func() { out = cl.KNNLookup(v, x, drain) }
		case 4:
			drain = true
			desc = fmt.Sprintf("drain unordered %d", x)
			req = func() { out = cl.DrainUnordered(x) }
		case 5:
			drain = true
			desc = fmt.Sprintf("drain ordered %d", x)
			req = func() { out = cl.DrainOrdered(x) }
		case 6, 7:
			desc = fmt.Sprintf("nearest centroids n=%d drain=%v %s", x, drain, vd)
			req = func() { cs, _ := cl.NearestCentroids(v, x, drain); out = centroidsDPs(cs) }
		case 8:
			desc = "nearest centroid vector " + vd
			req = func() { cl.NearestCentroidVec(v) }
		case 9:
			desc = fmt.Sprintf("split %d..%d", x, y)
			req = func() { cl.SplitCentroids(x, y) }
		case 10:
			desc = fmt.Sprintf("merge %d..%d", x, y)
			req = func() { cl.MergeCentroids(x, y) }
		case 11, 12:
			a := pl()
			slack = uint64(len(a)) * 60 << 19
			desc = fmt.Sprintf("distribute %d to %.200q", x, a)
			if k.R.IntN(2) == 0 {
				req = func() { cl.DistributeDataPointsFast(a, x) }
			} else {
				req = func() { cl.DistributeDataPointsAccurate(a, x) }
			}
		case 13:
			desc = fmt.Sprintf("internal redistribution %d", x)
			req = func() { cl.DistributeDataPointsInternal(x) }
		case 14:
			from := h.nodes[k.R.IntN(2)].addr
			if k.R.IntN(3) == 0 {
				from = badAddrs[k.R.IntN(len(badAddrs))]
			}
			slack = 64 << 20
			desc = fmt.Sprintf("steal %d from %.30q", x, from)
			req = func() { cl.StealCentroids(from, x) }
		case 15:
			desc = "expire, trim, move, read"
			req = func() {
				cl.Expire()
				cl.MemTrim()
				cl.MoveVector()
				cl.Vec()
				cl.LenDP()
				cl.Meta()
			}
		case 16, 17:
			for i := range v {
				if math.IsNaN(v[i]) || math.IsInf(v[i], 0) {
					v[i] = 1e200
				}
			}
			acc := k.R.IntN(2) == 0
			desc = fmt.Sprintf("HTTP query n=%d accurate=%v drain=%v %s", x, acc, drain, vd)
			req = func() {
				st, o, _, e := h.api.query(ns, acc, v, x, drain)
				if e != nil || st == 0 {
					k.Report("%s: no answer: %v", desc, e)
				}
				out = o
			}
			slack = 16 << 20
		default:
			for i := range v {
				if math.IsNaN(v[i]) || math.IsInf(v[i], 0) {
					v[i] = -1e200
				}
			}
			dp := reg.New(k.R, v, "live")
			desc = "HTTP put " + vd
			req = func() {
				st, e := h.api.put(ns, k.R.IntN(2) == 0, dp)
				if e != nil {
					k.Report("%s: no answer: %v", desc, e)
				}
				if st == 200 && ns == "target" {
					target[idOf(dp)] = true
				}
			}
			slack = 16 << 20
		}
		desc = fmt.Sprintf("%s on %.12q at node %s", desc, ns, n.addr)
		k.Op("%s", desc)
		a0 := totalAlloc()
		within(k, desc, 40*time.Second, req)
		used := totalAlloc() - a0
		k.Max("most_bytes_allocated_by_a_request", int64(used))
		if lim := uint64(24<<20) + slack; used > lim {
			k.Fail("a request made the process allocate %d MB, the nodes hold a few kB: %s", used>>20, desc)
		}
		if drain {
			took(out)
		}
		// existing data
		if control() != c0 {
			k.Fail("a request on namespace %.20q changed another: %s", ns, desc)
		}
		have := addIDs(nil, nil)
		for _, n := range h.nodes {
			for id, c := range n.ids("target") {
				have[id] += c
			}
		}
		if ns == "target" && drain {
			for id := range gone {
				delete(target, id)
			}
		}
		for id := range target {
			if have[id] != 1 {
				k.Fail("after %s (error %v): %s, which the request did not ask to remove, exists %d times", desc, err, sid(id), have[id])
			}
		}
		for id := range have {
			if !target[id] {
				k.Fail("after %s: %s is stored though it was drained or refused", desc, sid(id))
			}
		}
		k.Sig(fmt.Sprint(desc[:min(len(desc), 25)], ns == "target", x, len(v)))
		k.Count("hostile_requests", 1)
	}
	// what was named by the requests still answers ordinary ones
	for _, n := range h.nodes {
		for _, ns := range []string{"target", "weird", "unknown"} {
			dim := -1
			for _, c := range snapB(&serverB{s: n.srv, ns: ns}).Cs {
				for _, d := range c.DPs {
					dim = len(d.Vec)
				}
			}
			if dim < 1 {
				continue
			}
			v := make([]float64, dim)
			for i := range v {
				v[i] = k.R.NormFloat64()
			}
			dp := reg.New(k.R, v, "plain")
			var err error
			cl := kmrpc.KMeansClient(n.addr, ns, &err)
			if !cl.AddDataPoint(dp) || err != nil {
				k.Fail("after the requests an ordinary insert of dimension %d into %q is refused (%v)", dim, ns, err)
			}
			found := false
			for _, o := range cl.KNNLookup(v, 1<<30, false) {
				found = found || idOf(o) == idOf(dp)
			}
			if !found {
				k.Fail("after the requests an ordinary point in %q is not found by a query for all points", ns)
			}
			k.Count("ordinary_use_afterwards", 1)
		}
	}
	h.probe(k, reg)
}

func nsStateSrv(s *KMServer, ns string) string { return nsState(&Node{Srv: s}, ns) }

// probe: ordinary requests are answered correctly.
func (h *hFix) probe(k *K, reg *Reg) {
	ns := "probe"
	for i, n := range h.nodes {
		within(k, "probe", 40*time.Second, func() {
			var err error
			cl := kmrpc.KMeansClient(n.addr, ns, &err)
			a, b := reg.New(k.R, []float64{1, 0}, "plain"), reg.New(k.R, []float64{0, 1}, "plain")
			if !cl.AddDataPoint(a) || !cl.AddDataPoint(b) || err != nil {
				k.Report("probe insert at node %d failed (%v)", i, err)
			}
			if out := cl.KNNLookup([]float64{1, 0.1}, 2, false); len(out) != 2 || err != nil {
				k.Report("probe query at node %d returned %d points (%v)", i, len(out), err)
			}
			if out := cl.KNNLookup([]float64{1, 0.1}, 1, true); len(out) != 1 || cl.LenDP() != 1 || err != nil {
				k.Report("probe drain at node %d returned %d points (%v)", i, len(out), err)
			}
			if out := cl.DrainUnordered(5); len(out) != 1 || err != nil {
				k.Report("probe drain at node %d returned %d points (%v)", i, len(out), err)
			}
		})
	}
	if h.api == nil {
		return
	}
	within(k, "API probe", 40*time.Second, func() {
		dp := reg.New(k.R, []float64{1, 2}, "plain")
		st, err := h.api.put("apiprobe", true, dp)
		st2, out, _, err2 := h.api.query("apiprobe", true, []float64{1, 2}, 5, true)
		if st != 200 || st2 != 200 || len(out) != 1 || err != nil || err2 != nil {
			k.Report("API probe: put %d, query %d with %d points (%v, %v)", st, st2, len(out), err, err2)
		}
	})
	k.Count("probes", 1)
}

// garbageCase: bytes that are no requests, connections that go away, requests for
// unknown methods or with arguments of other types, and many open connections.
func garbageCase(k *K) {
	h := hostileFix()
	reg := newReg()
	n := h.nodes[k.R.IntN(2)]
	var open []net.Conn
	defer func() {
		for _, c := range open {
			c.Close()
		}
	}()
	var valid bytes.Buffer
	{
		// a recorded valid request, to be mangled
		a, b := net.Pipe()
		go func() {
			cl := rpc.NewClient(a)
			cl.Go("KMeansServer.KNNLookup", kmrpc.KNNLookupArgs{NameSpace: "target", Vec: []float64{1, 2, 3}, K: 3}, &[]DP{}, nil)
		}()
		b.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
		io.Copy(&valid, b)
		a.Close()
		b.Close()
	}
	for i := 0; i < 8; i++ {
		k.Beat()
		what := ""
		a0 := totalAlloc()
		switch k.R.IntN(6) {
		case 0, 1:
			what = "mangled request"
			b := append([]byte(nil), valid.Bytes()...)
			for j := 0; j < 1+k.R.IntN(6) && len(b) > 0; j++ {
				switch k.R.IntN(3) {
				case 0:
					b[k.R.IntN(len(b))] = byte(k.R.Uint32())
				case 1:
					b = b[:k.R.IntN(len(b)+1)]
				case 2:
					p := k.R.IntN(len(b) + 1)
					b = append(b[:p:p], append([]byte{0xf8, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}[:1+k.R.IntN(9)], b[p:]...)...)
				}
			}
			sendRaw(n.addr, b)
		case 2:
			what = "random bytes"
			b := make([]byte, 1+logInt(k.R, 100000))
			for j := range b {
				b[j] = byte(k.R.Uint32())
			}
			sendRaw(n.addr, b)
			sendRaw(strings.TrimPrefix(h.api.url, "http://"), b)
		case 3:
			what = "unknown methods and other types"
			if cl, err := rpc.Dial("tcp", n.addr); err == nil {
				var s string
				cl.Call("KMeansServer.Nothing", 3, &s)
				cl.Call("Nothing", 3, &s)
				cl.Call("", 3, &s)
				cl.Call("KMeansServer.KNNLookup", "text", &s)
				cl.Call("KMeansServer.LenDP", 7, &s)
				cl.Call("KMeansServer.AddDataPoint", struct{ DP struct{ Vec string } }{}, &s)
				cl.Call("KMeansServer.AddDataPoint", struct{ Other int }{1}, &s)
				cl.Call("KMeansServer.StealCentroid", struct{ TransferDPLimit int }{5}, &s)
				cl.Close()
			}
		case 4:
			what = "connections left open"
			for j := 0; j < 20; j++ {
				for _, a := range []string{n.addr, strings.TrimPrefix(h.api.url, "http://")} {
					if c, err := net.DialTimeout("tcp", a, 5*time.Second); err == nil {
						open = append(open, c)
						if k.R.IntN(2) == 0 && valid.Len() > 4 {
							c.Write(valid.Bytes()[:k.R.IntN(valid.Len())])
						}
					}
				}
			}
		case 5:
			what = "hostile HTTP"
			body := [][]byte{bytes.Repeat([]byte("["), 200000), bytes.Repeat([]byte(`{"a":`), 20000), []byte(`{"queryVec":[` + strings.Repeat("1,", 50000) + `1],"n":9223372036854775807}`), nil, []byte(`null`),
				[]byte(`{"n":-9223372036854775808,"queryVec":[]}`), []byte(`{"dp":null}`), []byte(`{"dp":{}}`), []byte(`{"namespace":"weird","dp":{"vec":[]}}`)}
			for _, m := range []string{"GET", "PUT", "DELETE", "OPTIONS", "BREW"} {
				sendRaw(strings.TrimPrefix(h.api.url, "http://"), []byte(m+" /api/dp/query HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\n{}"))
			}
			for _, b := range body {
				for _, p := range []string{"/api/dp/put", "/api/dp/query", "/", "/api/dp/put/../x"} {
					if _, _, err := h.api.post(p, b); err != nil {
						k.Fail("hostile HTTP body %.40q to %s got no answer: %v", b, p, err)
					}
				}
			}
		}
		k.Op("%s", what)
		used := totalAlloc() - a0
		if used > 400<<20 {
			k.Fail("%s made the process allocate %d MB", what, used>>20)
		}
		k.Count("garbage:"+what, 1)
		k.Sig(fmt.Sprint("garbage", what, k.Idx))
	}
	h.probe(k, reg)
}

func sendRaw(addr string, b []byte) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(300 * time.Millisecond))
	c.Write(b)
	if t, ok := c.(*net.TCPConn); ok {
		t.CloseWrite()
	}
	io.Copy(io.Discard, c)
}

// concHostileCase: hostile requests of all kinds at once, on shared namespaces.
func concHostileCase(k *K) {
	h := hostileFix()
	for _, n := range h.nodes {
		n.srv.Table.Reset()
		n.srv.CentroidManagerFactoryFunc = svcFactory(6)
	}
	reg := newReg()
	vg := newVG(k.R, 3, "gauss")
	for _, n := range h.nodes {
		for i := 0; i < 20; i++ {
			(&serverB{s: n.srv, ns: "weird"}).Add(reg.New(k.R, vg.Vec(), "live"))
		}
	}
	var wg sync.WaitGroup
	var cnt atomic.Int64
	for w := 0; w < 6; w++ {
		r := rand.New(rand.NewPCG(k.R.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				k.Beat()
				cnt.Add(1)
				n := h.nodes[r.IntN(2)]
				cl := kmrpc.KMeansClient(n.addr, "weird", nil)
				v := hVec(r, 3)
				a := []string{h.nodes[0].addr, badAddrs[r.IntN(len(badAddrs))], h.nodes[1].addr, h.nodes[0].addr}[:r.IntN(5)]
				switch r.IntN(14) {
				case 0, 1, 2:
					cl.AddDataPoint(DP{Vec: v, Payload: []byte("12345678")})
				case 3:
					cl.KNNLookup(v, hInt(r), r.IntN(4) == 0)
				case 4:
					cl.DrainOrdered(r.IntN(3))
				case 5:
					cl.NearestCentroids(v, hInt(r), false)
				case 6:
					cl.NearestCentroidVec(v)
				case 7:
					cl.SplitCentroids(hInt(r), hInt(r))
				case 8:
					cl.MergeCentroids(hInt(r), hInt(r))
				case 9:
					cl.DistributeDataPointsFast(a, hInt(r))
				case 10:
					cl.DistributeDataPointsAccurate(a, r.IntN(4))
				case 11:
					cl.DistributeDataPointsInternal(hInt(r))
				case 12:
					cl.StealCentroids(h.nodes[r.IntN(2)].addr, hInt(r))
				case 13:
					cl.Expire()
					cl.MemTrim()
					cl.Meta()
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(80 * time.Second):
		k.Fail("concurrent hostile requests did not come back in 80 s (%d started)", cnt.Load())
	}
	k.Count("concurrent_hostile_requests", cnt.Load())
	k.Sig(fmt.Sprint("conc", k.Idx))
	h.probe(k, reg)
}

// hostileSvcCase: hostile requests against the service program; its memory is watched.
func hostileSvcCase(k *K) {
	s := startSvc(k)
	if s == nil {
		return
	}
	defer s.stop()
	reg := newReg()
	addr := "localhost:3500"
	h := &hFix{nodes: []*hNode{{addr: addr}}, api: s.api}
	for i := 0; i < k.N(250, 3000); i++ {
		k.Beat()
		cl := kmrpc.KMeansClient(addr, []string{"t", "u", ""}[k.R.IntN(3)], nil)
		v, x, y := hVec(k.R, 3), hInt(k.R), hInt(k.R)
		what := ""
		within(k, "request to the service", 60*time.Second, func() {
			switch k.R.IntN(11) {
			case 0, 1, 2:
				what = "insert"
				cl.AddDataPoint(DP{Vec: v, Payload: []byte("12345678")})
			case 3:
				what = "query"
				cl.KNNLookup(v, x, k.R.IntN(3) == 0)
			case 4:
				what = "drain"
				cl.DrainOrdered(x)
			case 5:
				what = "nearest centroids"
				cl.NearestCentroids(v, x, false)
			case 6:
				what = "split/merge"
				cl.SplitCentroids(x, y)
				cl.MergeCentroids(y, x)
			case 7:
				what = "distribute"
				cl.DistributeDataPointsFast([]string{addr, "", addr}, x)
				cl.DistributeDataPointsInternal(x)
			case 8:
				what = "steal"
				cl.StealCentroids(addr, x)
			case 9:
				what = "HTTP query"
				b, _ := json.Marshal(map[string]any{"namespace": "t", "n": x, "queryVec": []float64{1, 2}, "drain": k.R.IntN(2) == 0, "accurate": k.R.IntN(2) == 0})
				s.api.post("/api/dp/query", b)
			case 10:
				what = "HTTP put"
				s.api.post("/api/dp/put", []byte(fmt.Sprintf(`{"namespace":"t","dp":{"vec":%s}}`, []string{"[]", "null", "[0]", "[0,0]", "[1e308,1e308]", "[1,2,3,4]"}[k.R.IntN(6)])))
			}
		})
		k.Op("%s n=%d vector of %d", what, x, len(v))
		if s.ended() {
			k.Fail("the service went down on %s (n=%d, %d, vector %v):\n%s", what, x, y, trim5(v), tailStr(s.out.String(), 4000))
		}
		if m := peakRSS(s.cmd.Process.Pid); m > 1<<20 {
			k.Fail("the service used %d MB of memory after %s (n=%d, %d)", m>>10, what, x, y)
		} else {
			k.Max("service_peak_kB", m)
		}
		k.Count("service_requests", 1)
	}
	h.probe(k, reg)
	if s.ended() {
		k.Fail("the service went down:\n%s", tailStr(s.out.String(), 4000))
	}
	k.Sig("service")
}

// peakRSS in kB.
func peakRSS(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if err != nil {
		return 0
	}
	for _, l := range strings.Split(string(b), "\n") {
		var n int64
		if _, err := fmt.Sscanf(l, "VmHWM: %d kB", &n); err == nil {
			return n
		}
	}
	return 0
}

// fdCase: a node (in a process of its own with few file descriptors) that cannot
// accept connections for a while serves again afterwards.
func fdCase(k *K) {
	bin, _ := os.Executable()
	cmd := exec.Command(bin, "fdhelper", "-prop", "C22")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb capBuf
	cmd.Stderr = &errb
	in, _ := cmd.StdinPipe()
	outp, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	defer func() { in.Close(); cmd.Process.Kill(); cmd.Wait() }()
	var addr, apiURL string
	sc := bufio.NewScanner(outp) // the API prints its routes too
	stop := time.AfterFunc(40*time.Second, func() { cmd.Process.Kill() })
	defer stop.Stop()
	for addr == "" && sc.Scan() {
		fmt.Sscanf(sc.Text(), "READY %s %s", &addr, &apiURL)
	}
	if addr == "" {
		k.Fail("the node process did not start\n%s", tailStr(errb.String(), 2000))
	}
	stop.Stop()
	go io.Copy(io.Discard, outp)
	reg := newReg()
	h := &hFix{nodes: []*hNode{{addr: addr}}, api: &apiFix{url: apiURL, cl: newHTTP()}}
	h.probe(k, reg)
	for round := 0; round < 2; round++ {
		var cs []net.Conn
		targets := []string{addr, strings.TrimPrefix(apiURL, "http://")}
		for i := 0; i < 120; i++ {
			if c, err := net.DialTimeout("tcp", targets[i%2], time.Second); err == nil {
				cs = append(cs, c)
			}
			if i == 60 {
				time.Sleep(50 * time.Millisecond)
			}
		}
		// requests while it has no descriptors left
		done := make(chan struct{})
		go func() {
			defer close(done)
			var err error
			for i := 0; i < 3; i++ {
				c, e := net.DialTimeout("tcp", addr, time.Second)
				if e == nil {
					c.SetDeadline(time.Now().Add(200 * time.Millisecond))
					rc := rpc.NewClient(c)
					var n []string
					err = rc.Call("KMeansServer.Namespaces", 0, &n)
					rc.Close()
				}
			}
			_ = err
		}()
		<-done
		time.Sleep(time.Duration(50+k.R.IntN(200)) * time.Millisecond)
		for _, c := range cs {
			c.Close()
		}
		k.Count("connections_beyond_the_limit", int64(len(cs)))
		time.Sleep(300 * time.Millisecond)
		h.api.cl.CloseIdleConnections()
		h.probe(k, reg)
	}
	k.Sig(fmt.Sprint("fd", k.Idx))
}

// fdHelper is the process of fdCase.
func fdHelper() {
	n := startHNode("", svcFactory(6))
	a := startAPI([]Addr{addrOf(n.addr)})
	a.cl.CloseIdleConnections()
	// on a line of its own, whatever the API printed before
	fmt.Println("\nREADY", n.addr, a.url)
	lim := &syscall.Rlimit{Cur: 40, Max: 40}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, lim)
	io.Copy(io.Discard, os.Stdin)
	os.Exit(0)
}

var memKinds = []string{"unknown namespaces", "vectors", "addresses", "cluster", "churn", "merging", "refused", "loop"}

// memoryCase: requests without lasting effect, every one with names, vectors and
// addresses of its own, and histories that come back to where they started, leave
// nothing behind.
func memoryCase(k *K) {
	cfg := pickCfg(k)
	s := newSN(k, cfg)
	s.start("start")
	defer s.stop()
	vg := newVG(k.R, 3, "gauss")
	reg := newReg()
	for i := 0; i < 50; i++ {
		(&serverB{s: s.srv, ns: "ns"}).Add(reg.New(k.R, vg.Vec(), "plain"))
	}
	kind := memKinds[k.Idx%len(memKinds)]
	i, n := 0, 400
	cl := func(ns string) *clientB { return &clientB{node: &Node{Addr: s.addr, Srv: s.srv}, ns: ns} }
	dead := func() string { return fmt.Sprintf("127.%d.%d.%d:1", 1+i/60000, i/250%240, 1+i%250) }
	var call func()
	switch kind {
	case "unknown namespaces":
		call = func() {
			b := cl(fmt.Sprint("unknown ", i))
			switch i % 12 {
			case 0:
				b.Len()
			case 1:
				b.KNN(vg.Vec(), 3, i%2 == 0)
			case 2:
				b.DrainU(3)
			case 3:
				b.DrainO(3)
			case 4:
				b.Expire()
			case 5:
				b.MemTrim()
			case 6:
				b.Vec()
			case 7:
				b.Split(0, 100)
			case 8:
				b.Merge(0, 100)
			case 9:
				b.MoveVector()
			case 10:
				b.NearestC(vg.Vec(), 2, false)
			case 11:
				b.NearestCV(vg.Vec())
			}
			var l int
			s.srv.LenDP(b.ns, &l)
		}
	case "vectors":
		call = func() {
			b := cl("ns")
			switch i % 3 {
			case 0:
				b.KNN(vg.Vec(), 1+i%7, false)
			case 1:
				b.NearestC(vg.Vec(), 2, false)
			case 2:
				b.NearestCV(vg.Vec())
			}
		}
	case "addresses":
		call = func() {
			kmrpc.KMeansClient(s.addr, "ns", nil).StealCentroids(dead(), 1)
			kmrpc.KMeansClient(dead(), "ns", nil).LenDP()
		}
	case "cluster":
		call = func() {
			l := []Addr{addrOf(s.addr), addrOf(dead())}
			ns := fmt.Sprint("unknown ", i)
			if i%2 == 0 {
				dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: l, Namespace: ns, QueryVec: vg.Vec(), N: 2, KNNSearchFunc: cfg.knn})
			} else {
				dps.GetDataPointsAccurate(dps.GetDataPointsArgs{AddrOptions: l, Namespace: ns, QueryVec: vg.Vec(), N: 2, KNNSearchFunc: cfg.knn})
			}
		}
	case "churn", "merging", "refused":
		n = 120
		var b Backend = cl("work")
		if k.R.IntN(2) == 0 {
			b = &serverB{s: s.srv, ns: "work"}
		}
		call = func() {
			for j := 0; j < 10; j++ {
				b.Add(DP{Vec: vg.Vec(), Payload: []byte(fmt.Sprint(i, "-", j))})
			}
			switch kind {
			case "churn":
				b.Split(1, 100)
				b.DistInternal(2)
				b.DrainO(4)
				b.KNN(vg.Vec(), 3, true)
			case "merging":
				b.Split(1, 100)
				b.MoveVector()
				b.Merge(0, 100)
			case "refused":
				b.Add(DP{Vec: vg.Vec(), Payload: []byte(fmt.Sprint("expired ", i)), Expires: time.Now().Add(-time.Hour), ExpireEnabled: true})
				b.Expire()
			}
			b.DrainU(1 << 20)
			b.MemTrim()
		}
	}
	if kind == "loop" {
		// one iteration of an event loop at a time; the loop waits in its logger in between
		n = 150
		s2 := newSN(k, cfg)
		s2.start("second node")
		defer s2.stop()
		dead1 := addrOf(deadAddr())
		arrive, proceed := make(chan bool), make(chan bool)
		l := &memLogger{onM: func(eventloop.MetaData) {
			arrive <- true
			<-proceed
		}}
		one := func() int { return 1 }
		e := &loopEnv{k: k, c: &eventloop.EventLoopConfig{LocalAddr: addrOf(s.addr), RemoteAddrs: []Addr{addrOf(s.addr), addrOf(s2.addr), dead1},
			DistributeDataPointsFastN: 3, DistributeDataPointsAccurateN: 2, DistributeDataPointsInternalN: 3,
			SplitCentroidsMin: 4, SplitCentroidsMax: 1000, MergeCentroidsMin: 0, MergeCentroidsMax: 3, LogLocalOnly: k.R.IntN(2) == 0, L: l}}
		e.intervals(one)
		ls := newLoopSet(k)
		stop := ls.start(e.c)
		<-arrive
		defer func() {
			stop()
			close(proceed)
			go func() {
				for range arrive {
				}
			}()
			ls.wait()
		}()
		call = func() {
			proceed <- true
			select {
			case <-arrive:
			case <-time.After(30 * time.Second):
				k.Fail("an iteration of the event loop does not end within 30 s")
			}
		}
		settle := func() { s.ls.settle(1, "between iterations"); s2.ls.settle(1, "between iterations") }
		best := heapGrowth(k, "iterations of an event loop", n, settle, call)
		k.Max("heap_objects_left:"+kind, best)
		k.Count("iterations_watched_for_memory", int64(5*n))
		k.Sig("memory " + kind)
		return
	}
	best := heapGrowth(k, "requests of kind "+kind, n, func() { s.ls.settle(1, "between requests") }, func() { i++; call() })
	k.Max("heap_objects_left:"+kind, best)
	k.Count("requests_watched_for_memory", int64(5*n))
	k.Sig("memory " + kind)
}

// manyConnsCase: clients that hold many connections do not keep others out.
func manyConnsCase(k *K) {
	cfg := pickCfg(k)
	s := newSN(k, cfg)
	s.start("start")
	defer s.stop()
	n := 150 + k.R.IntN(450)
	var cs []net.Conn
	defer func() {
		for _, c := range cs {
			c.Close()
		}
	}()
	vg := newVG(k.R, 3, "gauss")
	for i := 0; i < n; i++ {
		c, err := net.Dial("tcp", s.addr)
		if err != nil {
			k.Fail("connection %d to a node failed: %v", i, err)
		}
		cs = append(cs, c)
		if i%3 == 1 {
			c.Write([]byte{40, 1, 2, 3})
		}
		if i%30 == 0 {
			k.Beat()
		}
	}
	reg := newReg()
	for i := 0; i < 20; i++ {
		var err error
		dp := reg.New(k.R, vg.Vec(), "plain")
		if !kmrpc.KMeansClient(s.addr, "ns", &err).AddDataPoint(dp) || err != nil {
			k.Fail("beside %d idle connections an insert fails: %v", n, err)
		}
		if l := kmrpc.KMeansClient(s.addr, "ns", &err).LenDP(); l != i+1 || err != nil {
			k.Fail("beside %d idle connections the length is %d after %d inserts (%v)", n, l, i+1, err)
		}
	}
	// all of them can still be used
	for i := 0; i < len(cs); i += 3 {
		rc := rpc.NewClient(cs[i])
		var l int
		call := rc.Go("KMeansServer.LenDP", "ns", &l, make(chan *rpc.Call, 1))
		select {
		case <-call.Done:
			if call.Error != nil || l != 20 {
				k.Fail("connection %d of %d is not served: length %d (%v)", i, n, l, call.Error)
			}
		case <-time.After(20 * time.Second):
			k.Fail("connection %d of %d is not served within 20 s", i, n)
		}
		k.Beat()
	}
	k.Max("idle_connections", int64(n))
	k.Sig(fmt.Sprint("connections", n))
}

func init() {
	reg(&Prop{ID: "C22", Level: "exploration", Min: 150, Svc: true, VLimit: 16 << 20,
		Rule: "memory: requests with names, vectors and addresses of their own each, and histories that return to where they started, live heap objects counted after blocks of them; hostile requests (counts from MinInt64 to MaxInt64, vectors of any dimension and component, unknown namespaces, bad, repeated and dead addresses, mangled bytes, hostile HTTP) with per-request monitors: the process lives, allocation is bounded, data of other namespaces is bit-identical, data of the named namespace is conserved, the request ends; then probes; also concurrently, against the service program (peak memory watched), and with file descriptors exhausted; distinct by request",
		Run: func(r *Run) {
			var wg sync.WaitGroup
			r.Cases("memory", r.N(len(memKinds), 6*len(memKinds)), 1, memoryCase)
			r.Cases("connections", r.N(3, 30), 1, manyConnsCase)
			r.Cases("hostile", r.N(600, 15000), 1, hostileCase)
			r.Cases("garbage", r.N(40, 800), 1, garbageCase)
			wg.Add(2)
			go func() { defer wg.Done(); r.Cases("service", 1, 1, hostileSvcCase) }()
			go func() { defer wg.Done(); r.Cases("fds", r.N(4, 30), 2, fdCase) }()
			r.Cases("concurrent", r.N(40, 1000), 1, concHostileCase)
			wg.Wait()
		}})
}
