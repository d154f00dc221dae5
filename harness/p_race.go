package main

// C13: the race detector over every mix of concurrent use.

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// memLogger is a Logger of the event loop that counts.
type memLogger struct {
	mu    sync.Mutex
	tasks int
	metas int
	last  eventloop.MetaData
	onM   func(eventloop.MetaData)
	onT   func(string)
}

func (l *memLogger) LogTask(s string) {
	l.mu.Lock()
	l.tasks++
	f := l.onT
	l.mu.Unlock()
	if f != nil {
		f(s)
	}
}

func (l *memLogger) LogMeta(m eventloop.MetaData) {
	l.mu.Lock()
	l.metas++
	l.last = m
	f := l.onM
	l.mu.Unlock()
	if f != nil {
		f(m)
	}
}

func (l *memLogger) counts() (int, int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.tasks, l.metas
}

func busyLoop(local Addr, all []Addr, l eventloop.Logger, r *rand.Rand) *eventloop.EventLoopConfig {
	iv := func() int { return 1 + r.IntN(3) }
	return &eventloop.EventLoopConfig{
		LocalAddr: local, RemoteAddrs: all,
		TimeoutLoop: time.Duration(r.IntN(1000)) * time.Microsecond,
		TimeoutStep: time.Duration(r.IntN(300)) * time.Microsecond,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: iv(), MemTrim: iv(), DistributeDataPointsFast: iv(), DistributeDataPointsAccurate: iv(),
			DistributeDataPointsInternal: iv(), SplitCentroids: iv(), MergeCentroids: iv(), LoadBalancing: iv(), Meta: iv()},
		DistributeDataPointsFastN: 1 + r.IntN(10), DistributeDataPointsAccurateN: 1 + r.IntN(5), DistributeDataPointsInternalN: 1 + r.IntN(10),
		SplitCentroidsMin: 3 + r.IntN(10), SplitCentroidsMax: 1000, MergeCentroidsMin: -1, MergeCentroidsMax: 1 + r.IntN(5),
		LogLocalOnly: r.IntN(2) == 0, L: l,
	}
}

// raceClient performs random operations of every kind against the given nodes.
func raceClient(k *K, r *rand.Rand, addrs []Addr, srvs []*KMServer, nss []string, reg *Reg, rmu *sync.Mutex, cfg cmCfg, n int, api *apiFix) {
	vg := &VG{R: r, Dim: 3, Fam: "gauss", Scale: 1}
	strs := make([]string, len(addrs))
	for i, a := range addrs {
		strs[i] = a.ToStr()
	}
	for i := 0; i < n; i++ {
		k.Beat()
		ns := nss[r.IntN(len(nss))]
		j := r.IntN(len(addrs))
		addr := strs[j]
		var err error
		cl := kmrpc.KMeansClient(addr, ns, &err)
		rmu.Lock()
		dp := reg.New(r, vg.Vec(), "live")
		rmu.Unlock()
		if r.IntN(10) == 0 {
			dp.ExpireEnabled, dp.Expires = true, time.Now().Add(time.Duration(r.IntN(20))*time.Millisecond)
		}
		op := r.IntN(27)
		k.Count(fmt.Sprintf("op%02d", op), 1)
		switch op {
		case 0, 1, 2, 3:
			cl.AddDataPoint(dp)
		case 4:
			var ok bool
			srvs[j].AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: ns, DP: dp}, &ok)
		case 5:
			cl.KNNLookup(vg.Vec(), 1+r.IntN(5), r.IntN(3) == 0)
		case 6:
			var out []DP
			srvs[j].KNNLookup(kmrpc.KNNLookupArgs{NameSpace: ns, Vec: vg.Vec(), K: 3}, &out)
			for _, d := range out {
				_ = fmt.Sprint(d.Vec, d.ExpireEnabled)
			}
		case 7:
			cl.DrainUnordered(1 + r.IntN(2))
		case 8:
			cl.DrainOrdered(1 + r.IntN(2))
		case 9:
			cl.NearestCentroids(vg.Vec(), 1+r.IntN(4), r.IntN(8) == 0)
		case 10:
			cl.NearestCentroidVec(vg.Vec())
		case 11:
			cl.Vec()
		case 12:
			cl.LenDP()
		case 13:
			cl.Namespaces()
		case 14:
			cl.Meta()
		case 15:
			cl.SplitCentroids(2, 1000)
		case 16:
			cl.MergeCentroids(-1, 3)
		case 17:
			cl.Expire()
		case 18:
			cl.MemTrim()
		case 19:
			cl.MoveVector()
		case 20:
			cl.DistributeDataPointsFast(strs, 1+r.IntN(4))
		case 21:
			cl.DistributeDataPointsAccurate(strs, 1+r.IntN(3))
		case 22:
			cl.DistributeDataPointsInternal(1 + r.IntN(4))
		case 23:
			cl.StealCentroids(strs[(j+1)%len(strs)], 1+r.IntN(6))
		case 24:
			kind := kinds3[r.IntN(3)]
			c := &Cluster{K: k, Cfg: cfg, NS: ns}
			c.putQuiet(kind, addrs, dp)
		case 25:
			kind := kinds3[r.IntN(3)]
			c := &Cluster{K: k, Cfg: cfg, NS: ns}
			c.getQuiet(kind, addrs, vg.Vec(), 1+r.IntN(5), r.IntN(3) == 0)
		case 26:
			if api != nil {
				if r.IntN(2) == 0 {
					api.put(ns, r.IntN(2) == 0, dp)
				} else {
					api.query(ns, r.IntN(2) == 0, vg.Vec(), 1+r.IntN(5), r.IntN(3) == 0)
				}
			}
		}
		k.Sig(fmt.Sprint(op, err == nil, k.Idx))
	}
}

var raceAddrs []Addr
var raceOnce sync.Once

func raceRound(k *K) {
	raceOnce.Do(func() {
		for i := 0; i < 3; i++ {
			ln := listenFixed()
			raceAddrs = append(raceAddrs, addrOf(ln.Addr().String()))
			ln.Close()
		}
	})
	api := startAPI(raceAddrs)
	r := k.R
	cfg := newCfg(mCos, 3+r.IntN(8), r.IntN(5))
	var srvs []*KMServer
	var stops []func()
	for _, a := range raceAddrs {
		s := newKMServer(a.ToStr(), cfg.newCM)
		stop, err := kmrpc.StartListen(s)
		for i := 0; err != nil && i < 100; i++ {
			time.Sleep(10 * time.Millisecond)
			stop, err = kmrpc.StartListen(s)
		}
		if err != nil {
			// not a matter of this property (see C29)
			k.Count("rounds_without_address", 1)
			for _, s := range stops {
				s()
			}
			return
		}
		srvs, stops = append(srvs, s), append(stops, stop)
	}
	nss := []string{"a", "b", ""}[:1+r.IntN(3)]
	reg := newReg()
	var rmu sync.Mutex
	var wg sync.WaitGroup
	var done atomic.Bool
	logs := []*memLogger{}
	for i := range srvs {
		if k.Idx%4 == 3 {
			break // no event loops in this round
		}
		l := &memLogger{}
		logs = append(logs, l)
		seed := r.Uint64()
		wg.Add(1)
		go func() { // start and stop event loops repeatedly
			defer wg.Done()
			rr := rand.New(rand.NewPCG(seed, 1))
			for !done.Load() {
				var lg eventloop.Logger = l
				stop := eventloop.EventLoop(busyLoop(raceAddrs[i], raceAddrs, lg, rr))
				for t := 0; t < 1+rr.IntN(12) && !done.Load(); t++ {
					time.Sleep(10 * time.Millisecond)
				}
				stop()
				if rr.IntN(2) == 0 {
					stop()
				}
			}
		}()
	}
	var cw sync.WaitGroup
	for c := 0; c < 4; c++ {
		seed := r.Uint64()
		cw.Add(1)
		go func() {
			defer cw.Done()
			raceClient(k, rand.New(rand.NewPCG(seed, 2)), raceAddrs, srvs, nss, reg, &rmu, cfg, k.N(150, 400), api)
		}()
	}
	if k.Idx%3 == 2 {
		// stop a node while it is being used
		time.Sleep(time.Duration(r.IntN(60)) * time.Millisecond)
		stops[0]()
	}
	cw.Wait()
	done.Store(true)
	for _, s := range stops {
		s()
		if r.IntN(3) == 0 {
			s()
		}
	}
	wg.Wait()
	for _, l := range logs {
		t, m := l.counts()
		k.Count("eventloop_tasks", int64(t))
		k.Count("eventloop_metas", int64(m))
	}
	if k.Idx == 0 {
		k.Sample("round", 1, fmt.Sprintf("namespaces %q, 4 clients, %d event loops", nss, len(logs)))
	}
}

// bigRace: operations on centroids of many points, through handlers (whose replies are
// read meanwhile, as the encoder does) and over TCP.
func bigRace(k *K) {
	size := []int{20, 60, 120, 300, 1100}[k.Idx%5]
	n := newNode(newCfg(mCos, 100000, 0))
	defer n.Close()
	st := &serverB{s: n.Srv, ns: "big"}
	reg := newReg()
	vg := &VG{R: k.R, Dim: 2, Fam: "gauss", Scale: 1}
	for i := 0; i < 2*size; i++ {
		st.Add(reg.New(k.R, vg.Vec(), "plain"))
	}
	st.Split(size, 1<<30)
	read := func(dps []DP) {
		for _, d := range dps {
			_ = fmt.Sprint(d.Vec, d.ExpireEnabled, d.Expires.IsZero(), len(d.Payload))
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		r := rand.New(rand.NewPCG(k.R.Uint64(), 3))
		go func() {
			defer wg.Done()
			vg := &VG{R: r, Dim: 2, Fam: "gauss", Scale: 1}
			reg := newReg()
			cl := kmrpc.KMeansClient(n.Addr, "big", nil)
			for i := 0; i < 25; i++ {
				k.Beat()
				var ok bool
				q := vg.Vec()
				if w < 3 { // readers
					switch r.IntN(5) {
					case 0, 1:
						var cs []*Centroid
						n.Srv.NearestCentroids(kmrpc.NearestCentroidArgs{NameSpace: "big", Vec: q, N: 1 + r.IntN(2)}, &cs)
						for _, c := range cs {
							_ = fmt.Sprint(c.Vec())
							read(c.DataPoints)
						}
					case 2:
						var out []DP
						n.Srv.KNNLookup(kmrpc.KNNLookupArgs{NameSpace: "big", Vec: q, K: 1 + r.IntN(2*size)}, &out)
						read(out)
					case 3:
						cl.NearestCentroids(q, 2, false)
					case 4:
						cl.KNNLookup(q, size, false)
					}
					k.Count("big_reads", 1)
					continue
				}
				switch r.IntN(8) {
				case 0, 1:
					n.Srv.AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: "big", DP: reg.New(r, q, "plain")}, &ok)
				case 2, 3:
					var out []DP
					n.Srv.DrainUnordered(kmrpc.DrainArgs{NameSpace: "big", N: 2}, &out)
					read(out)
				case 4:
					var out []DP
					n.Srv.KNNLookup(kmrpc.KNNLookupArgs{NameSpace: "big", Vec: q, K: 3, Drain: true}, &out)
					read(out)
				case 5:
					cl.DistributeDataPointsInternal(3)
				case 6:
					cl.MemTrim()
				case 7:
					cl.Expire()
				}
				k.Count("big_writes", 1)
			}
		}()
	}
	wg.Wait()
	k.Max("largest_centroid_raced", int64(size))
	k.Sig(fmt.Sprint("big", size, k.Idx))
}

// startStop: servers started and stopped while connections come and go.
func startStopRace(k *K) {
	ln := listenFixed()
	addr := ln.Addr().String()
	ln.Close()
	cfg := newCfg(mCos, 5, 0)
	s := newKMServer(addr, cfg.newCM)
	stop, err := kmrpc.StartListen(s)
	if err != nil {
		return
	}
	var wg sync.WaitGroup
	for c := 0; c < 4; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				var e error
				kmrpc.KMeansClient(addr, "x", &e).AddDataPoint(DP{Vec: []float64{1, 2}, Payload: []byte("12345678")})
				kmrpc.KMeansClient(addr, "x", &e).KNNLookup([]float64{1, 2}, 2, false)
			}
		}()
	}
	time.Sleep(time.Duration(k.R.IntN(15)) * time.Millisecond)
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() { defer wg.Done(); stop() }()
	}
	wg.Wait()
	k.Sig(fmt.Sprint("ss", k.Idx))
}

// defaultLog: the built-in logger.
func defaultLog(k *K) {
	n := newNode(newCfg(mCos, 5, 0))
	defer n.Close()
	st := &serverB{s: n.Srv, ns: "d"}
	st.Add(DP{Vec: []float64{1, 2}, Payload: []byte("12345678")})
	c := busyLoop(n.A(), []Addr{n.A()}, nil, k.R)
	c.LogLocalOnly = k.Idx%2 == 0
	stop := eventloop.EventLoop(c)
	time.Sleep(200 * time.Millisecond)
	stop()
	k.Sig(fmt.Sprint("dl", k.Idx))
}

// raceOnly runs a case without judging its results (other properties do).
func raceOnly(f func(*K)) func(*K) {
	return func(k *K) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(failT); !ok {
					panic(e)
				}
				k.Count("results_not_judged_here", 1)
			}
		}()
		f(k)
	}
}

func init() {
	reg(&Prop{ID: "C13", Level: "exploration", Race: true, Min: 100,
		Rule: "rounds of 4 clients issuing every operation (direct, RPC, dps functions, HTTP) against 3 nodes started with StartListen, with event loops and nodes being started and stopped meanwhile; plus linearizability-style histories; under the Go race detector; distinct by (operation, outcome, round)",
		Run: func(r *Run) {
			r.Cases("round", r.N(24, 400), 1, raceRound)
			r.Cases("big", r.N(15, 300), 4, bigRace)
			r.Cases("startstop", r.N(40, 600), 2, startStopRace)
			r.Cases("defaultlog", 2, 1, defaultLog)
			r.Cases("hist-first", r.N(150, 3000), 16, raceOnly(linRun("first", linFirst, false)))
			r.Cases("hist-fast", r.N(150, 3000), 8, raceOnly(linRun("fast", linMix, false)))
			r.Cases("hist-pair", r.N(100, 2000), 8, raceOnly(linPair))
		}})
}
