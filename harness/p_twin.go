package main

// Points that equal others in every bit, or in all but one field. They are told
// apart by counting: the multiset of what is stored against what it should be.

import (
	"encoding/binary"
	"fmt"
	"math"
	"time"
)

func contentKey(dp DP) string {
	b := make([]byte, 0, 8*len(dp.Vec)+len(dp.Payload)+24)
	for _, x := range dp.Vec {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x))
	}
	b = append(b, '|')
	b = append(b, dp.Payload...)
	b = append(b, '|')
	b = binary.LittleEndian.AppendUint64(b, uint64(dp.Expires.Unix()))
	b = binary.LittleEndian.AppendUint64(b, uint64(dp.Expires.Nanosecond()))
	if dp.ExpireEnabled {
		b = append(b, '!')
	}
	return string(b)
}

// twinPool: a few contents, some of which differ in one field only.
func twinPool(k *K, vg *VG) []DP {
	var p []DP
	n := 1 + k.R.IntN(6)
	for i := 0; i < n; i++ {
		dp := DP{Vec: vg.Vec()}
		switch k.R.IntN(4) {
		case 0:
			dp.Payload = []byte{}
		case 1:
			dp.Payload = []byte("same")
		case 2:
			dp.Payload = []byte{byte(i)}
		}
		p = append(p, dp)
		for k.R.IntN(3) > 0 {
			x := cloneDP(p[k.R.IntN(len(p))])
			switch k.R.IntN(5) {
			case 0:
				x.Vec = vg.Vec()
			case 1:
				x.Payload = append(x.Payload, 0)
			case 2:
				x.ExpireEnabled, x.Expires = true, farFuture
			case 3:
				x.Expires = farFuture.Add(time.Duration(k.R.IntN(3)))
			case 4:
				j := k.R.IntN(len(x.Vec))
				if x.Vec[j] == 0 {
					x.Vec[j] = math.Copysign(0, -math.Copysign(1, x.Vec[j]))
				} else {
					x.Vec[j] = math.Nextafter(x.Vec[j], 0)
				}
			}
			p = append(p, x)
		}
	}
	return p
}

func keyCounts(m map[string]int, dps []DP) map[string]int {
	if m == nil {
		m = map[string]int{}
	}
	for _, dp := range dps {
		m[contentKey(dp)]++
	}
	return m
}

func (s *Snap) dps() (r []DP) {
	for _, c := range s.Cs {
		r = append(r, c.DPs...)
	}
	return
}

// twinModel is what should be stored.
type twinModel struct {
	k     *K
	n     map[string]int
	total int
}

func (m *twinModel) add(dp DP) { m.n[contentKey(dp)]++; m.total++ }

// take: out has to be there; removes it if drain.
func (m *twinModel) take(what string, out []DP, drain bool) {
	for key, c := range keyCounts(nil, out) {
		if c > m.n[key] {
			m.k.Fail("%s returned a point %d times of which %d were stored: %.80q", what, c, m.n[key], key)
		}
		if drain {
			m.n[key] -= c
		}
	}
	if drain {
		m.total -= len(out)
	}
}

func (m *twinModel) check(what string, stored []DP) {
	got := keyCounts(nil, stored)
	for key, c := range m.n {
		if got[key] != c {
			m.k.Fail("after %s a point is stored %d times, expected %d: %.80q", what, got[key], c, key)
		}
	}
	if len(stored) != m.total {
		m.k.Fail("after %s %d points are stored, expected %d", what, len(stored), m.total)
	}
	m.k.Count("twin_states", 1)
}

// twinSeq: operations on one namespace holding equal points.
func twinSeq(k *K) {
	cfg := pickCfg(k)
	b := newBackend(k, cfg, pickBackend(k))
	defer b.Close()
	vg := newVG(k.R, 0, "")
	pool := twinPool(k, vg)
	reg := newReg()
	m := &twinModel{k: k, n: map[string]int{}}
	add := func() {
		dp := pool[k.R.IntN(len(pool))]
		if !b.Add(reg.handOut(cloneDP(dp))) {
			k.Fail("the insert of an unexpired point, equal to %d stored ones, was refused", m.n[contentKey(dp)])
		}
		m.add(dp)
	}
	k.Op("%s, %s, dim %d, threshold %d, %d contents", b.Name(), cfg.metric.Name, vg.Dim, cfg.threshold, len(pool))
	n := 2 + k.R.IntN(30)
	for i := 0; i < n; i++ {
		add()
	}
	m.check("inserts", snapB(b).dps())
	sig := ""
	for i := 0; i < 4+k.R.IntN(14); i++ {
		what := []string{"add", "add", "add", "knn", "knn", "knndrain", "drainU", "drainO", "distI", "distI", "split", "merge", "trim", "expire", "nearC"}[k.R.IntN(15)]
		before := m.total
		x := 1 + logInt(k.R, m.total+2)
		if k.R.IntN(4) == 0 {
			x = m.total
		}
		q := vg.Vec()
		if k.R.IntN(2) == 0 {
			q = cloneVec(pool[k.R.IntN(len(pool))].Vec)
		}
		k.Op("%s %d of %d", what, x, before)
		var out []DP
		take, exact := false, false
		switch what {
		case "add":
			for j := 0; j < 1+k.R.IntN(5); j++ {
				add()
			}
		case "knn", "knndrain":
			take, exact = true, true
			out = b.KNN(q, x, what == "knndrain")
		case "drainU":
			take, exact = true, true
			out = b.DrainU(x)
		case "drainO":
			take, exact = true, true
			out = b.DrainO(x)
		case "distI":
			b.DistInternal(x)
		case "split":
			b.Split(k.R.IntN(3), 1<<30)
		case "merge":
			b.Merge(-1, 1+k.R.IntN(10))
		case "trim":
			b.MemTrim()
		case "expire":
			b.Expire()
		case "nearC":
			take = true
			cs, _ := b.NearestC(q, 1+k.R.IntN(2), true)
			out = centroidsDPs(cs)
		}
		if take {
			m.take(what, out, what != "knn")
		}
		if want := min(x, before); exact && len(out) != want {
			k.Fail("%s of %d returned %d points of %d", what, x, len(out), before)
		}
		m.check(what, snapB(b).dps())
		if l := b.Len(); m.total > 0 && l != m.total {
			k.Fail("after %s the count is %d, %d points are stored", what, l, m.total)
		}
		sig += what + " "
	}
	k.Sig(fmt.Sprint(sig, b.Name(), len(pool), m.total))
	k.Sample("equal points", 1, map[string]any{"contents": len(pool), "ops": tail(k.Ops(), 12), "left": m.total})
}

// twinNodes: puts, queries, redistributions and steals of equal points between nodes;
// with an API, puts and queries go through it.
func twinNodes(k *K, c *Cluster, api *apiFix) {
	pool := twinPool(k, c.VG)
	m := &twinModel{k: k, n: map[string]int{}}
	addrs := c.addrs()
	all := func() (r []DP) {
		for _, n := range c.snap().N {
			r = append(r, n.dps()...)
		}
		return
	}
	sig := ""
	put := func() {
		dp := pool[k.R.IntN(len(pool))]
		kind := kinds3[k.R.IntN(3)]
		ok := false
		if api != nil {
			kind = "api"
			st, err := api.put(c.NS, k.R.IntN(2) == 0, dp)
			if ok = st == 200; err != nil {
				k.Fail("put through the API: %v", err)
			}
		} else {
			d := c.Reg.handOut(cloneDP(dp))
			ok = c.putQuiet(kind, addrs, d)
			if !ok && m.total == 0 && kind != "rand" {
				kind = "rand" // no node has the namespace yet
				ok = c.putQuiet(kind, addrs, d)
			}
		}
		if !ok {
			k.Fail("the %s put of an unexpired point, equal to %d stored ones, failed", kind, m.n[contentKey(dp)])
		}
		m.add(dp)
	}
	for i := 0; i < 2+k.R.IntN(20); i++ {
		put()
	}
	k.Op("%d nodes, %d contents, %d points", len(c.Nodes), len(pool), m.total)
	m.check("puts", all())
	for i := 0; i < 3+k.R.IntN(9); i++ {
		before := m.total
		x := 1 + logInt(k.R, m.total+2)
		if k.R.IntN(4) == 0 {
			x = m.total
		}
		q := c.VG.Vec()
		if k.R.IntN(2) == 0 {
			q = cloneVec(pool[k.R.IntN(len(pool))].Vec)
		}
		what := []string{"put", "get", "get", "getdrain", "fast", "accurate", "internal", "steal"}[k.R.IntN(8)]
		k.Op("%s %d of %d", what, x, before)
		switch what {
		case "put":
			put()
		case "get", "getdrain":
			var out []DP
			if api != nil {
				st, o, body, err := api.query(c.NS, k.R.IntN(2) == 0, q, x, what == "getdrain")
				if err != nil || st != 200 {
					k.Fail("query through the API: %d %v %.100q", st, err, body)
				}
				out = o
			} else {
				kind := kinds3[k.R.IntN(3)]
				out = c.getQuiet(kind, addrs, q, x, what == "getdrain")
			}
			m.take(what, out, what == "getdrain")
			if want := min(x, before); len(out) != want {
				k.Fail("a query for %d returned %d points of %d", x, len(out), before)
			}
		case "steal":
			i, j := k.R.IntN(len(addrs)), k.R.IntN(len(addrs))
			if i != j {
				c.steal(i, c.Nodes[j].Addr, x)
			}
		default:
			c.distribute(what, k.R.IntN(len(addrs)), c.strs(), x)
		}
		m.check(what, all())
		sig += what + " "
	}
	k.Sig(fmt.Sprint(sig, len(c.Nodes), len(pool), m.total))
	k.Sample("equal points", 1, map[string]any{"nodes": len(c.Nodes), "contents": len(pool), "ops": tail(k.Ops(), 12), "left": m.total})
}

func twinCluster(k *K) {
	c := newCluster(k, 1+k.R.IntN(3), newCfg(mCos, []int{0, 0, 2, 3, 5, 10}[k.R.IntN(6)], 0), pickNS(k), "", 0)
	defer c.Close()
	twinNodes(k, c, nil)
}

func twinAPI(k *K) {
	n := apiNetwork()
	c := n.cluster(k, newCfg(mCos, []int{0, 3, 5, 20}[k.R.IntN(4)], 0), "", 0)
	jsonableNS(k, c)
	twinNodes(k, c, n.api)
}
