package main

// Clusters of nodes: set-up, recording of what is stored where, put/get calls.

import (
	"fmt"
	"sort"
	"strings"

	"trypo/core/dps"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type Cluster struct {
	K     *K
	Cfg   cmCfg
	NS    string
	Reg   *Reg
	VG    *VG
	Nodes []*Node
	St    []*Store
}

func newCluster(k *K, n int, cfg cmCfg, ns, fam string, dim int) *Cluster {
	c := &Cluster{K: k, Cfg: cfg, NS: ns, Reg: newReg(), VG: newVG(k.R, dim, fam)}
	for i := 0; i < n; i++ {
		c.addNode()
	}
	return c
}

func (c *Cluster) addNode() *Store {
	nd := newNode(c.Cfg)
	c.Nodes = append(c.Nodes, nd)
	st := &Store{K: c.K, B: &clientB{node: nd, ns: c.NS}, Cfg: c.Cfg, Reg: c.Reg, VG: c.VG, Live: "live"}
	st.Scale = c.VG.Scale
	c.St = append(c.St, st)
	return st
}

func (c *Cluster) Close() {
	for _, n := range c.Nodes {
		n.Close()
	}
}

func (c *Cluster) addrs() []Addr {
	var r []Addr
	for _, n := range c.Nodes {
		r = append(r, n.A())
	}
	return r
}

func (c *Cluster) strs() []string {
	var r []string
	for _, n := range c.Nodes {
		r = append(r, n.Addr)
	}
	return r
}

func (c *Cluster) scale() float64 {
	m := c.VG.Scale
	for _, s := range c.St {
		if s.Scale > m {
			m = s.Scale
		}
	}
	return m
}

// CSnap is the recorded state of all nodes in one namespace.
type CSnap struct{ N []*Snap }

func (c *Cluster) snap() *CSnap {
	s := &CSnap{}
	for _, st := range c.St {
		s.N = append(s.N, snapB(st.B))
	}
	return s
}

func (s *CSnap) ids() map[uint64]int {
	m := map[uint64]int{}
	for _, n := range s.N {
		for id, x := range n.ids() {
			m[id] += x
		}
	}
	return m
}

func (s *CSnap) expired() map[uint64]bool {
	m := map[uint64]bool{}
	for _, n := range s.N {
		for id := range n.expired() {
			m[id] = true
		}
	}
	return m
}

// where: id -> node index (last one holding it).
func (s *CSnap) where() map[uint64]int {
	m := map[uint64]int{}
	for i, n := range s.N {
		for id := range n.ids() {
			m[id] = i
		}
	}
	return m
}

func (s *CSnap) total() int {
	t := 0
	for _, n := range s.N {
		t += n.total()
	}
	return t
}

func (s *CSnap) shape() string {
	var p []string
	for _, n := range s.N {
		if !n.Exists {
			p = append(p, "-")
			continue
		}
		p = append(p, strings.TrimSpace(n.shape()))
	}
	return strings.Join(p, "|")
}

func (c *Cluster) contentOK(s *CSnap, what string) {
	for i, n := range s.N {
		c.St[i].contentOK(n, what)
	}
}

var putFns = map[string]func(dps.PutDataPointArgs) bool{"rand": dps.PutDataPointRand, "fast": dps.PutDataPointFast, "accurate": dps.PutDataPointAccurate}
var getFns = map[string]func(dps.GetDataPointsArgs) []DP{"rand": dps.GetDataPointsRand, "fast": dps.GetDataPointsFast, "accurate": dps.GetDataPointsAccurate}
var kinds3 = []string{"rand", "fast", "accurate"}

func (c *Cluster) put(kind string, addrs []Addr, dp DP) bool {
	ok := putFns[kind](dps.PutDataPointArgs{AddrOptions: addrs, Namespace: c.NS, DataPoint: dp, KNNSearchFunc: c.Cfg.knn})
	c.K.Op("put %s %s dim=%d expired=%v -> %v", kind, sid(idOf(dp)), len(dp.Vec), isExpired(dp), ok)
	return ok
}

func (c *Cluster) get(kind string, addrs []Addr, q []float64, n int, drain bool) []DP {
	out := getFns[kind](dps.GetDataPointsArgs{AddrOptions: addrs, Namespace: c.NS, QueryVec: cloneVec(q), N: n, Drain: drain, KNNSearchFunc: c.Cfg.knn})
	c.K.Op("get %s n=%d drain=%v -> %d", kind, n, drain, len(out))
	return out
}

// distribute runs a between-node redistribution from node i over TCP.
func (c *Cluster) distribute(kind string, i int, addrs []string, n int) error {
	var err error
	cl := kmrpc.KMeansClient(c.Nodes[i].Addr, c.NS, &err)
	switch kind {
	case "fast":
		cl.DistributeDataPointsFast(addrs, n)
	case "accurate":
		cl.DistributeDataPointsAccurate(addrs, n)
	case "internal":
		cl.DistributeDataPointsInternal(n)
	}
	c.K.Op("distribute %s n=%d from node %d to %d addrs (err %v)", kind, n, i, len(addrs), err)
	return err
}

func (c *Cluster) steal(to int, from string, limit int) (int, bool, error) {
	var err error
	n, ok := kmrpc.KMeansClient(c.Nodes[to].Addr, c.NS, &err).StealCentroids(from, limit)
	c.K.Op("steal node %d from %s limit %d -> %d %v (err %v)", to, c.nameOf(from), limit, n, ok, err)
	return n, ok, err
}

func (c *Cluster) nameOf(addr string) string {
	for i, n := range c.Nodes {
		if n.Addr == addr {
			return fmt.Sprintf("node %d", i)
		}
	}
	return addr
}

func sortedIDs(m map[uint64]int) []uint64 {
	var r []uint64
	for id := range m {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// someNodes: usually lo..hi, now and then a lot more.
func someNodes(k *K, lo, hi int) int {
	if k.R.IntN(30) == 0 {
		return 17 + k.R.IntN(24)
	}
	return lo + k.R.IntN(hi-lo+1)
}

// node condition codes used by mixed clusters
const (
	ncOK = iota
	ncNoNS
	ncEmpty // namespace without points
	ncOtherDim
	ncDown
	ncRefuse
)

// mixed builds a cluster whose nodes are in varied conditions.
func mixedCluster(k *K, cfg cmCfg, maxN int) (*Cluster, []int) {
	c := newCluster(k, 0, cfg, pickNS(k), "", 0)
	n := someNodes(k, 1, maxN)
	for i := 0; i < n; i++ {
		c.addNode()
	}
	conds := c.mixConds()
	k.Op("cluster conditions %v (0 ok,1 no namespace,2 empty,3 other dimension,4 down,5 refusing), dim %d, %s", conds, c.VG.Dim, cfg.metric.Name)
	return c, conds
}

func (c *Cluster) putQuiet(kind string, addrs []Addr, dp DP) bool {
	return putFns[kind](dps.PutDataPointArgs{AddrOptions: addrs, Namespace: c.NS, DataPoint: dp, KNNSearchFunc: c.Cfg.knn})
}

func (c *Cluster) getQuiet(kind string, addrs []Addr, q []float64, n int, drain bool) []DP {
	return getFns[kind](dps.GetDataPointsArgs{AddrOptions: addrs, Namespace: c.NS, QueryVec: cloneVec(q), N: n, Drain: drain, KNNSearchFunc: c.Cfg.knn})
}

// mixConds puts the nodes of a cluster into varied conditions.
func (c *Cluster) mixConds() []int {
	k := c.K
	conds := make([]int, len(c.Nodes))
	for i, st := range c.St {
		cd := []int{ncOK, ncOK, ncOK, ncOK, ncNoNS, ncEmpty, ncOtherDim, ncDown, ncRefuse}[k.R.IntN(9)]
		conds[i] = cd
		switch cd {
		case ncOK, ncDown, ncRefuse:
			sz := randSizes(k, 4, 8)
			st.populate(sz, false)
			if snapB(st.B).total() == 0 && cd == ncOK {
				conds[i] = ncEmpty
			}
		case ncEmpty:
			dp := st.newDP("plain")
			if !st.B.Add(dp) {
				k.Fail("first insert into an unused namespace was refused")
			}
			st.B.DrainU(1)
			if k.R.IntN(2) == 0 {
				st.B.MemTrim()
			}
			delete(st.Reg.dps, idOf(dp))
		case ncOtherDim:
			var ok bool
			for j := 0; j < 1+k.R.IntN(4); j++ {
				v := make([]float64, c.VG.Dim+1)
				v[0] = 1
				ok = st.B.Add(c.Reg.New(k.R, v, "plain"))
				if !ok {
					k.Fail("insert of another dimension into an unused namespace was refused")
				}
			}
		}
		switch cd {
		case ncDown:
			c.Nodes[i].Down()
		case ncRefuse:
			c.Nodes[i].refuse.Store(true)
		}
	}
	return conds
}
