package main

// C21: the HTTP API.

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"trypo/core/api"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type apiNet struct {
	api   *apiFix
	nodes []*Node
	use   []Addr // what the API was given
}

var theNet *apiNet
var netOnce sync.Once

// apiNetwork starts the API once, over four nodes, a dead address and a repeated one.
func apiNetwork() *apiNet {
	netOnce.Do(func() {
		n := &apiNet{}
		for i := 0; i < 4; i++ {
			n.nodes = append(n.nodes, newNode(newCfg(mCos, 5, 0)))
		}
		n.use = []Addr{n.nodes[2].A(), addrOf(deadAddr()), n.nodes[0].A(), n.nodes[1].A(), n.nodes[0].A(), n.nodes[3].A()}
		n.api = startAPI(n.use)
		theNet = n
	})
	return theNet
}

// cluster empties the nodes and makes a cluster of them.
func (n *apiNet) cluster(k *K, cfg cmCfg, fam string, dim int) *Cluster {
	c := &Cluster{K: k, Cfg: cfg, NS: pickNS(k), Reg: newReg(), VG: newVG(k.R, dim, fam)}
	for i, nd := range n.nodes {
		nd.refuse.Store(false)
		nd.SetHook(nil)
		nd.mu.Lock()
		down := nd.isDown
		nd.mu.Unlock()
		if down && !nd.Up() {
			panic(fmt.Sprintf("harness: node %d cannot listen again", i))
		}
		nd.Srv.Table.Reset()
		nd.Srv.CentroidManagerFactoryFunc = cfg.newCM
		c.Nodes = append(c.Nodes, nd)
		st := &Store{K: k, B: &clientB{node: nd, ns: c.NS}, Cfg: cfg, Reg: c.Reg, VG: c.VG, Live: "live", Scale: c.VG.Scale}
		c.St = append(c.St, st)
	}
	return c
}

func jsonableNS(k *K, c *Cluster) {
	b, _ := json.Marshal(c.NS)
	var s string
	if json.Unmarshal(b, &s) != nil || s != c.NS {
		c.NS = "ns"
		for _, st := range c.St {
			st.B.(*clientB).ns = c.NS
		}
	}
}

func apiKind(acc bool) string {
	if acc {
		return "accurate"
	}
	return "fast"
}

// allState: everything stored on the nodes, in all namespaces.
func allState(c *Cluster) string {
	var b strings.Builder
	for i, nd := range c.Nodes {
		for _, ns := range nd.Srv.Table.Namespaces() {
			fmt.Fprintf(&b, "node%d %q: %s\n", i, ns, nsState(nd, ns))
		}
	}
	l := strings.Split(b.String(), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func apiCase(k *K) {
	n := apiNetwork()
	cfg := newCfg(mCos, []int{0, 3, 5, 20}[k.R.IntN(4)], 0)
	c := n.cluster(k, cfg, "", 0)
	jsonableNS(k, c)
	conds := c.mixConds()
	// data of another namespace must stay what it is
	other := "other " + c.NS
	for i, nd := range c.Nodes {
		if conds[i] != ncDown && conds[i] != ncRefuse {
			kmrpc.KMeansClient(nd.Addr, other, nil).AddDataPoint(c.Reg.New(k.R, c.VG.Vec(), "plain"))
		}
	}
	oState := func() (s string) {
		for _, nd := range c.Nodes {
			s += nsState(nd, other) + "|"
		}
		return
	}
	o0 := oState()
	sig := fmt.Sprint(conds)
	for i := 0; i < 8; i++ {
		acc := k.R.IntN(2) == 0
		kind := apiKind(acc)
		if k.R.IntN(2) == 0 { // put
			class := "live"
			if k.R.IntN(6) == 0 {
				class = []string{"expired", "zero"}[k.R.IntN(2)]
			}
			dp := c.St[0].newDP(class)
			pre := c.snap()
			st, err := n.api.put(c.NS, acc, dp)
			post := c.snap()
			k.Op("PUT accurate=%v %s expired=%v: %d %v", acc, sid(idOf(dp)), isExpired(dp), st, err)
			if err != nil {
				k.Fail("put request got no answer: %v", err)
			}
			ok := st == 200
			if !ok && st < 400 {
				k.Fail("put request answered with status %d", st)
			}
			at, cnt := -1, 0
			for j, s := range post.N {
				if x := s.ids()[idOf(dp)]; x > 0 {
					at, cnt = j, cnt+x
				}
			}
			if ok && cnt != 1 || !ok && cnt != 0 {
				k.Fail("put request answered %d, the point is stored %d times", st, cnt)
			}
			a, b := pre.ids(), post.ids()
			for id := range b {
				if a[id] != b[id] && id != idOf(dp) {
					k.Fail("put request changed where other points are")
				}
			}
			if len(filterOut(diffIDs(a, b), pre.expired())) > 0 {
				k.Fail("put request removed points")
			}
			elig, any := map[int]float64{}, map[int]bool{}
			best := math.Inf(-1)
			for j, cd := range conds {
				if cd == ncDown || cd == ncRefuse || isExpired(dp) || !takes(pre.N[j], len(dp.Vec)) {
					continue
				}
				any[j] = true
				if sc, o := nodeScore(pre.N[j], kind, dp.Vec, cfg.metric); o {
					elig[j] = sc
					best = math.Max(best, sc)
				}
			}
			if ok != (len(any) > 0) {
				k.Fail("put request answered %d; nodes that would take the point: %v (%s)", st, any, pre.shape())
			}
			if ok && !any[at] {
				k.Fail("put request stored the point on node %d, which should not take it", at)
			}
			if ok && len(elig) > 0 {
				if sc, in := elig[at]; !in || sc < best-1e-10 {
					k.Fail("put request (accurate=%v) stored the point on node %d; similarities %v", acc, at, elig)
				}
			}
			c.contentOK(post, "put request")
			k.Count(fmt.Sprintf("puts:%s:%d", kind, st), 1)
			sig += fmt.Sprint("p", acc, at)
			continue
		}
		if k.R.IntN(6) == 0 {
			c.St[k.R.IntN(len(c.St))].flipExpired(0.3)
		}
		drain := k.R.IntN(3) == 0
		q := c.VG.Vec()
		sig += getStep(k, c, conds, n.use, kind, drain, q, func(nn int) []DP {
			st, out, body, err := n.api.query(c.NS, acc, q, nn, drain)
			k.Op("QUERY accurate=%v n=%d drain=%v: %d, %d points", acc, nn, drain, st, len(out))
			if err != nil {
				k.Fail("query request: %v (%.100q)", err, body)
			}
			if st != 200 {
				k.Fail("query request answered with status %d", st)
			}
			return out
		})
	}
	if o0 != oState() {
		k.Fail("requests on namespace %.20q changed namespace %.20q", c.NS, other)
	}
	k.Sig(sig)
	k.Sample("requests", 1, tail(k.Ops(), 10))
}

func floatBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func hardFloat(r *rand.Rand) float64 {
	switch r.IntN(9) {
	case 0:
		return math.Copysign(0, -1)
	case 1:
		return math.SmallestNonzeroFloat64 * float64(1+r.IntN(5))
	case 2:
		return 0.1 + float64(r.IntN(10))
	case 3:
		return float64(r.IntN(1<<30)) * 1e15
	case 4:
		return -r.Float64()
	case 5:
		return 1e150 * r.Float64()
	case 6:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && math.Abs(f) < 1e150 {
				return f
			}
		}
	default:
		return r.NormFloat64()
	}
}

// zoneMin: an offset in minutes. One minute west is left out: Go's binary encoding of
// times, which RPC uses, has no representation for it.
func zoneMin(r *rand.Rand) int {
	if m := r.IntN(1400) - 700; m != -1 {
		return m
	}
	return 0
}

func briefDPs(ds ...DP) string {
	var b strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&b, "{%v (%d) payload %.100x (%d bytes) expires %v %v} ", d.Vec[:min(len(d.Vec), 20)], len(d.Vec), d.Payload[:min(len(d.Payload), 100)], len(d.Payload), d.Expires, d.ExpireEnabled)
	}
	return b.String()
}

// faithCase: what is put is what is stored and what a query returns, bit for bit.
func faithCase(k *K) {
	n := apiNetwork()
	large := k.Part == "large"
	dim, pts := 1+k.R.IntN(6), 1+k.R.IntN(4)
	if large {
		switch k.Idx % 3 {
		case 1:
			dim = 20000 + k.R.IntN(100000)
			if k.R.IntN(2) == 0 { // more points than nodes
				dim, pts = 1100+k.R.IntN(9000), 5+k.R.IntN(6)
			}
		case 2:
			pts = 200 + k.R.IntN(600)
			if k.Idx == 2 {
				pts = 4100 + k.R.IntN(500)
			}
		}
	}
	c := n.cluster(k, newCfg(mCos, 0, 0), "gauss", dim)
	jsonableNS(k, c)
	down := k.R.IntN(4)
	for i := 0; i < down; i++ {
		c.Nodes[k.R.IntN(3)].Down()
	}
	var want []DP
	for i := 0; i < pts; i++ {
		k.Beat()
		d := DP{Vec: make([]float64, c.VG.Dim)}
		for j := range d.Vec {
			d.Vec[j] = hardFloat(k.R)
		}
		switch k.R.IntN(4) {
		case 0:
		case 1:
			d.Payload = []byte{}
		default:
			d.Payload = make([]byte, 1+logInt(k.R, 5000))
			for j := range d.Payload {
				d.Payload[j] = byte(k.R.Uint32())
			}
		}
		if large && k.Idx%3 == 0 {
			d.Payload = make([]byte, 1<<20+k.R.IntN(10<<20))
			for j := 0; j < len(d.Payload); j += 1 + k.R.IntN(100) {
				d.Payload[j] = byte(k.R.Uint32())
			}
		}
		k.Max("largest_payload", int64(len(d.Payload)))
		// a time anywhere between years 2 and 9998, in any zone
		t := time.Date(2+k.R.IntN(9996), time.Month(1+k.R.IntN(12)), 1+k.R.IntN(28), k.R.IntN(24), k.R.IntN(60), k.R.IntN(60), k.R.IntN(1e9), time.FixedZone("", zoneMin(k.R)*60))
		d.Expires = t
		d.ExpireEnabled = t.Year() > 2300 && k.R.IntN(2) == 0
		if k.R.IntN(8) == 0 {
			d.Expires, d.ExpireEnabled = time.Time{}, false
		}
		if pts > 4000 && i > 200 { // quicker, to the node that is always there
			if !kmrpc.KMeansClient(c.Nodes[3].Addr, c.NS, nil).AddDataPoint(cloneDP(d)) {
				k.Fail("insert of an unexpired point into a node refused")
			}
			want = append(want, d)
			continue
		}
		st, err := n.api.put(c.NS, k.R.IntN(2) == 0, d)
		if err != nil || st != 200 {
			k.Fail("putting an unexpired point into a reachable network was answered %d (%v): %.2000s; before it: %.2000s", st, err, briefDPs(d), briefDPs(want...))
		}
		want = append(want, d)
	}
	match := func(got []DP, what string) {
		if len(got) != len(want) {
			k.Fail("%s: %d points, %d were put", what, len(got), len(want))
		}
		used := map[int]bool{}
	next:
		for _, g := range got {
			for i, w := range want {
				if !used[i] && floatBits(w.Vec, g.Vec) && string(w.Payload) == string(g.Payload) && w.Expires.Equal(g.Expires) && w.ExpireEnabled == g.ExpireEnabled {
					used[i] = true
					continue next
				}
			}
			k.Fail("%s: point %.2000s is none of those put: %.2000s", what, briefDPs(g), briefDPs(want...))
		}
	}
	var stored []DP
	for _, nd := range c.Nodes {
		nd.Srv.Table.Access(c.NS, func(cm *CM) {
			for _, x := range cm.Centroids {
				for _, d := range x.DataPoints {
					stored = append(stored, cloneDP(d))
				}
			}
		})
	}
	match(stored, "stored")
	for _, drain := range []bool{false, true} {
		st, out, body, err := n.api.query(c.NS, k.R.IntN(2) == 0, c.VG.Vec(), len(want)+k.R.IntN(3), drain)
		if st != 200 || err != nil {
			k.Fail("query answered %d (%v, %.100q)", st, err, body)
		}
		match(out, fmt.Sprintf("query (drain=%v)", drain))
	}
	st, out, _, _ := n.api.query(c.NS, true, c.VG.Vec(), 10, false)
	if st != 200 || len(out) != 0 {
		k.Fail("after a drain of everything, a query was answered %d with %d points", st, len(out))
	}
	k.Count("points_round_tripped", int64(len(want)))
	k.Sig(fmt.Sprint(c.VG.Dim, len(want), down, want[0].Vec, want[0].Expires.UnixNano()))
	k.Sample("round trip", 1, fmt.Sprint(want[0].Vec, len(want[0].Payload), want[0].Expires))
}

// omittedCase: requests may leave fields out. What they leave out has its zero value,
// whatever other requests (also failing ones) said before.
func omittedCase(k *K) {
	n := apiNetwork()
	c := n.cluster(k, newCfg(mCos, 0, 0), "gauss", 3)
	jsonableNS(k, c)
	var want []DP
	stored := func() []DP {
		var l []DP
		for _, nd := range c.Nodes {
			nd.Srv.Table.Access(c.NS, func(cm *CM) {
				for _, x := range cm.Centroids {
					for _, d := range x.DataPoints {
						l = append(l, cloneDP(d))
					}
				}
			})
		}
		return l
	}
	check := func(got []DP, what string, all bool) {
		used := map[int]bool{}
	next:
		for _, g := range got {
			for i, w := range want {
				if !used[i] && floatBits(w.Vec, g.Vec) && string(w.Payload) == string(g.Payload) && w.Expires.Equal(g.Expires) && w.ExpireEnabled == g.ExpireEnabled {
					used[i] = true
					continue next
				}
			}
			k.Fail("%s: point %.2000s is none of those put: %.2000s", what, briefDPs(g), briefDPs(want...))
		}
		if all && len(got) != len(want) {
			k.Fail("%s: %d points, %d were put", what, len(got), len(want))
		}
	}
	var sig []string
	for i := 0; i < 6+k.R.IntN(10); i++ {
		k.Beat()
		if len(want) > 0 && k.R.IntN(3) == 0 { // a query that leaves fields out
			m := map[string]any{"namespace": c.NS, "queryVec": c.VG.Vec()}
			due, drain := 0, false
			if k.R.IntN(4) != 0 {
				m["n"], due = 100, len(want)
			}
			switch k.R.IntN(3) {
			case 0:
				m["drain"] = false
			case 1:
				m["drain"], drain = true, true
			}
			if k.R.IntN(2) == 0 {
				m["accurate"] = k.R.IntN(2) == 0
			}
			b, _ := json.Marshal(m)
			st, body, err := n.api.post("/api/dp/query", b)
			var l []apiDP
			if err != nil || st != 200 || json.Unmarshal(body, &l) != nil {
				k.Fail("the query %s was answered %d (%v, %.200q)", b, st, err, body)
			}
			var got []DP
			for _, d := range l {
				got = append(got, d.dp())
			}
			if len(got) != due {
				k.Fail("the query %s (step %d) was answered with %d points where %d are due: %d are stored", b, i, len(got), due, len(want))
			}
			check(got, fmt.Sprintf("answer to the query %s", b), due > 0)
			if drain && due > 0 {
				want = nil
			}
			sig = append(sig, fmt.Sprint("q", due, drain))
			check(stored(), fmt.Sprintf("stored after the query %s (step %d)", b, i), true)
			continue
		}
		d := DP{Vec: c.VG.Vec()}
		dp := map[string]any{"vec": d.Vec}
		m := map[string]any{"namespace": c.NS, "dp": dp}
		bits := k.R.IntN(32)
		if bits&1 != 0 {
			d.Payload = []byte(fmt.Sprintf("payload %d of some length %s", i, strings.Repeat("x", k.R.IntN(20))))
			dp["payload"] = d.Payload
		}
		if bits&2 != 0 {
			d.Expires = time.Date(2500+k.R.IntN(7000), 1, 1+k.R.IntN(28), 1, 2, 3, k.R.IntN(1e9), time.UTC)
			dp["expires"] = d.Expires
			if bits&4 != 0 {
				d.ExpireEnabled = true
				dp["expireEnabled"] = true
			}
		}
		if bits&8 != 0 {
			m["accurate"] = bits&16 != 0
		}
		if k.R.IntN(6) == 0 { // one that names fields but is no request
			b, _ := json.Marshal(map[string]any{"namespace": c.NS, "accurate": true, "dp": map[string]any{"vec": c.VG.Vec(), "payload": []byte("left over"), "expires": time.Now().Add(-time.Hour), "expireEnabled": true}, "drain": true, "n": 1000, "queryVec": c.VG.Vec()})
			path := []string{"/api/dp/put", "/api/dp/query"}[k.R.IntN(2)]
			if st, _, err := n.api.post(path, b[:len(b)-1]); err != nil || st != 400 {
				k.Fail("a malformed request was answered %d (%v)", st, err)
			}
		}
		b, _ := json.Marshal(m)
		if st, body, err := n.api.post("/api/dp/put", b); err != nil || st != 200 {
			k.Fail("putting an unexpired point into a reachable network (%s, step %d) was answered %d (%v, %.100q)", b, i, st, err, body)
		}
		want = append(want, d)
		sig = append(sig, fmt.Sprint("p", bits))
		check(stored(), fmt.Sprintf("stored after the put %s (step %d)", b, i), true)
		k.Count("requests_with_fields_left_out", 1)
	}
	k.Sig(strings.Join(sig, " "))
}

// farTimesCase: points stored by other clients than the API's may expire at times that
// are awkward or impossible to write in JSON. Queries still return those points.
func farTimesCase(k *K) {
	n := apiNetwork()
	c := n.cluster(k, newCfg(mCos, []int{0, 3}[k.R.IntN(2)], 0), "gauss", 2)
	nd := c.Nodes[3]
	var want []DP
	for i := 0; i < 1+k.R.IntN(8); i++ {
		d := DP{Vec: c.VG.Vec(), Payload: []byte(fmt.Sprint("p", i))}
		y := []int{10000 + k.R.IntN(5), 10000 + k.R.IntN(1000000), -1 - k.R.IntN(3000), 0, 9999, 2500 + k.R.IntN(7000), 1 + k.R.IntN(1900)}[k.R.IntN(7)]
		off := []int{0, zoneMin(k.R) * 60, k.R.IntN(40000) - 20000, []int{24, 25, 30, -24, -30}[k.R.IntN(5)] * 3600}[k.R.IntN(4)]
		d.Expires = time.Date(y, time.Month(1+k.R.IntN(12)), 1+k.R.IntN(28), k.R.IntN(24), k.R.IntN(60), k.R.IntN(60), k.R.IntN(1e9), time.FixedZone("", off))
		if y == 9999 || y == 0 {
			d.Expires = time.Date(y, []time.Month{1, 12}[k.R.IntN(2)], []int{1, 31}[k.R.IntN(2)], []int{0, 23}[k.R.IntN(2)], 30, 0, 0, time.FixedZone("", off))
		}
		d.ExpireEnabled = y > 2300 && k.R.IntN(2) == 0
		if !kmrpc.KMeansClient(nd.Addr, c.NS, nil).AddDataPoint(cloneDP(d)) {
			k.Fail("insert of an unexpired point into a node refused")
		}
		want = append(want, d)
	}
	same := func(w, g time.Time) bool {
		switch y := w.UTC().Year(); {
		case w.Equal(g):
			return true
		case y > 9999:
			return g.UTC().Year() == 9999
		case y < 0:
			return g.UTC().Year() == 0
		}
		return false
	}
	for _, drain := range []bool{false, true} {
		st, out, body, err := n.api.query(c.NS, k.R.IntN(2) == 0, c.VG.Vec(), len(want)+k.R.IntN(3), drain)
		if st != 200 || err != nil {
			k.Fail("a query (drain=%v) for points of which some expire at unusual times (%s) was answered %d (%v, %.100q)", drain, briefDPs(want...), st, err, body)
		}
		if len(out) != len(want) {
			k.Fail("a query (drain=%v) returned %d of %d points", drain, len(out), len(want))
		}
		for _, w := range want {
			ok := false
			for _, g := range out {
				ok = ok || string(g.Payload) == string(w.Payload) && floatBits(w.Vec, g.Vec) && w.ExpireEnabled == g.ExpireEnabled && same(w.Expires, g.Expires)
			}
			if !ok {
				k.Fail("a query (drain=%v): point %s is not among the points returned: %s", drain, briefDPs(w), briefDPs(out...))
			}
		}
	}
	k.Count("points_with_unusual_times", int64(len(want)))
	k.Sig(fmt.Sprint("times", len(want), want[0].Expires.Unix()))
}

func badBodies(r *rand.Rand, good string) []string {
	b := []string{"", " ", "{", "}", "[", "nonsense", "'", `{"namespace"}`, `{"namespace":}`, `{"namespace":"x",}`, `{namespace:"x"}`,
		good + "x", good + good, good + "}", "\x00" + good, good[:len(good)-1], `{"n":NaN}`, `{"dp":{"vec":[1,2}}`, `{"queryVec":[1,,2]}`, `{"n":01}`, `{"drain":True}`, `{"dp":{"vec":[1 2]}}`, strings.Repeat("[", 2000), "\xff\xfe"}
	for i := 0; i < 6; i++ {
		b = append(b, good[:1+r.IntN(len(good)-1)])
	}
	for i := 0; i < 3; i++ { // a structural character doubled
		j := r.IntN(len(good))
		if strings.ContainsRune(`{}[],:`, rune(good[j])) {
			b = append(b, good[:j]+string(good[j])+good[j:])
		}
	}
	var out []string
	for _, x := range b {
		if !json.Valid([]byte(x)) {
			out = append(out, x)
		}
	}
	return out
}

// wrongTypes: valid JSON whose fields are of other types than documented.
var wrongTypes = []string{`{"namespace":5}`, `{"accurate":"yes"}`, `{"n":"3","queryVec":[1,2]}`, `{"n":1.5,"queryVec":[1,2]}`, `{"n":1e30}`, `{"queryVec":"abc"}`, `{"queryVec":[1,"b"]}`,
	`{"dp":{"vec":[1e999,1]}}`, `{"dp":{"payload":"***"}}`, `{"dp":{"expires":"yesterday"}}`, `{"dp":{"expireEnabled":1}}`, `{"dp":[]}`, `[]`, `"x"`, `7`}

func malformedCase(k *K) {
	n := apiNetwork()
	c := n.cluster(k, newCfg(mCos, 3, 0), "gauss", 2)
	for _, st := range c.St {
		st.populate(randSizes(k, 3, 5), false)
	}
	before := allState(c)
	send := func(path, body, what string, want int) {
		st, resp, err := n.api.post(path, []byte(body))
		if err != nil {
			k.Fail("%s to %s got no answer: %v (%.80q)", what, path, err, body)
		}
		if want != 0 && st != want || want == 0 && st == 200 {
			k.Fail("%s to %s was answered %d: %.80q (answer %.60q)", what, path, st, body, resp)
		}
		if s := allState(c); s != before {
			k.Op("body %.300q", body)
			k.Fail("%s to %s changed what is stored", what, path)
		}
		k.Count("bad_requests:"+what, 1)
	}
	good := map[string]string{}
	g1, _ := json.Marshal(map[string]any{"namespace": c.NS, "accurate": true, "dp": toAPIDP(DP{Vec: []float64{1, 2}, Payload: []byte("12345678")})})
	g2, _ := json.Marshal(map[string]any{"namespace": c.NS, "accurate": true, "queryVec": []float64{1, 2}, "n": 3, "drain": true})
	good["/api/dp/put"], good["/api/dp/query"] = string(g1), string(g2)
	for path, g := range good {
		for _, b := range badBodies(k.R, g) {
			send(path, b, "malformed JSON", 400)
			k.Sig(path + b)
		}
	}
	for _, b := range wrongTypes {
		if strings.Contains(b, "dp") || !strings.HasPrefix(b, "{") || strings.Contains(b, "namespace") {
			send("/api/dp/put", b, "wrongly typed JSON", 0)
		}
		if !strings.Contains(b, "dp") {
			send("/api/dp/query", b, "wrongly typed JSON", 0)
		}
	}
	// a body that ends before its announced length
	for path, g := range good {
		host := strings.TrimPrefix(n.api.url, "http://")
		cn, err := net.Dial("tcp", host)
		if err != nil {
			k.Fail("the API does not accept connections: %v", err)
		}
		cut := g[:len(g)-1-k.R.IntN(len(g)/2)]
		fmt.Fprintf(cn, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", path, len(g), cut)
		cn.(*net.TCPConn).CloseWrite()
		cn.SetReadDeadline(time.Now().Add(20 * time.Second))
		io.ReadAll(cn)
		cn.Close()
		if allState(c) != before {
			k.Fail("a truncated body sent to %s changed what is stored", path)
		}
		k.Count("bad_requests:truncated body", 1)
	}
}

// concAPICase: concurrent requests; every acknowledged point is stored once or was
// returned by one draining query.
func concAPICase(k *K) {
	n := apiNetwork()
	c := n.cluster(k, newCfg(mCos, []int{0, 3, 8}[k.R.IntN(3)], 0), "gauss", 3)
	jsonableNS(k, c)
	var mu sync.Mutex
	ack, rej, got := map[uint64]bool{}, map[uint64]bool{}, map[uint64]int{}
	var wg sync.WaitGroup
	var viol string
	for w := 0; w < 4+k.R.IntN(5); w++ {
		r := rand.New(rand.NewPCG(k.R.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			vg := newVG(r, 3, "gauss")
			for i := 0; i < 15; i++ {
				k.Beat()
				if r.IntN(5) < 3 {
					mu.Lock()
					dp := c.Reg.New(r, vg.Vec(), "live")
					mu.Unlock()
					st, err := n.api.put(c.NS, r.IntN(2) == 0, dp)
					mu.Lock()
					if err != nil {
						viol = fmt.Sprintf("put request got no answer: %v", err)
					} else if st == 200 {
						ack[idOf(dp)] = true
					} else {
						rej[idOf(dp)] = true
					}
					mu.Unlock()
				} else {
					drain := r.IntN(2) == 0
					st, out, _, err := n.api.query(c.NS, r.IntN(2) == 0, vg.Vec(), 1+r.IntN(5), drain)
					mu.Lock()
					if err != nil || st != 200 {
						viol = fmt.Sprintf("query request: %d %v", st, err)
					}
					for _, d := range out {
						if e := c.Reg.same(d); e != "" {
							viol = "query returned an altered point: " + e
						}
						if drain {
							got[idOf(d)]++
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if viol != "" {
		k.Fail("%s", viol)
	}
	s := c.snap()
	ids := s.ids()
	for id := range ack {
		if x := ids[id] + got[id]; x != 1 {
			k.Fail("%s was acknowledged with status 200 and is stored %d times and was returned by %d draining queries", sid(id), ids[id], got[id])
		}
	}
	for id := range rej {
		k.Fail("%s was refused though every node is reachable (stored %d times)", sid(id), ids[id])
	}
	c.contentOK(s, "concurrent requests")
	k.Count("concurrent_requests_accounted", int64(len(ack)))
	k.Sig(fmt.Sprint("conc", s.shape(), len(ack), len(got)))
}

// ---- the service program itself ----

func portFree(p string) bool {
	for _, h := range []string{"127.0.0.1:", "localhost:"} {
		ln, err := net.Listen("tcp", h+p)
		if err != nil {
			return false
		}
		ln.Close()
	}
	return true
}

type svcProc struct {
	cmd *exec.Cmd
	api *apiFix
	out capBuf
	end chan struct{}
}

func startSvc(k *K) *svcProc {
	if svcBin == "" || !portFree("3500") || !portFree("3501") {
		k.Count("service_not_started_ports_in_use", 1)
		return nil
	}
	s := &svcProc{cmd: exec.Command(svcBin), end: make(chan struct{})}
	s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.out
	s.cmd.Env = []string{"PATH=/usr/bin:/bin", "TERM=dumb", "HOME=" + scratch}
	s.cmd.Dir = scratch
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { s.cmd.Wait(); close(s.end) }()
	s.api = &apiFix{url: "http://localhost:3501", cl: &http.Client{Timeout: 30 * time.Second}}
	for i := 0; ; i++ {
		r, err := s.api.cl.Get(s.api.url + "/")
		if err == nil {
			r.Body.Close()
			return s
		}
		if s.ended() || i > 1000 {
			s.stop()
			k.Fail("the service does not answer on its API address: %v\n%s", err, tailStr(s.out.String(), 2000))
		}
		time.Sleep(20 * time.Millisecond)
		k.Beat()
	}
}

func (s *svcProc) ended() bool {
	select {
	case <-s.end:
		return true
	default:
		return false
	}
}

func (s *svcProc) stop() { s.cmd.Process.Kill(); <-s.end }

// serviceCase: the program as shipped, over HTTP and RPC, for some event loop steps.
func serviceCase(k *K) {
	s := startSvc(k)
	if s == nil {
		return
	}
	defer s.stop()
	reg := newReg()
	vg := newVG(k.R, 4, "gauss")
	rpcAddr := "localhost:3500"
	held := map[string]map[uint64]bool{"a": {}, "b": {}}
	total := func() {
		for ns, m := range held {
			var err error
			if l := kmrpc.KMeansClient(rpcAddr, ns, &err).LenDP(); l != len(m) && (len(m) > 0 || l != 0) {
				k.Fail("service: namespace %q holds %d points, %d are due (%v)", ns, l, len(m), err)
			}
		}
	}
	until := time.Now().Add(time.Duration(k.N(22, 120)) * time.Second)
	for round := 0; time.Now().Before(until); round++ {
		k.Beat()
		if s.ended() {
			k.Fail("the service ended by itself:\n%s", tailStr(s.out.String(), 4000))
		}
		ns := []string{"a", "b"}[k.R.IntN(2)]
		acc := k.R.IntN(2) == 0
		switch k.R.IntN(4) {
		case 0, 1:
			dp := reg.New(k.R, vg.Vec(), "live")
			st, err := s.api.put(ns, acc, dp)
			if st != 200 || err != nil {
				k.Fail("service: put answered %d (%v)", st, err)
			}
			held[ns][idOf(dp)] = true
		case 2:
			dp := reg.New(k.R, vg.Vec(), "expired")
			if st, err := s.api.put(ns, acc, dp); st == 200 || err != nil {
				k.Fail("service: put of an expired point answered %d (%v)", st, err)
			}
		case 3:
			drain := k.R.IntN(3) == 0
			n := 1 + k.R.IntN(6)
			st, out, _, err := s.api.query(ns, acc, vg.Vec(), n, drain)
			if st != 200 || err != nil {
				k.Fail("service: query answered %d (%v)", st, err)
			}
			if len(out) != min(n, len(held[ns])) {
				k.Fail("service: query for %d of %d points returned %d", n, len(held[ns]), len(out))
			}
			for _, d := range out {
				if e := reg.same(d); e != "" {
					k.Fail("service: %s", e)
				}
				if !held[ns][idOf(d)] {
					k.Fail("service: query returned %s, which is not held in %q (drained before, or elsewhere)", sid(idOf(d)), ns)
				}
				if drain {
					delete(held[ns], idOf(d))
				}
			}
		}
		total()
		k.Count("service_requests", 1)
		if st, _, err := s.api.post("/api/dp/put", []byte(`{"namespace":`)); st != 400 || err != nil {
			k.Fail("service: malformed JSON answered %d (%v)", st, err)
		}
		time.Sleep(20 * time.Millisecond)
	}
	log := s.out.String()
	k.Count("service_log_bytes", int64(len(log)))
	k.Sig("service")
}

// refuseCase: without a list of node addresses, or on an address that is taken, the
// API does not start but says so.
func refuseCase(k *K) {
	n := apiNetwork()
	taken := strings.TrimPrefix(n.api.url, "http://")
	_, tp, _ := net.SplitHostPort(taken)
	free := freePort()
	type end struct {
		err error
		pan any
	}
	ch := make(chan end, 1)
	go func() {
		var e end
		defer func() { e.pan = recover(); ch <- e }()
		e.err = api.Start(api.APIConfig{Addr: toAddr("127.0.0.1", []string{free, tp}[k.Idx%2])})
	}()
	select {
	case e := <-ch:
		if e.pan != nil {
			k.Fail("starting an API without node addresses panics: %v", e.pan)
		}
		if e.err == nil {
			k.Fail("starting an API without node addresses ends without an error")
		}
		k.Op("start without addresses: %v", e.err)
	case <-time.After(20 * time.Second):
		k.Fail("an API without node addresses starts")
	}
	if c, err := net.DialTimeout("tcp", "127.0.0.1:"+free, time.Second); err == nil {
		c.Close()
		k.Fail("an API whose start failed still listens")
	}
	k.Count("refused_starts", 1)
	k.Sig(fmt.Sprint("refused", k.Idx))
}

func init() {
	reg(&Prop{ID: "C21", Level: "exploration", Min: 150, Svc: true,
		Assume: []string{"instants outside of the years 0-9999, which JSON times do not have, may be answered as any instant of the nearest of those years", "one API server per process: its routes are registered globally"},
		Rule:   "put and query requests (accurate or not, drain or not, namespaces, expired points) against a network of four nodes in varied conditions plus a dead and a repeated address, judged against the recorded stores; bit-exact round trips, also of payloads of up to 11 MB, 120000 components and hundreds of points; malformed bodies; concurrent requests; the service program end to end; distinct by conditions and outcomes",
		Run: func(r *Run) {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { defer wg.Done(); r.Cases("service", 1, 1, serviceCase) }()
			r.Cases("requests", r.N(1400, 20000), 1, apiCase)
			r.Cases("faithful", r.N(1200, 20000), 1, faithCase)
			r.Cases("equal", r.N(150, 3000), 1, twinAPI)
			r.Cases("omitted", r.N(200, 6000), 1, omittedCase)
			r.Cases("large", r.N(12, 150), 1, faithCase)
			r.Cases("times", r.N(60, 1000), 1, farTimesCase)
			r.Cases("malformed", r.N(12, 200), 1, malformedCase)
			r.Cases("concurrent", r.N(40, 1000), 1, concAPICase)
			r.Cases("refused", 2, 1, refuseCase)
			wg.Wait()
		}})
}
