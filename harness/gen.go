package main

// Generators: vectors, data points, populations.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"sync/atomic"
	"time"

	"trypo/pkg/kmeans/common"
)

type DP = common.DataPoint

var (
	farFuture = time.Date(2999, 1, 1, 0, 0, 0, 0, time.UTC)
	longPast  = time.Date(2001, 2, 3, 4, 5, 6, 789, time.UTC)
)

// VG makes vectors of one dimension in one style.
type VG struct {
	R       *rand.Rand
	Dim     int
	Fam     string
	Scale   float64
	centers [][]float64
	pool    [][]float64
}

var fams = []string{"gauss", "ints", "axis", "clusters", "dups", "antipodal", "positive", "mixed", "zeros"}
var famsPlain = []string{"gauss", "clusters", "positive"}

func newVG(r *rand.Rand, dim int, fam string) *VG {
	if fam == "" {
		fam = fams[r.IntN(len(fams))]
	}
	if dim <= 0 {
		dim = pickDim(r)
	}
	g := &VG{R: r, Dim: dim, Fam: fam, Scale: []float64{1, 1, 1, 1e-3, 1e3, 100}[r.IntN(6)]}
	nc := 1 + r.IntN(6)
	for i := 0; i < nc; i++ {
		g.centers = append(g.centers, g.gauss(g.Scale))
	}
	for i := 0; i < 1+r.IntN(5); i++ {
		g.pool = append(g.pool, g.gauss(g.Scale))
	}
	return g
}

func pickDim(r *rand.Rand) int {
	switch x := r.IntN(400); {
	case x == 0:
		return bigDim(r)
	case x < 8:
		return 1 + r.IntN(300)
	}
	return []int{1, 2, 2, 2, 3, 3, 3, 4, 5, 8, 8, 16, 33, 64}[r.IntN(14)]
}

// bigDim: up to a few thousand components, of any number.
func bigDim(r *rand.Rand) int {
	return int(64*math.Exp(r.Float64()*math.Log(40))) + 1
}

// mathDim: for checks of the vector functions alone.
func mathDim(r *rand.Rand) int {
	if r.IntN(25) == 0 {
		return bigDim(r)
	}
	return 0
}

func (g *VG) gauss(s float64) []float64 {
	v := make([]float64, g.Dim)
	for i := range v {
		v[i] = clampv(g.R.NormFloat64() * s)
	}
	return v
}

// clampv keeps components zero or of ordinary magnitude.
func clampv(x float64) float64 {
	if math.Abs(x) < 1e-9 {
		return 0
	}
	return x
}

func (g *VG) Vec() []float64 {
	r := g.R
	v := make([]float64, g.Dim)
	switch g.Fam {
	case "gauss":
		return g.gauss(g.Scale)
	case "ints":
		for i := range v {
			v[i] = float64(r.IntN(7) - 3)
			if v[i] == 0 && r.IntN(2) == 0 {
				v[i] = math.Copysign(0, -1)
			}
		}
	case "axis":
		v[r.IntN(g.Dim)] = []float64{1, -1, 2, 0.5}[r.IntN(4)] * g.Scale
	case "clusters":
		c := g.centers[r.IntN(len(g.centers))]
		for i := range v {
			v[i] = clampv(c[i] + r.NormFloat64()*0.05*g.Scale)
		}
	case "dups":
		copy(v, g.pool[r.IntN(len(g.pool))])
	case "antipodal":
		copy(v, g.pool[r.IntN(len(g.pool))])
		if r.IntN(2) == 0 {
			for i := range v {
				v[i] = -v[i]
			}
		}
	case "positive":
		for i := range v {
			v[i] = clampv(r.Float64() * g.Scale)
		}
	case "mixed":
		for i := range v {
			v[i] = clampv(r.NormFloat64() * math.Pow(10, float64(r.IntN(5)-2)))
		}
	case "extreme":
		// finite, but with squares or sums that need not be
		m := []float64{math.MaxFloat64, 1e308, 1e200, 1e155, 1, 1e-155, 1e-200, 1e-308, math.SmallestNonzeroFloat64}
		one := m[r.IntN(len(m))]
		for i := range v {
			s := one
			if r.IntN(4) == 0 {
				s = m[r.IntN(len(m))]
			}
			v[i] = s * (2*r.Float64() - 1)
			if r.IntN(6) == 0 {
				v[i] = []float64{0, s, -s}[r.IntN(3)]
			}
		}
	case "zeros":
		if r.IntN(3) != 0 {
			for i := range v {
				v[i] = float64(r.IntN(3) - 1)
				if v[i] == 0 && r.IntN(4) == 0 {
					v[i] = math.Copysign(0, -1)
				}
			}
		}
	default:
		panic("fam " + g.Fam)
	}
	return v
}

// logInt: 0..max, favouring small values, but reaching max.
func logInt(r *rand.Rand, max int) int {
	if max <= 0 {
		return 0
	}
	if r.IntN(12) == 0 {
		return 0
	}
	x := math.Exp(r.Float64() * math.Log(float64(max)+1))
	n := int(x)
	if n > max {
		n = max
	}
	return n
}

var idCounter atomic.Uint64

// Reg remembers what every data point must look like.
type Reg struct {
	dps  map[uint64]DP
	next uint64
	base uint64

	vecs []float64 // arenas the points handed out live in
	pls  []byte
}

// handOut copies a data point for the code under test. The copies lie next to
// each other and have room to grow into the next one, as the slices of a caller
// who cuts them from one buffer: writing past or into one shows as an alteration.
func (g *Reg) handOut(dp DP) DP {
	if n := len(dp.Vec); n > 0 {
		if cap(g.vecs)-len(g.vecs) < n {
			g.vecs = make([]float64, 0, max(256, 4*n))
		}
		o := len(g.vecs)
		g.vecs = append(g.vecs, dp.Vec...)
		dp.Vec = g.vecs[o : o+n]
	} else {
		dp.Vec = cloneVec(dp.Vec)
	}
	n := len(dp.Payload)
	if cap(g.pls)-len(g.pls) < n {
		g.pls = make([]byte, 0, max(1024, 4*n))
	}
	o := len(g.pls)
	g.pls = append(g.pls, dp.Payload...)
	dp.Payload = g.pls[o : o+n]
	return dp
}

func newReg() *Reg { return &Reg{dps: map[uint64]DP{}, base: idCounter.Add(1) << 32} }

func idOf(dp DP) uint64 {
	if len(dp.Payload) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(dp.Payload)
}

func sid(id uint64) string { return fmt.Sprintf("p%d", id&0xffffffff) }

func sids(ids []uint64) string {
	s := "["
	for i, x := range ids {
		if i == 40 {
			return s + fmt.Sprintf(" ...%d]", len(ids))
		}
		if i > 0 {
			s += " "
		}
		s += sid(x)
	}
	return s + "]"
}

func cloneVec(v []float64) []float64 {
	if v == nil {
		return nil
	}
	return append(make([]float64, 0, len(v)), v...)
}

func cloneDP(dp DP) DP {
	return DP{Vec: cloneVec(dp.Vec), Payload: append([]byte(nil), dp.Payload...), Expires: dp.Expires, ExpireEnabled: dp.ExpireEnabled}
}

// New makes a data point with a unique id in its payload, remembers it and
// returns a private copy to hand to the code under test.
func (g *Reg) New(r *rand.Rand, vec []float64, class string) DP {
	g.next++
	id := g.base | g.next
	pl := 8
	switch r.IntN(10) {
	case 0:
		pl += r.IntN(40)
	case 1:
		pl += logInt(r, 3000)
	}
	p := make([]byte, pl)
	binary.LittleEndian.PutUint64(p, id)
	for i := 8; i < pl; i++ {
		p[i] = byte(r.Uint32())
	}
	dp := DP{Vec: cloneVec(vec), Payload: p}
	switch class {
	case "plain":
	case "offpast": // expiry disabled, timestamp in the past
		dp.Expires = longPast
	case "future":
		dp.Expires, dp.ExpireEnabled = farFuture.Add(time.Duration(r.IntN(1e9))), true
	case "expired":
		dp.Expires, dp.ExpireEnabled = longPast.Add(time.Duration(r.IntN(1e9))), true
	case "zero": // enabled, zero time: expired
		dp.ExpireEnabled = true
	default: // "live": any unexpired class
		switch r.IntN(6) {
		case 0:
			dp.Expires = longPast
		case 1, 2:
			dp.Expires, dp.ExpireEnabled = farFuture.Add(time.Duration(r.IntN(1e9))), true
		case 3:
			dp.Expires = farFuture
		}
	}
	g.dps[id] = dp
	return g.handOut(dp)
}

// finite: no NaN and no infinity.
func finite(v []float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

func isExpired(dp DP) bool {
	return dp.ExpireEnabled && dp.Expires.Before(time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC))
}

// vecSame: equal as numbers.
func vecSame(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// vecBits: equal in every bit (but any NaN equals any other).
func vecBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}

// same compares a stored/returned point with the original; "" if equal.
func (g *Reg) same(dp DP) string {
	o, ok := g.dps[idOf(dp)]
	if !ok {
		return fmt.Sprintf("unknown data point (payload %x..)", trunc(dp.Payload, 16))
	}
	return dpDiff(o, dp)
}

func dpDiff(o, dp DP) string {
	switch {
	case !vecBits(o.Vec, dp.Vec):
		return fmt.Sprintf("%s: vector changed from %v to %v", sid(idOf(o)), o.Vec, dp.Vec)
	case string(o.Payload) != string(dp.Payload):
		return fmt.Sprintf("%s: payload changed (len %d -> %d)", sid(idOf(o)), len(o.Payload), len(dp.Payload))
	case !o.Expires.Equal(dp.Expires):
		return fmt.Sprintf("%s: expiry time changed from %v to %v", sid(idOf(o)), o.Expires, dp.Expires)
	case o.ExpireEnabled != dp.ExpireEnabled:
		return fmt.Sprintf("%s: expiry flag changed to %v", sid(idOf(o)), dp.ExpireEnabled)
	}
	return ""
}

func trunc(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// ---- reference metrics (written independently of the code under test) ----

func refCos(a, b []float64) float64 {
	if len(a) != len(b) {
		return math.NaN()
	}
	var ma, mb float64
	for i := range a {
		ma = math.Max(ma, math.Abs(a[i]))
		mb = math.Max(mb, math.Abs(b[i]))
	}
	if ma == 0 || mb == 0 {
		return 0
	}
	var d, na, nb float64
	for i := range a {
		x, y := a[i]/ma, b[i]/mb
		d += x * y
		na += x * x
		nb += y * y
	}
	return d / math.Sqrt(na*nb)
}

func refEuc(a, b []float64) float64 {
	if len(a) != len(b) {
		return math.NaN()
	}
	var m float64
	for i := range a {
		m = math.Max(m, math.Abs(a[i]-b[i]))
	}
	if m == 0 {
		return 0
	}
	var s float64
	for i := range a {
		x := (a[i] - b[i]) / m
		s += x * x
	}
	return m * math.Sqrt(s)
}

// Metric: larger score = more similar.
type Metric struct {
	Name string
	Tol  func(scale float64) float64
	Sim  func(a, b []float64) float64
}

var mCos = Metric{"cos", func(float64) float64 { return 1e-9 }, refCos}
var mEuc = Metric{"euc", func(s float64) float64 { return 1e-9 * (s + 1e-9) }, func(a, b []float64) float64 { return -refEuc(a, b) }}

func refMean(vs [][]float64) []float64 {
	if len(vs) == 0 {
		return nil
	}
	m := make([]float64, len(vs[0]))
	for _, v := range vs {
		for i := range m {
			m[i] += v[i]
		}
	}
	for i := range m {
		m[i] /= float64(len(vs))
	}
	return m
}

func maxAbs(v []float64) float64 {
	m := 0.
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func near(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= tol) {
			return false
		}
	}
	return true
}
