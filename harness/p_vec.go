package main

// C11 (search functions) and C12 (vector mathematics).

import (
	"fmt"
	"math"
	"sort"

	"trypo/pkg/mathutils"
	"trypo/pkg/searchutils"
)

type searcher struct {
	name string
	f    searchFn
	ref  func(a, b []float64) float64
	desc bool // larger score is better
}

var searchers = []searcher{
	{"KNNCos", searchutils.KNNCos, refCos, true},
	{"KFNCos", searchutils.KFNCos, refCos, false},
	{"KNNEuc", searchutils.KNNEuc, refEuc, false},
	{"KFNEuc", searchutils.KFNEuc, refEuc, true},
}

// judgeSearch: idx must be the k best positions, best first (up to rounding ties).
func judgeSearch(s searcher, target []float64, vs [][]float64, k int, idx []int) string {
	type sc struct {
		i int
		v float64
	}
	var all []float64
	maxs := 0.
	for _, v := range vs {
		if len(v) == len(target) {
			x := s.ref(target, v)
			all = append(all, x)
			maxs = math.Max(maxs, math.Abs(x))
		}
	}
	tol := 1e-12 + 2e-13*maxs // well above rounding, well below what is generated
	if s.name == "KNNCos" || s.name == "KFNCos" {
		tol = 1e-12 + float64(len(target))*1e-15
	}
	want := k
	if want < 0 {
		want = 0
	}
	if want > len(all) {
		want = len(all)
	}
	if len(idx) != want {
		return fmt.Sprintf("returned %d positions, want %d", len(idx), want)
	}
	sort.Float64s(all)
	if s.desc {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	seen := map[int]bool{}
	for r, i := range idx {
		if i < 0 || i >= len(vs) {
			return fmt.Sprintf("position %d out of range", i)
		}
		if seen[i] {
			return fmt.Sprintf("position %d repeated", i)
		}
		seen[i] = true
		if len(vs[i]) != len(target) {
			return fmt.Sprintf("position %d has another dimension", i)
		}
		x := s.ref(target, vs[i])
		if !(math.Abs(x-all[r]) <= tol) {
			return fmt.Sprintf("rank %d: position %d scores %.17g, the true rank %d score is %.17g", r, i, x, r, all[r])
		}
	}
	return ""
}

func genOf(vs [][]float64) (func() ([]float64, bool), *int) {
	i := 0
	return func() ([]float64, bool) {
		if i >= len(vs) {
			return nil, false
		}
		i++
		return vs[i-1], true
	}, &i
}

func runSearch(k *K, s searcher, target []float64, vs [][]float64, kk int) {
	gen, _ := genOf(vs)
	t0 := cloneVec(target)
	idx := s.f(target, gen, kk)
	if e := judgeSearch(s, target, vs, kk, idx); e != "" {
		k.Op("%s target=%v k=%d vecs=%v -> %v", s.name, target, kk, vs, idx)
		k.Fail("%s: %s", s.name, e)
	}
	if !vecBits(t0, target) {
		k.Fail("%s modified the target vector", s.name)
	}
	k.Count("searches", 1)
}

func exhaustiveSearch(k *K) {
	// case index selects the target; all sequences up to length 4 over an alphabet
	alpha := [][]float64{{0, 0}, {1, 0}, {-1, 0}, {0, 2}, {1, 1}, {1}}
	target := [][]float64{{0, 0}, {1, 0}, {-1, 0}, {0, 2}, {1, 1}, {1}, {2, 1}, {}}[k.Idx]
	maxLen := k.N(4, 5)
	var seq [][]float64
	var rec func(d int)
	n := 0
	rec = func(d int) {
		for kk := -1; kk <= d+2; kk++ {
			for _, s := range searchers {
				runSearch(k, s, target, seq, kk)
				n++
			}
		}
		if d == maxLen {
			return
		}
		for _, v := range alpha {
			seq = append(seq, v)
			rec(d + 1)
			seq = seq[:len(seq)-1]
		}
		if n%1000 == 0 {
			k.Beat()
		}
	}
	rec(0)
	k.Sig(fmt.Sprint("exh", target))
	k.Count("exhaustive_searches", int64(n))
}

func randomSearch(k *K) {
	r := k.R
	g := newVG(r, mathDim(r), "")
	n := logInt(r, []int{5, 20, 60, 300}[r.IntN(4)])
	var vs [][]float64
	target := g.Vec()
	style := r.IntN(5)
	for i := 0; i < n; i++ {
		v := g.Vec()
		switch {
		case style == 1 && r.IntN(3) == 0: // other dimensions
			v = make([]float64, r.IntN(g.Dim+3))
			for j := range v {
				v[j] = r.NormFloat64()
			}
		case style == 2: // close together
			base := g.centers[0]
			for j := range v {
				v[j] = base[j] + r.NormFloat64()*1e-5*g.Scale
			}
		case style == 3 && i > 0 && r.IntN(3) == 0: // repeats, multiples and opposites
			p := vs[r.IntN(i)]
			f := []float64{1, 2, -1, 0.25}[r.IntN(4)]
			v = make([]float64, len(p))
			for j := range v {
				v[j] = p[j] * f
			}
		}
		vs = append(vs, v)
	}
	if r.IntN(6) == 0 && n > 0 {
		target = cloneVec(vs[r.IntN(n)])
	}
	keep := make([][]float64, n)
	for i := range vs {
		keep[i] = cloneVec(vs[i])
	}
	for _, s := range searchers {
		for _, kk := range []int{1, n, r.IntN(n + 3), []int{-1, -1 << 40, 0, 1 << 40, 2, 3}[r.IntN(6)]} {
			runSearch(k, s, target, vs, kk)
		}
	}
	for i := range vs {
		if !vecBits(vs[i], keep[i]) {
			k.Fail("a search modified vector %d of the sequence", i)
		}
	}
	k.Sig(fmt.Sprint(n, g.Dim, g.Fam, style))
	k.Sample("random", 2, map[string]any{"n": n, "dim": g.Dim, "family": g.Fam, "style": style})
}

// reusedBuffer: a sequence whose vectors are only valid until the next one is asked for.
// extremeSearch: scores may be out of range, no vector may get lost for that.
func extremeSearch(k *K) {
	g := newVG(k.R, mathDim(k.R), "extreme")
	n := logInt(k.R, 40)
	var vs [][]float64
	sum := make([]float64, g.Dim)
	for i := 0; i < n; i++ {
		v := g.Vec()
		switch k.R.IntN(8) {
		case 0:
			v = make([]float64, k.R.IntN(g.Dim+3))
		case 1: // as the vectors of centroids may become
			for j := range sum {
				sum[j] = v[j] * 4
			}
			v = cloneVec(sum)
		}
		vs = append(vs, v)
	}
	target := g.Vec()
	ok := true // all vectors finite
	same := 0
	for _, v := range vs {
		if len(v) == g.Dim {
			same++
			ok = ok && finite(v) && maxAbs(v) < 1e307
		}
	}
	ok = ok && maxAbs(target) < 1e307
	for _, s := range searchers {
		for _, kk := range []int{1, n, n + 2, k.R.IntN(n + 3)} {
			if ok {
				runSearch(k, s, target, vs, kk)
				continue
			}
			gen, _ := genOf(vs)
			idx := s.f(target, gen, kk)
			seen := map[int]bool{}
			for _, i := range idx {
				if i < 0 || i >= n || seen[i] || len(vs[i]) != g.Dim {
					k.Fail("%s k=%d returned %v for %v", s.name, kk, idx, vs)
				}
				seen[i] = true
			}
			if len(idx) != min(kk, same) {
				k.Fail("%s returned %d positions, want %d; target %v, vectors %v", s.name, len(idx), min(kk, same), target, vs)
			}
		}
	}
	k.Sig(fmt.Sprint("extreme", n, g.Dim, ok))
}

func reusedBuffer(k *K) {
	g := newVG(k.R, mathDim(k.R), "")
	n := 1 + k.R.IntN(30)
	vs := make([][]float64, n)
	for i := range vs {
		vs[i] = g.Vec()
	}
	target := g.Vec()
	for _, s := range searchers {
		i := 0
		ended := 0
		gen := func() ([]float64, bool) {
			if i >= n {
				ended++
				return nil, false
			}
			i++
			return vs[i-1], true
		}
		kk := 1 + k.R.IntN(n+1)
		idx := s.f(target, gen, kk)
		if e := judgeSearch(s, target, vs, kk, idx); e != "" {
			k.Fail("%s: %s", s.name, e)
		}
	}
	k.Sig(fmt.Sprint("gen", n, g.Dim))
}

func vecMathCase(k *K) {
	r := k.R
	g := newVG(r, mathDim(r), "")
	a, b := g.Vec(), g.Vec()
	switch r.IntN(8) {
	case 0:
		b = cloneVec(a)
	case 1:
		for i := range b {
			b[i] = -a[i]
		}
	case 2:
		b = make([]float64, g.Dim)
	case 3:
		for i := range b {
			b[i] = a[i] * 3
		}
	case 4: // nearly parallel
		for i := range b {
			b[i] = a[i] + r.NormFloat64()*1e-6*g.Scale
		}
	}
	if r.IntN(5) == 0 {
		b = make([]float64, r.IntN(g.Dim+4))
		for i := range b {
			b[i] = r.NormFloat64()
		}
	}
	if r.IntN(40) == 0 {
		a = []float64{}
		if r.IntN(2) == 0 {
			b = nil
		}
	}
	a0, b0 := cloneVec(a), cloneVec(b)
	same := len(a) == len(b)
	k.Sig(fmt.Sprint(len(a), len(b), g.Fam, maxAbs(a) == 0, maxAbs(b) == 0))
	k.Op("a=%v b=%v", a, b)
	unchanged := func(f string) {
		if !vecBits(a, a0) || !vecBits(b, b0) {
			k.Fail("%s modified its arguments", f)
		}
	}
	// metrics
	for _, p := range [][2][]float64{{a, b}, {b, a}, {a, a}} {
		x, y := p[0], p[1]
		e, err := mathutils.EuclideanDistance(x, y)
		if (err == nil) != (len(x) == len(y)) {
			k.Fail("EuclideanDistance error %v for lengths %d and %d", err, len(x), len(y))
		}
		if err == nil {
			if w := refEuc(x, y); !(math.Abs(e-w) <= 1e-12*(w+math.SmallestNonzeroFloat64)) {
				k.Fail("EuclideanDistance %v, want %v", e, w)
			}
		}
		unchanged("EuclideanDistance")
		c, err := mathutils.CosineSimilarity(x, y)
		if (err == nil) != (len(x) == len(y)) {
			k.Fail("CosineSimilarity error %v for lengths %d and %d", err, len(x), len(y))
		}
		if err == nil {
			if w := refCos(x, y); !(math.Abs(c-w) <= 1e-11) {
				k.Fail("CosineSimilarity %v, want %v", c, w)
			}
		}
		unchanged("CosineSimilarity")
	}
	if same {
		e1, _ := mathutils.EuclideanDistance(a, b)
		e2, _ := mathutils.EuclideanDistance(b, a)
		c1, _ := mathutils.CosineSimilarity(a, b)
		c2, _ := mathutils.CosineSimilarity(b, a)
		if math.Abs(e1-e2) > 1e-12*(e1+1e-300) || math.Abs(c1-c2) > 1e-11 {
			k.Fail("not symmetric: %v/%v %v/%v", e1, e2, c1, c2)
		}
	}
	// component-wise
	type bin struct {
		n string
		f func(a, b []float64) ([]float64, bool)
		w func(x, y float64) float64
	}
	for _, o := range []bin{{"VecAdd", mathutils.VecAdd, func(x, y float64) float64 { return x + y }},
		{"VecSub", mathutils.VecSub, func(x, y float64) float64 { return x - y }}} {
		res, ok := o.f(a, b)
		if ok != same {
			k.Fail("%s reports %v for lengths %d and %d", o.n, ok, len(a), len(b))
		}
		if ok {
			if len(res) != len(a) {
				k.Fail("%s returned %d components", o.n, len(res))
			}
			for i := range res {
				if res[i] != o.w(a[i], b[i]) {
					k.Fail("%s component %d is %v", o.n, i, res[i])
				}
			}
		}
		unchanged(o.n)
	}
	f := []float64{0, 1, -1, 2, 7, 0.1, 1e6, r.NormFloat64()}[r.IntN(8)]
	m := mathutils.VecMulScalar(a, f)
	d := mathutils.VecDivScalar(a, f)
	if len(m) != len(a) || len(d) != len(a) {
		k.Fail("scaling changed the length")
	}
	for i := range a {
		if !relEq(m[i], a[i]*f) {
			k.Fail("VecMulScalar(%v, %v) = %v", a[i], f, m[i])
		}
		if f != 0 && !relEq(d[i], a[i]/f) {
			k.Fail("VecDivScalar(%v, %v) = %v", a[i], f, d[i])
		}
	}
	unchanged("scaling")
	if mathutils.VecEq(a, b) != vecSame(a, b) || !mathutils.VecEq(a, cloneVec(a)) {
		k.Fail("VecEq wrong")
	}
	if len(a) > 0 {
		c := cloneVec(a)
		i := r.IntN(len(c))
		c[i] = math.Nextafter(c[i], math.Inf(1))
		if mathutils.VecEq(a, c) {
			k.Fail("VecEq does not see a difference in component %d of %d", i, len(a))
		}
	}
	v := mathutils.Vec(a...)
	if !vecBits(v, a) {
		k.Fail("Vec(a...) != a")
	}
	unchanged("VecEq")
	// membership and mean
	n := logInt(r, 20)
	if k.Idx%400 == 11 {
		n = 300 + r.IntN(4000)
		if len(a) > 64 {
			n = 300
		}
	}
	vs := make([][]float64, n)
	ragged := r.IntN(4) == 0
	rag := false
	for i := range vs {
		vs[i] = g.Vec()
		if ragged && r.IntN(5) == 0 {
			vs[i] = make([]float64, g.Dim+1+r.IntN(2))
		}
		if len(vs[i]) != len(vs[0]) {
			rag = true
		}
	}
	keep := make([][]float64, n)
	for i := range vs {
		keep[i] = cloneVec(vs[i])
	}
	in := false
	for _, x := range vs {
		in = in || vecSame(x, a)
	}
	if mathutils.VecIn(a, vs) != in {
		k.Fail("VecIn wrong: want %v", in)
	}
	if n > 0 && !mathutils.VecIn(cloneVec(vs[r.IntN(n)]), vs) {
		k.Fail("VecIn does not find a member")
	}
	gen, _ := genOf(vs)
	mean, ok := mathutils.VecMean(gen)
	if ok != (n > 0 && !rag) {
		k.Fail("VecMean reports %v for %d vectors (ragged %v)", ok, n, rag)
	}
	if ok {
		sc := 0.
		for _, x := range vs {
			sc = math.Max(sc, maxAbs(x))
		}
		if !near(mean, refMean(vs), 1e-12*(sc+1e-300)*float64(n)) {
			k.Fail("VecMean = %v, want %v", mean, refMean(vs))
		}
	}
	for i := range vs {
		if !vecBits(vs[i], keep[i]) {
			k.Fail("VecMean or VecIn modified vector %d", i)
		}
	}
	k.Sample("math", 2, map[string]any{"a": trim5(a), "b": trim5(b), "mean_of": n})
}

// extremeMath: metrics of vectors whose squares or sums are not representable.
func extremeMath(k *K) {
	g := newVG(k.R, mathDim(k.R), "extreme")
	a, b := g.Vec(), g.Vec()
	switch k.R.IntN(6) {
	case 0:
		b = cloneVec(a)
	case 1:
		for i := range b {
			b[i] = -a[i]
		}
	case 2:
		b = make([]float64, g.Dim)
	case 3:
		for i := range b {
			b[i] = a[i] * 0.5
		}
	case 4:
		b = (&VG{R: k.R, Dim: g.Dim, Fam: "gauss", Scale: 1}).Vec()
	}
	k.Op("a=%v b=%v", a, b)
	c, err := mathutils.CosineSimilarity(a, b)
	if w := refCos(a, b); err != nil || !(math.Abs(c-w) <= 1e-11) {
		k.Fail("CosineSimilarity %v (%v), want %v", c, err, w)
	}
	if c2, _ := mathutils.CosineSimilarity(b, a); !(math.Abs(c-c2) <= 1e-11) {
		k.Fail("CosineSimilarity is not symmetric: %v and %v", c, c2)
	}
	w := refEuc(a, b)
	e, err := mathutils.EuclideanDistance(a, b)
	if err != nil || math.IsNaN(e) || (w < math.MaxFloat64 && !(math.Abs(e-w) <= 1e-12*w+math.SmallestNonzeroFloat64)) {
		k.Fail("EuclideanDistance %v (%v), want %v", e, err, w)
	}
	k.Sig(fmt.Sprint(g.Dim, math.Log10(maxAbs(a))/40, math.Log10(maxAbs(b))/40))
}

func trim5(v []float64) []float64 {
	if len(v) > 5 {
		return v[:5]
	}
	return v
}

func relEq(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-14*math.Abs(b)
}

func init() {
	reg(&Prop{ID: "C11", Level: "exploration", Min: 200,
		Rule: "exhaustive: every sequence up to length 4 (thorough: 5) over {0,e1,-e1,2e2,e1+e2,1-dim} for 8 targets, every k from -1 to length+2, all four searches; random: sequences of up to 300 vectors (ties, multiples, near ties, other dimensions); distinct by (length, dimension, family, style)",
		Run: func(r *Run) {
			r.Cases("exhaustive", 8, 8, exhaustiveSearch)
			r.Cases("random", r.N(6000, 200000), 8, randomSearch)
			r.Cases("extreme", r.N(4000, 100000), 8, extremeSearch)
			r.Cases("generator", r.N(500, 20000), 8, reusedBuffer)
		}})
	reg(&Prop{ID: "C12", Level: "exploration", Min: 200,
		Rule: "random pairs and lists of vectors (equal, opposite, zero, parallel, nearly parallel, other lengths, empty); distinct by (lengths, family, zero-ness)",
		Run: func(r *Run) {
			r.Cases("math", r.N(60000, 2000000), 8, vecMathCase)
			r.Cases("extreme", r.N(40000, 1000000), 8, extremeMath)
		}})
}
