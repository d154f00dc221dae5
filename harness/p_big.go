package main

// Operations on namespaces of thousands of points or centroids.

import "fmt"

// bigStore: a namespace with one of four shapes.
func bigStore(k *K, live string) *Store {
	cfg := newCfg([]Metric{mCos, mEuc}[k.R.IntN(2)], []int{0, 100000}[k.R.IntN(2)], 0)
	fam := []string{"gauss", "gauss", "clusters", "positive", "ints"}[k.R.IntN(5)]
	st := &Store{K: k, Cfg: cfg, Reg: newReg(), VG: newVG(k.R, 2+k.R.IntN(5), fam), Live: live}
	st.Scale = st.VG.Scale
	for _, c := range st.VG.centers {
		st.Scale = max(st.Scale, maxAbs(c))
	}
	st.B = newBackend(k, cfg, []string{"local", "local", "server", "client"}[k.R.IntN(4)])
	var sizes []int
	switch k.Idx % 4 {
	case 0: // thousands in one centroid
		sizes = []int{1100 + logInt(k.R, 7000)}
		if k.Idx == 0 {
			sizes[0] = 8200 + k.R.IntN(300)
		}
	case 1: // some large ones
		for i := 0; i < 2+k.R.IntN(6); i++ {
			sizes = append(sizes, logInt(k.R, 3000))
		}
		sizes[k.R.IntN(len(sizes))] = 2100 + k.R.IntN(2500)
	case 2: // hundreds or thousands of small ones
		for i := 300 + k.R.IntN(1500); i > 0; i-- {
			sizes = append(sizes, k.R.IntN(4))
		}
	case 3: // many empty ones around few points
		sizes = make([]int, 300+k.R.IntN(900))
		for i := 0; i < 5+k.R.IntN(60); i++ {
			sizes[k.R.IntN(len(sizes))] += k.R.IntN(4)
		}
	}
	k.Beat()
	st.populate(sizes, false)
	k.Max("largest_store", int64(snapB(st.B).total()))
	k.Max("most_centroids", int64(len(sizes)))
	return st
}

// bigCase runs operations of the given kinds on such a namespace.
func bigCase(live string, expP float64, kinds []string, mons ...Monitor) func(*K) {
	return func(k *K) {
		st := bigStore(k, live)
		defer st.B.Close()
		if expP > 0 && k.R.IntN(2) == 0 {
			st.flipExpired(expP)
		}
		sig := ""
		for i := 0; i < 5; i++ {
			kind := kinds[k.R.IntN(len(kinds))]
			if i < len(kinds) && k.Idx < 4 {
				kind = kinds[(k.Idx+i)%len(kinds)]
			}
			op := st.genOp([]wop{{kind, 1}})
			tot := snapB(st.B).total()
			switch kind {
			case "knn", "drainU", "drainO", "distI":
				op.N = []int{tot, tot + 1, tot - 1, 1 + k.R.IntN(tot+1), tot - tot/8, 5}[k.R.IntN(6)]
				if i == 0 {
					op.N = tot
				}
				op.Drain = op.Drain && i > 1
			case "nearC":
				op.N = []int{1, 2, 100, 300, 5000}[k.R.IntN(5)]
				op.Drain = op.Drain && i > 2
			case "split":
				op.Min, op.Mx = k.R.IntN(2), 1<<30
			case "merge":
				op.Min, op.Mx = -1, []int{tot + 1, tot, tot/2 + 1, 1, 3, 1 + tot/10}[k.R.IntN(6)]
				if i == 0 && k.Idx < 4 {
					op.Mx = tot + 1
				}
			}
			if cb, ok := st.B.(*clientB); ok {
				cb.err = nil
			}
			k.Beat()
			_, post := st.step(op, mons...)
			if _, ok := st.B.(*localB); !ok && op.Err != nil {
				k.Fail("%s on an existing namespace returned an error: %v", op.Kind, op.Err)
			}
			sig += fmt.Sprint(op.Kind, op.N, " ")
			k.Count("big_op:"+op.Kind, 1)
			if post.total() == 0 {
				break
			}
		}
		st.keptOK()
		k.Sig(fmt.Sprintf("big %s %d %s", st.B.Name(), k.Idx%4, sig))
	}
}
