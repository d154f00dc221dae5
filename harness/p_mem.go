package main

// C30, memory: points that left a namespace can be reclaimed once it was trimmed.

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"time"
	"weak"

	kmrpc "trypo/pkg/kmeans/rpc"
)

// memWatch follows the payloads stored by one node without keeping them alive.
type memWatch struct {
	b    Backend
	seen map[uint64][]weak.Pointer[byte] // one per stored copy
}

// note records the payloads stored now.
func (w *memWatch) note() {
	w.b.With(func(cm *CM) {
		for _, c := range cm.Centroids {
			for i := range c.DataPoints {
				d := &c.DataPoints[i]
				p := weak.Make(&d.Payload[0])
				id := idOf(*d)
				known := false
				for _, q := range w.seen[id] {
					known = known || q == p
				}
				if !known {
					w.seen[id] = append(w.seen[id], p)
				}
			}
		}
	})
}

// held counts payloads which are alive though their points are not stored, and those
// which are gone as they should.
func (w *memWatch) held() (stuck []uint64, freed int) {
	now := map[weak.Pointer[byte]]bool{}
	w.b.With(func(cm *CM) {
		for _, c := range cm.Centroids {
			for i := range c.DataPoints {
				now[weak.Make(&c.DataPoints[i].Payload[0])] = true
			}
		}
	})
	for id, ps := range w.seen {
		for _, p := range ps {
			if now[p] {
				continue
			}
			if p.Value() != nil {
				stuck = append(stuck, id)
			} else {
				freed++
			}
		}
	}
	return
}

func releaseCase(k *K) {
	cfg := pickCfg(k)
	ns := pickNS(k)
	kind := []string{"local", "server", "client"}[k.R.IntN(3)]
	var ws []*memWatch
	var addrs []string
	var stops []func()
	mk := func() *memWatch {
		w := &memWatch{seen: map[uint64][]weak.Pointer[byte]{}}
		switch kind {
		case "local":
			w.b = &localB{cfg.newCM(nil)}
		case "server":
			w.b = &serverB{s: newServer(cfg), ns: ns}
		default:
			s := newSN(k, cfg)
			s.start("node")
			addrs = append(addrs, s.addr)
			w.b = &clientB{node: &Node{Addr: s.addr, Srv: s.srv}, ns: ns}
			stops = append(stops, s.stop)
		}
		return w
	}
	ws = append(ws, mk())
	if kind == "client" {
		ws = append(ws, mk())
	}
	defer func() {
		for _, f := range stops {
			f()
		}
	}()
	vg := newVG(k.R, 1+k.R.IntN(6), []string{"gauss", "clusters", "positive"}[k.R.IntN(3)])
	next := uint64(0)
	var kinds []string
	total := 0
	for round := 0; round < 1+k.R.IntN(3); round++ {
		for i, n := 0, 1+logInt(k.R, 120); i < n; i++ {
			next++
			// payloads big enough to be allocated on their own
			pl := make([]byte, 2000+k.R.IntN(2000))
			binary.LittleEndian.PutUint64(pl, next)
			ws[k.R.IntN(len(ws))].b.Add(DP{Vec: vg.Vec(), Payload: pl})
			if k.R.IntN(40) == 0 {
				for _, w := range ws {
					w.note()
				}
			}
		}
		for i := 0; i < 1+k.R.IntN(6); i++ {
			for _, w := range ws {
				w.note()
			}
			w := ws[k.R.IntN(len(ws))]
			op := k.R.IntN(11)
			n := 1 + logInt(k.R, 60)
			kinds = append(kinds, fmt.Sprint(op))
			switch op {
			case 0:
				w.b.DrainU(n)
			case 1:
				w.b.DrainO(n)
			case 2:
				w.b.KNN(vg.Vec(), n, true)
			case 3:
				w.b.NearestC(vg.Vec(), 1+k.R.IntN(3), true)
			case 4:
				w.b.Split(2, 1000)
			case 5:
				w.b.Merge(0, n)
			case 6:
				w.b.DistInternal(n)
			case 7, 8:
				w.b.With(func(cm *CM) {
					for _, c := range cm.Centroids {
						for j := range c.DataPoints {
							if k.R.IntN(3) == 0 {
								c.DataPoints[j].ExpireEnabled = true
								c.DataPoints[j].Expires = time.Now().Add(-time.Hour)
							}
						}
					}
				})
				if op == 7 {
					w.b.Expire()
				}
			case 9:
				w.b.KNN(vg.Vec(), n, false)
			default:
				if c, ok := w.b.(*clientB); ok {
					switch k.R.IntN(3) {
					case 0:
						kmrpc.KMeansClient(c.node.Addr, ns, nil).DistributeDataPointsFast(addrs, n)
					case 1:
						kmrpc.KMeansClient(c.node.Addr, ns, nil).DistributeDataPointsAccurate(addrs, n)
					default:
						kmrpc.KMeansClient(c.node.Addr, ns, nil).StealCentroids(addrs[k.R.IntN(len(addrs))], n)
					}
				}
			}
		}
		for _, w := range ws {
			w.note()
			w.b.MemTrim()
		}
		at := time.Now()
		for {
			runtime.GC()
			var stuck []uint64
			freed := 0
			for _, w := range ws {
				s, f := w.held()
				stuck = append(stuck, s...)
				freed += f
			}
			if len(stuck) == 0 {
				total += freed
				break
			}
			if time.Since(at) > 10*time.Second {
				k.Fail("%s: %d points are gone from the namespace, which was trimmed, but their memory is still held (for instance %s; %d others were released; operations %v)", kind, len(stuck), sid(stuck[0]), freed, kinds)
			}
			time.Sleep(5 * time.Millisecond)
			k.Beat()
		}
		for _, w := range ws {
			w.seen = map[uint64][]weak.Pointer[byte]{}
		}
	}
	k.Count("payloads_released", int64(total))
	if total > 0 {
		k.Sig(fmt.Sprint("release", kind, kinds, total))
	}
	k.Sample("release", 2, map[string]any{"backend": kind, "operations": kinds, "released": total})
}
