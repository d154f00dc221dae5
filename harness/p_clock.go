package main

// C03 against the real clock: points that expire around the moment of the
// operation. Every operation is bracketed by two clock readings; the verdicts
// only use what must hold wherever in between the code looked at the clock.

import (
	"fmt"
	"time"
)

type clkPt struct {
	dp DP
	in bool // acknowledged and not returned by a drain yet
}

func clockCase(k *K) {
	cfg := pickCfg(k)
	st := newStore(k, storeOpts{noPop: true, cfg: &cfg})
	defer st.B.Close()
	dim := st.VG.Dim
	pts := map[uint64]*clkPt{}
	wall := st.B.Name() == "client" || k.R.IntN(3) == 0
	zones := []*time.Location{nil, time.UTC, time.FixedZone("e", 5*3600+1800), time.FixedZone("w", -11*3600)}
	deltas := []time.Duration{-time.Hour * 24 * 365, -time.Hour, -time.Second, -time.Millisecond * 100, -time.Millisecond * 5, -time.Millisecond, -time.Microsecond * 100,
		-time.Microsecond * 20, -time.Microsecond * 5, -time.Microsecond, -200, -20, -1, 0, 1, 100, time.Microsecond, time.Microsecond * 20, time.Microsecond * 100,
		time.Microsecond * 400, time.Millisecond, time.Millisecond * 3, time.Millisecond * 300, time.Second, time.Minute, time.Hour, time.Hour * 24 * 365 * 50}
	// A step of the wall clock between the two readings would make the verdicts meaningless.
	var t0, t1 time.Time
	steady := func() bool {
		d := t1.Round(0).Sub(t0.Round(0)) - t1.Sub(t0)
		return d < 50*time.Microsecond && d > -50*time.Microsecond
	}
	mk := func() DP {
		d := deltas[k.R.IntN(len(deltas))]
		dp := st.Reg.New(k.R, st.VG.Vec(), "plain")
		dp.ExpireEnabled = k.R.IntN(12) != 0
		dp.Expires = time.Now().Add(d)
		if wall {
			dp.Expires = dp.Expires.Round(0)
		}
		if z := zones[k.R.IntN(len(zones))]; z != nil {
			dp.Expires = dp.Expires.In(z)
		}
		return dp
	}
	past := func(t time.Time, dp DP) bool { return dp.ExpireEnabled && t.After(dp.Expires) }
	stored := func() map[uint64]bool {
		m := map[uint64]bool{}
		st.B.With(func(cm *CM) {
			for _, c := range cm.Centroids {
				for _, dp := range c.DataPoints {
					m[idOf(dp)] = true
				}
			}
		})
		return m
	}
	st.B.With(func(cm *CM) {
		for _, c := range cm.Centroids {
			for _, dp := range c.DataPoints {
				pts[idOf(dp)] = &clkPt{dp: cloneDP(dp), in: true}
			}
		}
	})
	nIn, nOut, nEdge, sig := 0, 0, 0, ""
	ops := 12 + k.R.IntN(20)
	for i := 0; i < ops; i++ {
		if k.R.IntN(4) == 0 {
			for t := time.Now().Add(time.Duration(k.R.IntN(300)) * time.Microsecond); time.Now().Before(t); {
			}
		}
		switch op := k.R.IntN(12); {
		case op < 6:
			dp := mk()
			sent := cloneDP(dp)
			t0 = time.Now()
			ok := st.B.Add(dp)
			t1 = time.Now()
			k.Op("add %s expires %v after the call began -> %v", sid(idOf(dp)), sent.Expires.Sub(t0), ok)
			sig += fmt.Sprint("a", ok)
			if !steady() {
				k.Count("clock_steps", 1)
				return
			}
			if ok && past(t0, sent) {
				k.Fail("a point that had expired %v before the insert began was accepted", t0.Sub(sent.Expires))
			}
			if !ok && !past(t1, sent) {
				k.Fail("a point that expires %v after the insert ended (enabled=%v) was refused", sent.Expires.Sub(t1), sent.ExpireEnabled)
			}
			if ok {
				pts[idOf(dp)] = &clkPt{dp: sent, in: true}
				nIn++
			}
			if d := sent.Expires.Sub(t0); d > -time.Millisecond && d < time.Millisecond {
				nEdge++
			}
		case op < 10:
			n := []int{1, 2, 3, 1000}[k.R.IntN(4)]
			kind := k.R.IntN(4)
			var out []DP
			q := st.VG.Vec()
			t0 = time.Now()
			switch kind {
			case 0:
				out = st.B.KNN(q, n, false)
			case 1:
				out = st.B.KNN(q, n, true)
			case 2:
				out = st.B.DrainU(n)
			case 3:
				out = st.B.DrainO(n)
			}
			t1 = time.Now()
			k.Op("%s n=%d -> %d", []string{"lookup", "draining lookup", "drain", "ordered drain"}[kind], n, len(out))
			sig += fmt.Sprint("q", kind, n, len(out))
			if !steady() {
				k.Count("clock_steps", 1)
				return
			}
			got := map[uint64]bool{}
			for _, dp := range out {
				p := pts[idOf(dp)]
				if p == nil || !p.in {
					k.Fail("returned %s, which is not stored", sid(idOf(dp)))
				}
				if past(t0, p.dp) {
					k.Fail("returned %s, which had expired %v before the call began", sid(idOf(dp)), t0.Sub(p.dp.Expires))
				}
				got[idOf(dp)] = true
				nOut++
				if kind != 0 {
					p.in = false
				}
			}
			// A lookup (which looks everywhere) that asks for everything gets everything unexpired.
			if n == 1000 && kind <= 1 {
				for id, p := range pts {
					if p.in && !got[id] && !past(t1, p.dp) && len(p.dp.Vec) == dim {
						k.Fail("%s, which expires %v after the end of the call (enabled=%v), was not returned", sid(id), p.dp.Expires.Sub(t1), p.dp.ExpireEnabled)
					}
				}
			}
		default:
			kind := k.R.IntN(6)
			t0 = time.Now()
			switch kind {
			case 0, 1:
				st.B.Expire()
			case 2, 3:
				st.B.MemTrim()
			case 4:
				st.B.DistInternal(1 + k.R.IntN(5))
			case 5:
				st.B.MoveVector()
			}
			t1 = time.Now()
			k.Op("%s", []string{"expire", "expire", "trim", "trim", "distribute internally", "re-centre"}[kind])
			sig += fmt.Sprint("m", kind)
			if !steady() {
				k.Count("clock_steps", 1)
				return
			}
			if kind <= 3 {
				m := stored()
				for id, p := range pts {
					if m[id] && past(t0, p.dp) {
						k.Fail("%s had expired %v before the %s began and is still stored", sid(id), t0.Sub(p.dp.Expires), []string{"expiry pass", "expiry pass", "trim", "trim"}[kind])
					}
				}
			}
		}
		// Nothing disappears before it has expired.
		m := stored()
		for id, p := range pts {
			if p.in && !m[id] {
				if !past(t1, p.dp) {
					k.Fail("%s, which expires %v after the end of the last operation (enabled=%v), has disappeared", sid(id), p.dp.Expires.Sub(t1), p.dp.ExpireEnabled)
				}
				p.in = false
			}
		}
	}
	k.Count("clock_accepted", int64(nIn))
	k.Count("clock_returned", int64(nOut))
	k.Count("clock_inserts_within_1ms_of_expiry", int64(nEdge))
	k.Sig(st.B.Name() + sig)
}
