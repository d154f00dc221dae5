package main

// C34: arbitration among nodes (pkg/arbiter).

import (
	"errors"
	"fmt"
	"net"
	"net/rpc"
	"time"

	"trypo/pkg/arbiter"

	narb "github.com/crunchypi/go-narb/apsa/common"
)

// arbNode is a node before anything is registered or accepted: every member has to
// know the addresses of all.
func arbNode() *Node {
	ln := listenFixed()
	return &Node{Addr: ln.Addr().String(), h: rpc.NewServer(), ln: ln, conns: map[net.Conn]struct{}{}}
}

func electCase(k *K) {
	n := 1 + k.R.IntN(5)
	// durations far apart from each other
	sess := time.Duration(60+k.R.IntN(1000)) * time.Second
	arb := time.Duration(4000+k.R.IntN(10000)) * time.Second
	if k.R.IntN(2) == 0 {
		sess, arb = arb, sess
	}
	if k.R.IntN(4) == 0 {
		arb = time.Duration(5+k.R.IntN(25)) * time.Millisecond
	}
	down := -1
	if n > 1 && k.R.IntN(5) == 0 {
		down = k.R.IntN(n)
	}
	var nodes []*Node
	var addrs []Addr
	for i := 0; i < n; i++ {
		nodes = append(nodes, arbNode())
		addrs = append(addrs, nodes[i].A())
	}
	for i, nd := range nodes {
		s := arbiter.NewArbiterServer(arbiter.NewSessionMemberConfig{LocalAddr: addrs[i], Whitelist: append([]Addr(nil), addrs...), SessionDuration: sess, ArbiterDuration: arb})
		if s == nil {
			k.Fail("no arbiter server")
		}
		if err := nd.h.RegisterName("ArbiterServer", s); err != nil {
			k.Fail("the arbiter server cannot be registered: %v", err)
		}
		if i != down {
			go nd.accept(nd.ln)
		} else {
			nd.ln.Close()
		}
		defer nd.Close()
	}
	k.Op("%d members, session %v, arbiter %v, down %d", n, sess, arb, down)
	rounds := 1 + k.R.IntN(3)
	for round := 0; round < rounds; round++ {
		errs, stats := arbiter.ArbErrs{}, arbiter.ArbStats{}
		order := append([]Addr(nil), addrs...)
		k.R.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
		fin := make(chan bool, 1)
		t0 := time.Now()
		go func() { fin <- arbiter.ArbiterClients(order, errs, stats).TryForceNewArbiter(500) }()
		var ok bool
		select {
		case ok = <-fin:
		case <-time.After(40 * time.Second):
			k.Fail("an election among %d members has not ended in 40 s", n)
		}
		t1 := time.Now()
		k.Beat()
		a, err := errs.CheckAll()
		if down >= 0 {
			if ok {
				k.Fail("an election succeeded although a member was not reachable")
			}
			if err == nil || !a.Comp(addrs[down]) {
				k.Fail("member %v is not reachable; the errors name %v (%v)", addrs[down], a, err)
			}
			k.Count("elections_with_a_member_down", 1)
			break
		}
		if err != nil {
			k.Fail("an election among reachable members reports an error of %v: %v", a, err)
		}
		if !ok {
			// votes are random; without a majority the protocol gives up
			split := false
			for _, st := range stats {
				split = split || st == narb.StatusFailedVoteConsensus
			}
			if !split {
				k.Fail("an election among %d reachable members failed although the votes were not split; statuses %v", n, stats)
			}
			k.Count("elections_without_majority", 1)
			break
		}
		if !stats.UniformStatus(narb.StatusOK) {
			k.Fail("a successful election reports different statuses: %v", stats)
		}
		if arb < time.Second {
			time.Sleep(time.Until(t1.Add(arb + 5*time.Millisecond)))
			for _, m := range addrs {
				var e error
				if r := arbiter.ArbiterClient(m, &e).Arbiter(); e != nil || r.Status != narb.StatusArbiterExpired {
					k.Fail("member %v answers status %d (%v, %v) about an arbiter whose time of %v has passed", m, r.Status, r.Addr, e, arb)
				}
			}
			k.Count("elections_expired", 1)
			continue
		}
		var first Addr
		for i, m := range addrs {
			var e error
			r := arbiter.ArbiterClient(m, &e).Arbiter()
			if e != nil || r.Status != narb.StatusOK {
				k.Fail("after a successful election member %v answers status %d (%v)", m, r.Status, e)
			}
			if i == 0 {
				first = r.Addr
			}
			if !r.Addr.Comp(first) {
				k.Fail("after a successful election member %v names %v, another %v", m, r.Addr, first)
			}
			const slack = 20 * time.Second
			if r.Expiration.Before(t0.Add(arb-slack)) || r.Expiration.After(t1.Add(arb+slack)) {
				k.Fail("member %v lets the arbiter end at %v, %v after the election; configured are %v", m, r.Expiration, r.Expiration.Sub(t1), arb)
			}
		}
		in := false
		for _, m := range addrs {
			in = in || m.Comp(first)
		}
		if !in {
			k.Fail("the elected arbiter %v is not a member", first)
		}
		k.Count("elections_agreed", 1)
		if r, same := arbiter.ArbiterClients(addrs, nil, nil).Arbiter(); !same || !r.Addr.Comp(first) {
			k.Fail("asked together, members answer %v (consensus %v); they name %v one by one", r.Addr, same, first)
		}
	}
	// an address outside the whitelist cannot take part
	if down < 0 && k.R.IntN(2) == 0 {
		foreign := toAddr("127.0.0.1", "9")
		var e error
		if st := arbiter.ArbiterClient(addrs[k.R.IntN(n)], &e).InitSession("x", append([]Addr{foreign}, addrs...)); e != nil || st != narb.StatusInvalidSessionMembers {
			k.Fail("a session with a member outside the whitelist is answered %d (%v)", st, e)
		}
		k.Count("foreign_members_refused", 1)
	}
	k.Sig(fmt.Sprint(n, sess, arb, down, rounds))
	k.Sample("elect", 3, map[string]any{"members": n, "session": sess.String(), "arbiter": arb.String(), "down": down, "elections": rounds})
}

// sessionEndCase: votes are given as long as the session lasts, not longer.
func sessionEndCase(k *K) {
	n := 2 + k.R.IntN(3)
	short := k.R.IntN(2) == 0
	sess := time.Duration(300+k.R.IntN(300)) * time.Second
	if short {
		sess = time.Duration(1+k.R.IntN(10)) * time.Millisecond
	}
	arb := 1000 * time.Second
	if !short {
		arb = time.Duration(1+k.R.IntN(10)) * time.Millisecond
	}
	var nodes []*Node
	var addrs []Addr
	for i := 0; i < n; i++ {
		nodes = append(nodes, arbNode())
		addrs = append(addrs, nodes[i].A())
	}
	for i, nd := range nodes {
		m := arbiter.NewSessionMember(arbiter.NewSessionMemberConfig{LocalAddr: addrs[i], Whitelist: addrs, SessionDuration: sess, ArbiterDuration: arb})
		nd.h.RegisterName("ArbiterServer", &arbiter.ArbiterServer{ArbiterSessionMember: m})
		go nd.accept(nd.ln)
		defer nd.Close()
	}
	cs := arbiter.ArbiterClients(addrs, nil, nil)
	if !cs.InitSession("id", addrs) {
		k.Fail("a session among %d reachable members cannot be started", n)
	}
	time.Sleep(time.Duration(15) * time.Millisecond)
	stats := arbiter.ArbStats{}
	ok := arbiter.ArbiterClients(addrs, nil, stats).CollectVotes("id", addrs)
	if short && ok {
		k.Fail("votes were collected after the session, of %v, had ended", sess)
	}
	split := false
	for _, st := range stats {
		split = split || st == narb.StatusFailedVoteConsensus
	}
	if !short && !ok && !split {
		k.Fail("votes of a session of %v were not collected: %v", sess, stats)
	}
	k.Op("%d members, session %v: %v", n, sess, ok)
	k.Count("sessions", 1)
	k.Sig(fmt.Sprint("session", n, sess))
}

// whitelistCase: sessions take place exactly with whitelisted members.
func whitelistCase(k *K) {
	r := k.R
	var all []Addr
	for i := 0; i < 1+r.IntN(8); i++ {
		all = append(all, toAddr([]string{"localhost", "127.0.0.1", "", "::1"}[r.IntN(4)], fmt.Sprint(3000+i/2)))
	}
	pick := func(p float64) (out []Addr) {
		for _, a := range all {
			if r.Float64() < p {
				out = append(out, a)
			}
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return
	}
	white := pick([]float64{0, 0.5, 0.8, 1}[r.IntN(4)])
	local := all[r.IntN(len(all))]
	for i := 0; i < 6; i++ {
		m := arbiter.NewSessionMember(arbiter.NewSessionMemberConfig{LocalAddr: local, Whitelist: append([]Addr(nil), white...), SessionDuration: time.Minute, ArbiterDuration: time.Minute})
		opt := pick([]float64{0.2, 0.5, 1}[r.IntN(3)])
		if r.IntN(3) == 0 {
			opt = append([]Addr(nil), white...)
		}
		if len(opt) == 0 {
			continue // the third-party member does not answer a session of nobody
		}
		in := true
		for _, o := range opt {
			f := false
			for _, w := range white {
				f = f || w == o
			}
			in = in && f
		}
		st := m.InitSession("s", opt)
		if in != (st == narb.StatusOK) || !in && st != narb.StatusInvalidSessionMembers {
			k.Fail("member %v with whitelist %v answers %d to a session of %v", local, white, st, opt)
		}
		k.Count(fmt.Sprintf("whitelist_answers:%v", in), 1)
		k.Sig(fmt.Sprint("white", len(white), len(opt), in))
	}
}

// reportCase: the helpers that sum up the outcomes of several members.
func reportCase(k *K) {
	r := k.R
	n := r.IntN(6)
	errs, stats := arbiter.ArbErrs{}, arbiter.ArbStats{}
	bad := map[Addr]error{}
	codes := []arbiter.StatusCode{narb.StatusDefault, narb.StatusInSession, narb.StatusOK, narb.StatusArbiterExpired}
	count := map[arbiter.StatusCode]int{}
	one := codes[r.IntN(len(codes))]
	for i := 0; i < n; i++ {
		a := toAddr([]string{"localhost", "127.0.0.1", "", "::1"}[r.IntN(4)], fmt.Sprint(i))
		errs[a] = nil
		if r.IntN(4) == 0 {
			errs[a] = errors.New(fmt.Sprint("e", i))
			bad[a] = errs[a]
		}
		c := one
		if r.IntN(4) == 0 {
			c = codes[r.IntN(len(codes))]
		}
		stats[a] = c
		count[c]++
	}
	for i := 0; i < 3; i++ { // (maps are read in random order)
		a, err := errs.CheckAll()
		if (err != nil) != (len(bad) > 0) {
			k.Fail("of %d members %d report an error; checking all gives %v", n, len(bad), err)
		}
		if err != nil && bad[a] != err {
			k.Fail("the error %v is attributed to %v, which reports %v", err, a, bad[a])
		}
		if err == nil && a != (Addr{}) {
			k.Fail("no member reports an error, %v is named", a)
		}
		for _, c := range codes {
			if u := stats.UniformStatus(c); u != (count[c] == n) {
				k.Fail("%d of %d members have status %d; uniform: %v", count[c], n, c, u)
			}
		}
	}
	if len(errs) != n || len(stats) != n {
		k.Fail("the helpers changed the reports")
	}
	k.Count("reports", 1)
	k.Sig(fmt.Sprint("report", n, len(bad), count))
}

func init() {
	reg(&Prop{ID: "C34", Level: "exploration", Min: 100,
		Assume: []string{"the election protocol is the third-party module's; what is judged is the arbitration as this repository configures and reports it", "an election whose random votes are split may fail (the third-party protocol does not recover from it)"},
		Rule:   "elections among 1-5 members on real connections (durations of sessions and arbiters, repeated elections, a member down, an address outside the whitelist), sessions that end before the votes are collected, sessions proposed to members with arbitrary whitelists, random reports; distinct by members, durations and outcomes",
		Run: func(r *Run) {
			r.Cases("elect", r.N(150, 4000), 8, electCase)
			r.Cases("session end", r.N(80, 2000), 8, sessionEndCase)
			r.Cases("whitelist", r.N(400, 10000), 8, whitelistCase)
			r.Cases("report", r.N(2000, 50000), 8, reportCase)
		}})
}
