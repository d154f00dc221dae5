package main

// C35: the times of the HTTP API, and clients that stall.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"trypo/core/api"
)

type apiProcCfg struct {
	Addr  Addr
	Nodes []Addr
	R, W  time.Duration
}

// apiHelper is the API process: its routes are registered globally, so there can be one
// per process only.
func apiHelper() {
	var c apiProcCfg
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_API")), &c); err != nil {
		panic(err)
	}
	go func() {
		io.Copy(io.Discard, os.Stdin)
		os.Exit(0)
	}()
	err := api.Start(api.APIConfig{Addr: c.Addr, RPCAddrs: c.Nodes, ReadTimeout: c.R, WriteTimeout: c.W})
	panic(fmt.Sprintf("api.Start ended: %v", err))
}

// gotAnswer: a whole HTTP answer was read; otherwise the connection ended (or, if open,
// it had not until the deadline of the connection).
func gotAnswer(c net.Conn) (status int, open bool) {
	r, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err == nil {
		defer r.Body.Close()
		if _, err = io.ReadAll(r.Body); err == nil {
			return r.StatusCode, false
		}
	}
	var ne net.Error
	return 0, errors.As(err, &ne) && ne.Timeout()
}

func later2(a, b time.Time) time.Time {
	if a.After(b) {
		return a
	}
	return b
}

func stallCase(k *K) {
	sec := func(f float64) time.Duration { return time.Duration(f * float64(time.Second)) }
	var R, W time.Duration
	switch k.Idx % 3 {
	case 0:
		R, W = sec(1.5+k.R.Float64()), sec(5+k.R.Float64())
	case 1:
		R, W = sec(5+k.R.Float64()), sec(1.5+k.R.Float64())
	}
	const slack = 15 * time.Second
	nodes := []*Node{newNode(newCfg(mCos, 5, 0)), newNode(newCfg(mCos, 5, 0))}
	var addrs []Addr
	for _, n := range nodes {
		defer n.Close()
		addrs = append(addrs, n.A())
		for _, ns := range []string{"late", "later", "held", "fast"} {
			(&serverB{s: n.Srv, ns: ns}).Add(DP{Vec: []float64{1, 2}, Payload: []byte("12345678")})
		}
	}
	cfg := apiProcCfg{Addr: toAddr("127.0.0.1", freePort()), Nodes: addrs, R: R, W: W}
	b, _ := json.Marshal(cfg)
	bin, _ := os.Executable()
	cmd := exec.Command(bin, "apihelper", "-prop", "C35")
	cmd.Env = append(os.Environ(), "VERIF_API="+string(b))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var errb capBuf
	cmd.Stderr = &errb
	in, _ := cmd.StdinPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	dead := make(chan struct{})
	go func() { cmd.Wait(); close(dead) }()
	defer func() { in.Close(); cmd.Process.Kill(); <-dead }()
	a := &apiFix{url: "http://" + cfg.Addr.ToStr(), cl: newHTTP()}
	host := cfg.Addr.ToStr()
	for t0 := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		if c, err := net.Dial("tcp", host); err == nil {
			c.Close()
			break
		}
		select {
		case <-dead:
			k.Fail("the API process ended: %s", tailStr(errb.String(), 2000))
		default:
		}
		if time.Since(t0) > 30*time.Second {
			k.Fail("the API does not accept connections after 30 s")
		}
		k.Beat()
	}
	k.Op("API with read timeout %v, write timeout %v", R, W)

	// the nodes answer late in some namespaces
	late, later := 2*time.Second, time.Duration(0)
	if W > 0 {
		late, later = W/4, W+sec(1.5)
	}
	gate := make(chan struct{})
	var held atomic.Int64
	for _, n := range nodes {
		n.SetHook(func(ev *Ev) Act {
			s := fmt.Sprintf("%+v", derefArgs(ev))
			switch {
			case ev.Method != "KNNLookup" && ev.Method != "AddDataPoint":
			case strings.Contains(s, "later"):
				return Act{Delay: later}
			case strings.Contains(s, "late"):
				return Act{Delay: late}
			case strings.Contains(s, "held"):
				held.Add(1)
				<-gate
			}
			return Act{}
		})
	}
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	defer open()

	crowd := []int{12, 40, 120}[k.R.IntN(3)]
	if R == 0 {
		crowd = 150 // (they stall until others have been served)
	}
	served := make(chan struct{})
	var wg sync.WaitGroup
	stalled := func(what, send string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			c, err := net.Dial("tcp", host)
			if err != nil {
				k.Report("the API refuses a connection: %v", err)
				return
			}
			defer c.Close()
			io.WriteString(c, send)
			if R > 0 {
				c.SetDeadline(t0.Add(R + slack))
			} else {
				go func() {
					<-served
					c.SetDeadline(later2(time.Now(), t0.Add(4*time.Second)))
				}()
			}
			st, isOpen := gotAnswer(c)
			d := time.Since(t0)
			switch {
			case st == 200:
				k.Report("%s is answered 200", what)
			case R > 0 && isOpen:
				k.Report("%s still has a connection after %v, the read timeout is %v", what, d, R)
			case R > 0 && d < R-20*time.Millisecond:
				k.Report("%s was cut off (status %d) after %v, the read timeout is %v", what, st, d, R)
			case R == 0 && !isOpen:
				k.Report("%s was cut off (status %d) after %v, there is no read timeout", what, st, d)
			}
			k.Count("stalled_clients", 1)
		}()
	}
	for i := 0; i < crowd; i++ {
		stalled("a client that sends nothing", "")
		stalled("a client that sends part of a header", "POST /api/dp/put HTTP/1.1\r\nHost: x\r\nContent-Le")
		stalled("a client that sends part of a body", "POST /api/dp/put HTTP/1.1\r\nHost: x\r\nContent-Length: 900\r\n\r\n{\"namespace\":\"never\",\"dp\":{\"vec\":[1,2],\"payload\":\"AAAAAAAAAAA=\"}")
		stalled("a client that sends part of a body, which would do on its own", "POST /api/dp/put HTTP/1.1\r\nHost: x\r\nContent-Length: 900\r\n\r\n{\"namespace\":\"never\",\"dp\":{\"vec\":[1,2],\"payload\":\"AAAAAAAAAAA=\"}}")
	}
	// requests that are in time, and those that are not
	request := func(ns string, trickle time.Duration, put bool) int {
		c, err := net.Dial("tcp", host)
		if err != nil {
			return -1
		}
		defer c.Close()
		body := fmt.Sprintf(`{"namespace":%q,"queryVec":[1,2],"n":1}`, ns)
		path := "query"
		if put {
			path, body = "put", fmt.Sprintf(`{"namespace":%q,"dp":{"vec":[1,2],"payload":"AAAAAAAAAAA="}}`, ns)
		}
		msg := fmt.Sprintf("POST /api/dp/%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", path, len(body), body)
		for i := 0; i < 4; i++ {
			io.WriteString(c, msg[i*len(msg)/4:(i+1)*len(msg)/4])
			time.Sleep(trickle / 4)
		}
		c.SetDeadline(time.Now().Add(30 * time.Second))
		st, _ := gotAnswer(c)
		return st
	}
	inTime := func(what, ns string, trickle time.Duration) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var st int
			for i := 0; i < 3; i++ { // (the machine may be busy)
				if st = request(ns, trickle, false); st == 200 {
					k.Count("answers_in_time", 1)
					return
				}
			}
			k.Report("%s is answered %d three times; the timeouts are %v and %v", what, st, R, W)
		}()
	}
	short := 2 * time.Second
	if R > 0 {
		short = min(R, W) * 3 / 10
	}
	inTime(fmt.Sprintf("a request sent within %v", short), "fast", short)
	inTime(fmt.Sprintf("a request whose answer takes %v", late), "late", 0)
	if W > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			if st := request("later", 0, false); st > 0 {
				k.Report("a request was answered %d after %v, the write timeout is %v", st, time.Since(t0), W)
			}
			k.Count("answers_too_late", 1)
		}()
	}
	// others are served meanwhile
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer close(served)
		wait := int64(4 + crowd/2)
		for i := 0; i < int(wait); i++ {
			go request("held", 0, i%2 == 0)
		}
		for t0 := time.Now(); held.Load() < wait && time.Since(t0) < 20*time.Second; {
			time.Sleep(time.Millisecond)
		}
		if held.Load() < wait {
			k.Report("of %d requests at the same time %d arrived at a node", wait, held.Load())
		}
		done := make(chan error, 1)
		go func() {
			for i := 0; i < 20; i++ {
				if st, err := a.put("fast", i%2 == 0, DP{Vec: []float64{1, float64(i)}, Payload: []byte("87654321")}); st != 200 || err != nil {
					done <- fmt.Errorf("put is answered %d (%v)", st, err)
					return
				}
				if st, out, _, err := a.query("fast", i%2 == 0, []float64{1, 1}, 1, false); st != 200 || err != nil || len(out) != 1 {
					done <- fmt.Errorf("query is answered %d with %d points (%v)", st, len(out), err)
					return
				}
			}
			done <- nil
		}()
		select {
		case err := <-done:
			if err != nil {
				k.Report("while clients stall and a node is waited for: %v", err)
			}
			k.Count("requests_beside_stalled_ones", 40)
		case <-time.After(20 * time.Second):
			k.Report("while clients stall and a node is waited for, no other request is answered")
		}
		open()
	}()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	for {
		select {
		case <-fin:
		case <-time.After(200 * time.Millisecond):
			k.Beat()
			continue
		}
		break
	}
	select {
	case <-dead:
		k.Fail("the API process ended: %s", tailStr(errb.String(), 2000))
	default:
	}
	for _, n := range nodes {
		n.SetHook(nil)
		for _, ns := range n.Srv.Table.Namespaces() {
			if ns == "never" {
				k.Fail("a request that was never finished stored something")
			}
		}
	}
	if st, err := a.put("fast", true, DP{Vec: []float64{1, 3}, Payload: []byte("87654321")}); st != 200 || err != nil {
		k.Fail("afterwards a put is answered %d (%v)", st, err)
	}
	k.Sig(fmt.Sprint("stall", R, W))
}

func init() {
	reg(&Prop{ID: "C35", Level: "exploration", Min: 3,
		Assume: []string{"a client is disconnected at most 15 s after its time; a request that fails because the machine is busy succeeds at the third attempt"},
		Rule:   "an API process per case with other read and write timeouts (or none); clients that send nothing, half a header, half a body or a body that lacks only its end, or slowly; answers that take less or more than the write timeout; ordinary requests beside stalled ones and ones waiting for a node; distinct by timeouts",
		Run: func(r *Run) {
			r.Cases("stall", r.N(6, 90), 6, stallCase)
		}})
}
