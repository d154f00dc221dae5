package main

// Fixture: the real HTTP API (started once per process) and clients for it.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sync"
	"time"

	"trypo/core/api"
)

type apiFix struct {
	url string
	cl  *http.Client
}

// codeEnded marks crash reports of the harness whose cause is the code under test.
const codeEnded = "CODE-UNDER-TEST:"

var apiOnce sync.Once
var theAPI *apiFix

// startAPI starts the API over the given node addresses. Only the first call of a
// process starts one.
func startAPI(addrs []Addr) *apiFix {
	apiOnce.Do(func() {
		port := freePort()
		go func() {
			err := api.Start(api.APIConfig{Addr: toAddr("127.0.0.1", port), RPCAddrs: addrs, ReadTimeout: 60 * time.Second, WriteTimeout: 60 * time.Second})
			// the parent process reports this as a violation
			panic(fmt.Sprintf("%s api.Start, given a free address and the nodes' addresses, ended: %v", codeEnded, err))
		}()
		theAPI = &apiFix{url: "http://127.0.0.1:" + port, cl: &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 32}}}
		for i := 0; i < 500; i++ {
			r, err := theAPI.cl.Get(theAPI.url + "/")
			if err == nil {
				r.Body.Close()
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		panic(failT{"the API does not accept connections after 5 s"})
	})
	return theAPI
}

type apiDP struct {
	Vec           []float64 `json:"vec"`
	Payload       []byte    `json:"payload"`
	Expires       time.Time `json:"expires"`
	ExpireEnabled bool      `json:"expireEnabled"`
}

func toAPIDP(d DP) apiDP { return apiDP{d.Vec, d.Payload, d.Expires, d.ExpireEnabled} }
func (d apiDP) dp() DP {
	return DP{Vec: d.Vec, Payload: d.Payload, Expires: d.Expires, ExpireEnabled: d.ExpireEnabled}
}

func (a *apiFix) post(path string, body []byte) (int, []byte, error) {
	var rd io.Reader = bytes.NewReader(body)
	if len(body)%5 == 2 { // of no declared length: sent in chunks
		rd = io.MultiReader(bytes.NewReader(body[:len(body)/2]), bytes.NewReader(body[len(body)/2:]))
	}
	r, err := a.cl.Post(a.url+path, "application/json", rd)
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, b, err
}

func (a *apiFix) put(ns string, accurate bool, d DP) (int, error) {
	b, _ := json.Marshal(map[string]any{"namespace": ns, "accurate": accurate, "dp": toAPIDP(d)})
	st, _, err := a.post("/api/dp/put", b)
	return st, err
}

func (a *apiFix) query(ns string, accurate bool, vec []float64, n int, drain bool) (int, []DP, []byte, error) {
	b, _ := json.Marshal(map[string]any{"namespace": ns, "accurate": accurate, "queryVec": vec, "n": n, "drain": drain})
	st, body, err := a.post("/api/dp/query", b)
	if err != nil || st != 200 {
		return st, nil, body, err
	}
	if t := bytes.TrimSpace(body); len(t) == 0 || t[0] != '[' {
		return st, nil, body, fmt.Errorf("the answer is not a JSON list: %.200q", body)
	}
	var l []apiDP
	if e := json.Unmarshal(body, &l); e != nil {
		return st, nil, body, fmt.Errorf("the answer is not a JSON list: %v: %.200q", e, body)
	}
	var out []DP
	for _, d := range l {
		out = append(out, d.dp())
	}
	return st, out, body, nil
}

func newHTTP() *http.Client {
	return &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 4}}
}
