package main

// A node: the real *KMeansServer served by net/rpc through a codec of ours that
// records every call and reply and can delay, cut or refuse them.

import (
	"bufio"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"net"
	"net/rpc"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"trypo/pkg/arbiter"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type Addr = arbiter.Addr

// Ev is one observed call on a node.
type Ev struct {
	Node   *Node
	Seq    uint64 // per process order of arrival
	Method string // without the service prefix
	Args   any    // pointer or value as decoded
	Reply  any
	Err    string
	Done   bool
	Cut    string
}

// Act is what the hook wants done to a call.
type Act struct {
	Delay     time.Duration
	CutReq    bool // close the connection without executing the call
	CutReply  bool // execute it, then close the connection instead of replying
	PartReply bool // send part of the reply, then close
	// ReplyDelay holds the reply back after the call was executed.
	ReplyDelay time.Duration
}

type Node struct {
	Addr string
	Srv  *KMServer
	h    *rpc.Server
	ln   net.Listener

	mu     sync.Mutex
	conns  map[net.Conn]struct{}
	closed bool
	isDown bool
	evs    []*Ev
	trace  bool
	// hook is consulted before a call is dispatched.
	hook func(ev *Ev) Act
	// onDone is called when a reply is about to be written.
	onDone   func(ev *Ev)
	refuse   atomic.Bool // accept and close at once
	open     atomic.Int64
	accepted atomic.Int64
	calls    atomic.Int64
	busy     atomic.Int64 // requests being executed
}

var evSeq atomic.Uint64

func newNode(cfg cmCfg) *Node { return newNodeF(cfg.newCM) }

func newNodeF(f func([]float64) *CM) *Node {
	ln := listenFixed()
	addr := ln.Addr().String()
	srv := kmrpc.NewKMeansServer(addr, f)
	h := rpc.NewServer()
	if err := h.Register(srv); err != nil {
		panic(err)
	}
	n := &Node{Addr: addr, Srv: srv, h: h, ln: ln, conns: map[net.Conn]struct{}{}}
	go n.accept(ln)
	return n
}

// newStub serves another receiver under the service name of a node.
func newStub(svc any) *Node {
	ln := listenFixed()
	h := rpc.NewServer()
	if err := h.RegisterName("KMeansServer", svc); err != nil {
		panic(err)
	}
	n := &Node{Addr: ln.Addr().String(), h: h, ln: ln, conns: map[net.Conn]struct{}{}}
	go n.accept(ln)
	return n
}

func (n *Node) A() Addr {
	host, port, _ := net.SplitHostPort(n.Addr)
	return toAddr(host, port)
}

func toAddr(host, port string) Addr { return Addr{IP: host, Port: port} }

func (n *Node) accept(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		n.accepted.Add(1)
		if n.refuse.Load() {
			c.Close()
			continue
		}
		n.mu.Lock()
		if n.closed {
			n.mu.Unlock()
			c.Close()
			continue
		}
		n.conns[c] = struct{}{}
		n.mu.Unlock()
		n.open.Add(1)
		go func() {
			cd := &codec{n: n, c: c, dec: gob.NewDecoder(c)}
			cd.buf = bufio.NewWriter(c)
			cd.enc = gob.NewEncoder(cd.buf)
			n.h.ServeCodec(cd)
			n.mu.Lock()
			delete(n.conns, c)
			n.mu.Unlock()
			n.open.Add(-1)
		}()
	}
}

// Down makes the address unreachable (nothing listens any more).
func (n *Node) Down() {
	n.ln.Close()
	n.mu.Lock()
	n.isDown = true
	for c := range n.conns {
		c.Close()
	}
	n.mu.Unlock()
}

// Up listens on the same address again.
func (n *Node) Up() bool {
	for i := 0; i < 50; i++ {
		ln, err := net.Listen("tcp", n.Addr)
		if err == nil {
			n.ln = ln
			n.mu.Lock()
			n.isDown = false
			n.mu.Unlock()
			go n.accept(ln)
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func (n *Node) Close() {
	n.ln.Close()
	n.mu.Lock()
	n.closed = true
	for c := range n.conns {
		c.Close()
	}
	n.mu.Unlock()
}

func (n *Node) SetTrace(on bool) {
	n.mu.Lock()
	n.trace = on
	n.evs = nil
	n.mu.Unlock()
}

func (n *Node) SetHook(h func(*Ev) Act) { n.mu.Lock(); n.hook = h; n.mu.Unlock() }
func (n *Node) SetOnDone(h func(*Ev))   { n.mu.Lock(); n.onDone = h; n.mu.Unlock() }

func (n *Node) Events() []*Ev {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Ev(nil), n.evs...)
}

type codec struct {
	n    *Node
	c    net.Conn
	dec  *gob.Decoder
	enc  *gob.Encoder
	buf  *bufio.Writer
	cl   bool
	pmu  sync.Mutex
	pend map[uint64]*pending
	cur  *pending
}

type pending struct {
	ev  *Ev
	act Act
	run bool // handed on for execution
}

var errCut = errors.New("cut by the harness")

func (c *codec) ReadRequestHeader(r *rpc.Request) error {
	if err := c.dec.Decode(r); err != nil {
		return err
	}
	m := r.ServiceMethod
	if i := lastDot(m); i >= 0 {
		m = m[i+1:]
	}
	p := &pending{ev: &Ev{Node: c.n, Seq: evSeq.Add(1), Method: m}}
	c.cur = p
	c.pmu.Lock()
	if c.pend == nil {
		c.pend = map[uint64]*pending{}
	}
	c.pend[r.Seq] = p
	c.pmu.Unlock()
	return nil
}

func lastDot(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return i
		}
	}
	return -1
}

func (c *codec) ReadRequestBody(body any) error {
	if err := c.dec.Decode(body); err != nil {
		return err
	}
	p := c.cur
	p.ev.Args = body
	c.n.calls.Add(1)
	c.n.mu.Lock()
	hook := c.n.hook
	if c.n.trace {
		c.n.evs = append(c.n.evs, p.ev)
	}
	c.n.mu.Unlock()
	if hook != nil {
		p.act = hook(p.ev)
	}
	if p.act.Delay > 0 {
		time.Sleep(p.act.Delay)
	}
	if p.act.CutReq {
		c.n.mu.Lock()
		p.ev.Cut = "request"
		c.n.mu.Unlock()
		c.c.Close()
		return errCut
	}
	p.run = true
	c.n.busy.Add(1)
	return nil
}

func (c *codec) WriteResponse(r *rpc.Response, body any) error {
	c.pmu.Lock()
	p := c.pend[r.Seq]
	delete(c.pend, r.Seq)
	c.pmu.Unlock()
	if p != nil && p.run {
		defer c.n.busy.Add(-1)
		c.n.mu.Lock()
		p.ev.Reply, p.ev.Err, p.ev.Done = body, r.Error, true
		od := c.n.onDone
		if p.act.CutReply || p.act.PartReply {
			p.ev.Cut = "reply"
		}
		c.n.mu.Unlock()
		if od != nil {
			od(p.ev)
		}
		if p.act.ReplyDelay > 0 {
			time.Sleep(p.act.ReplyDelay)
		}
		if p.act.CutReply {
			c.c.Close()
			return errCut
		}
		if p.act.PartReply {
			if c.enc.Encode(r) == nil {
				c.buf.Flush() // header out, body never
			}
			c.c.Close()
			return errCut
		}
	}
	if err := c.enc.Encode(r); err != nil {
		if c.buf.Flush() == nil {
			c.Close()
		}
		return err
	}
	if err := c.enc.Encode(body); err != nil {
		if c.buf.Flush() == nil {
			c.Close()
		}
		return err
	}
	return c.buf.Flush()
}

func (c *codec) Close() error {
	if c.cl {
		return nil
	}
	c.cl = true
	return c.c.Close()
}

var _ io.Closer = (*codec)(nil)

// Listening ports are taken from outside the ephemeral range, so that no outgoing
// connection ever occupies them while a node is down.
var portCtr atomic.Int64

func listenFixed() net.Listener {
	for i := 0; i < 5000; i++ {
		p := 11000 + (portCtr.Add(1)+int64(os.Getpid())*97)%20000
		if p == 3500 || p == 3501 {
			continue
		}
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err == nil {
			return ln
		}
	}
	panic("harness: no free port")
}

// freePort: a port nothing listens on now.
func freePort() string {
	ln := listenFixed()
	defer ln.Close()
	_, p, _ := net.SplitHostPort(ln.Addr().String())
	return p
}

// deadAddr is an address nothing listens on.
func deadAddr() string {
	for _, p := range []int{1, 2, 3, 4, 5, 6} {
		a := fmt.Sprintf("127.0.0.1:%d", p)
		c, err := net.DialTimeout("tcp", a, 2*time.Second)
		if err != nil {
			return a
		}
		c.Close()
	}
	return "127.0.0.1:" + freePort()
}

func addrOf(s string) Addr {
	h, p, _ := net.SplitHostPort(s)
	return toAddr(h, p)
}

// asAdd: the arguments of a traced insert.
func asAdd(ev *Ev) (kmrpc.AddDataPointArgs, bool) {
	switch a := ev.Args.(type) {
	case *kmrpc.AddDataPointArgs:
		return *a, ev.Method == "AddDataPoint"
	case kmrpc.AddDataPointArgs:
		return a, ev.Method == "AddDataPoint"
	}
	return kmrpc.AddDataPointArgs{}, false
}
