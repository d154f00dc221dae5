package main

// Event loops of one case, and waiting until everything they started has ended.

import (
	"bytes"
	"context"
	"fmt"
	"runtime/pprof"
	"strings"
	"sync/atomic"
	"time"

	"trypo/core/eventloop"
)

var loopCtr atomic.Int64

type loopSet struct {
	k     *K
	label string
	stops []func()
}

func newLoopSet(k *K) *loopSet {
	return &loopSet{k: k, label: fmt.Sprintf("loopset-%d", loopCtr.Add(1))}
}

// start runs an event loop whose goroutines all carry the label of the set.
func (ls *loopSet) start(c *eventloop.EventLoopConfig) (stop func()) {
	ls.do(func() { stop = eventloop.EventLoop(c) })
	ls.stops = append(ls.stops, stop)
	return stop
}

// do runs f with the label; goroutines it starts inherit it.
func (ls *loopSet) do(f func()) {
	pprof.Do(context.Background(), pprof.Labels("vcase", ls.label), func(context.Context) { f() })
}

// live counts goroutines of the set still inside the code under test.
func (ls *loopSet) live() (int, string) {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	n := 0
	var first string
	for _, blk := range strings.Split(b.String(), "\n\n") {
		// a goroutine that did not run yet may have no frames at all
		if !strings.Contains(blk, "\""+ls.label+"\"") || strings.Contains(blk, "#\t") && !strings.Contains(blk, "trypo/") {
			continue
		}
		if i := strings.Index(blk, "goroutine profile:"); i >= 0 {
			blk = blk[i+strings.Index(blk[i:], "\n")+1:]
		}
		c := 1
		fmt.Sscanf(blk, "%d @", &c)
		n += c
		if first == "" {
			first = blk
		}
	}
	return n, first
}

// stop stops all loops and waits until nothing of them runs any more.
func (ls *loopSet) stop() {
	for _, s := range ls.stops {
		s()
	}
	ls.wait()
}

func (ls *loopSet) wait() {
	for t := 0; ; t++ {
		n, first := ls.live()
		if n == 0 {
			return
		}
		if t > 3000 { // > 60 s
			ls.k.Fail("%d goroutines of stopped event loops still run after a minute: %s", n, first)
		}
		d := time.Millisecond << min(t, 4)
		time.Sleep(d)
	}
}
