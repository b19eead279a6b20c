//go:build go1.21

// Package sched runs two operations under a cooperative scheduler: only one of them runs at a time, and control
// passes at the yield points that cmd/instr put into the code under test.
package sched

import (
	"bytes"
	"io"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

type thread struct {
	id      int
	goid    int64
	ch      chan struct{}
	done    bool
	blocked int64 // value of unlocks when it blocked, -1 if it is not blocked
	rand    io.Reader
	touch   map[int]int // 1: read, 2: may be changed
}

var (
	on      atomic.Bool
	th      [2]*thread
	events  int
	pre     map[int]bool
	unlocks int64
	dead    bool
	end     chan struct{}
	wild    atomic.Bool
)

func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	n, _ := strconv.ParseInt(string(s[:bytes.IndexByte(s, ' ')]), 10, 64)
	return n
}

func me() *thread {
	g := goid()
	for _, t := range th {
		if t != nil && t.goid == g {
			return t
		}
	}
	wild.Store(true)
	return nil
}

// Sync stands for a synchronisation operation in a list of variables.
const Sync = -1 << 30

// Y is a yield point before a statement that touches these variables; those it may change are negative.
func Y(v ...int) {
	if !on.Load() {
		return
	}
	t := me()
	if t == nil {
		return
	}
	for _, k := range v {
		if k < 0 {
			t.touch[-k] |= 2
		} else {
			t.touch[k] |= 1
		}
	}
	e := events
	events++
	if o := th[1-t.id]; pre[e] && !o.done {
		pass(t, o)
	}
}

func pass(t, o *thread) {
	o.ch <- struct{}{}
	<-t.ch
}

// Block: the running operation waits for something the other one has.
func Block() {
	if !on.Load() {
		runtime.Gosched()
		return
	}
	t := me()
	if t == nil {
		time.Sleep(100 * time.Microsecond)
		return
	}
	o := th[1-t.id]
	if o.done || o.blocked == atomic.LoadInt64(&unlocks) {
		if wild.Load() { // goroutines outside the scheduler may still help
			time.Sleep(100 * time.Microsecond)
			if o.done {
				return
			}
		} else {
			dead = true
			panic("deadlock")
		}
	}
	t.blocked = atomic.LoadInt64(&unlocks)
	pass(t, o)
	t.blocked = -1
}

// Unlocked tells that something was released.
func Unlocked() { atomic.AddInt64(&unlocks, 1) }

// Rand is the entropy the running operation sees.
type Rand struct{}

func (Rand) Read(p []byte) (int, error) {
	if t := me(); t != nil {
		return t.rand.Read(p)
	}
	for i := range p {
		p[i] = byte(i) + 1
	}
	return len(p), nil
}

// Run executes the operations; first starts, control passes at the events listed.
func Run(f [2]func() string, rand [2]io.Reader, first int, at []int) (r [2]string, n int, dependent, deadlock, hang bool) {
	events, dead, end = 0, false, make(chan struct{})
	pre = map[int]bool{}
	for _, e := range at {
		pre[e] = true
	}
	ready := make(chan struct{})
	for i := range th {
		th[i] = &thread{id: i, ch: make(chan struct{}, 1), blocked: -1, rand: rand[i], touch: map[int]int{}}
	}
	for i := range th {
		t := th[i]
		go func() {
			t.goid = goid()
			ready <- struct{}{}
			<-t.ch
			r[t.id] = f[t.id]()
			t.done = true
			if o := th[1-t.id]; !o.done {
				o.ch <- struct{}{}
			} else {
				close(end)
			}
		}()
	}
	<-ready
	<-ready
	on.Store(true)
	th[first].ch <- struct{}{}
	select {
	case <-end:
	case <-time.After(20 * time.Second):
		hang = true
	}
	on.Store(false)
	if !hang {
		for k, a := range th[0].touch {
			if b := th[1].touch[k]; b != 0 && (a|b)&2 != 0 {
				dependent = true
			}
		}
	}
	return r, events, dependent, dead, hang
}
