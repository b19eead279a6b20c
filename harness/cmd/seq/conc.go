//go:build go1.21

package main

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/sched"
)

// S02: operations running at the same time.
//
// Two executions are independent if they never touch the same memory with at least one of them writing, unless the
// accesses are ordered by synchronisation: then every interleaving gives the same results (the argument of dynamic
// partial-order reduction). The first scenario establishes exactly that for every pair of operations, with the race
// detector as the observer of accesses: each operation runs in a goroutine of its own, one after the other, with
// nothing that orders them. The second scenario explores the schedules of pairs at the points where they touch mutable
// package-level state or synchronise.

// ---------------------------------------------------------------- accesses

// plainRand gives entropy without ordering anything.
type plainRand struct{ s uint64 }

//go:norace
func (r *plainRand) Read(p []byte) (int, error) {
	for i := range p {
		r.s ^= r.s << 13
		r.s ^= r.s >> 7
		r.s ^= r.s << 17
		p[i] = byte(r.s >> 11)
	}
	return len(p), nil
}

var turn int

//go:norace
func setTurn(n int) { turn = n }

//go:norace
func waitTurn(n int) {
	for turn != n {
		runtime.Gosched()
	}
}

type raceReport struct{ Ran int }

func raceChild() {
	var h []int
	if err := json.NewDecoder(os.Stdin).Decode(&h); err != nil {
		panic(err)
	}
	loadCorpus(filepath.Join(dir, "corpus"))
	l := ops()
	crand.Reader = &plainRand{88172645463325252}
	os.Stdout = nil // writing to it would order the operations
	for i, k := range h {
		i, o := i, l[k]
		fmt.Fprintf(os.Stderr, "op %d %s\n", i, opName(k))
		go func() {
			o.run()
			setTurn(i + 1)
		}()
		waitTurn(i + 1)
	}
	json.NewEncoder(os.NewFile(3, "report")).Encode(raceReport{len(h)})
}

func independent(x *mc.X, h []int, label string) {
	x.Beat()
	var r raceReport
	err := start(os.Getenv("SEQ_RACE"), []string{"-seqrace"}, h, &r)
	if err != nil {
		s := err.Error()
		if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
			l := strings.Split(s[:i], "\n")
			n := len(l)
			for n > 0 && !strings.HasPrefix(l[n-1], "op ") {
				n--
			}
			last := "?"
			if n > 0 {
				last = l[n-1]
			}
			x.Fail("operations that run at the same time touch the same memory without synchronisation; seen when [%s] ran next to an earlier one:\n%s", last, s[i:])
		}
		x.Fail("the process crashed: %v", err)
	}
	x.Eval(r.Ran)
	x.Steps(r.Ran - 1)
	x.Step("independent", label, h)
}

// ---------------------------------------------------------------- schedules

type schedReq struct {
	A, B, First int
	At          []int
	Many        []int // partners for a first look
}

type schedReport struct {
	Events  []int
	Problem string
	Hang    bool
}

func schedChild() {
	var q schedReq
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		panic(err)
	}
	load()
	l := ops()
	crand.Reader = sched.Rand{}
	os.Stdout = nil
	var rep schedReport
	run := func(a, b int) {
		r, n, dep, dead, hang := sched.Run([2]func() string{l[a].run, l[b].run}, [2]io.Reader{mc.EntropyStream("seq"), mc.EntropyStream("seq")}, q.First, q.At)
		if q.Many != nil && !dep {
			n = 0 // they touch nothing in common that either may change
		}
		rep.Events = append(rep.Events, n)
		switch {
		case hang:
			rep.Hang = true
		case dead:
			rep.Problem = fmt.Sprintf("%s and %s block each other for good", opName(a), opName(b))
		default:
			for i, k := range []int{a, b} {
				if r[i] != base[k] && rep.Problem == "" {
					rep.Problem = fmt.Sprintf("%s, running at the same time as %s, gives\n    %s\n  alone it gives\n    %s", opName(k), opName([]int{b, a}[i]), diff(r[i], base[k]), diff(base[k], r[i]))
				}
			}
		}
	}
	if q.Many != nil {
		for _, b := range q.Many {
			run(q.A, b)
			if rep.Problem != "" || rep.Hang {
				break
			}
		}
	} else {
		run(q.A, q.B)
	}
	json.NewEncoder(os.NewFile(3, "report")).Encode(rep)
}

func schedule(x *mc.X, q schedReq) *schedReport {
	x.Beat()
	r := &schedReport{}
	if err := start(os.Getenv("SEQ_SCHED"), []string{"-seqsched"}, q, r); err != nil {
		x.Fail("the process crashed: %v", err)
	}
	x.Eval(1)
	x.Beat()
	n := 0
	for _, e := range r.Events {
		n += e
	}
	x.Steps(n)
	x.Step("schedule", q.A, q.B, q.First, fmt.Sprint(q.At), len(q.Many), r.Problem)
	if r.Problem != "" {
		x.Fail("with control passing at yield points %v (operation %d first): %s", q.At, q.First+1, r.Problem)
	}
	return r
}

// twos: the operations of A's package, at most two per entry point
func twos(a int) []int {
	var l []int
	for _, k := range group(a) {
		if ops()[k].two {
			l = append(l, k)
		}
	}
	return l
}

func allTwos(reps bool) []int {
	var l []int
	for i, o := range ops() {
		if (reps && o.rep) || (!reps && o.two) {
			l = append(l, i)
		}
	}
	return l
}

func init() {
	mc.Register(mc.Scenario{Prop: "S02", Name: "independent-in-a-package", ShardK: 1, Fn: func(x *mc.X) {
		loaded.Do(load)
		l := allTwos(false)
		if x.Deep {
			l = l[:0]
			for i := range ops() {
				l = append(l, i)
			}
		}
		a := l[x.Choose("first", len(l))]
		x.Note("%s", opName(a))
		h := []int{a, a}
		for _, b := range twos(a) {
			h = append(h, b, a)
		}
		independent(x, h, opName(a))
	}})
	mc.Register(mc.Scenario{Prop: "S02", Name: "independent-across-packages", ShardK: 1, Fn: func(x *mc.X) {
		loaded.Do(load)
		l := allTwos(true)
		n := 16
		if x.Deep {
			n = len(l)
		}
		r := x.Choose("rotation", n) * len(l) / n
		h := append(append([]int{}, l[r:]...), l[:r]...)
		// twice, the second time backwards: every operation runs before and after every other one
		for i := len(h) - 1; i >= 0; i-- {
			h = append(h, h[i])
		}
		independent(x, h, opName(h[0]))
	}})
	for _, depth := range []int{1, 2} {
		depth := depth
		mc.Register(mc.Scenario{Prop: "S02", Name: []string{"", "schedules", "schedules-2"}[depth], ShardK: 1, Fn: func(x *mc.X) {
			loaded.Do(load)
			l := spread(allTwos(false))
			a := l[x.Choose("first", len(l))]
			x.Note("%s", opName(a))
			two := twos(a)
			r := schedule(x, schedReq{A: a, Many: two})
			if r.Hang {
				x.Outcome("not scheduled (blocked outside the scheduler)")
				return
			}
			for i, b := range two {
				if i >= len(r.Events) || r.Events[i] == 0 {
					x.Outcome("no point where the order can matter")
					continue
				}
				if x.Late() {
					return
				}
				x.Outcome("explored")
				explore(x, a, b, depth)
			}
		}})
	}
}

// spread orders a list so that neighbours are far apart: a deadline cuts off a bit of everything.
func spread(l []int) []int {
	n := len(l)
	k := n*618/1000 | 1
	for gcd(k, n) != 1 {
		k += 2
	}
	r := make([]int, n)
	for i := range r {
		r[i] = l[i*k%n]
	}
	return r
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// explore runs every schedule with exactly depth (or no) switches; a second one comes within the next 6 points (thorough: 40).
func explore(x *mc.X, a, b, depth int) {
	for first := 0; first < 2; first++ {
		q := schedReq{A: a, B: b, First: first}
		r := schedule(x, q)
		if r.Hang {
			return
		}
		n := r.Events[0]
		lim := 40
		if x.Deep {
			lim = 400
		}
		for e := 0; e < n && e < lim && !x.Late(); e++ {
			q.At = []int{e}
			r := schedule(x, q)
			if r.Hang {
				return
			}
			if depth < 2 {
				continue
			}
			w := 6
			if x.Deep {
				w = 40
			}
			for f := e + 1; f < r.Events[0] && f <= e+w; f++ {
				q.At = []int{e, f}
				if schedule(x, q).Hang {
					return
				}
			}
		}
	}
}
