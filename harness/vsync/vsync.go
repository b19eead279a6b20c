//go:build go1.21

// Package vsync stands in for package sync in the code under test when it runs under package sched.
package vsync

import (
	"sync"

	"github.com/blocktree/go-owcdrivers/zzverif/sched"
)

type Locker = sync.Locker
type WaitGroup = sync.WaitGroup
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	sched.Y(sched.Sync)
	for !m.m.TryLock() {
		sched.Block()
	}
}
func (m *Mutex) TryLock() bool { sched.Y(sched.Sync); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); sched.Unlocked(); sched.Y(sched.Sync) }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	sched.Y(sched.Sync)
	for !m.m.TryLock() {
		sched.Block()
	}
}
func (m *RWMutex) RLock() {
	sched.Y(sched.Sync)
	for !m.m.TryRLock() {
		sched.Block()
	}
}
func (m *RWMutex) TryLock() bool  { sched.Y(sched.Sync); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.Y(sched.Sync); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); sched.Unlocked(); sched.Y(sched.Sync) }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); sched.Unlocked(); sched.Y(sched.Sync) }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out what was put last.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	sched.Y(sched.Sync)
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.m.Lock()
		p.l = append(p.l, x)
		p.m.Unlock()
	}
	sched.Y(sched.Sync)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Y(sched.Sync); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Y(sched.Sync); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Y(sched.Sync); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Y(sched.Sync); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.Y(sched.Sync); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Y(sched.Sync); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	sched.Y(sched.Sync)
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool { sched.Y(sched.Sync); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)    { sched.Y(sched.Sync); m.m.Range(f) }
func (m *Map) Clear()                         { sched.Y(sched.Sync); m.m.Clear() }
