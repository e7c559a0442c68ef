// Package vsync stands in for sync while a counterexample schedule is replayed.
package vsync

import (
	z "gRedis/zzverif"
	"sync"
)

type (
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond               { return sync.NewCond(l) }
func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

type RWMutex struct {
	real    sync.RWMutex
	w       bool
	r       int
	waiting int
}

func (m *RWMutex) Lock() {
	if z.Controlled() {
		free := func() bool { return !m.w && m.r == 0 }
		if z.Announce() {
			z.Point(nil)
			if !free() {
				m.waiting++
				z.Point(free)
				m.waiting--
			}
		} else {
			z.Point(free)
		}
		m.w = true
		return
	}
	m.real.Lock()
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if z.Controlled() {
		z.Point(nil)
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		return true
	}
	if m.real.TryLock() {
		m.w = true
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	if z.Controlled() {
		if !m.w {
			panic("fatal error: sync: Unlock of unlocked RWMutex")
		}
		m.w = false
		return
	}
	m.w = false
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if z.Controlled() {
		z.Point(func() bool { return !m.w && m.waiting == 0 })
		m.r++
		return
	}
	m.real.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if z.Controlled() {
		z.Point(nil)
		if m.w || m.waiting > 0 {
			return false
		}
		m.r++
		return true
	}
	return m.real.TryRLock()
}

func (m *RWMutex) RUnlock() {
	if z.Controlled() {
		if m.r == 0 {
			panic("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.r--
		return
	}
	m.real.RUnlock()
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
