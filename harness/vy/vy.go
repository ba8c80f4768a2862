// Package vy is linked into the instrumented copy of braid (see ../instr).  P marks a yield point; the
// driver can hold the goroutine that reaches a chosen point for some (virtual) time so that every other
// goroutine of the bubble gets ahead of it.  Mutex, RWMutex and Once replace their sync counterparts in the
// instrumented copy: same semantics, but blocking on channels, which synctest understands.
package vy

import (
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// Hold describes one chosen delay: the Nth time Site is reached while armed.
type Hold struct {
	Site uint32
	Nth  int
	D    time.Duration
}

var (
	armed   atomic.Bool
	mu      sync.Mutex
	counts  map[uint32]int
	holds   map[uint32][]Hold
	rng     *rand.Rand
	permil  int
	focus   map[uint32]bool // if set, only these sites are delayed at random
	budget  time.Duration   // what is left of the random delays of a run with focus
	durs    []time.Duration
	holding atomic.Int64
)

// Arm starts counting hits and applying the given holds; p per mille of the other hits are delayed by one of ds.
func Arm(hs []Hold, seed int64, p int, ds []time.Duration) {
	mu.Lock()
	counts = map[uint32]int{}
	holds = map[uint32][]Hold{}
	for _, h := range hs {
		holds[h.Site] = append(holds[h.Site], h)
	}
	rng = rand.New(rand.NewSource(seed))
	permil, durs, focus = p, ds, nil
	mu.Unlock()
	armed.Store(true)
}

// Focus limits the random delays to some sites and bounds their sum.
func Focus(sites []uint32, b time.Duration) {
	mu.Lock()
	focus = map[uint32]bool{}
	for _, s := range sites {
		focus[s] = true
	}
	budget = b
	mu.Unlock()
}

// Disarm stops it and returns how often each site was reached.
func Disarm() map[uint32]int {
	armed.Store(false)
	mu.Lock()
	defer mu.Unlock()
	c := counts
	counts = nil
	return c
}

// Holding reports how many goroutines are being held right now.
func Holding() int64 { return holding.Load() }

func P(site uint32) {
	if !armed.Load() {
		return
	}
	var d time.Duration
	mu.Lock()
	if counts != nil {
		counts[site]++
		n := counts[site]
		for _, h := range holds[site] {
			if h.Nth == n {
				d = h.D
			}
		}
		if d == 0 && permil > 0 && len(durs) > 0 && (focus == nil || focus[site]) && rng.Intn(1000) < permil {
			d = durs[rng.Intn(len(durs))]
			if focus != nil {
				if d > budget {
					d = 0
				}
				budget -= d
			}
		}
	}
	mu.Unlock()
	if d > 0 {
		holding.Add(1)
		time.Sleep(d)
		holding.Add(-1)
	}
}

// B is a yield point inside a condition.
func B(site uint32) bool {
	P(site)
	return true
}

type Locker = sync.Locker

type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

func (m *Mutex) Lock() {
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	if len(m.waiters) > 0 {
		ch := m.waiters[0]
		m.waiters = m.waiters[1:]
		close(ch)
	} else {
		m.locked = false
	}
	m.mu.Unlock()
}

type rwWaiter struct {
	ch chan struct{}
	w  bool
}

type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	waiters []rwWaiter
}

func (m *RWMutex) wake() {
	for len(m.waiters) > 0 {
		h := m.waiters[0]
		if h.w {
			if m.readers == 0 && !m.writer {
				m.writer = true
				m.waiters = m.waiters[1:]
				close(h.ch)
			}
			return
		}
		if m.writer {
			return
		}
		m.readers++
		m.waiters = m.waiters[1:]
		close(h.ch)
	}
}

func (m *RWMutex) acquire(w bool) {
	m.mu.Lock()
	ch := make(chan struct{})
	m.waiters = append(m.waiters, rwWaiter{ch, w})
	m.wake()
	m.mu.Unlock()
	<-ch
}
func (m *RWMutex) Lock()  { m.acquire(true) }
func (m *RWMutex) RLock() { m.acquire(false) }
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.waiters) > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
}
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// ListenHook lets the driver replace the network a server listens on.
var ListenHook func(network, addr string) (net.Listener, error)

func Listen(network, addr string) (net.Listener, error) {
	if ListenHook != nil {
		return ListenHook(network, addr)
	}
	return net.Listen(network, addr)
}
