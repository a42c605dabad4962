package rt

import (
	"runtime"
	"sync"
	"unsafe"
)

// ---- happens-before clocks (per node), used only when race detection is on

type hb struct{ vc []uint32 }

func (g *G) tick() {
	for len(g.vc) <= g.slot {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.slot]++
}

func (g *G) snap() []uint32 {
	v := append([]uint32(nil), g.vc...)
	if g != S.evG {
		g.tick()
	}
	return v
}

func join(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (g *G) acq(vc []uint32) {
	if vc != nil {
		g.vc = join(g.vc, vc)
	}
}

func (h *hb) acquire() {
	if S != nil && S.Cfg.Race && cur != nil {
		cur.acq(h.vc)
	}
}

func (h *hb) release() {
	if S != nil && S.Cfg.Race && cur != nil {
		h.vc = join(h.vc, cur.vc)
		if cur != S.evG {
			cur.tick()
		}
	}
}

func live() bool { return cur != nil && !cur.dead }

// ---- Mutex

type Locker = sync.Locker

type Mutex struct {
	locked bool
	owner  *G
	q      []*G
	h      hb
}

func dropDead(q []*G) []*G {
	for len(q) > 0 && (q[0].dead || q[0].exited) {
		q = q[1:]
	}
	return q
}

func (m *Mutex) Lock() {
	g := cur
	if g == nil {
		if m.locked {
			panic("rt: Mutex deadlock outside simulation")
		}
		m.locked = true
		return
	}
	if g.dead {
		return
	}
	P()
	for m.locked {
		if g == S.evG {
			panic("rt: event blocks on mutex")
		}
		m.q = append(m.q, g)
		S.waitLock(g, "Mutex.Lock", m)
	}
	m.locked, m.owner = true, g
	m.h.acquire()
}

func (m *Mutex) TryLock() bool {
	P()
	if cur != nil && cur.dead {
		return true
	}
	if m.locked {
		return false
	}
	m.locked, m.owner = true, cur
	m.h.acquire()
	return true
}

func (m *Mutex) Unlock() {
	if cur != nil && cur.dead {
		return
	}
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	m.h.release()
	m.locked, m.owner = false, nil
	if cur == nil {
		return
	}
	if m.q = dropDead(m.q); len(m.q) > 0 {
		w := m.q[0]
		m.q = m.q[1:]
		S.Ready(w)
	}
	P()
}

// ---- RWMutex (a waiting writer blocks new readers, as in Go)

type rwWait struct {
	g       *G
	writer  bool
	granted bool
}

type RWMutex struct {
	w       bool // a writer holds the lock
	pending bool // a writer waits for the readers to leave
	readers int
	q       []*rwWait
	h, rh   hb
}

func (m *RWMutex) clean() {
	k := m.q[:0]
	for _, x := range m.q {
		if !x.g.dead && !x.g.exited {
			k = append(k, x)
		}
	}
	m.q = k
}

func (m *RWMutex) RLock() {
	g := cur
	if g == nil {
		if m.w {
			panic("rt: RWMutex deadlock outside simulation")
		}
		m.readers++
		return
	}
	if g.dead {
		return
	}
	P()
	if m.w || m.pending {
		x := &rwWait{g: g}
		m.q = append(m.q, x)
		for !x.granted {
			S.waitLock(g, "RWMutex.RLock", m)
		}
	} else {
		m.readers++
	}
	m.h.acquire()
}

func (m *RWMutex) TryRLock() bool {
	if cur != nil && cur.dead {
		return true
	}
	P()
	if m.w || m.pending {
		return false
	}
	m.readers++
	m.h.acquire()
	return true
}

func (m *RWMutex) grant() {
	m.clean()
	if m.w || len(m.q) == 0 {
		return
	}
	if m.pending {
		if m.readers == 0 {
			// first waiting writer gets it
			for i, x := range m.q {
				if x.writer {
					m.q = append(m.q[:i:i], m.q[i+1:]...)
					m.w, m.pending = true, false
					x.granted = true
					S.Ready(x.g)
					return
				}
			}
			m.pending = false
		} else {
			return
		}
	}
	// no writer pending: let the queued readers in, then announce the next writer
	k := m.q[:0]
	for _, x := range m.q {
		if x.writer {
			k = append(k, x)
			continue
		}
		m.readers++
		x.granted = true
		S.Ready(x.g)
	}
	m.q = k
	if len(m.q) > 0 {
		m.pending = true
		if m.readers == 0 {
			m.grant()
		}
	}
}

func (m *RWMutex) RUnlock() {
	if cur != nil && cur.dead {
		return
	}
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.rh.release()
	m.readers--
	if cur == nil {
		return
	}
	if m.readers == 0 && m.pending {
		m.grant()
	}
	P()
}

func (m *RWMutex) Lock() {
	g := cur
	if g == nil {
		if m.w || m.readers > 0 {
			panic("rt: RWMutex deadlock outside simulation")
		}
		m.w = true
		return
	}
	if g.dead {
		return
	}
	P()
	if !m.w && !m.pending && m.readers == 0 {
		m.w = true
	} else {
		x := &rwWait{g: g, writer: true}
		m.q = append(m.q, x)
		if !m.w {
			m.pending = true
		}
		for !x.granted {
			S.waitLock(g, "RWMutex.Lock", m)
		}
	}
	m.h.acquire()
	m.rh.acquire()
}

func (m *RWMutex) TryLock() bool {
	if cur != nil && cur.dead {
		return true
	}
	P()
	if m.w || m.pending || m.readers > 0 {
		return false
	}
	m.w = true
	m.h.acquire()
	m.rh.acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if cur != nil && cur.dead {
		return
	}
	if !m.w {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.h.release()
	m.w = false
	if cur == nil {
		return
	}
	m.pending = false
	m.grant()
	P()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---- WaitGroup

type WaitGroup struct {
	n int
	q []*G
	h hb
}

func (w *WaitGroup) Add(d int) {
	if cur != nil && cur.dead {
		return
	}
	w.h.release()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.q {
			S.Ready(g)
		}
		w.q = nil
	}
	if cur != nil {
		P()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	g := cur
	if g == nil {
		if w.n > 0 {
			panic("rt: WaitGroup.Wait outside simulation")
		}
		return
	}
	if g.dead {
		return
	}
	P()
	for w.n > 0 {
		w.q = append(w.q, g)
		g.waitKind = "waitgroup"
		S.park(g)
	}
	w.h.acquire()
}

// ---- Once

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		o.m.h.acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// ---- Cond

type Cond struct {
	L Locker
	q []*G
	h hb
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := cur
	if g == nil {
		panic("rt: Cond.Wait outside simulation")
	}
	if g.dead {
		runtime.Goexit()
	}
	woken := false
	c.q = append(c.q, g)
	c.L.Unlock()
	for !woken {
		in := false
		for _, x := range c.q {
			if x == g {
				in = true
			}
		}
		if !in {
			break
		}
		g.waitKind = "cond"
		S.park(g)
	}
	c.h.acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if cur != nil && cur.dead {
		return
	}
	c.h.release()
	if c.q = dropDead(c.q); len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		S.Ready(g)
	}
}

func (c *Cond) Broadcast() {
	if cur != nil && cur.dead {
		return
	}
	c.h.release()
	q := c.q
	c.q = nil
	for _, g := range q {
		S.Ready(g)
	}
}

// ---- Pool, Map

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 && cur != nil {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil || cur == nil || cur.dead || len(p.items) > 32 {
		return
	}
	p.items = append(p.items, x)
}

type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
	h    hb
}

func (m *Map) touch() {
	if live() {
		P()
		m.h.acquire()
		m.h.release()
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { m.touch(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{}) {
	m.touch()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if x, ok := m.Load(k); ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.touch()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.touch()
	for _, k := range append([]interface{}(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// ---- atomics: sequentially consistent, with happens-before edges

type uintptrKey = unsafe.Pointer

// AtomicPoint marks an atomic operation on the object at p.
func AtomicPoint(p unsafe.Pointer) {
	if cur == nil || cur.dead {
		return
	}
	P()
	if S.Cfg.Race {
		h := S.atoms[p]
		if h == nil {
			h = &hb{}
			S.atoms[p] = h
		}
		h.acquire()
		h.release()
	}
}
