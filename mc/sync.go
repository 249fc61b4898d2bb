package mc

// Synchronisation primitives with the semantics of package sync, under the
// controlled scheduler. All methods that write shared scheduler state are kept
// out of line so that a -race build never instruments them.

type gq struct{ q []*G }

func (q *gq) park(why string) {
	s := S
	g := s.cur
	q.q = push(q.q, g)
	g.state = gBlocked
	s.block(g, why)
}

func (q *gq) wakeOne() bool {
	if len(q.q) == 0 {
		return false
	}
	g := q.q[0]
	q.q = q.q[1:]
	S.ready(g)
	return true
}

func (q *gq) wakeAll() {
	for q.wakeOne() {
	}
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	w      gq
	tok    byte
}

//go:noinline
func (m *Mutex) Lock() {
	if S == nil {
		return
	}
	S.Point("mutex lock")
	for m.locked {
		m.w.park("mutex lock")
	}
	m.locked = true
	raceAcquire(&m.tok)
}

//go:noinline
func (m *Mutex) TryLock() bool {
	S.Point("mutex trylock")
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(&m.tok)
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	if S == nil || S.aborting {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(&m.tok)
	m.locked = false
	m.w.wakeOne()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	readers int
	writer  bool
	waiting int // writers waiting
	rq, wq  gq
	wtok    byte
	rtok    byte
}

//go:noinline
func (m *RWMutex) Lock() {
	if S == nil {
		return
	}
	S.Point("rwmutex lock")
	for m.writer || m.readers > 0 {
		m.waiting++
		m.wq.park("rwmutex lock")
		m.waiting--
	}
	m.writer = true
	raceAcquire(&m.wtok)
	raceAcquire(&m.rtok)
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	S.Point("rwmutex trylock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(&m.wtok)
	raceAcquire(&m.rtok)
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	if S == nil || S.aborting {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(&m.wtok)
	m.writer = false
	m.rq.wakeAll()
	m.wq.wakeOne()
}

//go:noinline
func (m *RWMutex) RLock() {
	if S == nil {
		return
	}
	S.Point("rwmutex rlock")
	first := true
	for m.writer || (first && m.waiting > 0) {
		m.rq.park("rwmutex rlock")
		first = false
	}
	m.readers++
	raceAcquire(&m.wtok)
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	S.Point("rwmutex tryrlock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	raceAcquire(&m.wtok)
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if S == nil || S.aborting {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(&m.rtok)
	m.readers--
	if m.readers == 0 {
		if !m.wq.wakeOne() {
			m.rq.wakeAll()
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RLocker replaces (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n   int
	w   gq
	tok byte
}

//go:noinline
func (w *WaitGroup) Add(d int) {
	if S == nil || S.aborting {
		return
	}
	S.Point("waitgroup add")
	if d < 0 {
		raceRelease(&w.tok)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.w.wakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	S.Point("waitgroup wait")
	for w.n > 0 {
		w.w.park("waitgroup wait")
	}
	raceAcquire(&w.tok)
}

// Go replaces (*sync.WaitGroup).Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
	tok  byte
}

//go:noinline
func (o *Once) Do(f func()) {
	if S == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	S.Point("once")
	if o.done {
		raceAcquire(&o.tok)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	} else {
		raceAcquire(&o.tok)
	}
}

//go:noinline
func (o *Once) set() {
	raceRelease(&o.tok)
	o.done = true
}

// OnceFunc and friends replace the functions of package sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L   Locker
	w   gq
	tok byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	S.checkAbort()
	g := S.cur
	c.w.q = push(c.w.q, g)
	g.state = gBlocked
	c.L.Unlock()
	S.block(g, "cond wait")
	raceAcquire(&c.tok)
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	S.Point("cond signal")
	raceRelease(&c.tok)
	c.w.wakeOne()
}

//go:noinline
func (c *Cond) Broadcast() {
	S.Point("cond broadcast")
	raceRelease(&c.tok)
	c.w.wakeAll()
}

// Map replaces sync.Map (insertion-ordered).
type Map struct {
	keys []any
	vals []any
	tok  byte
}

func (m *Map) find(k any) int {
	for i, x := range m.keys {
		if x == k {
			return i
		}
	}
	return -1
}

//go:noinline
func (m *Map) enter() {
	if S != nil {
		S.Point("sync.Map")
	}
	raceAcquire(&m.tok)
	raceRelease(&m.tok)
}

//go:noinline
func (m *Map) Load(k any) (any, bool) {
	m.enter()
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

//go:noinline
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:noinline
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	if i := m.find(k); i >= 0 {
		o := m.vals[i]
		m.vals[i] = v
		return o, true
	}
	m.keys = push(m.keys, k)
	m.vals = push(m.vals, v)
	return nil, false
}

//go:noinline
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	m.keys = push(m.keys, k)
	m.vals = push(m.vals, v)
	return v, false
}

//go:noinline
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	if i := m.find(k); i >= 0 {
		o := m.vals[i]
		m.del(i)
		return o, true
	}
	return nil, false
}

func (m *Map) del(i int) {
	m.keys = without(m.keys, i)
	m.vals = without(m.vals, i)
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:noinline
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.enter()
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		m.vals[i] = new
		return true
	}
	return false
}

//go:noinline
func (m *Map) CompareAndDelete(k, old any) bool {
	m.enter()
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		m.del(i)
		return true
	}
	return false
}

//go:noinline
func (m *Map) Clear() {
	m.enter()
	m.keys, m.vals = nil, nil
}

//go:noinline
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	ks := append([]any{}, m.keys...)
	for _, k := range ks {
		if i := m.find(k); i >= 0 {
			if !f(k, m.vals[i]) {
				return
			}
			if S != nil {
				S.Point("sync.Map range")
			}
		}
	}
}

// Pool replaces sync.Pool: last in, first out, never dropping.
type Pool struct {
	New   func() any
	items []any
	tok   byte
}

//go:noinline
func (p *Pool) Get() any {
	if S != nil {
		S.Point("pool get")
	}
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		raceAcquire(&p.tok)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if S != nil {
		S.Point("pool put")
	}
	raceRelease(&p.tok)
	p.items = push(p.items, v)
}
