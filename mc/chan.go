package mc

// Channels with the semantics of the Go runtime's: a buffered ring, FIFO wait
// queues, select choosing among the ready cases (here: a recorded choice).

type hchan struct {
	cap    int
	buf    []any
	head   int
	n      int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	toks   []byte // one race token per slot
	utok   byte   // for close
	silent bool   // timer channel
}

type waiter struct {
	g   *G
	op  *selOp
	idx int
	val any // value to send
}

type selOp struct {
	done bool
	idx  int
	val  any
	ok   bool
	pnc  bool // woken by close while sending
	tok  byte // edge from the waking side
	ptok byte // edge from the parked side
}

func (q *hchan) slotTok(i int) *byte {
	if !RaceBuild || q.silent {
		return nil
	}
	if q.toks == nil {
		q.toks = make([]byte, q.cap)
	}
	return &q.toks[i]
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.op.done && w.g.state == gBlocked {
			return w
		}
	}
	return nil
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if !w.op.done && w.g.state == gBlocked {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (q *hchan) sendReady() bool {
	return q.closed || q.n < q.cap || hasWaiter(&q.recvq)
}

func (q *hchan) recvReady() bool {
	return q.n > 0 || q.closed || hasWaiter(&q.sendq)
}

// doSend performs a send known to be possible.
func (q *hchan) doSend(v any) {
	if q.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&q.recvq); w != nil {
		// direct hand-over
		w.op.done, w.op.idx, w.op.val, w.op.ok = true, w.idx, v, true
		if !q.silent {
			raceRelease(&w.op.tok)
			if q.cap == 0 {
				raceAcquire(&w.op.ptok) // the receiver was there before us (rendezvous)
			}
		}
		S.ready(w.g)
		return
	}
	i := (q.head + q.n) % q.cap
	t := q.slotTok(i)
	if t != nil {
		raceAcquire(t)
		raceRelease(t)
	}
	q.buf[i] = v
	q.n++
}

// doRecv performs a receive known to be possible.
func (q *hchan) doRecv() (any, bool) {
	if q.n > 0 {
		v := q.buf[q.head]
		q.buf[q.head] = nil
		t := q.slotTok(q.head)
		if t != nil {
			raceAcquire(t)
			raceRelease(t)
		}
		i := q.head
		q.head = (q.head + 1) % q.cap
		q.n--
		if w := popWaiter(&q.sendq); w != nil {
			j := (q.head + q.n) % q.cap
			_ = i
			q.buf[j] = w.val
			q.n++
			w.op.done, w.op.idx = true, w.idx
			// the parked sender's value becomes visible through this slot
			if t := q.slotTok(j); t != nil {
				raceAcquire(&w.op.ptok)
				raceRelease(t)
			}
			raceRelease(&w.op.tok)
			S.ready(w.g)
		}
		return v, true
	}
	if w := popWaiter(&q.sendq); w != nil {
		v := w.val
		w.op.done, w.op.idx = true, w.idx
		raceAcquire(&w.op.ptok)
		raceRelease(&w.op.tok)
		S.ready(w.g)
		return v, true
	}
	// closed
	raceAcquire(&q.utok)
	return nil, false
}

type scase struct {
	q    *hchan // nil: never ready
	send bool
	val  any
}

// sel runs a select; -1 is the default case.
func sel(cases []scase, def bool, what string) (int, any, bool) {
	s := S
	if s == nil { // package initialisation: nobody else is there
		for i := range cases {
			c := &cases[i]
			switch {
			case c.q == nil:
			case c.send && (c.q.closed || c.q.n < c.q.cap):
				c.q.doSend(c.val)
				return i, nil, false
			case !c.send && (c.q.n > 0 || c.q.closed):
				v, ok := c.q.doRecv()
				return i, v, ok
			}
		}
		if def {
			return -1, nil, false
		}
		panic("mc: " + what + " outside an execution would block for ever")
	}
	s.Point(what)
	g := s.cur
	var rbuf [8]int
	ready := rbuf[:0]
	for i := range cases {
		c := &cases[i]
		if c.q == nil {
			continue
		}
		if c.send && c.q.sendReady() || !c.send && c.q.recvReady() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[0]
		if len(ready) > 1 {
			if s.CaseLast {
				k = ready[len(ready)-1]
			} else if s.caseN++; s.caseN > s.cfg.SkipCases {
				k = ready[s.choose(KCase, len(ready), s.cfg.CaseCost)]
			}
		}
		c := &cases[k]
		if c.send {
			c.q.doSend(c.val)
			return k, nil, false
		}
		v, ok := c.q.doRecv()
		return k, v, ok
	}
	if def {
		return -1, nil, false
	}
	op := &selOp{}
	raceRelease(&op.ptok)
	var wbuf [8]*waiter
	for i := range cases {
		c := &cases[i]
		if c.q == nil {
			continue
		}
		w := &waiter{g: g, op: op, idx: i, val: c.val}
		if i < len(wbuf) {
			wbuf[i] = w
		}
		if c.send {
			hasWaiter(&c.q.sendq) // drop those that are over
			c.q.sendq = push(c.q.sendq, w)
		} else {
			hasWaiter(&c.q.recvq)
			c.q.recvq = push(c.q.recvq, w)
		}
	}
	g.state = gBlocked
	s.block(g, what)
	raceAcquire(&op.tok)
	if op.pnc {
		panic("send on closed channel")
	}
	// what is left in the queues of other channels must not keep values alive
	v := op.val
	op.val = nil
	for _, w := range wbuf {
		if w != nil {
			w.val = nil
		}
	}
	return op.idx, v, op.ok
}

func (q *hchan) close() {
	s := S
	if s != nil {
		s.Point("close")
	}
	if q.closed {
		panic("close of closed channel")
	}
	q.closed = true
	raceRelease(&q.utok)
	for {
		w := popWaiter(&q.recvq)
		if w == nil {
			break
		}
		w.op.done, w.op.idx = true, w.idx
		raceRelease(&w.op.tok)
		s.ready(w.g)
	}
	for {
		w := popWaiter(&q.sendq)
		if w == nil {
			break
		}
		w.op.done, w.op.idx, w.op.pnc = true, w.idx, true
		s.ready(w.g)
	}
}

// Chan replaces chan T.
type Chan[T any] struct{ q hchan }

// MakeChan replaces make(chan T, n).
func MakeChan[T any, N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n N) *Chan[T] {
	c := &Chan[T]{}
	c.q.cap = int(n)
	c.q.buf = newBuf(int(n))
	return c
}

func newBuf(n int) []any { return make([]any, n) }

func (c *Chan[T]) core() *hchan {
	if c == nil {
		return nil
	}
	return &c.q
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) { send(c.core(), v) }

func send(q *hchan, v any) { sel([]scase{{q, true, v}}, false, "chan send") }
func recv(q *hchan) (any, bool) {
	_, v, ok := sel([]scase{{q, false, nil}}, false, "chan receive")
	return v, ok
}

// Recv is <-c.
func (c *Chan[T]) Recv() T {
	v, _ := recv(c.core())
	t, _ := v.(T)
	return t
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	v, ok := recv(c.core())
	t, _ := v.(T)
	return t, ok
}

// Close is close(c).
func (c *Chan[T]) Close() { c.q.close() }

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	if S != nil {
		S.Point("chan len")
	}
	return c.q.n
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.q.cap
}

// Range is for v := range c.
func (c *Chan[T]) Range() func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// PutTick is used by timers: a send that never blocks.
func (c *Chan[T]) PutTick(v T) {
	if hasWaiter(&c.q.recvq) || c.q.n < c.q.cap {
		c.q.doSend(v)
	}
}

// Drop empties the buffer (timer Stop/Reset).
func (c *Chan[T]) Drop() {
	for c.q.n > 0 {
		c.q.buf[c.q.head] = nil
		c.q.head = (c.q.head + 1) % c.q.cap
		c.q.n--
	}
}

// Case is one communication of a select statement.
type Case interface {
	scase() scase
	set(v any, ok bool)
}

// RCase is a receive case; V and OK hold the result.
type RCase[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
}

func (r *RCase[T]) scase() scase { return scase{r.c.core(), false, nil} }
func (r *RCase[T]) set(v any, ok bool) {
	r.V, _ = v.(T)
	r.OK = ok
}

// SCase is a send case.
type SCase[T any] struct {
	c *Chan[T]
	v T
}

func (r *SCase[T]) scase() scase       { return scase{r.c.core(), true, r.v} }
func (r *SCase[T]) set(v any, ok bool) {}

// OnRecv and OnSend as methods, for rewritten select statements.
func (c *Chan[T]) OnRecv() *RCase[T]    { return &RCase[T]{c: c} }
func (c *Chan[T]) OnSend(v T) *SCase[T] { return &SCase[T]{c: c, v: v} }

// OnRecv builds a receive case.
func OnRecv[T any](c *Chan[T]) *RCase[T] { return &RCase[T]{c: c} }

// OnSend builds a send case.
func OnSend[T any](c *Chan[T], v T) *SCase[T] { return &SCase[T]{c: c, v: v} }

// Select runs a select statement and returns the index of the case taken, or -1 for default.
func Select(def bool, cases ...Case) int {
	sc := make([]scase, len(cases))
	for i, c := range cases {
		sc[i] = c.scase()
	}
	k, v, ok := sel(sc, def, "select")
	if k >= 0 {
		cases[k].set(v, ok)
	}
	return k
}
