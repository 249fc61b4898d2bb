package mc

import (
	"errors"
	"os"
	"time"
)

// Env is the simulated outside world of one execution. No maps here: the
// runtime reports map accesses to the race detector whatever the package.
type Env struct {
	UDP      []Datagram
	UDPFault func(n int) error // answer to the n-th datagram (nil: sent)
	UDPConns int               // sockets opened
	HTTP     func(c *HTTPCall) // answers client requests (called in the requesting goroutine)
	Calls    []*HTTPCall
	servers  []server
	Mem      *MemValues // values the runtime reports, nil: the real ones
}

// MemValues are answers of package runtime chosen by the harness.
type MemValues struct{ Next func(name string) float64 }

type server struct {
	addr string
	h    any
	dead bool
}

// Datagram is one UDP packet the program sent.
type Datagram struct {
	To   string
	Data []byte
	At   time.Duration // virtual
	OK   bool          // false: the write failed
}

// HTTPCall is one outgoing HTTP request. The harness fills in the answer.
type HTTPCall struct {
	Method, URL string
	Host, Path  string
	Header      map[string][]string
	Body        []byte
	Timeout     time.Duration // 0: none
	At          time.Duration

	Err       error         // transport error
	Status    int           // status code (0: 200)
	Reply     []byte        // body
	BodyErr   error         // error after Reply was read
	Delay     time.Duration // virtual time before the answer
	Hang      bool          // never answer
	BodyDelay time.Duration // virtual time between header and end of body
	BodyHang  bool

	Answered   bool // a response was returned to the program
	BodyClosed bool
	BodyEOF    bool
	Done       time.Duration // when Do returned
}

func newEnv() *Env { return &Env{} }

// ErrConn is the transport error used for refused connections.
var ErrConn = errors.New("dial tcp: connection refused")

//go:noinline
func RecordUDP(to string, data []byte) error {
	s := S
	s.Point("udp write")
	var err error
	if s.Env.UDPFault != nil {
		err = s.Env.UDPFault(len(s.Env.UDP))
	}
	s.Env.UDP = push(s.Env.UDP, Datagram{To: to, Data: append([]byte{}, data...), At: s.now, OK: err == nil})
	return err
}

//go:noinline
func UDPOpened(d int) { S.Env.UDPConns += d }

//go:noinline
func AddServer(addr string, h any) int {
	s := S
	for i := range s.Env.servers {
		if s.Env.servers[i].addr == addr && !s.Env.servers[i].dead {
			return -1
		}
	}
	s.Env.servers = push(s.Env.servers, server{addr: addr, h: h})
	return len(s.Env.servers) - 1
}

//go:noinline
func DropServer(i int) { S.Env.servers[i].dead = true }

// Server returns the handler listening at addr (nil: none).
//
//go:noinline
func Server(addr string) any {
	for _, x := range S.Env.servers {
		if x.addr == addr && !x.dead {
			return x.h
		}
	}
	return nil
}

//go:noinline
func AddCall(c *HTTPCall) {
	c.At = S.now
	S.Env.Calls = push(S.Env.Calls, c)
	S.Point("http request")
	if S.Env.HTTP != nil {
		S.Env.HTTP(c)
	} else {
		c.Err = ErrConn
	}
}

// LiveGoroutines is the number of goroutines of the program under test (main included).
//
//go:noinline
func LiveGoroutines() int { return len(S.live) }

// MemOverride asks the harness for a runtime statistic.
//
//go:noinline
func MemOverride(name string) (float64, bool) {
	if S == nil || S.Env.Mem == nil {
		return 0, false
	}
	return S.Env.Mem.Next(name), true
}

// Wrap gives the controlled channel behind a real one handed out by a mirrored package.
func Wrap[T any](c <-chan T) *Chan[T] {
	if c == nil {
		return nil
	}
	for _, w := range S.wrapped {
		if r, ok := w.real.(<-chan T); ok && r == c {
			return w.sim.(*Chan[T])
		}
	}
	panic("mc: channel from an uncontrolled package")
}

type wrapT struct{ real, sim any }

//go:noinline
func RegisterWrap(real, sim any) { S.wrapped = push(S.wrapped, wrapT{real, sim}) }

// Process is who the program is told to be.
type Process struct {
	Host    string
	HostErr error
	Pid     int
}

var proc *Process // nil: the real one

// StartAs makes the program under test a freshly started process p.
func StartAs(p *Process) {
	proc = p
	for _, r := range resets {
		r.f()
	}
}

func Getpid() int {
	if proc != nil {
		return proc.Pid
	}
	return os.Getpid()
}

func Hostname() (string, error) {
	if proc != nil {
		if proc.HostErr != nil {
			return "", proc.HostErr
		}
		return proc.Host, nil
	}
	return os.Hostname()
}
