// Package manners stands in for github.com/braintree/manners: the same API and
// the same shutdown handshake (Close waits until the serving goroutine has
// accepted it; ListenAndServe then waits for requests in flight).
package manners

import (
	"net"
	"net/http"
	"sync"
	"sync/atomic"
)

type GracefulServer struct {
	*http.Server
	shutdown chan bool
	wg       sync.WaitGroup
}

func NewWithServer(s *http.Server) *GracefulServer {
	return &GracefulServer{Server: s, shutdown: make(chan bool)}
}

func (s *GracefulServer) Close() bool { return <-s.shutdown }

func (s *GracefulServer) ListenAndServe() error {
	listener, err := net.Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return s.Serve(listener)
}

func (s *GracefulServer) Serve(listener net.Listener) error {
	var closing int32
	go func() {
		s.shutdown <- true
		close(s.shutdown)
		atomic.StoreInt32(&closing, 1)
		s.Server.SetKeepAlivesEnabled(false)
		listener.Close()
	}()
	inner := s.Server.Handler
	s.Server.Handler = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		s.StartRoutine()
		defer s.FinishRoutine()
		inner.ServeHTTP(rw, r)
	})
	err := s.Server.Serve(listener)
	if err == nil || atomic.LoadInt32(&closing) == 1 {
		s.wg.Wait()
		return nil
	}
	return err
}

func (s *GracefulServer) StartRoutine()  { s.wg.Add(1) }
func (s *GracefulServer) FinishRoutine() { s.wg.Done() }
