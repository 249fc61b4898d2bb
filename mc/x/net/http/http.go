// Package http mirrors net/http: requests are answered by the harness,
// servers register their handler with it.
package http

import (
	"bytes"
	o_c "context"
	"crypto/tls"
	"errors"
	"io"
	"log"
	onet "net"
	o_ "net/http"
	"net/url"
	"strings"
	"time"

	"verif/mc"
	xctx "verif/mc/x/context"
	xnet "verif/mc/x/net"
)

// Client is a simulated HTTP client.
type Client struct {
	Transport     o_.RoundTripper
	CheckRedirect func(req *o_.Request, via []*o_.Request) error
	Jar           o_.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

type timeoutError struct{ s string }

func (e *timeoutError) Error() string   { return e.s }
func (e *timeoutError) Timeout() bool   { return true }
func (e *timeoutError) Temporary() bool { return true }

// wait lets d of virtual time pass, or less if the limit (zero: none) or the context ends first.
func wait(d time.Duration, hang bool, limit time.Time, ctx o_c.Context) error {
	var t, lim *mc.Chan[time.Time]
	if !hang {
		if d <= 0 {
			return nil
		}
		t = mc.After(d)
	}
	if !limit.IsZero() {
		lim = mc.After(mc.Until(limit))
	}
	var done *mc.Chan[struct{}]
	if c := xctx.Of(ctx); c != nil {
		done = c.Sim
	}
	a, b, c := mc.OnRecv(t), mc.OnRecv(lim), mc.OnRecv(done)
	switch mc.Select(false, a, b, c) {
	case 0:
		return nil
	case 1:
		return &timeoutError{"context deadline exceeded (Client.Timeout exceeded while awaiting headers)"}
	default:
		return ctx.Err()
	}
}

func (c *Client) Do(req *o_.Request) (*o_.Response, error) {
	if req.URL == nil {
		return nil, &url.Error{Op: "Get", URL: "", Err: errors.New("http: nil Request.URL")}
	}
	op := req.Method
	if op == "" {
		op = "GET"
	}
	opn := op[:1] + strings.ToLower(op[1:])
	fail := func(err error) (*o_.Response, error) {
		return nil, &url.Error{Op: opn, URL: req.URL.String(), Err: err}
	}
	if req.URL.Host == "" {
		return fail(errors.New("http: no Host in request URL"))
	}
	call := &mc.HTTPCall{Method: op, URL: req.URL.String(), Host: req.URL.Host, Path: req.URL.Path, Header: map[string][]string(req.Header.Clone()), Timeout: c.Timeout}
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return fail(err)
		}
		call.Body = b
	}
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return fail(err)
	}
	var limit time.Time
	if c.Timeout > 0 {
		limit = mc.Now().Add(c.Timeout)
	}
	mc.AddCall(call)
	if err := wait(call.Delay, call.Hang, limit, ctx); err != nil {
		call.Done = mc.VNow()
		return fail(err)
	}
	call.Done = mc.VNow()
	if call.Err != nil {
		return fail(call.Err)
	}
	if call.Status == 0 {
		call.Status = 200
	}
	call.Answered = true
	resp := &o_.Response{
		Status: o_.StatusText(call.Status), StatusCode: call.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: o_.Header{"Content-Type": {"application/json; charset=utf-8"}}, ContentLength: -1, Request: req,
		Body: &body{call: call, rd: bytes.NewReader(call.Reply), limit: limit, ctx: ctx},
	}
	return resp, nil
}

type body struct {
	call   *mc.HTTPCall
	rd     *bytes.Reader
	limit  time.Time
	ctx    o_c.Context
	waited bool
	err    error
}

func (b *body) Read(p []byte) (int, error) {
	if b.call.BodyClosed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.err != nil {
		return 0, b.err
	}
	n, err := b.rd.Read(p)
	if err != io.EOF {
		return n, err
	}
	if !b.waited {
		b.waited = true
		if e := wait(b.call.BodyDelay, b.call.BodyHang, b.limit, b.ctx); e != nil {
			if _, ok := e.(*timeoutError); ok {
				e = &timeoutError{"context deadline exceeded (Client.Timeout or context cancellation while reading body)"}
			}
			b.err = e
			return 0, e
		}
	}
	if b.call.BodyErr != nil {
		b.err = b.call.BodyErr
	} else {
		b.err = io.EOF
		b.call.BodyEOF = true
	}
	return 0, b.err
}

func (b *body) Close() error {
	b.call.BodyClosed = true
	return nil
}

func (c *Client) Get(u string) (*o_.Response, error) {
	req, err := o_.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Head(u string) (*o_.Response, error) {
	req, err := o_.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Post(u, ct string, b io.Reader) (*o_.Response, error) {
	req, err := o_.NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ct)
	return c.Do(req)
}

func (c *Client) PostForm(u string, data url.Values) (*o_.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

func (c *Client) CloseIdleConnections() {}

func Get(u string) (*o_.Response, error)                    { return DefaultClient.Get(u) }
func Head(u string) (*o_.Response, error)                   { return DefaultClient.Head(u) }
func Post(u, ct string, b io.Reader) (*o_.Response, error)  { return DefaultClient.Post(u, ct, b) }
func PostForm(u string, d url.Values) (*o_.Response, error) { return DefaultClient.PostForm(u, d) }

// Server is a simulated HTTP server.
type Server struct {
	Addr                         string
	Handler                      o_.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ConnState                    func(onet.Conn, o_.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(onet.Listener) o_c.Context
	ConnContext                  func(ctx o_c.Context, c onet.Conn) o_c.Context

	ls   []onet.Listener
	dead bool
}

func (s *Server) ListenAndServe() error {
	l, _ := xnet.Listen("tcp", s.Addr)
	return s.Serve(l)
}

func (s *Server) ListenAndServeTLS(a, b string) error { return s.ListenAndServe() }

func (s *Server) Serve(l onet.Listener) error {
	if s.dead {
		return o_.ErrServerClosed
	}
	h := s.Handler
	if h == nil {
		h = o_.DefaultServeMux
	}
	a := l.Addr().String()
	i := mc.AddServer(a, h)
	if i < 0 {
		return &onet.OpError{Op: "listen", Net: "tcp", Err: errors.New("bind: address already in use")}
	}
	s.ls = append(s.ls, l)
	_, err := l.Accept()
	mc.DropServer(i)
	if s.dead {
		return o_.ErrServerClosed
	}
	return err
}

func (s *Server) Close() error {
	s.dead = true
	for _, l := range s.ls {
		l.Close()
	}
	return nil
}

func (s *Server) Shutdown(ctx o_c.Context) error { return s.Close() }
func (s *Server) SetKeepAlivesEnabled(bool)      {}
func (s *Server) RegisterOnShutdown(f func())    {}

func ListenAndServe(addr string, h o_.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func ListenAndServeTLS(addr, a, b string, h o_.Handler) error { return ListenAndServe(addr, h) }

func Serve(l onet.Listener, h o_.Handler) error { return (&Server{Handler: h}).Serve(l) }
