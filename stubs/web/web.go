// Package web stands in for github.com/gocraft/web (which is not available
// offline): routers with subrouters, middleware, exact-path GET/POST/...
// routes, context structs created per request, and the response writer.
package web

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"
)

type ResponseWriter interface {
	http.ResponseWriter
	StatusCode() int
	Written() bool
	Size() int
}

type Request struct {
	*http.Request
	PathParams map[string]string
	route      string
}

func (r *Request) RoutePath() string { return r.route }
func (r *Request) IsRouted() bool    { return r.route != "" }

type NextMiddlewareFunc func(ResponseWriter, *Request)
type Handler func(ResponseWriter, *Request)
type GenericHandler func(ResponseWriter, *Request)
type GenericMiddleware func(ResponseWriter, *Request, NextMiddlewareFunc)

type responseWriter struct {
	http.ResponseWriter
	status, size int
}

func (w *responseWriter) WriteHeader(c int) {
	w.status = c
	w.ResponseWriter.WriteHeader(c)
}
func (w *responseWriter) Write(b []byte) (int, error) {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	n, err := w.ResponseWriter.Write(b)
	w.size += n
	return n, err
}
func (w *responseWriter) StatusCode() int { return w.status }
func (w *responseWriter) Written() bool   { return w.status != 0 }
func (w *responseWriter) Size() int       { return w.size }

type route struct {
	method, path string
	h            reflect.Value
	r            *Router
}

type Router struct {
	parent     *Router
	prefix     string
	ctx        reflect.Type
	middleware []reflect.Value
	routes     *[]route
	notFound   reflect.Value
}

func New(ctx interface{}) *Router {
	return &Router{ctx: reflect.TypeOf(ctx), routes: &[]route{}}
}

func NewWithPrefix(ctx interface{}, prefix string) *Router {
	r := New(ctx)
	r.prefix = prefix
	return r
}

func (r *Router) Subrouter(ctx interface{}, prefix string) *Router {
	return &Router{parent: r, prefix: r.prefix + prefix, ctx: reflect.TypeOf(ctx), routes: r.routes}
}

func (r *Router) Middleware(fn interface{}) *Router {
	r.middleware = append(r.middleware, reflect.ValueOf(fn))
	return r
}

func (r *Router) NotFound(fn interface{}) *Router { r.notFound = reflect.ValueOf(fn); return r }
func (r *Router) Error(fn interface{}) *Router    { return r }

func (r *Router) add(m, path string, fn interface{}) *Router {
	*r.routes = append(*r.routes, route{m, r.prefix + path, reflect.ValueOf(fn), r})
	return r
}

func (r *Router) Get(p string, fn interface{}) *Router     { return r.add("GET", p, fn) }
func (r *Router) Post(p string, fn interface{}) *Router    { return r.add("POST", p, fn) }
func (r *Router) Put(p string, fn interface{}) *Router     { return r.add("PUT", p, fn) }
func (r *Router) Delete(p string, fn interface{}) *Router  { return r.add("DELETE", p, fn) }
func (r *Router) Patch(p string, fn interface{}) *Router   { return r.add("PATCH", p, fn) }
func (r *Router) Head(p string, fn interface{}) *Router    { return r.add("HEAD", p, fn) }
func (r *Router) Options(p string, fn interface{}) *Router { return r.add("OPTIONS", p, fn) }

func (r *Router) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	w := &responseWriter{ResponseWriter: rw}
	wr := &Request{Request: req, PathParams: map[string]string{}}
	path := req.URL.Path
	if len(path) > 1 {
		path = strings.TrimSuffix(path, "/")
	}
	for _, rt := range *r.routes {
		if rt.method != req.Method || rt.path != path {
			continue
		}
		wr.route = rt.path
		rt.run(w, wr)
		return
	}
	if r.notFound.IsValid() {
		if r.notFound.Type().NumIn() == 2 {
			r.notFound.Call([]reflect.Value{reflect.ValueOf(w), reflect.ValueOf(wr)})
		} else {
			r.notFound.Call([]reflect.Value{reflect.New(r.ctx), reflect.ValueOf(w), reflect.ValueOf(wr)})
		}
		return
	}
	w.WriteHeader(404)
	fmt.Fprint(w, "Not Found")
}

func (rt *route) run(w ResponseWriter, req *Request) {
	var chain []*Router
	for r := rt.r; r != nil; r = r.parent {
		chain = append([]*Router{r}, chain...)
	}
	type step struct {
		f   reflect.Value
		ctx reflect.Value
	}
	var steps []step
	ctx := reflect.New(chain[0].ctx)
	for i, r := range chain {
		if i > 0 && r.ctx != chain[i-1].ctx {
			n := reflect.New(r.ctx)
			n.Elem().Field(0).Set(ctx) // by convention the first field points to the parent context
			ctx = n
		}
		for _, m := range r.middleware {
			steps = append(steps, step{m, ctx})
		}
	}
	var next func(i int) NextMiddlewareFunc
	next = func(i int) NextMiddlewareFunc {
		return func(w ResponseWriter, req *Request) {
			args := []reflect.Value{reflect.ValueOf(w), reflect.ValueOf(req)}
			if i == len(steps) {
				if rt.h.Type().NumIn() == 3 {
					args = append([]reflect.Value{ctx}, args...)
				}
				rt.h.Call(args)
				return
			}
			args = append(args, reflect.ValueOf(next(i+1)))
			if steps[i].f.Type().NumIn() == 4 {
				args = append([]reflect.Value{steps[i].ctx}, args...)
			}
			steps[i].f.Call(args)
		}
	}
	next(0)(w, req)
}
