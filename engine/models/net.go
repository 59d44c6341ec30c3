// Package m_net stands in for the network and the operating system's signals: HTTP requests made by the program are
// served, in the requesting goroutine, by the handler of the HTTP server that listens on the address.
package m_net

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"syscall"
)

type server struct {
	addr     string
	h        http.Handler
	closing  bool
	down     chan struct{}
	inflight int
	idle     chan struct{}
	hung     int // requests that never end
}

var mu sync.Mutex // orders what happens to the state below
var servers = map[*http.Server]*server{}
var byAddr = map[string]*server{}

func of(s *http.Server) *server {
	if servers[s] == nil {
		servers[s] = &server{down: make(chan struct{}), idle: make(chan struct{}, 1)}
	}
	return servers[s]
}

func port(a string) string { return a[strings.LastIndexByte(a, ':')+1:] }

func serve(s *server, addr string, h http.Handler) error {
	mu.Lock()
	if s.closing {
		mu.Unlock()
		return http.ErrServerClosed
	}
	if byAddr[port(addr)] != nil {
		mu.Unlock()
		return errors.New("listen: address already in use")
	}
	if h == nil {
		h = http.DefaultServeMux
	}
	s.addr, s.h = addr, h
	byAddr[port(addr)] = s
	mu.Unlock()
	<-s.down
	return http.ErrServerClosed
}

//verif:model net/http.ListenAndServe
func ListenAndServe(addr string, h http.Handler) error {
	return serve(&server{down: make(chan struct{}), idle: make(chan struct{}, 1)}, addr, h)
}

//verif:model (*net/http.Server).ListenAndServe
func ServerListenAndServe(s *http.Server) error {
	mu.Lock()
	x := of(s)
	mu.Unlock()
	return serve(x, s.Addr, s.Handler)
}

type listener struct{ addr string }

func (l listener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l listener) Close() error              { return nil }
func (l listener) Addr() net.Addr            { return l }
func (l listener) Network() string           { return "tcp" }
func (l listener) String() string            { return l.addr }

//verif:model net.Listen
func Listen(network, addr string) (net.Listener, error) { return listener{addr}, nil }

//verif:model (*net/http.Server).Serve
func ServerServe(s *http.Server, l net.Listener) error {
	mu.Lock()
	x := of(s)
	mu.Unlock()
	return serve(x, l.Addr().String(), s.Handler)
}

//verif:model net/http.Serve
func Serve(l net.Listener, h http.Handler) error {
	return serve(&server{down: make(chan struct{}), idle: make(chan struct{}, 1)}, l.Addr().String(), h)
}

func stop(s *server) {
	if !s.closing {
		s.closing = true
		delete(byAddr, port(s.addr))
		close(s.down)
	}
}

//verif:model (*net/http.Server).Shutdown
func ServerShutdown(hs *http.Server, ctx context.Context) error {
	mu.Lock()
	s := of(hs)
	stop(s)
	for s.inflight > 0 {
		mu.Unlock()
		<-s.idle
		mu.Lock()
	}
	hung := s.hung
	mu.Unlock()
	if hung > 0 {
		if ctx.Done() == nil {
			select {} // waits for a request that never ends
		}
		return context.DeadlineExceeded
	}
	return nil
}

// conn is a connection over which a request is sent whose body never arrives in full.
type conn struct {
	net.Conn
	addr string
	s    *server
}

func (c *conn) Write(b []byte) (int, error) {
	f := strings.Fields(string(b))
	mu.Lock()
	c.s = byAddr[port(c.addr)]
	mu.Unlock()
	if _, err := do(f[0], "http://"+c.addr+f[1], nil); err != nil {
		return 0, err
	}
	mu.Lock()
	c.s.hung++
	mu.Unlock()
	return len(b), nil
}

func (c *conn) Close() error {
	mu.Lock()
	if c.s != nil {
		c.s.hung--
		c.s = nil
	}
	mu.Unlock()
	return nil
}

//verif:model net.Dial
func Dial(network, addr string) (net.Conn, error) {
	mu.Lock()
	defer mu.Unlock()
	if byAddr[port(addr)] == nil {
		return nil, errors.New("dial: connection refused")
	}
	return &conn{addr: addr}, nil
}

//verif:model (*net/http.Server).Close
func ServerClose(hs *http.Server) error {
	mu.Lock()
	stop(of(hs))
	mu.Unlock()
	return nil
}

type response struct {
	hdr  http.Header
	code int
	body []byte
}

func (r *response) Header() http.Header { return r.hdr }
func (r *response) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *response) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

func do(method, u string, body []byte) (*http.Response, error) {
	rest := strings.TrimPrefix(u, "http://")
	i := strings.IndexByte(rest, '/')
	host, path, query := rest[:i], rest[i:], ""
	if j := strings.IndexByte(path, '?'); j >= 0 {
		path, query = path[:j], path[j+1:]
	}
	mu.Lock()
	s := byAddr[port(host)]
	if s == nil {
		mu.Unlock()
		return nil, errors.New("dial: connection refused")
	}
	s.inflight++
	mu.Unlock()
	defer func() {
		mu.Lock()
		defer mu.Unlock()
		s.inflight--
		if s.inflight == 0 {
			select {
			case s.idle <- struct{}{}:
			default:
			}
		}
	}()
	w := &response{hdr: http.Header{}}
	s.h.ServeHTTP(w, &http.Request{Method: method, Host: host, RequestURI: rest[i:], URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))})
	if w.code == 0 {
		w.code = 200
	}
	return &http.Response{StatusCode: w.code, Header: w.hdr, Body: io.NopCloser(bytes.NewReader(w.body))}, nil
}

//verif:model net/http.Get
func Get(u string) (*http.Response, error) { return do("GET", u, nil) }

//verif:model net/http.Post
func Post(u, ct string, body io.Reader) (*http.Response, error) { return do("POST", u, nil) }

type watch struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var watches []watch

//verif:model os/signal.Notify
func Notify(c chan<- os.Signal, sigs ...os.Signal) { watches = append(watches, watch{c, sigs}) }

//verif:model os/signal.Stop
func Stop(c chan<- os.Signal) {
	for i := range watches {
		if watches[i].c == c {
			watches[i].sigs = []os.Signal{nil}
		}
	}
}

//verif:model os/signal.NotifyContext
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	go func() {
		select {
		case <-c:
			cancel()
		case <-ctx.Done():
		}
	}()
	return ctx, func() { cancel(); Stop(c) }
}

//verif:model syscall.Kill
func Kill(pid int, sig syscall.Signal) error {
	caught := false
	for _, w := range watches {
		for _, s := range w.sigs {
			if s == nil {
				continue
			}
			if x, ok := s.(syscall.Signal); ok && x == sig {
				caught = true
				select {
				case w.c <- s:
				default:
				}
			}
		}
		if len(w.sigs) == 0 {
			caught = true
			select {
			case w.c <- sig:
			default:
			}
		}
	}
	if !caught {
		panic("the signal ended the program")
	}
	return nil
}

//verif:model os.Getpid
func Getpid() int { return 1 }
