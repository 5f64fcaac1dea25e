//go:build go1.24

// Package vhttp replaces net/http servers and clients: a request is serialised,
// parsed and handed to the server's handler by the client, without a network.
package vhttp

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/verifmc/vnet"
	"github.com/getsolus/ferryd/src/verifmc/vsched"
)

// Server replaces http.Server.
type Server struct {
	Addr              string
	Handler           http.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(net.Listener) context.Context
	onShutdown        []func()
	ls                []net.Listener
	shut              bool
	closed            bool
	active            int
}

type tab struct{ m map[string]*Server }
type key struct{}

func table() map[string]*Server {
	r := vsched.Local(key{}, func() any { return &tab{map[string]*Server{}} })
	if r == nil {
		return map[string]*Server{}
	}
	return r.(*tab).m
}

// Served returns the server accepting on a socket.
func Served(path string) *Server {
	l := vnet.Lookup(path)
	if l == nil {
		return nil
	}
	s := table()[l.Path]
	if s == nil || s.shut {
		return nil
	}
	return s
}

func (s *Server) RegisterOnShutdown(f func()) { s.onShutdown = append(s.onShutdown, f) }

// Serve accepts until shut down.
func (s *Server) Serve(l net.Listener) error {
	vsched.Point("serve")
	if s.shut {
		l.Close()
		return http.ErrServerClosed
	}
	s.ls = append(s.ls, l)
	table()[l.Addr().String()] = s
	vl, _ := l.(*vnet.VListener)
	vsched.Block("serve", func() bool { return s.shut || (vl != nil && vl.Closed) })
	if s.shut {
		return http.ErrServerClosed
	}
	return errors.New("accept: use of closed network connection")
}

// Shutdown stops accepting and waits for active requests.
func (s *Server) Shutdown(ctx context.Context) error {
	vsched.Point("http shutdown")
	s.shut = true
	for _, l := range s.ls {
		l.Close()
	}
	if s.active > 0 {
		if ctx == nil {
			panic("runtime error: invalid memory address or nil pointer dereference (nil context in http Shutdown with active connections)")
		}
		vsched.Block("http shutdown wait", func() bool { return s.active == 0 || s.closed || ctx.Err() != nil })
		return ctx.Err()
	}
	return nil
}

// Close stops accepting.
func (s *Server) Close() error {
	vsched.Point("http close")
	s.shut, s.closed = true, true
	for _, l := range s.ls {
		l.Close()
	}
	return nil
}

// Transport replaces http.Transport.
type Transport struct {
	Proxy                 func(*http.Request) (*url.URL, error)
	DialContext           func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                  func(network, addr string) (net.Conn, error)
	DisableKeepAlives     bool
	DisableCompression    bool
	MaxIdleConns          int
	MaxIdleConnsPerHost   int
	MaxConnsPerHost       int
	IdleConnTimeout       time.Duration
	ResponseHeaderTimeout time.Duration
	ExpectContinueTimeout time.Duration
	TLSHandshakeTimeout   time.Duration
	ForceAttemptHTTP2     bool
}

func (t *Transport) CloseIdleConnections() {}

// RoundTrip performs one request.
func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	dial := t.DialContext
	if dial == nil {
		return nil, errors.New("no dialer")
	}
	c, err := dial(req.Context(), "tcp", req.URL.Host)
	if err != nil {
		return nil, err
	}
	vc, ok := c.(*vnet.VConn)
	if !ok {
		return nil, errors.New("not a virtual connection")
	}
	var raw bytes.Buffer
	if err := req.Write(&raw); err != nil {
		return nil, err
	}
	// the connection waits in the backlog until the server accepts
	vsched.Block("await accept", func() bool {
		return vc.L.Closed || table()[vc.L.Path] != nil
	})
	if vc.L.Closed {
		return nil, io.ErrUnexpectedEOF
	}
	s := table()[vc.L.Path]
	return s.Exchange(raw.Bytes(), vsched.FindProc(vc.L.Pid))
}

// Exchange handles one raw request in the server's process.
func (s *Server) Exchange(raw []byte, proc *vsched.Proc) (*http.Response, error) {
	if s.shut {
		return nil, io.ErrUnexpectedEOF
	}
	s.active++
	var rec *httptest.ResponseRecorder
	var failed error
	run := func() {
		defer func() { s.active-- }()
		req, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw)))
		if err != nil {
			rec = httptest.NewRecorder()
			http.Error(rec, "400 Bad Request", 400)
			return
		}
		req.RemoteAddr = "@"
		rec = httptest.NewRecorder()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vsched.Killed); ok || vsched.Dying() {
					panic(r)
				}
				// net/http recovers handler panics and drops the connection
				HandlerPanics = append(HandlerPanics, fmt.Sprint(r))
				failed = io.EOF
			}
		}()
		s.Handler.ServeHTTP(rec, req)
	}
	if proc == nil {
		run()
	} else {
		if !vsched.Call("http conn", proc, "await response", run) {
			return nil, io.ErrUnexpectedEOF
		}
	}
	if failed != nil {
		return nil, failed
	}
	resp := rec.Result()
	body := rec.Body.Bytes()
	resp.ContentLength = int64(len(body))
	if len(body) > 2048 {
		resp.ContentLength = -1 // sent in chunks by the real server
	}
	resp.Body = io.NopCloser(bytes.NewReader(body))
	return resp, nil
}

// HandlerPanics lists recovered handler panics.
var HandlerPanics []string

// Client replaces http.Client.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

func (c *Client) real() *http.Client {
	return &http.Client{Transport: c.Transport, CheckRedirect: c.CheckRedirect, Jar: c.Jar}
}

func (c *Client) Do(r *http.Request) (*http.Response, error) { return c.real().Do(r) }
func (c *Client) Get(u string) (*http.Response, error)       { return c.real().Get(u) }
func (c *Client) Head(u string) (*http.Response, error)      { return c.real().Head(u) }
func (c *Client) CloseIdleConnections()                      {}
func (c *Client) Post(u, t string, b io.Reader) (*http.Response, error) {
	return c.real().Post(u, t, b)
}
func (c *Client) PostForm(u string, d url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(d.Encode()))
}
