// Package simhttp stands in for the network listener of the web service: the handler a main function would serve
// is captured, so that the simulator can deliver requests to it.
package simhttp

import (
	"errors"
	"net"
	"net/http"
)

// Serving is panicked with by the stand-in listener, to leave main once it is serving
type Serving struct{}

// Captured is what main asked to be served
var Captured http.Handler

var errClosed = errors.New("simulated listener")

func capture(h http.Handler) error {
	if h == nil {
		h = http.DefaultServeMux
	}
	Captured = h
	panic(Serving{})
}

// ListenAndServe captures the handler
func ListenAndServe(addr string, h http.Handler) error { return capture(h) }

// ListenAndServeTLS captures the handler
func ListenAndServeTLS(addr, cert, key string, h http.Handler) error { return capture(h) }

// Serve captures the handler
func Serve(l net.Listener, h http.Handler) error { return capture(h) }

// ServeTLS captures the handler
func ServeTLS(l net.Listener, h http.Handler, cert, key string) error { return capture(h) }

// ServerServe is any of the methods of a server that serve; it captures the handler
func ServerServe(s *http.Server, _ ...interface{}) error { return capture(s.Handler) }

// Listen gives a listener that nobody connects to
func Listen(network, addr string) (net.Listener, error) { return listener{}, nil }

type listener struct{}

func (listener) Accept() (net.Conn, error) { return nil, errClosed }
func (listener) Close() error              { return nil }
func (listener) Addr() net.Addr            { return &net.TCPAddr{IP: net.IPv4zero, Port: 8080} }
