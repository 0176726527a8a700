package simhttp

import (
	"context"
	"crypto/tls"
	"errors"
	"net"
	"net/http"
	"net/url"
	"time"
)

// Transport stands in for http.Transport in main packages: whatever its settings, requests go to the simulated network.
// The timeout for response headers is honoured; there are no connections the other settings could apply to.
type Transport struct {
	Proxy                  func(*http.Request) (*url.URL, error)
	OnProxyConnectResponse func(ctx context.Context, proxyURL *url.URL, connectReq *http.Request, connectRes *http.Response) error
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	TLSNextProto           map[string]func(authority string, c *tls.Conn) http.RoundTripper
	ProxyConnectHeader     http.Header
	GetProxyConnectHeader  func(ctx context.Context, proxyURL *url.URL, target string) (http.Header, error)
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
}

// Network is the simulated network
var Network http.RoundTripper

var errNoNetwork = errors.New("no simulated network")
var errHeaderTimeout error = headerTimeout{}

type headerTimeout struct{}

func (headerTimeout) Error() string   { return "net/http: timeout awaiting response headers" }
func (headerTimeout) Timeout() bool   { return true }
func (headerTimeout) Temporary() bool { return true }

// RoundTrip hands the request to the simulated network
func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	if Network == nil {
		return nil, errNoNetwork
	}
	if t.ResponseHeaderTimeout <= 0 {
		return Network.RoundTrip(req)
	}
	ctx, cancel := context.WithCancelCause(req.Context())
	timer := time.AfterFunc(t.ResponseHeaderTimeout, func() { cancel(errHeaderTimeout) })
	res, err := Network.RoundTrip(req.WithContext(ctx))
	timer.Stop()
	if err != nil && context.Cause(ctx) == errHeaderTimeout {
		return nil, errHeaderTimeout
	}
	return res, err
}

// Clone copies the settings
func (t *Transport) Clone() *Transport {
	u := *t
	return &u
}

// CloseIdleConnections does nothing
func (t *Transport) CloseIdleConnections() {}

// CancelRequest does nothing
func (t *Transport) CancelRequest(*http.Request) {}

// RegisterProtocol does nothing
func (t *Transport) RegisterProtocol(string, http.RoundTripper) {}
