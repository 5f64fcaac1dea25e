//go:build go1.24

// Package vcloudflare is the real client library with the network cut off:
// requests reach Transport, or fail.
package vcloudflare

import (
	"errors"
	"net/http"

	real "github.com/cloudflare/cloudflare-go"
)

// Transport answers all requests.
var Transport http.RoundTripper

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	if Transport == nil {
		return nil, errors.New("verif: no network")
	}
	return Transport.RoundTrip(r)
}

func opts(l []real.Option) []real.Option {
	return append(append([]real.Option{}, l...), real.HTTPClient(&http.Client{Transport: transport{}}), real.UsingRetryPolicy(0, 0, 0), real.UsingRateLimit(1e6))
}

func NewWithAPIToken(token string, o ...real.Option) (*real.API, error) {
	return real.NewWithAPIToken(token, opts(o)...)
}

func New(key, email string, o ...real.Option) (*real.API, error) {
	return real.New(key, email, opts(o)...)
}

func NewWithUserServiceKey(key string, o ...real.Option) (*real.API, error) {
	return real.NewWithUserServiceKey(key, opts(o)...)
}
