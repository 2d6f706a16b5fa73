// Package vndnet stands in for the network: what dials or listens gets what the harness provides.
package vndnet

import (
	"context"
	"errors"
	"net"
	"time"
)

var (
	OnDial   func(network, addr string) (net.Conn, error)
	OnListen func(network, addr string) (net.Listener, error)

	errNone = errors.New("no network")
)

type Dialer net.Dialer

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return Dial(network, addr)
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }

func Dial(network, addr string) (net.Conn, error) {
	if OnDial == nil {
		return nil, errNone
	}
	return OnDial(network, addr)
}

func DialTimeout(network, addr string, _ time.Duration) (net.Conn, error) { return Dial(network, addr) }

type ListenConfig net.ListenConfig

func (l *ListenConfig) Listen(ctx context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}

func Listen(network, addr string) (net.Listener, error) {
	if OnListen == nil {
		return nil, errNone
	}
	return OnListen(network, addr)
}
