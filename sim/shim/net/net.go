// Package net stands in for the standard package in instrumented code.
package net

import (
	std "net"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/rt"
	"verif.local/sim/shim/context"
	"verif.local/sim/simnet"
)

// TCPConn and TCPListener are the simulated ones.
type (
	TCPConn     = simnet.Conn
	TCPListener = simnet.Listener
)

func nt() *simnet.Net { return simnet.Of(rt.W) }

func conn(c *simnet.Conn, err error) (std.Conn, error) {
	if err != nil {
		return nil, err
	}
	return c, nil
}

func okNet(n string) error {
	if n != "tcp" && n != "tcp4" && n != "tcp6" {
		return &std.OpError{Op: "dial", Net: n, Err: std.UnknownNetworkError(n)}
	}
	return nil
}

func Dial(network, addr string) (std.Conn, error) {
	if err := okNet(network); err != nil {
		return nil, err
	}
	return conn(nt().Dial(addr, 0))
}

func DialTimeout(network, addr string, d time.Duration) (std.Conn, error) {
	if err := okNet(network); err != nil {
		return nil, err
	}
	var dl int64
	if d > 0 {
		dl = rt.W.Now() + int64(d)
	}
	return conn(nt().Dial(addr, dl))
}

func Listen(network, addr string) (std.Listener, error) {
	if err := okNet(network); err != nil {
		return nil, err
	}
	l, err := nt().Listen(addr)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, a *std.TCPAddr) (*simnet.Listener, error) {
	return nt().Listen(a.String())
}

func DialTCP(network string, l, r *std.TCPAddr) (*simnet.Conn, error) {
	return nt().Dial(r.String(), 0)
}

func ResolveTCPAddr(network, addr string) (*std.TCPAddr, error) {
	i := strings.LastIndex(addr, ":")
	p, err := strconv.Atoi(addr[i+1:])
	if err != nil {
		return nil, err
	}
	return &std.TCPAddr{IP: std.ParseIP(addr[:i]), Port: p}, nil
}

func Pipe() (std.Conn, std.Conn) { a, b := nt().Pipe(); return a, b }

// Dialer as in the standard package.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       std.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	Resolver        *std.Resolver
	Cancel          <-chan struct{}
	KeepAliveConfig std.KeepAliveConfig
}

func (d *Dialer) dl() int64 {
	var x int64
	if d.Timeout > 0 {
		x = rt.W.Now() + int64(d.Timeout)
	}
	if !d.Deadline.IsZero() {
		y := simnet.DL(d.Deadline)
		if x == 0 || y < x {
			x = y
		}
	}
	return x
}

func (d *Dialer) Dial(network, addr string) (std.Conn, error) { return conn(nt().Dial(addr, d.dl())) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (std.Conn, error) {
	return conn(nt().DialContext(ctx, addr, d.dl()))
}

// ListenConfig as in the standard package.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig std.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, addr string) (std.Listener, error) {
	return Listen(network, addr)
}
