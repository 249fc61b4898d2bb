// Package net mirrors the standard package: UDP sends are recorded, nothing
// touches a real network.
package net

import (
	"errors"
	o_ "net"
	"strconv"
	"time"

	"verif/mc"
)

// UDPConn is a simulated UDP socket.
type UDPConn struct {
	remote *o_.UDPAddr
	closed bool
}

var errClosed = &o_.OpError{Op: "write", Net: "udp", Err: o_.ErrClosed}

func (c *UDPConn) send(b []byte, to string) (int, error) {
	if c.closed {
		mc.RecordUDP("closed socket", b)
		return 0, errClosed
	}
	if len(b) > 65507 {
		return 0, &o_.OpError{Op: "write", Net: "udp", Err: errors.New("message too long")}
	}
	if err := mc.RecordUDP(to, b); err != nil {
		return 0, &o_.OpError{Op: "write", Net: "udp", Err: err}
	}
	return len(b), nil
}

func (c *UDPConn) WriteToUDP(b []byte, a *o_.UDPAddr) (int, error) { return c.send(b, a.String()) }
func (c *UDPConn) WriteTo(b []byte, a o_.Addr) (int, error)        { return c.send(b, a.String()) }
func (c *UDPConn) Write(b []byte) (int, error) {
	if c.remote == nil {
		return 0, errors.New("destination address required")
	}
	return c.send(b, c.remote.String())
}
func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *o_.UDPAddr) (int, int, error) {
	n, err := c.send(b, a.String())
	return n, 0, err
}
func (c *UDPConn) Read(b []byte) (int, error)              { mc.BlockForever(); return 0, nil }
func (c *UDPConn) ReadFrom(b []byte) (int, o_.Addr, error) { mc.BlockForever(); return 0, nil, nil }
func (c *UDPConn) ReadFromUDP(b []byte) (int, *o_.UDPAddr, error) {
	mc.BlockForever()
	return 0, nil, nil
}
func (c *UDPConn) Close() error {
	if c.closed {
		return o_.ErrClosed
	}
	c.closed = true
	mc.UDPOpened(-1)
	return nil
}
func (c *UDPConn) LocalAddr() o_.Addr                 { return &o_.UDPAddr{IP: o_.IPv4(127, 0, 0, 1), Port: 40000} }
func (c *UDPConn) RemoteAddr() o_.Addr                { return c.remote }
func (c *UDPConn) SetDeadline(t time.Time) error      { return nil }
func (c *UDPConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(int) error            { return nil }
func (c *UDPConn) SetWriteBuffer(int) error           { return nil }

func isUDP(n string) bool { return n == "udp" || n == "udp4" || n == "udp6" }

func ListenPacket(network, address string) (o_.PacketConn, error) {
	if !isUDP(network) {
		return nil, errors.New("mc: unsupported network " + network)
	}
	mc.UDPOpened(1)
	return &UDPConn{}, nil
}

func ListenUDP(network string, a *o_.UDPAddr) (*UDPConn, error) {
	mc.UDPOpened(1)
	return &UDPConn{}, nil
}

func DialUDP(network string, l, r *o_.UDPAddr) (*UDPConn, error) {
	mc.UDPOpened(1)
	return &UDPConn{remote: r}, nil
}

func Dial(network, address string) (o_.Conn, error) {
	if !isUDP(network) {
		return nil, &o_.OpError{Op: "dial", Net: network, Err: mc.ErrConn}
	}
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, err
	}
	return DialUDP(network, nil, a)
}

func DialTimeout(network, address string, d time.Duration) (o_.Conn, error) {
	return Dial(network, address)
}

func ResolveUDPAddr(network, address string) (*o_.UDPAddr, error) {
	h, p, err := o_.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, &o_.AddrError{Err: "unknown port", Addr: address}
	}
	ip := o_.ParseIP(h)
	if ip == nil && h != "" {
		ip = o_.IPv4(127, 0, 0, 1)
	}
	return &o_.UDPAddr{IP: ip, Port: port}, nil
}

// FakeListener stands for a TCP listener.
type FakeListener struct {
	A    string
	done *mc.Chan[struct{}]
	dead bool
}

func (l *FakeListener) Accept() (o_.Conn, error) {
	if !l.dead {
		l.done.Recv2()
	}
	return nil, o_.ErrClosed
}
func (l *FakeListener) Close() error {
	if !l.dead {
		l.dead = true
		l.done.Close()
	}
	return nil
}
func (l *FakeListener) Wait()         { l.Accept() }
func (l *FakeListener) Addr() o_.Addr { return fakeAddr(l.A) }

type fakeAddr string

func (a fakeAddr) Network() string { return "tcp" }
func (a fakeAddr) String() string  { return string(a) }

func Listen(network, address string) (o_.Listener, error) {
	return &FakeListener{A: address, done: mc.MakeChan[struct{}](0)}, nil
}
