// Code generated by genmirror. DO NOT EDIT.

package net

import o_ "net"

type Addr = o_.Addr
type AddrError = o_.AddrError
type Buffers = o_.Buffers

var CIDRMask = o_.CIDRMask

type Conn = o_.Conn
type DNSConfigError = o_.DNSConfigError
type DNSError = o_.DNSError

var DefaultResolver = o_.DefaultResolver
var DialIP = o_.DialIP
var DialTCP = o_.DialTCP
var DialUnix = o_.DialUnix

type Dialer = o_.Dialer

var ErrClosed = o_.ErrClosed
var ErrWriteToConnected = o_.ErrWriteToConnected

type Error = o_.Error

var FileConn = o_.FileConn
var FileListener = o_.FileListener
var FilePacketConn = o_.FilePacketConn

const FlagBroadcast = o_.FlagBroadcast
const FlagLoopback = o_.FlagLoopback
const FlagMulticast = o_.FlagMulticast
const FlagPointToPoint = o_.FlagPointToPoint
const FlagRunning = o_.FlagRunning
const FlagUp = o_.FlagUp

type Flags = o_.Flags
type HardwareAddr = o_.HardwareAddr
type IP = o_.IP
type IPAddr = o_.IPAddr
type IPConn = o_.IPConn
type IPMask = o_.IPMask
type IPNet = o_.IPNet

var IPv4 = o_.IPv4
var IPv4Mask = o_.IPv4Mask
var IPv4allrouter = o_.IPv4allrouter
var IPv4allsys = o_.IPv4allsys
var IPv4bcast = o_.IPv4bcast

const IPv4len = o_.IPv4len

var IPv4zero = o_.IPv4zero
var IPv6interfacelocalallnodes = o_.IPv6interfacelocalallnodes

const IPv6len = o_.IPv6len

var IPv6linklocalallnodes = o_.IPv6linklocalallnodes
var IPv6linklocalallrouters = o_.IPv6linklocalallrouters
var IPv6loopback = o_.IPv6loopback
var IPv6unspecified = o_.IPv6unspecified
var IPv6zero = o_.IPv6zero

type Interface = o_.Interface

var InterfaceAddrs = o_.InterfaceAddrs
var InterfaceByIndex = o_.InterfaceByIndex
var InterfaceByName = o_.InterfaceByName
var Interfaces = o_.Interfaces

type InvalidAddrError = o_.InvalidAddrError

var JoinHostPort = o_.JoinHostPort

type KeepAliveConfig = o_.KeepAliveConfig
type ListenConfig = o_.ListenConfig

var ListenIP = o_.ListenIP
var ListenMulticastUDP = o_.ListenMulticastUDP
var ListenTCP = o_.ListenTCP
var ListenUnix = o_.ListenUnix
var ListenUnixgram = o_.ListenUnixgram

type Listener = o_.Listener

var LookupAddr = o_.LookupAddr
var LookupCNAME = o_.LookupCNAME
var LookupHost = o_.LookupHost
var LookupIP = o_.LookupIP
var LookupMX = o_.LookupMX
var LookupNS = o_.LookupNS
var LookupPort = o_.LookupPort
var LookupSRV = o_.LookupSRV
var LookupTXT = o_.LookupTXT

type MX = o_.MX
type NS = o_.NS
type OpError = o_.OpError
type PacketConn = o_.PacketConn

var ParseCIDR = o_.ParseCIDR

type ParseError = o_.ParseError

var ParseIP = o_.ParseIP
var ParseMAC = o_.ParseMAC
var Pipe = o_.Pipe
var ResolveIPAddr = o_.ResolveIPAddr
var ResolveTCPAddr = o_.ResolveTCPAddr
var ResolveUnixAddr = o_.ResolveUnixAddr

type Resolver = o_.Resolver
type SRV = o_.SRV

var SplitHostPort = o_.SplitHostPort

type TCPAddr = o_.TCPAddr

var TCPAddrFromAddrPort = o_.TCPAddrFromAddrPort

type TCPConn = o_.TCPConn
type TCPListener = o_.TCPListener
type UDPAddr = o_.UDPAddr

var UDPAddrFromAddrPort = o_.UDPAddrFromAddrPort

type UnixAddr = o_.UnixAddr
type UnixConn = o_.UnixConn
type UnixListener = o_.UnixListener
type UnknownNetworkError = o_.UnknownNetworkError
