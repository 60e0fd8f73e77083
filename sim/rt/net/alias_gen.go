// Code generated by tools/genshim.py. DO NOT EDIT.
package net

import std "net"

type Addr = std.Addr
type AddrError = std.AddrError
type Buffers = std.Buffers
var CIDRMask = std.CIDRMask
type DNSConfigError = std.DNSConfigError
type DNSError = std.DNSError
var ErrClosed = std.ErrClosed
var ErrWriteToConnected = std.ErrWriteToConnected
type Error = std.Error
const FlagBroadcast = std.FlagBroadcast
const FlagLoopback = std.FlagLoopback
const FlagMulticast = std.FlagMulticast
const FlagPointToPoint = std.FlagPointToPoint
const FlagRunning = std.FlagRunning
const FlagUp = std.FlagUp
type Flags = std.Flags
type HardwareAddr = std.HardwareAddr
type IP = std.IP
type IPAddr = std.IPAddr
type IPMask = std.IPMask
type IPNet = std.IPNet
var IPv4 = std.IPv4
var IPv4Mask = std.IPv4Mask
var IPv4allrouter = std.IPv4allrouter
var IPv4allsys = std.IPv4allsys
var IPv4bcast = std.IPv4bcast
const IPv4len = std.IPv4len
var IPv4zero = std.IPv4zero
var IPv6interfacelocalallnodes = std.IPv6interfacelocalallnodes
const IPv6len = std.IPv6len
var IPv6linklocalallnodes = std.IPv6linklocalallnodes
var IPv6linklocalallrouters = std.IPv6linklocalallrouters
var IPv6loopback = std.IPv6loopback
var IPv6unspecified = std.IPv6unspecified
var IPv6zero = std.IPv6zero
type Interface = std.Interface
var InterfaceAddrs = std.InterfaceAddrs
var InterfaceByIndex = std.InterfaceByIndex
var InterfaceByName = std.InterfaceByName
var Interfaces = std.Interfaces
type InvalidAddrError = std.InvalidAddrError
var JoinHostPort = std.JoinHostPort
type KeepAliveConfig = std.KeepAliveConfig
type Listener = std.Listener
type MX = std.MX
type NS = std.NS
type OpError = std.OpError
type PacketConn = std.PacketConn
var ParseCIDR = std.ParseCIDR
type ParseError = std.ParseError
var ParseIP = std.ParseIP
var ParseMAC = std.ParseMAC
var ResolveIPAddr = std.ResolveIPAddr
var ResolveTCPAddr = std.ResolveTCPAddr
var ResolveUDPAddr = std.ResolveUDPAddr
var ResolveUnixAddr = std.ResolveUnixAddr
type SRV = std.SRV
var SplitHostPort = std.SplitHostPort
type TCPAddr = std.TCPAddr
var TCPAddrFromAddrPort = std.TCPAddrFromAddrPort
type UDPAddr = std.UDPAddr
var UDPAddrFromAddrPort = std.UDPAddrFromAddrPort
type UnixAddr = std.UnixAddr
type UnknownNetworkError = std.UnknownNetworkError
