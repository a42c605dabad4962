// Package world is the simulated environment of the nodes: network, Sisu RPC, SQL servers, disks.
package world

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/libp2p/go-libp2p/core/host"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-libp2p/core/peer"
	"github.com/libp2p/go-libp2p/core/protocol"
	ma "github.com/multiformats/go-multiaddr"

	rt "github.com/sisu-network/dheart/zzsim/rt"
)

// World is the environment of the current run.
type World struct {
	S      *rt.Sim
	Net    *Net
	RPC    *RPC
	Stores map[string]*Store
	Disks  map[string]*Disk
	Stats  map[string]int64
}

// W is the world of the current run.
var W *World

func New(s *rt.Sim) *World {
	W = &World{S: s, Stores: map[string]*Store{}, Disks: map[string]*Disk{}, Stats: map[string]int64{}}
	W.Net = &Net{w: W, hosts: map[peer.ID]*Host{}, byAddr: map[string]*Host{}, conns: map[string]*conn{}, part: map[string]bool{},
		FailListen: map[string]int{}, FailFind: map[string]int{}, MinLat: 2 * time.Millisecond, MaxLat: 200 * time.Millisecond, Window: 256 * 1024}
	W.RPC = &RPC{w: W, servers: map[string]*RPCServer{}}
	return W
}

func (w *World) Count(k string) { w.Stats[k]++ }

// Net is the simulated libp2p network: reliable ordered byte streams over connections that can
// break, be partitioned, delay and fragment.
type Net struct {
	WriteErrs int64 // writes to streams that were reset
	w         *World
	hosts     map[peer.ID]*Host
	byAddr    map[string]*Host
	conns     map[string]*conn
	part      map[string]bool
	linkN     int

	MinLat, MaxLat time.Duration
	PDelay         float64 // chance that a chunk is delayed beyond the minimum
	PFrag          float64 // chance that a write is split / a read is short
	PReset         float64 // chance that a write breaks the whole connection
	PConnFail      float64 // chance that a dial or stream open fails
	Window         int
	MaxDelay       time.Duration  // upper bound of the random extra delay
	Quiet          bool           // faults off
	FailListen     map[string]int // node -> how many of its next attempts to listen fail
	FailFind       map[string]int // node -> how many of its next attempts to join the DHT fail
	// Tap sees every complete frame at the moment it is written.
	Tap func(from, to peer.ID, proto protocol.ID, frame []byte)
	// Filter decides what happens to a frame; with a filter set, streams forward whole frames.
	Filter func(from, to peer.ID, proto protocol.ID, frame []byte) Action
}

// Action is the fate of one frame.
type Action struct {
	Drop  bool
	Dup   bool
	Delay time.Duration
	// Replace is sent instead, if not nil.
	Replace []byte
}

func pairKey(a, b peer.ID) string {
	if a > b {
		a, b = b, a
	}
	return string(a) + "|" + string(b)
}

// Host is a simulated libp2p host.
type Host struct {
	host.Host
	n        *Net
	id       peer.ID
	node     *rt.Node
	gen      int
	name     string
	addrs    []ma.Multiaddr
	handlers map[protocol.ID]network.StreamHandler
	known    map[peer.ID][]ma.Multiaddr
	closed   bool
	Raw      bool // a hostile or harness host: its frames are not interpreted
}

func addrKey(a ma.Multiaddr) string {
	s := a.String()
	if i := strings.Index(s, "/p2p/"); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, "/ipfs/"); i >= 0 {
		s = s[:i]
	}
	return s
}

// NewHost attaches a host to the current node.
func (n *Net) NewHost(id peer.ID, addrs []ma.Multiaddr) (*Host, error) {
	g := rt.Cur()
	if n.FailListen[g.Node.Name] > 0 {
		n.FailListen[g.Node.Name]--
		n.w.Count("net.listenfail")
		return nil, fmt.Errorf("failed to listen on any addresses: %v", addrs)
	}
	for _, a := range addrs {
		if h := n.byAddr[addrKey(a)]; h != nil && h.alive() {
			return nil, fmt.Errorf("failed to listen on any addresses: [listen %s: bind: address already in use]", a)
		}
	}
	h := &Host{n: n, id: id, node: g.Node, gen: g.Node.Gen, name: g.Node.Name, addrs: addrs,
		handlers: map[protocol.ID]network.StreamHandler{}, known: map[peer.ID][]ma.Multiaddr{}}
	n.hosts[id] = h
	for _, a := range addrs {
		n.byAddr[addrKey(a)] = h
	}
	return h, nil
}

// FailDHT says whether the current node fails to create (or to bootstrap) its part of the DHT.
func (n *Net) FailDHT(boot bool) bool {
	name := rt.Cur().Node.Name
	if n.FailFind[name] == 0 || (!boot && n.FailFind[name]%2 == 0) {
		return false
	}
	n.FailFind[name]--
	n.w.Count("net.dhtfail")
	return true
}

func (h *Host) alive() bool {
	return !h.closed && !h.node.Dead && h.node.Gen == h.gen
}

func (n *Net) name(id peer.ID) string {
	if h := n.hosts[id]; h != nil {
		return h.name
	}
	return "?"
}

// Host returns the live host of a peer.
func (n *Net) HostOf(id peer.ID) *Host {
	h := n.hosts[id]
	if h == nil || !h.alive() {
		return nil
	}
	return h
}

func (n *Net) lat(a, b peer.ID) time.Duration {
	k := 0
	if !n.Quiet {
		k = n.w.S.Decide("net:"+n.name(a)+">"+n.name(b), 64, n.PDelay)
	}
	if k == 0 {
		return n.MinLat
	}
	n.w.Count("net.delay")
	max := n.MaxLat
	if n.MaxDelay > max && k >= 60 {
		max = n.MaxDelay
	}
	f := float64(k) / 64
	return n.MinLat + time.Duration(float64(max)*f*f)
}

// Partition cuts or heals the link between two peers.
func (n *Net) Partition(a, b peer.ID, cut bool) {
	k := pairKey(a, b)
	if n.part[k] == cut {
		return
	}
	n.part[k] = cut
	n.w.S.Logf("NET %s-%s cut=%v", n.name(a), n.name(b), cut)
	if !cut {
		delete(n.part, k)
		if c := n.conns[k]; c != nil {
			c.flush()
		}
		return
	}
	n.w.Count("net.partition")
	if c := n.conns[k]; c != nil {
		// keep-alive notices a dead link after a while
		n.w.S.At(35*time.Second, func() {
			if n.part[k] && n.conns[k] == c {
				c.break_("keepalive timeout")
			}
		})
	}
}

// Break resets the connection between two peers.
func (n *Net) Break(a, b peer.ID) {
	if c := n.conns[pairKey(a, b)]; c != nil {
		n.w.Count("net.break")
		c.break_("connection reset by peer")
	}
}

// HostDied handles the death of a process; abrupt means no RST is sent.
func (n *Net) HostDied(id peer.ID, abrupt bool) {
	for _, k := range n.connKeys() {
		c := n.conns[k]
		if c == nil || (c.a.id != id && c.b.id != id) {
			continue
		}
		d := 5 * time.Millisecond
		if abrupt {
			d = 35 * time.Second
			n.w.Count("net.silent_death")
		}
		n.w.S.At(d, func() { c.break_("peer died") })
	}
}

func (n *Net) connKeys() []string {
	ks := make([]string, 0, len(n.conns))
	for k := range n.conns {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func sortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Streams counts open stream ends between two peers.
func (n *Net) Conns() int { return len(n.conns) }

// ---- connections

type conn struct {
	n       *Net
	a, b    *Host
	key     string
	broken  bool
	streams []*pair
}

type pair struct {
	c     *conn
	proto protocol.ID
	end   [2]*Stream // [0] dialer side
}

func (c *conn) break_(why string) {
	if c.broken {
		return
	}
	c.broken = true
	if c.n.conns[c.key] == c {
		delete(c.n.conns, c.key)
	}
	c.n.w.S.Logf("NET conn %s-%s broken: %s", c.a.name, c.b.name, why)
	for _, p := range c.streams {
		for _, e := range p.end {
			e.kill(errors.New("stream reset"))
		}
	}
	c.streams = nil
}

func (c *conn) flush() {
	for _, p := range c.streams {
		for _, e := range p.end {
			e.pump()
		}
	}
}

func (n *Net) getConn(h *Host, id peer.ID) *conn {
	c := n.conns[pairKey(h.id, id)]
	if c == nil || c.broken || !((c.a == h) || (c.b == h)) {
		return nil
	}
	return c
}

var errRefused = errors.New("failed to dial: connection refused")

// dial makes sure a connection exists.
func (h *Host) dial(ctx context.Context, id peer.ID) (*conn, error) {
	n := h.n
	if id == h.id {
		return nil, errors.New("dial to self attempted")
	}
	if c := n.getConn(h, id); c != nil {
		return c, nil
	}
	addrs := h.known[id]
	if len(addrs) == 0 {
		return nil, fmt.Errorf("failed to dial %s: no addresses", id)
	}
	rtt := n.lat(h.id, id) + n.lat(id, h.id)
	if err := sleepCtx(ctx, rtt); err != nil {
		return nil, err
	}
	if !n.Quiet && n.w.S.Chance("net.dialfail:"+h.name, n.PConnFail) {
		n.w.Count("net.dialfail")
		return nil, errRefused
	}
	if n.part[pairKey(h.id, id)] {
		if err := sleepCtx(ctx, 15*time.Second); err != nil {
			return nil, err
		}
		return nil, errors.New("failed to dial: i/o timeout")
	}
	if c := n.getConn(h, id); c != nil {
		return c, nil
	}
	var t *Host
	for _, a := range addrs {
		if x := n.byAddr[addrKey(a)]; x != nil && x.alive() && x.id == id {
			t = x
			break
		}
	}
	if t == nil {
		return nil, errRefused
	}
	c := &conn{n: n, a: h, b: t, key: pairKey(h.id, id)}
	if old := n.conns[c.key]; old != nil {
		old.break_("replaced")
	}
	n.conns[c.key] = c
	return c, nil
}

func sleepCtx(ctx context.Context, d time.Duration) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if dl, ok := ctx.Deadline(); ok {
		if left := dl.Sub(rt.WallNow()); left < d {
			rt.Sleep(left)
			return context.DeadlineExceeded
		}
	}
	rt.Sleep(d)
	return ctx.Err()
}

func (h *Host) ID() peer.ID           { return h.id }
func (h *Host) Name() string          { return h.name }
func (h *Host) Addrs() []ma.Multiaddr { return h.addrs }
func (h *Host) Close() error {
	if h.closed {
		return nil
	}
	h.closed = true
	h.n.HostDied(h.id, false)
	return nil
}

func (h *Host) SetStreamHandler(p protocol.ID, f network.StreamHandler) {
	rt.P()
	h.handlers[p] = f
}
func (h *Host) RemoveStreamHandler(p protocol.ID) { rt.P(); delete(h.handlers, p) }

func (h *Host) Connect(ctx context.Context, pi peer.AddrInfo) error {
	rt.P()
	h.known[pi.ID] = append([]ma.Multiaddr(nil), pi.Addrs...)
	_, err := h.dial(ctx, pi.ID)
	return err
}

// Learn adds addresses (used by raw hosts).
func (h *Host) Learn(id peer.ID, addrs []ma.Multiaddr) { h.known[id] = addrs }

func (h *Host) NewStream(ctx context.Context, id peer.ID, ps ...protocol.ID) (network.Stream, error) {
	rt.P()
	n := h.n
	c, err := h.dial(ctx, id)
	if err != nil {
		return nil, err
	}
	if err := sleepCtx(ctx, n.lat(h.id, id)); err != nil {
		return nil, err
	}
	if !n.Quiet && n.w.S.Chance("net.streamfail:"+h.name, n.PConnFail) {
		n.w.Count("net.streamfail")
		return nil, errors.New("stream reset")
	}
	if n.part[c.key] {
		if err := sleepCtx(ctx, 30*time.Second); err != nil {
			return nil, err
		}
	}
	if c.broken || n.part[c.key] {
		return nil, errors.New("stream reset")
	}
	t := c.b
	if t == h {
		t = c.a
	}
	if !t.alive() {
		return nil, errors.New("stream reset")
	}
	var f network.StreamHandler
	var proto protocol.ID
	for _, p := range ps {
		if x := t.handlers[p]; x != nil {
			f, proto = x, p
			break
		}
	}
	if f == nil {
		return nil, errors.New("protocol not supported")
	}
	p := &pair{c: c, proto: proto}
	p.end[0] = &Stream{p: p, side: 0, h: h, peer: t}
	p.end[1] = &Stream{p: p, side: 1, h: t, peer: h}
	c.streams = append(c.streams, p)
	n.w.Count("net.streams")
	n.w.S.Spawn(t.node, func() { f(p.end[1]) })
	return p.end[0], nil
}

// ---- streams

type seg struct {
	data []byte
	at   time.Duration
	eof  bool
}

// Stream is one end of a stream.
type Stream struct {
	network.Stream
	p        *pair
	side     int
	h, peer  *Host
	in       []byte // received, unread
	inEOF    bool
	err      error
	wire     []seg // in flight towards this end
	last     time.Duration
	wclosed  bool
	rq, wq   []*rt.G
	rdl, wdl time.Time
	pumping  bool
	Total    int64
	rbusy    bool
	fbuf     []byte
	fOff     bool
}

func (s *Stream) other() *Stream { return s.p.end[1-s.side] }

func wakeAll(q *[]*rt.G) {
	l := *q
	*q = nil
	for _, g := range l {
		rt.S.Ready(g)
	}
}

func (s *Stream) kill(err error) {
	if s.err != nil {
		return
	}
	s.err = err
	s.wire = nil
	wakeAll(&s.rq)
	wakeAll(&s.wq)
}

// pump delivers segments whose time has come.
func (s *Stream) pump() {
	n := s.p.c.n
	if s.err != nil || s.p.c.broken || n.part[s.p.c.key] {
		return
	}
	now := rt.S.Now()
	for len(s.wire) > 0 && s.wire[0].at <= now {
		sg := s.wire[0]
		s.wire = s.wire[1:]
		if sg.eof {
			s.inEOF = true
		} else {
			s.in = append(s.in, sg.data...)
		}
		wakeAll(&s.rq)
	}
	if len(s.wire) > 0 && !s.pumping {
		s.pumping = true
		rt.S.At(s.wire[0].at-now, func() { s.pumping = false; s.pump() })
	}
}

func (s *Stream) backlog() int {
	b := len(s.in)
	for _, x := range s.wire {
		b += len(x.data)
	}
	return b
}

func (s *Stream) queue(sg seg) {
	// travels to s
	from := s.peer
	d := s.p.c.n.lat(from.id, s.h.id)
	at := rt.S.Now() + d
	if at < s.last {
		at = s.last
	}
	s.last = at
	sg.at = at
	s.wire = append(s.wire, sg)
	s.pump()
}

func (s *Stream) wait(q *[]*rt.G, dl time.Time) error {
	g := rt.Cur()
	if dl.IsZero() {
		*q = append(*q, g)
		rt.Park("stream")
		return nil
	}
	left := dl.Sub(rt.WallNow())
	if left <= 0 {
		return os.ErrDeadlineExceeded
	}
	*q = append(*q, g)
	t := rt.S.At(left, func() { rt.S.Ready(g) })
	rt.Park("stream")
	t.Stop()
	for i, x := range *q { // woken by the deadline: nobody may wake it for this wait any more
		if x == g {
			*q = append(append([]*rt.G(nil), (*q)[:i]...), (*q)[i+1:]...)
			break
		}
	}
	return nil
}

func (s *Stream) Read(b []byte) (int, error) {
	rt.P()
	for {
		if len(s.in) > 0 {
			n := len(s.in)
			if n > len(b) {
				n = len(b)
			}
			nt := s.p.c.n
			if n > 1 && !nt.Quiet {
				if k := nt.w.S.Decide("net.short:"+s.h.name, 16, nt.PFrag); k > 0 {
					nt.w.Count("net.shortread")
					n = 1 + (n-1)*k/16
				}
			}
			copy(b, s.in[:n])
			s.in = s.in[n:]
			if len(s.in) == 0 {
				s.in = nil
			}
			wakeAll(&s.other().wq)
			return n, nil
		}
		if s.err != nil {
			return 0, s.err
		}
		if s.inEOF {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		if !s.rdl.IsZero() && !rt.WallNow().Before(s.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if err := s.wait(&s.rq, s.rdl); err != nil {
			return 0, err
		}
	}
}

func (s *Stream) Write(b []byte) (int, error) {
	rt.P()
	n := s.p.c.n
	written := 0
	if !n.Quiet && s.err == nil && n.w.S.Chance("net.reset:"+s.h.name+">"+s.peer.name, n.PReset) {
		n.w.Count("net.reset")
		cut := 0
		if len(b) > 0 {
			cut = n.w.S.Decide("net.resetat", len(b)+1, 0.7)
		}
		s.push(b[:cut])
		s.p.c.break_("reset during write")
		return cut, errors.New("stream reset")
	}
	for {
		if s.err != nil {
			n.WriteErrs++
			return written, s.err
		}
		if s.wclosed {
			return written, errors.New("write on closed stream")
		}
		if written == len(b) {
			return written, nil
		}
		room := n.Window - s.other().backlog()
		if room > 0 {
			k := len(b) - written
			if k > room {
				k = room
			}
			s.push(b[written : written+k])
			written += k
			continue
		}
		n.w.Count("net.window_full")
		if !s.wdl.IsZero() && !rt.WallNow().Before(s.wdl) {
			return written, os.ErrDeadlineExceeded
		}
		if err := s.wait(&s.wq, s.wdl); err != nil {
			return written, err
		}
	}
}

// push puts bytes on the wire, possibly in fragments.
func (s *Stream) push(b []byte) {
	n := s.p.c.n
	s.Total += int64(len(b))
	if (n.Tap != nil || n.Filter != nil) && !s.h.Raw {
		if b = s.frames(b); len(b) == 0 {
			return
		}
	}
	s.forward(b, 0)
}

// frames follows the length-prefixed messages on the stream; it returns the bytes to forward now.
func (s *Stream) frames(b []byte) []byte {
	n := s.p.c.n
	if s.fOff {
		return b
	}
	s.fbuf = append(s.fbuf, b...)
	var out []byte
	for {
		if len(s.fbuf) < 4 {
			break
		}
		l := int(binary.LittleEndian.Uint32(s.fbuf))
		if l > 20000000 {
			s.fOff = true
			out = append(out, s.fbuf...)
			s.fbuf = nil
			break
		}
		if len(s.fbuf) < 4+l {
			break
		}
		f := append([]byte(nil), s.fbuf[:4+l]...)
		s.fbuf = s.fbuf[4+l:]
		if n.Tap != nil {
			n.Tap(s.h.id, s.peer.id, s.p.proto, f[4:])
		}
		if n.Filter != nil {
			a := n.Filter(s.h.id, s.peer.id, s.p.proto, f[4:])
			if a.Replace != nil {
				f = make([]byte, 4)
				binary.LittleEndian.PutUint32(f, uint32(len(a.Replace)))
				f = append(f, a.Replace...)
			}
			switch {
			case a.Drop:
				n.w.Count("net.msg_lost")
				continue
			case a.Delay > 0:
				n.w.Count("net.msg_delayed")
				rt.S.At(a.Delay, func() { s.forward(f, 0) })
				continue
			case a.Dup:
				n.w.Count("net.msg_dup")
				out = append(out, f...)
			}
		}
		out = append(out, f...)
	}
	if n.Filter == nil {
		return b
	}
	return out
}

func (s *Stream) forward(b []byte, _ int) {
	n := s.p.c.n
	o := s.other()
	for len(b) > 0 {
		k := len(b)
		if k > 1 && !n.Quiet {
			if f := n.w.S.Decide("net.frag:"+s.h.name, 16, n.PFrag); f > 0 {
				n.w.Count("net.fragment")
				k = 1 + (k-1)*f/16
			}
		}
		o.queue(seg{data: append([]byte(nil), b[:k]...)})
		b = b[k:]
	}
}

func (s *Stream) CloseWrite() error {
	rt.P()
	if s.err == nil && !s.wclosed {
		s.wclosed = true
		s.other().queue(seg{eof: true})
	}
	return nil
}
func (s *Stream) CloseRead() error { return nil }
func (s *Stream) Close() error     { return s.CloseWrite() }
func (s *Stream) Reset() error {
	rt.P()
	o := s.other()
	s.kill(errors.New("stream reset"))
	rt.S.At(s.p.c.n.MinLat, func() { o.kill(errors.New("stream reset")) })
	return nil
}
func (s *Stream) SetDeadline(t time.Time) error {
	s.SetReadDeadline(t)
	return s.SetWriteDeadline(t)
}
func (s *Stream) SetReadDeadline(t time.Time) error  { s.rdl = t; wakeAll(&s.rq); return nil }
func (s *Stream) SetWriteDeadline(t time.Time) error { s.wdl = t; wakeAll(&s.wq); return nil }
func (s *Stream) ID() string                         { return fmt.Sprintf("%p", s) }
func (s *Stream) Protocol() protocol.ID              { return s.p.proto }
func (s *Stream) SetProtocol(protocol.ID) error      { return nil }
func (s *Stream) Stat() network.Stats                { return network.Stats{} }
func (s *Stream) Conn() network.Conn                 { return connView{s: s} }

type connView struct {
	network.Conn
	s *Stream
}

func (c connView) RemotePeer() peer.ID           { return c.s.peer.id }
func (c connView) LocalPeer() peer.ID            { return c.s.h.id }
func (c connView) RemoteMultiaddr() ma.Multiaddr { return c.s.peer.addrs[0] }
func (c connView) LocalMultiaddr() ma.Multiaddr  { return c.s.h.addrs[0] }
func (c connView) Close() error                  { c.s.p.c.break_("closed"); return nil }
