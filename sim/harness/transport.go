package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"time"

	"github.com/libp2p/go-libp2p/core/network"
	ma "github.com/multiformats/go-multiaddr"

	"github.com/sisu-network/dheart/p2p"
	p2ptypes "github.com/sisu-network/dheart/p2p/types"
	rt "github.com/sisu-network/dheart/zzsim/rt"
	"github.com/sisu-network/dheart/zzsim/world"
)

// ---------------------------------------------------------------------------- C14

// transport is a group of real connection managers.
type transport struct {
	r     *Run
	hosts []*tHost
	sent  map[uint32]*tMsg
	next  uint32
	raw   map[string]int // content of frames written by the raw host that may be delivered, once each
	rawID string
}

type tHost struct {
	t        *transport
	i        int
	val      *Val
	node     *rt.Node
	cm       p2p.ConnectionManager
	gen      int
	started  int
	listens  time.Duration // when the listener was registered
	listGen  int
	empties  int
	received int
}

type tMsg struct {
	id       uint32
	from, to int
	data     []byte
	inv, ret time.Duration
	err      error
	gen      int // of the receiver when it was sent
	got      int
	gotAt    time.Duration
}

func (t *transport) fail(class, f string, a ...interface{}) { t.r.Fail("C14", class, f, a...) }

// listener of one process
type tListener struct {
	h   *tHost
	gen int
}

func (l *tListener) OnNetworkMessage(m *p2ptypes.P2PMessage) { l.h.receive(m) }

func (h *tHost) receive(m *p2ptypes.P2PMessage) {
	t := h.t
	r := t.r
	r.Stats["checked"]++
	h.received++
	if len(m.Data) == 0 {
		h.empties++
		return
	}
	if m.FromPeerId == t.rawID {
		k := string(m.Data)
		if t.raw[k] == 0 {
			t.fail("raw-frame", "node %d was handed %d bytes as a message of a peer that sent no such frame", h.i, len(m.Data))
			return
		}
		t.raw[k]--
		return
	}
	if len(m.Data) < 4 {
		t.fail("altered", "node %d received %d bytes that were never sent", h.i, len(m.Data))
		return
	}
	x := t.sent[binary.LittleEndian.Uint32(m.Data)]
	switch {
	case x == nil || !bytes.Equal(x.data, m.Data):
		t.fail("altered", "node %d received a message of %d bytes that nobody sent (from %s)", h.i, len(m.Data), m.FromPeerId)
	case x.to != h.i:
		t.fail("misrouted", "message %d for node %d arrived at node %d", x.id, x.to, h.i)
	case m.FromPeerId != t.hosts[x.from].val.ID:
		t.fail("wrong-sender", "message %d of node %d arrived as a message of %s", x.id, x.from, m.FromPeerId)
	case x.got > 0:
		t.fail("twice", "message %d arrived twice", x.id)
	default:
		x.got++
		x.gotAt = r.S.Now()
		r.Event(h.node.Name, fmt.Sprint("got", sizeClass(len(x.data))))
	}
}

func sizeClass(n int) int {
	k := 0
	for n > 0 {
		n >>= 3
		k++
	}
	return k
}

// boot starts a process with a connection manager; the listener comes with it or later.
func (h *tHost) boot(late time.Duration) {
	t := h.t
	r := t.r
	r.S.Revive(h.node)
	h.gen++
	gen := h.gen
	var peers []*p2ptypes.Peer
	for j, o := range t.hosts {
		if j != h.i {
			peers = append(peers, &p2ptypes.Peer{Address: fmt.Sprintf("/ip4/10.0.0.%d/tcp/28300/p2p/%s", j+1, o.val.ID), PubKey: hex.EncodeToString(o.val.Pub.Bytes()), PubKeyType: o.val.Type})
		}
	}
	cfg := p2ptypes.ConnectionsConfig{Host: fmt.Sprintf("10.0.0.%d", h.i+1), Port: 28300, Rendezvous: "rendezvous", Peers: peers}
	r.S.Spawn(h.node, func() {
		h.cm = p2p.NewConnectionManager(cfg)
		if late == 0 {
			h.cm.AddListener(p2p.TSSProtocolID, &tListener{h, gen})
			h.listens, h.listGen = r.S.Now(), gen
		} else {
			rt.Go(func() {
				rt.Sleep(late)
				h.cm.AddListener(p2p.TSSProtocolID, &tListener{h, gen})
				h.listens, h.listGen = r.S.Now(), gen
			})
		}
		if err := h.cm.Start(h.val.Priv.Bytes(), h.val.Type); err != nil {
			t.fail("start", "the connection manager does not start: %v", err)
			return
		}
		h.started = gen
	})
}

func (h *tHost) up() bool { return !h.node.Dead && h.started == h.gen }

func (t *transport) body(size int) (uint32, []byte) {
	t.next++
	d := make([]byte, size)
	t.r.Rng.Read(d)
	binary.LittleEndian.PutUint32(d, t.next)
	return t.next, d
}

// send writes one message on a goroutine of the sender and waits until the call returned.
func (h *tHost) send(to int, size int) *tMsg {
	t := h.t
	m := &tMsg{from: h.i, to: to, gen: t.hosts[to].gen}
	m.id, m.data = t.body(size)
	t.sent[m.id] = m
	m.inv = t.r.S.Now()
	m.err = h.cm.WriteToStream(t.hosts[to].val.Peer, p2p.TSSProtocolID, append([]byte(nil), m.data...))
	m.ret = t.r.S.Now()
	return m
}

func (t *transport) size() int {
	r := t.r
	switch r.Pick("size", 10) {
	case 0:
		return 4
	case 1, 2, 3, 4:
		return 4 + r.Rng.Intn(400)
	case 5, 6:
		return 4080 + r.Rng.Intn(32) // around the buffer size
	case 7, 8:
		return 4096 + r.Rng.Intn(60000)
	default:
		return 70000 + r.Rng.Intn(130000)
	}
}

func transportMain(r *Run) {
	t := &transport{r: r, sent: map[uint32]*tMsg{}, raw: map[string]int{}}
	n := 2 + r.Pick("n", 2)
	hostile := r.Chance("raw", 0.4)
	total := n
	if hostile {
		total++
	}
	for i := 0; i < total; i++ {
		kind := "ed25519"
		if r.Grp.Intn(2) == 0 {
			kind = "secp256k1"
		}
		t.hosts = append(t.hosts, &tHost{t: t, i: i, val: newVal(i, kind), node: r.S.NewNode(fmt.Sprint("n", i))})
	}
	r.S.OnCrash = func(c rt.Crash) {
		for _, h := range t.hosts {
			if h.node == c.Node {
				t.fail("crash@"+siteFunc(rt.CrashSite(c.Stack)), "node %d crashed: %s at %s", h.i, c.Val, rt.CrashSite(c.Stack))
				return
			}
		}
		r.Fail("HARNESS", "harness-crash", "%s at %s", c.Val, rt.CrashSite(c.Stack))
	}
	net := r.W.Net
	net.PDelay = 0.3
	net.PFrag = 0.5 * float64(r.Pick("frag", 3)) / 2
	if r.Chance("window", 0.3) {
		net.Window = 8192
	}
	var raw *rawHost
	if hostile {
		raw = t.rawHost(total - 1)
	}
	for _, h := range t.hosts[:n] {
		late := time.Duration(0)
		if r.Chance("late", 0.2) {
			late = sec + r.pickTime("lateby", 30*sec)
		}
		h.boot(late)
	}
	up := func() bool {
		for _, h := range t.hosts[:n] {
			if !h.up() {
				return false
			}
		}
		return true
	}
	if !r.Until(400*sec, up) {
		t.fail("start", "not every connection manager finished its start")
		return
	}
	mode := r.Pick("mode", 5)
	clean := mode <= 1
	switch mode {
	case 2:
		net.PReset = []float64{0.002, 0.01, 0.05}[r.Pick("preset", 3)]
		net.PConnFail = []float64{0, 0.1, 0.3}[r.Pick("pconn", 3)]
	case 3:
		for k := 0; k <= r.Pick("cuts", 3); k++ {
			a, b := r.Pick("a", n), r.Pick("b", n)
			if a == b {
				continue
			}
			at := r.pickTime("cutat", 20*sec)
			pa, pb := t.hosts[a].val.Peer, t.hosts[b].val.Peer
			if r.Chance("break", 0.4) {
				r.S.At(at, func() { net.Break(pa, pb) })
				continue
			}
			r.S.At(at, func() { net.Partition(pa, pb, true) })
			r.S.At(at+r.pickTime("cutfor", 60*sec), func() { net.Partition(pa, pb, false) })
		}
	case 4:
		for k := 0; k <= r.Pick("kills", 2); k++ {
			h := t.hosts[r.Pick("victim", n)]
			at := r.pickTime("killat", 20*sec)
			back := sec + r.pickTime("back", 30*sec)
			abrupt := r.Chance("abrupt", 0.5)
			r.S.Spawn(r.S.Root(), func() {
				rt.Sleep(at)
				if h.node.Dead {
					return
				}
				r.S.Kill(h.node)
				r.W.Count("crash.planned")
				net.HostDied(h.val.Peer, abrupt)
				rt.Sleep(back)
				if h.node.Dead {
					h.boot(0)
				}
			})
		}
	}
	if raw != nil {
		r.S.Spawn(raw.node, raw.attack)
	}
	// the traffic
	writers := 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			for w := 0; w < 1+r.Pick("writers", 3); w++ {
				h, j, k := t.hosts[i], j, 2+r.Pick("msgs", 10)
				writers++
				gen := h.gen
				r.S.Spawn(h.node, func() {
					for x := 0; x < k && h.gen == gen; x++ {
						rt.Sleep(r.pickTime("pause", []time.Duration{0, ms, 100 * ms, 5 * sec}[r.Pick("pausekind", 4)]))
						m := h.send(j, t.size())
						if clean && m.err != nil {
							t.fail("write-error", "writing %d bytes from node %d to node %d on an intact network fails: %v", len(m.data), h.i, j, m.err)
						}
						if d := m.ret - m.inv; d > 400*sec {
							t.fail("write-blocks", "a write took %v", d)
						}
					}
					writers--
				})
			}
			if raw != nil && r.Chance("toraw", 0.5) {
				h := t.hosts[i]
				r.S.Spawn(h.node, func() {
					for x := 0; x < 20; x++ {
						h.cm.WriteToStream(raw.val.Peer, p2p.TSSProtocolID, r.Rng.Bytes(20000))
						rt.Sleep(100 * ms)
					}
				})
			}
		}
	}
	r.Until(600*sec, func() bool { return writers == 0 || !clean && r.S.Now() > 300*sec })
	if clean && writers > 0 && r.S.Runaway == "" {
		t.fail("write-blocks", "%d writers have not finished after 600 s on an intact network: %v", writers, r.S.Stuck(t.hosts[0].node, 60*sec))
		return
	}
	r.sleep(10 * sec)
	if clean {
		for id := uint32(1); id <= t.next; id++ {
			m := t.sent[id]
			if m == nil || m.err != nil || m.ret == 0 {
				continue
			}
			if to := t.hosts[m.to]; m.got == 0 && to.listens > 0 && m.inv > to.listens {
				t.fail("lost", "a message of %d bytes from node %d to node %d on an intact network did not arrive", len(m.data), m.from, m.to)
				return
			}
		}
	}
	// faults stop; traffic flows again in every direction, also after a node was restarted
	net.PReset, net.PConnFail = 0, 0
	net.Quiet = true
	for i := range t.hosts {
		for j := range t.hosts {
			if i != j {
				net.Partition(t.hosts[i].val.Peer, t.hosts[j].val.Peer, false)
			}
		}
	}
	r.sleep(60 * sec)
	if !r.Until(400*sec, up) {
		t.fail("start", "a connection manager did not start again")
		return
	}
	r.Until(60*sec, func() bool { // late listeners
		for _, h := range t.hosts[:n] {
			if h.listGen != h.gen {
				return false
			}
		}
		return true
	})
	probes := 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			h, j := t.hosts[i], j
			probes++
			r.S.Spawn(h.node, func() {
				var last []*tMsg
				for x := 0; x < 5; x++ {
					last = append(last, h.send(j, 4+r.Rng.Intn(3000)))
					rt.Sleep(12 * sec)
				}
				for _, m := range last[3:] {
					if m.got != 1 {
						t.fail("no-recovery", "after all faults stopped, the messages of node %d to node %d still do not arrive (write error: %v)", h.i, j, m.err)
					}
				}
				probes--
			})
		}
	}
	if !r.Until(600*sec, func() bool { return probes == 0 }) && r.S.Runaway == "" {
		t.fail("write-blocks", "writes after all faults stopped do not return: %v", r.S.Stuck(t.hosts[0].node, 60*sec))
	}
	if len(r.Viol) == 0 && r.S.Runaway == "" && r.Chance("big", 0.05) {
		t.limits()
	}
	if raw != nil && len(r.Viol) == 0 {
		raw.final(n)
	}
}

// limits sends messages of the largest size, and of one byte more.
func (t *transport) limits() {
	r := t.r
	const max = 20000000
	h, to := t.hosts[0], 1
	done := false
	r.S.Spawn(h.node, func() {
		defer func() { done = true }()
		r.W.Net.Window = 4 * max // or else the latency makes the write time out
		for _, size := range []int{max, max - 1} {
			m := h.send(to, size)
			rt.Sleep(10 * sec)
			if m.got != 1 {
				t.fail("lost-large", "a message of %d bytes, which is within the limit, from node %d to node %d on an intact network did not arrive (write error: %v)", size, h.i, to, m.err)
				return
			}
		}
		r.W.Net.Window = 256 << 10
		m := h.send(to, max+1)
		if m.ret-m.inv > 60*sec {
			t.fail("write-blocks", "the write of a message that is too large took %v", m.ret-m.inv)
		}
		for x := 0; x < 4; x++ {
			rt.Sleep(12 * sec)
			m = h.send(to, 100)
		}
		rt.Sleep(12 * sec)
		if m.got != 1 {
			t.fail("no-recovery", "after a message that was too large, the messages of node %d to node %d do not arrive (write error: %v)", h.i, to, m.err)
		}
		r.Count("checked.limits")
	})
	if !r.Until(600*sec, func() bool { return done }) && r.S.Runaway == "" && len(r.Viol) == 0 {
		t.fail("write-blocks", "writes of large messages do not return: %v", r.S.Stuck(h.node, 60*sec))
	}
}

// rawHost is a configured peer that does not run dheart.
type rawHost struct {
	*tHost
	h *world.Host
}

func (t *transport) rawHost(i int) *rawHost {
	x := &rawHost{tHost: t.hosts[i]}
	t.rawID = x.val.ID
	r := t.r
	ok := false
	reads := r.Chance("reads", 0.3)
	r.S.Spawn(x.node, func() {
		a, _ := ma.NewMultiaddr(fmt.Sprintf("/ip4/10.0.0.%d/tcp/28300", i+1))
		h, err := r.W.Net.NewHost(x.val.Peer, []ma.Multiaddr{a})
		if err != nil {
			return
		}
		h.Raw = true
		for j := 0; j < i; j++ {
			b, _ := ma.NewMultiaddr(fmt.Sprintf("/ip4/10.0.0.%d/tcp/28300", j+1))
			h.Learn(t.hosts[j].val.Peer, []ma.Multiaddr{b})
		}
		h.SetStreamHandler(p2p.TSSProtocolID, func(s network.Stream) {
			b := make([]byte, 1000)
			for reads {
				if _, err := s.Read(b); err != nil {
					return
				}
			}
		})
		x.h = h
		ok = true
	})
	r.Until(sec, func() bool { return ok })
	return x
}

func frame(b []byte) []byte {
	l := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(l, uint32(len(b)))
	return append(l, b...)
}

func (x *rawHost) stream(to int) network.Stream {
	ctx := context.Background()
	s, err := x.h.NewStream(ctx, x.t.hosts[to].val.Peer, p2p.TSSProtocolID)
	if err != nil {
		return nil
	}
	return s
}

// attack sends the honest nodes frames that are not what they should be.
func (x *rawHost) attack() {
	t := x.t
	r := t.r
	n := len(t.hosts) - 1
	for k := 0; k < 2+r.Pick("attacks", 8); k++ {
		rt.Sleep(r.pickTime("attackat", 5*sec))
		to := r.Pick("target", n)
		s := x.stream(to)
		if s == nil {
			continue
		}
		good := r.Rng.Bytes(20 + r.Rng.Intn(100))
		t.raw[string(good)]++
		kind := r.Pick("attack", 8)
		r.W.Count(fmt.Sprint("raw.attack", kind))
		switch kind {
		case 0: // a length above the limit, and some bytes
			l := make([]byte, 4)
			binary.LittleEndian.PutUint32(l, []uint32{20000001, 0x7fffffff, 0x80000000, 0xffffffff}[r.Pick("len", 4)])
			s.Write(l)
			s.Write(r.Rng.Bytes(100))
		case 1: // a frame that never ends
			s.Write(frame(good)[:3+r.Pick("cut", 15)])
		case 2: // and is cut off
			s.Write(frame(good)[:3+r.Pick("cut", 15)])
			s.Reset()
		case 3:
			s.Write(frame(good)[:3+r.Pick("cut", 15)])
			s.CloseWrite()
		case 4: // many frames in one write, empty ones between
			g2 := r.Rng.Bytes(30)
			t.raw[string(g2)]++
			s.Write(append(append(frame(nil), frame(good)...), append(frame(nil), frame(g2)...)...))
		case 5: // bytes one by one
			for _, b := range frame(good) {
				s.Write([]byte{b})
			}
		case 6: // really too long
			if r.Chance("big", 0.1) {
				s.SetWriteDeadline(rt.WallNow().Add(120 * sec))
				s.Write(frame(make([]byte, 20000001)))
			}
		default:
			s.Write(r.Rng.Bytes(200)) // a random length, usually far above the limit
		}
	}
}

// final checks that well-formed frames of the peer are still delivered.
func (x *rawHost) final(n int) {
	t := x.t
	r := t.r
	done := false
	r.S.Spawn(x.node, func() {
		for to := 0; to < n; to++ {
			ok := false
			for try := 0; try < 4 && !ok; try++ {
				s := x.stream(to)
				if s == nil {
					rt.Sleep(5 * sec)
					continue
				}
				good := r.Rng.Bytes(50)
				t.raw[string(good)]++
				s.Write(frame(good))
				rt.Sleep(5 * sec)
				ok = t.raw[string(good)] == 0
			}
			if !ok {
				t.fail("peer-disabled", "after malformed frames, well-formed ones of the same peer are not delivered by node %d any more", to)
			}
		}
		done = true
	})
	r.Until(300*sec, func() bool { return done })
}

var pTransport = &Prof{Name: "transport", Main: transportMain, Race: true}
